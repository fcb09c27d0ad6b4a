From 3c00af79941937ed5ede443a3aa64e007f2bc65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 01/16] fix: count Newton-Raphson iterations instead of moving
 the counter pointer

'*its++' advances the pointer: the reported number of iterations stayed 0 and
the iteration limit was tested on whatever lies behind the caller's variable.
---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From c892b0938ea656d43047b2e0d427b861ac3ffec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 02/16] fix: take the invariant tolerance from the constructor
 argument

inv_tol was initialised from the (still uninitialised) member array.
---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From 8cbcbd726e57d317c85e41b86b34014cb640a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 03/16] fix: start displacements and internal variables from
 zero

calc_ctan_lin() in the constructor solved with whatever malloc() returned as
plastic history and as initial displacements; the internal variables of
non-plastic elements were never written at all.
---
 src/micro.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..8b02c52 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -67,6 +67,14 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
 
+	for (int i = 0; i < nn * dim; i++)
+		u[i] = 0.0;
+
+	for (int i = 0; i < num_int_vars; i++) {
+		vars_old[i] = 0.0;
+		vars_new[i] = 0.0;
+	}
+
 	int nParams;
 	if (micro_type == 0) {
 		// mat 1 = matrix
-- 
2.43.0


From b0e7b0c633d3ec12f97c197047431886a586b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:21 +0000
Subject: [PATCH 04/16] fix: divide the 3D averages by the volume of the cell

The averages of stress and strain ignored lz, so they were wrong in 3D for
every cell with lz != 1.
---
 src/assembly.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..ec30e92 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -783,8 +783,9 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 		}
 	}
 
+	const double vol = (dim == 2) ? lx * ly : lx * ly * lz;
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= vol;
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -839,8 +840,9 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 		}
 	}
 
+	const double vol = (dim == 2) ? lx * ly : lx * ly * lz;
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= vol;
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 0e07a267c5dc3726e092326c006343cbcdcf7ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:22 +0000
Subject: [PATCH 05/16] fix: an element is non-linear if any of its Gauss
 points is

get_stress3D() resets the flag at every Gauss point, so only the last one of
each element counted and plastic flow elsewhere was lost.
---
 src/assembly.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index ec30e92..5c60c4e 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -705,13 +705,18 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
+	*non_linear = false;
+
 	for (int gp = 0; gp < 8; gp++) {
 
 		calc_bmat_3D(gp, bmat);
 
+		bool non_linear_gp;
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From d55f5c7d33a88bcb4624d238c75d88cb352c2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:22 +0000
Subject: [PATCH 06/16] fix: do not commit the variables of an earlier,
 discarded evaluation

After an evaluation without plastic flow, int_vars_k kept the values of the
previous plastic evaluation and update_vars() committed those.
---
 src/homogenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..46e19a9 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -177,9 +177,10 @@ void micropp_t::homogenize()
 					for (int i = 0; i < num_int_vars; ++i)
 						gp.int_vars_n[i] = 0.0;
 				}
+			}
+			if (gp.int_vars_n != NULL)
 				for (int i = 0; i < num_int_vars; ++i)
 					gp.int_vars_k[i] = vars_new[i];
-			}
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From ea1d836d1f4aeb1e8ca241afc3da8b658a30b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:22 +0000
Subject: [PATCH 07/16] fix: shear strains are 2*e_ij, shear plastic strains
 are e_ij

The plastic strain is stored as a tensor (eps_p += dl * normal), the strain
with engineering shears. Without the 2 a committed plastic shear step was
forgotten by half and the same strain yielded again at every evaluation.
---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 5c60c4e..13882fc 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1029,7 +1029,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From 47b60bfb113fb1d1cb8be4aad387dba3820b7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:22 +0000
Subject: [PATCH 08/16] fix: use the hardening modulus in the plastic
 multiplier

With the term switched off the stress returned to the yield surface of the
previous step instead of the current one.
---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 13882fc..783227f 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1046,7 +1046,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		for (int i = 0; i < 6; ++i)
 			normal[i] = sig_dev_trial[i] / sig_dev_trial_norm;
 
-		dl = f_trial / (2 * material->mu * (1.0 + (0.0 * material->Ka) / (3 * material->mu)));
+		dl = f_trial / (2 * material->mu * (1.0 + material->Ka / (3 * material->mu)));
 
 		for (int i = 0; i < 6; ++i)
 			eps_p_new[i] = eps_p_old[i] + dl * normal[i];
-- 
2.43.0


From 347116b2cd60af30631e0cfae26e6a13800855a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 09/16] fix: column of the upper neighbour on the right side of
 2D grids

Slot 7 of the nodes with x = lx pointed at the node itself.
---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..1a58404 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -837,7 +837,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From cf3fff8024e7e3e2a0bc52a6de42a6d44f4b395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 10/16] fix: decouple all inner nodes from the boundary of 2D
 grids

The columns of the boundary were not (all) cleared in the rows next to y = ly,
next to x = lx and in the corner between them, which left the matrix
unsymmetric.
---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index 1a58404..e9f97f0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -461,7 +461,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -482,7 +482,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -516,7 +516,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From c576e1d50b39863b96ca2d53c6811a9d42b4648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 11/16] fix: free the work vectors of the Jacobi solver

---
 src/ell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell.cpp b/src/ell.cpp
index e9f97f0..8d5047f 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0


From 5810e0d4c865b7ee25ba24a1d52b0ed335c82365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 12/16] fix: start a new Gauss point from zero

Stress, tangent and convergence data were uninitialised until the first
evaluation, and in 2D the components that do not exist always; all of them
are written to the information files.
---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 46e19a9..5e2fd4c 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = {};
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From d9fc0caad8261a35a37d42317217aad9b5c6d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:27 +0000
Subject: [PATCH 13/16] fix: start the Newton iterations from the uniform
 strain, not from the previous evaluation

---
 include/micro.hpp  |  1 +
 src/assembly.cpp   | 24 ++++++++++++++++++++++++
 src/homogenize.cpp |  1 +
 src/output.cpp     |  1 +
 4 files changed, 27 insertions(+)

diff --git a/include/micro.hpp b/include/micro.hpp
index 06970f1..1620234 100644
--- a/include/micro.hpp
+++ b/include/micro.hpp
@@ -115,6 +115,7 @@ class micropp_t {
 		void get_nl_flag(int gp_id, int *nl_flag);
 
 		void set_displ(double *eps);
+		void set_displ_uniform(const double *eps);
 		double assembly_rhs(bool *nl_flag);
 
 		void get_elem_rhs2D(int ex, int ey, bool *nl_flag, double (&be)[2 * 4]);
diff --git a/src/assembly.cpp b/src/assembly.cpp
index 783227f..eddc2f9 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -167,6 +167,30 @@ void micropp_t::set_displ(double *eps)
 	}
 }
 
+void micropp_t::set_displ_uniform(const double *eps)
+{
+	// uniform strain in the whole cell
+
+	for (int k = 0; k < nz; k++) {
+		for (int j = 0; j < ny; j++) {
+			for (int i = 0; i < nx; i++) {
+				int n = nod_index(i, j, k);
+				double xcoor = i * dx;
+				double ycoor = j * dy;
+				if (dim == 2) {
+					u[n * dim] = eps[0] * xcoor + 0.5 * eps[2] * ycoor;
+					u[n * dim + 1] = 0.5 * eps[2] * xcoor + eps[1] * ycoor;
+				} else if (dim == 3) {
+					double zcoor = k * dz;
+					u[n * dim] = eps[0] * xcoor + 0.5 * eps[3] * ycoor + 0.5 * eps[4] * zcoor;
+					u[n * dim + 1] = 0.5 * eps[3] * xcoor + eps[1] * ycoor + 0.5 * eps[5] * zcoor;
+					u[n * dim + 2] = 0.5 * eps[4] * xcoor + 0.5 * eps[5] * ycoor + eps[2] * zcoor;
+				}
+			}
+		}
+	}
+}
+
 double micropp_t::assembly_rhs(bool * non_linear)
 {
 	int index[3 * 8];
diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 5e2fd4c..eeac03e 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -166,6 +166,7 @@ void micropp_t::homogenize()
 			int nr_its;
 			bool nl_flag;
 			double nr_err;
+			set_displ_uniform(gp.macro_strain);
 			set_displ(gp.macro_strain);
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 			calc_ave_stress(gp.macro_stress);
diff --git a/src/output.cpp b/src/output.cpp
index 992b82b..d08e4c7 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -40,6 +40,7 @@ void micropp_t::output(int time_step, int gp_id)
 			int nr_its;
 			bool nl_flag;
 			double nr_err;
+			set_displ_uniform(gp.macro_strain);
 			set_displ((double *)gp.macro_strain);
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 
-- 
2.43.0


From 85d69b95995d92baad2356874e980d747277187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:27 +0000
Subject: [PATCH 14/16] fix: free the previous instance when the wrapper
 constructs a new one

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..35926d3 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,7 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0


From 92457e6ae8bbd7d934722e3d1bc6c39d51c26391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 15/16] fix: write files in the classic locale whatever the
 global locale of the host

---
 src/micro.cpp  | 1 +
 src/output.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/micro.cpp b/src/micro.cpp
index 8b02c52..f1082dd 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -92,6 +92,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 		micro_params[i] = _micro_params[i];
 
 	ofstream file;
+	file.imbue(std::locale::classic());
 	file.open("micropp_materials.dat");
 	file << scientific;
 	for (int i = 0; i < numMaterials; i++) {
diff --git a/src/output.cpp b/src/output.cpp
index d08e4c7..5707f81 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -53,10 +53,12 @@ void micropp_t::output(int time_step, int gp_id)
 void micropp_t::write_vtu(int time_step, int gp_id)
 {
 	std::stringstream fname_vtu_s;
+	fname_vtu_s.imbue(std::locale::classic());
 	fname_vtu_s << "micropp_" << gp_id << "_" << time_step << ".vtu";
 	std::string fname_vtu = fname_vtu_s.str();
 
 	ofstream file;
+	file.imbue(std::locale::classic());
 	file.open(fname_vtu);
 	file << "<?xml version=\"1.0\"?>" << endl
 	     <<
@@ -225,6 +227,7 @@ void micropp_t::write_vtu(int time_step, int gp_id)
 void micropp_t::write_info_files()
 {
 	ofstream file;
+	file.imbue(std::locale::classic());
 	if (output_files_header == false) {
 		output_files_header = true;
 
-- 
2.43.0


From fa480f496d19052b9e28e355b5f7005914a4e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:18 +0000
Subject: [PATCH 16/16] fix: no division by zero for the unused element depth
 of 2D cells

---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index f1082dd..5973712 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -42,7 +42,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 
 	dx(lx / (nx - 1)),
 	dy(ly / (ny - 1)),
-	dz(lz / (nz - 1)),
+	dz(dim == 2 ? 0.0 : lz / (nz - 1)),
 
 	npe(dim == 2 ? 4 : 8),
 	nvoi(dim == 2 ? 3 : 6),
-- 
2.43.0

