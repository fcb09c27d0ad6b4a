// C14: linear solvers on structured symmetric positive definite matrices.
#include "ellref.hpp"

static double norm(const Vec &v) { double s = 0; for (double x : v) s += x * x; return sqrt(s); }

// dense Cholesky for exact starts
static bool chol_solve(const Mat &A, const Vec &b, Vec &x)
{
	int N = (int)b.size();
	Mat L(A);
	for (int j = 0; j < N; j++) {
		for (int k = 0; k < j; k++) for (int i = j; i < N; i++) L[(size_t)i * N + j] -= L[(size_t)i * N + k] * L[(size_t)j * N + k];
		if (!(L[(size_t)j * N + j] > 0)) return false;
		double d = sqrt(L[(size_t)j * N + j]);
		for (int i = j; i < N; i++) L[(size_t)i * N + j] /= d;
	}
	x = b;
	for (int i = 0; i < N; i++) { for (int k = 0; k < i; k++) x[i] -= L[(size_t)i * N + k] * x[k]; x[i] /= L[(size_t)i * N + i]; }
	for (int i = N - 1; i >= 0; i--) { for (int k = i + 1; k < N; k++) x[i] -= L[(size_t)k * N + i] * x[k]; x[i] /= L[(size_t)i * N + i]; }
	return true;
}

enum { CG2D, CGS, JAC, NSOLVERS };
static const char *sname[] = {"ell_solve_cgpd_2D", "ell_solve_cgpd_struct", "ell_solve_jacobi_2D"};

static int call(int s, ell_solver &so, Ell &M, const Grid &g, double *b, double *x)
{
	X.transitions++;
	if (s == CG2D) return ell_solve_cgpd_2D(&so, &M.m, g.nf, g.n[0], g.n[1], b, x);
	if (s == CGS) return ell_solve_cgpd_struct(&so, &M.m, g.nf, g.dim, g.nn(), b, x);
	return ell_solve_jacobi_2D(&so, &M.m, g.nf, g.n[0], g.n[1], b, x);
}

struct Setup {
	Grid g;
	Mat A;
	double An;		// largest row sum
	std::vector<double> vals; std::vector<int> cols;
};

static bool one(int s, Ell &M, const Setup &S, const Vec &b, const Vec &x0, double tol, int maxits, bool must, const std::string &d)
{
	const Grid &g = S.g;
	int N = g.N();
	Vec x(x0), bb(b);
	// guards around x
	std::vector<double> xs(N + 2, 1234.5);
	std::copy(x0.begin(), x0.end(), xs.begin() + 1);
	ell_solver so;
	so.max_its = maxits; so.min_tol = tol; so.its = -55; so.err = -55;
	int rc = call(s, so, M, g, bb.data(), xs.data() + 1);
	X.checks++;
	X.traces++;
	x.assign(xs.begin() + 1, xs.end() - 1);
	std::string h = std::string(sname[s]) + " " + d + fmt(" tol=%g max_its=%d: ", tol, maxits);
	if (rc != 0) { X.fail(h + fmt("returned %d", rc)); return false; }
	if (xs[0] != 1234.5 || xs[N + 1] != 1234.5) { X.fail(h + "wrote outside the solution vector"); return false; }
	if (bb != b) { X.fail(h + "changed the right-hand side"); return false; }
	if (memcmp(S.vals.data(), M.m.vals, S.vals.size() * sizeof(double)) || memcmp(S.cols.data(), M.m.cols, S.cols.size() * sizeof(int))) { X.fail(h + "changed the matrix"); return false; }
	if (so.max_its != maxits || so.min_tol != tol) { X.fail(h + "changed the solver settings"); return false; }
	Vec r = dense_mul(S.A, x);
	for (int i = 0; i < N; i++) r[i] -= b[i];
	double res = norm(r);
	Vec r0 = dense_mul(S.A, x0);
	for (int i = 0; i < N; i++) r0[i] -= b[i];
	double res0 = norm(r0);
	// rounding of the residual recurrence
	double slack = 1e-13 * (S.An * (norm(x) + norm(x0)) + norm(b)) * (1 + sqrt((double)std::max(1, so.its)));
	if (so.its < 0 || so.its > maxits) { X.fail(h + fmt("reported %d iterations", so.its)); return false; }
	if (!(so.err >= 0)) { X.fail(h + fmt("reported error %g", so.err)); return false; }
	if (so.its < maxits) {
		if (!(res < tol + slack)) { X.fail(h + fmt("stopped after %d iterations with residual %.6g", so.its, res)); return false; }
		if (!(so.err < tol)) { X.fail(h + fmt("stopped after %d iterations reporting error %.6g", so.its, so.err)); return false; }
		if (!(fabs(so.err - res) <= slack)) { X.fail(h + fmt("reported error %.9g, residual is %.9g (its %d)", so.err, res, so.its)); return false; }
	} else {
		if (must) { X.fail(h + fmt("did not converge, residual %.6g", res)); return false; }
		if (s == JAC && !(fabs(so.err - res) <= slack + 1e-12 * res)) { X.fail(h + fmt("reported error %.9g at the limit, residual is %.9g", so.err, res)); return false; }
		if (s != JAC) {
			// the error reported at the limit belongs to the last or to the last but one vector
			bool ok = fabs(so.err - res) <= slack + 1e-9 * so.err;
			if (!ok) {
				double resp = res0;
				if (maxits > 1) {
					Vec y(x0), b2(b);
					ell_solver s2 = so;
					s2.max_its = maxits - 1;
					call(s, s2, M, g, b2.data(), y.data());
					Vec q = dense_mul(S.A, y);
					for (int i = 0; i < N; i++) q[i] -= b[i];
					resp = norm(q);
				}
				ok = fabs(so.err - resp) <= slack + 1e-9 * so.err;
			}
			if (!ok) { X.fail(h + fmt("reported error %.9g at the limit, residual is %.9g", so.err, res)); return false; }
		}
	}
	if (s != JAC) {
		if (res0 < tol - slack) {
			if (so.its != 0) { X.fail(h + fmt("%d iterations although the start satisfies the tolerance", so.its)); return false; }
			if (x != x0) { X.fail(h + "changed a start that satisfies the tolerance"); return false; }
		}
		if (res0 > tol + slack && so.its == 0) { X.fail(h + "0 iterations although the start does not satisfy the tolerance"); return false; }
	}
	int st[4] = {s, so.its, maxits, N};
	X.state(hash_bytes(st, sizeof st, hash_bytes(&b[N / 2], 8, hash_vals(&res, 1))));
	X.outcome(hash_bytes(&so.its, 4, hash_vals(x.data(), N)));
	return true;
}

// element matrices: family f
static Vec element(const Grid &g, int e, int f)
{
	int m = g.ed(), npe = g.npe(), nf = g.nf;
	Vec A((size_t)m * m, 0.0);
	auto at = [&](int i, int j) -> double & { return A[(size_t)i * m + j]; };
	if (f == 0) {			// graph Laplacian between the nodes, one per unknown, small shift
		for (int a = 0; a < npe; a++) for (int b = 0; b < npe; b++) for (int i = 0; i < nf; i++) at(a * nf + i, b * nf + i) += a == b ? npe - 1 + 0.05 : -1;
	} else if (f == 1) {		// coupled unknowns, not diagonally dominant: sum of outer products plus shift
		for (int q = 0; q < 3; q++) for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
			double a = ((i * (3 + q) + e + q) % 7) - 3, b = ((j * (3 + q) + e + q) % 7) - 3;
			at(i, j) += a * b;
		}
		for (int i = 0; i < m; i++) at(i, i) += 2;
	} else if (f == 2) {		// contrast 1e4 between elements and unknowns
		double c = e % 3 == 0 ? 1e4 : 1;
		for (int a = 0; a < npe; a++) for (int b = 0; b < npe; b++) for (int i = 0; i < nf; i++) at(a * nf + i, b * nf + i) += c * (i + 1) * (a == b ? npe - 1 + 0.1 : -1);
	} else {			// diagonal with very different entries
		for (int i = 0; i < m; i++) at(i, i) = pow(10, (i + e) % 5 - 2);
	}
	return A;
}

// asc scales the matrix, bsc the right-hand side; tolerances follow the size of the residual
static void scaled_run(const Grid &g, int fam, double asc, double bsc)
{
	int N = g.N();
	if (!X.mine()) { X.next++; return; }
	if (!X.begin(g.str() + fmt(" | matrix family %d scaled by %g, right-hand sides scaled by %g, all starts and tolerances", fam, asc, bsc))) return;
	Ell M(g);
	if (!M.valid()) return;
	M.zero();
	Setup S;
	S.g = g;
	S.A.assign((size_t)N * N, 0.0);
	for (int e = 0; e < g.nelem(); e++) { Vec Ae = element(g, e, fam); for (double &v : Ae) v *= asc; M.add(e, Ae); dense_add(g, S.A, e, Ae); }
	S.An = 0;
	for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) r += fabs(S.A[(size_t)i * N + j]); S.An = fmax(S.An, r); }
	S.vals.assign(M.m.vals, M.m.vals + (size_t)M.m.nrow * M.m.nnz);
	S.cols.assign(M.m.cols, M.m.cols + (size_t)M.m.nrow * M.m.nnz);
	for (int ib = 0; ib < 2; ib++) {
		Vec b(N, 0.0), xe;
		for (int i = 0; i < N; i++) b[i] = bsc * (ib ? (i == N / 2 ? -250 : 0) : ((i * 37) % 19) - 9);
		if (!chol_solve(S.A, b, xe)) { fprintf(stderr, "matrix family is not definite\n"); exit(3); }
		double size = norm(b), xs = norm(xe) / sqrt((double)N);
		for (int st = 0; st < 5; st++) {
			Vec x0(N, 0.0);
			if (st == 3) x0 = xe;
			if (st == 4) for (int i = 0; i < N; i++) x0[i] = 0.5 * xe[i];
			if (st == 1) for (int i = 0; i < N; i++) x0[i] = xs * (((i * 13) % 11) - 5);
			if (st == 2) { x0 = xe; x0[N / 2] += xs; }
			for (int s = 0; s < NSOLVERS; s++) {
				if (g.dim == 3 && s != CGS) continue;
				for (double t : {1e-2, 1e-6, 1e-9}) {
					if (t * size < 1e-11 * S.An * (norm(xe) + norm(x0))) continue;
					if (!one(s, M, S, b, x0, t * size, s == JAC ? 2000000 : 40 * N + 400, true, fmt("rhs %d start %d", ib, st))) return;
				}
				if (!one(s, M, S, b, x0, 1e-6 * size, 5, false, fmt("rhs %d start %d", ib, st))) return;
			}
		}
	}
	X.sample(X.desc);
}

static void setup_run(const Grid &g, int fam, bool bc)
{
	int N = g.N();
	int nrhs = X.thorough ? 6 : 4, nst = 4;
	for (int ib = 0; ib < nrhs; ib++) {
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(g.str() + fmt(" | matrix family %d %s, right-hand side %d, all starts, tolerances and limits", fam, bc ? "with boundary conditions" : "without boundary conditions", ib))) continue;
		Ell M(g);
		if (!M.valid()) return;
		M.zero();
		Setup S;
		S.g = g;
		S.A.assign((size_t)N * N, 0.0);
		for (int e = 0; e < g.nelem(); e++) { Vec Ae = element(g, e, fam); M.add(e, Ae); dense_add(g, S.A, e, Ae); }
		if (bc) { M.bc(); dense_bc(g, S.A); }
		S.An = 0;
		for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) r += fabs(S.A[(size_t)i * N + j]); S.An = fmax(S.An, r); }
		S.vals.assign(M.m.vals, M.m.vals + (size_t)M.m.nrow * M.m.nnz);
		S.cols.assign(M.m.cols, M.m.cols + (size_t)M.m.nrow * M.m.nnz);
		Vec b(N, 0.0);
		if (ib == 0) for (int i = 0; i < N; i++) b[i] = 1;
		if (ib == 1) for (int i = 0; i < N; i++) b[i] = ((i * 37) % 19) - 9;
		if (ib == 2) b[N / 2] = -250;
		if (ib == 3) {}			// zero
		if (ib == 4) b[0] = 1e5;
		if (ib == 5) for (int i = 0; i < N; i++) b[i] = (i & 1 ? 1e-3 : -1e-3);
		Vec xe;
		if (!chol_solve(S.A, b, xe)) { fprintf(stderr, "matrix family is not definite\n"); exit(3); }
		for (int st = 0; st < nst; st++) {
			Vec x0(N, 0.0);
			if (st == 1) x0 = xe;
			if (st == 2) for (int i = 0; i < N; i++) x0[i] = ((i * 13) % 11) - 5;
			if (st == 3) { x0 = xe; x0[N / 2] += 1; }
			for (int s = 0; s < NSOLVERS; s++) {
				if (g.dim == 3 && s != CGS) continue;
				std::string d = fmt("start %d", st);
				for (double tol : {1e-2, 1e-7}) {
					if (tol * 1 < 1e-12 * S.An * (norm(xe) + 1)) continue;
					if (!one(s, M, S, b, x0, tol, s == JAC ? 2000000 : 40 * N + 400, true, d)) return;
				}
				for (int mx : {1, 2, 3, 4, 6, 9}) if (!one(s, M, S, b, x0, 1e-7, mx, false, d)) return;
				// tolerances on both sides of the starting residual
				Vec r0 = dense_mul(S.A, x0);
				for (int i = 0; i < N; i++) r0[i] -= b[i];
				double q = norm(r0);
				if (q > 1e-3) {
					if (!one(s, M, S, b, x0, q * 1.01, 50, false, d)) return;
					if (!one(s, M, S, b, x0, q * 0.99, 50, false, d)) return;
				}
			}
		}
		X.sample(X.desc);
	}
}

// badly conditioned systems: several hundred iterations, limits on both sides
static void slow_run(const Grid &g, int fam, double shift)
{
	int N = g.N();
	if (!X.mine()) { X.next++; return; }
	if (!X.begin(g.str() + fmt(" | slow family %d, shift %g", fam, shift))) return;
	Ell M(g);
	if (!M.valid()) return;
	M.zero();
	Setup S;
	S.g = g;
	S.A.assign((size_t)N * N, 0.0);
	int npe = g.npe(), m = g.ed();
	for (int e = 0; e < g.nelem(); e++) {
		Vec Ae((size_t)m * m, 0.0);
		for (int a = 0; a < npe; a++) for (int b = 0; b < npe; b++) for (int i = 0; i < g.nf; i++) {
			double c = fam == 0 ? 1 : pow(10, fam * ((e * 5 + i) % 3));
			Ae[(size_t)(a * g.nf + i) * m + b * g.nf + i] += (a == b ? (npe - 1) * c + shift : -c);
		}
		M.add(e, Ae);
		dense_add(g, S.A, e, Ae);
	}
	S.An = 0;
	for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) r += fabs(S.A[(size_t)i * N + j]); S.An = fmax(S.An, r); }
	S.vals.assign(M.m.vals, M.m.vals + (size_t)M.m.nrow * M.m.nnz);
	S.cols.assign(M.m.cols, M.m.cols + (size_t)M.m.nrow * M.m.nnz);
	for (int ib = 0; ib < 2; ib++) {
		Vec b(N, 0.0), xe;
		for (int i = 0; i < N; i++) b[i] = ib ? (i == N / 3 ? 100 : i == N - 2 ? -100 : 0) : ((i * 37) % 19) - 9;
		if (!chol_solve(S.A, b, xe)) { fprintf(stderr, "matrix family is not definite\n"); exit(3); }
		for (int st = 0; st < 2; st++) {
			Vec x0(N, 0.0);
			if (st) for (int i = 0; i < N; i++) x0[i] = ((i * 13) % 11) - 5;
			for (int s = 0; s < JAC; s++) {
				if (g.dim == 3 && s != CGS) continue;
				std::string d = fmt("rhs %d start %d", ib, st);
				for (double tol : {1e-1, 1e-3, 1e-5}) {
					if (tol < 1e-11 * S.An * (norm(xe) + norm(x0))) continue;
					if (!one(s, M, S, b, x0, tol, 40 * N + 400, true, d)) return;
				}
				for (int mx : {20, 49, 50, 51, 99, 100, 101, 102, 127, 128, 129, 150}) if (!one(s, M, S, b, x0, 1e-5, mx, false, d)) return;
				// how many iterations it takes: one more than that is enough
				ell_solver so;
				so.max_its = 40 * N + 400; so.min_tol = 1e-3; so.its = so.err = 0;
				if (so.min_tol < 1e-11 * S.An * (norm(xe) + norm(x0))) continue;
				Vec bb(b), y(x0);
				call(s, so, M, g, bb.data(), y.data());
				X.sample(fmt("%s takes %d iterations", sname[s], so.its));
				if (so.its > 0 && !one(s, M, S, b, x0, 1e-3, so.its + 1, true, d)) return;
				if (so.its > 1 && !one(s, M, S, b, x0, 1e-3, so.its - 1, false, d)) return;
			}
		}
	}
}

// nearly singular systems: rounding makes conjugate gradients take many times the number of unknowns
static void ill_run(const Grid &g, double shift)
{
	int N = g.N();
	if (!X.mine()) { X.next++; return; }
	if (!X.begin(g.str() + fmt(" | nearly singular, shift %g", shift))) return;
	Ell M(g);
	if (!M.valid()) return;
	M.zero();
	Setup S;
	S.g = g;
	S.A.assign((size_t)N * N, 0.0);
	int m = g.ed();
	for (int e = 0; e < g.nelem(); e++) {
		Vec Ae((size_t)m * m, 0.0);
		for (int q = 0; q < 3; q++) {
			double w = pow(10, -2 * q);
			for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) Ae[(size_t)i * m + j] += w * (((i * (3 + q) + e + q) % 7) - 3) * (((j * (3 + q) + e + q) % 7) - 3);
		}
		for (int i = 0; i < m; i++) Ae[(size_t)i * m + i] += shift;
		M.add(e, Ae);
		dense_add(g, S.A, e, Ae);
	}
	S.An = 0;
	for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) r += fabs(S.A[(size_t)i * N + j]); S.An = fmax(S.An, r); }
	S.vals.assign(M.m.vals, M.m.vals + (size_t)M.m.nrow * M.m.nnz);
	S.cols.assign(M.m.cols, M.m.cols + (size_t)M.m.nrow * M.m.nnz);
	for (int ib = 0; ib < 3; ib++) {
		Vec y(N);
		for (int i = 0; i < N; i++) y[i] = ib == 0 ? ((i * 37) % 19) - 9 : ib == 1 ? (i == N / 3) : sin(0.1 * i);
		Vec b = dense_mul(S.A, y), x0(N, 0.0);
		for (int s = 0; s < JAC; s++) {
			if (g.dim == 3 && s != CGS) continue;
			for (double t : {1e-3, 1e-6, 1e-9}) {
				double tol = t * norm(b);
				if (tol < 1e-10 * S.An * norm(y)) continue;
				if (!one(s, M, S, b, x0, tol, 400 * N + 4000, true, fmt("rhs %d", ib))) return;
			}
		}
	}
	X.sample(X.desc);
}

static void nulls()
{
	if (!X.begin("missing arguments are refused")) return;
	Grid g{2, {3, 3, 1}, 2};
	Ell M(g);
	M.zero();
	for (int e = 0; e < g.nelem(); e++) M.add(e, element(g, e, 0));
	Vec b(g.N(), 1.0), x(g.N(), 2.0);
	ell_solver so;
	so.max_its = 10; so.min_tol = 1e-6; so.its = 3; so.err = 4;
	X.checks++;
	for (int k = 1; k < 8; k++) {
		ell_matrix *m = k & 1 ? nullptr : &M.m;
		double *bb = k & 2 ? nullptr : b.data(), *xx = k & 4 ? nullptr : x.data();
		int r[3] = {ell_solve_cgpd_2D(&so, m, 2, 3, 3, bb, xx), ell_solve_cgpd_struct(&so, m, 2, 2, 9, bb, xx), ell_solve_jacobi_2D(&so, m, 2, 3, 3, bb, xx)};
		for (int i = 0; i < 3; i++) if (r[i] == 0) { X.fail(fmt("%s accepted missing arguments (pattern %d)", sname[i], k)); return; }
		if (b != Vec(g.N(), 1.0) || x != Vec(g.N(), 2.0)) { X.fail("a refused call changed a vector"); return; }
	}
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	nulls();
	int h2 = X.thorough ? 7 : 5;
	for (int nf = 1; nf <= 3; nf++) for (auto &g : grids(2, 2, h2, nf)) for (int f = 0; f < 4; f++) for (int bc = 0; bc < 2; bc++) setup_run(g, f, bc);
	for (int nf = 1; nf <= 3; nf++) for (auto &g : grids(3, 2, X.thorough ? 4 : nf == 3 ? 3 : 4, nf)) for (int f = 0; f < 4; f++) for (int bc = 0; bc < 2; bc++) setup_run(g, f, bc);
	for (auto &g : {Grid{2, {12, 9, 1}, 2}, Grid{2, {2, 30, 1}, 2}, Grid{2, {30, 3, 1}, 1}, Grid{3, {5, 5, 5}, 3}, Grid{3, {12, 3, 3}, 3}, Grid{2, {4, 4, 1}, 5}})
		for (int f = 0; f < 4; f++) for (int bc = 0; bc < 2; bc++) setup_run(g, f, bc);
	for (auto &g : {Grid{2, {4, 4, 1}, 2}, Grid{2, {3, 6, 1}, 1}, Grid{2, {9, 7, 1}, 2}, Grid{3, {3, 3, 3}, 3}, Grid{3, {4, 3, 5}, 1}, Grid{3, {6, 4, 4}, 2}})
		for (int f = 0; f < 4; f++) for (double a : {1e-12, 1e-6, 1e6, 1e12}) for (double b : {1e-14, 1e-7, 1.0, 1e9}) scaled_run(g, f, a, b);
	for (auto &g : {Grid{2, {20, 20, 1}, 2}, Grid{2, {120, 3, 1}, 1}, Grid{2, {3, 120, 1}, 2}, Grid{2, {300, 2, 1}, 1}, Grid{3, {60, 2, 2}, 1}, Grid{3, {7, 7, 8}, 2}, Grid{3, {3, 3, 40}, 1}})
		for (int f = 0; f < 3; f++) for (double sh : {1e-1, 1e-3, 1e-5}) slow_run(g, f, sh);
	for (int nf = 1; nf <= 3; nf++) for (auto &g : grids(2, 2, 6, nf)) for (double sh : {1e-2, 1e-4, 1e-6, 1e-8}) ill_run(g, sh);
	for (int nf = 1; nf <= 3; nf++) for (auto &g : grids(3, 2, 4, nf)) for (double sh : {1e-2, 1e-4, 1e-6}) if (g.N() < 150 || X.thorough) ill_run(g, sh);
	for (auto &g : {Grid{2, {16, 15, 1}, 2}, Grid{2, {35, 13, 1}, 1}, Grid{2, {6, 60, 1}, 2}, Grid{3, {9, 8, 7}, 1}})
		for (int f : {0, 3}) for (int bc = 0; bc < 2; bc++) setup_run(g, f, bc);
	return X.finish();
}
