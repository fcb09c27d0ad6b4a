// Reference model of the cell problem, written from the mathematical
// statement (full 3x3 tensors, bit-ordered local nodes, dense direct solver)
// and sharing nothing with the code under test.
//
//   cell      : box, structured grid of (bi/tri)linear elements, 2 Gauss points per axis
//   boundary  : u = eps . x on the whole boundary
//   materials : linear isotropic, or J2 plasticity with linear isotropic hardening
//   result    : volume averages and fields
#pragma once
#include <array>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

typedef std::array<double, 9> T2;	// 3x3 tensor

struct Mat {
	double E = 1e6, nu = 0.25, Sy = 1e2, Ka = 1e5;
	bool plastic = false;
	double mu() const { return E / (2 * (1 + nu)); }
	double lam() const { return E * nu / ((1 + nu) * (1 - 2 * nu)); }
	double K() const { return lam() + 2. / 3 * mu(); }
};

inline double tr(const T2 &a) { return a[0] + a[4] + a[8]; }
inline T2 dev(T2 a) { double t = tr(a) / 3; a[0] -= t; a[4] -= t; a[8] -= t; return a; }
inline double nrm(const T2 &a) { double s = 0; for (double x : a) s += x * x; return std::sqrt(s); }

struct PS {			// plastic state of one integration point
	T2 ep{};
	double al = 0;
};

struct Point {			// constitutive answer at one integration point
	T2 sig;
	PS st;
	bool flow;
	double f;		// trial yield function
	double lam, mu2, c;	// tangent = lam 1x1 + mu2 (..) - c n x n
	T2 n;
};

inline Point law(const Mat &m, const T2 &eps, const PS &old)
{
	Point r;
	r.st = old; r.flow = false; r.f = -1; r.c = 0; r.n = T2{};
	r.lam = m.lam(); r.mu2 = m.mu();
	if (!m.plastic) {
		for (int i = 0; i < 9; i++) r.sig[i] = 2 * m.mu() * eps[i];
		for (int i = 0; i < 3; i++) r.sig[4 * i] += m.lam() * tr(eps);
		return r;
	}
	T2 e = dev(eps), s;
	for (int i = 0; i < 9; i++) s[i] = 2 * m.mu() * (e[i] - old.ep[i]);
	double ns = nrm(s);
	r.f = ns - std::sqrt(2. / 3) * (m.Sy + m.Ka * old.al);
	if (r.f > 0) {
		r.flow = true;
		double dg = r.f / (2 * m.mu() + 2. / 3 * m.Ka);
		for (int i = 0; i < 9; i++) r.n[i] = s[i] / ns;
		for (int i = 0; i < 9; i++) { s[i] -= 2 * m.mu() * dg * r.n[i]; r.st.ep[i] += dg * r.n[i]; }
		r.st.al += std::sqrt(2. / 3) * dg;
		double th = 1 - 2 * m.mu() * dg / ns;
		double thb = 1 / (1 + m.Ka / (3 * m.mu())) - (1 - th);
		r.mu2 = m.mu() * th;
		r.lam = m.K() - 2. / 3 * m.mu() * th;
		r.c = 2 * m.mu() * thb;
	}
	r.sig = s;
	for (int i = 0; i < 3; i++) r.sig[4 * i] += m.K() * tr(eps);
	return r;
}

struct Result {
	std::vector<double> sig;	// Voigt average
	std::vector<double> tan;	// nvoi x nvoi, row = stress
	std::vector<double> u;		// dim per node
	std::vector<double> est, esg;	// per element mean strain (engineering) / stress
	std::vector<PS> st;		// new plastic states
	bool flow = false;
	double kink = 1e300;		// min over points of |f_trial| / (2 mu): distance to the yield surface
	int its = 0;
	bool ok = true;
};

struct Cell {
	int dim = 3;
	int n[3] = {3, 3, 3};
	double L[3] = {1, 1, 1};
	Mat mat[2];
	std::vector<int> emat;		// element -> material

	int nvoi() const { return dim == 2 ? 3 : 6; }
	int ne(int d) const { return (d < dim) ? n[d] - 1 : 1; }
	int nn(int d) const { return (d < dim) ? n[d] : 1; }
	int nelem() const { return ne(0) * ne(1) * ne(2); }
	int nnode() const { return nn(0) * nn(1) * nn(2); }
	int npt() const { return 1 << dim; }
	double h(int d) const { return L[d] / (n[d] - 1); }
	int elem(int i, int j, int k) const { return (k * ne(1) + j) * ne(0) + i; }
	int node(int i, int j, int k) const { return (k * nn(1) + j) * nn(0) + i; }

	// type 0: ball of radius w in the middle; type 1: layer y < w
	void geometry(int type, double w)
	{
		emat.assign(nelem(), 0);
		for (int k = 0; k < ne(2); k++) for (int j = 0; j < ne(1); j++) for (int i = 0; i < ne(0); i++) {
			int q[3] = {i, j, k};
			double d2 = 0, y = 0;
			for (int d = 0; d < dim; d++) {
				double x = (q[d] + 0.5) * h(d);
				if (d == 1) y = x;
				d2 += (x - L[d] / 2) * (x - L[d] / 2);
			}
			emat[elem(i, j, k)] = type == 0 ? (d2 < w * w) : (y < w);
		}
	}

	static int vp(int dim, int v) { static const int a2[] = {0, 1, 0}, a3[] = {0, 1, 2, 0, 0, 1}; return dim == 2 ? a2[v] : a3[v]; }
	static int vq(int dim, int v) { static const int a2[] = {0, 1, 1}, a3[] = {0, 1, 2, 1, 2, 2}; return dim == 2 ? a2[v] : a3[v]; }

	T2 tensor(const double *v) const
	{
		T2 t{};
		for (int a = 0; a < nvoi(); a++) {
			int p = vp(dim, a), q = vq(dim, a);
			if (p == q) t[4 * p] = v[a];
			else t[3 * p + q] = t[3 * q + p] = v[a] / 2;
		}
		return t;
	}

	// gradients of the shape functions at point g; bit d of a local node or point index = side along axis d
	void grad(int g, double G[8][3]) const
	{
		const double c = 1 / std::sqrt(3.0);
		for (int a = 0; a < npt(); a++)
			for (int d = 0; d < 3; d++) {
				if (d >= dim) { G[a][d] = 0; continue; }
				double v = ((a >> d) & 1) ? 1 / h(d) : -1 / h(d);
				for (int e = 0; e < dim; e++) {
					if (e == d) continue;
					double xi = ((g >> e) & 1) ? c : -c;
					v *= ((a >> e) & 1) ? (1 + xi) / 2 : (1 - xi) / 2;
				}
				G[a][d] = v;
			}
	}

	void affine(const double *eps, std::vector<double> &u) const
	{
		T2 e = tensor(eps);
		u.assign(nnode() * dim, 0);
		for (int k = 0; k < nn(2); k++) for (int j = 0; j < nn(1); j++) for (int i = 0; i < nn(0); i++) {
			double x[3] = {i * h(0), j * h(1), dim == 3 ? k * h(2) : 0};
			for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++)
				u[node(i, j, k) * dim + p] += e[3 * p + q] * x[q];
		}
	}
	bool inner(int i, int j, int k) const
	{
		return i > 0 && i < n[0] - 1 && j > 0 && j < n[1] - 1 && (dim == 2 || (k > 0 && k < n[2] - 1));
	}

	// LDL^T (row envelope) in place of the symmetric matrix; lower triangle, D on the diagonal
	static bool factor(std::vector<double> &A, int N)
	{
		std::vector<int> f(N);
		for (int i = 0; i < N; i++) {
			double *ai = &A[(size_t)i * N];
			int j0 = 0;
			while (j0 < i && ai[j0] == 0) j0++;
			f[i] = j0;
			for (int j = j0; j < i; j++) {
				const double *aj = &A[(size_t)j * N];
				double s = ai[j];
				for (int k = std::max(j0, f[j]); k < j; k++) s -= ai[k] * aj[k];
				ai[j] = s;
			}
			double d = ai[i];
			for (int j = j0; j < i; j++) {
				double l = ai[j] / A[(size_t)j * N + j];
				d -= ai[j] * l;
				ai[j] = l;
			}
			ai[i] = d;
			if (!(std::fabs(d) > 0)) return false;
		}
		return true;
	}
	static void back(const std::vector<double> &A, int N, std::vector<double> &b)
	{
		for (int i = 0; i < N; i++) { const double *a = &A[(size_t)i * N]; double s = b[i]; for (int j = 0; j < i; j++) s -= a[j] * b[j]; b[i] = s; }
		for (int i = 0; i < N; i++) b[i] /= A[(size_t)i * N + i];
		for (int i = N - 1; i >= 0; i--) { const double *a = &A[(size_t)i * N]; for (int j = 0; j < i; j++) b[j] -= a[j] * b[i]; }
	}

	int nd(int e, int a) const
	{
		int i = e % ne(0), j = (e / ne(0)) % ne(1), k = e / (ne(0) * ne(1));
		return node(i + (a & 1), j + ((a >> 1) & 1), k + ((a >> 2) & 1));
	}

	Result solve(const double *eps, const std::vector<PS> &old_, bool want_tan = true) const
	{
		Result R;
		const int NP = npt(), NE = nelem(), V = nvoi();
		std::vector<PS> old = old_;
		if (old.empty()) old.assign((size_t)NE * NP, PS());
		std::vector<int> id(nnode(), -1);
		int N = 0;
		for (int k = 0; k < nn(2); k++) for (int j = 0; j < nn(1); j++) for (int i = 0; i < nn(0); i++)
			if (inner(i, j, k)) id[node(i, j, k)] = N++;
		const int D = N * dim;
		double w = 1;
		for (int d = 0; d < dim; d++) w *= h(d) / 2;
		std::vector<std::array<std::array<double, 3>, 8>> G(NP);
		for (int g = 0; g < NP; g++) { double q[8][3]; grad(g, q); for (int a = 0; a < NP; a++) for (int d = 0; d < 3; d++) G[g][a][d] = q[a][d]; }

		affine(eps, R.u);
		std::vector<Point> pt((size_t)NE * NP);
		std::vector<double> A, F;
		double scale = 0;
		auto evaluate = [&](const std::vector<double> &u, bool mat) {
			F.assign(D, 0); scale = 0;
			if (mat) A.assign((size_t)D * D, 0);
			for (int e = 0; e < NE; e++) {
				const Mat &m = this->mat[emat[e]];
				double fe[8][3] = {};
				for (int g = 0; g < NP; g++) {
					T2 E{};
					for (int a = 0; a < NP; a++) for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++) {
						double t = 0.5 * u[nd(e, a) * dim + p] * G[g][a][q];
						E[3 * p + q] += t; E[3 * q + p] += t;
					}
					Point &P = pt[(size_t)e * NP + g];
					P = law(m, E, old[(size_t)e * NP + g]);
					for (int a = 0; a < NP; a++) for (int p = 0; p < dim; p++)
						for (int q = 0; q < dim; q++) fe[a][p] += w * P.sig[3 * p + q] * G[g][a][q];
					if (!mat) continue;
					for (int a = 0; a < NP; a++) {
						int ia = id[nd(e, a)]; if (ia < 0) continue;
						for (int b = 0; b < NP; b++) {
							int ib = id[nd(e, b)]; if (ib < 0) continue;
							for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++)
								A[(size_t)(ia * dim + p) * D + ib * dim + q] += w * stiff(P, &G[g][a][0], &G[g][b][0], p, q);
						}
					}
				}
				for (int a = 0; a < NP; a++) for (int p = 0; p < dim; p++) {
					scale = std::max(scale, std::fabs(fe[a][p]));
					if (id[nd(e, a)] >= 0) F[id[nd(e, a)] * dim + p] += fe[a][p];
				}
			}
			double s = 0; for (double x : F) s += x * x;
			return std::sqrt(s);
		};
		double r = evaluate(R.u, true);
		R.ok = false;
		for (R.its = 0; R.its < 200; R.its++) {
			if (r <= 1e-13 * scale || D == 0 || scale == 0) { R.ok = true; break; }
			if (!factor(A, D)) break;
			std::vector<double> du = F; back(A, D, du);
			double t = 1, r0 = r;
			std::vector<double> un;
			for (int ls = 0; ls < 12; ls++) {
				un = R.u;
				for (int a = 0; a < nnode(); a++) if (id[a] >= 0) for (int p = 0; p < dim; p++) un[a * dim + p] -= t * du[id[a] * dim + p];
				r = evaluate(un, true);
				if (r < r0 * (1 - 1e-4 * t) || r <= 1e-13 * scale) break;
				t /= 2;
			}
			if (r >= r0) { R.ok = r0 <= 1e-9 * scale; if (!R.ok) { R.u = un; continue; } evaluate(R.u, true); break; }
			R.u = un;
		}
		double vol = 1; for (int d = 0; d < dim; d++) vol *= L[d];
		R.sig.assign(V, 0); R.est.assign(NE * V, 0); R.esg.assign(NE * V, 0); R.st.resize((size_t)NE * NP);
		for (int e = 0; e < NE; e++) for (int g = 0; g < NP; g++) {
			const Point &P = pt[(size_t)e * NP + g];
			R.st[(size_t)e * NP + g] = P.st;
			R.flow |= P.flow;
			const Mat &m = this->mat[emat[e]];
			if (m.plastic) R.kink = std::min(R.kink, std::fabs(P.f) / (2 * m.mu()));
			T2 E{};
			for (int a = 0; a < NP; a++) for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++) {
				double t = 0.5 * R.u[nd(e, a) * dim + p] * G[g][a][q];
				E[3 * p + q] += t; E[3 * q + p] += t;
			}
			for (int v = 0; v < V; v++) {
				int p = vp(dim, v), q = vq(dim, v);
				R.sig[v] += w / vol * P.sig[3 * p + q];
				R.esg[e * V + v] += P.sig[3 * p + q] / NP;
				R.est[e * V + v] += E[3 * p + q] * (p == q ? 1 : 2) / NP;
			}
		}
		if (want_tan) {
			if (D) { evaluate(R.u, true); factor(A, D); }
			R.tan.assign(V * V, 0);
			for (int c = 0; c < V; c++) {
				std::vector<double> e1(V, 0), ub; e1[c] = 1;
				affine(e1.data(), ub);
				for (int a = 0; a < nnode(); a++) if (id[a] >= 0) for (int p = 0; p < dim; p++) ub[a * dim + p] = 0;
				std::vector<double> rhs(D, 0);
				for (int pass = 0; pass < 2; pass++) {
					for (int e = 0; e < NE; e++) for (int g = 0; g < NP; g++) {
						const Point &P = pt[(size_t)e * NP + g];
						T2 E{};
						for (int a = 0; a < NP; a++) for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++) {
							double t = 0.5 * ub[nd(e, a) * dim + p] * G[g][a][q];
							E[3 * p + q] += t; E[3 * q + p] += t;
						}
						double nE = 0; for (int x = 0; x < 9; x++) nE += P.n[x] * E[x];
						T2 S;
						for (int x = 0; x < 9; x++) S[x] = 2 * P.mu2 * E[x] - P.c * nE * P.n[x];
						for (int x = 0; x < 3; x++) S[4 * x] += P.lam * tr(E);
						if (pass == 0) {
							for (int a = 0; a < NP; a++) if (id[nd(e, a)] >= 0)
								for (int p = 0; p < dim; p++) for (int q = 0; q < dim; q++)
									rhs[id[nd(e, a)] * dim + p] -= w * S[3 * p + q] * G[g][a][q];
						} else
							for (int v = 0; v < V; v++) R.tan[v * V + c] += w / vol * S[3 * vp(dim, v) + vq(dim, v)];
					}
					if (pass == 0 && D) {
						back(A, D, rhs);
						for (int a = 0; a < nnode(); a++) if (id[a] >= 0) for (int p = 0; p < dim; p++) ub[a * dim + p] = rhs[id[a] * dim + p];
					}
				}
			}
		}
		return R;
	}
	static double stiff(const Point &P, const double *ga, const double *gb, int p, int q)
	{
		double v = P.lam * ga[p] * gb[q] + P.mu2 * ga[q] * gb[p];
		if (p == q) v += P.mu2 * (ga[0] * gb[0] + ga[1] * gb[1] + ga[2] * gb[2]);
		if (P.c != 0) {
			double na = 0, nb = 0;
			for (int k = 0; k < 3; k++) { na += P.n[3 * p + k] * ga[k]; nb += P.n[3 * q + k] * gb[k]; }
			v -= P.c * na * nb;
		}
		return v;
	}
};

} // namespace ref
