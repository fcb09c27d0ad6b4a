// Dense reference for the structured sparse matrices.
#pragma once
#include "common.hpp"
#include "ell.hpp"

struct Grid {
	int dim, n[3], nf;
	int nn() const { return n[0] * n[1] * (dim == 3 ? n[2] : 1); }
	int N() const { return nn() * nf; }
	int ne(int d) const { return d < dim ? n[d] - 1 : 1; }
	int nelem() const { return ne(0) * ne(1) * ne(2); }
	int npe() const { return dim == 2 ? 4 : 8; }
	int ed() const { return npe() * nf; }
	std::string str() const { return dim == 2 ? fmt("2D %dx%d, %d unknowns per node", n[0], n[1], nf) : fmt("3D %dx%dx%d, %d unknowns per node", n[0], n[1], n[2], nf); }
	void pos(int e, int p[3]) const { p[0] = e % ne(0); p[1] = (e / ne(0)) % ne(1); p[2] = e / (ne(0) * ne(1)); }
	int node(int i, int j, int k) const { return (k * n[1] + j) * n[0] + i; }
	void nodes(int e, int *v) const
	{
		int p[3]; pos(e, p);
		static const int dx[4] = {0, 1, 1, 0}, dy[4] = {0, 0, 1, 1};
		for (int a = 0; a < npe(); a++) v[a] = node(p[0] + dx[a % 4], p[1] + dy[a % 4], p[2] + a / 4);
	}
	bool boundary(int nd) const
	{
		int i = nd % n[0], j = (nd / n[0]) % n[1], k = nd / (n[0] * n[1]);
		bool b = i == 0 || j == 0 || i == n[0] - 1 || j == n[1] - 1;
		if (dim == 3) b = b || k == 0 || k == n[2] - 1;
		return b;
	}
};

typedef std::vector<double> Vec;
typedef std::vector<double> Mat;	// row-major N*N

inline void dense_add(const Grid &g, Mat &A, int e, const Vec &Ae)
{
	int v[8]; g.nodes(e, v);
	int N = g.N(), m = g.ed();
	for (int a = 0; a < g.npe(); a++) for (int i = 0; i < g.nf; i++)
		for (int b = 0; b < g.npe(); b++) for (int j = 0; j < g.nf; j++)
			A[(size_t)(v[a] * g.nf + i) * N + v[b] * g.nf + j] += Ae[(a * g.nf + i) * m + b * g.nf + j];
}
inline void dense_bc(const Grid &g, Mat &A)
{
	int N = g.N();
	for (int r = 0; r < N; r++) if (g.boundary(r / g.nf)) {
		for (int c = 0; c < N; c++) { A[(size_t)r * N + c] = 0; A[(size_t)c * N + r] = 0; }
		A[(size_t)r * N + r] = 1;
	}
}
inline Vec dense_mul(const Mat &A, const Vec &x)
{
	int N = (int)x.size();
	Vec y(N, 0);
	for (int i = 0; i < N; i++) { double s = 0; const double *a = &A[(size_t)i * N]; for (int j = 0; j < N; j++) s += a[j] * x[j]; y[i] = s; }
	return y;
}

struct Ell {
	ell_matrix m;
	Grid g;
	explicit Ell(const Grid &g_) : g(g_)
	{
		memset(&m, 0xee, sizeof m);
		if (g.dim == 2) ell_init_2D(&m, g.nf, g.n[0], g.n[1]);
		else ell_init_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]);
	}
	~Ell() { ell_free(&m); }
	Ell(const Ell &) = delete;
	void zero() { ell_set_zero_mat(&m); X.transitions++; }
	void add(int e, const Vec &Ae)
	{
		Vec c(Ae);
		int p[3]; g.pos(e, p);
		if (g.dim == 2) ell_add_struct2D(&m, p[0], p[1], c.data(), g.nf, g.n[0], g.n[1]);
		else ell_add_struct3D(&m, p[0], p[1], p[2], c.data(), g.nf, g.n[0], g.n[1], g.n[2]);
		X.transitions++;
		if (c != Ae) X.fail("assembling changed the element matrix");
	}
	void bc()
	{
		if (g.dim == 2) ell_set_bc_2D(&m, g.nf, g.n[0], g.n[1]);
		else ell_set_bc_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]);
		X.transitions++;
	}
	bool valid()
	{
		X.checks++;
		if (m.nrow != g.N() || m.ncol != g.N()) { X.fail(fmt("matrix is %d x %d, expected %d", m.nrow, m.ncol, g.N())); return false; }
		for (long r = 0; r < (long)m.nrow * m.nnz; r++) if (m.cols[r] < 0 || m.cols[r] >= m.ncol) { X.fail(fmt("column index %d in row %ld is outside the matrix", m.cols[r], r / m.nnz)); return false; }
		return true;
	}
	Vec mul(const Vec &x)
	{
		Vec xc(x), y(x.size(), NAN);
		ell_mvp_2D(&m, xc.data(), y.data());
		X.transitions++;
		return y;
	}
	// the matrix as its products show it
	Mat dense()
	{
		int N = g.N();
		Mat A((size_t)N * N);
		Vec e(N, 0);
		for (int j = 0; j < N; j++) { e[j] = 1; Vec y = mul(e); e[j] = 0; for (int i = 0; i < N; i++) A[(size_t)i * N + j] = y[i]; }
		return A;
	}
};
inline bool same_matrix(const Grid &g, const Mat &got, const Mat &want, const std::string &what)
{
	X.checks++;
	int N = g.N();
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (!(got[(size_t)i * N + j] == want[(size_t)i * N + j])) {
		X.fail(fmt("%s: entry (node %d unknown %d, node %d unknown %d) is %.17g, expected %.17g", what.c_str(), i / g.nf, i % g.nf, j / g.nf, j % g.nf, got[(size_t)i * N + j], want[(size_t)i * N + j]));
		return false;
	}
	return true;
}
// element matrix with pairwise different non-zero integers
inline Vec tagged(const Grid &g, int e, int salt = 0)
{
	int m = g.ed();
	Vec A((size_t)m * m);
	for (int i = 0; i < m * m; i++) {
		double v = (double)(i + 1) + (double)m * m * (e + 1) + 7 * salt;
		A[i] = (i + e + salt) % 3 == 0 ? -v : v;
	}
	return A;
}
inline std::vector<Grid> grids(int dim, int lo, int hi, int nf)
{
	std::vector<Grid> r;
	for (int x = lo; x <= hi; x++) for (int y = lo; y <= hi; y++) {
		if (dim == 2) { r.push_back(Grid{2, {x, y, 1}, nf}); continue; }
		for (int z = lo; z <= hi; z++) r.push_back(Grid{3, {x, y, z}, nf});
	}
	return r;
}
