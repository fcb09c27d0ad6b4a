// C13: boundary conditions on structured matrices.
#include "ellref.hpp"

static void run(const Grid &g, unsigned sel, const char *name, int salt, int sc = 0)
{
	if (!X.begin(g.str() + " | " + name)) return;
	Ell M(g);
	if (!M.valid()) return;
	int N = g.N();
	M.zero();
	Mat A((size_t)N * N, 0.0);
	for (int e = 0; e < g.nelem(); e++) {
		if (sel == 1 && (e & 1)) continue;
		if (sel == 2 && (e % 3)) continue;
		if (sel == 3) continue;
		Vec Ae = tagged(g, e, salt);
		if (sel == 4) {	// symmetric positive semi-definite: sum of two outer products
			int m = g.ed();
			for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
				double a = (i * 5 + e) % 11 - 5, b = (j * 5 + e) % 11 - 5, c = i % 2 ? 1 : -2, d = j % 2 ? 1 : -2;
				Ae[i * m + j] = a * b + c * d;
			}
		}
		if (sc) for (double &v : Ae) v = ldexp(v, sc);
		M.add(e, Ae);
		dense_add(g, A, e, Ae);
	}
	if (!same_matrix(g, M.dense(), A, "before the boundary conditions")) return;
	Mat B = A;
	dense_bc(g, B);
	for (int t = 0; t < 2; t++) {
		M.bc();
		X.traces++;
		if (!M.valid()) return;
		if (!same_matrix(g, M.dense(), B, t ? "boundary conditions applied twice" : "after the boundary conditions")) return;
	}
	// a dense vector as well: what no unit vector shows (slots that cancel) would show here
	Vec x(N);
	for (int i = 0; i < N; i++) x[i] = (i * 7919) % 101 - 50;
	Vec y = M.mul(x), w = dense_mul(B, x);
	X.checks++;
	for (int i = 0; i < N; i++) if (!(y[i] == w[i])) { X.fail(fmt("row %d of a product is %.17g, expected %.17g", i, y[i], w[i])); return; }
	// and again after re-assembly
	M.zero();
	for (int e = 0; e < g.nelem(); e++) M.add(e, tagged(g, e, salt + 1));
	Mat C((size_t)N * N, 0.0);
	for (int e = 0; e < g.nelem(); e++) dense_add(g, C, e, tagged(g, e, salt + 1));
	dense_bc(g, C);
	M.bc();
	if (!same_matrix(g, M.dense(), C, "second assembly with boundary conditions")) return;
	X.state(hash_bytes(X.desc.data(), X.desc.size()));
	X.outcome(hash_vals(y.data(), N));
	X.sample(g.str());
}
static void all(const Grid &g)
{
	run(g, 0, "all elements, distinct entries", 0);
	run(g, 1, "every other element", 3);
	run(g, 2, "every third element", 4);
	run(g, 3, "zero matrix", 0);
	run(g, 4, "semi-definite element matrices", 1);
	if (g.N() <= 260) { run(g, 0, "all elements, entries scaled by 2^-60", 2, -60); run(g, 0, "all elements, entries scaled by 2^60", 2, 60); }
}
static void large(const Grid &g)
{
	if (!X.begin(g.str() + " | all elements, products with three vectors")) return;
	Ell M(g);
	if (!M.valid()) return;
	int N = g.N(), m = g.ed(), v[8];
	M.zero();
	auto el = [&](int e) { Vec A = tagged(g, e % 7, e % 3); return A; };
	for (int e = 0; e < g.nelem(); e++) M.add(e, el(e));
	M.bc();
	for (int s = 0; s < 3; s++) {
		Vec x(N), w(N, 0.0);
		for (int i = 0; i < N; i++) x[i] = s == 0 ? 1 : s == 1 ? (double)((i * 7919L) % 101 - 50) : (double)((i * 31L) % 13 - 6) * 65536;
		for (int e = 0; e < g.nelem(); e++) {
			Vec A = el(e);
			g.nodes(e, v);
			for (int a = 0; a < m; a++) {
				if (g.boundary(v[a / g.nf])) continue;
				double t = 0;
				for (int b = 0; b < m; b++) if (!g.boundary(v[b / g.nf])) t += A[(size_t)a * m + b] * x[v[b / g.nf] * g.nf + b % g.nf];
				w[v[a / g.nf] * g.nf + a % g.nf] += t;
			}
		}
		for (int i = 0; i < N; i++) if (g.boundary(i / g.nf)) w[i] = x[i];
		Vec y = M.mul(x);
		X.checks++;
		for (int i = 0; i < N; i++) if (!(y[i] == w[i])) { X.fail(fmt("row %d of the product is %.17g, expected %.17g", i, y[i], w[i])); return; }
		X.outcome(hash_vals(y.data(), N));
	}
	X.traces++;
	X.state(hash_bytes(X.desc.data(), X.desc.size()));
}
int main(int argc, char **argv)
{
	X.init(argc, argv);
	int h2 = X.thorough ? 11 : 8;
	for (int nf = 1; nf <= 4; nf++) for (auto &g : grids(2, 2, h2, nf)) all(g);
	for (int nf = 1; nf <= 3; nf++) for (auto &g : grids(3, 2, X.thorough ? 6 : nf == 1 ? 6 : nf == 2 ? 5 : 4, nf)) all(g);
	for (int nf = 4; nf <= 6; nf++) { all(Grid{2, {6, 5, 1}, nf}); all(Grid{3, {4, 3, 5}, nf}); all(Grid{3, {3, 3, 3}, nf}); }
	// one axis long, the others any
	for (int ax = 0; ax < 3; ax++) for (int l = 5; l <= (X.thorough ? 12 : 9); l++) for (int a = 2; a <= 4; a++) for (int b = 2; b <= 4; b++) {
		Grid g{3, {0, 0, 0}, 1 + (l + a + b) % 2};
		g.n[ax] = l; g.n[(ax + 1) % 3] = a; g.n[(ax + 2) % 3] = b;
		all(g);
	}
	for (int ax = 0; ax < 2; ax++) for (int l = 9; l <= (X.thorough ? 24 : 16); l++) for (int a = 2; a <= 6; a++) {
		Grid g{2, {0, 0, 1}, 1 + (l + a) % 2};
		g.n[ax] = l; g.n[1 - ax] = a;
		all(g);
	}
	for (auto &g : {Grid{2, {3, 40, 1}, 2}, Grid{2, {40, 3, 1}, 2}, Grid{2, {5, 25, 1}, 2}, Grid{2, {25, 5, 1}, 2}, Grid{2, {13, 12, 1}, 2},
			Grid{3, {3, 3, 15}, 3}, Grid{3, {3, 15, 3}, 3}, Grid{3, {15, 3, 3}, 3}, Grid{3, {5, 5, 5}, 3}, Grid{3, {5, 4, 6}, 3}, Grid{3, {7, 5, 6}, 1}}) all(g);
	for (int nf : {7, 8, 9, 10, 13}) { all(Grid{2, {5, 4, 1}, nf}); all(Grid{3, {4, 3, 3}, nf}); }
	for (int nf = 5; nf <= 13; nf++) { for (auto &g : grids(2, 2, nf < 9 ? 5 : 4, nf)) all(g); for (auto &g : grids(3, 2, 3, nf)) if (nf < 7 || g.nelem() <= 4) all(g); }
	for (auto &g : {Grid{2, {70, 70, 1}, 2}, Grid{2, {260, 255, 1}, 1}, Grid{2, {4, 700, 1}, 3}, Grid{2, {700, 4, 1}, 3}, Grid{3, {20, 20, 20}, 3}, Grid{3, {41, 40, 42}, 1}, Grid{3, {4, 4, 200}, 3}, Grid{3, {4, 200, 4}, 2}, Grid{3, {200, 4, 4}, 2}}) large(g);
	return X.finish();
}
