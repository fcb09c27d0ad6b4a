// C12: assembly of structured matrices against the dense sum.
#include "ellref.hpp"

static bool whole(Ell &M, const Grid &g, const Mat &A, const std::string &what, bool full)
{
	X.traces++;
	if (full) { if (!same_matrix(g, M.dense(), A, what)) return false; }
	int N = g.N();
	// integer vectors: all products are exact
	for (int s = 0; s < 3; s++) {
		Vec x(N);
		for (int i = 0; i < N; i++) x[i] = s == 0 ? 1 : s == 1 ? (double)((i * 7919) % 101 - 50) : ldexp((double)((i * 31) % 13 - 6), i % 2 ? 26 : 20);
		Vec y = M.mul(x), w = dense_mul(A, x);
		X.checks++;
		for (int i = 0; i < N; i++) if (!(y[i] == w[i])) { X.fail(fmt("%s: row %d of the product is %.17g, expected %.17g", what.c_str(), i, y[i], w[i])); return false; }
		X.outcome(hash_vals(y.data(), N));
	}
	return true;
}

static void one_by_one(const Grid &g)
{
	// every element alone; set_zero between
	if (!X.begin(g.str() + " | every element alone, then all in order, then zeroed")) return;
	Ell M(g);
	if (!M.valid()) return;
	int N = g.N();
	Mat Z((size_t)N * N, 0.0), S = Z;
	M.zero();
	if (!whole(M, g, Z, "zeroed matrix", true)) return;
	bool dense_each = (double)N * N * N * g.nelem() * 27 < 6e10;
	for (int e = 0; e < g.nelem(); e++) {
		M.zero();
		Vec Ae = tagged(g, e);
		M.add(e, Ae);
		Mat A = Z;
		dense_add(g, A, e, Ae);
		dense_add(g, S, e, Ae);
		if (!whole(M, g, A, fmt("element %d alone", e), dense_each)) return;
		X.state(hash_bytes(g.str().data(), g.str().size(), e));
	}
	M.zero();
	for (int e = 0; e < g.nelem(); e++) M.add(e, tagged(g, e));
	if (!whole(M, g, S, "all elements", true)) return;
	// twice the same, with other values, backwards
	for (int e = g.nelem() - 1; e >= 0; e--) { Vec Ae = tagged(g, e, 5); M.add(e, Ae); dense_add(g, S, e, Ae); }
	if (!whole(M, g, S, "all elements twice", true)) return;
	if (!M.valid()) return;
	M.zero();
	if (!whole(M, g, Z, "matrix set to zero after use", true)) return;
	X.sample(g.str());
}

// entries that are tiny, huge or of very different size: powers of two keep everything exact
static void scales(const Grid &g)
{
	for (int sc : {-400, -90, -45, 45, 90, 400}) {
		if (!X.begin(g.str() + fmt(" | all elements, entries scaled by 2^%d", sc))) continue;
		Ell M(g);
		if (!M.valid()) return;
		int N = g.N();
		Mat S((size_t)N * N, 0.0), Z = S;
		M.zero();
		for (int e = 0; e < g.nelem(); e++) {
			Vec Ae = tagged(g, e, e);
			for (double &v : Ae) v = ldexp(v, sc);
			M.add(e, Ae);
			dense_add(g, S, e, Ae);
		}
		if (!whole(M, g, S, "scaled", true)) return;
		// take every other element out again: exact cancellation
		for (int e = 0; e < g.nelem(); e += 2) {
			Vec Ae = tagged(g, e, e);
			for (double &v : Ae) v = -ldexp(v, sc);
			M.add(e, Ae);
			dense_add(g, S, e, Ae);
		}
		if (!whole(M, g, S, "partly subtracted", true)) return;
		M.zero();
		if (!whole(M, g, Z, "zeroed", true)) return;
		X.state(hash_bytes(X.desc.data(), X.desc.size()));
	}
	if (!X.begin(g.str() + " | entries over 40 binary orders, one product per unit vector")) return;
	Ell M(g);
	int N = g.N();
	Mat S((size_t)N * N, 0.0);
	M.zero();
	Vec Ae = tagged(g, g.nelem() / 2);
	for (size_t i = 0; i < Ae.size(); i++) Ae[i] = ldexp(Ae[i], (int)(i * 7 % 81) - 40);
	M.add(g.nelem() / 2, Ae);
	dense_add(g, S, g.nelem() / 2, Ae);
	if (!same_matrix(g, M.dense(), S, "mixed orders")) return;
	X.state(hash_bytes(X.desc.data(), X.desc.size()));
}
static void large(const Grid &g)
{
	// matrix-free: the sum of element products
	if (!X.begin(g.str() + " | all elements, products with three vectors")) return;
	Ell M(g);
	if (!M.valid()) return;
	int N = g.N();
	M.zero();
	auto el = [&](int e) { Vec A = tagged(g, e % 7, e % 3); return A; };
	for (int round = 0; round < 2; round++) {
		for (int e = 0; e < g.nelem(); e++) M.add(e, el(e));
		for (int s = 0; s < 3; s++) {
			Vec x(N), w(N, 0.0);
			for (int i = 0; i < N; i++) x[i] = s == 0 ? 1 : s == 1 ? (double)((i * 7919L) % 101 - 50) : (double)((i * 31L) % 13 - 6) * 65536;
			int m = g.ed(), v[8];
			for (int e = 0; e < g.nelem(); e++) {
				Vec A = el(e);
				g.nodes(e, v);
				for (int a = 0; a < m; a++) { double t = 0; for (int b = 0; b < m; b++) t += A[(size_t)a * m + b] * x[v[b / g.nf] * g.nf + b % g.nf]; w[v[a / g.nf] * g.nf + a % g.nf] += (round + 1) * t; }
			}
			Vec y = M.mul(x);
			X.checks++;
			for (int i = 0; i < N; i++) if (!(y[i] == w[i])) { X.fail(fmt("row %d of the product is %.17g, expected %.17g", i, y[i], w[i])); return; }
			X.outcome(hash_vals(y.data(), N));
		}
	}
	M.zero();
	Vec y = M.mul(Vec(N, 3.0));
	for (int i = 0; i < N; i++) if (y[i] != 0) { X.fail(fmt("row %d of the product with the zeroed matrix is %.17g", i, y[i])); return; }
	X.traces++;
	X.state(hash_bytes(X.desc.data(), X.desc.size()));
}

static void subsets(const Grid &g)
{
	int ne = g.nelem();
	int N = g.N();
	for (int s = 0; s < (1 << ne); s++) {
		if (!X.begin(g.str() + fmt(" | elements of the subset %x, up and down", s))) continue;
		Ell M(g);
		if (!M.valid()) return;
		Mat S((size_t)N * N, 0.0);
		for (int e = 0; e < ne; e++) if (s >> e & 1) dense_add(g, S, e, tagged(g, e));
		for (int o = 0; o < 2; o++) {
			M.zero();
			for (int q = 0; q < ne; q++) { int e = o ? ne - 1 - q : q; if (s >> e & 1) M.add(e, tagged(g, e)); }
			if (!whole(M, g, S, o ? "descending" : "ascending", true)) return;
		}
		X.state(hash_bytes(g.str().data(), g.str().size(), 1000 + s));
	}
}
static void sequences(const Grid &g, int len)
{
	// all sequences of {add element e, zero}
	int ne = g.nelem(), k = ne + 1, N = g.N();
	long total = 1;
	for (int i = 0; i < len; i++) total *= k;
	long block = total > 64 ? total / 64 + 1 : 1;
	for (long b = 0; b < total; b += block) {
		if (!X.begin(g.str() + fmt(" | sequences %ld.. of length %d over add(e) and zero", b, len))) continue;
		Ell M(g);
		if (!M.valid()) return;
		for (long w = b; w < b + block && w < total; w++) {
			M.zero();
			Mat S((size_t)N * N, 0.0);
			long r = w;
			std::string d;
			for (int i = 0; i < len; i++, r /= k) {
				int e = (int)(r % k);
				if (e == ne) { M.zero(); std::fill(S.begin(), S.end(), 0.0); d += " zero"; }
				else { Vec Ae = tagged(g, e, i); M.add(e, Ae); dense_add(g, S, e, Ae); d += fmt(" add%d", e); }
			}
			if (!whole(M, g, S, d, true)) return;
			X.state(hash_bytes(g.str().data(), g.str().size(), 77777 + w));
		}
	}
}
static void unit_entries(const Grid &g)
{
	// a single non-zero entry in one element matrix
	int ne = g.nelem(), m = g.ed(), N = g.N();
	for (int e = 0; e < ne; e++) {
		if (!X.begin(g.str() + fmt(" | element %d, each single entry", e))) continue;
		Ell M(g);
		if (!M.valid()) return;
		for (int q = 0; q < m * m; q++) {
			M.zero();
			Vec Ae((size_t)m * m, 0.0);
			Ae[q] = 3;
			M.add(e, Ae);
			Mat S((size_t)N * N, 0.0);
			dense_add(g, S, e, Ae);
			if (!whole(M, g, S, fmt("entry %d,%d", q / m, q % m), true)) return;
		}
	}
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	int h2 = X.thorough ? 9 : 6, h3 = X.thorough ? 5 : 4;
	for (int nf = 1; nf <= 4; nf++) for (auto &g : grids(2, 2, h2, nf)) one_by_one(g);
	for (int nf = 1; nf <= (X.thorough ? 4 : 3); nf++) for (auto &g : grids(3, 2, h3, nf)) one_by_one(g);
	for (int nf : {5, 6}) { one_by_one(Grid{2, {4, 3, 1}, nf}); one_by_one(Grid{3, {3, 2, 3}, nf}); }
	// one axis long, the others any
	for (int ax = 0; ax < 3; ax++) for (int l = 5; l <= (X.thorough ? 12 : 9); l++) for (int a = 2; a <= 4; a++) for (int b = 2; b <= 4; b++) {
		Grid g{3, {0, 0, 0}, 1 + (l + a + b) % 2};
		g.n[ax] = l; g.n[(ax + 1) % 3] = a; g.n[(ax + 2) % 3] = b;
		one_by_one(g);
	}
	for (int ax = 0; ax < 2; ax++) for (int l = 7; l <= (X.thorough ? 24 : 16); l++) for (int a = 2; a <= 6; a++) {
		Grid g{2, {0, 0, 1}, 1 + (l + a) % 2};
		g.n[ax] = l; g.n[1 - ax] = a;
		one_by_one(g);
	}
	for (auto &g : {Grid{2, {2, 40, 1}, 2}, Grid{2, {40, 2, 1}, 2}, Grid{2, {13, 11, 1}, 2}, Grid{3, {2, 2, 20}, 3}, Grid{3, {2, 20, 2}, 3}, Grid{3, {20, 2, 2}, 3}, Grid{3, {6, 5, 7}, 1}, Grid{3, {5, 6, 5}, 2}}) one_by_one(g);
	for (int nf : {7, 8, 9, 10, 12, 17}) { one_by_one(Grid{2, {3, 3, 1}, nf}); one_by_one(Grid{3, {2, 3, 2}, nf}); if (nf < 12) one_by_one(Grid{3, {3, 3, 3}, nf}); }
	// many unknowns per node on every small grid
	for (int nf = 4; nf <= 13; nf++) { for (auto &g : grids(2, 2, nf < 9 ? 4 : 3, nf)) one_by_one(g); for (auto &g : grids(3, 2, nf < 8 ? 3 : 2, nf)) if (g.nelem() <= (nf < 6 ? 8 : 2)) one_by_one(g); }
	for (int nf = 1; nf <= 3; nf++) { for (auto &g : grids(2, 2, 4, nf)) scales(g); for (auto &g : grids(3, 2, 3, nf)) scales(g); }
	for (auto &g : {Grid{2, {70, 70, 1}, 2}, Grid{2, {260, 255, 1}, 1}, Grid{2, {3, 700, 1}, 3}, Grid{2, {700, 3, 1}, 3}, Grid{3, {20, 20, 20}, 3}, Grid{3, {41, 40, 42}, 1}, Grid{3, {3, 3, 300}, 3}, Grid{3, {3, 300, 3}, 2}, Grid{3, {300, 3, 3}, 2}}) large(g);
	if (X.thorough) for (auto &g : {Grid{2, {520, 510, 1}, 2}, Grid{3, {60, 61, 62}, 3}, Grid{3, {110, 100, 4}, 3}}) large(g);
	for (int nf = 1; nf <= 3; nf++) {
		for (auto &g : grids(2, 2, 5, nf)) if (g.nelem() <= (X.thorough ? 9 : 6)) subsets(g);
		for (auto &g : grids(3, 2, 4, nf)) if (g.nelem() <= (X.thorough ? 8 : 4)) subsets(g);
		for (auto &g : grids(2, 2, 4, nf)) if (g.nelem() <= 4) sequences(g, g.nelem() <= 2 ? 6 : 5);
		for (auto &g : grids(3, 2, 3, nf)) if (g.nelem() <= 2) sequences(g, X.thorough ? 5 : 4);
		for (auto &g : grids(2, 2, X.thorough ? 5 : 4, nf)) unit_entries(g);
		for (auto &g : grids(3, 2, X.thorough && nf < 3 ? 4 : 3, nf)) if (nf < 3 || g.nelem() <= 2 || X.thorough) unit_entries(g);
	}
	return X.finish();
}
