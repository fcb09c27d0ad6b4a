// C01: elastic homogenised stress against the reference finite element solution.
#include "age.hpp"
#include "cell.hpp"

static const double RREL = 1e-9;

static void one(const Cfg &c, bool rich)
{
	if (!X.mine()) { X.next++; return; }
	if (!X.begin(c.str())) return;
	ref::Cell R = c.cell();
	auto D = dirs(c.dim, rich);
	// elastic => the reference response is its tangent times the strain; one dense solve per cell
	std::vector<double> zero(6, 0);
	ref::Result r0 = R.solve(zero.data(), {}, true);
	int V = c.V();
	std::vector<std::vector<double>> eps;
	for (auto &d : D) {
		std::vector<double> e(V);
		for (int i = 0; i < V; i++) e[i] = 1e-3 * d[i];
		eps.push_back(e);
	}
	{ std::vector<double> e(V); for (int i = 0; i < V; i++) e[i] = (c.E[0] > 1e10 ? -0.01 : -0.8) * D[V][i]; eps.push_back(e); }
	eps.push_back(std::vector<double>(V, 0));
	{ std::vector<double> e(V); for (int i = 0; i < V; i++) e[i] = (i % 2 ? 3e-6 : -2e-6); eps.push_back(e); }
	// very small, very large and of mixed size
	bool inner = true, stiff = std::fmin(c.E[0], c.E[1]) > 1e10;
	for (int d = 0; d < c.dim; d++) if (c.n[d] < 3) inner = false;
	const double stol = inner ? c.stol() : 0;	// without inner nodes nothing is iterated
	std::vector<double> amps = {2e-9, 5e-8};
	if (!stiff) amps.push_back(20.0); else { amps.push_back(3e-10); amps.push_back(4e-11); }
	if (!inner) for (double a : {1e-12, 1e-30, 1e10}) amps.push_back(a);
	for (double a : amps) { std::vector<double> e(V); for (int i = 0; i < V; i++) e[i] = a * D[V + 1][i]; eps.push_back(e); }
	for (int q = 0; q < 2; q++) { std::vector<double> e(V); for (int i = 0; i < V; i++) e[i] = (i % 2 == q) ? 1e-2 * D[V][i] : 1e-7 * D[V + 1][i]; eps.push_back(e); }
	Sut s(c);
	auto want = [&](const std::vector<double> &e) {
		std::vector<double> w(V, 0);
		for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) w[i] += r0.tan[i * V + j] * e[j];
		return w;
	};
	size_t N = eps.size();
	for (size_t g = 0; g < N; g++) s.set((int)g, eps[g].data());
	s.hom();
	for (size_t g = 0; g < N; g++) {
		auto w = want(eps[g]), got = s.sig((int)g);
		if (!same(fmt("stress for strain %s", vec(eps[g].data(), V).c_str()).c_str(), got.data(), w.data(), V, stol + RREL * amax(w.data(), V))) return;
		X.state(hash_vals(got.data(), V, hash_bytes(c.str().data(), c.str().size())));
		X.outcome(hash_vals(got.data(), V));
		X.traces++;
	}
	// the same points loaded again with other strains: still a function of the strain only
	s.commit();
	for (size_t g = 0; g < N; g += 3) s.set((int)g, eps[(g + 5) % N].data());
	s.hom();
	for (size_t g = 0; g < N; g++) {
		auto &e = eps[g % 3 == 0 ? (g + 5) % N : g];
		auto w = want(e), got = s.sig((int)g);
		if (!same(fmt("second evaluation, stress for strain %s", vec(e.data(), V).c_str()).c_str(), got.data(), w.data(), V, stol + RREL * amax(w.data(), V))) return;
	}
	// the answers of the linear shortcut are cell averages of the equilibrium solution as well, to the
	// resolution of the tangent they are made of (residual 1e-5 against a strain of 1e-8)
	{
		Cfg k = c;
		k.inv_tol = 1e300;
		Sut q(k);
		const double tm = amax(r0.tan.data(), V * V);
		for (size_t g = 0; g < N; g++) q.set((int)g, eps[g].data());
		q.hom();
		for (size_t g = 0; g < N; g++) {
			auto w = want(eps[g]), got = q.sig((int)g);
			if (!same(fmt("stress of the linear shortcut for strain %s", vec(eps[g].data(), V).c_str()).c_str(), got.data(), w.data(), V, (V * 2e-6 * tm + (inner ? 1e6 * stol : 0)) * amax(eps[g].data(), V))) return;
		}
	}
	if (c.n[0] != c.n[1]) X.sample(c.str() + fmt(": stress for %s = %s", vec(eps[V].data(), V).c_str(), vec(s.sig((V % 3) ? V : V + 1).data(), V).c_str()));
}

struct M { double E[2], nu[2]; int mt[2]; double Sy; };

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const std::vector<M> mats = {
		{{1e8, 5e8}, {0.25, 0.3}, {0, 0}, 1e3},
		{{4e8, 1e6}, {0.0, 0.45}, {0, 2}, 1e3},
		{{1e8, 1e11}, {0.3, 0.2}, {2, 0}, 1e3},
		{{1e7, 1e7}, {0.49, 0.1}, {1, 1}, 1e30},	// plastic law, never yields
		{{3e9, 2e9}, {-0.3, 0.33}, {0, 1}, 1e30},
		{{1e5, 1e4}, {0.25, 0.25}, {0, 0}, 1e3},
		{{2.1e11, 7e10}, {0.3, 0.33}, {0, 0}, 1e3},
	};
	const double Ls[][3] = {{1, 1, 1}, {2, 0.7, 1.3}, {0.3, 1.9, 0.9}, {11, 25, 7}};
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double wf, const double *L, const M &m) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type;
		double ref = 1e300;
		for (int d = 0; d < 3; d++) { c.L[d] = L[d]; if (d < dim) ref = std::fmin(ref, L[d]); }
		c.width = type == 0 ? wf * ref * 0.7 : wf * L[1];
		for (int i = 0; i < 2; i++) { c.E[i] = m.E[i]; c.nu[i] = m.nu[i]; c.mt[i] = m.mt[i]; c.Sy[i] = m.Sy; c.Ka[i] = 0.1 * m.E[i]; if (dim == 2 && m.mt[i] == 1) c.Sy[i] = 1; }
		c.settle();
		return c;
	};
	const double W[] = {0.5, 0.85, 0.27};
	// 2D: all grids 2..7 x 2..7, every combination
	int top2 = X.thorough ? 9 : 6;
	for (int nx = 2; nx <= top2; nx++) for (int ny = 2; ny <= top2; ny++)
		for (int type = 0; type < 2; type++) for (double w : W) for (int l = 0; l < 4; l++) for (auto &m : mats)
			one(conf(2, nx, ny, 1, type, w, Ls[l], m), X.thorough);
	// 3D: all grids 2..4 (thorough 2..5) per axis
	int top3 = X.thorough ? 5 : 4;
	for (int nx = 2; nx <= top3; nx++) for (int ny = 2; ny <= top3; ny++) for (int nz = 2; nz <= top3; nz++)
		for (int type = 0; type < 2; type++) for (int w = 0; w < (X.thorough ? 3 : 2); w++) for (int l = 0; l < 3; l++)
			for (size_t m = 0; m < mats.size(); m++) {
				// quick: all pairs of (length, material) with the first width, the other width on the diagonal
				if (!X.thorough && ((w > 0 && (m + l) % 3 != 0) || (w == 0 && (m + l + nx + ny + nz + type) % 2 != 0))) continue;
				one(conf(3, nx, ny, nz, type, W[w], Ls[l], mats[m]), false);
			}
	// 3D cells of very unequal or large lengths
	const double L3[][3] = {{11, 25, 7}, {10, 1, 0.1}, {0.1, 1, 10}, {1, 10, 0.1}, {100, 120, 90}, {0.01, 0.012, 0.009}};
	for (int nx = 2; nx <= 3; nx++) for (int ny = 2; ny <= 3; ny++) for (int nz = 2; nz <= 3; nz++)
		for (int type = 0; type < 2; type++) for (auto &l : L3) for (int m : {0, 3, 5})
			one(conf(3, nx, ny, nz, type, 0.5, l, mats[m]), false);
	// balls wider than one side of the cell, and materials close to incompressible
	for (auto &l : {std::vector<double>{6, 1, 1.2}, {1, 5, 1.1}, {1.3, 1, 6}}) for (double f : {0.3, 0.55, 0.8}) for (int m = 0; m < 2; m++) {
		for (auto &g : {std::vector<int>{7, 3, 3}, {3, 6, 4}, {3, 4, 7}}) {
			Cfg c = conf(3, g[0], g[1], g[2], 0, 0.5, l.data(), mats[m]);
			c.width = f * 0.5 * std::sqrt(l[0] * l[0] + l[1] * l[1] + l[2] * l[2]);
			c.settle();
			one(c, false);
		}
		for (auto &g : {std::vector<int>{8, 4}, {5, 9}, {6, 6}}) {
			Cfg c = conf(2, g[0], g[1], 1, 0, 0.5, l.data(), mats[m]);
			c.width = f * 0.5 * std::sqrt(l[0] * l[0] + l[1] * l[1]);
			c.settle();
			one(c, false);
		}
	}
	const M inc[] = {{{1e8, 3e8}, {0.4995, 0.4999}, {0, 0}, 1e3}, {{2e8, 1e8}, {0.4999, 0.2}, {0, 1}, 1e30}, {{1e8, 2e8}, {-0.9, 0.499}, {0, 0}, 1e3}};
	for (auto &m : inc) for (int type = 0; type < 2; type++) for (int l = 0; l < 2; l++) for (int w = 0; w < 2; w++) {
		for (int nx = 2; nx <= 5; nx++) for (int ny = 2; ny <= 5; ny++) one(conf(2, nx, ny, 1, type, W[w], Ls[l], m), false);
		for (int nx = 2; nx <= 4; nx++) for (int ny = 2; ny <= 3; ny++) for (int nz = 2; nz <= 4; nz++) one(conf(3, nx, ny, nz, type, W[w], Ls[l], m), false);
	}
	// so stiff that rounding keeps the residual above the tolerance: 40 iterations, and the right stress
	const M rigid[] = {{{1e15, 3e15}, {0.3, 0.2}, {0, 0}, 1e3}, {{2e18, 1e17}, {0.1, 0.4}, {0, 2}, 1e3}};
	for (auto &m : rigid) for (int type = 0; type < 2; type++) for (int l = 0; l < 2; l++) {
		for (auto &g : {std::vector<int>{3, 3}, {4, 5}, {7, 3}}) one(conf(2, g[0], g[1], 1, type, 0.5, Ls[l], m), false);
		for (auto &g : {std::vector<int>{3, 3, 3}, {2, 3, 4}}) one(conf(3, g[0], g[1], g[2], type, 0.5, Ls[l], m), false);
	}
	// larger and slender grids
	const int big2[][2] = {{12, 3}, {3, 12}, {17, 9}, {9, 20}, {31, 2}, {2, 31}, {33, 33}, {8, 7}, {7, 8}, {65, 4}, {4, 70}, {130, 3}, {3, 140}};
	for (auto &g : big2) for (int type = 0; type < 2; type++) for (int l = 0; l < 2; l++) for (int m = 0; m < 2; m++)
		one(conf(2, g[0], g[1], 1, type, 0.5, Ls[l + 1], mats[m]), false);
	const int big3[][3] = {{5, 3, 4}, {3, 6, 4}, {4, 3, 7}, {7, 2, 3}, {2, 3, 8}, {9, 3, 3}, {3, 10, 3}, {3, 3, 11}, {5, 5, 5}, {6, 5, 4}, {4, 5, 6}, {5, 6, 3}, {2, 2, 17}, {2, 18, 2}, {19, 2, 2}, {8, 7, 6}, {3, 3, 20}, {3, 21, 3}, {22, 3, 3}, {34, 3, 2}, {2, 3, 35}, {3, 36, 2}};
	for (auto &g : big3) for (int type = 0; type < 2; type++) for (int m = 0; m < 2; m++)
		one(conf(3, g[0], g[1], g[2], type, 0.5, Ls[1 + type], mats[m]), false);
	if (X.thorough) {
		const int huge3[][3] = {{10, 10, 10}, {12, 7, 9}, {5, 14, 6}, {6, 5, 16}, {21, 4, 4}, {4, 23, 4}, {4, 4, 25}};
		for (auto &g : huge3) for (int type = 0; type < 2; type++) for (int m = 0; m < 3; m++)
			one(conf(3, g[0], g[1], g[2], type, 0.5, Ls[1 + type], mats[m]), false);
		const int huge2[][2] = {{60, 60}, {120, 11}, {10, 130}, {300, 3}, {3, 300}};
		for (auto &g : huge2) for (int type = 0; type < 2; type++) for (int m = 0; m < 3; m++)
			one(conf(2, g[0], g[1], 1, type, 0.5, Ls[1], mats[m]), false);
	} else {
		one(conf(3, 10, 10, 10, 0, 0.6, Ls[0], mats[0]), false);
		one(conf(3, 4, 13, 5, 1, 0.5, Ls[1], mats[0]), false);
		one(conf(3, 14, 4, 4, 0, 0.6, Ls[2], mats[1]), false);
		one(conf(3, 4, 5, 12, 0, 0.6, Ls[2], mats[2]), false);
	}
	// very old instances
	{
		Cfg c; c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8;
		AgeLetters A3 = {{3e-3, 0, 0, 0, 0, 0}, {-2e-3, 1e-3, 0, 0, 3e-3, 0}, {0.4e-3, 0, 0, 0, 0, 0}}, A2 = {{3e-3, 0, 0}, {-2e-3, 1e-3, 3e-3}, {0.4e-3, 0, 0}};
		c.dim = 2; c.n[0] = c.n[1] = 3; c.type = 1; c.width = 0.5;
		age(c, A2, "HSE", X.thorough ? 600000 : 70000, {true, false, false});
		c.dim = 3; c.n[2] = 3; c.settle();
		age(c, A3, "HE", X.thorough ? 20000 : 3000, {true, false, false});
	}
	return X.finish();
}
