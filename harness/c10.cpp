// C10: axis permutations and mirrors.
#include "cell.hpp"
#include "hist.hpp"

struct Tr { int p[3]; int s[3]; };	// new axis i is old axis p[i] with sign s[i]

static int vi(int dim, int a, int b)
{
	if (dim == 2) return a == b ? a : 2;
	if (a == b) return a;
	int lo = std::min(a, b), hi = std::max(a, b);
	return lo == 0 ? (hi == 1 ? 3 : 4) : 5;
}
// index and sign of old component for new component v
static void comp(int dim, const Tr &t, int v, int &old, int &sg)
{
	static const int A2[] = {0, 1, 0}, B2[] = {0, 1, 1}, A3[] = {0, 1, 2, 0, 0, 1}, B3[] = {0, 1, 2, 1, 2, 2};
	int a = dim == 2 ? A2[v] : A3[v], b = dim == 2 ? B2[v] : B3[v];
	old = vi(dim, t.p[a], t.p[b]);
	sg = t.s[a] * t.s[b];
}
static std::vector<double> map1(int dim, const Tr &t, const std::vector<double> &x)
{
	int V = dim == 2 ? 3 : 6;
	std::vector<double> r(V);
	for (int v = 0; v < V; v++) { int o, s; comp(dim, t, v, o, s); r[v] = s * x[o]; }
	return r;
}
static std::vector<double> map2(int dim, const Tr &t, const std::vector<double> &x)
{
	int V = dim == 2 ? 3 : 6;
	std::vector<double> r(V * V);
	for (int v = 0; v < V; v++) for (int w = 0; w < V; w++) { int o, s, o2, s2; comp(dim, t, v, o, s); comp(dim, t, w, o2, s2); r[v * V + w] = s * s2 * x[o * V + o2]; }
	return r;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double lx, double ly, double lz) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
		c.E[0] = 1e9; c.nu[0] = 0.2; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = m0;
		c.E[1] = 4e9; c.nu[1] = 0.35; c.Sy[1] = 5e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		c.L[0] = lx; c.L[1] = ly; c.L[2] = lz;
		c.settle();
		return c;
	};
	auto group = [&](int dim, int type) {
		std::vector<Tr> g;
		int perm[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}};
		for (auto &p : perm) for (int m = 0; m < 8; m++) {
			Tr t;
			for (int i = 0; i < 3; i++) { t.p[i] = p[i]; t.s[i] = (m >> i & 1) ? -1 : 1; }
			if (dim == 2 && (p[2] != 2 || (m & 4))) continue;
			if (type == 1 && (p[1] != 1 || t.s[1] < 0)) continue;	// keep the layer normal
			bool id = true; for (int i = 0; i < 3; i++) id &= t.p[i] == i && t.s[i] == 1;
			if (!id) g.push_back(t);
		}
		return g;
	};
	// run a set of independent histories (one point each) and return all stresses and tangents
	typedef std::vector<std::vector<std::vector<double>>> Words;	// point, step, strain
	auto response = [&](const Cfg &c, const Words &w, std::vector<std::vector<double>> &S, std::vector<std::vector<double>> &C) {
		Sut s(c);
		size_t steps = w[0].size();
		for (size_t t = 0; t < steps; t++) {
			for (size_t g = 0; g < w.size(); g++) s.set((int)g, w[g][t].data());
			s.hom();
			for (size_t g = 0; g < w.size(); g++) { S.push_back(s.sig((int)g)); C.push_back(s.tan((int)g)); }
			s.commit();
		}
	};
	auto sweep = [&](const Cfg &c, const Words &w, bool plastic, const char *name) {
		auto G = group(c.dim, c.type);
		int V = c.V();
		const int chunk = 4;
		for (size_t g0 = 0; g0 < G.size(); g0 += chunk) {
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin(std::string(name) + " " + c.str() + fmt(" transformations %zu..", g0))) continue;
			std::vector<std::vector<double>> S, C;
			response(c, w, S, C);
			for (size_t gi = g0; gi < std::min(G.size(), g0 + chunk) && !X.stop(); gi++) {
				const Tr &t = G[gi];
				Cfg d = c;
				for (int i = 0; i < c.dim; i++) { d.n[i] = c.n[t.p[i]]; d.L[i] = c.L[t.p[i]]; }
				Words w2 = w;
				for (auto &p : w2) for (auto &e : p) e = map1(c.dim, t, e);
				std::vector<std::vector<double>> S2, C2;
				response(d, w2, S2, C2);
				std::string tn = fmt(" under axes (%c%d %c%d %c%d)", t.s[0] < 0 ? '-' : '+', t.p[0], t.s[1] < 0 ? '-' : '+', t.p[1], t.s[2] < 0 ? '-' : '+', t.p[2]);
				for (size_t k = 0; k < S.size(); k++) {
					auto ws = map1(c.dim, t, S[k]), wc = map2(c.dim, t, C[k]);
					size_t pt = k % w.size(), stp = k / w.size();
					std::string at = fmt(" of history %zu step %zu, strain ", pt, stp) + vec(w[pt][stp].data(), V) + tn;
					if (!same(("stress" + at).c_str(), S2[k].data(), ws.data(), V, 5 * c.stol() + 1e-6 * amax(ws.data(), V))) break;
					if (!same(("tangent" + at).c_str(), C2[k].data(), wc.data(), V * V, 1e7 * c.stol() + 1e-6 * amax(ws.data(), V) + 1e-6 * 4e9 * amax(w[pt][stp].data(), V) + (plastic ? 4e-4 : 5e-6) * amax(wc.data(), V * V))) break;
					X.state(hash_vals(S2[k].data(), V, hash_vals(w2[pt][stp].data(), V)));
					X.outcome(hash_vals(S2[k].data(), V));
				}
				X.traces++;
			}
			X.sample(X.desc);
		}
	};
	auto one_step = [&](int dim) {
		Words w;
		auto D = dirs(dim, true);
		for (size_t i = 0; i < D.size(); i++) { auto e = D[i]; for (double &x : e) x *= (i % 2 ? -1e-3 : 2e-3); w.push_back({e}); }
		return w;
	};
	// elastic cells
	int top = T ? 6 : 5;
	for (int nx = 2; nx <= top; nx++) for (int ny = 2; ny <= top; ny++) for (int type = 0; type < 2; type++) for (int l = 0; l < 2; l++)
		sweep(conf(2, nx, ny, 1, type, 0.42, 0, 0, 1, l ? 1.7 : 1, 1), one_step(2), false, "elastic");
	// cells of very unequal lengths
	for (auto &g : std::vector<std::vector<int>>{{2, 2}, {3, 3}, {4, 3}, {3, 5}, {5, 9}, {8, 4}}) for (int type = 0; type < 2; type++) for (double l : {0.2, 2.3, 6.0, 30.0})
		sweep(conf(2, g[0], g[1], 1, type, type ? 0.4 * l : 0.45, 0, 0, 1, l, 1), one_step(2), false, "elastic");
	for (auto &g : std::vector<std::vector<int>>{{2, 3, 2}, {3, 3, 3}, {3, 4, 3}}) for (int type = 0; type < 2; type++) for (auto &l : std::vector<std::vector<double>>{{1, 0.2, 3}, {5, 2.3, 1}, {1, 8, 2.5}, {20, 1, 1}})
		sweep(conf(3, g[0], g[1], g[2], type, type ? 0.4 * l[1] : 0.6 * std::fmin(l[0], std::fmin(l[1], l[2])), 0, 0, l[0], l[1], l[2]), one_step(3), false, "elastic");
	sweep(conf(2, 12, 17, 1, 0, 0.3, 0, 0, 1, 1.3, 1), one_step(2), false, "elastic");
	sweep(conf(2, 20, 9, 1, 1, 0.3, 0, 0, 1, 1.3, 1), one_step(2), false, "elastic");
	const int g3[][3] = {{2, 2, 2}, {2, 3, 4}, {3, 3, 3}, {3, 4, 5}, {4, 3, 3}, {3, 3, 4}, {3, 5, 3}, {5, 2, 3}, {4, 4, 4}, {6, 3, 4}, {4, 5, 6}};
	for (auto &g : g3) for (int type = 0; type < 2; type++) {
		bool large = g[0] * g[1] * g[2] > 70;
		if (large && !T && type == 1) continue;
		auto w = one_step(3);
		if (large && !T) w.erase(w.begin(), w.begin() + 6);
		sweep(conf(3, g[0], g[1], g[2], type, type ? 0.6 : 0.45, 0, 0, 1, 1.2, 0.9), w, false, "elastic");
	}
	// plastic histories: all words of length 2 over a small alphabet, then unloading and a mixed strain
	Letters A = plast_letters(1e-3, 1);
	Words pw;
	for (size_t a = 0; a < A.size(); a++) for (size_t b = 0; b < A.size(); b++) if (a != b) pw.push_back({A[a], A[b], {0.2e-3, -0.1e-3, 0.3e-3, 1e-3, -4e-3, 2e-3}});
	const int p3[][3] = {{2, 2, 2}, {2, 3, 4}, {3, 3, 3}, {3, 4, 3}, {4, 3, 3}};
	for (auto &g : p3) for (int type = 0; type < 2; type++) for (int m = 1; m < 4; m++) {
		bool one = g[0] * g[1] * g[2] == 8;
		Words w;
		for (size_t i = 0; i < pw.size(); i++) if (one || T || i % (g[0] * g[1] * g[2] > 27 ? 24 : 12) == (size_t)m) w.push_back(pw[i]);
		sweep(conf(3, g[0], g[1], g[2], type, type ? 0.6 : 0.45, m & 1, m >> 1, 1, 1.2, 0.9), w, true, "plastic");
	}
	// strains from far below yield to far above it, one factor per history
	for (auto &g : p3) for (int m = 1; m < 4; m++) {
		bool one = g[0] * g[1] * g[2] == 8, inner = g[0] > 2 && g[1] > 2 && g[2] > 2;
		Words w;
		int k = 0;
		for (double f : {1e-9, 1e-4, 0.02, 0.3, 8.0, 30.0, 100.0, 1000.0, 1e4}) {
			if (inner && (f > 100 || f < 1e-3)) continue;
			int every = one ? 7 : inner ? 41 : 17;
			for (size_t i = 0; i < pw.size(); i++) if ((int)(i % every) == (m + 3 * k) % every) { auto h = pw[i]; for (auto &e : h) for (double &x : e) x *= f; w.push_back(h); }
			k++;
		}
		sweep(conf(3, g[0], g[1], g[2], m & 1, m & 1 ? 0.6 : 0.45, m & 1, m >> 1, 1, 1.2, 0.9), w, true, "plastic, all sizes");
	}
	return X.finish();
}
