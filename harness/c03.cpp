// C03: committed plastic histories against the J2 reference model.
#include "hist.hpp"

int main(int argc, char **argv)
{
	X.init(argc, argv);
	HistCheck H;
	const bool T = X.thorough;
	struct M { double E[2], nu[2], Sy[2], Ka[2]; int mt[2]; };
	// yield strain of material 0 (uniaxial Sy/E) is 1e-3 throughout
	const std::vector<M> mats = {
		{{1e8, 3e8}, {0.25, 0.3}, {1e5, 2e5}, {1e7, 3e7}, {1, 0}},
		{{1e8, 2e8}, {0.3, 0.1}, {1e5, 4e5}, {5e6, 4e7}, {1, 1}},
		{{5e8, 1e8}, {0.0, 0.4}, {5e5, 1e5}, {5e8, 1e6}, {0, 1}},
		{{1e9, 1e8}, {0.45, 0.25}, {1e6, 5e4}, {1e6, 2e7}, {1, 2}},
		{{1e9, 4e9}, {0.2, 0.2}, {1e6, 1e6}, {2e9, 0}, {2, 1}},
	};
	auto conf = [&](int nx, int ny, int nz, int type, double w, double lx, double ly, double lz, const M &m) {
		Cfg c;
		c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
		c.L[0] = lx; c.L[1] = ly; c.L[2] = lz;
		for (int i = 0; i < 2; i++) { c.E[i] = m.E[i]; c.nu[i] = m.nu[i]; c.Sy[i] = m.Sy[i]; c.Ka[i] = m.Ka[i]; c.mt[i] = m.mt[i]; }
		c.settle();
		return c;
	};
	// one element: pure material histories, deep. width 0: material 0, width 9: material 1
	Letters A2 = plast_letters(1e-3, 2), A1 = plast_letters(1e-3, 1), A0 = plast_letters(1e-3, 0);
	for (auto &m : mats) for (int which = 0; which < 2; which++) {
		Hist h(conf(2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), A2, H);
		h.explore(T ? 5 : 4, 2);
	}
	// perfect plasticity on one element
	{ M m = mats[1]; m.Ka[0] = m.Ka[1] = 0; Hist h(conf(2, 2, 2, 0, 9, 1, 1, 1, m), A2, H); h.explore(T ? 5 : 4, 2); }
	{ Hist h(conf(2, 2, 2, 1, 9, 0.4, 1, 1, mats[1]), A0, H); h.explore(T ? 8 : 6, 3); }
	// no elastic range before the first yielding
	for (int k = 0; k < 2; k++) {
		M m = mats[1]; m.Sy[0] = 0; m.Ka[0] = 5e7;
		Hist h(k ? conf(2, 2, 3, 1, 0.5, 1, 1, 1, m) : conf(2, 2, 2, 0, 0, 1, 1, 1, m), k ? A0 : A1, H); h.explore(T ? 5 : 4, 2);
	}
	// cells so stiff that the residual never falls below the tolerance: the stress is right all the same
	for (double f : {1e6, 1e9}) for (int k = 0; k < 2; k++) {
		M m = mats[k];
		for (int i = 0; i < 2; i++) { m.E[i] *= f; m.Sy[i] *= f; m.Ka[i] *= f; }
		Hist h(conf(3, 3, 3, 1, 0.5, 1, 1.2, 1.3, m), A0, H); h.explore(T ? 3 : 2, 1);
	}
	// hardening far stronger than the elastic stiffness, next to none, and odd Poisson ratios
	const std::vector<M> odd = {
		{{1e8, 1e8}, {0.25, 0.3}, {1e5, 1e5}, {3e8, 1e10}, {1, 1}},
		{{1e8, 2e8}, {-0.4, 0.49}, {1e5, 3e5}, {1e4, 1e2}, {1, 1}},
		{{1e8, 3e8}, {-0.8, 0.0}, {1e5, 1e3}, {2e8, 1e6}, {1, 1}},
	};
	for (auto &m : odd) {
		for (int which = 0; which < 2; which++) { Hist h(conf(2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), A1, H); h.explore(T ? 5 : 4, 2); }
		{ Hist h(conf(2, 3, 2, 1, 0.5, 1, 1, 1.3, m), A1, H); h.explore(T ? 4 : 3, 2); }
		{ Hist h(conf(3, 3, 3, 1, 0.5, 1, 1.2, 1.3, m), A1, H); h.explore(T ? 3 : 2, 1); }
	}
	// several elements without inner nodes: layered, both materials active
	for (auto &m : mats) for (int k = 0; k < 3; k++) {
		int g[3] = {2, 2, 2}; g[k] = 3;
		Hist h(conf(g[0], g[1], g[2], 1, 0.5, 1, 1, 1.3, m), A2, H);
		h.explore(T ? 4 : 3, 2);
	}
	// cells with inner nodes
	struct G { int n[3]; double L[3]; int type; double w; int depth, dT; int level; };
	const G gs[] = {
		{{3, 3, 3}, {1, 1, 1}, 1, 0.5, 3, 4, 1},
		{{3, 3, 3}, {1, 1.4, 0.8}, 1, 0.7, 3, 4, 1},
		{{4, 4, 4}, {1, 1, 1}, 0, 0.3, 2, 3, 1},
		{{3, 4, 3}, {0.9, 1, 1.2}, 1, 0.6, 2, 3, 2},
		{{4, 3, 3}, {1, 1, 1.5}, 0, 0.35, 2, 3, 2},
		{{3, 3, 5}, {1, 1, 2}, 0, 0.5, 2, 3, 2},
		{{3, 5, 2}, {1, 1.2, 0.5}, 0, 0.4, 3, 4, 1},
		{{5, 2, 4}, {1.2, 0.5, 1}, 0, 0.45, 2, 3, 1},
	};
	for (auto &g : gs) for (size_t mi = 0; mi < mats.size(); mi++) {
		auto &m = mats[mi];
		if (m.Ka[1] == 0 && m.mt[1] == 1 && g.depth > 0 && mi == 4) { M m2 = m; m2.Ka[1] = 1e8; Hist h(conf(g.n[0], g.n[1], g.n[2], g.type, g.w, g.L[0], g.L[1], g.L[2], m2), plast_letters(1e-3, g.level), H); h.explore(T ? g.dT : 2, 1); continue; }
		Hist h(conf(g.n[0], g.n[1], g.n[2], g.type, g.w, g.L[0], g.L[1], g.L[2], m), plast_letters(1e-3, g.level), H);
		h.explore(T ? g.dT : (mi < 2 ? g.depth : 2), mi < 2 && g.depth > 2 ? 2 : 1);
	}
	// many elements (many internal variables), with and without inner nodes
	{
		struct B { int n[3]; double L[3]; int type; double w; int letters, depth; };
		const B bs[] = {
			{{2, 2, 420}, {1, 1, 60}, 0, 12, 4, 2}, {{2, 330, 2}, {0.5, 40, 1}, 1, 17, 4, 2}, {{700, 2, 2}, {80, 1, 1}, 0, 9, 3, 2},
			{{18, 17, 2}, {1, 1, 0.2}, 0, 0.3, 3, 2}, {{2, 26, 25}, {0.2, 1, 1}, 1, 0.5, 3, 2},
			{{3, 3, 50}, {1, 1, 20}, 1, 0.5, 3, 1}, {{6, 6, 6}, {1, 1, 1}, 0, 0.35, 3, 2}, {{7, 6, 8}, {1, 0.8, 1.2}, 1, 0.4, 2, 2}, {{9, 9, 9}, {1, 1, 1}, 0, 0.35, 2, 1},
		};
		for (auto &b : bs) for (size_t mi = 0; mi < (T ? 3 : 2); mi++) {
			Letters R(A1.begin(), A1.begin() + b.letters);
			if (b.letters > 2) R[b.letters - 1] = A1[5];
			Hist h(conf(b.n[0], b.n[1], b.n[2], b.type, b.w, b.L[0], b.L[1], b.L[2], mats[mi]), R, H);
			h.explore(b.depth + T, 1);
		}
	}
	// long cyclic histories: every ordered pair of letters, many cycles
	for (auto &m : {mats[0], mats[1]}) for (int g = 0; g < 2; g++) {
		Hist h(g ? conf(3, 3, 3, 1, 0.5, 1, 1, 1, m) : conf(2, 2, 2, 0, 0, 1, 1, 1, m), A2, H);
		for (size_t a = 0; a < A2.size(); a++) for (size_t b = 0; b < A2.size(); b++) if (a != b)
			h.cycle({(int)a, (int)b}, g ? (T ? 20 : 6) : (T ? 200 : 60));
	}
	// small increments up and down (many commits, each step a little further)
	for (auto &m : {mats[0], mats[2]}) for (auto &d : dirs(3, true)) {
		Letters R;
		for (int i = 0; i <= 24; i++) { double f = 4e-4 * (i <= 10 ? i : i <= 20 ? 20 - i : i - 20); std::vector<double> v(d); for (double &x : v) x *= f; R.push_back(v); }
		std::vector<int> p; for (int i = 0; i <= 24; i++) p.push_back(i);
		for (int g = 0; g < 2; g++) {
			Hist h(g ? conf(3, 3, 3, 1, 0.5, 1, 1, 1, m) : conf(2, 2, 2, 1, 9, 1, 1, 1, m), R, H);
			h.cycle(p, 1);
		}
	}
	// creeping: hundreds of commits, each a tiny step further beyond the yield point, then back
	for (auto &m : {mats[0], mats[1], mats[2]}) for (auto &d : dirs(3, true)) for (int g = 0; g < 2; g++) {
		Cfg c = g ? conf(2, 3, 2, 1, 0.5, 1, 1, 1, m) : conf(2, 2, 2, 0, 0, 1, 1, 1, m);
		const double f1 = std::fmin(first_yield(c, d), 1e-3);	// hydrostatic: never flows
		for (double step : {1e-7, 1e-5, 1e-3}) {
			Letters R;
			for (int i = 0; i < (T ? 400 : 150); i++) { std::vector<double> v(d); for (double &x : v) x *= f1 * (1 + i * step); R.push_back(v); }
			{ std::vector<double> v(d); for (double &x : v) x *= 0.2 * f1; R.push_back(v); }
			{ std::vector<double> v(d); for (double &x : v) x *= 2 * f1; R.push_back(v); }
			std::vector<int> p; for (size_t i = 0; i < R.size(); i++) p.push_back((int)i);
			Hist h(c, R, H);
			h.cycle(p, 1);
		}
	}
	// strains of all sizes
	for (auto m : {mats[0], mats[1], mats[2]}) {
		for (int i = 0; i < 2; i++) { double f = 1e6 / m.E[i] * (i ? 3 : 1); m.E[i] *= f; m.Sy[i] *= f; m.Ka[i] *= f; if (m.Ka[i] < 0.01 * m.E[i]) m.Ka[i] = 0.01 * m.E[i]; }
		for (int which = 0; which < 2; which++) { Hist h(conf(2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), size_letters(1e-3), H); h.explore(T ? 6 : 4, 2); }
		{ Hist h(conf(2, 3, 2, 1, 0.5, 1, 1, 1.3, m), size_letters(1e-3), H); h.explore(T ? 5 : 4, 2); }
		{ Hist h(conf(3, 3, 3, 1, 0.5, 1, 1, 1.3, m), size_letters(1e-3), H); h.explore(T ? 4 : 3, 1); }
		{ Hist h(conf(4, 3, 4, 0, 0.5, 1, 1, 1.3, m), size_letters(1e-3), H); h.explore(2, 1); }
	}
	return X.finish();
}
