// C02: the tangent is the derivative of the homogenised stress.
#include "age.hpp"
#include "hist.hpp"

struct M { double E[2], nu[2], Sy[2], Ka[2]; int mt[2]; };

static Cfg conf(int dim, int nx, int ny, int nz, int type, double w, double lx, double ly, double lz, const M &m)
{
	Cfg c;
	c.dim = dim;
	c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
	c.L[0] = lx; c.L[1] = ly; c.L[2] = lz;
	for (int i = 0; i < 2; i++) { c.E[i] = m.E[i]; c.nu[i] = m.nu[i]; c.Sy[i] = m.Sy[i]; c.Ka[i] = m.Ka[i]; c.mt[i] = m.mt[i]; }
	c.settle();
	return c;
}

static bool spd(const double *A, int n)
{
	std::vector<double> L(A, A + n * n);
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < i; j++) { double s = L[i * n + j]; for (int k = 0; k < j; k++) s -= L[i * n + k] * L[j * n + k]; L[i * n + j] = s / L[j * n + j]; }
		double s = L[i * n + i]; for (int k = 0; k < i; k++) s -= L[i * n + k] * L[i * n + k];
		if (!(s > 0)) return false;
		L[i * n + i] = std::sqrt(s);
	}
	return true;
}

// elastic cell: tangent at several strains against the reference, symmetry, definiteness, sig = C eps
static void elastic_at(const Cfg &c);
static void elastic(Cfg c)
{
	c.inv_tol = 0;
	elastic_at(c);
	c.inv_tol = 1e300;	// every answer by the linear shortcut
	elastic_at(c);
}
static void elastic_at(const Cfg &c)
{
	if (!X.mine()) { X.next++; return; }
	if (!X.begin("elastic " + c.str())) return;
	int V = c.V();
	std::vector<double> z(6, 0);
	auto r = c.cell().solve(z.data(), {}, true);
	double tm = amax(r.tan.data(), V * V);
	// resolution: CG residual 1e-8 against a strain step of 1e-8, rounding of stresses ~ E*eps*1e-16/1e-8
	const double amp[] = {0, 1e-3, -0.02};
	Sut s(c);
	auto D = dirs(c.dim);
	int g = 0;
	std::vector<std::vector<double>> eps;
	for (double a : amp) for (size_t k = 0; k < D.size(); k++) {
		if (a == 0 && k) break;
		if (a == -0.02 && k < 3) continue;
		if (a == -0.02 && c.nelem() > 20 && k < D.size() - 1) continue;
		std::vector<double> e(V);
		for (int i = 0; i < V; i++) e[i] = a * D[k][i];
		eps.push_back(e);
		s.set(g++, e.data());
	}
	s.hom();
	for (int k = 0; k < g; k++) {
		auto t = s.tan(k), sg = s.sig(k);
		double em = amax(eps[k].data(), V);
		double tol = 2e-6 * tm + 1e6 * c.stol() + 1e-7 * c.Emax() * em;
		std::string at = " at strain " + vec(eps[k].data(), V);
		if (!same(("elastic tangent" + at).c_str(), t.data(), r.tan.data(), V * V, tol)) return;
		std::vector<double> tt(V * V), se(V, 0);
		for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) { tt[i * V + j] = t[j * V + i]; se[i] += t[i * V + j] * eps[k][j]; }
		if (!same(("symmetry of the elastic tangent" + at).c_str(), t.data(), tt.data(), V * V, 2 * tol)) return;
		if (!same(("tangent * strain" + at).c_str(), sg.data(), se.data(), V, 3 * tol * em + c.stol())) return;
		if (!spd(t.data(), V)) { X.fail("elastic tangent is not positive definite" + at); return; }
		X.state(hash_vals(t.data(), V * V, hash_vals(eps[k].data(), V)));
		X.outcome(hash_vals(t.data(), V * V));
		X.traces++;
	}
	X.sample(c.str() + " tangent row 0 " + vec(s.tan(0).data(), V));
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	const std::vector<M> em = {
		{{1e8, 5e8}, {0.25, 0.3}, {1, 1}, {1, 1}, {0, 0}},
		{{4e8, 1e6}, {0.0, 0.45}, {1, 1}, {1, 1}, {0, 2}},
		{{1e9, 2e9}, {0.3, -0.2}, {1e30, 1e30}, {1e7, 1e7}, {1, 1}},
		{{1e10, 1e9}, {0.1, 0.4}, {1, 1}, {1, 1}, {2, 0}},
	};
	int top = T ? 7 : 5;
	for (int nx = 2; nx <= top; nx++) for (int ny = 2; ny <= top; ny++) for (int type = 0; type < 2; type++) for (auto &m : em) for (int l = 0; l < 3; l++)
		elastic(conf(2, nx, ny, 1, type, 0.4, l == 1 ? 2 : 1, l == 2 ? 3 : 1, 1, m));
	top = T ? 5 : 4;
	for (int nx = 2; nx <= top; nx++) for (int ny = 2; ny <= top; ny++) for (int nz = 2; nz <= top; nz++) for (int type = 0; type < 2; type++) for (size_t m = 0; m < em.size(); m++)
		if (T || (m + nx + ny + nz) % 2 == 0)
			elastic(conf(3, nx, ny, nz, type, 0.4, 1, 1.2, 0.8, em[m]));
	const int big[][4] = {{2, 20, 20, 1}, {2, 31, 5, 1}, {2, 4, 40, 1}, {3, 6, 5, 4}, {3, 4, 5, 7}, {3, 3, 9, 4}, {3, 7, 3, 5}, {3, 8, 8, 8},
		{2, 70, 3, 1}, {2, 3, 66, 1}, {3, 3, 3, 20}, {3, 3, 21, 3}, {3, 22, 3, 3}, {3, 34, 3, 2}, {3, 2, 3, 35}, {3, 3, 36, 2}, {3, 2, 40, 3}, {3, 5, 13, 4}, {3, 14, 4, 4}, {3, 4, 4, 15}};
	for (auto &b : big) for (int type = 0; type < 2; type++) elastic(conf(b[0], b[1], b[2], b[3], type, 0.33, 1, 1, 1.1, em[type]));

	// plastic histories
	HistCheck H;
	H.tangent = true;
	const std::vector<M> pm = {
		{{1e9, 3e9}, {0.25, 0.3}, {1e6, 2e6}, {1e8, 3e8}, {1, 0}},
		{{1e9, 2e9}, {0.3, 0.1}, {1e6, 4e6}, {5e7, 4e8}, {1, 1}},
		{{5e9, 1e9}, {0.0, 0.4}, {5e6, 1e6}, {5e9, 1e8}, {0, 1}},
	};
	for (auto &m : pm) for (int which = 0; which < 2; which++) {
		Hist h(conf(3, 2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), plast_letters(1e-3, 2), H);
		h.explore(T ? 4 : 3, 2);
		Hist h2(conf(3, 2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), plast_letters(1e-3, 0), H);
		h2.explore(T ? 6 : 5, 2);
	}
	struct G { int n[3]; double L[3]; int type; double w; };
	const G gs[] = {
		{{3, 3, 3}, {1, 1, 1}, 1, 0.5}, {{3, 3, 3}, {1, 1.4, 0.8}, 1, 0.7}, {{2, 3, 2}, {1, 1, 1}, 1, 0.5}, {{4, 4, 4}, {1, 1, 1}, 0, 0.3},
		{{3, 4, 3}, {0.9, 1, 1.2}, 1, 0.6}, {{4, 3, 3}, {1, 1, 1.5}, 0, 0.35}, {{3, 3, 4}, {1, 1, 2}, 0, 0.5}, {{3, 2, 5}, {1, 0.5, 1.2}, 0, 0.4},
	};
	for (auto &g : gs) for (auto &m : pm) {
		Hist h(conf(3, g.n[0], g.n[1], g.n[2], g.type, g.w, g.L[0], g.L[1], g.L[2], m), plast_letters(1e-3, 2), H);
		h.explore(T ? 3 : 2, 1);
	}
	// yield strains of several per cent: the tangent changes on the scale of the strains themselves
	for (double ys : {2e-2, 0.3}) for (auto m : pm) {
		for (int i = 0; i < 2; i++) { double f = ys / 1e-3; m.E[i] /= f; m.Ka[i] /= f; }
		for (int which = 0; which < 2; which++) { Hist h(conf(3, 2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), plast_letters(ys, 1), H); h.explore(T ? 4 : 3, 1); }
		{ Hist h(conf(3, 3, 3, 3, 1, 0.5, 1, 1.4, 0.8, m), plast_letters(ys, 0), H); h.explore(2, 1); }
	}
	// so stiff that rounding keeps the residual above the tolerance
	for (auto m : pm) {
		for (int i = 0; i < 2; i++) { m.E[i] *= 1e8; m.Sy[i] *= 1e8; m.Ka[i] *= 1e8; }
		Hist h(conf(3, 3, 3, 3, 1, 0.5, 1, 1.4, 0.8, m), plast_letters(1e-3, 0), H);
		h.explore(T ? 3 : 2, 1);
		elastic(conf(2, 4, 3, 1, 0, 0.4, 1, 2, 1, {{m.E[0], m.E[1]}, {0.3, 0.1}, {1, 1}, {1, 1}, {0, 0}}));
		elastic(conf(3, 3, 3, 3, 1, 0.4, 1, 2, 1, {{m.E[0], m.E[1]}, {0.3, 0.1}, {1, 1}, {1, 1}, {0, 2}}));
	}
	// strains of all sizes
	for (auto m : pm) {
		for (int i = 0; i < 2; i++) { m.E[i] *= 1e-2; m.Sy[i] *= 1e-2; m.Ka[i] *= 1e-2; }
		for (int which = 0; which < 2; which++) { Hist h(conf(3, 2, 2, 2, 0, which ? 9 : 0, 1, 1.5, 0.7, m), size_letters(1e-3), H); h.explore(T ? 5 : 4, 2); }
		{ Hist h(conf(3, 2, 3, 2, 1, 0.5, 1, 1, 1.3, m), size_letters(1e-3), H); h.explore(T ? 4 : 3, 1); }
		{ Hist h(conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1.3, m), size_letters(1e-3), H); h.explore(T ? 3 : 2, 1); }
	}
	// very old instances
	{
		Cfg c; c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8;
		AgeLetters A3 = {{3e-3, 0, 0, 0, 0, 0}, {-2e-3, 1e-3, 0, 0, 3e-3, 0}, {0.4e-3, 0, 0, 0, 0, 0}}, A2 = {{3e-3, 0, 0}, {-2e-3, 1e-3, 3e-3}, {0.4e-3, 0, 0}};
		c.dim = 2; c.n[0] = c.n[1] = 3; c.type = 1; c.width = 0.5;
		age(c, A2, "HSE", T ? 600000 : 70000, {false, true, false});
		c.dim = 3; c.n[2] = 3; c.mt[0] = 1;
		age(c, A3, "HE", T ? 12000 : 1100, {false, true, false});
	}
	return X.finish();
}
