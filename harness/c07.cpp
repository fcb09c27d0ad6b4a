// C07: linear shortcut and non-linear flag.
#include "model.hpp"

static bool run(Hist &h, const std::vector<double> &C, const std::vector<Op> &w)
{
	Sut s(h.c);
	Spec m(h, C);
	for (size_t i = 0; i < w.size(); i++) {
		apply(s, m, w[i]);
		if (m.ambiguous) return true;
		if (w[i].k == 'S' && i + 1 < w.size()) continue;
		if (!m.agree(s, "after " + show(std::vector<Op>(w.begin(), w.begin() + i + 1)))) return false;
	}
	return true;
}

// In a mixed cell with inner nodes the uniform field is not in equilibrium, so a full solution iterates and the shortcut does not.
static bool iterates(Sut &s, Spec &m, const std::string &when)
{
	unlink("micropp_convergence.dat");
	s.m->write_info_files();
	X.transitions++;
	unlink("micropp_eps_sig_ctan.dat"); unlink("micropp_int_vars_n.dat");
	auto L = read_report("micropp_convergence.dat");
	X.checks++;
	if (L.size() != 1 || L[0].size() != m.gp.size()) { X.fail("convergence report missing " + when); return false; }
	for (size_t i = 0; i < m.gp.size(); i++) {
		auto &b = L[0][i];
		if ((int)b.size() != 2 + 2 * (1 + m.V)) { X.fail("convergence report has a wrong number of columns " + when); return false; }
		bool zero = true;
		if (!m.gp[i].shortcut) {	// some strains leave even a mixed cell uniform
			std::vector<double> aff;
			m.H.R.affine(m.H.A[m.gp[i].letter].data(), aff);
			double d = 0;
			for (size_t k = 0; k < aff.size(); k++) d = std::fmax(d, std::fabs(aff[k] - m.gp[i].res->u[k]));
			if (d < 1e-8) continue;
		}
		for (size_t k = 2; k < b.size(); k++) if (b[k] != 0) zero = false;
		if (m.gp[i].shortcut != zero || (!m.gp[i].shortcut && !(b[2] >= 1))) { X.fail(fmt("point %d is reported with %g iterations, but its answer is %s ", m.gp[i].id, b[2], m.gp[i].shortcut ? "the shortcut" : "a full solution") + when); return false; }
	}
	return true;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
		c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = m0;
		c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		c.L[0] = 1; c.L[1] = 1.3; c.L[2] = 0.8;
		c.settle();
		return c;
	};
	HistCheck hc; hc.tangent = true;
	const double y = 1e-3;
	// 1. operation words around the threshold.  Letters are scaled so that the elastic first invariant is a
	//    given fraction of the tolerance; all of them yield when solved in full.
	struct K { Cfg c; int depth, dT; };
	std::vector<K> ks = {
		{conf(3, 2, 2, 2, 0, 0, 1, 0), 6, 7}, {conf(3, 2, 3, 2, 1, 0.6, 1, 1), 5, 6}, {conf(3, 3, 3, 3, 1, 0.6, 1, 0), 4, 5},
		{conf(3, 3, 3, 3, 0, 0.2, 1, 0), 3, 4}, {conf(3, 2, 2, 2, 0, 0, 0, 0), 4, 5}, {conf(3, 3, 3, 3, 1, 0.6, 2, 0), 3, 4}, {conf(2, 3, 4, 1, 0, 0.4, 1, 1), 4, 5},
		{conf(3, 3, 4, 4, 0, 0.45, 0, 1), 3, 3},
	};
	const double tols[] = {0, -1e9, 6e6, 2.5e7, 1e30, 1e-300};
	for (auto &k : ks) for (double tol : tols) {
		Cfg c = k.c;
		c.inv_tol = tol;
		int V = c.V();
		auto Cl = [&] { Hist h(c, {}, hc); return Spec::elastic(h); }();
		std::vector<std::vector<double>> base;
		if (c.dim == 3) base = {{1, 0, 0, 0, 0, 0}, {-0.4, -0.1, -0.5, 2, 0, 1}, {0, 0.9, 0, 0, -1.5, 0}, {0, 0, 0, 1, 0, 0}};
		else base = {{1, 0, 0}, {-0.4, -0.7, 2}, {0, 0.9, -1.5}, {0, 0, 1}};
		Letters A;
		double t = tol > 1e-100 && tol < 1e20 ? tol : 6e6;
		const double f[] = {0.9995, 1.0005, 0.5, 1.7};
		for (size_t i = 0; i < base.size(); i++) {
			double tr = 0;
			for (int p = 0; p < c.dim; p++) for (int q = 0; q < V; q++) tr += Cl[p * V + q] * base[i][q];
			std::vector<double> e = base[i];
			double sc = i == 3 ? 4 * y : f[i] * t / std::fabs(tr);
			for (double &x : e) x *= sc;
			A.push_back(e);
		}
		Hist h(c, A, hc);
		std::vector<Op> ops;
		for (int l = 0; l < 4; l++) ops.push_back({'S', 3, l});
		ops.push_back({'H', 0, 0}); ops.push_back({'U', 0, 0});
		words(ops, T ? k.dT : k.depth, 2, c.str() + show(A), [&](const std::vector<Op> &w) { return run(h, Cl, w); });
	}
	// 2. threshold ladder: every strain direction at fractions of the tolerance on both sides
	for (auto &k : ks) for (int sgn = -1; sgn <= 1; sgn += 2) for (double tol : {3e6, 5e7}) {
		Cfg c = k.c;
		c.inv_tol = tol;
		int V = c.V();
		auto Cl = [&] { Hist h(c, {}, hc); return Spec::elastic(h); }();
		for (auto &d : dirs(c.dim, true)) {
			double tr = 0;
			for (int p = 0; p < c.dim; p++) for (int q = 0; q < V; q++) tr += Cl[p * V + q] * d[q];
			if (std::fabs(tr) < 1e-3 * amax(Cl.data(), V * V)) continue;
			Letters A;
			for (double f : {0.02, 0.3, 0.97, 0.9999, 1.0001, 1.03, 1.9}) { std::vector<double> e(d); for (double &x : e) x *= sgn * f * tol / std::fabs(tr); A.push_back(e); }
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin("ladder " + c.str() + show(A))) continue;
			Hist h(c, A, hc);
			Sut s(c);
			Spec m(h, Cl);
			for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)l});
			apply(s, m, {'H', 0, 0});
			if (m.ambiguous || !m.agree(s, "ladder")) continue;
			apply(s, m, {'U', 0, 0});
			for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)(A.size() - 1 - l)});
			apply(s, m, {'H', 0, 0});
			if (!m.ambiguous) m.agree(s, "ladder reversed");
			X.traces++;
			X.sample(X.desc);
		}
	}
	// 3. first yield ladder: amplitudes around first yield of any single integration point
	std::vector<Cfg> ys = {conf(3, 2, 2, 2, 0, 0, 1, 0), conf(3, 2, 3, 2, 1, 0.6, 1, 1), conf(3, 3, 3, 3, 1, 0.6, 1, 0), conf(3, 4, 4, 4, 0, 0.35, 1, 0), conf(3, 4, 4, 4, 0, 0.35, 0, 1),
		conf(3, 3, 5, 4, 0, 0.45, 1, 1), conf(3, 5, 3, 3, 1, 0.4, 0, 1)};
	for (auto &c : ys) for (auto &d : dirs(3, true)) {
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("first yield " + c.str() + " direction " + vec(d.data(), 6))) continue;
		// bracket first yield with the reference
		ref::Cell R = c.cell();
		auto flows = [&](double a) { std::vector<double> e(d); for (double &x : e) x *= a; return R.solve(e.data(), {}, false).flow; };
		double lo = 1e-6, hi = 1e-2;
		if (!flows(hi)) { X.sample("never yields: " + X.desc); }
		else for (int i = 0; i < 44; i++) { double mid = std::sqrt(lo * hi); (flows(mid) ? hi : lo) = mid; }
		Letters A;
		for (double f : {0.5, 0.97, 0.9995, 1.0005, 1.003, 1.02, 1.3, 3.0}) { std::vector<double> e(d); for (double &x : e) x *= f * hi; A.push_back(e); }
		Hist h(c, A, hc);
		auto Cl = Spec::elastic(h);
		Sut s(c);
		Spec m(h, Cl);
		for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)l});
		apply(s, m, {'H', 0, 0});
		if (m.ambiguous || !m.agree(s, "first yield")) continue;
		for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, 0});
		apply(s, m, {'H', 0, 0});	// flags are sticky without a commit
		if (!m.ambiguous && !m.agree(s, "unloaded after first yield")) continue;
		// just below and just above: closer to the threshold than any perturbation made for the tangent
		if (hi < 1e-2) {
			Letters B;
			const double fs[] = {1 - 1e-6, 1 + 1e-6, 1 - 3e-6, 1 + 3e-6};
			for (double f : fs) { std::vector<double> e(d); for (double &x : e) x *= f * hi; B.push_back(e); }
			Sut t(c);
			for (int k = 0; k < 4; k++) t.m->set_macro_strain(k, B[k].data());
			t.m->homogenize();
			t.m->homogenize();
			X.transitions += 6;
			for (int k = 0; k < 4; k++) {
				X.checks++;
				if (t.flag(k) != (k & 1)) { X.fail(fmt("flag %d at %.7f of the first yield strain ", t.flag(k), fs[k])); break; }
			}
		}
		X.traces++;
	}
	// 4. which answer was given, from the report: elastic and plastic cells in 2D and 3D, tolerances on both sides of every strain
	std::vector<Cfg> es = {conf(2, 3, 3, 1, 1, 0.6, 0, 0), conf(2, 4, 5, 1, 0, 0.4, 0, 2), conf(2, 9, 8, 1, 0, 0.4, 1, 1), conf(3, 3, 3, 3, 1, 0.6, 0, 0), conf(3, 4, 4, 4, 0, 0.45, 2, 0), conf(3, 3, 4, 5, 0, 0.5, 1, 1)};
	for (auto &c0 : es) for (double tol : {-1.0, 0.0, 1e-300, 1e-3, 1e3, 1e5, 3e6, 5e7, 1e12, 1e30}) {
		Cfg c = c0;
		c.E[1] = 5e9;
		c.inv_tol = tol;
		int V = c.V();
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("answers " + c.str())) continue;
		auto Cl = [&] { Hist h(c, {}, hc); return Spec::elastic(h); }();
		Letters A;
		auto D = dirs(c.dim, true);
		for (size_t i = 0; i < D.size(); i++) for (double f : {0.3, 0.999, 1.001, 4.0}) {
			double tr = 0;
			for (int p = 0; p < c.dim; p++) for (int q = 0; q < V; q++) tr += Cl[p * V + q] * D[i][q];
			tr = std::fabs(tr);
			if (tr < 1e-3 * amax(Cl.data(), V * V)) tr = 1e8 * f;	// pure shears: always below a positive tolerance
			double sc = f * tol / tr;
			if (!(sc >= 1e-4)) sc = 1e-4 * f;
			if (!(sc <= 5e-3)) sc = 5e-3 * f;
			auto e = D[i];
			for (double &x : e) x *= i % 2 ? -sc : sc;
			A.push_back(e);
		}
		Hist h(c, A, hc);
		Sut s(c);
		Spec m(h, Cl);
		for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)l});
		for (int round = 0; round < 3; round++) {
			apply(s, m, {'H', 0, 0});
			if (m.ambiguous || !m.agree(s, fmt("round %d", round)) || !iterates(s, m, fmt("in round %d", round))) break;
			if (round != 1) apply(s, m, {'U', 0, 0});
			for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)((l * 7 + round + 1) % A.size())});
		}
		X.traces++;
		X.sample(X.desc);
	}
	// 5. flags of evaluations that take many Newton iterations, and of long histories
	for (int k = 0; k < 4; k++) for (double amp : {1.0, 3.0, 12.0, 40.0}) {
		Cfg c = k == 0 ? conf(3, 4, 4, 4, 0, 0.45, 1, 0) : k == 1 ? conf(3, 4, 3, 5, 1, 0.6, 1, 1) : k == 2 ? conf(3, 3, 3, 3, 1, 0.6, 0, 1) : conf(3, 5, 5, 5, 0, 0.45, 1, 0);
		if (k == 2) { c.Ka[1] = 2e6; c.E[0] = 2e8; }
		if (k == 3) { c.E[1] = 5e10; if (!T && amp != 12) continue; }
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(fmt("many iterations x%g ", amp) + c.str())) continue;
		Letters A = plast_letters(y * amp, k == 3 ? 0 : 2);
		Hist h(c, A, HistCheck());
		auto Cl = Spec::elastic(h);
		Sut s(c);
		Spec m(h, Cl);
		for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)l});
		for (int round = 0; round < 2; round++) {
			apply(s, m, {'H', 0, 0});
			if (m.ambiguous || !m.agree(s, fmt("round %d", round), false)) break;
			apply(s, m, {'U', 0, 0});
			for (size_t l = 0; l < A.size(); l++) apply(s, m, {'S', (int)l, (int)((l + 1) % A.size())});
		}
		X.traces++;
	}
	for (int f = 0; f < 2; f++) {
		Cfg c = conf(3, 2, 3, 2, 1, 0.6, 1, 1);
		c.inv_tol = f ? 6e6 : 0;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("long life " + c.str())) continue;
		Letters A = {{0, 0, 0, 0, 0, 0}, {1e-4, 0, 0, 2e-4, 0, 0}, {-2e-4, 1e-4, 0, 0, 1e-4, 0}, {3e-3, 0, 0, 0, 0, 0}};
		Hist h(c, A, HistCheck());
		auto Cl = Spec::elastic(h);
		Sut s(c);
		Spec m(h, Cl);
		bool ok = true;
		for (int t = 0; t < 700 && ok; t++) {
			for (int g = 0; g < 3; g++) apply(s, m, {'S', g, t == 350 + 40 * g ? 3 : (t * (g + 1)) % 3});
			apply(s, m, {'H', 0, 0});
			if (m.ambiguous) break;
			ok = m.agree(s, fmt("step %d", t), false);
			if (t % 3 != 1) apply(s, m, {'U', 0, 0});
		}
		X.traces++;
	}
	return X.finish();
}
