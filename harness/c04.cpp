// C04: trial evaluations and commits, all operation words for one point.
#include "age.hpp"
#include "model.hpp"

// What a word amounts to: per commit that had an evaluation since the last one, the last strain evaluated.
// Results must be identical, bit by bit, to those of that history followed by the same probe.
static std::map<std::string, std::vector<double>> memo;
static bool reduced(Sut &s, const Cfg &c, const Letters &A, const std::vector<Op> &w, int id, int probe)
{
	std::vector<int> hist;
	int cur = -1, tri = -1;
	for (auto &o : w) {
		if (o.k == 'S') cur = o.l;
		else if (o.k == 'H') { if (cur >= 0) tri = cur; }
		else if (tri >= 0) { hist.push_back(tri); tri = -1; }
	}
	// a commit repeats nothing: equal neighbours stay, they are separate steps
	std::string key = c.str() + fmt("/%d:", probe);
	for (int l : hist) key += fmt(" %d", l);
	auto &r = memo[key];
	if (r.empty()) {
		Sut t(c);
		for (int l : hist) { t.set(id, A[l].data()); t.hom(); t.commit(); }
		t.set(id, A[probe].data()); t.hom();
		r = t.sig(id);
		auto q = t.tan(id);
		r.insert(r.end(), q.begin(), q.end());
	}
	auto g = s.sig(id), q = s.tan(id);
	g.insert(g.end(), q.begin(), q.end());
	X.checks++;
	auto eq = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
	size_t i = 0; while (i < g.size() && eq(g[i], r[i])) i++;
	if (i == g.size()) return true;
	std::string h; for (int l : hist) h += fmt(" L%d", l);
	X.fail(fmt("after %s and a probe with L%d: number %zu (stress, then tangent) is %.17g, but %.17g after the committed history", show(w).c_str(), probe, i, g[i], r[i]) + h + " alone");
	return false;
}

static bool run(Hist &h, const std::vector<double> &C, const std::vector<Op> &w, int id, const std::vector<int> &probe, bool exact)
{
	Sut s(h.c);
	Spec m(h, C);
	for (size_t i = 0; i < w.size(); i++) {
		apply(s, m, w[i]);
		if (m.ambiguous) return true;
		if (w[i].k == 'S' && i + 1 < w.size()) continue;	// nothing observable changes; still checked at the end
		if (!m.agree(s, "after " + show(std::vector<Op>(w.begin(), w.begin() + i + 1)))) return false;
	}
	// probes reveal the committed history behind the last state
	for (int p : probe) {
		apply(s, m, {'S', id, p});
		apply(s, m, {'H', 0, 0});
		if (m.ambiguous) return true;
		if (!m.agree(s, "after " + show(w) + fmt(" and a probe with L%d", p))) return false;
		if (exact && !reduced(s, h.c, h.A, w, id, p)) return false;
	}
	return true;
}

// strains no reference can answer (no convergence, overflow, not a number): only the reduction is checked
static bool wild(const Cfg &c, const Letters &A, const std::vector<Op> &w, int id)
{
	for (int p = 0; p < 2; p++) {
		Sut s(c);
		for (auto &o : w) { if (o.k == 'S') s.set(o.id, A[o.l].data()); else if (o.k == 'H') s.hom(); else s.commit(); }
		s.set(id, A[p].data());
		s.hom();
		if (!reduced(s, c, A, w, id, p)) return false;
		X.traces++;
	}
	return true;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int nx, int ny, int nz, int type, double w, int m1) {
		Cfg c;
		c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
		c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = 1;
		c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		c.settle();
		return c;
	};
	const double y = 1e-3;
	Letters A = {
		{3 * y, 0, 0, 0, 0, 0}, {-2 * y, y, 0, 0, 3 * y, 0}, {0.4 * y, 0, 0, 0, 0, 0}, {0, 0, 0, 5 * y, 0, 0}, {0, 0, 0, 0, 0, 0}, {0, -3 * y, 0, 0, 0, 4 * y},
		{0.9, 0.8, 1.0, 0, 0, 0}, {0, 0, -0.2, 0.7, 0, 0.4}, {2e-7, 0, 0, 0, -1e-7, 0},	// very large, very small
	};
	HistCheck hc; hc.tangent = true;
	auto ops = [&](std::vector<int> ls) { std::vector<Op> o; for (int l : ls) o.push_back({'S', 5, l}); o.push_back({'H', 0, 0}); o.push_back({'U', 0, 0}); return o; };
	auto go = [&](const Cfg &c, std::vector<int> ls, int depth, int split) {
		Hist h(c, A, hc);
		auto C = Spec::elastic(h);
		words(ops(ls), depth, split, c.str() + show(A), [&](const std::vector<Op> &w) { return run(h, C, w, 5, {0, 2}, c.inv_tol <= 0); });
	};
	// long lives
	auto lives = [&](const Cfg &c, std::vector<int> ls, int n) {
		life(c, A, ops(ls), n, hc, "", [&](Sut &s, Spec &m, const Op &o, size_t i) {
			apply(s, m, o);
			if (m.ambiguous || o.k == 'S') return true;
			return m.agree(s, fmt("after %zu operations, the last one ", i + 1) + show(std::vector<Op>{o}));
		});
	};
	lives(conf(2, 2, 2, 0, 0, 0), {0, 1, 2}, T ? 6 : 5);
	lives(conf(2, 2, 2, 0, 0, 0), {3, 4, 5, 1}, T ? 5 : 4);
	lives(conf(2, 3, 2, 1, 0.5, 1), {0, 1}, T ? 6 : 5);
	lives(conf(3, 3, 3, 1, 0.5, 1), {0, 1}, T ? 5 : 4);
	{ Cfg c = conf(2, 2, 2, 0, 0, 0); c.inv_tol = 2e6; lives(c, {2, 3, 0}, T ? 5 : 4); }
	// one element, material 0
	go(conf(2, 2, 2, 0, 0, 0), {0, 1, 2}, T ? 9 : 8, 4);
	go(conf(2, 2, 2, 0, 0, 0), {0, 1, 3, 4, 2}, T ? 8 : 6, 4);
	go(conf(2, 2, 2, 0, 0, 0), {0}, T ? 13 : 10, 4);
	go(conf(2, 2, 2, 0, 0, 0), {6, 7, 8}, T ? 8 : 6, 3);
	go(conf(3, 3, 3, 1, 0.5, 1), {6, 8, 0}, T ? 5 : 4, 2);
	// several elements of both materials, no inner nodes
	go(conf(2, 3, 2, 1, 0.5, 1), {0, 1, 2}, T ? 8 : 6, 3);
	// cells with inner nodes
	go(conf(3, 3, 3, 1, 0.5, 1), {0, 1, 2}, T ? 6 : 5, 3);
	go(conf(3, 3, 3, 1, 0.5, 0), {0, 4}, T ? 7 : 5, 3);
	go(conf(3, 4, 3, 0, 0.4, 1), {5, 2}, T ? 6 : 4, 2);
	// so stiff that no evaluation reaches the tolerance: what is committed is the last evaluation all the same
	{
		Cfg c = conf(3, 3, 3, 1, 0.5, 1);
		for (int i = 0; i < 2; i++) { c.E[i] *= 1e8; c.Sy[i] *= 1e8; c.Ka[i] *= 1e8; }
		go(c, {0, 1}, T ? 5 : 4, 3);
	}
	// many elements
	{ Cfg c = conf(2, 2, 420, 0, 12, 1); c.L[2] = 60; go(c, {0, 5}, T ? 5 : 4, 2); }
	{ Cfg c = conf(2, 330, 2, 1, 17, 1); c.L[1] = 40; go(c, {1, 3}, T ? 5 : 4, 2); }
	go(conf(6, 6, 6, 0, 0.35, 1), {0, 1}, 4, 3);
	// trials that do not converge, overflow or are not numbers: discarded they leave no trace, committed
	// they are what is committed, whatever was tried before
	{
		Letters Wl = {{3 * y, 0, 0, 0, 0, 0}, {-2 * y, y, 0, 0, 3 * y, 0}, {3e4, -1e4, 2e4, 5e3, 0, 7e3}, {1e300, 0, 0, 0, 0, 0}, {0, NAN, 0, 0, 0, 0}, {0, 0, -INFINITY, 0, 0, 0}};
		auto gw = [&](const Cfg &c, std::vector<int> ls, int depth, int split) {
			memo.clear();
			words(ops(ls), depth, split, "wild " + c.str() + show(Wl), [&](const std::vector<Op> &w) { return wild(c, Wl, w, 5); });
			memo.clear();
		};
		gw(conf(2, 2, 2, 0, 0, 0), {0, 2, 3, 4}, T ? 7 : 6, 3);
		gw(conf(2, 2, 2, 0, 0, 0), {1, 5}, T ? 7 : 6, 3);
		gw(conf(2, 3, 2, 1, 0.5, 1), {1, 4}, T ? 7 : 6, 3);
		gw(conf(3, 3, 3, 1, 0.5, 1), {0, 2}, T ? 6 : 5, 4);
	}
	// the shortcut active (points never evaluated in full have nothing to commit)
	{ Cfg c = conf(2, 2, 2, 0, 0, 0); c.inv_tol = 2e6; go(c, {0, 1, 3, 2}, T ? 8 : 7, 4); }
	// very old instances
	{
		Cfg c; c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8;
		AgeLetters A3 = {{3e-3, 0, 0, 0, 0, 0}, {-2e-3, 1e-3, 0, 0, 3e-3, 0}, {0.4e-3, 0, 0, 0, 0, 0}}, A2 = {{3e-3, 0, 0}, {-2e-3, 1e-3, 3e-3}, {0.4e-3, 0, 0}};
		c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; c.mt[0] = 1;
		age(c, A3, "HSUED", T ? 600000 : 70000, {true, true, false});
		c.n[0] = c.n[1] = c.n[2] = 3; c.type = 1; c.width = 0.5; c.mt[1] = 1;
		age(c, A3, "HSUED", T ? 12000 : 1100, {true, true, false});
	}
	return X.finish();
}
