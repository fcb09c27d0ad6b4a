// C08: queries and output have no side effects; buffers are respected.
#include "age.hpp"
#include "model.hpp"
#include <algorithm>
#include <dirent.h>

static int vtus()
{
	int n = 0;
	DIR *d = opendir(".");
	while (dirent *e = readdir(d)) { std::string s = e->d_name; if (s.size() > 4 && s.substr(s.size() - 4) == ".vtu") n++; }
	closedir(d);
	return n;
}
static void clean()
{
	DIR *d = opendir(".");
	std::vector<std::string> v;
	while (dirent *e = readdir(d)) { std::string s = e->d_name; if (s.size() > 4 && s.substr(s.size() - 4) == ".vtu") v.push_back(s); }
	closedir(d);
	for (auto &s : v) unlink(s.c_str());
}

// guarded queries; known = id exists in the model
static bool query(Sut &s, Spec &m, char k, int id, int step)
{
	const double G = -12345.678901;
	int V = m.V;
	bool known = m.find(id) != nullptr;
	X.transitions++;
	if (k == 's' || k == 'c') {
		double b[60];
		for (double &x : b) x = G;
		double *p = b + 8;
		int n = k == 's' ? V : V * V;
		if (k == 's') s.m->get_macro_stress(id, p); else s.m->get_macro_ctan(id, p);
		X.checks++;
		for (int i = 0; i < 60; i++) {
			bool inside = i >= 8 && i < 8 + n;
			if (inside && known) continue;
			if (b[i] != G) { X.fail(fmt("%s of %s id %d wrote %g at offset %d of the buffer (extent %d)", k == 's' ? "get_macro_stress" : "get_macro_ctan", known ? "known" : "unknown", id, b[i], i - 8, n)); return false; }
		}
		if (known) { X.checks++; for (int i = 8; i < 8 + n; i++) if (b[i] == G) { X.fail(fmt("getter left component %d of known id %d unwritten", i - 8, id)); return false; } }
	} else if (k == 'f') {
		int b[5] = {77, 77, -5, 77, 77};
		s.m->get_nl_flag(id, b + 2);
		X.checks++;
		if (b[0] != 77 || b[1] != 77 || b[3] != 77 || b[4] != 77) { X.fail("get_nl_flag wrote outside its argument"); return false; }
		if (b[2] != 0 && b[2] != 1) { X.fail(fmt("flag value %d", b[2])); return false; }
		if (!known && b[2] != 0) { X.fail(fmt("flag of unknown id %d is %d", id, b[2])); return false; }
	} else if (k == 'o') {
		int before = vtus();
		s.m->output(step, id);
		X.checks++;
		if (!known && vtus() != before) { X.fail(fmt("output of unknown id %d produced a file", id)); return false; }
		if (known && !exists(fmt("micropp_%d_%d.vtu", id, step))) { X.fail(fmt("output of id %d produced no file", id)); return false; }
	} else if (k == 'w') s.m->write_info_files();
	return true;
}
// a set with guarded caller array
static bool set_guarded(Sut &s, Spec &m, int id, int l)
{
	double b[16], r[16];
	for (int i = 0; i < 16; i++) b[i] = r[i] = 1e77 + i;
	for (int i = 0; i < m.V; i++) b[4 + i] = r[4 + i] = m.H.A[l][i];
	s.m->set_macro_strain(id, b + 4);
	m.set(id, l);
	X.checks++;
	if (memcmp(b, r, sizeof b)) { X.fail("set_macro_strain changed the caller's array"); return false; }
	return true;
}

static bool step(Sut &s, Spec &m, const Op &o)
{
	if (o.k == 'S') return set_guarded(s, m, o.id, o.l);
	if (o.k == 'H' || o.k == 'U') { apply(s, m, o); return true; }
	return query(s, m, o.k, o.id, o.l);
}

// the last line of every report file
static std::string last_lines()
{
	std::string r;
	for (const char *f : {"micropp_eps_sig_ctan.dat", "micropp_convergence.dat", "micropp_int_vars_n.dat"}) {
		std::stringstream in(slurp(f));
		std::string x, l;
		while (std::getline(in, x)) if (x.find('#') == std::string::npos && x.find_first_not_of(" \t\r") != std::string::npos) l = x;
		r += l + "\n";
	}
	return r;
}
// the bare calls, with no other query than those in the word; what is seen in the end
static std::string bare(const Cfg &c, const Letters &A, const std::vector<Op> &w)
{
	std::string r;
	Sut s(c);
	std::vector<int> ids;
	double b[40];
	for (auto &o : w) {
		int f;
		if (o.k == 'S') { s.set(o.id, A[o.l].data()); if (std::find(ids.begin(), ids.end(), o.id) == ids.end()) ids.push_back(o.id); }
		else if (o.k == 'H') s.hom();
		else if (o.k == 'U') s.commit();
		else if (o.k == 's') s.m->get_macro_stress(o.id, b);
		else if (o.k == 'c') s.m->get_macro_ctan(o.id, b);
		else if (o.k == 'f') s.m->get_nl_flag(o.id, &f);
		else if (o.k == 'o') s.m->output(o.l, o.id);
		else s.m->write_info_files();
		X.transitions++;
	}
	auto look = [&] {
		s.m->write_info_files();
		r += last_lines();
		for (int id : ids) {
			auto a = s.sig(id), t = s.tan(id);
			r.append((const char *)a.data(), a.size() * 8);
			r.append((const char *)t.data(), t.size() * 8);
			r += s.flag(id) ? "1" : "0";
		}
	};
	look();
	for (int l : {0, 1}) {
		s.commit();
		for (int id : ids) s.set(id, A[l].data());
		s.hom();
		look();
	}
	X.checks++;
	return r;
}
static bool run(Hist &h, const std::vector<double> &C, const std::vector<Op> &w)
{
	bool files = false;
	for (auto &o : w) files |= o.k == 'o';
	if (files) clean();
	Sut s(h.c);
	Spec m(h, C);
	for (size_t i = 0; i < w.size(); i++) {
		if (!step(s, m, w[i])) { X.nfail--; X.fail("in " + show(std::vector<Op>(w.begin(), w.begin() + i + 1))); return false; }
		if (m.ambiguous) return true;
		if (w[i].k == 'S' && i + 1 < w.size()) continue;
		if (!m.agree(s, "after " + show(std::vector<Op>(w.begin(), w.begin() + i + 1)))) return false;
	}
	for (auto &g : m.gp) { s.set(g.id, h.A[0].data()); g.letter = 0; }
	s.hom(); m.hom();
	if (m.ambiguous) return true;
	if (!m.agree(s, "after " + show(w) + " and a final evaluation")) return false;
	s.commit(); m.commit();
	for (auto &g : m.gp) { s.set(g.id, h.A[1].data()); g.letter = 1; }
	s.hom(); m.hom();
	return m.ambiguous || m.agree(s, "after " + show(w) + " and two final evaluations");
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double itol = 0) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = m0;
		c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		c.settle();
		return c;
	};
	HistCheck hc; hc.tangent = true;
	const double y = 1e-3;
	Letters A3 = {{3 * y, 0, 0, 0, 0, 0}, {-2 * y, y, 0, 0, 3 * y, 0}, {0.4 * y, 0, 0, 0, 0, 0}, {0, 0, 0, 5 * y, 0, 0}};
	Letters A2 = {{3 * y, 0, 0}, {-y, 2 * y, 0.7 * y}, {0.4 * y, 0, 0}, {0, 0, 4 * y}};
	// 1. words with queries as letters
	std::vector<Op> q1 = {{'S', 1, 0}, {'S', 1, 1}, {'S', 2, 1}, {'H', 0, 0}, {'U', 0, 0}, {'o', 1, 3}, {'o', 2, 0}, {'w', 0, 0}, {'c', 1, 0}};
	std::vector<Op> q2 = {{'S', 1, 0}, {'S', 1, 1}, {'H', 0, 0}, {'U', 0, 0}, {'o', 1, 3}, {'w', 0, 0}};
	auto go = [&](const Cfg &c, const std::vector<Op> &ops, int depth, int split) {
		Hist h(c, c.dim == 2 ? A2 : A3, hc);
		auto C = Spec::elastic(h);
		words(ops, depth, split, c.str() + show(h.A), [&](const std::vector<Op> &w) { return run(h, C, w); });
	};
	auto lives = [&](const Cfg &c, const std::vector<Op> &ops, int n) {
		clean();
		life(c, c.dim == 2 ? A2 : A3, ops, n, hc, "", [&](Sut &s, Spec &m, const Op &o, size_t i) {
			if (!step(s, m, o)) return false;
			if (m.ambiguous || o.k == 'S') return true;
			return m.agree(s, fmt("after %zu operations, the last one ", i + 1) + show(std::vector<Op>{o}));
		});
	};
	lives(conf(3, 2, 2, 2, 0, 0, 1, 0), q1, T ? 5 : 4);
	lives(conf(3, 2, 2, 2, 0, 0, 1, 0), q2, T ? 6 : 5);
	lives(conf(3, 2, 2, 2, 0, 0, 1, 0, 2e6), q2, 4);
	lives(conf(3, 3, 3, 3, 1, 0.5, 1, 1), q1, 3);
	lives(conf(2, 3, 4, 1, 0, 0.4, 1, 0), q1, 3);
	{
		std::vector<Op> q3 = {{'S', 1, 0}, {'S', 1, 1}, {'H', 0, 0}, {'U', 0, 0}, {'o', 1, 0}, {'o', 9, 1}, {'w', 0, 0}, {'s', 1, 0}, {'s', 9, 0}, {'c', 1, 0}, {'c', 9, 0}, {'f', 1, 0}, {'f', 9, 0}};
		lives(conf(3, 2, 2, 2, 0, 0, 1, 0), q3, 3);
		lives(conf(3, 3, 3, 3, 1, 0.5, 1, 1), q3, 2);
	}
	go(conf(3, 2, 2, 2, 0, 0, 1, 0), q1, T ? 6 : 5, 3);
	go(conf(3, 2, 2, 2, 0, 0, 1, 0), q2, T ? 8 : 6, 4);
	go(conf(3, 2, 3, 2, 1, 0.5, 1, 1), q2, T ? 6 : 5, 3);
	go(conf(3, 3, 3, 3, 1, 0.5, 1, 1), q2, T ? 6 : 4, 2);
	go(conf(3, 3, 3, 3, 1, 0.5, 1, 0), q1, T ? 5 : 3, 2);
	go(conf(3, 2, 2, 2, 0, 0, 1, 0, 2e6), q2, T ? 7 : 5, 3);
	go(conf(2, 3, 4, 1, 0, 0.4, 1, 0), q1, T ? 5 : 4, 2);
	// 2. every query kind (known and unknown ids) at every position, singly and in pairs, of fixed histories
	std::vector<std::vector<Op>> base = {
		{{'S', 1, 0}, {'H', 0, 0}, {'U', 0, 0}, {'S', 1, 1}, {'H', 0, 0}, {'U', 0, 0}, {'S', 1, 2}, {'H', 0, 0}},
		{{'S', 1, 0}, {'S', 2, 2}, {'H', 0, 0}, {'S', 2, 3}, {'H', 0, 0}, {'U', 0, 0}, {'S', 1, 2}, {'H', 0, 0}, {'U', 0, 0}},
		{{'S', 2, 3}, {'H', 0, 0}, {'S', 1, 1}, {'H', 0, 0}, {'S', 2, 2}, {'U', 0, 0}, {'H', 0, 0}},
		// points that have not been evaluated when they are looked at
		{{'S', 1, 0}, {'S', 2, 2}},
		{{'S', 1, 0}, {'H', 0, 0}, {'U', 0, 0}, {'S', 2, 1}},
	};
	std::vector<Op> Q;
	for (char k : {'s', 'c', 'f', 'o'}) for (int id : {1, 2, 0, -3, 12345}) Q.push_back({k, id, k == 'o' ? 4 : 0});
	Q.push_back({'w', 0, 0});
	std::vector<Cfg> cs = {conf(3, 2, 2, 2, 0, 0, 1, 0), conf(3, 3, 3, 3, 1, 0.5, 1, 1), conf(2, 3, 4, 1, 0, 0.4, 0, 0), conf(3, 2, 2, 3, 1, 0.5, 1, 0, 2e6)};
	for (auto &c : cs) {
		Hist h(c, c.dim == 2 ? A2 : A3, hc);
		auto C = Spec::elastic(h);
		for (size_t b = 0; b < base.size(); b++) for (size_t p = 0; p <= base[b].size(); p++) for (size_t i = 0; i < Q.size(); i++) {
			bool heavy = c.n[0] > 2 && c.dim == 3;
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin(c.str() + show(h.A) + fmt(" | history %zu, first query at %zu: ", b, p) + show(std::vector<Op>{Q[i]}))) continue;
			std::vector<Op> w = base[b];
			std::string plain = bare(c, h.A, w);
			w.insert(w.begin() + p, Q[i]);
			if (!run(h, C, w)) break;
			if (bare(c, h.A, w) != plain) { X.fail("later results or reports differ after " + show(w)); break; }
			X.traces++;
			if (heavy && !T && (Q[i].k == 's' || Q[i].k == 'f')) continue;
			bool ok = true;
			for (size_t p2 = p + 1; p2 <= w.size() && ok; p2++) for (size_t j = 0; j < Q.size() && ok; j++) {
				if (heavy && !T && !((Q[j].k == 'o' && Q[j].id < 3 && Q[j].id > 0) || Q[j].k == 'w')) continue;
				std::vector<Op> w2 = w;
				w2.insert(w2.begin() + p2, Q[j]);
				ok = run(h, C, w2);
				if (ok && (!heavy || T || Q[i].k == 'w') && bare(c, h.A, w2) != plain) { X.fail("later results or reports differ after " + show(w2)); ok = false; }
				X.traces++;
			}
			if (!ok) break;
			X.sample(X.desc);
		}
	}
	clean();
	// very old instances
	{
		Cfg c; c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8;
		AgeLetters A3 = {{3e-3, 0, 0, 0, 0, 0}, {-2e-3, 1e-3, 0, 0, 3e-3, 0}, {0.4e-3, 0, 0, 0, 0, 0}}, A2 = {{3e-3, 0, 0}, {-2e-3, 1e-3, 3e-3}, {0.4e-3, 0, 0}};
		c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; c.mt[0] = 1;
		age(c, A3, "Q", T ? 5000000 : 300000, {true, true, false});
	}
	return X.finish();
}
