// Reference model of the whole programming interface for one instance: Gauss
// points by id, trial and committed states, linear shortcut, non-linear flag.
// Strains are letters of a finite alphabet, so the reference cell is solved once
// per (committed state, letter) and remembered.
#pragma once
#include "hist.hpp"
#include <map>

struct Spec {
	struct Gp {
		int id;
		int letter;
		RNode *com, *tri;	// committed and last evaluated state
		bool flag, evaluated, shortcut, kinky;
		std::vector<double> sig, tan;
		double inv;
		ref::Result *res;
	};
	Hist &H;			// cell, alphabet and memo
	std::vector<Gp> gp;
	std::vector<double> C;		// elastic tangent
	bool ambiguous = false;		// a decision of the model lies on a threshold: stop comparing
	int V;
	static std::vector<double> elastic(Hist &h)
	{
		std::vector<double> z(6, 0);
		return h.R.solve(z.data(), {}, true).tan;
	}
	Spec(Hist &h, const std::vector<double> &C_) : H(h), C(C_), V(h.V) {}
	Gp *find(int id) { for (auto &g : gp) if (g.id == id) return &g; return nullptr; }
	void set(int id, int l)
	{
		Gp *g = find(id);
		if (g) { g->letter = l; return; }
		Gp n;
		n.id = id; n.letter = l; n.com = n.tri = &H.root; n.flag = n.evaluated = n.shortcut = n.kinky = false; n.inv = 0; n.res = nullptr;
		n.sig.assign(V, 0); n.tan.assign(V * V, 0);
		gp.push_back(n);
	}
	double invariant(const double *e, std::vector<double> &s) const
	{
		s.assign(V, 0);
		for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) s[i] += C[i * V + j] * e[j];
		double t = 0;
		for (int i = 0; i < H.c.dim; i++) t += s[i];
		return std::fabs(t);
	}
	void hom()
	{
		for (auto &g : gp) {
			const double *e = H.A[g.letter].data();
			std::vector<double> s;
			g.inv = invariant(e, s);
			if (!g.flag && H.c.inv_tol > 0 && std::fabs(g.inv - H.c.inv_tol) < 1e-5 * H.c.inv_tol) ambiguous = true;
			g.evaluated = true;
			if (!g.flag && g.inv < H.c.inv_tol) {
				g.shortcut = true; g.kinky = false;
				g.sig = s; g.tan = C; g.tri = &H.root; g.res = nullptr;
				continue;
			}
			g.shortcut = false;
			RNode *n = H.next(g.com, g.letter);
			if (!n->r.ok) ambiguous = true;
			if (!g.flag && n->r.kink < 1e-9 * H.unit) ambiguous = true;
			g.tri = n; g.res = &n->r;
			g.sig = n->r.sig; g.tan = n->r.tan; g.kinky = n->r.kink < 3e-7;
			if (n->r.flow) g.flag = true;
		}
	}
	void commit() { for (auto &g : gp) if (g.flag && g.evaluated) g.com = g.tri; }
	uint64_t canon() const	// canonical state: per point id, letter, committed and trial state, flag
	{
		uint64_t h = 7;
		for (auto &g : gp) {
			h = hash_bytes(&g.id, sizeof g.id, h);
			h = hash_bytes(&g.letter, sizeof g.letter, h);
			int b = g.flag * 4 + g.evaluated * 2 + g.shortcut;
			h = hash_bytes(&b, sizeof b, h);
			for (RNode *n : {g.com, g.tri}) for (auto &p : n->r.st) { h = hash_vals(p.ep.data(), 9, h); h = hash_vals(&p.al, 1, h); }
			h = hash_vals(g.sig.data(), V, h);
		}
		return h;
	}
	// compare one point
	bool agree(Sut &s, const Gp &g, const std::string &when, bool tangent = true, bool flag = true)
	{
		if (!g.evaluated) {
			if (flag) { X.checks++; if (s.flag(g.id) != 0) { X.fail(fmt("flag of point %d is set before any evaluation ", g.id) + when); return false; } }
			return true;
		}
		auto got = s.sig(g.id);
		double sm = amax(g.sig.data(), V);
		if (!same(fmt("stress of point %d %s", g.id, when.c_str()).c_str(), got.data(), g.sig.data(), V, 5 * H.c.stol() + 1e-6 * sm)) return false;
		if (tangent && !g.kinky) {
			auto t = s.tan(g.id);
			double tm = amax(g.tan.data(), V * V);
			if (!same(fmt("tangent of point %d %s", g.id, when.c_str()).c_str(), t.data(), g.tan.data(), V * V, 1e7 * H.c.stol() + 2e-4 * tm)) return false;
		}
		if (flag) {
			X.checks++;
			int f = s.flag(g.id);
			if (f != (int)g.flag) { X.fail(fmt("non-linear flag of point %d is %d, expected %d ", g.id, f, (int)g.flag) + when); return false; }
		}
		X.outcome(hash_vals(got.data(), V));
		return true;
	}
	bool agree(Sut &s, const std::string &when, bool tangent = true, bool flag = true)
	{
		for (auto &g : gp) if (!agree(s, g, when, tangent, flag)) return false;
		X.state(canon() ^ hash_bytes(H.c.str().data(), H.c.str().size()));
		return true;
	}
};

// operation words -----------------------------------------------------------------------

struct Op { char k; int id; int l; };	// S set, H homogenize, U commit
inline std::string show(const std::vector<Op> &w)
{
	std::string s;
	for (auto &o : w) {
		if (!s.empty()) s += " ";
		if (o.k == 'S') s += fmt("set(%d,L%d)", o.id, o.l);
		else if (o.k == 'H') s += "homogenize";
		else if (o.k == 'U') s += "commit";
		else s += fmt("%c(%d,%d)", o.k, o.id, o.l);
	}
	return s;
}
inline std::string show(const Letters &A)
{
	std::string s;
	for (size_t i = 0; i < A.size(); i++) s += fmt(" L%d=", (int)i) + vec(A[i].data(), (int)A[i].size());
	return s;
}

// enumerate all words of length depth over ops; cases are prefixes of length split; f(word) returns false on failure
template <class F>
void words(const std::vector<Op> &ops, int depth, int split, const std::string &name, F f, bool first_set = true)
{
	std::vector<int> pre(split, 0);
	auto build = [&](const std::vector<int> &ix) { std::vector<Op> w; for (int i : ix) w.push_back(ops[i]); return w; };
	while (true) {
		if (!(first_set && ops[pre[0]].k != 'S')) {
			if (!X.mine()) X.next++;
			else if (X.begin(name + " | words of length " + std::to_string(depth) + " starting " + show(build(pre)))) {
				std::vector<int> w(pre);
				w.resize(depth, 0);
				while (true) {
					if (!f(build(w))) break;
					X.traces++;
					int p = depth - 1;
					while (p >= split && ++w[p] == (int)ops.size()) w[p--] = 0;
					if (p < split) break;
				}
				if (!X.stop()) X.sample(name + " | " + show(build(w)));
			}
		}
		if (X.stop()) return;
		int p = split - 1;
		while (p >= 0 && ++pre[p] == (int)ops.size()) pre[p--] = 0;
		if (p < 0) break;
	}
}

inline void apply(Sut &s, Spec &m, const Op &o)
{
	if (o.k == 'S') { s.set(o.id, m.H.A[o.l].data()); m.set(o.id, o.l); }
	else if (o.k == 'H') { s.hom(); m.hom(); }
	else if (o.k == 'U') { s.commit(); m.commit(); }
}

// one long life: all words of length n occur one after the other on the same instance; f(step, op) is called after every operation
template <class F>
bool life(const Cfg &c, const Letters &A, const std::vector<Op> &ops, int n, HistCheck hc, const char *name, F f)
{
	if (!X.mine()) { X.next++; return true; }
	if (!X.begin(std::string("long life, all words of length ") + std::to_string(n) + " " + name + " " + c.str() + show(A) + " over " + show(ops))) return true;
	Hist h(c, A, hc);
	auto C = Spec::elastic(h);
	Sut s(c);
	Spec m(h, C);
	auto q = de_bruijn((int)ops.size(), n);
	// operations before the first strain have no effect
	size_t i = 0;
	for (int k : q) {
		if (!f(s, m, ops[k], i)) return false;
		if (m.ambiguous) break;
		i++;
	}
	X.traces++;
	X.sample(X.desc + fmt(": %zu operations", i));
	return true;
}
