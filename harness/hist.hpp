// Exhaustive exploration of committed strain histories: all words over a strain
// alphabet up to a depth, each run on a fresh real instance (one Gauss point) and
// on the reference model.
#pragma once
#include "cell.hpp"
#include <functional>
#include <memory>

typedef std::vector<std::vector<double>> Letters;

struct RNode {			// node of the reference tree: state after a word
	ref::Result r;
	bool flowed = false;	// some point flowed somewhere along the word
	double kmin = 1e300;	// smallest distance to yield over the word
	std::vector<std::unique_ptr<RNode>> kid;
};

struct HistCheck {
	bool stress = true, tangent = false, flag = false;
	double srel = 1e-6, trel = 2e-4;
};

struct Hist {
	Cfg c;
	ref::Cell R;
	Letters A;
	HistCheck H;
	bool tan;
	double unit = 1;		// order of the strains, for histories of very small ones
	RNode root;
	int V;
	Hist(const Cfg &c_, const Letters &a, HistCheck h) : c(c_), R(c_.cell()), A(a), H(h), tan(h.tangent), V(c_.V()) {}
	RNode *next(RNode *n, int l)
	{
		if (n->kid.empty()) n->kid.resize(A.size());
		if (!n->kid[l]) {
			auto k = std::make_unique<RNode>();
			k->r = R.solve(A[l].data(), n->r.st, tan);
			k->flowed = n->flowed || k->r.flow;
			k->kmin = std::fmin(n->kmin, k->r.kink);
			n->kid[l] = std::move(k);
		}
		return n->kid[l].get();
	}
	std::string word(const std::vector<int> &w, size_t upto) const
	{
		std::string s = "history";
		for (size_t i = 0; i <= upto && i < w.size(); i++) s += " " + vec(A[w[i]].data(), V);
		return s;
	}
	bool step_check(Sut &s, RNode *k, const std::vector<int> &w, size_t i)
	{
		if (!k->r.ok) return true;	// reference did not converge: no oracle (counted by the caller)
		auto got = s.sig(1);
		double sm = amax(k->r.sig.data(), V);
		if (H.stress && !same(("stress after " + word(w, i)).c_str(), got.data(), k->r.sig.data(), V, 5 * c.stol() + H.srel * sm)) return false;
		if (H.tangent && k->r.kink > 3e-7) {
			auto t = s.tan(1);
			double tm = amax(k->r.tan.data(), V * V);
			if (!same(("tangent after " + word(w, i)).c_str(), t.data(), k->r.tan.data(), V * V, 1e7 * c.stol() + H.trel * tm)) return false;
		}
		if (H.flag && k->kmin > 1e-9) {
			X.checks++;
			int f = s.flag(1);
			if (f != (k->flowed ? 1 : 0)) { X.fail(fmt("non-linear flag is %d, expected %d after ", f, (int)k->flowed) + word(w, i)); return false; }
		}
		uint64_t h = hash_vals(got.data(), V, hash_bytes(c.str().data(), c.str().size()));
		for (auto &p : k->r.st) { h = hash_vals(p.ep.data(), 9, h); h = hash_vals(&p.al, 1, h); }
		X.state(h);
		X.outcome(hash_vals(got.data(), V));
		return true;
	}
	// run one word on a fresh instance, checking steps from 'from' on
	bool run(const std::vector<int> &w, size_t from)
	{
		Sut s(c);
		RNode *n = &root;
		for (size_t i = 0; i < w.size(); i++) {
			n = next(n, w[i]);
			s.set(1, A[w[i]].data());
			s.hom();
			if (i >= from && !step_check(s, n, w, i)) return false;
			s.commit();
		}
		X.traces++;
		return true;
	}
	// all words of exactly this depth (their prefixes are the shorter ones)
	void explore(int depth, int split)
	{
		if (split > depth) split = depth;
		std::vector<int> pre(split, 0);
		while (true) {
			bool here = X.mine();
			if (!here) X.next++;
			else if (X.begin(c.str() + fmt(" | all %d-letter histories starting with ", depth) + word(pre, pre.size()))) {
				std::vector<int> w(pre);
				w.resize(depth, 0);
				while (true) {
					// steps already checked under an earlier word with the same prefix are not re-checked
					size_t from = 0;
					bool ok = run(w, from);
					if (!ok) break;
					int p = depth - 1;
					while (p >= split && ++w[p] == (int)A.size()) w[p--] = 0;
					if (p < split) break;
				}
				if (!X.stop()) X.sample(c.str() + " | " + word(w, w.size()));
				// free the subtree
				RNode *n = &root;
				for (int i = 0; i + 1 < split; i++) n = next(n, pre[i]);
				if (split > 0 && !n->kid.empty()) n->kid[pre[split - 1]].reset();
			}
			if (X.stop()) { return; }
			int p = split - 1;
			while (p >= 0 && ++pre[p] == (int)A.size()) pre[p--] = 0;
			if (p < 0) break;
		}
	}
	// one long word, repeated pattern
	void cycle(const std::vector<int> &pattern, int times)
	{
		if (!X.mine()) { X.next++; return; }
		if (!X.begin(c.str() + fmt(" | %d times ", times) + word(pattern, pattern.size()))) return;
		std::vector<int> w;
		for (int t = 0; t < times; t++) w.insert(w.end(), pattern.begin(), pattern.end());
		run(w, 0);
		root.kid.clear();
	}
};

// the factor of the strain d at which some integration point of the virgin cell yields first (1 or more: never)
inline double first_yield(const Cfg &c, const std::vector<double> &d)
{
	ref::Cell R = c.cell();
	auto flows = [&](double a) { std::vector<double> e(d); for (double &x : e) x *= a; return R.solve(e.data(), {}, false).flow; };
	double lo = 1e-7, hi = 1e-2;
	if (!flows(hi)) return 1;
	for (int i = 0; i < 44; i++) { double mid = std::sqrt(lo * hi); (flows(mid) ? hi : lo) = mid; }
	return hi;
}

// strain letters around the yield strain ys: elastic, plastic, reversed, all shears, mixed, hydrostatic
inline Letters plast_letters(double ys, int level)
{
	Letters a;
	auto add = [&](std::initializer_list<double> d, double f) { std::vector<double> v(d); for (double &x : v) x *= f * ys; a.push_back(v); };
	add({1, 0, 0, 0, 0, 0}, 3);
	add({-1, 0, 0, 0, 0, 0}, 3);
	add({0, 0, 0, 1, 0, 0}, 4);
	add({0, 0, 0, 0, 0, 0}, 0);
	add({0, 1, 0, 0, 0, 0}, 0.4);
	add({0.3, -0.4, 0.2, -0.9, 0.8, 0.5}, 4);
	if (level >= 1) {
		add({0, 0, 0, 0, -1, 0}, 4);
		add({0, 0, 0, 0, 0, 1}, 4);
		add({0, -1, 0.6, 0, 0, 0}, 2.5);
	}
	if (level >= 2) {
		add({1, 1, 1, 0, 0, 0}, 5);
		add({0, 0, 1, 0, 0, 0}, 8);
		add({0, 0, 0, -1, 0.5, 0}, 1.6);
	}
	return a;
}

// strains from far below yield to far beyond it
inline Letters size_letters(double ys)
{
	Letters a;
	auto add = [&](std::initializer_list<double> d, double f) { std::vector<double> v(d); for (double &x : v) x *= f * ys; a.push_back(v); };
	add({0.7, -0.4, 0.2, 0.9, -0.5, 0.3}, 1e-6);
	add({-0.3, 0.5, 1.1, -0.6, 0.8, -0.2}, 0.02);
	add({1, 0.2, 0, 0, 0.4, 0}, 1.2);
	add({-0.4, 1, 0, 0.3, 0, -0.9}, 30);
	add({0, 0, -1, 0.8, 0, 0.1}, 250);
	add({0.6, -0.5, 0.4, 0, 1, -1}, 3000);
	add({0, 0, 0, 1e-3, 0, 0}, 4000);
	return a;
}
