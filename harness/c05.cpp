// C05: independence of Gauss points; words over several points and id sets.
#include "age.hpp"
#include "model.hpp"
#include <climits>

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int nx, int ny, int nz, int type, double w, int m1, double itol = 0) {
		Cfg c;
		c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = 1;
		c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		c.settle();
		return c;
	};
	const double y = 1e-3;
	Letters A = {
		{3 * y, 0, 0, 0, 0, 0}, {-2 * y, y, 0, 0, 3 * y, 0}, {0.4 * y, 0, 0, 0, 0, 0}, {0, 0, 0, 5 * y, 0, 0}, {0, 0, 0, 0, 0, 0}, {0, -3 * y, 0, 0, 0, 4 * y},
	};
	HistCheck hc; hc.tangent = true;
	auto run = [&](Hist &h, const std::vector<double> &C, const std::vector<Op> &w, const std::vector<int> &ids) {
		Sut s(h.c);
		Spec m(h, C);
		for (size_t i = 0; i < w.size(); i++) {
			apply(s, m, w[i]);
			if (m.ambiguous) return true;
			if (w[i].k == 'S' && i + 1 < w.size()) continue;
			if (!m.agree(s, "after " + show(std::vector<Op>(w.begin(), w.begin() + i + 1)))) return false;
		}
		// every id, known or new, is probed with its own strain, introduced in reverse order
		for (size_t k = ids.size(); k-- > 0;) apply(s, m, {'S', ids[k], (int)(k % 2 ? 1 : 0)});
		apply(s, m, {'H', 0, 0});
		if (m.ambiguous) return true;
		return m.agree(s, "after " + show(w) + " and a final evaluation of all points");
	};
	auto go = [&](const Cfg &c, std::vector<int> ids, std::vector<int> ls, int depth, int split) {
		Hist h(c, A, hc);
		auto C = Spec::elastic(h);
		std::vector<Op> ops;
		for (int id : ids) for (int l : ls) ops.push_back({'S', id, l});
		ops.push_back({'H', 0, 0}); ops.push_back({'U', 0, 0});
		words(ops, depth, split, c.str() + show(A), [&](const std::vector<Op> &w) { return run(h, C, w, ids); });
	};
	auto lives = [&](const Cfg &c, std::vector<int> ids, std::vector<int> ls, int n) {
		std::vector<Op> ops;
		for (int id : ids) for (int l : ls) ops.push_back({'S', id, l});
		ops.push_back({'H', 0, 0}); ops.push_back({'U', 0, 0});
		life(c, A, ops, n, hc, "", [&](Sut &s, Spec &m, const Op &o, size_t i) {
			apply(s, m, o);
			if (m.ambiguous || o.k == 'S') return true;
			return m.agree(s, fmt("after %zu operations, the last one ", i + 1) + show(std::vector<Op>{o}));
		});
	};
	lives(conf(2, 2, 2, 0, 0, 0), {0, 1, 2}, {0, 1}, T ? 5 : 4);
	lives(conf(2, 2, 2, 0, 0, 0, 2e6), {7, -7}, {0, 2, 3}, T ? 5 : 4);
	lives(conf(2, 2, 2, 0, 0, 0), {5, 4, 3, 2, 1, 0, -1, -2}, {1}, T ? 4 : 3);
	lives(conf(3, 3, 3, 1, 0.5, 1), {1, 2}, {0, 1}, T ? 4 : 3);
	// deep words on a one-element cell
	go(conf(2, 2, 2, 0, 0, 0), {1, 2}, {0, 1}, T ? 8 : 7, 4);
	go(conf(2, 2, 2, 0, 0, 0), {0, 1, 2}, {0, 1}, T ? 7 : 6, 4);
	go(conf(2, 2, 2, 0, 0, 0), {3, 2, 1, 0}, {0}, T ? 8 : 7, 4);
	go(conf(2, 2, 2, 0, 0, 0, 2e6), {4, 9}, {0, 2, 3}, T ? 7 : 6, 4);	// one point linear, one not
	// id sets that collide in hashes, masks, narrow types and sign conversions
	const std::vector<std::vector<int>> idsets = {
		{-1, 0, 1}, {1, 257, 513}, {0, 65536, 131072}, {INT_MAX, INT_MIN, -1}, {16, 32, 48}, {7, -7, 0}, {1000000, 999999, 1000001},
		{128, -128, 127}, {32768, -32768, 32767}, {1024, 2048, 0}, {10, 100, 1000}, {5, 21, 37}, {99, 100, 101}, {INT_MIN, INT_MIN + 1, 2}, {63, 64, 65},
	};
	for (auto &ids : idsets) go(conf(2, 2, 2, 0, 0, 0), ids, {0, 1}, T ? 6 : 4, 2);
	// cells with inner nodes and two materials
	go(conf(2, 3, 2, 1, 0.5, 1), {1, 2}, {0, 1}, T ? 6 : 5, 3);
	go(conf(3, 3, 3, 1, 0.5, 1), {1, 2}, {0, 1}, T ? 5 : 4, 2);
	go(conf(3, 3, 3, 1, 0.5, 0), {4, 0, 8}, {5}, T ? 6 : 5, 3);
	go(conf(3, 3, 3, 1, 0.5, 0, 2.5e6), {4, 0}, {0, 2}, T ? 6 : 4, 2);
	go(conf(3, 3, 4, 0, 0.45, 1), {6, 3}, {0, 3}, T ? 5 : 4, 2);
	// 2D cells too
	{
		Letters B = {{3 * y, 0, 0}, {-y, 2 * y, 0.7 * y}, {0, 0, 4 * y}};
		Cfg c; c.dim = 2; c.n[0] = 4; c.n[1] = 3; c.E[0] = 1e9; c.E[1] = 4e9; c.width = 0.4; c.settle();
		Hist h(c, B, hc);
		auto C = Spec::elastic(h);
		std::vector<Op> ops;
		for (int id : {2, 0, -5}) for (int l : {0, 1, 2}) ops.push_back({'S', id, l});
		ops.push_back({'H', 0, 0}); ops.push_back({'U', 0, 0});
		words(ops, T ? 6 : 4, 2, c.str() + show(B), [&](const std::vector<Op> &w) { return run(h, C, w, {2, 0, -5}); });
	}
	// non-interference: everything observed of a point next to another one is identical, bit by bit, to what
	// is observed of it alone; all choices of strains (or none) and commits per round, other point introduced before or after
	auto bits = [&](const Cfg &c, const Letters &B, int rounds, int split, int nother, const Letters &O_ = {}) {
		const Letters &O = O_.empty() ? B : O_;	// strains of the other points (as many as B)
		int k = (int)B.size() + 1;			// letters or "not set"
		long per = (long)k * k * 2, total = 1;
		for (int r = 0; r < rounds; r++) total *= per;
		long blocks = 1;
		for (int r = 0; r < split; r++) blocks *= per;
		auto solo = [&](Sut &s, const std::vector<int> &pl, const std::vector<int> &ql, const std::vector<int> &cm, int others, int before) {
			std::vector<double> o;
			bool known = false;
			for (int r = 0; r < rounds; r++) {
				for (int ph = 0; ph < 2; ph++) {
					if ((ph == 0) == (before != 0)) { for (int q = 0; q < others; q++) if (ql[r] < (int)B.size()) s.set(q == 0 ? -7 : q == 1 ? 7 + 65536 : 100 + q, O[(ql[r] + q) % B.size()].data()); }
					else if (pl[r] < (int)B.size()) { s.set(7, B[pl[r]].data()); known = true; }
				}
				if (known) { auto a = s.sig(7); o.insert(o.end(), a.begin(), a.end()); o.push_back(s.flag(7)); }	// before the evaluation
				s.hom();
				if (cm[r]) s.commit();
				if (!known) continue;
				auto a = s.sig(7), t = s.tan(7);
				o.insert(o.end(), a.begin(), a.end());
				o.insert(o.end(), t.begin(), t.end());
				o.push_back(s.flag(7));
			}
			return o;
		};
		for (long b = 0; b < blocks && !X.stop(); b++) {
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin(c.str() + show(B) + fmt(" | %d rounds next to %d other points, block %ld", rounds, nother, b))) continue;
			for (long r0 = 0; r0 < total / blocks; r0++) {
				long v = b * (total / blocks) + r0;
				std::vector<int> pl(rounds), ql(rounds), cm(rounds);
				for (int r = 0; r < rounds; r++) { cm[r] = v % 2; v /= 2; pl[r] = (int)(v % k); v /= k; ql[r] = (int)(v % k); v /= k; }
				std::vector<double> alone;
				{ Sut s(c); alone = solo(s, pl, ql, cm, 0, 0); }
				for (int before = 0; before < 2; before++) {
					Sut s(c);
					auto o = solo(s, pl, ql, cm, nother, before);
					X.checks++; X.traces++;
					if (o.size() != alone.size() || memcmp(o.data(), alone.data(), o.size() * sizeof(double))) {
						size_t i = 0; while (i < o.size() && o[i] == alone[i]) i++;
						std::string d;
						for (int r = 0; r < rounds; r++) d += fmt(" round %d: own L%d others L%d%s;", r, pl[r], ql[r], cm[r] ? " commit" : "");
						X.fail(fmt("observation %zu of a point is %.17g next to others (%s it) and %.17g alone;", i, o[i], before ? "introduced before" : "after", alone[i]) + d);
						return;
					}
					X.outcome(hash_vals(o.data(), o.size()));
				}
				X.state(hash_vals(alone.data(), alone.size(), hash_bytes(c.str().data(), c.str().size())));
			}
		}
	};
	bits(conf(2, 2, 2, 0, 0, 0), {A[0], A[1], A[2]}, 3, 1, 1);
	bits(conf(3, 3, 3, 1, 0.5, 1), {A[0], A[1]}, T ? 3 : 2, 1, 1);
	bits(conf(3, 3, 4, 0, 0.45, 1, 2.5e6), {A[1], A[2]}, 2, 1, 2);
	bits(conf(3, 4, 3, 0, 0.45, 0), {A[0], A[5]}, 2, 1, 1);
	// the others hold meaningless or absurd strains
	{
		const double nan = NAN, inf = INFINITY;
		for (auto &c : {conf(2, 2, 2, 0, 0, 0), conf(3, 3, 3, 1, 0.5, 1)}) {
			bits(c, {A[0], A[2]}, 2, 1, 1, {{nan, 0, 0, 0, 0, 0}, {0, 0, 0, inf, 0, 0}});
			bits(c, {A[1], A[5]}, 2, 1, 1, {{nan, nan, nan, nan, nan, nan}, {1e200, 0, 0, 0, -1e300, 0}});
		}
	}
	{
		Cfg c; c.dim = 2; c.n[0] = 5; c.n[1] = 4; c.E[0] = 1e9; c.E[1] = 4e9; c.width = 0.4; c.settle();
		bits(c, {{3 * y, 0, 0}, {-y, 2 * y, 0.7 * y}}, T ? 3 : 2, 1, 2);
	}
	// crowds: N points with their own histories in one instance, and each of them alone: identical bit by bit
	for (int N : {5, 12, 25, 50, 110}) for (int g = 0; g < 4; g++) for (int rot = 0; rot < 2; rot++) {
		Cfg c = g == 0 ? conf(3, 3, 3, 1, 0.5, 1) : g == 1 ? conf(3, 4, 3, 0, 0.45, 1, 2e6) : g == 2 ? conf(2, 2, 3, 1, 0.5, 1) : conf(4, 3, 3, 0, 0.4, 0);
		if (!T && (N > 60 && g != 2)) continue;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + fmt(" | crowd of %d points, pattern %d", N, rot))) continue;
		auto letter = [&](int i, int r) { return (i * (r + 1) + i / 5 + 3 * r * rot) % (int)A.size(); };
		auto obs = [&](Sut &s, int id, std::vector<double> &o) { auto a = s.sig(id), t = s.tan(id); o.insert(o.end(), a.begin(), a.end()); o.insert(o.end(), t.begin(), t.end()); o.push_back(s.flag(id)); };
		std::vector<std::vector<double>> all(N);
		{
			Sut s(c);
			for (int r = 0; r < 3; r++) {
				for (int i = 0; i < N; i++) s.set(i * 17 - 40, A[letter(rot ? N - 1 - i : i, r)].data());
				s.hom();
				for (int i = 0; i < N; i++) obs(s, i * 17 - 40, all[i]);
				s.commit();
			}
		}
		// many points share their history: each history alone once
		std::map<std::vector<int>, std::vector<double>> memo;
		for (int i = 0; i < N; i++) {
			std::vector<int> h;
			for (int r = 0; r < 3; r++) h.push_back(letter(rot ? N - 1 - i : i, r));
			auto &o = memo[h];
			if (o.empty()) { Sut s(c); for (int r = 0; r < 3; r++) { s.set(3, A[h[r]].data()); s.hom(); obs(s, 3, o); s.commit(); } }
			X.checks++; X.traces++;
			if (o.size() == all[i].size() && !memcmp(o.data(), all[i].data(), o.size() * sizeof(double))) continue;
			size_t k = 0; while (k < o.size() && o[k] == all[i][k]) k++;
			X.fail(fmt("point %d of %d: observation %zu is %.17g, alone it is %.17g", i, N, k, all[i][k], o[k]));
			break;
		}
		X.state(hash_vals(all[0].data(), all[0].size(), hash_bytes(c.str().data(), c.str().size(), N)));
	}
	// many points: id patterns x introduction orders, three rounds of loading with commits
	struct Pat { const char *name; long a, b; };
	const Pat pats[] = {{"consecutive", 1, 0}, {"stride 256", 256, 3}, {"stride 1024", 1024, -7}, {"negative", -1, -1}, {"stride 65536", 65536, 1}, {"stride 3 around zero", 3, -150}};
	for (auto &p : pats) for (int N : {9, 17, 33, 65, 130, 300, 550, 1100, 2100, 4200}) for (int order = 0; order < 3; order++) for (int g = 0; g < 2; g++) {
		if (g == 1 && N > 33) continue;
		if (N > 1000 && (order == 1 || &p == &pats[1] || &p == &pats[4]) && !T) continue;
		if (N > 2000 && order + (&p - pats) > 1 && !T) continue;
		Cfg c = g ? conf(3, 3, 3, 1, 0.5, 1) : conf(2, 2, 2, 0, 0, 0);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + fmt(" | %d points, ids %s, order %d", N, p.name, order))) continue;
		Hist h(c, A, hc);
		auto C = Spec::elastic(h);
		Sut s(c);
		Spec m(h, C);
		std::vector<int> ix(N);
		for (int i = 0; i < N; i++) ix[i] = order == 0 ? i : order == 1 ? N - 1 - i : (i * 7 + 3) % N;
		if (order == 2 && N % 7 == 0) { X.sample("skipped"); continue; }
		bool ok = true;
		for (int round = 0; round < 3 && ok; round++) {
			for (int i : ix) if (round != 1 || i % 3) apply(s, m, {'S', (int)(p.a * i + p.b), (i * (round + 1) + i / 5) % (int)A.size()});
			apply(s, m, {'H', 0, 0});
			ok = m.ambiguous || m.agree(s, fmt("in round %d", round));
			if (round != 2 && ok) { apply(s, m, {'U', 0, 0}); ok = m.agree(s, fmt("after commit %d", round)); }
		}
		if (ok) X.traces++;
	}
	// other points grow very old
	{
		Cfg c = conf(2, 2, 2, 0, 0, 0);
		AgeLetters B = {A[0], A[1], {0.4 * y, 0, 0, 0, 0, 0}};
		age(c, B, "DC", T ? 600000 : 70000, {true, true, false});
		age(conf(3, 3, 3, 1, 0.5, 1), B, "DC", T ? 12000 : 1100, {true, true, false});
	}
	return X.finish();
}
