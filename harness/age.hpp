// Old instances: after a very large number of calls that change nothing that is committed, every
// answer is, bit by bit, that of a young instance with the same committed history.
#pragma once
#include "cell.hpp"

typedef std::vector<std::vector<double>> AgeLetters;
struct AgeLook { bool sig, tan, flag; };

// A[0], A[1]: probes (plastic in plastic cells); A[2]: elastic. kinds:
// H evaluations of changing strains, S strains set, U commits with nothing to commit,
// E evaluations of an elastic strain each committed, Q queries, D strains set and evaluated at another point, C committed there as well
inline void age(const Cfg &c, const AgeLetters &A, const char *kinds, long N, AgeLook L, const char *who = "")
{
	for (const char *k = kinds; *k; k++) for (int committed = 0; committed < 2; committed++) {
		if (committed && (*k == 'E' || *k == 'C')) continue;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(fmt("%sold age, %ld times %c, %s history ", who, N, *k, committed ? "committed" : "no") + c.str())) continue;
		const int id = 5;
		auto look = [&](Sut &s) {
			std::vector<double> o;
			if (L.sig) { auto v = s.sig(id); o.insert(o.end(), v.begin(), v.end()); }
			if (L.tan) { auto v = s.tan(id); o.insert(o.end(), v.begin(), v.end()); }
			if (L.flag) o.push_back(s.flag(id));
			return o;
		};
		auto start = [&](Sut &s) { if (committed) { s.set(id, A[0].data()); s.hom(); s.commit(); } };
		Sut s(c);
		start(s);
		double buf[36]; int f;
		bool ok = true;
		std::vector<std::vector<double>> want;
		for (int p = 0; p < 3; p++) { Sut t(c); start(t); t.set(id, A[p].data()); t.hom(); want.push_back(look(t)); }
		auto probe = [&](long i) {
			for (int p = 0; p < 3 && ok; p++) {
				s.set(id, A[p].data());
				s.hom();
				auto g = look(s);
				X.checks++;
				for (size_t q = 0; q < g.size() && ok; q++) if (!(g[q] == want[p][q])) { X.fail(fmt("after %ld calls, strain ", i) + vec(A[p].data(), s.V) + fmt(": number %zu is %.17g, in a young instance %.17g", q, g[q], want[p][q])); ok = false; }
				X.outcome(hash_vals(g.data(), g.size()));
			}
		};
		long next = 100;
		for (long i = 0; i < N && ok; i++) {
			switch (*k) {
			case 'H': s.set(id, A[i % 3].data()); s.hom(); break;
			case 'S': s.set(id, A[i % 3].data()); break;
			case 'U': s.commit(); break;
			case 'E': s.set(id, A[2].data()); s.hom(); s.commit(); break;
			case 'Q': s.m->get_macro_stress(id, buf); s.m->get_macro_ctan(id, buf); s.m->get_nl_flag(id, &f); X.transitions += 3; break;
			case 'C': s.set(id + 1, A[2].data()); s.hom(); s.commit(); break;
			case 'D': s.set(id + 1, A[i % 3].data()); s.hom(); break;
			}
			// the probes are trial evaluations, which the next U would commit; E begins with an evaluation of its own
			if (i == next && *k != 'U') { next *= 6; probe(i); }
		}
		probe(N);
		if (ok) X.traces++;
		X.state(hash_bytes(X.desc.data(), X.desc.size()));
	}
}
