// C09: localised fields in the output file against the reference fields.
#include "model.hpp"

static double A1(double v, double m) { return 6e-6 * std::fabs(v) + 2e-6 * m; }

static bool field(const char *name, const Vtu &v, const std::vector<double> &want, double abs_tol, const std::string &when)
{
	std::vector<double> got;
	X.checks++;
	if (!v.array(name, got)) { X.fail(std::string("no array ") + name + " in the file " + when); return false; }
	if (got.size() != want.size()) { X.fail(fmt("array %s has %zu values, expected %zu ", name, got.size(), want.size()) + when); return false; }
	double m = amax(want.data(), (int)want.size());
	for (size_t i = 0; i < got.size(); i++)
		if (!(std::fabs(got[i] - want[i]) <= A1(want[i], m) + abs_tol)) { X.fail(fmt("%s[%zu] is %.8g, expected %.8g (allowed %.2g) ", name, i, got[i], want[i], A1(want[i], m) + abs_tol) + when); return false; }
	return true;
}

static bool check_file(Hist &h, int id, int step, RNode *com, int letter, Sut *s, bool evaluated_now, const std::string &when)
{
	const Cfg &c = h.c;
	Vtu v = read_vtu(id, step);
	if (!v.ok) { X.fail("no output file " + when); return false; }
	unlink(fmt("micropp_%d_%d.vtu", id, step).c_str());
	ref::Result &r = h.next(com, letter)->r;
	if (!r.ok) return true;
	const int D = c.dim, V = c.V(), NN = c.nnode(), NE = c.nelem(), NP = D == 2 ? 4 : 8;
	std::vector<double> u(NN * 3, 0);
	for (int n = 0; n < NN; n++) for (int d = 0; d < D; d++) u[n * 3 + d] = r.u[n * D + d];
	double hmin = 1e300; for (int d = 0; d < D; d++) hmin = std::fmin(hmin, c.L[d] / (c.n[d] - 1));
	double Emin = std::fmin(c.E[0], c.E[1]);
	double utol = 1e-4 / (Emin * (D == 2 ? 1 : hmin)) * NN;	// residual 1e-5 seen as displacement
	double atol = c.Emax() * utol / hmin + 5 * c.stol();
	bool inner = true;
	for (int d = 0; d < D; d++) if (c.n[d] < 3) inner = false;
	if (!inner) {	// nothing is solved for: exact up to rounding (of the committed plastic strains)
		double ep = 0;
		for (auto &q : com->r.st) ep = std::fmax(ep, ref::nrm(q.ep));
		utol = 0;
		atol = 1e-12 * c.Emax() * ep;
	}
	if (!field("displ", v, u, utol, when)) return false;
	if (!field("strain", v, r.est, utol / hmin, when)) return false;
	if (!field("stress", v, r.esg, atol, when)) return false;
	// inner residual
	std::vector<double> b;
	X.checks++;
	if (!v.array("b", b) || (int)b.size() != NN * 3) { X.fail("array b missing " + when); return false; }
	double bn = 0; for (double x : b) bn += x * x;
	double rnd = 1e-14 * c.Emax() * amax(h.A[letter].data(), V) * (D == 3 ? c.Lmax() * c.Lmax() : c.Lmax()) * std::sqrt((double)NN);
	if (!(std::sqrt(bn) < 1.01e-5 + (c.Emax() > 1e12 ? rnd : 0))) { X.fail(fmt("residual force norm %.3g in the file ", std::sqrt(bn)) + when); return false; }
	// committed plastic state
	std::vector<double> pl(NE, 0), ha(NE, 0);
	if (D == 3 && !com->r.st.empty())
		for (int e = 0; e < NE; e++) for (int g = 0; g < NP; g++) { pl[e] += ref::nrm(com->r.st[(size_t)e * NP + g].ep) / NP; ha[e] += com->r.st[(size_t)e * NP + g].al / NP; }
	if (!field("plasticity", v, pl, utol / hmin + 1e-12, when)) return false;
	if (!field("hardening", v, ha, utol / hmin + 1e-12, when)) return false;
	// averages of what was written
	std::vector<double> st, sg;
	v.array("strain", st); v.array("stress", sg);
	std::vector<double> ms(V, 0), mg(V, 0);
	for (int e = 0; e < NE; e++) for (int i = 0; i < V; i++) { ms[i] += st[e * V + i] / NE; mg[i] += sg[e * V + i] / NE; }
	double se = 0, ss = 0; for (double x : st) se = std::fmax(se, std::fabs(x)); for (double x : sg) ss = std::fmax(ss, std::fabs(x));
	if (!same(("mean strain of the file " + when).c_str(), ms.data(), h.A[letter].data(), V, 1e-5 * se)) return false;
	if (evaluated_now && s) {
		auto q = s->sig(id);
		if (!same(("mean stress of the file " + when).c_str(), mg.data(), q.data(), V, 1e-5 * ss + (inner ? 5 * c.stol() : 0))) return false;
	}
	// boundary
	{
		std::vector<double> d;
		v.array("displ", d);
		const double *e = h.A[letter].data();
		X.checks++;
		for (int k = 0; k < (D == 3 ? c.n[2] : 1); k++) for (int j = 0; j < c.n[1]; j++) for (int i = 0; i < c.n[0]; i++) {
			if (i > 0 && j > 0 && i < c.n[0] - 1 && j < c.n[1] - 1 && (D == 2 || (k > 0 && k < c.n[2] - 1))) continue;
			double x[3] = {i * c.L[0] / (c.n[0] - 1), j * c.L[1] / (c.n[1] - 1), D == 3 ? k * c.L[2] / (c.n[2] - 1) : 0};
			for (int p = 0; p < D; p++) {
				double w = 0, a = 0;
				for (int q = 0; q < D; q++) {
					double t = p == q ? e[p] : 0.5 * e[D == 2 ? 2 : p + q + 2];
					w += t * x[q]; a += std::fabs(t * x[q]);
				}
				double g = d[((size_t)(k * c.n[1] + j) * c.n[0] + i) * 3 + p];
				if (!(std::fabs(g - w) <= 6e-6 * std::fabs(w) + 1e-12 * a)) { X.fail(fmt("boundary node (%d,%d,%d) is displaced by %.9g, expected %.9g (component %d) ", i, j, k, g, w, p) + when); return false; }
			}
		}
	}
	X.state(hash_vals(r.u.data(), r.u.size(), hash_vals(pl.data(), pl.size())));
	X.outcome(hash_vals(r.sig.data(), V));
	return true;
}

static Cfg conf(int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double lx, double ly, double lz, double E = 1e9)
{
	Cfg c;
	c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
	c.E[0] = E; c.nu[0] = 0.25; c.Sy[0] = E * 1e-3; c.Ka[0] = E * 0.05; c.mt[0] = m0;
	c.E[1] = 3 * E; c.nu[1] = 0.3; c.Sy[1] = E * 5e-3; c.Ka[1] = E * 0.2; c.mt[1] = m1;
	c.L[0] = lx; c.L[1] = ly; c.L[2] = lz;
	c.settle();
	return c;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	HistCheck hc; hc.tangent = false;
	// 1. configurations: every strain direction as its own point, written with its own step number
	auto fields = [&](const Cfg &c, int nd) {
		if (!X.mine()) { X.next++; return; }
		if (!X.begin("fields " + c.str())) return;
		Letters A;
		auto D = dirs(c.dim);
		for (size_t i = 0; i < D.size(); i++) { std::vector<double> e(D[i]); for (double &x : e) x *= (i % 2 ? -2e-3 : 3e-3); A.push_back(e); }
		Hist h(c, A, hc);
		Sut s(c);
		std::vector<int> use; for (size_t i = 0; i < A.size(); i++) if ((int)i >= (int)A.size() - nd || (int)((i * 7 + c.n[0] + c.n[1]) % A.size()) < nd) use.push_back((int)i);
		for (int l : use) s.set(10 + l, A[l].data());
		s.hom();
		for (int l : use) {
			s.m->output(3 * l, 10 + l);
			X.transitions++;
			if (!check_file(h, 10 + l, 3 * l, &h.root, l, &s, true, "for strain " + vec(A[l].data(), c.V()))) return;
			X.traces++;
		}
		X.sample(X.desc);
	};
	int top = T ? 7 : 5;
	for (int nx = 2; nx <= top; nx++) for (int ny = 2; ny <= top; ny++) for (int type = 0; type < 2; type++) for (int l = 0; l < 3; l++) {
		const double L[3][2] = {{1, 1}, {2, 0.7}, {0.3, 1.9}};
		fields(conf(2, nx, ny, 1, type, 0.4, 0, type, L[l][0], L[l][1], 1), 5);
	}
	top = T ? 5 : 4;
	for (int nx = 2; nx <= top; nx++) for (int ny = 2; ny <= top; ny++) for (int nz = 2; nz <= top; nz++) for (int type = 0; type < 2; type++) for (int m = 0; m < 3; m++)
		fields(conf(3, nx, ny, nz, type, 0.5, m & 1, m >> 1, 1, 1.3, 0.8), m == 0 ? 8 : 2);
	// so stiff that rounding keeps the residual above the tolerance
	for (double f : {1e7, 1e9}) for (int m = 0; m < 3; m++) for (int k = 0; k < 2; k++) {
		Cfg c = k ? conf(2, 4, 3, 1, m & 1, 0.5, 0, 0, 1, 1.3, 1) : conf(3, 3, 3, 3, 1, 0.5, m & 1, m >> 1, 1, 1.3, 0.8);
		for (int i = 0; i < 2; i++) { c.E[i] *= f; c.Sy[i] *= f; c.Ka[i] *= f; }
		fields(c, 2);
	}
	const int big[][4] = {{2, 20, 20, 1}, {2, 31, 4, 1}, {2, 3, 40, 1}, {3, 6, 5, 4}, {3, 3, 5, 7}, {3, 2, 2, 9}, {3, 9, 2, 3}, {3, 3, 8, 3}, {3, 7, 7, 7}};
	for (auto &b : big) for (int type = 0; type < 2; type++) fields(conf(b[0], b[1], b[2], b[3], type, 0.36, type, 0, 1, 1.1, 0.9), 1);
	// 2. operation words, output of both points at the end: committed state and current strain decide
	const double y = 1e-3;
	Letters A = {{3 * y, 0, 0, 0, 0, 0}, {-2 * y, y, 0, 0, 3 * y, 0}, {0.4 * y, 0, 0, 0, 0, 0}, {0, 0, 0, 5 * y, 0, 2 * y}};
	auto go = [&](const Cfg &c, std::vector<Op> ops, int depth, int split) {
		Hist h(c, A, hc);
		auto C = Spec::elastic(h);
		words(ops, depth, split, "words " + c.str() + show(A), [&](const std::vector<Op> &w) {
			Sut s(c);
			Spec m(h, C);
			for (auto &o : w) apply(s, m, o);
			if (m.ambiguous) return true;
			int step = 0;
			for (auto &g : m.gp) {
				s.m->output(step, g.id);
				X.transitions++;
				if (!check_file(h, g.id, step, g.com, g.letter, nullptr, false, fmt("of point %d after ", g.id) + show(w))) return false;
				step++;
			}
			// and once more, after the others
			for (size_t k = m.gp.size(); k-- > 0;) {
				auto &g = m.gp[k];
				s.m->output(step, g.id);
				if (!check_file(h, g.id, step, g.com, g.letter, nullptr, false, fmt("of point %d (second time) after ", g.id) + show(w))) return false;
			}
			return true;
		});
	};
	std::vector<Op> o1 = {{'S', 1, 0}, {'S', 1, 1}, {'S', 1, 3}, {'H', 0, 0}, {'U', 0, 0}};
	std::vector<Op> o2 = {{'S', 1, 0}, {'S', 2, 3}, {'S', 2, 1}, {'H', 0, 0}, {'U', 0, 0}};
	go(conf(3, 2, 2, 2, 0, 0, 1, 0, 1, 1.3, 0.8), o1, T ? 7 : 6, 3);
	go(conf(3, 2, 2, 2, 0, 0, 1, 0, 1, 1.3, 0.8), o2, T ? 7 : 6, 3);
	go(conf(3, 2, 3, 2, 1, 0.5, 1, 1, 1, 1.3, 0.8), o2, T ? 6 : 5, 2);
	go(conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1, 1.3, 0.8), o1, T ? 6 : 5, 2);
	go(conf(3, 3, 4, 3, 0, 0.45, 1, 0, 1, 1.3, 0.8), o2, T ? 5 : 4, 2);
	go(conf(3, 4, 3, 3, 0, 0.35, 0, 1, 1.5, 1, 0.8), o1, T ? 5 : 4, 2);
	// many elements, committed plastic state everywhere
	{
		auto longer = [&](int nx, int ny, int nz, int type, double w, double lx, double ly, double lz) { return conf(3, nx, ny, nz, type, w, 1, 1, lx, ly, lz); };
		std::vector<Op> o3 = {{'S', 1, 0}, {'S', 1, 1}, {'H', 0, 0}, {'U', 0, 0}};
		go(longer(2, 2, 300, 0, 12, 1, 1, 40), o3, T ? 5 : 4, 2);
		go(longer(2, 160, 3, 1, 9, 1, 20, 1), o3, T ? 5 : 4, 2);
		go(longer(190, 3, 2, 0, 9, 25, 1, 1), o3, T ? 5 : 4, 2);
		go(longer(6, 6, 6, 0, 0.35, 1, 1, 1), o3, T ? 5 : 4, 3);
	}
	// a long life with an output after every step
	for (int g = 0; g < 3; g++) {
		Cfg c = g == 0 ? conf(3, 2, 2, 2, 0, 0, 1, 0, 1, 1.3, 0.8) : g == 1 ? conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1, 1.3, 0.8) : conf(2, 4, 3, 1, 0, 0.4, 0, 0, 1, 1, 1);
		Letters B = g == 2 ? Letters{{3 * y, 0, 0}, {-y, 2 * y, 0.7 * y}, {0, 0, 4 * y}, {0, 0, 0}} : A;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("long life " + c.str())) continue;
		Hist h(c, B, hc);
		auto C = Spec::elastic(h);
		Sut s(c);
		Spec m(h, C);
		for (int i = 0; i < (g == 1 ? 120 : 700) * (T ? 4 : 1); i++) {
			apply(s, m, {'S', 1 + i % 2, (i * i / 3 + i) % 4});
			if (i % 3) apply(s, m, {'H', 0, 0});
			if (i % 5 == 4 && i % 60 < 12) apply(s, m, {'U', 0, 0});	// few commits, so that the reference tree stays small
			if (m.ambiguous) break;
			auto &q = m.gp[(i / 2) % m.gp.size()];
			s.m->output(i, q.id);
			X.transitions++;
			bool ok = check_file(h, q.id, i, q.com, q.letter, nullptr, false, fmt("of point %d after %d rounds", q.id, i));
			unlink(fmt("micropp_%d_%d.vtu", q.id, i).c_str());
			if (!ok) break;
		}
		X.traces++;
	}
	// 3. strains of all sizes and signs, committed one after the other
	auto sizes = [&](const Cfg &c, int rounds) {
		Letters B;
		auto D = dirs(c.dim);
		int V = c.V();
		for (double a : {1e-12, 1e-8, 3e-6, 1e-4, 3e-3, 0.03, 0.4, 3.0}) {
			int q = (int)B.size();
			std::vector<double> e(D[V + q % 2]), f(D[q % V]), g(V);
			for (double &x : e) x *= q % 3 ? a : -a;
			for (double &x : f) x *= q % 3 ? -a : a;
			for (int i = 0; i < V; i++) g[i] = (i + q) % 3 ? a * (i + 1) : 1e-3 * a;	// components of different size
			B.push_back(e); B.push_back(f); B.push_back(g);
		}
		for (int st = 0; st < (int)B.size(); st += T ? 1 : 3) {
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin(fmt("sizes from %d ", st) + c.str())) continue;
			Hist h(c, B, hc);
			auto C = Spec::elastic(h);
			Sut s(c);
			Spec m(h, C);
			for (int r = 0; r < rounds; r++) {
				int l = (st + r * 7) % (int)B.size();
				apply(s, m, {'S', 5, l});
				apply(s, m, {'H', 0, 0});
				if (m.ambiguous) break;
				apply(s, m, {'U', 0, 0});
				for (int k = 0; k < 2; k++) {
					int q = k ? (l + 5) % (int)B.size() : l;
					apply(s, m, {'S', 5, q});
					s.m->output(r, 5);
					X.transitions++;
					if (!check_file(h, 5, r, m.gp[0].com, q, nullptr, false, fmt("after %d commits, strain ", r + 1) + vec(B[q].data(), V))) { r = rounds; break; }
				}
			}
			X.traces++;
		}
	};
	sizes(conf(3, 2, 2, 2, 0, 0, 1, 0, 1, 1.3, 0.8, 1e6), 8);
	sizes(conf(3, 2, 3, 2, 1, 0.5, 1, 1, 1, 1.3, 0.8, 1e6), 8);
	sizes(conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1, 1.3, 0.8, 1e6), T ? 8 : 4);
	sizes(conf(3, 4, 3, 4, 0, 0.5, 0, 1, 1, 1.3, 0.8, 1e6), T ? 6 : 3);
	sizes(conf(2, 2, 2, 1, 0, 0.5, 0, 1, 1, 1.3, 0.8, 1e6), 2);
	sizes(conf(2, 5, 4, 1, 0, 0.4, 0, 1, 1, 1.3, 0.8, 1e6), 2);
	// thousands of outputs and evaluations: the fields of one strain and committed state stay what they were
	for (int k = 0; k < 3; k++) {
		Cfg c; c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.E[1] = 3e9; c.nu[1] = 0.3; c.Sy[1] = 5e6; c.Ka[1] = 2e8;
		c.type = 1; c.width = 0.5; c.n[0] = c.n[1] = c.n[2] = 3;
		if (k == 0) c.dim = 2; else c.mt[0] = c.mt[1] = 1;
		if (k == 1) { c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; }
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("old age " + c.str())) continue;
		long N = (k == 2 ? 1100 : 9000) * (X.thorough ? 8L : 1);
		std::vector<std::vector<double>> A = {{3e-3, 0, 0, 0, 0, 0}, {-2e-3, 1e-3, 0, 0, 3e-3, 0}, {0.4e-3, 0, 0, 0, 0, 0}};
		Sut s(c);
		s.set(2, A[0].data()); s.hom(); s.commit();
		std::string first[3];
		for (long i = 0; i < N + 3; i++) {
			s.set(2, A[i % 3].data());
			if (i % 7 == 3) s.hom();
			s.m->output((int)(i % 5), 2);
			X.transitions++;
			if (i >= 3 && i < N && i % 997 > 2) continue;
			std::string f = slurp(fmt("micropp_2_%d.vtu", (int)(i % 5)));
			X.checks++;
			if (i < 3) first[i] = f;
			else if (f != first[i % 3]) { X.fail(fmt("output %ld differs from the first one for the same strain and committed state, strain ", i) + vec(A[i % 3].data(), c.V())); break; }
		}
		for (int t = 0; t < 5; t++) unlink(fmt("micropp_2_%d.vtu", t).c_str());
		X.traces++;
	}
	return X.finish();
}
