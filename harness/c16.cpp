// C16: report files against the getters and the interface model.
#include "model.hpp"

static const char *FE = "micropp_eps_sig_ctan.dat", *FC = "micropp_convergence.dat", *FI = "micropp_int_vars_n.dat", *FM = "micropp_materials.dat";
static bool bad(const std::string &m) { X.fail(m); return false; }
static bool near6(double got, double want, double abs_tol = 0) { return std::fabs(got - want) <= 2e-6 * std::fabs(want) + abs_tol; }

struct Lines { std::vector<std::string> data, head; };
static Lines split(const std::string &s)
{
	Lines l;
	std::stringstream in(s);
	std::string x;
	while (std::getline(in, x)) {
		if (x.find('#') != std::string::npos) l.head.push_back(x);
		else if (x.find_first_not_of(" \t\r") != std::string::npos) l.data.push_back(x);
	}
	return l;
}
static std::vector<std::vector<double>> blocks(const std::string &line)
{
	std::vector<std::vector<double>> r;
	std::stringstream ls(line);
	std::string b;
	while (std::getline(ls, b, '|')) { auto v = numbers(b); if (!v.empty()) r.push_back(v); }
	return r;
}
static bool header_ids(const Lines &l, const std::vector<int> &ids)
{
	for (auto &h : l.head) {
		size_t p = h.find("gp_id");
		if (p == std::string::npos) continue;
		p = h.find(':', p);
		if (p == std::string::npos) continue;
		const char *q = h.c_str() + p + 1;
		for (size_t i = 0; i < ids.size(); i++) {
			char *e;
			long v = strtol(q, &e, 10);
			if (e == q || v != ids[i]) return false;
			q = e;
		}
		char *e;
		strtol(q, &e, 10);
		return e == q;
	}
	return false;
}

struct Files {
	std::string f[3];
	int lines = 0;
	std::vector<int> first_ids;
	void read() { f[0] = slurp(FE); f[1] = slurp(FC); f[2] = slurp(FI); }
};

// check the effect of one write_info_files call
static bool check_write(Sut &s, Spec &m, Files &F, const std::string &when)
{
	const Cfg &c = m.H.c;
	Files N;
	N.read();
	X.checks++;
	int V = m.V;
	if (F.lines == 0) { F.first_ids.clear(); for (auto &g : m.gp) F.first_ids.push_back(g.id); }
	static const char *nm[3] = {FE, FC, FI};
	int nlines = F.lines + 1;
	std::string last[3];
	for (int k = 0; k < 3; k++) {
		if (N.f[k].compare(0, F.f[k].size(), F.f[k]) != 0 || N.f[k].size() <= F.f[k].size()) return bad(fmt("%s was not appended to ", nm[k]) + when);
		std::string add = N.f[k].substr(F.f[k].size());
		if (add.back() != '\n') return bad(fmt("%s: line not terminated ", nm[k]) + when);
		Lines l = split(add);
		if (F.lines > 0 && !l.head.empty()) return bad(fmt("%s: a second header ", nm[k]) + when);
		if (m.gp.empty()) { last[k] = ""; continue; }
		if (l.data.size() != 1) return bad(fmt("%s: %zu data lines added ", nm[k], l.data.size()) + when);
		last[k] = l.data[0];
		if (k < 2) {
			Lines a = split(N.f[k]);
			if (!header_ids(a, F.first_ids)) return bad(fmt("%s: header does not name the ids of the first report ", nm[k]) + when);
			// before the first data line
			size_t hp = N.f[k].find("gp_id"), dp = 0;
			std::stringstream in(N.f[k]);
			std::string x;
			size_t pos = 0;
			while (std::getline(in, x)) { if (x.find('#') == std::string::npos && x.find_first_not_of(" \t\r") != std::string::npos) { dp = pos; break; } pos += x.size() + 1; }
			if (hp > dp) return bad(fmt("%s: header after the first line ", nm[k]) + when);
		}
	}
	F.f[0] = N.f[0]; F.f[1] = N.f[1]; F.f[2] = N.f[2]; F.lines = nlines;
	if (m.gp.empty()) return true;
	auto be = blocks(last[0]), bc = blocks(last[1]), bi = blocks(last[2]);
	if (be.size() != m.gp.size() || bc.size() != m.gp.size() || bi.size() != m.gp.size()) return bad(fmt("%zu/%zu/%zu blocks for %zu points ", be.size(), bc.size(), bi.size(), m.gp.size()) + when);
	double hmin = 1e300; for (int d = 0; d < c.dim; d++) hmin = std::fmin(hmin, c.L[d] / (c.n[d] - 1));
	double utol = 1e-4 / (std::fmin(c.E[0], c.E[1]) * (c.dim == 2 ? 1 : hmin)) * c.nnode() / hmin;
	for (size_t q = 0; q < m.gp.size(); q++) {
		Spec::Gp &g = m.gp[q];
		std::string w = fmt("(point %d) ", g.id) + when;
		// strain, stress, tangent
		if (be[q].size() < 12 + (size_t)V * V) return bad(fmt("%s: %zu columns ", FE, be[q].size()) + w);
		for (int i = 0; i < 6; i++) {
			double we = i < V ? m.H.A[g.letter][i] : 0;
			if (!near6(be[q][i], we)) return bad(fmt("%s: strain %d is %.9g, expected %.9g ", FE, i, be[q][i], we) + w);
		}
		auto sg = s.sig(g.id), tn = s.tan(g.id);
		for (int i = 0; i < 6; i++) {
			double ws = i < V ? sg[i] : 0;
			if (!near6(be[q][6 + i], ws)) return bad(fmt("%s: stress %d is %.9g, getter returns %.9g ", FE, i, be[q][6 + i], ws) + w);
		}
		for (int i = 0; i < V * V; i++) if (!near6(be[q][12 + i], tn[i])) return bad(fmt("%s: tangent %d is %.9g, getter returns %.9g ", FE, i, be[q][12 + i], tn[i]) + w);
		for (size_t i = 12 + V * V; i < be[q].size(); i++) if (be[q][i] != 0) return bad(fmt("%s: column %zu beyond the tangent is %g ", FE, i, be[q][i]) + w);
		// convergence
		if (bc[q].size() != 2 + 2 * (size_t)(1 + V)) return bad(fmt("%s: %zu columns, expected %d ", FC, bc[q].size(), 2 + 2 * (1 + V)) + w);
		if (bc[q][0] != s.flag(g.id)) return bad(fmt("%s: flag %g, getter returns %d ", FC, bc[q][0], s.flag(g.id)) + w);
		if (g.evaluated) {
			double tol = 1e-4 * std::fabs(g.inv) + 100 * c.stol();
			if (!(std::fabs(bc[q][1] - g.inv) <= tol)) return bad(fmt("%s: invariant %.9g, expected %.9g ", FC, bc[q][1], g.inv) + w);
		}
		for (int i = 0; i <= V; i++) {
			double its = bc[q][2 + 2 * i], err = bc[q][3 + 2 * i];
			if (its != floor(its) || its < 0 || its > 40) return bad(fmt("%s: %g iterations in solve %d ", FC, its, i) + w);
			if (!(err >= 0) || (its < 40 && !(err < 1.0001e-5))) return bad(fmt("%s: error %g after %g iterations in solve %d ", FC, err, its, i) + w);
			if ((!g.evaluated || g.shortcut) && (its != 0 || err != 0)) return bad(fmt("%s: %g iterations, error %g in solve %d without a full evaluation ", FC, its, err, i) + w);
		}
		// internal variables
		if (c.dim == 3) {
			const int perm[8] = {0, 1, 3, 2, 4, 5, 7, 6};	// integration points counter-clockwise, bottom then top
			const int vx[6] = {0, 4, 8, 1, 2, 5};
			if (bi[q].size() != (size_t)c.nelem() * 56) return bad(fmt("%s: %zu columns, expected %d ", FI, bi[q].size(), c.nelem() * 56) + w);
			bool any = g.flag && !g.com->r.st.empty();
			double mx = 0;
			if (any) for (auto &p : g.com->r.st) mx = std::fmax(mx, p.al);
			for (int e = 0; e < c.nelem(); e++) for (int p = 0; p < 8; p++) for (int v = 0; v < 7; v++) {
				double want = 0;
				if (any) { auto &st = g.com->r.st[(size_t)e * 8 + perm[p]]; want = v < 6 ? st.ep[vx[v]] : st.al; }
				double got = bi[q][(size_t)(e * 8 + p) * 7 + v];
				if (!(std::fabs(got - want) <= 2e-6 * mx + (any ? utol : 0))) return bad(fmt("%s: variable %d of point %d of element %d is %.9g, expected %.9g ", FI, v, p, e, got, want) + w);
			}
		} else for (double d : bi[q]) if (d != 0) return bad(fmt("%s: %g in a 2D cell ", FI, d) + w);
		X.outcome(hash_vals(bc[q].data(), (int)bc[q].size()));
	}
	return true;
}

static bool fresh(const Cfg &c)	// what the constructor leaves
{
	X.checks++;
	for (const char *f : {FE, FC, FI}) { if (!exists(f)) return bad(std::string("the constructor did not create ") + f); if (!slurp(f).empty()) return bad(std::string("the constructor did not empty ") + f); }
	auto v = numbers(slurp(FM));
	if (v.size() != 8) return bad(fmt("%s holds %zu numbers", FM, v.size()));
	for (int i = 0; i < 2; i++) {
		double w[4] = {c.E[i], c.nu[i], c.Sy[i], c.Ka[i]};
		for (int j = 0; j < 4; j++) if (!near6(v[4 * i + j], w[j])) return bad(fmt("%s: value %d of material %d is %.9g, expected %.9g", FM, j, i, v[4 * i + j], w[j]));
	}
	Lines l = split(slurp(FM));
	if (l.data.size() != 2) return bad(fmt("%s has %zu lines", FM, l.data.size()));
	return true;
}
static void stale() { for (const char *f : {FE, FC, FI, FM}) std::ofstream(f) << "1 2 3 | stale\n" << std::string(5000, 'z') << "\n"; }

static bool run(Hist &h, const std::vector<double> &C, const std::vector<Op> &w)
{
	stale();
	Sut s(h.c);
	if (!fresh(h.c)) return false;
	Spec m(h, C);
	Files F;
	std::string tr;
	for (size_t i = 0; i <= w.size(); i++) {
		Op o = i < w.size() ? w[i] : Op{'W', 0, 0};
		if (o.k == 'W') {
			s.m->write_info_files();
			X.transitions++;
			if (!check_write(s, m, F, "after " + show(std::vector<Op>(w.begin(), w.begin() + i)) + " and a report")) return false;
		} else if (o.k == 'Q') {	// all queries of one point
			s.sig(o.id); s.tan(o.id); s.flag(o.id);
			s.m->output(0, o.id);
			unlink(fmt("micropp_%d_0.vtu", o.id).c_str());
			X.transitions += 4;
		} else {
			apply(s, m, o);
			if (m.ambiguous) return true;
		}
	}
	X.state(m.canon() ^ hash_bytes(&F.lines, sizeof F.lines) ^ hash_bytes(h.c.str().data(), h.c.str().size()));
	return true;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	const double y = 1e-3;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double itol) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.E[0] = 1.2345678e9; c.nu[0] = 0.25125; c.Sy[0] = 1.01e6; c.Ka[0] = 5.4321e7; c.mt[0] = m0;
		c.E[1] = 2.7182818e9; c.nu[1] = 0.31831; c.Sy[1] = 3.3e6; c.Ka[1] = 2.2e8; c.mt[1] = m1;
		c.settle();
		return c;
	};
	Letters A3 = {{3.3 * y, 0.11 * y, 0, 0, 0, 0}, {-2.1 * y, y, 0.3 * y, 0.7 * y, 3 * y, -0.2 * y}, {0.4 * y, 0, 0, 0, 0.1 * y, 0}, {0, 0, 0, 5 * y, 0, 0}};
	Letters A2 = {{1.234567e-4, -2.2e-5, 3.3e-4}, {-1e-3, 4e-4, 0}, {0, 0, 7.5e-4}};
	HistCheck hc; hc.tangent = true;
	auto go = [&](const Cfg &c, const Letters &A, std::vector<int> ids, std::vector<int> ls, int depth, int split, std::vector<int> qs = {}) {
		Hist h(c, A, hc);
		auto C = Spec::elastic(h);
		std::vector<Op> ops;
		for (int id : ids) for (int l : ls) ops.push_back({'S', id, l});
		ops.push_back({'H', 0, 0}); ops.push_back({'U', 0, 0}); ops.push_back({'W', 0, 0});
		for (int id : qs) ops.push_back({'Q', id, 0});
		words(ops, depth, split, c.str() + show(A), [&](const std::vector<Op> &w) { return run(h, C, w); }, false);
	};
	// one element, plastic, two points with interleaved reports
	go(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), A3, {4}, {0, 1, 2}, T ? 7 : 6, 3);
	go(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), A3, {-7, 1000000}, {0, 2}, T ? 7 : 6, 3);
	go(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), A3, {3, 2, 1}, {1}, T ? 7 : 6, 3);
	go(conf(3, 2, 2, 2, 0, 0, 1, 1, 4e6), A3, {2}, {0, 2, 3}, T ? 7 : 5, 3);
	go(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), A3, {3, 2}, {1}, T ? 7 : 6, 3, {3, 2, 9});
	go(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), A3, {1, 2, 3}, {0}, T ? 6 : 5, 3, {1, 2});
	go(conf(2, 3, 3, 0, 0, 0.3, 0, 0, 0), A2, {1, 2}, {1}, T ? 6 : 5, 3, {1, 2});
	// two materials, inner nodes
	go(conf(3, 2, 3, 2, 1, 0.5, 1, 0, 0), A3, {5, 6}, {1, 3}, T ? 5 : 4, 2);
	go(conf(3, 3, 3, 3, 1, 0.5, 1, 1, 0), A3, {1, 0}, {1, 0}, T ? 5 : 4, 2);
	go(conf(3, 3, 4, 3, 0, 0.45, 1, 0, 4e6), A3, {1}, {1, 2}, T ? 6 : 5, 2);
	go(conf(3, 4, 3, 3, 0, 0.45, 0, 0, 0), A3, {1}, {1, 2}, 4, 2);
	// 2D
	go(conf(2, 4, 3, 0, 0, 0.3, 0, 0, 0), A2, {4, -4}, {0, 1}, T ? 6 : 5, 2);
	go(conf(2, 3, 4, 0, 1, 0.5, 1, 2, 3e5), A2, {1}, {0, 1, 2}, T ? 7 : 5, 2);
	go(conf(2, 2, 2, 0, 0, 0.5, 0, 0, 0), A2, {1, 2, 3}, {2}, T ? 7 : 6, 2);
	// many elements
	for (int k = 0; k < 4; k++) {
		Cfg c = k == 0 ? conf(3, 2, 2, 260, 0, 6, 1, 1, 0) : k == 1 ? conf(3, 2, 150, 3, 1, 8, 1, 1, 0) : k == 2 ? conf(3, 6, 6, 6, 0, 0.35, 1, 1, 0) : conf(2, 60, 40, 0, 0, 0.3, 0, 0, 0);
		if (k == 0) c.L[2] = 30;
		if (k == 1) c.L[1] = 20;
		Hist h(c, k == 3 ? A2 : A3, hc);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + " | reports of three points, one history each")) continue;
		auto C = Spec::elastic(h);
		run(h, C, {{'S', 1, 0}, {'S', 2, 1}, {'H', 0, 0}, {'W', 0, 0}, {'U', 0, 0}, {'W', 0, 0}, {'S', 3, 2}, {'S', 1, 1}, {'H', 0, 0}, {'W', 0, 0}, {'U', 0, 0}, {'W', 0, 0}});
		X.traces++;
	}
	// many points, a growing list, and reports in every round
	for (int np : {7, 40, 120}) for (int d : {2, 3}) {
		Cfg c = d == 3 ? conf(3, 2, 2, 2, 0, 0, 1, 1, 0) : conf(2, 3, 3, 0, 0, 0.3, 0, 0, 0);
		Hist h(c, d == 3 ? A3 : A2, hc);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + fmt(" | %d points introduced in rounds with reports", np))) continue;
		auto C = Spec::elastic(h);
		std::vector<Op> w;
		int id = 0;
		for (int r = 0; r < 3; r++) {
			for (; id < np * (r + 1) / 3; id++) w.push_back({'S', 1000 - 7 * id, (id + r) % (int)h.A.size()});
			w.push_back({'W', 0, 0}); w.push_back({'H', 0, 0}); w.push_back({'W', 0, 0}); w.push_back({'U', 0, 0}); w.push_back({'W', 0, 0});
		}
		run(h, C, w);
		X.traces++;
	}
	// many reports in a row, with and without evaluations and commits in between
	for (int every : {1, 2, 7}) for (int d : {2, 3}) {
		Cfg c = d == 3 ? conf(3, 2, 2, 2, 0, 0, 1, 1, 0) : conf(2, 3, 3, 0, 0, 0.3, 0, 0, 0);
		Hist h(c, d == 3 ? A3 : A2, hc);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + fmt(" | %d reports, an evaluation before every %d", T ? 1200 : 300, every))) continue;
		auto C = Spec::elastic(h);
		std::vector<Op> w;
		for (int r = 0; r < (T ? 1200 : 300); r++) {
			if (r % every == 0) { w.push_back({'S', 5, r / every % (int)h.A.size()}); w.push_back({'H', 0, 0}); }
			if (every == 7 && r == 20) w.push_back({'S', 6, 0});
			w.push_back({'W', 0, 0});
			if (r % 50 == 30) w.push_back({'U', 0, 0});
		}
		run(h, C, w);
		X.traces++;
	}
	// very small and very large values in every column
	for (int d : {2, 3}) for (int k = 0; k < 6; k++) {
		Cfg c = d == 3 ? conf(3, 3, 3, 3, 1, 0.6, 0, 2, k % 2 ? 1e5 : 0) : conf(2, 4, 3, 0, 0, 0.4, 0, 0, k % 2 ? 1e5 : 0);
		Letters B;
		for (double a : {1e-14, 3e-11, 2e-7, 0.03, 4.0}) { std::vector<double> v(d == 3 ? 6 : 3); for (size_t i = 0; i < v.size(); i++) v[i] = a * (((int)i * 5 + k * 3) % 7 - 3 + 0.123456789); B.push_back(v); }
		for (double a : {1e-12, 1.5}) for (int i = 0; i < (d == 3 ? 6 : 3); i++) { std::vector<double> v(d == 3 ? 6 : 3, 0.0); v[i] = a; v[(i + 1) % v.size()] = -2e-5; B.push_back(v); }
		Hist h(c, B, hc);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + fmt(" | extreme strains, variant %d", k) + show(B))) continue;
		auto C = Spec::elastic(h);
		std::vector<Op> w;
		for (size_t i = 0; i < B.size(); i++) { w.push_back({'S', (int)i / 4, (int)i}); w.push_back({'H', 0, 0}); w.push_back({'W', 0, 0}); }
		run(h, C, w);
		X.traces++;
	}
	// internal variables far below and around 1e-9: just beyond first yield
	for (auto &d : dirs(3, true)) for (int k = 0; k < 2; k++) {
		Cfg c = conf(3, 2, 2, 2, 0, k ? 9 : 0, 1, 1, 0);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + " | just beyond first yield in direction " + vec(d.data(), 6))) continue;
		double f1 = first_yield(c, d);
		Letters B;
		for (double f : {1 + 3e-6, 1 + 1e-4, 1 + 2e-3, 1.5, 0.5}) { auto v = d; for (double &x : v) x *= f * std::fmin(f1, 3 * y); B.push_back(v); }
		Hist h(c, B, hc);
		auto C = Spec::elastic(h);
		std::vector<Op> w;
		for (int i = 0; i < 4; i++) w.push_back({'S', i, i});
		w.push_back({'H', 0, 0}); w.push_back({'W', 0, 0}); w.push_back({'U', 0, 0}); w.push_back({'W', 0, 0});
		for (int i = 0; i < 4; i++) w.push_back({'S', i, 4});
		w.push_back({'H', 0, 0}); w.push_back({'U', 0, 0}); w.push_back({'W', 0, 0});
		run(h, C, w);
		X.traces++;
	}
	// internal variables of the order of 1e-12
	for (int k = 0; k < 4; k++) {
		Cfg c = conf(3, 2, 2, 2, 0, k % 2 ? 9 : 0, 1, 1, 0);
		const double f = k < 2 ? 1e-9 : 1e-11;
		for (int i = 0; i < 2; i++) c.Sy[i] *= f;
		Letters B = A3;
		for (auto &b : B) for (double &x : b) x *= f;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + " | tiny plastic strains" + show(B))) continue;
		Hist h(c, B, hc);
		h.unit = f;
		auto C = Spec::elastic(h);
		for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
			std::vector<Op> w = {{'S', 1, a}, {'S', 2, b}, {'H', 0, 0}, {'W', 0, 0}, {'U', 0, 0}, {'W', 0, 0}, {'S', 1, b}, {'S', 2, a}, {'H', 0, 0}, {'U', 0, 0}, {'W', 0, 0}};
			if (!run(h, C, w)) break;
			X.traces++;
		}
	}
	// several instances: every construction empties the files; reports of a live older instance still append
	if (X.begin("two instances alternate")) {
		Cfg a = conf(3, 2, 2, 2, 0, 0, 1, 1, 0), b = conf(2, 3, 3, 0, 1, 0.5, 0, 0, 0);
		b.E[0] = 7.7e8;
		Hist ha(a, A3, hc), hb(b, A2, hc);
		auto Ca = Spec::elastic(ha), Cb = Spec::elastic(hb);
		run(ha, Ca, {{'S', 1, 0}, {'H', 0, 0}, {'W', 0, 0}});
		if (!X.stop()) run(hb, Cb, {{'S', 1, 0}, {'H', 0, 0}, {'W', 0, 0}});
		if (!X.stop()) run(ha, Ca, {{'S', 2, 1}, {'W', 0, 0}, {'H', 0, 0}, {'U', 0, 0}});
	}
	// thousands of reports: every line of the same state is the same, and none is missing
	for (int d : {2, 3}) {
		Cfg c = d == 3 ? conf(3, 2, 2, 2, 0, 0, 1, 1, 0) : conf(2, 3, 3, 0, 0, 0.3, 0, 0, 0);
		if (!X.mine()) { X.next++; continue; }
		long N = T ? 40000 : d == 2 ? 20000 : 5000;
		if (!X.begin(c.str() + fmt(" | %ld reports of one state", N))) continue;
		Sut s(c);
		s.set(5, (d == 3 ? A3 : A2)[0].data());
		s.hom(); s.commit();
		for (long i = 0; i < N; i++) s.m->write_info_files();
		X.transitions += N;
		for (const char *f : {FE, FC, FI}) {
			std::ifstream in(f);
			std::string x, ref;
			long n = 0;
			X.checks++;
			while (std::getline(in, x)) {
				if (x.find('#') != std::string::npos || x.find_first_not_of(" \t\r") == std::string::npos) continue;
				if (n++ == 0) ref = x;
				else if (x != ref) { X.fail(fmt("%s: line %ld differs from the first one of the same state", f, n)); break; }
			}
			if (X.stop()) break;
			if (n != N) { X.fail(fmt("%s: %ld lines after %ld reports", f, n, N)); break; }
		}
		stale();
		X.traces++;
	}
	return X.finish();
}
