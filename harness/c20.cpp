// C20: Newton iterations: termination, truth of the reports, convergence.
#include "model.hpp"

static bool bad(const std::string &m) { X.fail(m); return false; }
struct Rep { double flag, inv; std::vector<double> its, err; };

// one more report line; returns the block of every point
static bool report(Sut &s, size_t points, std::vector<Rep> &out, const std::string &when)
{
	unlink("micropp_convergence.dat");
	s.m->write_info_files();
	X.transitions++;
	unlink("micropp_eps_sig_ctan.dat"); unlink("micropp_int_vars_n.dat");
	auto L = read_report("micropp_convergence.dat");
	X.checks++;
	if (L.size() != 1 || L[0].size() != points) return bad("convergence report missing " + when);
	out.clear();
	for (auto &b : L[0]) {
		if ((int)b.size() != 2 + 2 * (1 + s.V)) return bad("convergence report has a wrong number of columns " + when);
		Rep r;
		r.flag = b[0]; r.inv = b[1];
		for (int i = 0; i <= s.V; i++) { r.its.push_back(b[2 + 2 * i]); r.err.push_back(b[3 + 2 * i]); }
		out.push_back(r);
	}
	return true;
}
enum Want { TERMINATES, CONVERGES, ELASTIC };

static bool judge(const Cfg &c, const Rep &r, Want w, bool shortcut, bool inner, const std::string &when)
{
	for (size_t i = 0; i < r.its.size(); i++) {
		double n = r.its[i], e = r.err[i];
		std::string d = fmt("solve %zu reports %g iterations and error %g ", i, n, e) + when;
		if (n != floor(n) || n < 0 || n > 40) return bad(d);
		if (w != TERMINATES && std::isnan(e)) return bad(d);
		if (e < 0) return bad(d);
		if (n < 40 && !std::isnan(e) && !(e < 1.000001e-5)) return bad(d + ": stopped early");
		if (shortcut && (n != 0 || e != 0)) return bad(d + ": the shortcut does not iterate");
		if (w == CONVERGES && n >= 40) return bad(d + ": not converged");
		if (w == ELASTIC && n > 2) return bad(d + ": more than two iterations in an elastic cell");
		if (!inner && (n != 0 || e != 0)) return bad(d + ": nothing to solve without inner nodes");
		X.outcome((uint64_t)n * 1000003 + (uint64_t)(e > 0 ? 400 + std::log10(e) * 4 : 0));
	}
	return true;
}
static bool has_inner(const Cfg &c) { for (int d = 0; d < c.dim; d++) if (c.n[d] < 3) return false; return true; }
// residual written to the output file for the same strain and committed state
static bool field_norm(Sut &s, int id, double err, double its, const std::string &when, double slack = 5e-8)
{
	s.m->output(0, id);
	X.transitions++;
	Vtu v = read_vtu(id, 0);
	unlink(fmt("micropp_%d_0.vtu", id).c_str());
	std::vector<double> b;
	X.checks++;
	if (!v.ok || !v.array("b", b)) return bad("no residual field " + when);
	double n = 0;
	for (double x : b) n += x * x;
	n = std::sqrt(n);
	if (slack == INFINITY && !(n <= 1e3 * err + 1e-3 && err <= 1e3 * n + 1e-3)) return bad(fmt("a residual of %g is reported, residual forces have norm %g ", err, n) + when);
	if (slack == INFINITY) return true;
	if (its < 40 && !(n < 1.0001e-5)) return bad(fmt("residual forces of norm %g in the output file ", n) + when);
	if (its < 40 && !(std::fabs(n - err) <= 0.02 * std::fmax(n, err) + slack)) return bad(fmt("reported residual %g, residual forces have norm %g ", err, n) + when);
	return true;
}

static void elastic(const Cfg &c)
{
	if (!X.mine()) { X.next++; return; }
	if (!X.begin("elastic " + c.str())) return;
	ref::Cell R = c.cell();
	bool inner = has_inner(c);
	auto D = dirs(c.dim, true);
	std::vector<double> z(6, 0);
	D.push_back(std::vector<double>(c.V(), 0.0));
	Sut s(c);
	bool mixed = false;
	for (int m : R.emat) if (m != R.emat[0]) mixed = true;
	int q = 0;
	for (double amp : {1e-3, -5.0, 1e-7}) for (auto &d : D) {
		std::vector<double> e(d);
		for (double &x : e) x *= amp;
		s.set(2, e.data());
		s.hom();
		std::vector<Rep> r;
		std::string when = "for strain " + vec(e.data(), c.V());
		if (!report(s, 1, r, when)) return;
		// large strains in stiff cells: rounding of the forces alone exceeds the tolerance
		double force = c.Emax() * std::fabs(amp) * (c.dim == 3 ? c.Lmax() * c.Lmax() : c.Lmax());
		Want w = force * 1e-14 * std::sqrt((double)c.nnode()) < 1e-7 ? ELASTIC : TERMINATES;
		if (!judge(c, r[0], w, false, inner, when)) return;
		if (q == 0 && mixed && inner) {
			// the very first solution of a mixed cell cannot come for free
			double m = 0;
			ref::Result rr = R.solve(e.data(), {}, false);
			std::vector<double> aff;
			R.affine(e.data(), aff);
			for (size_t i = 0; i < aff.size(); i++) m = std::fmax(m, std::fabs(aff[i] - rr.u[i]));
			X.checks++;
			if (m > 1e-6 && r[0].its[0] < 1) { X.fail("0 iterations reported for a cell that is not in equilibrium at the start " + when); return; }
		}
		if (w == ELASTIC) {
			auto g = s.sig(2);
			auto want = R.solve(e.data(), {}, false).sig;
			if (!same(("stress " + when).c_str(), g.data(), want.data(), c.V(), 5 * c.stol() + 1e-7 * amax(want.data(), c.V()))) return;
			if (q % 5 == 0 && !field_norm(s, 2, r[0].err[0], r[0].its[0], when, 1e-10 + 1e-14 * force * std::sqrt((double)c.nnode()))) return;
		}
		if (w == TERMINATES && q % 5 == 1 && !field_norm(s, 2, r[0].err[0], r[0].its[0], when, INFINITY)) return;
		q++;
		X.traces++;
		X.state(hash_vals(e.data(), c.V(), hash_bytes(c.str().data(), c.str().size())));
	}
	X.sample(c.str());
}

// histories with commits; every evaluation of every history is judged
static void history(const Cfg &c, const Letters &A, int depth, Want w, bool oracle)
{
	HistCheck hc;
	Hist h(c, A, hc);
	bool inner = has_inner(c);
	int k = (int)A.size();
	for (int f = 0; f < k; f++) {
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(c.str() + fmt(" | histories of length %d over %d letters starting with ", depth, k) + vec(A[f].data(), 6))) continue;
		std::vector<int> q(depth, 0);
		q[0] = f;
		while (true) {
			Sut s(c);
			RNode *n = &h.root;
			for (int i = 0; i < depth; i++) {
				s.set(1, A[q[i]].data());
				s.hom();
				std::string when = "after " + h.word(q, i);
				std::vector<Rep> r;
				if (!report(s, 1, r, when)) return;
				if (!judge(c, r[0], w, false, inner, when)) return;
				if (oracle) {
					n = h.next(n, q[i]);
					if (n->r.ok) {
						auto g = s.sig(1);
						if (!same(("stress " + when).c_str(), g.data(), n->r.sig.data(), 6, 5 * c.stol() + 1e-6 * amax(n->r.sig.data(), 6))) return;
					}
				}
				if (w != TERMINATES && i + 1 == depth && !field_norm(s, 1, r[0].err[0], r[0].its[0], when)) return;
				double st[2] = {r[0].its[0], r[0].err[0]};
				X.state(hash_vals(st, 2, hash_bytes(c.str().data(), c.str().size())));
				s.commit();
			}
			X.traces++;
			int p = depth - 1;
			while (p >= 1 && ++q[p] == k) q[p--] = 0;
			if (p < 1) break;
		}
		X.sample(X.desc);
	}
}
// several points, some on the shortcut, in one instance
static void mixed_points(const Cfg &c, const Letters &A, int depth)
{
	HistCheck hc;
	Hist h(c, A, hc);
	auto C = Spec::elastic(h);
	bool inner = has_inner(c);
	std::vector<Op> ops;
	for (int id : {1, 2}) for (int l = 0; l < (int)A.size(); l++) ops.push_back({'S', id, l});
	ops.push_back({'H', 0, 0}); ops.push_back({'U', 0, 0});
	words(ops, depth, 2, "points " + c.str() + show(A), [&](const std::vector<Op> &w) {
		Sut s(c);
		Spec m(h, C);
		for (size_t i = 0; i < w.size(); i++) {
			apply(s, m, w[i]);
			if (m.ambiguous) return true;
		}
		s.hom(); m.hom();
		if (m.ambiguous) return true;
		std::vector<Rep> r;
		std::string when = "after " + show(w) + " homogenize";
		if (!report(s, m.gp.size(), r, when)) return false;
		for (size_t i = 0; i < m.gp.size(); i++) if (!judge(c, r[i], CONVERGES, m.gp[i].shortcut, inner, fmt("(point %d) ", m.gp[i].id) + when)) return false;
		return true;
	});
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double E, double ratio) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
		c.E[0] = E; c.nu[0] = 0.25; c.Sy[0] = E * 1e-3; c.Ka[0] = E * 0.05; c.mt[0] = m0;
		c.E[1] = ratio * E; c.nu[1] = 0.3; c.Sy[1] = E * 3e-3; c.Ka[1] = E * 0.1; c.mt[1] = m1;
		c.settle();
		return c;
	};
	for (double ratio : {3.0, 200.0, 0.05}) for (int type = 0; type < 2; type++) {
		for (int x = 2; x <= (T ? 7 : 5); x++) for (int y = 2; y <= (T ? 7 : 5); y++) elastic(conf(2, x, y, 0, type, 0.45, 0, 2, 1e6, ratio));
		for (int x = 2; x <= (T ? 5 : 4); x++) for (int y = 2; y <= (T ? 5 : 4); y++) for (int z = 2; z <= (T ? 5 : 4); z++) elastic(conf(3, x, y, z, type, 0.45, 0, 2, 1e6, ratio));
	}
	// so stiff that rounding alone exceeds the tolerance: all 40 iterations, and the report says so
	for (double E : {1e13, 1e15, 1e18}) for (int type = 0; type < 2; type++) {
		elastic(conf(2, 4, 5, 0, type, 0.45, 0, 2, E, 3));
		elastic(conf(3, 3, 3, 3, type, 0.45, 0, 2, E, 3));
		if (T) elastic(conf(3, 4, 3, 5, type, 0.45, 0, 2, E, 3));
	}
	for (auto n : std::vector<std::vector<int>>{{20, 20, 0}, {40, 3, 0}, {7, 6, 5}, {3, 3, 15}}) elastic(conf(n[2] ? 3 : 2, n[0], n[1], n[2], 0, 0.3, 0, 0, 1e6, 10));
	const double y = 1e-3;
	Letters A = plast_letters(y, 2);
	Letters big = {{0.05, 0, 0, 0, 0, 0}, {-0.05, 0.02, 0, 0, 0.08, 0}, {0, 0, 0, 0.1, 0, 0}, {1e-4, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}};
	for (int m = 0; m < 3; m++) {
		int m0 = m != 1, m1 = m != 0;
		history(conf(3, 3, 3, 3, 1, 0.5, m0, m1, 1e9, 2), A, T ? 3 : 2, CONVERGES, true);
		history(conf(3, 3, 4, 3, 0, 0.4, m0, m1, 1e9, 2), A, 2, CONVERGES, true);
		history(conf(3, 4, 4, 4, 0, 0.4, m0, m1, 1e9, 2), A, T ? 2 : 1, CONVERGES, true);
		history(conf(3, 3, 3, 3, 1, 0.5, m0, m1, 1e7, 20), plast_letters(y, 1), T ? 3 : 2, CONVERGES, true);
		history(conf(3, 3, 3, 3, 1, 0.5, m0, m1, 1e7, 0.1), big, T ? 3 : 2, CONVERGES, true);
		history(conf(3, 4, 3, 5, 1, 0.5, m0, m1, 1e8, 3), big, T ? 2 : 1, CONVERGES, true);
	}
	history(conf(3, 2, 2, 2, 0, 0, 1, 1, 1e9, 2), A, T ? 4 : 3, CONVERGES, true);
	// weak hardening and no hardening: must end and report truly, convergence is not promised
	for (double ka : {1e-6, 0.0, -0.02}) for (double f : {1.0, 30.0}) {
		Cfg c = conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1e8, 3);
		for (int i = 0; i < 2; i++) c.Ka[i] = ka * c.E[i];
		history(c, plast_letters(y * f, 1), T ? 3 : 2, TERMINATES, false);
		Cfg d = conf(3, 4, 4, 3, 0, 0.4, 1, 0, 1e8, 30);
		for (int i = 0; i < 2; i++) d.Ka[i] = ka * d.E[i];
		history(d, plast_letters(y * f, 0), T ? 2 : 1, TERMINATES, false);
	}
	{ Cfg c = conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1e12, 5); history(c, plast_letters(1, 0), 2, TERMINATES, false); }
	{ Cfg c = conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1e8, 3); c.Sy[0] = 0; history(c, plast_letters(y, 1), 2, TERMINATES, false); }
	// shortcut and full evaluations side by side
	Letters S = {{0.4 * y, 0, 0, 0, 0, 0}, {3 * y, 0, 0, 0, 0, 0}, {0, 0, 0, 4 * y, 0, 0}};
	{ Cfg c = conf(3, 3, 3, 3, 1, 0.5, 1, 1, 1e9, 2); c.inv_tol = 3e6; mixed_points(c, S, T ? 5 : 4); }
	{ Cfg c = conf(3, 2, 2, 2, 1, 0.5, 1, 1, 1e9, 2); c.inv_tol = 3e6; mixed_points(c, S, T ? 6 : 5); }
	// old instances: the reports of the last evaluations are those of the first
	for (int k = 0; k < 3; k++) {
		Cfg c; c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 1e8;
		c.type = 1; c.width = 0.5; c.n[0] = c.n[1] = c.n[2] = 3;
		if (k < 2) { c.dim = 2; c.n[0] = k ? 9 : 3; c.n[1] = k ? 8 : 3; c.type = !k; c.width = k ? 0.31 : 0.5; } else c.mt[0] = c.mt[1] = 1;
		c.settle();
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("old age " + c.str())) continue;
		long N = (k == 0 ? 70000 : k == 1 ? 3000 : 1100) * (X.thorough ? 8L : 1);
		std::vector<std::vector<double>> A = {{3e-3, 0, 0, 0, 0, 0}, {-2e-3, 1e-3, 0, 0, 3e-3, 0}, {0.4e-3, 0, 0, 0, 0, 0}};
		std::vector<std::vector<Rep>> first(3);
		Sut s(c);
		bool ok = true;
		for (long i = 0; i < N + 3 && ok; i++) {
			s.set(2, A[i % 3].data());
			s.hom();
			bool look = i < 3 || i >= N || i % 10007 < 3;
			if (!look) continue;
			std::vector<Rep> r;
			std::string when = fmt("in evaluation %ld, strain ", i) + vec(A[i % 3].data(), c.V());
			ok = report(s, 1, r, when) && judge(c, r[0], c.dim == 2 ? ELASTIC : CONVERGES, false, true, when);
			if (!ok) break;
			if (i < 3) first[i] = r;
			else if (r[0].its != first[i % 3][0].its || r[0].err != first[i % 3][0].err) { X.fail("other iterations or residuals than in the first evaluation of this strain " + when); ok = false; }
			X.state(hash_bytes(when.data(), when.size()));
		}
		if (ok) X.traces++;
	}
	return X.finish();
}
