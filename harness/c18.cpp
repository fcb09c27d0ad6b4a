// C18: memory safety, undefined behaviour, uninitialised data and leaks.
// Built three times: with address and undefined behaviour sanitizers (variant asan),
// with allocation counting (variant count) and for valgrind (variant vg).
#include "cell.hpp"
#include "ellref.hpp"
#include <dirent.h>
#ifdef COUNT
#include "alloc_count.hpp"
#endif
#ifdef VG
#include <valgrind/memcheck.h>
#include <valgrind/valgrind.h>
static unsigned vg_errors() { return VALGRIND_COUNT_ERRORS; }
#endif

extern "C" {
void micropp_construct_(int *, int *, int *, double *, int *, double *);
void micropp_output_(int *, int *);
void micropp_get_non_linear_flag_(int *, int *);
void micropp_set_macro_strain_(int *, double *);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *, double *);
void micropp_get_macro_ctan_(int *, double *);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

static int fds()
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return 0;
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
// what one case must leave behind: nothing
struct Level {
#ifdef COUNT
	long l0 = live;
#endif
	int f0 = fds();
#ifdef VG
	unsigned e0 = vg_errors();
#endif
#ifdef COUNT
	long l1 = 0;
	Level &take() { l1 = live; return *this; }	// before any temporary of the comparison exists
#else
	Level &take() { return *this; }
#endif
	template <class F> bool check(F f)
	{
		take();
		std::string when = f();
		X.checks++;
		if (X.stop()) return false;
		int f1 = fds();
		if (f1 != f0) { X.fail(fmt("%d open files before, %d after ", f0, f1) + when); return false; }
#ifdef COUNT
		if (l1 != l0) { X.fail(fmt("%ld allocations not released ", l1 - l0) + when); return false; }
#endif
#ifdef VG
		unsigned e1 = vg_errors();
		if (e1 != e0) { X.fail(fmt("%u memory errors (uninitialised or invalid use) ", e1 - e0) + when); return false; }
#endif
		return true;
	}
};
#ifdef VG
static void defined(const void *p, size_t n) { VALGRIND_CHECK_MEM_IS_DEFINED(p, n); }
#else
static void defined(const void *, size_t) {}
#endif

// an instance driven with arrays of exactly the documented extent, each on the heap
struct Tight {
	micropp_t *m;
	int V;
	explicit Tight(const Cfg &c)
	{
		int *sz = new int[3], *mt = new int[2];
		double *mp = new double[5], *par = new double[2 * MAX_MAT_PARAM];
		c.args(sz, mp, par);
		if (c.dim == 2) sz[2] = 1, mp[2] = 0;
		mt[0] = c.mt[0]; mt[1] = c.mt[1];
		m = new micropp_t(c.dim, sz, c.type, mp, mt, par);
		V = c.V();
		delete[] sz; delete[] mt; delete[] mp; delete[] par;	// must not be kept
	}
	~Tight() { delete m; }
	void set(int id, const double *e) { double *t = new double[V]; memcpy(t, e, V * sizeof(double)); m->set_macro_strain(id, t); delete[] t; X.transitions++; }
	void get(int id)
	{
		double *s = new double[V], *t = new double[V * V];
		int *f = new int;
		for (int i = 0; i < V; i++) s[i] = 0;
		for (int i = 0; i < V * V; i++) t[i] = 0;
		m->get_macro_stress(id, s);
		m->get_macro_ctan(id, t);
		m->get_nl_flag(id, f);
		defined(s, V * sizeof(double)); defined(t, V * V * sizeof(double)); defined(f, sizeof(int));
#ifndef COUNT
		X.outcome(hash_vals(s, V));
#endif
		delete[] s; delete[] t; delete f;
		X.transitions += 3;
	}
};

static const double Y = 1e-3;
static const double E3[4][6] = {{3 * Y, 0.1 * Y, 0, 0, 0, 0}, {-2 * Y, Y, 0.3 * Y, 0.7 * Y, 3 * Y, -0.2 * Y}, {0.4 * Y, 0, 0, 0, 0.1 * Y, 0}, {0, 0, 0, 5 * Y, 0, 2 * Y}};
static void rm_outputs() { DIR *d = opendir("."); std::vector<std::string> l; while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n.compare(0, 8, "micropp_") == 0) l.push_back(n); } closedir(d); for (auto &n : l) unlink(n.c_str()); }

struct O { char k; int a, b; };
static std::string show(const std::vector<O> &w) { std::string s; for (auto &o : w) s += fmt(" %c(%d,%d)", o.k, o.a, o.b); return s; }
static void drive(Tight &s, const O &o)
{
	if (o.k == 'S') s.set(o.a, E3[o.b]);
	else if (o.k == 'H') { s.m->homogenize(); X.transitions++; }
	else if (o.k == 'U') { s.m->update_vars(); X.transitions++; }
	else if (o.k == 'G') s.get(o.a);
	else if (o.k == 'O') { s.m->output(o.b, o.a); X.transitions++; }
	else if (o.k == 'W') { s.m->write_info_files(); X.transitions++; }
}
static const std::vector<O> script = {{'H', 0, 0}, {'U', 0, 0}, {'W', 0, 0}, {'G', 1, 0}, {'O', 1, 0}, {'S', 1, 2}, {'W', 0, 0}, {'G', 1, 0}, {'O', 1, 1}, {'H', 0, 0}, {'W', 0, 0}, {'S', 2, 0}, {'G', 2, 0}, {'U', 0, 0}, {'H', 0, 0}, {'G', 1, 0}, {'G', 2, 0},
	{'U', 0, 0}, {'O', 2, 2}, {'S', 1, 1}, {'S', 3, 3}, {'H', 0, 0}, {'U', 0, 0}, {'H', 0, 0}, {'W', 0, 0}, {'O', 3, 3}, {'O', 9, 4}, {'G', 9, 0}, {'G', 3, 0}, {'U', 0, 0}, {'U', 0, 0}};

static void config(const Cfg &c, int cut)
{
	std::string d = c.str();
	if (!X.begin("configuration " + d + fmt(", %d calls", cut))) return;
	for (int i = 0; i < 2; i++) {		// second pass: lazily created library data exist already
		Level L;
		{
			Tight s(c);
			for (int j = 0; j < cut && j < (int)script.size(); j++) drive(s, script[j]);
		}
		if (i == 1 && !L.check([&] { return "by a whole life of " + d; })) return;
	}
	X.traces++;
	X.state(hash_bytes(X.desc.data(), X.desc.size()));
	rm_outputs();
}
static void words(const Cfg &c, const std::vector<O> &ops, int depth, int split)
{
	std::vector<int> pre(split, 0);
	int k = (int)ops.size();
	while (true) {
		std::vector<O> hd;
		for (int i : pre) hd.push_back(ops[i]);
		if (X.begin(c.str() + fmt(" | words of length %d:", depth) + show(hd) + " ...")) {
			std::vector<int> w(pre);
			w.resize(depth, 0);
			bool first = true;
			while (true) {
				std::vector<O> q;
				for (int i : w) q.push_back(ops[i]);
				Level L;
				{ Tight s(c); for (auto &o : q) drive(s, o); }
				if (!first && !L.check([&] { return "by" + show(q); })) break;
				first = false;
				X.traces++;
				int p = depth - 1;
				while (p >= split && ++w[p] == k) w[p--] = 0;
				if (p < split) break;
			}
			X.state(hash_bytes(X.desc.data(), X.desc.size()));
			if (!X.stop()) X.sample(X.desc);
		}
		if (X.stop()) return;
		int p = split - 1;
		while (p >= 0 && ++pre[p] == k) pre[p--] = 0;
		if (p < 0) break;
	}
	rm_outputs();
}
static void points(const Cfg &c, int np, int rounds)
{
	if (!X.begin(c.str() + fmt(" | %d points, %d rounds", np, rounds))) return;
	for (int t = 0; t < 2; t++) {
		Level L;
		{
			Tight s(c);
			for (int r = 0; r < rounds; r++) {
				for (int i = 0; i < np; i++) s.set(i * 13 - 50, E3[(i + r) % 4]);
				s.m->homogenize(); s.m->update_vars(); s.m->write_info_files();
				X.transitions += 3;
				for (int i = 0; i < np; i += 7) s.get(i * 13 - 50);
			}
		}
		if (t == 1) L.check([] { return std::string(); });
	}
	X.traces++;
	rm_outputs();
}
static void matrix(const Grid &g)
{
	if (!X.begin("matrix " + g.str())) return;
	int N = g.N();
	for (int t = 0; t < 2; t++) {
		Level L;
		{
			std::vector<double> b(N, 1.0), x(N, 0.0), y(N);
			Ell M(g);
			M.zero();
			for (int e = 0; e < g.nelem(); e++) {
				Vec Ae((size_t)g.ed() * g.ed(), 0.0);
				for (int i = 0; i < g.ed(); i++) for (int j = 0; j < g.ed(); j++) Ae[(size_t)i * g.ed() + j] = i == j ? g.ed() + 1 : -0.5;
				M.add(e, Ae);
			}
			M.mul(b);
			M.bc();
			M.mul(b);
			for (int mx : {1, 3, 50}) {
				ell_solver so;
				so.max_its = mx; so.min_tol = 1e-6;
				for (int st = 0; st < 2; st++) {
					std::fill(x.begin(), x.end(), 0.0);
					double *xb = new double[N], *bb = new double[N];
					for (int i = 0; i < N; i++) { xb[i] = st ? 1 : 0; bb[i] = b[i]; }
					ell_solve_cgpd_struct(&so, &M.m, g.nf, g.dim, g.nn(), bb, xb);
					defined(xb, N * sizeof(double)); defined(&so, sizeof so);
					if (g.dim == 2) {
						for (int i = 0; i < N; i++) xb[i] = st ? 1 : 0;
						ell_solve_cgpd_2D(&so, &M.m, g.nf, g.n[0], g.n[1], bb, xb);
						defined(xb, N * sizeof(double)); defined(&so, sizeof so);
						for (int i = 0; i < N; i++) xb[i] = st ? 1 : 0;
						ell_solve_jacobi_2D(&so, &M.m, g.nf, g.n[0], g.n[1], bb, xb);
						defined(xb, N * sizeof(double)); defined(&so, sizeof so);
					}
					X.transitions += 3;
					delete[] xb; delete[] bb;
				}
			}
			ell_solver so;
			so.max_its = 3; so.min_tol = 1e-6;
			ell_solve_cgpd_2D(&so, nullptr, 1, 2, 2, b.data(), x.data());
			ell_solve_cgpd_struct(&so, &M.m, g.nf, g.dim, g.nn(), nullptr, x.data());
			ell_solve_jacobi_2D(&so, &M.m, g.nf, g.n[0], g.n[1], b.data(), nullptr);
			if (t == 0 && N < 60) { std::streambuf *o = std::cout.rdbuf(nullptr); ell_print(&M.m); ell_print(nullptr); std::cout.rdbuf(o); std::cout.clear(); }
		}
		if (t == 1) L.check([] { return std::string(); });
	}
	X.traces++;
	X.state(hash_bytes(X.desc.data(), X.desc.size()));
}
static void wrapper(const Cfg &c, int reps)
{
	if (!X.begin("wrapper " + c.str())) return;
	for (int r = 0; r < reps; r++) {
		Level L;
		int *sz = new int[3], *mt = new int[2], *dim = new int(c.dim), *ty = new int(c.type);
		double *mp = new double[5], *par = new double[2 * MAX_MAT_PARAM];
		c.args(sz, mp, par);
		mt[0] = c.mt[0]; mt[1] = c.mt[1];
		micropp_construct_(dim, sz, ty, mp, mt, par);
		delete[] sz; delete[] mt; delete[] mp; delete[] par; delete dim; delete ty;
		int V = c.V();
		for (auto &o : script) {
			int *id = new int(o.a), *st = new int(o.b);
			double *v = new double[V], *t = new double[V * V];
			for (int i = 0; i < V; i++) v[i] = o.k == 'S' ? E3[o.b][i] : 0;
			if (o.k == 'S') micropp_set_macro_strain_(id, v);
			else if (o.k == 'H') micropp_homogenize_();
			else if (o.k == 'U') micropp_update_internal_variables_();
			else if (o.k == 'G') { micropp_get_macro_stress_(id, v); micropp_get_macro_ctan_(id, t); micropp_get_non_linear_flag_(id, st); }
			else if (o.k == 'O') micropp_output_(st, id);
			else micropp_write_convergence_file_();
			delete id; delete st; delete[] v; delete[] t;
			X.transitions++;
		}
		if (r >= 2 && !L.check([&] { return fmt("by use %d of the wrapper", r); })) return;
	}
	X.traces++;
	rm_outputs();
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	bool T = X.thorough;
#ifdef VG
	const int slow = 2;
#elif defined(COUNT)
	const int slow = 0;
#else
	const int slow = 1;
#endif
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double itol) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.L[0] = 1; c.L[1] = 1.5; c.L[2] = 0.75;
		c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = m0;
		c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		return c;
	};
	int all = (int)script.size();
	// all small grids, microstructures and material types
	int h2 = slow == 2 ? (T ? 5 : 4) : T ? 8 : 6, h3 = slow == 2 ? 3 : T ? 5 : 4;
	for (int type = 0; type < 2; type++) for (int mt = 0; mt < 9; mt++) {
		if (slow == 2 && !T && mt % 4) continue;
		for (int x = 2; x <= h2; x++) for (int y = 2; y <= h2; y++) config(conf(2, x, y, 0, type, 0.45, mt / 3, mt % 3, mt % 2 ? 1e6 : 0), all);
		for (int x = 2; x <= h3; x++) for (int y = 2; y <= h3; y++) for (int z = 2; z <= h3; z++) {
			if (x * y * z > (slow == 2 ? 12 : T ? 64 : 27) && !(mt == 4 && slow < 2 && x * y * z <= 48) && !(mt == 4 && type == 0 && x * y * z == 27)) continue;
			config(conf(3, x, y, z, type, 0.45, mt / 3, mt % 3, mt % 2 ? 4e6 : 0), all);
		}
	}
	for (double w : {0.0, 5.0}) for (int d = 2; d <= 3; d++) for (int type = 0; type < 2; type++) config(conf(d, 3, 3, 3, type, w, 1, 1, 0), slow == 2 ? 8 : all);
	if (slow < 2) for (auto n : std::vector<std::vector<int>>{{2, 40, 0}, {40, 2, 0}, {15, 13, 0}, {2, 2, 20}, {2, 20, 2}, {20, 2, 2}, {5, 6, 5}}) config(conf(n[2] ? 3 : 2, n[0], n[1], n[2], 1, 0.5, 0, 1, 0), n[0] == 5 ? 8 : all);
	// lives that end after every prefix of the script
	for (int cut = 0; cut <= all; cut++) { config(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), cut); config(conf(2, 3, 3, 0, 0, 0.4, 0, 0, 0), cut); if (slow < 2) config(conf(3, 3, 3, 3, 1, 0.6, 1, 0, 0), cut); }
	// operation words
	std::vector<O> ops = {{'S', 1, 0}, {'S', 1, 2}, {'S', 2, 1}, {'H', 0, 0}, {'U', 0, 0}, {'G', 1, 0}, {'O', 1, 0}, {'W', 0, 0}};
	std::vector<O> core = {{'S', 1, 0}, {'S', 2, 2}, {'H', 0, 0}, {'U', 0, 0}};
	words(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), ops, slow == 2 ? (T ? 4 : 3) : T ? 6 : slow ? 4 : 5, 2);
	words(conf(3, 2, 2, 2, 0, 0, 1, 1, 4e6), core, slow == 2 ? 4 : T ? 8 : slow ? 6 : 7, 2);
	words(conf(2, 3, 3, 0, 0, 0.4, 0, 0, 0), ops, slow == 2 ? (T ? 3 : 2) : T ? 5 : slow ? 3 : 4, 2);
	if (slow < 2) words(conf(3, 3, 3, 3, 1, 0.6, 1, 0, 0), ops, T ? 4 : 3, 2);
	for (int np : {1, 10, slow == 2 ? 20 : 200}) points(conf(3, 2, 2, 2, 0, 0, 1, 1, 0), np, slow == 2 ? 2 : 6);
	points(conf(2, 3, 3, 0, 0, 0.4, 0, 0, 0), slow == 2 ? 10 : 100, 3);
	if (slow < 2) points(conf(3, 3, 3, 3, 1, 0.6, 1, 0, 0), 20, T ? 20 : 6);
	// structured matrices
	for (int nf = 1; nf <= 4; nf++) {
		for (auto &g : grids(2, 2, slow == 2 ? 4 : T ? 9 : 7, nf)) matrix(g);
		for (auto &g : grids(3, 2, slow == 2 ? 3 : T ? 5 : 4, nf)) if (slow < 2 || nf == 1 || nf == 3) matrix(g);
	}
	matrix(Grid{2, {3, 30, 1}, 2}); matrix(Grid{2, {30, 3, 1}, 2});
	for (auto &c : {conf(3, 2, 2, 2, 0, 0, 1, 1, 0), conf(2, 3, 4, 0, 1, 0.6, 0, 0, 1e5), conf(3, 3, 3, 3, 1, 0.6, 1, 0, 0)}) if (slow < 2 || c.n[0] == 2) wrapper(c, slow == 2 ? 3 : 6);
	return X.finish();
}
