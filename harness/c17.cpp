// C17: the C/Fortran entry points against the C++ interface, all call sequences.
#include "cell.hpp"
#include <dirent.h>
#include <functional>
#include <map>
#include <new>

// live allocations of the process (malloc is wrapped by the linker, new is replaced here)
static long live = 0, live_bytes = 0;
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" size_t malloc_usable_size(void *);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__wrap_calloc(size_t n, size_t k) { void *p = __real_calloc(n, k); if (p) { live++; live_bytes += malloc_usable_size(p); } return p; }
extern "C" void *__wrap_realloc(void *q, size_t n)
{
	if (q) { live--; live_bytes -= malloc_usable_size(q); }
	void *p = __real_realloc(q, n);
	if (p) { live++; live_bytes += malloc_usable_size(p); }
	return p;
}
extern "C" void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { live++; live_bytes += malloc_usable_size(p); } return p; }
extern "C" void __wrap_free(void *p) { if (p) { live--; live_bytes -= malloc_usable_size(p); } __real_free(p); }
void *operator new(size_t n) { void *p = __wrap_malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

extern "C" {
void micropp_construct_(int *, int *, int *, double *, int *, double *);
void micropp_output_(int *, int *);
void micropp_get_non_linear_flag_(int *, int *);
void micropp_set_macro_strain_(int *, double *);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *, double *);
void micropp_get_macro_ctan_(int *, double *);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

struct O { char k; int a, b; };

struct Trace {
	std::vector<double> v;			// everything a caller sees
	std::map<std::string, std::string> f;	// final files
};

static std::map<std::string, std::string> listing()
{
	std::map<std::string, std::string> r;
	DIR *d = opendir(".");
	while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r[n] = slurp(n); }
	closedir(d);
	return r;
}
static void wipe() { DIR *d = opendir("."); std::vector<std::string> l; while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") l.push_back(n); } closedir(d); for (auto &n : l) unlink(n.c_str()); }

static double E3[4][6] = {{3e-3, 1e-4, 0, 0, 0, 0}, {-2e-3, 1e-3, 3e-4, 7e-4, 3e-3, -2e-4}, {4e-4, 0, 0, 0, 1e-4, 0}, {0, 0, 0, 5e-3, 0, 2e-3}};

// guarded buffers
struct Buf { double v[40]; Buf(double g) { for (double &x : v) x = g; } };

static void observe(Trace &t, const double *v, int n) { t.v.insert(t.v.end(), v, v + n); }

static void cpp(const std::vector<Cfg> &C, const std::vector<O> &w, Trace &t)
{
	Sut *s = nullptr;
	for (auto &o : w) {
		if (o.k == 'C') { delete s; s = new Sut(C[o.a]); }
		else if (o.k == 'S') { double e[6]; memcpy(e, E3[o.b], sizeof e); s->m->set_macro_strain(o.a, e); observe(t, e, 6); }
		else if (o.k == 'H') s->m->homogenize();
		else if (o.k == 'U') s->m->update_vars();
		else if (o.k == 'O') s->m->output(o.b, o.a);
		else if (o.k == 'W') s->m->write_info_files();
		else if (o.k == 'G') {
			Buf a(-77), b(-78);
			int f[3] = {-79, -79, -79};
			s->m->get_macro_stress(o.a, a.v + 1);
			s->m->get_macro_ctan(o.a, b.v + 1);
			s->m->get_nl_flag(o.a, f + 1);
			observe(t, a.v, 40); observe(t, b.v, 40);
			for (int x : f) t.v.push_back(x);
		}
	}
	t.f = listing();
	delete s;
}
static void wrap(const std::vector<Cfg> &C, const std::vector<O> &w, Trace &t)
{
	for (auto &o : w) {
		X.transitions++;
		int id[3] = {11, o.a, 12}, st[3] = {13, o.b, 14};
		if (o.k == 'C') {
			const Cfg &c = C[o.a];
			int sz[3], dim = c.dim, ty = c.type, mt[2] = {c.mt[0], c.mt[1]};
			double mp[5], par[2 * MAX_MAT_PARAM];
			c.args(sz, mp, par);
			int sz0[3]; double mp0[5], par0[2 * MAX_MAT_PARAM];
			memcpy(sz0, sz, sizeof sz); memcpy(mp0, mp, sizeof mp); memcpy(par0, par, sizeof par);
			micropp_construct_(&dim, sz, &ty, mp, mt, par);
			if (memcmp(sz0, sz, sizeof sz) || memcmp(mp0, mp, sizeof mp) || memcmp(par0, par, sizeof par) || dim != c.dim || ty != c.type || mt[0] != c.mt[0] || mt[1] != c.mt[1]) X.fail("construct changed its arguments");
		} else if (o.k == 'S') { double e[6]; memcpy(e, E3[o.b], sizeof e); micropp_set_macro_strain_(id + 1, e); observe(t, e, 6); }
		else if (o.k == 'H') micropp_homogenize_();
		else if (o.k == 'U') micropp_update_internal_variables_();
		else if (o.k == 'O') micropp_output_(st + 1, id + 1);
		else if (o.k == 'W') micropp_write_convergence_file_();
		else if (o.k == 'G') {
			Buf a(-77), b(-78);
			int f[3] = {-79, -79, -79};
			micropp_get_macro_stress_(id + 1, a.v + 1);
			micropp_get_macro_ctan_(id + 1, b.v + 1);
			micropp_get_non_linear_flag_(id + 1, f + 1);
			observe(t, a.v, 40); observe(t, b.v, 40);
			for (int x : f) t.v.push_back(x);
		}
		if (id[0] != 11 || id[1] != o.a || id[2] != 12 || st[0] != 13 || st[1] != o.b || st[2] != 14) X.fail(fmt("call %c changed a scalar argument", o.k));
	}
	t.f = listing();
}
static std::string show(const std::vector<O> &w)
{
	std::string s;
	for (auto &o : w) s += o.k == 'C' ? fmt(" construct(%d)", o.a) : o.k == 'S' ? fmt(" set(%d,e%d)", o.a, o.b) : o.k == 'G' ? fmt(" get(%d)", o.a) : o.k == 'O' ? fmt(" output(%d,%d)", o.b, o.a)
		: o.k == 'H' ? " homogenize" : o.k == 'U' ? " update" : " report";
	return s;
}

static bool run(const std::vector<Cfg> &C, const std::vector<O> &w)
{
	Trace a, b;
	wipe();
	cpp(C, w, a);
	wipe();
	wrap(C, w, b);
	X.checks++;
	if (X.stop()) return false;
	if (a.v.size() != b.v.size()) { X.fail("different numbers of results after" + show(w)); return false; }
	for (size_t i = 0; i < a.v.size(); i++) if (memcmp(&a.v[i], &b.v[i], 8)) { X.fail(fmt("value %zu seen by the caller is %.17g, the C++ interface gives %.17g after", i, b.v[i], a.v[i]) + show(w)); return false; }
	for (auto &f : a.f) { if (!b.f.count(f.first)) { X.fail("file " + f.first + " missing after" + show(w)); return false; } if (b.f[f.first] != f.second) { X.fail("file " + f.first + " differs after" + show(w)); return false; } }
	for (auto &f : b.f) if (!a.f.count(f.first)) { X.fail("extra file " + f.first + " after" + show(w)); return false; }
	X.traces++;
	X.outcome(hash_vals(a.v.data(), a.v.size()));
	uint64_t h = hash_vals(a.v.data(), a.v.size());
	for (auto &f : a.f) h = hash_bytes(f.second.data(), f.second.size(), h);
	X.state(h);
	return true;
}

static void words(const char *nm, const std::vector<Cfg> &C, const std::vector<O> &ops, int depth, int split)
{
	std::vector<int> pre(split, 0);
	int k = (int)ops.size();
	while (true) {
		std::vector<O> hd = {{'C', 0, 0}};
		for (int i : pre) hd.push_back(ops[i]);
		if (X.begin(std::string(nm) + fmt(" | words of length %d:", depth) + show(hd) + " ...")) {
			std::vector<int> w(pre);
			w.resize(depth, 0);
			while (true) {
				std::vector<O> q = {{'C', 0, 0}};
				for (int i : w) q.push_back(ops[i]);
				// everything is looked at in the end
				std::set<int> ids;
				for (auto &o : ops) if (o.k == 'S' || o.k == 'G') ids.insert(o.a);
				for (int id : ids) q.push_back({'G', id, 0});
				if (!run(C, q)) break;
				int p = depth - 1;
				while (p >= split && ++w[p] == k) w[p--] = 0;
				if (p < split) break;
			}
			if (!X.stop()) X.sample(X.desc);
		}
		if (X.stop()) return;
		int p = split - 1;
		while (p >= 0 && ++pre[p] == k) pre[p--] = 0;
		if (p < 0) break;
	}
}

// constructing again releases what the previous instance held
static void release(const std::vector<Cfg> &C)
{
	int n = (int)C.size();
	for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int use = 0; use < 4; use++) {
		if (!X.begin(fmt("memory after re-construction: configuration %d, then %d, use %d", a, b, use))) continue;
		wipe();
		Trace t;
		auto base = [&](int c) { std::vector<O> w = {{'C', c, 0}}; Trace q; wrap(C, w, q); };
		std::vector<O> w = {{'C', a, 0}};
		for (int r = 0; r < use; r++) {
			for (int id = 0; id < 5; id++) w.push_back({'S', id, id % 4});
			w.push_back({'H', 0, 0}); w.push_back({'U', 0, 0}); w.push_back({'W', 0, 0}); w.push_back({'O', r, 2}); w.push_back({'G', 3, 0});
		}
		// reference level: construct b twice (anything before is gone)
		base(b); base(b);
		long l0 = live, b0 = live_bytes;
		{ Trace q; wrap(C, w, q); }
		base(b);
		X.checks++;
		if (live != l0 || live_bytes > b0 + 4096) { X.fail(fmt("%ld allocations (%ld bytes) live after re-construction, %ld (%ld bytes) before", live, live_bytes, l0, b0)); return; }
		long l1 = live;
		for (int r = 0; r < 20; r++) { Trace q; wrap(C, w, q); }
		base(b);
		if (live != l1) { X.fail(fmt("%ld allocations live after 20 more re-constructions, %ld before", live, l1)); return; }
		X.traces++;
		X.state(hash_bytes(X.desc.data(), X.desc.size()));
	}
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	if (mkdir("d", 0755) && errno != EEXIST) return 3;
	if (chdir("d")) return 3;
	bool T = X.thorough;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double itol) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.L[0] = 1; c.L[1] = 1.5; c.L[2] = 0.75;
		c.E[0] = 1e9; c.nu[0] = 0.25; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = m0;
		c.E[1] = 2e9; c.nu[1] = 0.3; c.Sy[1] = 3e6; c.Ka[1] = 2e8; c.mt[1] = m1;
		return c;
	};
	Cfg one = conf(3, 2, 2, 2, 0, 0, 1, 0, 0), row = conf(3, 2, 3, 2, 1, 0.6, 1, 1, 0), box = conf(3, 3, 3, 3, 1, 0.6, 1, 0, 0), sc = conf(3, 2, 2, 2, 0, 0.9, 0, 1, 4e6), flat = conf(2, 4, 3, 0, 0, 0.4, 0, 2, 0), flat2 = conf(2, 3, 3, 0, 1, 0.6, 1, 0, 1e6);
	std::vector<O> full = {{'S', 1, 0}, {'S', 1, 1}, {'S', -2, 3}, {'H', 0, 0}, {'U', 0, 0}, {'G', 1, 0}, {'O', 1, 3}, {'W', 0, 0}, {'C', 1, 0}};
	std::vector<O> core = {{'S', 1, 0}, {'S', 1, 2}, {'H', 0, 0}, {'U', 0, 0}, {'C', 0, 0}};
	std::vector<O> ids = {{'S', 5, 0}, {'S', -5, 1}, {'S', 2147483647, 2}, {'H', 0, 0}, {'U', 0, 0}, {'G', 6, 0}, {'O', -5, 0}, {'O', 6, -1}};
	// long lives without re-construction: every word of length n occurs one after the other, all points are looked at after every evaluation and commit
	auto life = [&](const char *nm, const std::vector<Cfg> &C, const std::vector<O> &ops, int n) {
		if (!X.begin(fmt("long life, all words of length %d: ", n) + nm)) return;
		std::vector<O> q = {{'C', 0, 0}};
		std::set<int> ids;
		for (auto &o : ops) if (o.k == 'S' || o.k == 'G') ids.insert(o.a);
		for (int k : de_bruijn((int)ops.size(), n)) { q.push_back(ops[k]); if (ops[k].k == 'H' || ops[k].k == 'U') for (int id : ids) q.push_back({'G', id, 0}); }
		run(C, q);
	};
	std::vector<O> nocon(full.begin(), full.end() - 1), hist = {{'S', 1, 2}, {'H', 0, 0}, {'S', 1, 0}, {'U', 0, 0}};
	// the first calls of a process: uncommitted flow, then a probe; commits that must not get lost
	for (int par = 0; par < 4; par++) {
		if (!X.begin(fmt("first calls %d", par))) continue;
		std::vector<O> q = {{'C', 0, 0}};
		if (par & 1) { q.push_back({'S', 1, 2}); q.push_back({'H', 0, 0}); }
		for (int r = 0; r < 40; r++) {
			q.push_back({'S', 1, r % 2 ? 0 : 3}); q.push_back({'H', 0, 0}); q.push_back({'G', 1, 0});
			if (par & 2) q.push_back({'U', 0, 0});
			q.push_back({'S', 1, 2}); q.push_back({'H', 0, 0}); q.push_back({'G', 1, 0});
			q.push_back({'O', 1, r}); q.push_back({'W', 0, 0});
		}
		run({one}, q);
	}
	life("one element, all calls", {one}, nocon, T ? 4 : 3);
	life("one element, histories", {one}, hist, 6);
	life("one element, histories of two points", {one}, {{'S', 1, 2}, {'H', 0, 0}, {'S', 2, 0}, {'S', 1, 1}, {'U', 0, 0}}, 5);
	life("row", {row}, hist, 5);
	life("box", {box}, hist, 4);
	life("2D", {flat}, nocon, 3);
	life("ids", {one}, ids, 3);
	life("re-construction", {one, flat}, full, 3);
	words("one element", {one, flat}, full, T ? 6 : 5, 2);
	words("one element, histories", {one}, core, T ? 8 : 6, 3);
	words("one element, ids", {one}, ids, T ? 6 : 5, 2);
	words("shortcut", {sc, one}, full, T ? 5 : 4, 2);
	words("row", {row, box}, full, T ? 5 : 4, 2);
	words("box", {box, row}, full, T ? 4 : 3, 2);
	words("2D", {flat, one}, full, T ? 5 : 4, 2);
	words("2D shortcut", {flat2, flat}, full, T ? 5 : 4, 2);
	// construct over construct: all ordered pairs of configurations that differ in one argument (or in all of them)
	{
		std::vector<Cfg> V;
		for (const Cfg &b : {row, flat2}) {
			V.push_back(b);
			auto with = [&](const std::function<void(Cfg &)> &f) { Cfg c = b; f(c); V.push_back(c); };
			with([](Cfg &c) { c.type = 0; });
			with([](Cfg &c) { c.width = 0; });
			with([](Cfg &c) { c.width = 9; });
			with([](Cfg &c) { c.type = 0; c.width = 0; });
			with([](Cfg &c) { c.inv_tol = 3e6; });
			with([](Cfg &c) { c.n[0]++; });
			with([](Cfg &c) { std::swap(c.n[0], c.n[1]); });
			with([](Cfg &c) { if (c.dim == 3) c.n[2]++; else c.n[1]++; });
			with([](Cfg &c) { c.L[0] = 1.25; });
			with([](Cfg &c) { c.L[1] = 1.75; });
			with([](Cfg &c) { if (c.dim == 3) c.L[2] = 0.5; else c.L[0] = 2; });
			with([](Cfg &c) { c.mt[0] = 0; });
			with([](Cfg &c) { c.mt[1] = 2; });
			with([](Cfg &c) { c.E[0] = 1.5e9; });
			with([](Cfg &c) { c.nu[1] = 0.2; });
			with([](Cfg &c) { c.Sy[0] = 2e6; });
			with([](Cfg &c) { c.Ka[0] = 1e8; });
		}
		int n = (int)V.size();
		for (int a = 0; a < n; a++) {
			if (!X.begin(fmt("construct over construct, first configuration %d: ", a) + V[a].str())) continue;
			for (int b = 0; b < n && !X.stop(); b++) {
				auto use = [](std::vector<O> &w, int c, int e) { w.push_back({'C', c, 0}); w.push_back({'G', 1, 0}); w.push_back({'S', 1, e}); w.push_back({'H', 0, 0}); w.push_back({'G', 1, 0}); w.push_back({'U', 0, 0}); };
				for (int m = 0; m < 2; m++) {
					std::vector<O> w;
					use(w, a, 0); use(w, b, m ? 0 : 1); if (m) use(w, a, 1);
					w.push_back({'S', 1, 2}); w.push_back({'H', 0, 0}); w.push_back({'G', 1, 0}); w.push_back({'O', 1, 1}); w.push_back({'W', 0, 0});
					if (!run(V, w)) break;
				}
			}
		}
	}
	release({one, row, box, sc, flat, flat2});
	wipe();
	if (chdir("..")) return 3;
	return X.finish();
}
