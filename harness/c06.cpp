// C06: results are a function of the inputs: memory and stack contents, earlier
// instances and interleaved other instances must not show.
// Linked with -Wl,--wrap=malloc,--wrap=free so that every block the library gets
// carries the chosen pattern and every block it returns is overwritten.
#include "cell.hpp"
#include <malloc.h>
#include <new>
#include <functional>
#include <algorithm>
#include <sys/wait.h>

static int fill_mode = 0;	// 0: zero bytes
static unsigned char fill_byte = 0;

static void paint_block(void *p, size_t n)
{
	if (!p) return;
	if (fill_mode == 0) memset(p, fill_byte, n);
	else if (fill_mode == 1) { double v = 1.0; size_t k = n / 8; for (size_t i = 0; i < k; i++) memcpy((char *)p + 8 * i, &v, 8); }
	else if (fill_mode == 2) { for (size_t i = 0; i < n / 8; i++) { double v = 1e-3 * (double)((i * 37) % 101 + 1); memcpy((char *)p + 8 * i, &v, 8); } }
	else if (fill_mode == 3) { for (size_t i = 0; i < n / 4; i++) { int v = 3; memcpy((char *)p + 4 * i, &v, 4); } }
}
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) paint_block(p, malloc_usable_size(p)); return p; }
void __wrap_free(void *p) { if (p) paint_block(p, malloc_usable_size(p)); __real_free(p); }
}
void *operator new(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); paint_block(p, n); return p; }
void *operator new[](size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) abort(); paint_block(p, n); return p; }
void operator delete(void *p) noexcept { __real_free(p); }
void operator delete[](void *p) noexcept { __real_free(p); }
void operator delete(void *p, size_t) noexcept { __real_free(p); }
void operator delete[](void *p, size_t) noexcept { __real_free(p); }

__attribute__((noinline)) static void paint_stack()
{
	volatile char a[48 * 1024];
	paint_block((void *)a, sizeof a);
	asm volatile("" : : "r"(a) : "memory");
}

struct Step { char k; int id; int l; };	// S H U, O output, W write_info
typedef std::vector<Step> Script;

static std::vector<std::vector<double>> letters(const Cfg &c)
{
	const double y = 1e-3;
	if (c.dim == 2) return {{3 * y, 0, 0}, {-y, 2 * y, 0.7 * y}, {0, 0, 4 * y}, {0, 0, 0}};
	return {{3 * y, 0, 0, 0, 0, 0}, {-2 * y, y, 0, 0, 3 * y, 0}, {0.2 * y, 0, 0, 0, 0, 0}, {0, 0, 0, 5 * y, 0, 1 * y}};
}

struct Live {		// an instance being driven, with everything it returned so far
	Cfg c;
	micropp_t *m = nullptr;
	std::vector<double> obs;
	std::string files;
	std::vector<int> ids;
	std::vector<std::vector<double>> A;
	explicit Live(const Cfg &c_) : c(c_), A(letters(c_))
	{
		int sz[3]; double mp[5], par[2 * MAX_MAT_PARAM];
		c.args(sz, mp, par);
		paint_stack();
		m = new micropp_t(c.dim, sz, c.type, mp, c.mt, par);
		X.transitions++;
	}
	void observe()
	{
		for (int id : ids) {
			double s[6] = {0}, t[36] = {0};
			int f = 9;
			paint_stack(); m->get_macro_stress(id, s);
			paint_stack(); m->get_macro_ctan(id, t);
			paint_stack(); m->get_nl_flag(id, &f);
			obs.insert(obs.end(), s, s + 6);
			obs.insert(obs.end(), t, t + 36);
			obs.push_back(f);
		}
	}
	void step(const Step &s, bool with_files)
	{
		X.transitions++;
		paint_stack();
		if (s.k == 'S') {
			bool known = false;
			for (int i : ids) known |= i == s.id;
			if (!known) ids.push_back(s.id);
			double e[6] = {0}; memcpy(e, A[s.l % A.size()].data(), c.V() * sizeof(double));
			m->set_macro_strain(s.id, e);
			observe();
		} else if (s.k == 'H') { m->homogenize(); observe(); }
		else if (s.k == 'U') m->update_vars();
		else if (s.k == 'O') {
			m->output(s.l, s.id);
			std::string f = fmt("micropp_%d_%d.vtu", s.id, s.l), t = slurp(f);
			unlink(f.c_str());
			obs.push_back((double)(hash_bytes(t.data(), t.size()) >> 12));
			if (with_files) files += t;
		}
		else if (with_files && s.k == 'W') {
			m->write_info_files();
			for (const char *f : {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat", "micropp_materials.dat"}) files += slurp(f);
		}
	}
	void end() { if (m) { paint_stack(); delete m; m = nullptr; } }
	~Live() { end(); }
};

struct Obs { std::vector<double> v; std::string f; };

static Obs alone(const Cfg &c, const Script &s, bool files)
{
	Live L(c);
	for (auto &x : s) L.step(x, files);
	L.end();
	return {L.obs, L.files};
}

static bool alike(const Obs &a, const Obs &b, const std::string &what)
{
	X.checks++;
	if (a.v.size() != b.v.size()) { X.fail(what + ": different numbers of observations"); return false; }
	for (size_t i = 0; i < a.v.size(); i++)
		if (memcmp(&a.v[i], &b.v[i], 8)) { X.fail(what + fmt(": observed number %zu is %.17g, expected %.17g", i, b.v[i], a.v[i])); return false; }
	if (a.f != b.f) {
		size_t p = 0; while (p < a.f.size() && p < b.f.size() && a.f[p] == b.f[p]) p++;
		size_t q = p > 30 ? p - 30 : 0;
		X.fail(what + ": file contents differ at '" + b.f.substr(q, 80) + "', expected '" + a.f.substr(q, 80) + "'");
		return false;
	}
	X.traces++;
	X.state(hash_vals(b.v.data(), b.v.size(), hash_bytes(b.f.data(), b.f.size())));
	X.outcome(hash_vals(b.v.data(), b.v.size()));
	return true;
}

// A process forked before this one touched the library; it forks a fresh child for every
// request, so that each baseline comes from a process that never used the library before.
struct Zygote {
	static constexpr size_t cap = 1 << 20;
	int to[2], from[2];
	pid_t pid = -1;
	double *shm = nullptr;
	const std::vector<Script> *S = nullptr;
	struct Req { Cfg c; int s; };
	void start(const std::vector<Script> &scripts)
	{
		S = &scripts;
		shm = (double *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (pipe(to) || pipe(from)) exit(3);
		fflush(stdout);
		pid = fork();
		if (pid) { close(to[0]); close(from[1]); return; }
		close(to[1]); close(from[0]);
		mkdir("pristine", 0755);
		if (chdir("pristine")) _exit(3);
		Req r;
		while (read(to[0], &r, sizeof r) == (ssize_t)sizeof r) {
			pid_t p = fork();
			if (p == 0) {
				Obs o = alone(r.c, (*S)[r.s], false);
				shm[0] = (double)o.v.size();
				memcpy(shm + 1, o.v.data(), std::min(cap - 8, o.v.size() * 8));
				_exit(0);
			}
			int st = 0;
			waitpid(p, &st, 0);
			char ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
			if (write(from[1], &ok, 1) != 1) _exit(3);
		}
		_exit(0);
	}
	Obs run(const Cfg &c, int s)
	{
		Req r{c, s};
		Obs o;
		char ok = 0;
		if (write(to[1], &r, sizeof r) != (ssize_t)sizeof r || read(from[0], &ok, 1) != 1 || !ok) return o;
		o.v.assign(shm + 1, shm + 1 + (size_t)shm[0]);
		return o;
	}
	~Zygote() { if (pid > 0) { close(to[1]); close(from[0]); int st; waitpid(pid, &st, 0); } }
};
static Zygote Z;

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	const bool light = X.variant == "O0";
	auto mk = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double itol, double E = 1e8) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.mt[0] = m0; c.mt[1] = m1; c.E[0] = E; c.E[1] = 3 * E; c.Sy[0] = 1e-3 * E; c.Sy[1] = 2e-3 * E; c.Ka[0] = 0.1 * E; c.Ka[1] = 0.05 * E;
		c.L[1] = 1.2; c.L[2] = 0.9;
		c.settle();
		return c;
	};
	const std::vector<Cfg> cs = {
		mk(2, 2, 2, 1, 0, 0.3, 0, 0, 0), mk(2, 4, 3, 1, 0, 0.4, 0, 2, 0), mk(2, 5, 6, 1, 1, 0.5, 1, 1, 1e4), mk(2, 3, 3, 1, 1, 0.5, 0, 0, 1e12),
		mk(3, 2, 2, 2, 0, 0, 1, 0, 0), mk(3, 2, 3, 2, 1, 0.6, 1, 1, 0), mk(3, 3, 3, 3, 1, 0.6, 1, 1, 0), mk(3, 3, 3, 3, 0, 0.2, 0, 0, 0),
		mk(3, 3, 4, 3, 0, 0.45, 1, 0, 2e5), mk(3, 4, 3, 5, 1, 0.5, 0, 1, 0), mk(3, 4, 4, 4, 0, 0.4, 2, 1, 1e5), mk(3, 3, 3, 3, 1, 0.6, 1, 1, 0, 1e4),
	};
	const std::vector<Script> ss = {
		{{'S', 1, 0}, {'H', 0, 0}, {'U', 0, 0}, {'S', 1, 1}, {'H', 0, 0}, {'O', 1, 7}, {'W', 0, 0}},
		{{'S', 1, 1}, {'S', 2, 2}, {'W', 0, 0}, {'H', 0, 0}, {'O', 2, 1}, {'S', 1, 2}, {'H', 0, 0}, {'U', 0, 0}, {'W', 0, 0}, {'S', 3, 3}, {'H', 0, 0}, {'O', 3, 2}, {'O', 1, 2}, {'W', 0, 0}},
		{{'S', 5, 2}, {'O', 5, 0}, {'H', 0, 0}, {'S', 5, 3}, {'H', 0, 0}, {'S', 5, 2}, {'H', 0, 0}, {'U', 0, 0}, {'S', 5, 0}, {'H', 0, 0}, {'W', 0, 0}, {'U', 0, 0}, {'O', 5, 9}, {'S', 5, 0}, {'H', 0, 0}},
		{{'W', 0, 0}, {'H', 0, 0}, {'U', 0, 0}, {'S', 0, 0}, {'U', 0, 0}, {'S', 4, 1}, {'H', 0, 0}, {'U', 0, 0}, {'U', 0, 0}, {'H', 0, 0}, {'W', 0, 0}},
	};
	auto pattern = [&](int p) {
		fill_mode = 0;
		if (p == 0) fill_byte = 0; else if (p == 1) fill_byte = 0xff; else if (p == 2) fill_byte = 0x41; else if (p == 3) fill_byte = 0x01;
		else fill_mode = p - 3;
	};
	const int NP = 7;
	const Script sa = {{'S', 1, 0}, {'H', 0, 0}, {'U', 0, 0}, {'S', 1, 1}, {'H', 0, 0}};
	const Script sb = {{'S', 1, 3}, {'H', 0, 0}, {'U', 0, 0}, {'S', 2, 2}, {'H', 0, 0}};
	const Script sa2 = {{'S', 1, 0}, {'H', 0, 0}, {'U', 0, 0}, {'S', 1, 1}, {'H', 0, 0}, {'U', 0, 0}, {'H', 0, 0}};
	const Script oa_ = {{'S', 1, 3}, {'H', 0, 0}, {'U', 0, 0}, {'O', 1, 4}, {'H', 0, 0}};
	const Script ob_ = {{'S', 1, 0}, {'O', 1, 4}, {'H', 0, 0}, {'U', 0, 0}, {'O', 1, 5}};
	const Script sc = {{'S', 1, 1}, {'H', 0, 0}};
	std::vector<Script> all = ss;
	all.push_back(sa); all.push_back(sb); all.push_back(sa2);
	all.push_back(oa_); all.push_back(ob_); all.push_back(sc);	// 7, 8, 9
	auto big = [](size_t ci) { return ci >= 8 && ci <= 10; };
	// baselines, each from a process that never used the library before
	pattern(0);
	Z.start(all);
	std::vector<std::vector<Obs>> base0(cs.size());
	for (size_t ci = 0; ci < cs.size(); ci++) for (size_t si = 0; si < all.size(); si++) { if (light && big(ci)) { base0[ci].push_back(Obs()); continue; } X.desc = cs[ci].str(); base0[ci].push_back(Z.run(cs[ci], (int)si)); }
	// 1. memory and stack patterns
	for (size_t ci = 0; ci < cs.size(); ci++) for (size_t si = 0; si < ss.size(); si++) {
		if (light && big(ci)) continue;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("memory patterns " + cs[ci].str() + fmt(" script %zu", si))) continue;
		pattern(0);
		Obs base = alone(cs[ci], ss[si], true);
		{ Obs b0 = base0[ci][si]; b0.f = base.f; if (!alike(b0, base, "against a pristine process")) continue; }
		for (int p = 1; p < NP && !X.stop(); p++) {
			pattern(p);
			Obs o = alone(cs[ci], ss[si], true);
			pattern(0);
			alike(base, o, fmt("memory pattern %d", p));
		}
		X.sample(X.desc + fmt(": %zu numbers, %zu bytes of files", base.v.size(), base.f.size()));
	}
	// 1b. larger cells
	{
		const std::vector<Cfg> bc = {mk(3, 6, 6, 6, 0, 0.4, 1, 0, 0), mk(3, 3, 4, 24, 1, 0.6, 0, 1, 1e12), mk(2, 16, 15, 1, 0, 0.4, 0, 0, 0), mk(2, 3, 90, 1, 1, 0.5, 0, 0, 1e12), mk(3, 2, 2, 300, 0, 0.4, 1, 1, 0)};
		const Script s = {{'S', 1, 0}, {'H', 0, 0}, {'U', 0, 0}, {'O', 1, 7}, {'W', 0, 0}};
		for (auto &c : bc) {
			if (light) continue;
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin("memory patterns, larger cell " + c.str())) continue;
			pattern(0);
			Obs base = alone(c, s, true);
			for (int p = 1; p < NP && !X.stop(); p++) { pattern(p); Obs o = alone(c, s, true); pattern(0); alike(base, o, fmt("memory pattern %d", p)); }
		}
	}
	// 2. what ran before in the process: ordered pairs of configurations and scripts, against a pristine process
	for (size_t a = 0; a < cs.size(); a++) for (size_t b = 0; b < cs.size(); b++) for (size_t si = 0; si < ss.size(); si++) {
		if (light && ((a + b + si) % 8 || big(a) || big(b))) continue;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("after an earlier instance " + cs[a].str() + " : " + cs[b].str() + fmt(" script %zu", si))) continue;
		pattern(0);
		const Obs &base = base0[b][si];
		alone(cs[a], ss[(si + 1) % ss.size()], false);
		Obs o = alone(cs[b], ss[si], false);
		if (!alike(base, o, "after an earlier instance")) break;
		// earlier instance still alive
		Live L(cs[a]);
		for (auto &x : ss[si]) L.step(x, false);
		o = alone(cs[b], ss[si], false);
		if (!alike(base, o, "next to an older live instance")) break;
	}
	// 2b. an earlier or older instance that differs in one argument only (by a lot, by little)
	{
		std::vector<Cfg> bases = {mk(3, 3, 3, 3, 1, 0.6, 1, 1, 0), mk(3, 2, 3, 2, 1, 0.55, 1, 0, 2e5), mk(3, 3, 4, 3, 0, 0.35, 0, 1, 0), mk(2, 4, 3, 1, 0, 0.4, 0, 0, 0), mk(2, 3, 4, 1, 1, 0.5, 0, 0, 3e5), mk(3, 2, 2, 2, 1, 0.605, 1, 1, 0)};
		for (size_t b = 0; b < bases.size(); b++) for (int f = 0; f < 2; f++) {
			std::vector<Cfg> tw;
			auto var = [&](std::function<void(Cfg &)> g) { Cfg c = bases[b]; g(c); if (c.str() != bases[b].str()) tw.push_back(c); };
			double q = f ? 1.002 : 1.4;
			for (int d = 0; d < bases[b].dim; d++) { if (!f) var([&](Cfg &c) { c.n[d]++; }); var([&](Cfg &c) { c.L[d] *= q; }); }
			var([&](Cfg &c) { c.width *= f ? 0.99 : 2; });
			if (!f) { var([&](Cfg &c) { c.type = 1 - c.type; }); var([&](Cfg &c) { c.mt[0] = c.mt[0] == 1 ? 0 : 1; }); var([&](Cfg &c) { c.mt[1] = c.mt[1] == 1 ? 0 : 1; }); }
			var([&](Cfg &c) { c.inv_tol = c.inv_tol > 0 ? c.inv_tol * (f ? q : 5) : 3e5; });
			for (int i = 0; i < 2; i++) { var([&](Cfg &c) { c.E[i] *= q; }); var([&](Cfg &c) { c.nu[i] *= f ? 0.998 : 0.5; }); var([&](Cfg &c) { c.Sy[i] *= f ? q : 0.5; }); var([&](Cfg &c) { c.Ka[i] *= f ? q : 3; }); }
			// arguments exchanged: products, sums and sorted lists of them are the same
			if (!f) for (int d = 0; d < bases[b].dim; d++) for (int e = 0; e < d; e++) { var([&](Cfg &c) { std::swap(c.L[d], c.L[e]); }); var([&](Cfg &c) { std::swap(c.n[d], c.n[e]); }); var([&](Cfg &c) { std::swap(c.L[d], c.L[e]); std::swap(c.n[d], c.n[e]); }); var([&](Cfg &c) { c.L[d] *= 2; c.L[e] /= 2; }); }
			if (!f) { var([&](Cfg &c) { std::swap(c.E[0], c.E[1]); }); var([&](Cfg &c) { std::swap(c.nu[0], c.nu[1]); }); var([&](Cfg &c) { std::swap(c.Sy[0], c.Sy[1]); }); var([&](Cfg &c) { std::swap(c.Ka[0], c.Ka[1]); }); var([&](Cfg &c) { std::swap(c.mt[0], c.mt[1]); }); var([&](Cfg &c) { for (int i = 0; i < 2; i++) std::swap(c.Sy[i], c.Ka[i]); }); }
			if (!f && bases[b].dim == 2) var([&](Cfg &c) { c.dim = 3; c.n[2] = 2; });
			if (!f && bases[b].dim == 3) var([&](Cfg &c) { c.dim = 2; });
			for (auto &t : tw) for (int dir = 0; dir < 2; dir++) {
				const Cfg &first = dir ? t : bases[b], &second = dir ? bases[b] : t;
				if (light && b != 1 && b != 4) continue;
				if (!X.mine()) { X.next++; continue; }
				if (!X.begin("twins: after " + first.str() + " : " + second.str())) continue;
				pattern(0);
				const Script &s = ss[1];
				Obs base = Z.run(second, 1);
				alone(first, s, false);
				Obs o = alone(second, s, false);
				if (!alike(base, o, "after an instance that differs in one argument")) break;
				Live L(first);
				for (auto &x : s) L.step(x, false);
				o = alone(second, s, false);
				if (!alike(base, o, "next to a live instance that differs in one argument")) break;
				// and the older one is not disturbed either
				Obs ob = Z.run(first, 2);
				Live K(first);
				Live N(second);
				for (auto &x : s) N.step(x, false);
				for (auto &x : ss[2]) K.step(x, false);
				Obs ok; ok.v = K.obs;
				if (!alike(ob, ok, "older instance, after a newer one that differs in one argument was used")) break;
			}
		}
	}
	// 3. all interleavings of two live instances
	struct Pair { int a, b; };
	std::vector<Pair> prs = {{4, 5}, {6, 4}, {4, 4}, {7, 6}, {1, 6}, {0, 1}};
	if (light) prs = {{4, 5}};
	for (auto &pr : prs) for (int variant = 0; variant < 3; variant++) {
		if (variant == 1 && !T) continue;
		if (variant == 2 && !T && (pr.a != 4 || light)) continue;	// with output files
		const Script &A = variant == 2 ? oa_ : variant ? sa2 : sa, &B = variant == 2 ? ob_ : sb;
		// each script is: construct, steps, destroy
		int na = (int)A.size() + 2, nb = (int)B.size() + 2, n = na + nb;
		const Obs &oa = base0[pr.a][variant == 2 ? 7 : variant ? 6 : 4], &ob = base0[pr.b][variant == 2 ? 8 : 5];
		for (unsigned mask = 0; mask < (1u << n); mask++) {
			if (__builtin_popcount(mask) != na) continue;
			if (!X.mine()) { X.next++; continue; }
			std::string sched; for (int i = 0; i < n; i++) sched += (mask >> i & 1) ? 'a' : 'b';
			if (!X.begin("interleaving " + sched + " of a=" + cs[pr.a].str() + " and b=" + cs[pr.b].str())) continue;
			pattern(2);
			Live *la = nullptr, *lb = nullptr;
			Obs ra, rb;
			int ia = 0, ib = 0;
			for (int i = 0; i < n; i++) {
				if (mask >> i & 1) {
					if (ia == 0) la = new Live(cs[pr.a]);
					else if (ia == na - 1) { ra.v = la->obs; la->end(); }
					else la->step(A[ia - 1], false);
					ia++;
				} else {
					if (ib == 0) lb = new Live(cs[pr.b]);
					else if (ib == nb - 1) { rb.v = lb->obs; lb->end(); }
					else lb->step(B[ib - 1], false);
					ib++;
				}
			}
			delete la; delete lb;
			if (!alike(oa, ra, "instance a")) break;
			if (!alike(ob, rb, "instance b")) break;
		}
		if (X.stop()) break;
	}
	// 4. all interleavings of three live instances (construct, set, evaluate, destroy)
	struct Tri { int c[3]; };
	std::vector<Tri> trs = {{4, 5, 4}, {0, 4, 1}};
	if (light) trs.clear();
	for (auto &tr : trs) {
		const int len = (int)sc.size() + 2;
		std::vector<int> w;
		for (int i = 0; i < 3; i++) for (int j = 0; j < len; j++) w.push_back(i);
		long block = 0;
		bool more = true;
		while (more && !X.stop()) {
			bool here = X.mine();
			if (!here) X.next++;
			std::string sched; for (int i : w) sched += (char)('a' + i);
			bool go = here && X.begin(fmt("block %ld of the interleavings of three instances, from ", block) + sched + ": " + cs[tr.c[0]].str() + " / " + cs[tr.c[1]].str() + " / " + cs[tr.c[2]].str());
			for (int n = 0; n < 210 && more; n++) {
				if (go && !X.stop()) {
					pattern(n % 2 ? 2 : 0);
					Live *l[3] = {nullptr, nullptr, nullptr};
					int at[3] = {0, 0, 0};
					Obs o[3];
					for (int i : w) {
						if (at[i] == 0) l[i] = new Live(cs[tr.c[i]]);
						else if (at[i] == len - 1) { o[i].v = l[i]->obs; delete l[i]; l[i] = nullptr; }
						else l[i]->step(sc[at[i] - 1], false);
						at[i]++;
					}
					for (int i = 0; i < 3; i++) if (!alike(base0[tr.c[i]][9], o[i], fmt("instance %c of ", 'a' + i) + [&] { std::string t; for (int j : w) t += (char)('a' + j); return t; }())) break;
				}
				more = std::next_permutation(w.begin(), w.end());
			}
			block++;
		}
	}
	// 5. crowds: many live instances, each step made by all of them in turn (first to last, last to first); and many earlier ones
	for (int N : {3, 4, 5, 8, 9, 16, 17, 33, 65, 129, 257}) for (int order = 0; order < 2; order++) for (int which = 0; which < 2; which++) {
		if (light && N > 9) continue;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(fmt("%d live instances, order %d, %s", N, order, which ? "all kinds" : "of the smallest kinds"))) continue;
		pattern(2);
		std::vector<int> kind;
		const int small[4] = {4, 0, 5, 4}, kinds[7] = {4, 6, 1, 7, 5, 11, 2};
		for (int i = 0; i < N; i++) kind.push_back(which ? kinds[i % 7] : small[i % 4]);
		std::vector<Live *> l(N, nullptr);
		for (int i = 0; i < N; i++) l[order ? N - 1 - i : i] = new Live(cs[kind[order ? N - 1 - i : i]]);
		for (size_t k = 0; k < sa.size(); k++) for (int i = 0; i < N; i++) l[order ? N - 1 - i : i]->step(sa[k], false);
		for (int i = 0; i < N && !X.stop(); i++) { Obs o; o.v = l[i]->obs; alike(base0[kind[i]][4], o, fmt("instance %d of %d", i, N)); }
		for (int i = 0; i < N; i++) delete l[i];
		X.sample(X.desc);
	}
	for (int which = 0; which < 4 && !light; which++) {
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(fmt("one instance after the other, %d times, kind %d", T ? 20000 : 2500, which))) continue;
		const int kinds[4] = {4, 0, 5, 1};
		for (int i = 0; i < (T ? 20000 : 2500) && !X.stop(); i++) {
			pattern(i % 3);
			int k = kinds[(which + (i % 5 == 4)) % 4];
			if (!alike(base0[k][i % 2 ? 4 : 5], alone(cs[k], i % 2 ? sa : sb, false), fmt("instance %d of the process", i))) break;
		}
	}
	return X.finish();
}
