// C26: no call changes the process that hosts the library, prints anything, or touches files
// other than the documented ones of the working directory.
#include "cell.hpp"
#include "ellref.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fenv.h>
#include <iostream>
#include <locale>
#include <new>
#include <sched.h>
#include <sys/wait.h>
#include <xmmintrin.h>

extern "C" {
void micropp_construct_(int *, int *, int *, double *, int *, double *);
void micropp_output_(int *, int *);
void micropp_get_non_linear_flag_(int *, int *);
void micropp_set_macro_strain_(int *, double *);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *, double *);
void micropp_get_macro_ctan_(int *, double *);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

// --- calls that change files or processes, recorded while the library runs -----------------
static bool inside = false;
static char strange[256];
static void note(const char *what, const char *path)
{
	if (!inside || strange[0]) return;
	snprintf(strange, sizeof strange, "%s(%s)", what, path ? path : "");
}
static bool away(const char *p)		// outside the working directory
{
	while (p[0] == '.' && p[1] == '/') p += 2;
	return strchr(p, '/') != nullptr;
}
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static void opened(const char *what, const char *p, bool wr) { if (wr && p && away(p)) note(what, p); }
static bool fmode(const char *m) { return strpbrk(m, "wa+") != nullptr; }
extern "C" {
FILE *fopen(const char *p, const char *m) { opened("fopen", p, fmode(m)); static auto f = next<FILE *(*)(const char *, const char *)>("fopen"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { opened("fopen", p, fmode(m)); static auto f = next<FILE *(*)(const char *, const char *)>("fopen64"); return f(p, m); }
FILE *freopen(const char *p, const char *m, FILE *s) { note("freopen", p); static auto f = next<FILE *(*)(const char *, const char *, FILE *)>("freopen"); return f(p, m, s); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); opened("open", p, fl & (O_WRONLY | O_RDWR | O_CREAT)); static auto f = next<int (*)(const char *, int, ...)>("open"); return f(p, fl, md); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); opened("open", p, fl & (O_WRONLY | O_RDWR | O_CREAT)); static auto f = next<int (*)(const char *, int, ...)>("open64"); return f(p, fl, md); }
int creat(const char *p, mode_t md) { opened("creat", p, true); static auto f = next<int (*)(const char *, mode_t)>("creat"); return f(p, md); }
int unlink(const char *p) { opened("unlink", p, true); static auto f = next<int (*)(const char *)>("unlink"); return f(p); }
int remove(const char *p) { opened("remove", p, true); static auto f = next<int (*)(const char *)>("remove"); return f(p); }
int rename(const char *p, const char *q) { opened("rename", p, true); opened("rename", q, true); static auto f = next<int (*)(const char *, const char *)>("rename"); return f(p, q); }
int mkdir(const char *p, mode_t md) { opened("mkdir", p, true); static auto f = next<int (*)(const char *, mode_t)>("mkdir"); return f(p, md); }
int rmdir(const char *p) { opened("rmdir", p, true); static auto f = next<int (*)(const char *)>("rmdir"); return f(p); }
// these would leave no trace to compare: recorded, and not carried out while the library runs
int system(const char *c) { if (inside) { note("system", c); return 0; } return -1; }
FILE *popen(const char *c, const char *) { note("popen", c); errno = ENOSYS; return nullptr; }
pid_t fork(void) { if (inside) note("fork", ""); errno = ENOSYS; return -1; }
int kill(pid_t p, int s) { if (inside) { note("kill", ""); return 0; } static auto f = next<int (*)(pid_t, int)>("kill"); return f(p, s); }
int raise(int s) { if (inside) { note("raise", ""); return 0; } static auto f = next<int (*)(int)>("raise"); return f(s); }
int usleep(useconds_t u) { note("usleep", ""); return 0; }
unsigned sleep(unsigned u) { note("sleep", ""); return 0; }
int nanosleep(const timespec *a, timespec *b) { if (inside) { note("nanosleep", ""); return 0; } static auto f = next<int (*)(const timespec *, timespec *)>("nanosleep"); return f(a, b); }
int clock_nanosleep(clockid_t c, int g, const timespec *a, timespec *b) { if (inside) { note("clock_nanosleep", ""); return 0; } static auto f = next<int (*)(clockid_t, int, const timespec *, timespec *)>("clock_nanosleep"); return f(c, g, a, b); }
int atexit(void (*g)(void)) { note("atexit", ""); return 0; }
void exit(int c) { if (inside) { inside = false; X.fail("the library ends the process"); } static auto f = next<void (*)(int)>("exit"); f(c); __builtin_unreachable(); }
}

// --- what a host sees of its own process ------------------------------------------------------
static int cap[2] = {-1, -1}, real_fd[2] = {-1, -1};
static char rnd[128];
struct Streams {
	std::ios_base::fmtflags fl; std::streamsize pr, wd; std::ios_base::iostate st, ex; std::streambuf *rb; std::ostream *tie; char fill; std::string loc;
	explicit Streams(std::ios &o) : fl(o.flags()), pr(o.precision()), wd(o.width()), st(o.rdstate()), ex(o.exceptions()), rb(o.rdbuf()), tie(o.tie()), fill(o.fill()), loc(o.getloc().name()) {}
	bool operator!=(const Streams &b) const { return fl != b.fl || pr != b.pr || wd != b.wd || st != b.st || ex != b.ex || rb != b.rb || tie != b.tie || fill != b.fill || loc != b.loc; }
};
struct Snap {
	fenv_t fe; unsigned csr; int round;
	std::string loc, cwd, env; std::locale cpp;
	mode_t mask;
	struct sigaction sa[65];
	sigset_t blocked, pending;
	stack_t alt;
	itimerval tr, tp;
	unsigned long long fds[2];
	rlimit rl[16];
	char rand[128]; unsigned short r48[3];
	long tasks; int children;
	std::terminate_handler th; std::new_handler nh;
	bool sync;
	int prio; cpu_set_t cpus;
	pid_t pg, sid; uid_t uid, gid;
	char **ep;
	std::vector<Streams> st;
	Snap() : cpp(std::locale())
	{
		memset(sa, 0, sizeof sa); memset(rl, 0, sizeof rl); memset(&cpus, 0, sizeof cpus); memset(&blocked, 0, sizeof blocked); memset(&pending, 0, sizeof pending); memset(&alt, 0, sizeof alt);
		fegetenv(&fe); csr = _mm_getcsr() & ~0x3fu; round = fegetround();
		loc = setlocale(LC_ALL, nullptr);
		char b[4096]; cwd = getcwd(b, sizeof b) ? b : "?";
		ep = environ;
		for (char **e = environ; *e; e++) env += std::string(*e) + '\n';
		mask = umask(022); umask(mask);
		for (int s = 1; s < 65; s++) sigaction(s, nullptr, &sa[s]);
		sigprocmask(SIG_SETMASK, nullptr, &blocked); sigpending(&pending); sigaltstack(nullptr, &alt);
		getitimer(ITIMER_REAL, &tr); getitimer(ITIMER_PROF, &tp);
		for (int q = 0; q < 2; q++) { fds[q] = 0; for (int i = 0; i < 64; i++) if (fcntl(64 * q + i, F_GETFD) >= 0) fds[q] |= 1ull << i; }
		for (int i = 0; i < 16; i++) getrlimit((__rlimit_resource)i, &rl[i]);
		memcpy(rand, rnd, sizeof rand);
		unsigned short z[3] = {0, 0, 0}; memcpy(r48, seed48(z), sizeof r48); { unsigned short k[3]; memcpy(k, r48, 6); seed48(k); }
		struct stat sb; tasks = stat("/proc/self/task", &sb) ? -1 : (long)sb.st_nlink;
		children = waitpid(-1, nullptr, WNOHANG | WNOWAIT) >= 0;
		th = std::get_terminate(); nh = std::get_new_handler();
		sync = std::ios_base::sync_with_stdio(true);
		prio = getpriority(PRIO_PROCESS, 0); sched_getaffinity(0, sizeof cpus, &cpus);
		pg = getpgrp(); sid = getsid(0); uid = geteuid(); gid = getegid();
		for (std::ios *o : {(std::ios *)&std::cout, (std::ios *)&std::cerr, (std::ios *)&std::clog, (std::ios *)&std::cin}) st.push_back(Streams(*o));
	}
	std::string diff(const Snap &b) const
	{
		if (fe.__control_word != b.fe.__control_word || csr != b.csr || round != b.round) return "the floating-point control settings";
		if (loc != b.loc || cpp != b.cpp) return "the locale";
		if (cwd != b.cwd) return "the working directory";
		if (ep != b.ep || env != b.env) return "the environment";
		if (mask != b.mask) return "the file creation mask";
		for (int s = 1; s < 65; s++) if (sa[s].sa_handler != b.sa[s].sa_handler || sa[s].sa_flags != b.sa[s].sa_flags) return fmt("the handling of signal %d", s);
		if (memcmp(&blocked, &b.blocked, sizeof blocked) || memcmp(&pending, &b.pending, sizeof pending)) return "the signal mask";
		if (alt.ss_sp != b.alt.ss_sp) return "the signal stack";
		if (memcmp(&tr.it_interval, &b.tr.it_interval, sizeof tr.it_interval) || (tr.it_value.tv_sec != 0) != (b.tr.it_value.tv_sec != 0) || memcmp(&tp, &b.tp, sizeof tp)) return "the interval timers";
		if (fds[0] != b.fds[0] || fds[1] != b.fds[1]) return "the open file descriptors";
		if (memcmp(rl, b.rl, sizeof rl)) return "the resource limits";
		if (memcmp(rand, b.rand, sizeof rand) || memcmp(r48, b.r48, sizeof r48)) return "the random number generators";
		if (tasks != b.tasks) return "the threads";
		if (children != b.children) return "the child processes";
		if (th != b.th || nh != b.nh) return "the terminate or new handler";
		if (sync != b.sync) return "the synchronisation of the standard streams";
		if (prio != b.prio || memcmp(&cpus, &b.cpus, sizeof cpus)) return "the scheduling";
		if (pg != b.pg || sid != b.sid || uid != b.uid || gid != b.gid) return "the process identity";
		for (size_t i = 0; i < st.size(); i++) if (st[i] != b.st[i]) return "the formatting or state of a standard stream";
		return "";
	}
};
static Snap *base;
static std::set<std::string> allowed, before;
static void capture()
{
	fflush(stdout); fflush(stderr); std::cout.flush();
	for (int i = 0; i < 2; i++) { if (ftruncate(cap[i], 0)) {} lseek(cap[i], 0, SEEK_SET); dup2(cap[i], i + 1); }
	delete base;
	base = new Snap;
}
static void release() { fflush(stdout); fflush(stderr); for (int i = 0; i < 2; i++) dup2(real_fd[i], i + 1); }
static std::string printed()
{
	fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); std::clog.flush();
	for (int i = 0; i < 2; i++) { struct stat s; if (fstat(cap[i], &s) == 0 && s.st_size) { char b[80] = {0}; if (pread(cap[i], b, 79, 0) < 0) {} return fmt("it prints on standard %s: ", i ? "error" : "output") + b; } }
	return "";
}
// run one call and compare; false: a violation
template <class F> static bool watch(const std::string &what, F f)
{
	X.transitions++;
	strange[0] = 0;
	std::string e;
	inside = true;
	try { f(); } catch (...) { e = "it throws"; }
	inside = false;
	X.checks++;
	if (e.empty() && strange[0]) e = std::string("it calls ") + strange;
	if (e.empty()) e = printed();
	if (e.empty()) { Snap s; std::string d = s.diff(*base); if (!d.empty()) e = "it changes " + d; }
	if (e.empty()) {
		DIR *d = opendir(".");
		if (d) {
			while (dirent *x = readdir(d)) if (strcmp(x->d_name, ".") && strcmp(x->d_name, "..") && !allowed.count(x->d_name) && !before.count(x->d_name)) e = std::string("it leaves a file ") + x->d_name;
			closedir(d);
		}
	}
	if (e.empty()) return true;
	release();
	X.fail(what + ": " + e);
	return false;
}

static void host_handler(int) {}
static void host_crash(int g) { signal(g, SIG_DFL); raise(g); }
static void host_new() { throw std::bad_alloc(); }
struct Punct : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	std::string do_grouping() const override { return "\3"; }
};
struct Op { char k; int id, arg; };
static std::string opstr(const Op &o)
{
	switch (o.k) {
	case 'C': return "construct";
	case 'S': return fmt("set(%d,e%d)", o.id, o.arg);
	case 'H': return "homogenize";
	case 'U': return "commit";
	case 'W': return "report";
	case 'G': return fmt("get(%d)", o.id);
	case 'O': return fmt("output(%d,%d)", o.arg, o.id);
	}
	return "destroy";
}
typedef std::vector<Op> Word;
static std::string show(const Word &w) { std::string s; for (auto &o : w) s += " " + opstr(o); return s; }
static std::vector<std::vector<double>> E3, E2;

struct Host {
	Cfg c;
	bool wrap;
	micropp_t *m = nullptr;
	explicit Host(const Cfg &c_, bool w) : c(c_), wrap(w) {}
	~Host() { delete m; }
	void call(const Op &o)
	{
		double a[6] = {0}, b[36] = {0}, e[6] = {0};
		int f = 0, id = o.id, t = o.arg;
		if (o.k == 'S') { auto &v = (c.dim == 2 ? E2 : E3)[o.arg]; std::copy(v.begin(), v.end(), e); }
		switch (o.k) {
		case 'C': {
			int sz[3], ty = c.type, d = c.dim, mt[2] = {c.mt[0], c.mt[1]}; double mp[5], par[2 * MAX_MAT_PARAM];
			c.args(sz, mp, par);
			if (wrap) micropp_construct_(&d, sz, &ty, mp, mt, par);
			else { delete m; m = nullptr; m = new micropp_t(d, sz, ty, mp, mt, par); }
			break;
		}
		case 'S': if (wrap) micropp_set_macro_strain_(&id, e); else m->set_macro_strain(id, e); break;
		case 'H': if (wrap) micropp_homogenize_(); else m->homogenize(); break;
		case 'U': if (wrap) micropp_update_internal_variables_(); else m->update_vars(); break;
		case 'W': if (wrap) micropp_write_convergence_file_(); else m->write_info_files(); break;
		case 'O': if (wrap) micropp_output_(&t, &id); else m->output(t, id); break;
		case 'G':
			if (wrap) { micropp_get_macro_stress_(&id, a); micropp_get_macro_ctan_(&id, b); micropp_get_non_linear_flag_(&id, &f); }
			else { m->get_macro_stress(id, a); m->get_macro_ctan(id, b); m->get_nl_flag(id, &f); }
			X.outcome(hash_vals(a, 6));
			break;
		case 'D': delete m; m = nullptr; break;
		}
	}
};
static const std::set<std::string> KEEP = {"states.bin", "outcomes.bin"};
static void clean() { for (auto &f : allowed) if (f.compare(0, 8, "micropp_") == 0) unlink(f.c_str()); }
static void allow(const Word &w)
{
	allowed = KEEP;
	for (const char *f : {"micropp_eps_sig_ctan.dat", "micropp_convergence.dat", "micropp_int_vars_n.dat", "micropp_materials.dat"}) allowed.insert(f);
	for (auto &o : w) if (o.k == 'O') allowed.insert(fmt("micropp_%d_%d.vtu", o.id, o.arg));
}
static bool life(const Cfg &c, const Word &w, bool wrap)
{
	Host h(c, wrap);
	std::string s;
	for (size_t i = 0; i < w.size(); i++) {
		if (X.verbose || 1) s += " " + opstr(w[i]);
		if (!watch((wrap ? "wrapper," : "") + s, [&] { h.call(w[i]); })) return false;
		X.state(hash_bytes(s.data(), s.size(), hash_bytes(&c, sizeof(int) * 4)));
	}
	if (!wrap && !watch((wrap ? "wrapper," : "") + s + " destroy", [&] { h.call({'D'}); })) return false;
	X.traces++;
	return true;
}
static void words(const Cfg &c, const Word &ops, int depth, bool wrap)
{
	int k = (int)ops.size();
	for (int p = 0; p < k * k; p++) {
		if (!X.begin(c.str() + (wrap ? " | wrapper" : "") + fmt(" | words of length %d:", depth) + show({ops[p / k], ops[p % k]}) + " ...")) { if (X.stop()) return; continue; }
		allow(ops);
		capture();
		std::vector<int> w(depth, 0);
		w[0] = p / k; w[1] = p % k;
		bool ok = true;
		while (ok) {
			Word q = {{'C'}};
			for (int i : w) q.push_back(ops[i]);
			ok = life(c, q, wrap);
			int j = depth - 1;
			while (j >= 2 && ++w[j] == k) w[j--] = 0;
			if (j < 2) break;
		}
		release();
		clean();
		if (X.stop()) return;
		X.sample(X.desc);
	}
}
static void matrices(const Grid &g)
{
	if (!X.begin("matrix " + g.str())) return;
	allow({});
	capture();
	ell_matrix m;
	int N = g.N();
	Vec x(N, 0), y(N, 0), b(N, 0);
	for (int i = 0; i < N; i++) b[i] = 1 + i % 5;
	Vec Ae = Vec(g.ed() * g.ed(), 0.01);
	for (int i = 0; i < g.ed(); i++) Ae[i * g.ed() + i] = 2;
	bool ok = watch("init", [&] { if (g.dim == 2) ell_init_2D(&m, g.nf, g.n[0], g.n[1]); else ell_init_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]); });
	for (int r = 0; ok && r < 2; r++) {
		ok = watch("zero", [&] { ell_set_zero_mat(&m); });
		for (int e = 0; ok && e < g.nelem(); e++) ok = watch("add", [&] { int p[3]; g.pos(e, p); if (g.dim == 2) ell_add_struct2D(&m, p[0], p[1], Ae.data(), g.nf, g.n[0], g.n[1]); else ell_add_struct3D(&m, p[0], p[1], p[2], Ae.data(), g.nf, g.n[0], g.n[1], g.n[2]); });
		if (ok && r) ok = watch("boundary conditions", [&] { if (g.dim == 2) ell_set_bc_2D(&m, g.nf, g.n[0], g.n[1]); else ell_set_bc_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]); });
		if (ok) ok = watch("product", [&] { ell_mvp_2D(&m, b.data(), y.data()); });
		for (int its : {0, 3, 1000}) for (double tol : {1e-8, 1e30}) for (int sv = 0; ok && sv < 3; sv++) {
			ell_solver s; s.max_its = its; s.min_tol = tol; s.its = 0; s.err = 0;
			std::fill(x.begin(), x.end(), 0);
			if (sv && g.dim != 2) continue;
			ok = watch(fmt("solve %d", sv), [&] {
				if (sv == 0) ell_solve_cgpd_struct(&s, &m, g.nf, g.dim, g.nn(), b.data(), x.data());
				else if (sv == 1) ell_solve_jacobi_2D(&s, &m, g.nf, g.n[0], g.n[1], b.data(), x.data());
				else ell_solve_cgpd_2D(&s, &m, g.nf, g.n[0], g.n[1], b.data(), x.data());
			});
		}
	}
	if (ok) ok = watch("free", [&] { ell_free(&m); });
	if (ok) release();
	X.traces++;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	if (DIR *d = opendir(".")) { while (dirent *x = readdir(d)) if (x->d_name[0] == '.') before.insert(x->d_name); closedir(d); }
	const bool T = X.thorough;
	initstate(1, rnd, sizeof rnd);
	// settings of its own, so that a reset to the defaults is seen as well
	setlocale(LC_ALL, "C.UTF-8");
	std::locale::global(std::locale(std::locale::classic(), new Punct));
	umask(027);
	for (int g : {SIGFPE, SIGPIPE, SIGUSR1, SIGALRM, SIGSEGV, SIGTERM, SIGCHLD}) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = host_handler; a.sa_flags = SA_RESTART; sigaction(g, &a, nullptr); }
	struct sigaction ab; memset(&ab, 0, sizeof ab); ab.sa_handler = host_crash; ab.sa_flags = (int)SA_RESETHAND; for (int g : {SIGFPE, SIGSEGV}) sigaction(g, &ab, nullptr);
	{ sigset_t b; sigemptyset(&b); sigaddset(&b, SIGUSR2); sigprocmask(SIG_BLOCK, &b, nullptr); }
	std::set_new_handler(host_new);
	setenv("OMP_NUM_THREADS", "3", 1); setenv("LC_NUMERIC", "C", 1);
	std::cout.precision(3); std::cout.setf(std::ios::showpos); std::cout.fill('*'); std::cerr.precision(9); std::clog.setf(std::ios::scientific, std::ios::floatfield);
	allowed = KEEP;
	for (int i = 0; i < 2; i++) {
		cap[i] = memfd_create("captured", MFD_CLOEXEC);
		real_fd[i] = fcntl(i + 1, F_DUPFD_CLOEXEC, 200);
		if (cap[i] < 0 || real_fd[i] < 0) { perror("memfd"); return 3; }
		int f = fcntl(cap[i], F_DUPFD_CLOEXEC, 210); close(cap[i]); cap[i] = f;
		fcntl(cap[i], F_SETFL, O_APPEND);
	}
	E3 = {{0.003, 0, 0, 0.001, 0, 0}, {-0.001, 0.002, 0, 0, 0.004, -0.002}, {0.0001, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}, {2, -1, 0.5, 3, 1, 0}, {1e-300, 0, 0, 0, 0, 0}};
	E2 = {{0.003, 0, 0.001}, {-0.001, 0.002, 0.004}, {0.0001, 0, 0}, {0, 0, 0}, {2, -1, 3}, {1e-300, 0, 0}};
	Cfg one; one.n[0] = one.n[1] = one.n[2] = 2; one.width = 0; one.mt[0] = 1;
	Cfg lin = one; lin.inv_tol = 1e30;
	Cfg box = one; box.n[0] = box.n[1] = box.n[2] = 3; box.width = 0.45; box.mt[1] = 1;
	Cfg lay = box; lay.type = 1; lay.n[1] = 4; lay.n[2] = 2; lay.inv_tol = 1e5;
	Cfg flat; flat.dim = 2; flat.n[0] = flat.n[1] = 3;
	Cfg flat2 = flat; flat2.n[0] = 5; flat2.type = 1; flat2.mt[0] = 2; flat2.mt[1] = 1;
	Word nine = {{'S', 1, 0}, {'S', 1, 4}, {'S', -4, 3}, {'H'}, {'U'}, {'G', 1}, {'W'}, {'O', 1, 0}, {'O', 9, 1}};
	Word five = {{'S', 1, 1}, {'H'}, {'U'}, {'W'}, {'O', 1, 2}};
	Word seven = {{'S', 1, 0}, {'S', 2, 1}, {'H'}, {'U'}, {'G', 7}, {'C'}, {'W'}};
	for (auto &c : {one, lin, flat}) { words(c, nine, T ? 6 : 5, false); words(c, five, T ? 8 : 6, false); words(c, seven, T ? 6 : 5, true); }
	for (auto &c : {box, lay, flat2}) { words(c, five, T ? 6 : 5, false); words(c, nine, T ? 5 : 4, true); }
	// long lives: many evaluations, reports and outputs; strains of all sizes
	for (auto &c : {one, lin, box, lay, flat, flat2}) for (int wrap = 0; wrap < 2; wrap++) {
		if (!X.begin(c.str() + (wrap ? " | wrapper" : "") + " | a long life")) { if (X.stop()) break; continue; }
		Word w = {{'C'}};
		for (int t = 0; t < (T ? 400 : 120); t++) {
			w.push_back({'S', t % 7, t % 6});
			w.push_back({'H'});
			if (t % 2) w.push_back({'U'});
			if (t % 3) w.push_back({'W'});
			if (t % 5 == 0) w.push_back({'O', t % 7, t});
			w.push_back({'G', t % 11});
		}
		allow(w);
		capture();
		life(c, w, wrap);
		if (!X.stop()) release();
		clean();
	}
	// many configurations, ordinary and odd, with strains of all sizes: nothing to say about any of them
	E3.insert(E3.end(), {{0.05, -0.02, 0, 0, 0.1, 0}, {3, 0, -1, 5, 0, 0}, {1e10, 0, 0, 0, 1e9, 0}, {-0.1, -0.1, -0.1, 0, 0, 0}});
	E2.insert(E2.end(), {{0.05, -0.02, 0.1}, {3, 0, 5}, {1e10, 0, 1e9}, {-0.1, -0.1, 0}});
	std::vector<Cfg> C;
	auto grid = [&](int d, int a, int b, int e) { Cfg c; c.dim = d; c.n[0] = a; c.n[1] = b; c.n[2] = e; return c; };
	std::vector<Cfg> G = {grid(3, 3, 3, 3), grid(3, 2, 3, 4), grid(3, 4, 3, 3), grid(3, 9, 2, 2), grid(2, 3, 3, 1), grid(2, 2, 9, 1), grid(2, 5, 4, 1)};
	for (auto c : G) for (int type = 0; type < 2; type++) for (double w : {0.45, 0.0, 9.0}) {
		c.type = type; c.width = w;
		for (int m = 0; m < 9; m++) { if (w != 0.45 && m) break; c.mt[0] = m / 3; c.mt[1] = m % 3; C.push_back(c); }
	}
	for (auto c : {G[0], G[2], G[4]}) {
		c.width = 0.45; c.mt[0] = c.mt[1] = 1;
		for (double ka : {0.0, 1e-6, -0.02, 3.0}) for (double sy : {0.0, 1e-3, 1e30}) { Cfg d = c; for (int i = 0; i < 2; i++) { d.Ka[i] = ka * d.E[i]; d.Sy[i] = sy * d.E[i]; } C.push_back(d); }
		for (double nu : {-0.9, -0.3, 0.0, 0.49, 0.4999}) { Cfg d = c; d.nu[0] = nu; C.push_back(d); }
		for (double E : {1e-6, 1.0, 2.1e11, 1e30}) { Cfg d = c; d.E[0] = E; C.push_back(d); }
		for (double L : {1e-6, 0.01, 100.0, 1e6}) { Cfg d = c; for (int i = 0; i < 3; i++) d.L[i] = L; d.width = 0.45 * L; C.push_back(d); d.L[1] = 1; C.push_back(d); }
		for (double t : {1e-30, 1e5, 1e30}) { Cfg d = c; d.inv_tol = t; C.push_back(d); }
	}
	C.push_back(grid(2, 40, 40, 1)); C.push_back(grid(2, 100, 2, 1)); C.push_back(grid(3, 10, 10, 10)); C.push_back(grid(3, 40, 2, 2));
	for (auto &c : C) for (int wrap = 0; wrap < 2; wrap++) {
		if (!X.begin(c.str() + (wrap ? " | wrapper" : "") + " | strains of all sizes")) { if (X.stop()) break; continue; }
		Word w = {{'C'}, {'H'}, {'U'}, {'G', 3}, {'O', 3, 0}, {'W'}};
		bool big = c.nnode() > 200;
		for (int e = 0; e < (int)E3.size(); e++) {
			if (big && e % 4) continue;
			w.insert(w.end(), {{'S', 3, e}, {'H'}, {'G', 3}});
			if (!big) w.insert(w.end(), {{'U'}, {'W'}, {'O', 3, e}});
		}
		allow(w);
		capture();
		life(c, w, wrap);
		if (!X.stop()) release();
		clean();
	}
	// many points
	for (auto &c : {one, lin, flat}) {
		if (!X.begin(c.str() + " | 1500 points")) { if (X.stop()) break; continue; }
		Word w = {{'C'}};
		for (int i = 0; i < 1500; i++) w.push_back({'S', 17 * i - 900, i % 4});
		w.insert(w.end(), {{'H'}, {'U'}, {'W'}, {'G', 17}, {'G', 5}, {'O', 17, 1}, {'H'}});
		allow(w);
		capture();
		life(c, w, false);
		if (!X.stop()) release();
		clean();
	}
	for (int nf = 1; nf <= 3; nf++) {
		for (auto &g : grids(2, 2, T ? 6 : 4, nf)) matrices(g);
		for (auto &g : grids(3, 2, T ? 4 : 3, nf)) matrices(g);
	}
	return X.finish();
}
