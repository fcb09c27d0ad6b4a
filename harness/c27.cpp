// C27: the settings of the host process (locale, standard streams, floating-point traps and flags,
// environment, random numbers, mask, thread or forked process making the call) change no result and no file.
#include "cell.hpp"
#include <map>
#include <errno.h>
#include <dlfcn.h>
#include <sched.h>
#include <sys/resource.h>
#include <fenv.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <pthread.h>
#include <sys/wait.h>
#include <sys/syscall.h>

static bool bad(const std::string &m) { X.fail(m); return false; }
static const char *FILES[4] = {"micropp_eps_sig_ctan.dat", "micropp_convergence.dat", "micropp_int_vars_n.dat", "micropp_materials.dat"};
static const int IDS[2] = {1234567, -4};

struct Op { char k; int id, arg; };
static std::string opstr(const Op &o)
{
	switch (o.k) {
	case 'C': return "construct";
	case 'S': return fmt("set(%d,e%d)", o.id, o.arg);
	case 'H': return "homogenize";
	case 'U': return "commit";
	case 'W': return "report";
	case 'O': return fmt("output(%d,%d)", o.arg, o.id);
	}
	return "destroy";
}
typedef std::vector<Op> Word;
static std::vector<std::vector<double>> E3, E2;
static const std::vector<double> &strain(const Cfg &c, int i) { return c.dim == 2 ? E2[i] : E3[i]; }
static std::string vtu(const Op &o) { return fmt("micropp_%d_%d.vtu", o.id, o.arg); }

struct Punct : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
	std::string do_truename() const override { return "wahr"; }
	std::string do_falsename() const override { return "falsch"; }
};

enum Kind { NONE, LOCALE, STREAMS, FLAGS, TRAPS, CLOSED, ENVIRON, RANDOM, MASK, ERRNO, THREAD, THREADS, CHILD, SIGNALS, ENV1, ENV0, CLOCK, SYSTEM, TERMINAL, IGNORED, BEFORE };
static const char *KN[] = {"as usual", "a global locale with decimal comma and grouping", "odd formatting of the standard streams", "all floating-point exception flags raised", "floating-point traps enabled (invalid, division by zero, overflow)",
	"standard input, output and error closed", "another environment", "other random number seeds", "umask 077", "errno set", "the calls made by one other thread", "each call made by a new thread", "the calls made by a forked process", "all signals blocked", "every environment variable set to 1", "every environment variable set to 0", "another time and process", "one processor, another user, other limits and names, as the system reports them", "a terminal as standard input, output and error", "all signals ignored", "everything done before main()"};

// while the library runs, whatever variable it asks for is set, and it is another time
static int lie = 0;
extern "C" {
char *getenv(const char *n) noexcept
{
	if (lie == ENV1) return (char *)"1";
	if (lie == ENV0) return (char *)"0";
	size_t l = strlen(n);
	for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
	return nullptr;
}
char *secure_getenv(const char *n) noexcept { return getenv(n); }
static long ticks;
time_t time(time_t *t) noexcept { time_t r = lie == CLOCK ? 4000000000 + ++ticks : ({ timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); s.tv_sec; }); if (t) *t = r; return r; }
clock_t clock(void) noexcept { return lie == CLOCK ? 1000000 * ++ticks : 0; }
int clock_gettime(clockid_t c, timespec *t) noexcept { if (lie == CLOCK) { t->tv_sec = 4000000000 + 1000 * ++ticks; t->tv_nsec = 123456789; return 0; } return syscall(SYS_clock_gettime, c, t); }
int gettimeofday(timeval *t, void *) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
pid_t getpid(void) noexcept { return lie == CLOCK ? 7777777 : (pid_t)syscall(SYS_getpid); }
}
// another machine: what the system reports about processors, user, limits and terminals
extern "C" {
long sysconf(int n) noexcept { static auto f = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); if (lie == SYSTEM) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 1; if (n == _SC_PHYS_PAGES || n == _SC_AVPHYS_PAGES) return 1000; } return f(n); }
int get_nprocs(void) noexcept { return lie == SYSTEM ? 1 : 8; }
int get_nprocs_conf(void) noexcept { return lie == SYSTEM ? 1 : 8; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) noexcept { if (lie == SYSTEM) { memset(s, 0, n); CPU_SET(5, s); return 0; } long r = syscall(SYS_sched_getaffinity, p, n, s); return r < 0 ? -1 : 0; }
int sched_getcpu(void) noexcept { return lie == SYSTEM ? 5 : 0; }
uid_t getuid(void) noexcept { return lie == SYSTEM ? 4711 : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) noexcept { return lie == SYSTEM ? 4711 : (uid_t)syscall(SYS_geteuid); }
pid_t getppid(void) noexcept { return lie == SYSTEM ? 1 : (pid_t)syscall(SYS_getppid); }
int getpriority(__priority_which_t w, id_t i) noexcept { return lie == SYSTEM ? 7 : 20 - (int)syscall(SYS_getpriority, w, i); }
int getrlimit(__rlimit_resource_t r, struct rlimit *l) noexcept { if (lie == SYSTEM) { l->rlim_cur = l->rlim_max = 65536; return 0; } return (int)syscall(SYS_prlimit64, 0, r, nullptr, l); }
int gethostname(char *b, size_t n) noexcept { snprintf(b, n, lie == SYSTEM ? "elsewhere" : "here"); return 0; }
int isatty(int fd) noexcept { if (lie == SYSTEM || lie == TERMINAL) return 1; struct termios2_ { char b[64]; } tt; return syscall(SYS_ioctl, fd, 0x5401 /* TCGETS */, &tt) == 0; }
}
static int pty[2] = {-1, -1};	// a terminal of our own, if the system has one
static void open_pty()
{
	pty[0] = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (pty[0] < 0 || grantpt(pty[0]) || unlockpt(pty[0])) { pty[1] = -1; return; }
	const char *n = ptsname(pty[0]);
	pty[1] = n ? open(n, O_RDWR | O_NOCTTY | O_CLOEXEC) : -1;
}
static char **environ0;
struct Setting {
	Kind k;
	bool on = false;
	std::locale old;
	mode_t mask = 0;
	int fd[3];
	sigset_t sig;
	struct sigaction sa[32];
	std::ios fm{nullptr}, fm2{nullptr};
	void start(Kind k_)
	{
		k = k_; on = true;
		switch (k) {
		case LOCALE: old = std::locale::global(std::locale(std::locale::classic(), new Punct)); std::cout.imbue(std::locale()); setlocale(LC_ALL, "C.UTF-8"); break;
		case STREAMS: fm.copyfmt(std::cout); fm2.copyfmt(std::cerr); std::cout << std::hex << std::showbase << std::setprecision(1) << std::setfill('*') << std::fixed << std::showpos << std::boolalpha; std::cerr << std::hexfloat << std::setprecision(17); std::cout.setstate(std::ios::failbit); break;
		case CLOSED: for (int i = 0; i < 3; i++) { fd[i] = fcntl(i, F_DUPFD_CLOEXEC, 100); close(i); } break;
		case TERMINAL: if (pty[1] >= 0) for (int i = 0; i < 3; i++) { fd[i] = fcntl(i, F_DUPFD_CLOEXEC, 100); dup2(pty[1], i); } break;
		case IGNORED: for (int q = 1; q < 32; q++) if (q != SIGVTALRM && q != SIGKILL && q != SIGSTOP && q != SIGCHLD && q != SIGXCPU) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = SIG_IGN; sigaction(q, &a, &sa[q]); } break;
		case ENVIRON: {
			static char *e[] = {(char *)"LANG=de_DE", (char *)"LC_ALL=tr_TR.UTF-8", (char *)"LC_NUMERIC=de_DE", (char *)"OMP_NUM_THREADS=3", (char *)"TMPDIR=/nonexistent", (char *)"HOME=/", (char *)"POSIXLY_CORRECT=1", (char *)"DEBUG=1", (char *)"MICROPP_DEBUG=1", (char *)"VERBOSE=1", nullptr};
			environ = e;
			break;
		}
		case RANDOM: srand(4711); srandom(4711); srand48(4711); break;
		case MASK: mask = umask(077); break;
		case SIGNALS: { sigset_t a; sigfillset(&a); sigdelset(&a, SIGVTALRM); sigprocmask(SIG_SETMASK, &a, &sig); break; }
		default: ;
		}
	}
	void stop()
	{
		if (!on) return;
		on = false;
		switch (k) {
		case LOCALE: std::locale::global(old); std::cout.imbue(old); setlocale(LC_ALL, "C"); break;
		case STREAMS: std::cout.clear(); std::cout.copyfmt(fm); std::cerr.copyfmt(fm2); break;
		case CLOSED: for (int i = 0; i < 3; i++) { dup2(fd[i], i); close(fd[i]); } break;
		case TERMINAL: if (pty[1] >= 0) for (int i = 0; i < 3; i++) { dup2(fd[i], i); close(fd[i]); } break;
		case IGNORED: for (int q = 1; q < 32; q++) if (q != SIGVTALRM && q != SIGKILL && q != SIGSTOP && q != SIGCHLD && q != SIGXCPU) sigaction(q, &sa[q], nullptr); break;
		case ENVIRON: environ = environ0; break;
		case RANDOM: srand(1); srandom(1); srand48(1); break;
		case MASK: umask(mask); break;
		case SIGNALS: sigprocmask(SIG_SETMASK, &sig, nullptr); break;
		default: ;
		}
	}
};

typedef std::vector<double> Obs;
struct Trace {
	std::vector<Obs> obs;
	std::vector<std::map<std::string, std::string>> files;	// after every call
};
static void call(const Cfg &c, Sut *&s, const Op &o, Obs &v)
{
	switch (o.k) {
	case 'C': s = new Sut(c); break;
	case 'S': s->set(o.id, strain(c, o.arg).data()); break;
	case 'H': s->hom(); break;
	case 'U': s->commit(); break;
	case 'W': s->m->write_info_files(); break;
	case 'O': s->m->output(o.arg, o.id); break;
	case 'D': delete s; s = nullptr; break;
	}
	if (s) for (int id : IDS) {
		double a[6] = {0}, b[36] = {0};
		int f = -7;
		s->m->get_macro_stress(id, a);
		s->m->get_macro_ctan(id, b);
		s->m->get_nl_flag(id, &f);
		v.insert(v.end(), a, a + 6);
		v.insert(v.end(), b, b + 36);
		v.push_back(f);
	}
}
struct Job { const Cfg *c; Sut **s; const Op *o; Obs *v; };
static void *job(void *p) { Job &j = *(Job *)p; call(*j.c, *j.s, *j.o, *j.v); return nullptr; }
// a thread that waits for jobs
static Job *volatile todo;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static void *server(void *)
{
	pthread_mutex_lock(&mx);
	while (true) {
		while (!todo) pthread_cond_wait(&cv, &mx);
		job((void *)todo);
		todo = nullptr;
		pthread_cond_broadcast(&cv);
	}
}
static void elsewhere(Job &j, Kind k)
{
	if (k == THREADS) {
		pthread_t t;
		if (pthread_create(&t, nullptr, job, &j)) { perror("pthread_create"); exit(3); }
		pthread_join(t, nullptr);
		return;
	}
	static bool have = false;
	if (!have) { pthread_t t; if (pthread_create(&t, nullptr, server, nullptr)) { perror("pthread_create"); exit(3); } have = true; }
	pthread_mutex_lock(&mx);
	todo = &j;
	pthread_cond_broadcast(&cv);
	while (todo) pthread_cond_wait(&cv, &mx);
	pthread_mutex_unlock(&mx);
}
static void step(const Cfg &c, Sut *&s, const Op &o, Obs &v, Kind k)
{
	X.transitions++;
	if (k == THREAD || k == THREADS) { Job j = {&c, &s, &o, &v}; elsewhere(j, k); return; }
	if (k == FLAGS) feraiseexcept(FE_ALL_EXCEPT);
	if (k == TRAPS) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW); }
	if (k == ERRNO) errno = ERANGE;
	if (k == ENV1 || k == ENV0 || k == CLOCK || k == SYSTEM || k == TERMINAL) lie = k;
	call(c, s, o, v);
	lie = 0;
	if (k == TRAPS) fedisableexcept(FE_ALL_EXCEPT);
	if (k == FLAGS) feclearexcept(FE_ALL_EXCEPT);
}
static std::map<std::string, std::string> look(const Word &w)
{
	std::map<std::string, std::string> m;
	for (const char *f : FILES) if (exists(f)) m[f] = slurp(f);
	for (auto &o : w) if (o.k == 'O' && exists(vtu(o))) m[vtu(o)] = slurp(vtu(o));
	return m;
}
static void clean(const Word &w)
{
	for (const char *f : FILES) unlink(f);
	for (auto &o : w) if (o.k == 'O') unlink(vtu(o).c_str());
}
static std::string judge(const Trace &r, int i, const Obs &v, const std::map<std::string, std::string> &f)
{
	if (v.size() != r.obs[i].size() || (v.size() && memcmp(v.data(), r.obs[i].data(), v.size() * sizeof(double)))) return "a result differs";
	for (auto &kv : r.files[i]) {
		auto it = f.find(kv.first);
		if (it == f.end()) return "the file " + kv.first + " is missing";
		if (it->second != kv.second) return "the file " + kv.first + " differs";
	}
	for (auto &kv : f) if (!r.files[i].count(kv.first)) return "there is a file " + kv.first;
	return "";
}
// the setting holds during calls from..to-1
static bool run(const Cfg &c, const Word &w, Kind k, int from, int to, Trace &T, const Trace *ref)
{
	clean(w);
	Sut *s = nullptr;
	Setting g;
	std::string e;
	bool child = false;
	int at = 0;
	for (int i = 0; i < (int)w.size() && e.empty(); i++) {
		at = i;
		if (i == to) g.stop();
		if (i == from && from < to) {
			if (k == CHILD) {
				fflush(stdout);
				pid_t p = fork();
				if (p < 0) { perror("fork"); exit(3); }
				if (p) {
					int st;
					waitpid(p, &st, 0);
					if (!WIFEXITED(st)) e = fmt("the forked process was ended by signal %d", WTERMSIG(st));
					else if (WEXITSTATUS(st)) e = fmt("a result or file differs, after call %d", WEXITSTATUS(st) - 10);
					delete s;
					s = nullptr;
					X.traces++;
					return e.empty() || bad("in a process forked before call " + fmt("%d: ", from) + e);
				}
				child = true;
			} else g.start(k);
		}
		bool here = i >= from && i < to;
		Obs v;
		step(c, s, w[i], v, here ? k : NONE);
		T.obs.push_back(v);
		Kind was = g.k;
		bool on = g.on;
		if (on && k != MASK) g.stop();		// the harness reads files in its own setting
		T.files.push_back(look(w));
		if (ref) { X.checks++; e = judge(*ref, i, v, T.files.back()); }
		X.state(hash_vals(v.data(), v.size(), hash_bytes(KN[here ? k : 0], strlen(KN[here ? k : 0]), i)));
		X.outcome(hash_vals(v.data(), v.size()));
		if (on && k != MASK) g.start(was);
	}
	g.stop();
	if (child) _exit(e.empty() ? 0 : 10 + at);
	delete s;
	X.traces++;
	if (!e.empty()) return bad(fmt("after call %d (%s), with %s during calls %d to %d: ", at, opstr(w[at]).c_str(), KN[k], from, to - 1) + e);
	return true;
}
static void explore(const Cfg &c, const Word &w)
{
	std::string ws;
	for (auto &o : w) ws += " " + opstr(o);
	Trace ref;
	bool have = false;
	for (int k = LOCALE; k < BEFORE; k++) {
		bool here = X.mine();
		if (!here) { X.next++; continue; }
		if (!X.begin(c.str() + " |" + ws + " | " + KN[k] + ", during every interval of calls")) { if (X.stop()) return; continue; }
		if (!have) { run(c, w, NONE, 0, 0, ref, nullptr); have = true; }
		for (int from = 0; from < (int)w.size() && !X.stop(); from++)
			for (int to = from + 1; to <= (int)w.size() && !X.stop(); to++) {
				if (k == CHILD && to < (int)w.size()) continue;
				Trace t;
				if (!run(c, w, (Kind)k, from, to, t, &ref)) break;
			}
		if (!X.stop()) X.sample(X.desc);
		clean(w);
		if (X.stop()) return;
	}
}

// before main(): everything here is done by a constructor of a static object
static Cfg early_cfg(int i)
{
	Cfg c;
	c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; c.mt[0] = 1;
	if (i == 1) { c.n[0] = 3; c.n[1] = 3; c.n[2] = 3; c.width = 0.45; c.mt[1] = 1; c.inv_tol = 1e5; }
	if (i == 2) { c = Cfg(); c.dim = 2; c.n[0] = 4; c.n[1] = 3; }
	return c;
}
static const int NEARLY = 3;
static double early_obs[NEARLY][3][43];
static void early_script(int i, double (*out)[43])
{
	Cfg c = early_cfg(i);
	int sz[3]; double mp[5], par[2 * MAX_MAT_PARAM];
	c.args(sz, mp, par);
	micropp_t *m = new micropp_t(c.dim, sz, c.type, mp, c.mt, par);
	double e[3][6] = {{0.003, 0, 0.001, 0.001, 0, 0}, {-0.001, 0.002, 0, 0, 0.004, -0.002}, {0.0001, 0, 0, 0, 0, 0}};
	for (int q = 0; q < 3; q++) {
		m->set_macro_strain(7, e[q]);
		m->homogenize();
		memset(out[q], 0, sizeof out[q]);
		m->get_macro_stress(7, out[q]);
		m->get_macro_ctan(7, out[q] + 6);
		int f = -7;
		m->get_nl_flag(7, &f);
		out[q][42] = f;
		m->update_vars();
	}
	delete m;
}
struct Early { Early() { for (int i = 0; i < NEARLY; i++) early_script(i, early_obs[i]); } };
static Early early __attribute__((init_priority(101)));

int main(int argc, char **argv)
{
	X.init(argc, argv);
	environ0 = environ;
	open_pty();
	E3 = {{0.003, 0, 0, 0.001, 0, 0}, {-0.001, 0.002, 0, 0, 0.004, -0.002}, {0.0001, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}};
	E2 = {{0.003, 0, 0.001}, {-0.001, 0.002, 0.004}, {0.0001, 0, 0}, {0, 0, 0}};
	for (int i = 0; i < NEARLY; i++) {
		if (!X.begin(early_cfg(i).str() + " | " + KN[BEFORE])) continue;
		double now[3][43];
		early_script(i, now);
		X.checks++;
		X.traces++;
		if (memcmp(now, early_obs[i], sizeof now)) bad("results obtained before main() differ");
	}
	const int A = IDS[0], B = IDS[1];
	std::vector<Word> W;
	W.push_back({{'C'}, {'S', A, 0}, {'H'}, {'W'}, {'O', A, 0}, {'U'}, {'S', A, 1}, {'H'}, {'O', A, 12345}, {'W'}, {'U'}, {'H'}, {'W'}, {'D'}});
	W.push_back({{'C'}, {'S', A, 1}, {'S', B, 3}, {'W'}, {'H'}, {'U'}, {'O', B, 0}, {'W'}, {'S', B, 2}, {'H'}, {'O', A, 0}, {'O', B, 0}, {'W'}, {'U'}, {'W'}, {'D'}});
	std::vector<Cfg> C;
	{
		Cfg c; c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; c.mt[0] = 1; C.push_back(c);
		c.n[0] = 3; c.n[1] = 3; c.n[2] = 3; c.width = 0.45; c.mt[1] = 1; C.push_back(c);
		c.n[0] = 3; c.n[1] = 4; c.n[2] = 2; c.type = 1; c.inv_tol = 1e5; C.push_back(c);
		Cfg d; d.dim = 2; d.n[0] = 4; d.n[1] = 3; C.push_back(d);
		// more than a thousand nodes: numbers that would be grouped
		d.n[0] = 33; d.n[1] = 33; C.push_back(d);
		if (X.thorough) { c.n[0] = c.n[1] = c.n[2] = 4; c.type = 0; c.width = 0.3; C.push_back(c); d.n[0] = d.n[1] = 7; C.push_back(d); }
	}
	for (size_t i = 0; i < C.size(); i++) for (auto &w : W) {
		if (i == 4) { Word s = {{'C'}, {'S', A, 0}, {'H'}, {'O', A, 0}, {'W'}}; explore(C[i], s); break; }
		explore(C[i], w);
		if (X.stop()) break;
	}
	return X.finish();
}
