// C24: a process killed at any moment leaves every earlier report line and every other file intact.
// The word runs in a traced child; after every system call the directory is what a kill at
// that point would leave, and it is judged there.
#include "cell.hpp"
#include <dirent.h>
#include <map>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>

static const char *REP[3] = {"micropp_eps_sig_ctan.dat", "micropp_convergence.dat", "micropp_int_vars_n.dat"};
static bool is_rep(const std::string &f) { for (auto r : REP) if (f == r) return true; return false; }

struct Op { char k; int id, arg; };
static std::string opstr(const Op &o)
{
	switch (o.k) {
	case 'C': return "construct";
	case 'N': return "construct another";
	case 'S': return fmt("set(%d,e%d)", o.id, o.arg);
	case 'H': return "homogenize";
	case 'U': return "commit";
	case 'W': return "report";
	case 'Q': return "query";
	case 'O': return fmt("output(%d,%d)", o.arg, o.id);
	case 'D': return "destroy";
	}
	return "?";
}
static std::string target(const Op &o) { return fmt("micropp_%d_%d.vtu", o.id, o.arg); }

typedef std::map<std::string, std::string> Dir;
static Dir snap()
{
	Dir r;
	DIR *d = opendir(".");
	if (!d) { perror("opendir"); exit(3); }
	while (dirent *e = readdir(d)) {
		if (e->d_name[0] == '.') continue;
		int fd = open(e->d_name, O_RDONLY);
		if (fd < 0) continue;
		std::string s;
		char buf[65536];
		ssize_t n;
		while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
		close(fd);
		r[e->d_name] = s;
	}
	closedir(d);
	return r;
}
static void wipe()
{
	for (auto &f : snap()) unlink(f.first.c_str());
}
static int ndata(const std::string &s)
{
	std::stringstream in(s);
	std::string x;
	int n = 0;
	while (std::getline(in, x)) if (x.find('#') == std::string::npos && x.find_first_not_of(" \t\r") != std::string::npos) n++;
	return n;
}

struct Shared { volatile int started, done; };
static Shared *sh;
static std::vector<std::vector<double>> E3, E2;

static void child(const Cfg &c, const std::vector<Op> &w)
{
	ptrace(PTRACE_TRACEME, 0, 0, 0);
	raise(SIGSTOP);
	Sut *s = nullptr, *t = nullptr;
	double buf[36];
	int f;
	for (int i = 0; i < (int)w.size(); i++) {
		const Op &o = w[i];
		sh->started = i;
		switch (o.k) {
		case 'C': s = new Sut(c); break;
		case 'N': delete t; t = new Sut(c); break;
		case 'S': s->set(o.id, (c.dim == 2 ? E2 : E3)[o.arg].data()); break;
		case 'H': s->hom(); break;
		case 'U': s->commit(); break;
		case 'W': s->m->write_info_files(); break;
		case 'Q': s->m->get_macro_stress(1, buf); s->m->get_macro_ctan(1, buf); s->m->get_nl_flag(1, &f); break;
		case 'O': s->m->output(o.arg, o.id); break;
		case 'D': delete s; s = nullptr; break;
		}
		sh->done = i;
		syscall(SYS_getppid);
	}
	_exit(0);	// no destructors, no flushing: a kill
}

struct Run {
	const Cfg &c;
	const std::vector<Op> &w;
	Dir base;
	std::set<int> ids;	// points introduced
	int lines = 0;		// reports since the last construction
	bool ok = true;
	long points = 0;
	std::string at(int i, const char *when) { return fmt(" %s call %d (%s)", when, i, opstr(w[i]).c_str()); }
	bool bad(const std::string &m) { if (ok) X.fail(m); return ok = false; }
	bool keep(const std::string &f, const Dir &d, int i)
	{
		auto p = d.find(f);
		if (p == d.end()) return bad(f + " is gone" + at(i, "in the middle of"));
		if (p->second != base[f]) return bad(f + " was changed" + at(i, "in the middle of"));
		return true;
	}
	// a kill in the middle of call i
	bool middle(int i)
	{
		Dir d = snap();
		points++;
		X.checks++;
		const Op &o = w[i];
		uint64_t h = hash_bytes(&i, sizeof i, hash_bytes(&o.k, 1));
		for (auto &f : d) h = hash_bytes(f.second.data(), f.second.size(), hash_bytes(f.first.data(), f.first.size(), h));
		X.state(h);
		for (auto &b : base) {
			const std::string &f = b.first;
			if (o.k == 'O' && f == target(o)) continue;
			if ((o.k == 'C' || o.k == 'N') && (is_rep(f) || f == "micropp_materials.dat")) continue;
			if (o.k == 'W' && is_rep(f)) {
				auto p = d.find(f);
				if (p == d.end() || p->second.compare(0, b.second.size(), b.second) != 0) return bad(f + " lost lines of earlier reports" + at(i, "in the middle of"));
				continue;
			}
			if (!keep(f, d, i)) return false;
		}
		return true;
	}
	// call i has returned: its data are in the files
	bool after(int i)
	{
		Dir d = snap();
		X.checks++;
		const Op &o = w[i];
		if (o.k == 'S') ids.insert(o.id);
		if (o.k == 'C' || o.k == 'N') lines = 0;
		if (o.k == 'W') {
			lines++;
			for (auto f : REP) {
				if (!d.count(f) || d[f].empty() || d[f].back() != '\n' || (!ids.empty() && ndata(d[f]) != ndata(base[f]) + 1)) return bad(std::string(f) + " does not hold the new line" + at(i, "after"));
				if (d[f].compare(0, base[f].size(), base[f]) != 0) return bad(std::string(f) + " lost earlier lines" + at(i, "after"));
			}
		} else if (o.k == 'O') {
			if (ids.count(o.id)) {
				std::string &s = d[target(o)];
				size_t e = s.find_last_not_of(" \r\n\t");
				if (e == std::string::npos || e < 9 || s.compare(e - 9, 10, "</VTKFile>") != 0) return bad(target(o) + " is not complete" + at(i, "after"));
			}
		}
		for (auto &b : base) {
			const std::string &f = b.first;
			if ((o.k == 'O' && f == target(o)) || (o.k == 'W' && is_rep(f)) || ((o.k == 'C' || o.k == 'N') && (is_rep(f) || f == "micropp_materials.dat"))) continue;
			if (!d.count(f) || d[f] != b.second) return bad(f + " was changed" + at(i, "by"));
		}
		base = d;
		return true;
	}
	bool go()
	{
		wipe();
		// files of an earlier run
		for (auto f : REP) { std::ofstream o(f); o << "old line 1\nold line 2\n"; }
		{ std::ofstream o("micropp_9_0.vtu"); o << "<VTKFile></VTKFile>\n"; }
		{ std::ofstream o("notes.txt"); o << "not ours\n"; }
		base = snap();
		sh->started = sh->done = -1;
		fflush(stdout);
		pid_t p = fork();
		if (p < 0) { perror("fork"); exit(3); }
		if (p == 0) child(c, w);
		int st;
		if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) { fprintf(stderr, "tracing is not possible here\n"); kill(p, SIGKILL); waitpid(p, &st, 0); exit(3); }
		if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { perror("ptrace"); kill(p, SIGKILL); exit(3); }
		int sig = 0, judged = -1;
		bool entry = true;
		long nr = 0;
		while (true) {
			if (ptrace(PTRACE_SYSCALL, p, 0, sig)) break;
			sig = 0;
			if (waitpid(p, &st, 0) != p) break;
			if (WIFEXITED(st) || WIFSIGNALED(st)) break;
			if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); if (sig == SIGTRAP || sig == SIGSTOP) sig = 0; continue; }
			if (entry) {
				user_regs_struct r;
				nr = ptrace(PTRACE_GETREGS, p, 0, &r) == 0 ? (long)r.orig_rax : -1;
				entry = false;
				continue;
			}
			entry = true;
			X.transitions++;
			int sd = sh->started, dn = sh->done;
			if (dn > judged) { judged = dn; if (ok && !after(dn)) break; }
			else if (sd > dn) {
				switch (nr) {	// these change no file
				case SYS_brk: case SYS_mmap: case SYS_munmap: case SYS_mprotect: case SYS_read: case SYS_fstat: case SYS_newfstatat: case SYS_lseek: case SYS_getppid: case SYS_rt_sigaction: case SYS_rt_sigprocmask: case SYS_futex: continue;
				}
				if (!middle(sd)) break;
			}
		}
		if (!ok) { kill(p, SIGKILL); waitpid(p, &st, __WALL); return false; }
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return bad(fmt("the run ended with status %d in call %d", st, (int)sh->started));
		Dir d = snap();
		if (d != base) return bad("the files changed after the last call");
		X.outcome(points * 1000 + lines);
		X.traces++;
		return true;
	}
};

static void words(const Cfg &c, const std::vector<Op> &pre, const std::vector<Op> &A, int n)
{
	std::vector<int> x(n, 0);
	while (true) {
		bool here = X.mine();
		if (!here) X.next++;
		else {
			std::vector<Op> w(pre);
			std::string d;
			for (int i : x) w.push_back(A[i]);
			for (auto &o : w) d += " " + opstr(o);
			if (X.begin(c.str() + " |" + d + " | killed after every system call")) {
				Run r{c, w};
				r.go();
				if (!X.stop()) X.sample(X.desc + fmt(": %ld points", r.points));
			}
		}
		if (X.stop()) return;
		int p = n - 1;
		while (p >= 0 && ++x[p] == (int)A.size()) x[p--] = 0;
		if (p < 0) return;
	}
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	if (mkdir("d", 0755) && errno != EEXIST) { perror("mkdir"); return 3; }
	if (chdir("d")) return 3;
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	E3 = {{0.003, 0, 0, 0.001, 0, 0}, {-0.001, 0.002, 0, 0, 0.004, -0.002}};
	E2 = {{0.003, 0, 0.001}, {-0.001, 0.002, 0.004}};
	Cfg c; c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; c.mt[0] = 1;
	std::vector<Op> pre = {{'C'}, {'S', 1, 0}, {'H'}};
	int t = X.thorough;
	words(c, pre, {{'S', 2, 1}, {'H'}, {'U'}, {'W'}, {'Q'}, {'O', 1, 0}, {'O', 1, 1}, {'O', 2, 0}, {'N'}, {'D'}}, 1);
	words(c, pre, {{'S', 2, 1}, {'H'}, {'U'}, {'W'}, {'Q'}, {'O', 1, 0}, {'O', 1, 1}, {'O', 2, 0}, {'N'}}, 3 + t);
	words(c, pre, {{'H'}, {'W'}, {'O', 1, 0}, {'U'}}, 5 + t);
	words(c, {{'C'}}, {{'S', 1, 0}, {'H'}, {'W'}, {'O', 1, 0}}, 5 + t);
	Cfg e; e.n[0] = e.n[1] = 3; e.n[2] = 4; e.mt[0] = e.mt[1] = 1; e.width = 0.4;
	words(e, pre, {{'S', 2, 1}, {'H'}, {'U'}, {'W'}, {'O', 1, 0}, {'O', 2, 0}}, 2 + t);
	Cfg f; f.dim = 2; f.n[0] = 5; f.n[1] = 4;
	words(f, pre, {{'S', 2, 1}, {'H'}, {'U'}, {'W'}, {'O', 1, 0}, {'O', 2, 0}, {'N'}}, 3 + t);
	// many reports and outputs in a row
	for (auto &g : {c, e, f}) for (int n : {40, 130}) {
		std::vector<Op> w(pre);
		for (int i = 0; i < n; i++) { w.push_back({'W'}); if (i % 13 == 0) w.push_back({'O', 1, i % 3}); if (i % 17 == 0) { w.push_back({'S', 1, i & 1}); w.push_back({'H'}); w.push_back({'U'}); } }
		words(g, w, {{'W'}}, 1);
	}
	// several points, several instances in a row
	for (auto &g : {c, e, f}) for (int n : {5, 9, 40}) {
		std::vector<Op> w = {{'C'}};
		for (int i = 0; i < n; i++) w.push_back({'S', i == 3 ? 1 : 100 + i, i & 1});
		w.push_back({'H'}); w.push_back({'W'});
		words(g, w, {{'S', 105, 0}, {'H'}, {'U'}, {'W'}, {'O', 102, 0}, {'N'}}, n < 9 ? 3 : 2);
	}
	if (chdir("..")) return 3;
	return X.finish();
}
