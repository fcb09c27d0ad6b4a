// C23: trouble with files (names taken by directories, full disk, no descriptors, working
// directory gone, torn writes) never changes a result, and what can be written is written.
#include "cell.hpp"
#include <map>
#include <array>

static const char *REP[3] = {"micropp_eps_sig_ctan.dat", "micropp_convergence.dat", "micropp_int_vars_n.dat"};
static const char *MAT = "micropp_materials.dat";
static bool bad(const std::string &m) { X.fail(m); return false; }

struct Op { char k; int id, arg; };
static std::string opstr(const Op &o)
{
	switch (o.k) {
	case 'C': return "construct";
	case 'S': return fmt("set(%d,e%d)", o.id, o.arg);
	case 'H': return "homogenize";
	case 'U': return "commit";
	case 'W': return "report";
	case 'O': return fmt("output(%d,%d)", o.arg, o.id);
	}
	return "destroy";
}
static std::string vtu(const Op &o) { return fmt("micropp_%d_%d.vtu", o.id, o.arg); }

enum Kind { NONE, DIRECTORY, FULL, DANGLING, NOCWD, NOFD, FSIZE0, FSIZE100 };
static const char *KN[] = {"no trouble", "the name is a directory", "the disk is full", "the path does not exist", "the working directory is gone", "no file descriptor is left", "files cannot grow", "files cannot grow beyond 100 bytes"};

struct Fault {
	Kind k = NONE;
	std::string file;
	std::string str() const { return file + (file.empty() ? "" : ": ") + KN[k]; }
	bool hits(const std::string &f) const { return k >= NOCWD || f == file; }
	bool torn() const { return k == FSIZE100; }
};

static void clean()
{
	for (const char *f : REP) unlink(f);
	unlink(MAT);
	for (int id : {1, -4}) for (int t = 0; t < 3; t++) unlink(fmt("micropp_%d_%d.vtu", id, t).c_str());
}

struct Trouble {
	Fault f;
	int home = -1;
	rlimit old;
	bool on = false, saved = false;
	void start(const Fault &f_)
	{
		f = f_; on = true; saved = false;
		if (f.k >= DIRECTORY && f.k <= DANGLING) {
			saved = rename(f.file.c_str(), "saved.aside") == 0;
			int r = f.k == DIRECTORY ? mkdir(f.file.c_str(), 0755) : f.k == FULL ? symlink("/dev/full", f.file.c_str()) : symlink("no_such_dir/x", f.file.c_str());
			if (r) { perror("fault"); exit(3); }
		} else if (f.k == NOCWD) {
			home = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
			if (home < 0 || mkdir("gone.d", 0755) || chdir("gone.d") || rmdir("../gone.d")) { perror("fault"); exit(3); }
		} else if (f.k == NOFD) {
			int fd = open(".", O_RDONLY);
			close(fd);
			getrlimit(RLIMIT_NOFILE, &old);
			rlimit n = old; n.rlim_cur = fd;
			setrlimit(RLIMIT_NOFILE, &n);
		} else {
			getrlimit(RLIMIT_FSIZE, &old);
			rlimit n = old; n.rlim_cur = f.k == FSIZE0 ? 0 : 100;
			setrlimit(RLIMIT_FSIZE, &n);
		}
	}
	void stop()
	{
		if (!on) return;
		on = false;
		if (f.k >= DIRECTORY && f.k <= DANGLING) {
			if (unlink(f.file.c_str())) rmdir(f.file.c_str());
			if (saved) rename("saved.aside", f.file.c_str());
		} else if (f.k == NOCWD) {
			if (fchdir(home)) { perror("fchdir"); exit(3); }
			close(home);
		} else if (f.k == NOFD) setrlimit(RLIMIT_NOFILE, &old);
		else setrlimit(RLIMIT_FSIZE, &old);
	}
};

typedef std::vector<double> Obs;
struct Trace {
	std::vector<Obs> obs;				// after every call
	std::map<int, std::array<std::string, 3>> lines;	// call -> what the report added
	std::map<int, std::array<std::string, 3>> added;	// call -> all it appended, headings included
	std::map<int, std::string> files;		// call -> contents of its output file
	std::string mat;
};

static std::vector<std::string> data_lines(const std::string &s)
{
	std::vector<std::string> r;
	std::stringstream in(s);
	std::string x;
	while (std::getline(in, x)) if (x.find('#') == std::string::npos && x.find_first_not_of(" \t\r") != std::string::npos) r.push_back(x);
	return r;
}

static std::vector<std::vector<double>> E3, E2;
static const std::vector<double> &strain(const Cfg &c, int i) { return c.dim == 2 ? E2[i] : E3[i]; }

static void observe(Sut *s, Obs &o)
{
	if (!s) return;
	for (int id : {1, -4}) {
		auto a = s->sig(id), b = s->tan(id);
		o.insert(o.end(), a.begin(), a.end());
		o.insert(o.end(), b.begin(), b.end());
		o.push_back(s->flag(id));
	}
}
static bool bits(const Obs &a, const Obs &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }

static void call(const Cfg &c, Sut *&s, const Op &o)
{
	X.transitions++;
	switch (o.k) {
	case 'C': s = new Sut(c); break;
	case 'S': s->set(o.id, strain(c, o.arg).data()); break;
	case 'H': s->hom(); break;
	case 'U': s->commit(); break;
	case 'W': s->m->write_info_files(); break;
	case 'O': s->m->output(o.arg, o.id); break;
	case 'D': delete s; s = nullptr; break;
	}
}

// run with the trouble present during calls from..to-1
static bool run(const Cfg &c, const std::vector<Op> &w, const Fault &f, int from, int to, Trace &T, const Trace *ref)
{
	clean();
	Sut *s = nullptr;
	Trouble t;
	bool ok = true;
	std::string before[3];
	for (int i = 0; ok && i < (int)w.size(); i++) {
		if (f.k && i == to) t.stop();
		if (f.k && i == from && from < to) t.start(f);
		bool ill = t.on;
		if (!ill) for (int k = 0; k < 3; k++) before[k] = slurp(REP[k]);
		call(c, s, w[i]);
		Obs o;
		observe(s, o);
		T.obs.push_back(o);
		if (ref) {
			X.checks++;
			if (!bits(o, ref->obs[i])) { ok = bad(fmt("results after call %d (%s) differ from those without trouble", i, opstr(w[i]).c_str())); break; }
		}
		// what can be written is written
		if (w[i].k == 'O' && !(ill && f.hits(vtu(w[i])))) {
			std::string got = slurp(vtu(w[i]));
			T.files[i] = got;
			if (ref && got != ref->files.at(i)) { ok = bad(fmt("the file of call %d (%s) differs from the one without trouble", i, opstr(w[i]).c_str())); break; }
		}
		if (w[i].k == 'C' && !(ill && f.hits(MAT))) {
			T.mat = slurp(MAT);
			if (ref && T.mat != ref->mat) { ok = bad("the material file differs from the one without trouble"); break; }
		}
		if (w[i].k == 'W') {
			std::array<std::string, 3> L;
			for (int k = 0; k < 3; k++) {
				if (ill && f.hits(REP[k])) continue;
				auto d = data_lines(slurp(REP[k]));
				L[k] = d.empty() ? "" : d.back();
				if (ref && !f.torn() && L[k] != ref->lines.at(i)[k]) { ok = bad(fmt("%s: the line of call %d (report) differs from the one without trouble", REP[k], i)); break; }
			}
			T.lines[i] = L;
			// trouble that no report met leaves no trace in any report
			bool met = false;
			for (int j = from; f.k && j < to && j < (int)w.size(); j++) met |= w[j].k == 'W';
			if (ok && !met) for (int k = 0; k < 3; k++) {
				std::string now = slurp(REP[k]);
				T.added[i][k] = now.compare(0, before[k].size(), before[k]) == 0 ? now.substr(before[k].size()) : "?";
				if (ref && T.added[i][k] != ref->added.at(i)[k]) { ok = bad(fmt("%s: what call %d (report) adds differs from what it adds when there never was trouble", REP[k], i)); break; }
			}
		}
		X.state(hash_vals(o.data(), o.size(), hash_bytes(KN[ill ? f.k : 0], strlen(KN[ill ? f.k : 0]), i)));
		X.outcome(hash_vals(o.data(), o.size()));
	}
	t.stop();
	// the report files at the end: all lines written outside the trouble, in order, and no others
	if (ok && ref && !f.torn()) for (int k = 0; ok && k < 3; k++) {
		X.checks++;
		auto d = data_lines(slurp(REP[k]));
		std::vector<std::pair<std::string, bool>> L;	// line, may be missing
		for (auto &kv : ref->lines) if (!kv.second[k].empty()) L.push_back({kv.second[k], kv.first >= from && kv.first < to && f.hits(REP[k])});
		std::set<size_t> at = {0};	// numbers of lines of the file accounted for
		for (auto &l : L) {
			std::set<size_t> n;
			for (size_t p : at) {
				if (p < d.size() && d[p] == l.first) n.insert(p + 1);
				if (l.second) n.insert(p);
			}
			at = n;
		}
		if (!at.count(d.size())) ok = bad(fmt("%s: %zu lines at the end, not the ones of the reports made without trouble", REP[k], d.size()));
	}
	delete s;
	X.traces++;
	return ok;
}

static void explore(const Cfg &c, const std::vector<Op> &w, const std::vector<Fault> &F)
{
	std::string ws;
	for (auto &o : w) ws += " " + opstr(o);
	Trace ref;
	bool have = false;
	for (auto &f : F) {
		bool here = X.mine();
		if (!here) { X.next++; continue; }
		if (!X.begin(c.str() + " |" + ws + " | " + f.str() + ", during every interval of calls")) { if (X.stop()) return; continue; }
		if (!have) { run(c, w, Fault(), 0, 0, ref, nullptr); have = true; }
		for (int from = 0; from < (int)w.size() && !X.stop(); from++)
			for (int to = from + 1; to <= (int)w.size() && !X.stop(); to++) {
				Trace t;
				if (!run(c, w, f, from, to, t, &ref)) { X.desc += fmt(" (here calls %d to %d)", from, to - 1); break; }
			}
		if (!X.stop()) X.sample(X.desc);
		clean();
		if (X.stop()) return;
	}
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	signal(SIGXFSZ, SIG_IGN);
	E3 = {{0.003, 0, 0, 0.001, 0, 0}, {-0.001, 0.002, 0, 0, 0.004, -0.002}, {0.0001, 0, 0, 0, 0, 0}};
	E2 = {{0.003, 0, 0.001}, {-0.001, 0.002, 0.004}, {0.0001, 0, 0}};
	std::vector<std::vector<Op>> W;
	W.push_back({{'C'}, {'S', 1, 0}, {'H'}, {'W'}, {'O', 1, 0}, {'U'}, {'S', 1, 1}, {'H'}, {'O', 1, 1}, {'W'}, {'U'}, {'H'}, {'W'}, {'D'}});
	W.push_back({{'C'}, {'S', 1, 1}, {'S', -4, 0}, {'W'}, {'H'}, {'U'}, {'O', -4, 0}, {'W'}, {'S', -4, 2}, {'H'}, {'O', 1, 0}, {'O', -4, 0}, {'W'}, {'U'}, {'W'}, {'D'}, {'C'}, {'S', 1, 0}, {'H'}});
	W[1].resize(16);
	std::vector<Cfg> C;
	{
		Cfg c; c.n[0] = c.n[1] = c.n[2] = 2; c.width = 0; c.mt[0] = 1; C.push_back(c);
		c.n[0] = 3; c.n[1] = 3; c.n[2] = 3; c.width = 0.45; c.mt[1] = 1; C.push_back(c);
		c.n[0] = 3; c.n[1] = 4; c.n[2] = 2; c.type = 1; c.inv_tol = 1e5; C.push_back(c);
		Cfg d; d.dim = 2; d.n[0] = 4; d.n[1] = 3; C.push_back(d);
		if (X.thorough) { c.n[0] = c.n[1] = c.n[2] = 4; c.type = 0; c.width = 0.3; C.push_back(c); d.n[0] = d.n[1] = 7; C.push_back(d); }
	}
	for (auto &c : C) for (auto &w : W) {
		std::vector<Fault> F;
		std::set<std::string> names = {REP[0], REP[1], REP[2], MAT};
		for (auto &o : w) if (o.k == 'O') names.insert(vtu(o));
		for (auto &n : names) for (Kind k : {DIRECTORY, FULL, DANGLING}) { Fault f; f.k = k; f.file = n; F.push_back(f); }
		for (Kind k : {NOCWD, NOFD, FSIZE0, FSIZE100}) { Fault f; f.k = k; F.push_back(f); }
		explore(c, w, F);
	}
	return X.finish();
}
