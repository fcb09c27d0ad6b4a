// Explorer: exhaustive enumeration of numbered cases.
//
// A harness is a deterministic nest of loops over its alphabet that calls
// X.begin(description) for every case; the explorer numbers the cases, runs
// those of its shard and skips the rest, so that shards partition the space
// and one number identifies one case for replay.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

inline std::string fmt(const char *f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
// value hash of a vector of doubles, rounded so that the last digits do not split states
inline uint64_t hash_vals(const double *v, size_t n, uint64_t h = 1469598103934665603ull)
{
	for (size_t i = 0; i < n; i++) {
		float f = (float)v[i];
		uint32_t b; memcpy(&b, &f, 4);
		b &= 0xffffff00u;
		if ((b << 1) == 0) b = 0;
		h = hash_bytes(&b, 4, h);
	}
	return h;
}

struct Explorer {
	bool thorough = false;
	int shard = 0, shards = 1;
	long only = -1, upto = -1;
	double soft = 1e9;		// wall seconds after which enumeration stops (reported as capped)
	int case_cpu = 120;		// CPU seconds one case may take
	std::string variant;		// free argument for harnesses with several binaries or modes
	long next = 0, cur = -1, run = 0, nfail = 0;
	bool skip_rest = false, capped = false, verbose = false;
	std::string desc;
	std::vector<std::string> samples;
	std::unordered_set<uint64_t> states;
	std::unordered_set<uint64_t> outcomes;
	long transitions = 0, traces = 0, checks = 0;
	long *progress = nullptr;
	double t0 = 0;
	std::set<std::string> kf_seen;

	static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
	static void on_cpu(int) { _exit(97); }

	void init(int argc, char **argv)
	{
		std::string prog;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto val = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "missing value of %s\n", a.c_str()); exit(3); } return argv[++i]; };
			if (a == "--tier") thorough = std::string(val()) == "thorough";
			else if (a == "--shard") shard = atoi(val());
			else if (a == "--shards") shards = atoi(val());
			else if (a == "--case") only = atol(val());
			else if (a == "--upto") upto = atol(val());
			else if (a == "--soft") soft = atof(val());
			else if (a == "--cpu") case_cpu = atoi(val());
			else if (a == "--variant") variant = val();
			else if (a == "--progress") prog = val();
			else if (a == "-v") verbose = true;
			else { fprintf(stderr, "bad argument %s\n", a.c_str()); exit(3); }
		}
		static long dummy;
		progress = &dummy;
		if (!prog.empty()) {
			int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
			if (fd < 0 || ftruncate(fd, sizeof(long))) { perror("progress"); exit(3); }
			void *p = mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p == MAP_FAILED) { perror("progress"); exit(3); }
			progress = (long *)p;
			close(fd);
		}
		*progress = -1;
		t0 = now();
		signal(SIGVTALRM, on_cpu);
		arm();
	}
	void arm()
	{
		itimerval it;
		memset(&it, 0, sizeof it);
		it.it_value.tv_sec = case_cpu;
		setitimer(ITIMER_VIRTUAL, &it, nullptr);
	}
	// true if the case is to be run now
	bool begin(const std::string &d)
	{
		long id = next++;
		if (skip_rest) return false;
		if (only >= 0) { if (id != only) return false; }
		else if (id % shards != shard) return false;
		if (upto >= 0 && id > upto) { skip_rest = true; return false; }
		if (only < 0 && now() - t0 > soft) { capped = true; skip_rest = true; return false; }
		cur = id; desc = d; *progress = id; run++;
		arm();
		if (verbose) printf("CASE %ld %s\n", id, d.c_str());
		return true;
	}
	bool mine() const	// would begin() run the next case?  (to skip expensive preparation)
	{
		if (skip_rest) return false;
		if (only >= 0) return next == only;
		return next % shards == shard;
	}
	void fail(const std::string &msg)
	{
		nfail++;
		std::string m = msg;
		for (char &c : m) if (c == '\n' || c == '\t') c = ' ';
		std::string d = desc;
		for (char &c : d) if (c == '\n' || c == '\t') c = ' ';
		printf("FAIL\t%ld\t%s\t%s\n", cur, d.c_str(), m.c_str());
		fflush(stdout);
		skip_rest = true;	// one counterexample per shard is enough
	}
	void known(const std::string &key)	// a listed finding reproduced
	{
		if (kf_seen.insert(key).second) printf("KNOWN\t%s\n", key.c_str());
	}
	bool stop() const { return skip_rest; }
	void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
	void state(uint64_t h) { states.insert(h); }
	void outcome(uint64_t h) { outcomes.insert(h); }
	int finish(const char *statefile = "states.bin")
	{
		for (auto &s : samples) { std::string t = s; for (char &c : t) if (c == '\n' || c == '\t') c = ' '; printf("SAMPLE\t%s\n", t.c_str()); }
		FILE *f = fopen(statefile, "wb");
		if (f) {
			for (uint64_t h : states) fwrite(&h, 8, 1, f);
			fclose(f);
		}
		f = fopen("outcomes.bin", "wb");
		if (f) {
			for (uint64_t h : outcomes) fwrite(&h, 8, 1, f);
			fclose(f);
		}
		printf("STAT\t%ld\t%ld\t%ld\t%ld\t%ld\t%d\n", next, run, transitions, traces, checks, (int)capped);
		printf("DONE\t%ld\n", nfail);
		fflush(stdout);
		return nfail ? 1 : 0;
	}
};

static Explorer X;

inline double amax(const double *v, int n) { double m = 0; for (int i = 0; i < n; i++) m = std::fmax(m, std::fabs(v[i])); return m; }
inline double dmax(const double *a, const double *b, int n)
{
	double m = 0;
	for (int i = 0; i < n; i++) {
		double d = std::fabs(a[i] - b[i]);
		if (!(d <= m)) m = std::isnan(d) ? INFINITY : d;
	}
	return m;
}
inline std::string vec(const double *v, int n)
{
	std::string s = "[";
	for (int i = 0; i < n; i++) s += fmt(i ? " %.9g" : "%.9g", v[i]);
	return s + "]";
}
// |a-b| <= tol for all n entries, else a failure is recorded
inline bool same(const char *what, const double *got, const double *want, int n, double tol)
{
	X.checks++;
	double d = dmax(got, want, n);
	if (d <= tol) return true;
	int w = 0; double wd = -1;
	for (int i = 0; i < n; i++) { double e = std::fabs(got[i] - want[i]); if (std::isnan(e)) e = INFINITY; if (e > wd) { wd = e; w = i; } }
	X.fail(fmt("%s: component %d is %.10g, expected %.10g (difference %.3g, allowed %.3g)", what, w, got[w], want[w], wd, tol));
	return false;
}

// de Bruijn sequence: every word of length n over k letters occurs in it (cyclically closed here)
inline std::vector<int> de_bruijn(int k, int n)
{
	std::vector<int> a((size_t)k * n + 1, 0), out;
	struct R { static void db(int t, int p, int k, int n, std::vector<int> &a, std::vector<int> &o) {
		if (t > n) { if (n % p == 0) o.insert(o.end(), a.begin() + 1, a.begin() + p + 1); return; }
		a[t] = a[t - p];
		db(t + 1, p, k, n, a, o);
		for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; db(t + 1, t, k, n, a, o); }
	} };
	R::db(1, 1, k, n, a, out);
	for (int i = 0; i + 1 < n; i++) out.push_back(out[i]);
	return out;
}
