// C25: instances used by different threads at the same time.
// Two real threads under a controlled scheduler: only one runs, and it can be stopped at every basic
// block of the library (compiled with -fsanitize-coverage=trace-pc). All schedules up to the bound are run.
// With -DFREE the threads run freely and the library is compiled with the race detector.
#include "cell.hpp"
#include <algorithm>
#include <errno.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>

struct Op { char k; int arg; };
typedef std::vector<Op> Word;
static std::vector<std::vector<double>> E3, E2;

struct Th {
	int id;			// Gauss point and name of its output file
	const Cfg *c;
	const Word *w;
	sem_t go;
	volatile long cnt = 0;
	std::vector<long> stops;
	size_t at = 0;
	volatile bool finished = false;
	std::vector<double> obs;
	std::string files;
	// recording of locations
	bool record = false;
	std::vector<uintptr_t> where;	// location of every block
	std::vector<long> calls;	// block count at every call boundary
};
static Th th[2];
static sem_t main_sem;
static volatile bool overlap;
static __thread int me = -1;

static void hand_over()
{
	Th &t = th[me], &o = th[1 - me];
	if (o.finished || overlap) return;
	sem_post(&o.go);
	long seen = -1;
	while (true) {
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		ts.tv_nsec += 300000000;
		if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
		if (sem_timedwait(&t.go, &ts) == 0) return;
		if (errno != ETIMEDOUT) continue;
		// the other one does not move: it waits for something this thread holds
		if (o.cnt == seen) { overlap = true; return; }
		seen = o.cnt;
	}
}
extern "C" void __sanitizer_cov_trace_pc()
{
	if (me < 0) return;
	Th &t = th[me];
	t.cnt = t.cnt + 1;
	if (t.record) t.where.push_back((uintptr_t)__builtin_return_address(0));
	if (t.at < t.stops.size() && t.cnt == t.stops[t.at]) { t.at++; hand_over(); }
}

static void run_word(Th &t)
{
	Sut *s = nullptr;
	for (auto &o : *t.w) {
		if (t.record) t.calls.push_back((long)t.cnt);
		switch (o.k) {
		case 'C': s = new Sut(*t.c); break;
		case 'S': s->set(t.id, (t.c->dim == 2 ? E2 : E3)[o.arg].data()); break;
		case 'H': s->hom(); break;
		case 'U': s->commit(); break;
		case 'W': s->m->write_info_files(); break;
		case 'O': {
			s->m->output(o.arg, t.id);
			int keep = me; me = -1;
			t.files += slurp(fmt("micropp_%d_%d.vtu", t.id, o.arg));
			me = keep;
			break;
		}
		case 'G': {
			auto a = s->sig(t.id), b = s->tan(t.id);
			t.obs.insert(t.obs.end(), a.begin(), a.end());
			t.obs.insert(t.obs.end(), b.begin(), b.end());
			t.obs.push_back(s->flag(t.id));
			break;
		}
		case 'D': delete s; s = nullptr; break;
		}
	}
}
static void *body(void *p)
{
	Th &t = *(Th *)p;
#ifndef FREE
	while (sem_wait(&t.go)) {}
#endif
	me = t.id - 1;
	run_word(t);
	me = -1;
	t.finished = true;
#ifndef FREE
	Th &o = th[2 - t.id];
	if (!o.finished && !overlap) sem_post(&o.go);
#endif
	return nullptr;
}
// one schedule: thread 0 starts and runs to its first stop, and so on in turns
static void schedule(const std::vector<long> &s0, const std::vector<long> &s1)
{
	pthread_t p[2];
	overlap = false;
	for (int i = 0; i < 2; i++) {
		Th &t = th[i];
		t.id = i + 1; t.cnt = 0; t.at = 0; t.finished = false; t.obs.clear(); t.files.clear(); t.where.clear(); t.calls.clear();
		t.stops = i ? s1 : s0;
		sem_init(&t.go, 0, 0);
	}
	for (int i = 0; i < 2; i++) if (pthread_create(&p[i], nullptr, body, &th[i])) { perror("pthread_create"); exit(3); }
	sem_post(&th[0].go);
	for (int i = 0; i < 2; i++) pthread_join(p[i], nullptr);
	for (int i = 0; i < 2; i++) sem_destroy(&th[i].go);
	X.traces++;
}

struct Base { std::vector<double> obs; std::string files; };
static bool agree(const Base *b, const std::string &how)
{
	for (int i = 0; i < 2; i++) {
		X.checks++;
		auto &o = th[i].obs;
		size_t n = 0;
		while (n < o.size() && n < b[i].obs.size() && !memcmp(&o[n], &b[i].obs[n], 8)) n++;
		if (n < o.size() || o.size() != b[i].obs.size()) { X.fail(fmt("thread %d: number %zu it reads is %.17g, alone %.17g; ", i, n, n < o.size() ? o[n] : NAN, n < b[i].obs.size() ? b[i].obs[n] : NAN) + how); return false; }
		if (th[i].files != b[i].files) { X.fail(fmt("thread %d: its output file differs from the one written alone; ", i) + how); return false; }
		X.outcome(hash_vals(o.data(), o.size()));
	}
	return true;
}

static void duo(const char *name, const Cfg &a, const Word &wa, const Cfg &b, const Word &wb, int occ, bool two, bool late = true)
{
	th[0].c = &a; th[0].w = &wa; th[1].c = &b; th[1].w = &wb;
	std::string d = std::string(name) + ": " + a.str() + " and " + b.str();
#ifdef FREE
	(void)occ;
	for (int r = 0; r < 3; r++) {
		if (!X.begin(d + fmt(" | running freely, %d", r))) continue;
		Base B[2];
		for (int i = 0; i < 2; i++) {
			// alone
			Th &t = th[i];
			t.id = i + 1; t.obs.clear(); t.files.clear();
			run_word(t);
			B[i].obs = t.obs; B[i].files = t.files;
		}
		schedule({}, {});
		if (!agree(B, "running freely")) return;
		X.state(hash_bytes(X.desc.data(), X.desc.size()));
	}
#else
	Base B[2];
	std::vector<long> K[2], calls[2];
	std::vector<uintptr_t> where[2];
	bool have = false;
	auto prepare = [&] {
		if (have) return;
		have = true;
		th[0].record = th[1].record = true;
		schedule({}, {});
		th[0].record = th[1].record = false;
		for (int i = 0; i < 2; i++) {
			B[i].obs = th[i].obs; B[i].files = th[i].files;
			calls[i] = th[i].calls;
			where[i] = th[i].where;
			// occurrences of every location within every call: the first occ of them and the last (occ < 0: all)
			auto &w = th[i].where;
			std::set<long> ks;
			for (size_t q = 0; q < calls[i].size(); q++) {
				long from = calls[i][q], to = q + 1 < calls[i].size() ? calls[i][q + 1] : (long)w.size();
				std::map<uintptr_t, int> n;
				std::map<uintptr_t, long> last;
				for (long j = from; j < to; j++) { if (occ < 0 || n[w[j]]++ < occ) ks.insert(j + 1); last[w[j]] = j + 1; }
				if (occ > 0) for (auto &l : last) ks.insert(l.second);
			}
			K[i].assign(ks.begin(), ks.end());
		}
	};
	prepare();	// deterministic, and needed for the number of cases
	auto at = [&](long k) { return fmt("thread 0 stopped at block %ld of %zu", k, where[0].size()); };
	// one preemption: thread 0 stops anywhere, thread 1 runs its whole word
	const size_t blk = 200;
	for (size_t b0 = 0; b0 < K[0].size(); b0 += blk) {
		if (!X.begin(d + fmt(" | one preemption, points %zu.. of %zu", b0, K[0].size()))) { if (X.stop()) return; continue; }
		for (size_t i = b0; i < std::min(K[0].size(), b0 + blk); i++) {
			schedule({K[0][i]}, {});
			X.state(hash_bytes(&where[0][K[0][i] - 1], 8, hash_bytes(d.data(), d.size())));
			if (!agree(B, at(K[0][i]))) return;
		}
		X.sample(X.desc);
	}
	// two: thread 1 has made some of its calls when thread 0 starts; it goes on when thread 0 is stopped
	std::vector<long> K1;
	{
		std::set<uintptr_t> seen;
		for (long k : K[0]) if (two || seen.insert(where[0][k - 1]).second) K1.push_back(k);
	}
	for (size_t q = 1; late && q < calls[1].size(); q++) for (size_t b0 = 0; b0 < K1.size(); b0 += blk) {
		if (!X.begin(d + fmt(" | thread 1 has made %zu calls, then thread 0 is preempted, points %zu.. of %zu", q, b0, K1.size()))) { if (X.stop()) return; continue; }
		// thread 0 hands over at once (block 1), thread 1 runs up to that call
		for (size_t i = b0; i < std::min(K1.size(), b0 + blk); i++) {
			if (K1[i] < 2) continue;
			schedule({1, K1[i]}, {calls[1][q] + 1});
			X.state(hash_bytes(&where[0][K1[i] - 1], 8, hash_bytes(d.data(), d.size(), q)));
			if (!agree(B, at(K1[i]) + fmt(", thread 1 after %zu calls", q))) return;
		}
	}
	// both stopped anywhere: thread 0 at k, thread 1 at j, thread 0 ends, thread 1 ends
	if (two) {
		std::vector<long> F[2];
		for (int i = 0; i < 2; i++) { std::set<uintptr_t> seen; for (long k : K[i]) if (seen.insert(where[i][k - 1]).second) F[i].push_back(k); }
		for (size_t i = 0; i < F[0].size(); i++) {
			if (!X.begin(d + fmt(" | both preempted, thread 0 at block %ld", F[0][i]))) { if (X.stop()) return; continue; }
			for (long j : F[1]) {
				schedule({F[0][i]}, {j});
				X.state(hash_bytes(&where[1][j - 1], 8, hash_bytes(&where[0][F[0][i] - 1], 8)));
				if (!agree(B, at(F[0][i]) + fmt(", thread 1 at %ld of %zu", j, where[1].size()))) return;
			}
		}
	}
#endif
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	E3 = {{0.003, 0, 0, 0.001, 0, 0}, {-0.001, 0.002, 0, 0, 0.004, -0.002}, {1e-4, 0, 0, 0, 0, 0}};
	E2 = {{0.003, 0, 0.001}, {-0.001, 0.002, 0.004}, {1e-4, 0, 0}};
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double E, double itol = 0) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.E[0] = E; c.nu[0] = 0.25; c.Sy[0] = 1e-3 * E; c.Ka[0] = 0.05 * E; c.mt[0] = m0;
		c.E[1] = 2 * E; c.nu[1] = 0.3; c.Sy[1] = 3e-3 * E; c.Ka[1] = 0.2 * E; c.mt[1] = m1;
		c.L[1] = 1.2; c.L[2] = 0.9;
		c.settle();
		return c;
	};
	Word full = {{'C'}, {'S', 0}, {'H'}, {'G'}, {'U'}, {'S', 1}, {'H'}, {'G'}, {'W'}, {'O', 0}, {'G'}, {'D'}};
	Word other = {{'C'}, {'S', 1}, {'H'}, {'U'}, {'S', 0}, {'H'}, {'G'}, {'O', 0}, {'W'}, {'D'}};
	Word brief = {{'C'}, {'S', 0}, {'H'}, {'G'}, {'D'}}, brief3 = {{'C'}, {'S', 1}, {'H'}, {'G'}, {'D'}}, brief2 = {{'C'}, {'S', 1}, {'H'}, {'G'}, {'O', 0}, {'D'}};
	Cfg flat = conf(2, 2, 2, 1, 0, 0.3, 0, 0, 1e9), flat3 = conf(2, 3, 3, 1, 1, 0.6, 0, 0, 1e8), flat4 = conf(2, 4, 3, 1, 0, 0.4, 0, 0, 3e9, 1e6);
	Cfg one = conf(3, 2, 2, 2, 0, 0, 1, 0, 1e9), two = conf(3, 2, 3, 2, 1, 0.6, 1, 1, 2e8), box = conf(3, 3, 3, 3, 1, 0.6, 1, 1, 1e9), box2 = conf(3, 3, 4, 3, 0, 0.45, 0, 1, 3e8);
	Cfg box3 = conf(3, 3, 3, 3, 0, 0.45, 1, 1, 4e8);
	Cfg lin = conf(3, 2, 2, 2, 0, 0, 1, 0, 1e9, 1e30);
	// both preempted anywhere on the smallest ones
	duo("2D, 2D", flat, brief, flat, brief3, T ? -1 : 2, true);
	duo("2D, 2D", flat3, full, flat4, other, T ? -1 : 3, T);
	duo("2D, 3D", flat4, full, one, brief2, T ? 6 : 2, false);
	duo("3D, 3D", one, full, one, other, T ? -1 : 3, T);
	duo("3D, 3D", one, brief, two, brief2, T ? -1 : 3, T);
	duo("3D, 2D", two, full, flat3, brief2, T ? 6 : 2, T);
	duo("shortcut, full", lin, full, one, brief2, 3, T);
	duo("full, shortcut", one, full, lin, brief2, T ? 6 : 2, T);
	duo("inner nodes", box, brief, flat3, brief3, 1, false, T);
	duo("inner nodes", box2, brief2, one, brief3, 1, false, T);
	duo("inner nodes", flat4, brief, box, brief3, 1, false, false);
	duo("inner nodes", box, brief, box3, brief3, 1, false, false);
#ifdef FREE
	// all ordered pairs of all cells
	std::vector<Cfg> all = {flat, flat3, flat4, one, two, box, box2, box3, lin};
	for (auto &a : all) for (auto &b : all) duo("pair", a, full, b, other, 0, false);
#endif
	return X.finish();
}
