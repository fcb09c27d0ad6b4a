// C11: scaling of lengths and moduli, superposition, patch test.
#include "hist.hpp"

static Cfg conf(int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double lx, double ly, double lz)
{
	Cfg c;
	c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
	c.E[0] = 1e9; c.nu[0] = 0.2; c.Sy[0] = 1e6; c.Ka[0] = 5e7; c.mt[0] = m0;
	c.E[1] = 4e9; c.nu[1] = 0.35; c.Sy[1] = 5e6; c.Ka[1] = 2e8; c.mt[1] = m1;
	c.L[0] = lx; c.L[1] = ly; c.L[2] = lz;
	c.settle();
	return c;
}
typedef std::vector<std::vector<std::vector<double>>> Words;	// point, step, strain
static void response(const Cfg &c, const Words &w, std::vector<std::vector<double>> &S, std::vector<std::vector<double>> &C)
{
	Sut s(c);
	for (size_t t = 0; t < w[0].size(); t++) {
		for (size_t g = 0; g < w.size(); g++) s.set((int)g, w[g][t].data());
		s.hom();
		for (size_t g = 0; g < w.size(); g++) { S.push_back(s.sig((int)g)); C.push_back(s.tan((int)g)); }
		s.commit();
	}
}
static Words one_step(int dim)
{
	Words w;
	auto D = dirs(dim, true);
	for (size_t i = 0; i < D.size(); i++) { auto e = D[i]; for (double &x : e) x *= (i % 2 ? -1e-3 : 2e-3); w.push_back({e}); }
	return w;
}
static Words histories(int every, int off)
{
	Letters A = plast_letters(1e-3, 1);
	Words pw;
	int k = 0;
	for (size_t a = 0; a < A.size(); a++) for (size_t b = 0; b < A.size(); b++) if (a != b && k++ % every == off % every) pw.push_back({A[a], A[b], {0.2e-3, -0.1e-3, 0.3e-3, 1e-3, -4e-3, 2e-3}});
	return pw;
}
static bool compare(const Cfg &c, double k, const Words &w, const std::vector<std::vector<double>> &S, const std::vector<std::vector<double>> &C,
                    const std::vector<std::vector<double>> &S2, const std::vector<std::vector<double>> &C2, double stol, double trel, const std::string &what)
{
	int V = c.V();
	for (size_t i = 0; i < S.size(); i++) {
		size_t pt = i % w.size(), st = i / w.size();
		std::vector<double> ws = S[i], wc = C[i];
		for (double &x : ws) x *= k;
		for (double &x : wc) x *= k;
		std::string at = fmt(" of history %zu step %zu, strain ", pt, st) + vec(w[pt][st].data(), V) + what;
		if (!same(("stress" + at).c_str(), S2[i].data(), ws.data(), V, 5 * stol + 1e-6 * amax(ws.data(), V))) return false;
		if (trel > 0 && !same(("tangent" + at).c_str(), C2[i].data(), wc.data(), V * V, 1e7 * stol + trel * amax(wc.data(), V * V))) return false;
		X.state(hash_vals(S2[i].data(), V, hash_vals(w[pt][st].data(), V)));
		X.outcome(hash_vals(S2[i].data(), V));
	}
	X.traces++;
	return true;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	std::vector<std::pair<Cfg, int>> cells;	// configuration, plastic?
	for (int type = 0; type < 2; type++) {
		cells.push_back({conf(2, 2, 2, 1, type, 0.3, 0, 0, 1, 1, 1), 0});
		cells.push_back({conf(2, 4, 3, 1, type, 0.4, 0, 0, 1, 1.5, 1), 0});
		cells.push_back({conf(2, 5, 6, 1, type, 0.4, 0, 0, 1.2, 0.8, 1), 0});
		cells.push_back({conf(2, 12, 15, 1, type, 0.4, 0, 0, 1.2, 0.8, 1), 0});
		cells.push_back({conf(3, 2, 3, 2, type, 0.6, 0, 0, 1, 1.3, 0.8), 0});
		cells.push_back({conf(3, 3, 3, 3, type, 0.6, 0, 0, 1, 1.3, 0.8), 0});
		cells.push_back({conf(3, 4, 3, 5, type, 0.5, 0, 0, 1, 1.3, 0.8), 0});
		cells.push_back({conf(3, 5, 5, 5, type, 0.4, 0, 2, 1, 1.3, 0.8), 0});
		cells.push_back({conf(3, 2, 2, 2, type, 0, 1, 0, 1, 1.3, 0.8), 1});
		cells.push_back({conf(3, 2, 3, 2, type, 0.6, 1, 1, 1, 1.3, 0.8), 1});
		cells.push_back({conf(3, 3, 3, 3, type, 0.6, 1, 1, 1, 1.3, 0.8), 1});
		cells.push_back({conf(3, 3, 3, 4, type, 0.45, 0, 1, 1, 1.3, 0.8), 1});
	}
	int n = 0;
	for (auto &pr : cells) {
		const Cfg &c = pr.first;
		n++;
		Words w = pr.second ? histories(c.nelem() <= 2 ? (T ? 1 : 3) : (T ? 4 : 14), n) : one_step(c.dim);
		double trel = pr.second ? 4e-4 : 5e-6;
		for (int kind = 0; kind < 2; kind++) {
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin(std::string(kind ? "moduli " : "lengths ") + c.str())) continue;
			std::vector<std::vector<double>> S, C;
			response(c, w, S, C);
			std::vector<double> fac = kind ? std::vector<double>{0.1, 0.3, 7, 100} : std::vector<double>{0.05, 0.3, 2, 7, 40};
			bool inner = true;
			for (int i = 0; i < c.dim; i++) if (c.n[i] < 3) inner = false;
			// nothing is iterated without inner nodes: any unit system will do
			if (inner && !kind && c.dim == 2) for (double k : {1e-3, 1e3}) fac.push_back(k);
			if (!inner) for (double k : {1e-60, 1e-20, 1e-15, 1e-11, 1e-7, 1e-4, 1e4, 1e6, 1e9, 1e30, 1e60}) if (kind || (k > 1e-7 && k < 1e9)) fac.push_back(k);
			for (double k : fac) {
				Cfg d = c;
				if (kind) for (int i = 0; i < 2; i++) { d.E[i] *= k; d.Sy[i] *= k; d.Ka[i] *= k; }
				else { for (int i = 0; i < 3; i++) d.L[i] *= k; d.width *= k; }
				std::vector<std::vector<double>> S2, C2;
				response(d, w, S2, C2);
				if (!compare(c, kind ? k : 1, w, S, C, S2, C2, inner ? std::fmax(kind ? k * c.stol() : c.stol(), d.stol()) : 0, trel, fmt(" with %s scaled by %g", kind ? "moduli" : "lengths", k))) break;
			}
			X.sample(X.desc);
		}
		// unequal scaling of the third length in 2D is irrelevant (poisoned anyway); superposition for elastic cells
		if (!pr.second) {
			if (!X.mine()) X.next++;
			else if (X.begin("superposition " + c.str())) {
				int V = c.V();
				auto D = dirs(c.dim, true);
				Sut s(c);
				std::vector<std::vector<double>> base;
				for (int i = 0; i < V; i++) { std::vector<double> e(V, 0); e[i] = 1e-3; s.set(i, e.data()); base.push_back(e); }
				std::vector<std::vector<double>> comb;
				for (size_t i = V; i < D.size(); i++) for (double a : {1.0, -3.0, 0.01, 200.0}) { auto e = D[i]; for (double &x : e) x *= a; comb.push_back(e); }
				for (size_t i = 0; i < comb.size(); i++) { auto e = comb[i]; for (double &x : e) x *= 1e-3; s.set(100 + (int)i, e.data()); }
				s.hom();
				std::vector<std::vector<double>> S;
				for (int i = 0; i < V; i++) S.push_back(s.sig(i));
				for (size_t i = 0; i < comb.size(); i++) {
					std::vector<double> want(V, 0);
					double m = 0;
					for (int j = 0; j < V; j++) for (int v = 0; v < V; v++) { want[v] += comb[i][j] * S[j][v]; m = std::fmax(m, std::fabs(comb[i][j] * S[j][v])); }
					auto got = s.sig(100 + (int)i);
					if (!same(("superposed stress for " + vec(comb[i].data(), V)).c_str(), got.data(), want.data(), V, c.stol() * (1 + V * amax(comb[i].data(), V)) + 1e-8 * m)) break;
					X.traces++;
				}
			}
		}
	}
	// patch test: one material everywhere (width 0, width covering all, or two equal materials), any grid
	auto patch = [&](Cfg c, int how) {
		if (how == 0) c.width = 0; else if (how == 1) c.width = 100; else { c.E[1] = c.E[0]; c.nu[1] = c.nu[0]; }
		if (!X.mine()) { X.next++; return; }
		if (!X.begin(fmt("patch test %d ", how) + c.str())) return;
		int mi = how == 1 ? 1 : 0, V = c.V();
		double mu = c.E[mi] / (2 * (1 + c.nu[mi])), la = c.E[mi] * c.nu[mi] / ((1 + c.nu[mi]) * (1 - 2 * c.nu[mi]));
		std::vector<double> C(V * V, 0);
		for (int i = 0; i < c.dim; i++) for (int j = 0; j < c.dim; j++) C[i * V + j] = la + (i == j ? 2 * mu : 0);
		for (int i = c.dim; i < V; i++) C[i * V + i] = mu;
		Words w = one_step(c.dim);
		std::vector<std::vector<double>> S, T2;
		response(c, w, S, T2);
		for (size_t i = 0; i < w.size(); i++) {
			std::vector<double> want(V, 0);
			for (int a = 0; a < V; a++) for (int b = 0; b < V; b++) want[a] += C[a * V + b] * w[i][0][b];
			if (!same(("stress of a uniform cell for " + vec(w[i][0].data(), V)).c_str(), S[i].data(), want.data(), V, c.stol() + 1e-9 * amax(want.data(), V))) return;
			if (!same(("tangent of a uniform cell for " + vec(w[i][0].data(), V)).c_str(), T2[i].data(), C.data(), V * V, 1e6 * c.stol() + 2e-6 * amax(C.data(), V * V))) return;
			X.traces++;
			X.state(hash_vals(S[i].data(), V, hash_bytes(c.n, sizeof c.n)));
		}
	};
	for (int nx = 2; nx <= 8; nx++) for (int ny = 2; ny <= 8; ny++) for (int how = 0; how < 3; how++)
		patch(conf(2, nx, ny, 1, (nx + ny) % 2, 0.4, 0, 0, nx % 2 ? 1 : 2, ny % 3 ? 1 : 0.6, 1), how);
	int top = T ? 6 : 5;
	for (int nx = 2; nx <= top; nx++) for (int ny = 2; ny <= top; ny++) for (int nz = 2; nz <= top; nz++) {
		if (!T && nx * ny * nz > 80) continue;
		patch(conf(3, nx, ny, nz, (nx + ny) % 2, 0.4, 0, 2, 1, 1.2, 0.7), (nx + ny + nz) % 3);
	}
	// plastic uniform cells answer like one element, whatever the grid
	for (int nx = 2; nx <= 4; nx++) for (int ny = 2; ny <= 4; ny++) for (int nz = 2; nz <= 4; nz++) {
		if (nx * ny * nz == 8) continue;
		Cfg c = conf(3, nx, ny, nz, 0, 0, 1, 0, 1, 1.2, 0.7), d = c;
		d.n[0] = d.n[1] = d.n[2] = 2;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("plastic patch test " + c.str())) continue;
		Words w = histories(c.nelem() > 8 ? 18 : 5, nx + ny + nz);
		std::vector<std::vector<double>> S, C, S2, C2;
		response(d, w, S, C);
		response(c, w, S2, C2);
		compare(c, 1, w, S, C, S2, C2, c.stol(), 4e-4, " on a finer grid");
	}
	// moduli far below the scale of the absolute tolerances: stresses still within the tolerance, tangents are a known finding
	for (double E : {1.0, 1e3}) for (int dim = 2; dim <= 3; dim++) {
		Cfg c = conf(dim, 4, 4, 4, 0, 0.4, 0, 0, 1, 1, 1);
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin(fmt("moduli scaled to E=%g ", E) + c.str())) continue;
		Words w = one_step(dim);
		std::vector<std::vector<double>> S, C, S2, C2;
		response(c, w, S, C);
		Cfg d = c;
		for (int i = 0; i < 2; i++) { d.E[i] *= E / 1e9; d.Sy[i] *= E / 1e9; d.Ka[i] *= E / 1e9; }
		response(d, w, S2, C2);
		if (!compare(c, E / 1e9, w, S, C, S2, C2, d.stol(), 0, fmt(" with E=%g", E))) continue;
		double worst = 0;
		int V = c.V();
		for (size_t i = 0; i < C.size(); i++) for (int k = 0; k < V * V; k++) worst = std::fmax(worst, std::fabs(C2[i][k] * (1e9 / E) - C[i][k]) / amax(C[i].data(), V * V));
		if (!(worst < 5e-3)) X.known(fmt("tangent-E%g-%dD", E, dim));
		X.traces++;
	}
	return X.finish();
}
