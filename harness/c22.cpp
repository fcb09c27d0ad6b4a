// C22: energetic order.  Voigt and Reuss bounds, monotone dependence on the
// phases and on the grid, convexity of the plastic response and non-negative
// work - inequalities that need no reference solution.
#include "hist.hpp"

typedef std::vector<double> Mx;

static void eig(Mx a, int n, double *ev)	// eigenvalues of a symmetric matrix, Jacobi rotations
{
	for (int sweep = 0; sweep < 60; sweep++) {
		double off = 0, tot = 0;
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += a[i * n + j] * a[i * n + j]; if (i != j) off += a[i * n + j] * a[i * n + j]; }
		if (off <= 1e-28 * tot) break;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
			double apq = a[p * n + q];
			if (apq == 0) continue;
			double th = (a[q * n + q] - a[p * n + p]) / (2 * apq), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
			double c = 1 / std::sqrt(t * t + 1), s = t * c;
			for (int k = 0; k < n; k++) { double x = a[k * n + p], y = a[k * n + q]; a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
			for (int k = 0; k < n; k++) { double x = a[p * n + k], y = a[q * n + k]; a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
		}
	}
	for (int i = 0; i < n; i++) ev[i] = a[i * n + i];
}
static Mx inverse(const Mx &m, int n)
{
	Mx a(m), b(n * n, 0);
	for (int i = 0; i < n; i++) b[i * n + i] = 1;
	for (int i = 0; i < n; i++) {
		int p = i;
		for (int r = i; r < n; r++) if (std::fabs(a[r * n + i]) > std::fabs(a[p * n + i])) p = r;
		for (int k = 0; k < n; k++) { std::swap(a[i * n + k], a[p * n + k]); std::swap(b[i * n + k], b[p * n + k]); }
		double d = a[i * n + i];
		for (int k = 0; k < n; k++) { a[i * n + k] /= d; b[i * n + k] /= d; }
		for (int r = 0; r < n; r++) if (r != i) {
			double f = a[r * n + i];
			for (int k = 0; k < n; k++) { a[r * n + k] -= f * a[i * n + k]; b[r * n + k] -= f * b[i * n + k]; }
		}
	}
	return b;
}
static Mx phase(const Cfg &c, int i)
{
	int V = c.V();
	double mu = c.E[i] / (2 * (1 + c.nu[i])), la = c.E[i] * c.nu[i] / ((1 + c.nu[i]) * (1 - 2 * c.nu[i]));
	Mx C(V * V, 0);
	for (int a = 0; a < c.dim; a++) for (int b = 0; b < c.dim; b++) C[a * V + b] = la + (a == b ? 2 * mu : 0);
	for (int a = c.dim; a < V; a++) C[a * V + a] = mu;
	return C;
}
// A <= B as quadratic forms
static bool ordered(const std::string &what, const Mx &A, const Mx &B, int n, double tol)
{
	X.checks++;
	Mx D(n * n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) D[i * n + j] = 0.5 * (B[i * n + j] - A[i * n + j] + B[j * n + i] - A[j * n + i]);
	double ev[6], lo = 1e300;
	for (double x : D) if (!std::isfinite(x)) { X.fail(what + ": not finite"); return false; }
	eig(D, n, ev);
	for (int i = 0; i < n; i++) lo = std::fmin(lo, ev[i]);
	if (lo >= -tol) return true;
	X.fail(what + fmt(": smallest eigenvalue of the difference is %.9g (allowed %.3g)", lo, -tol));
	return false;
}
static double quad(const Mx &C, const double *a, const double *b, int n)
{
	double s = 0;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += a[i] * C[i * n + j] * b[j];
	return s;
}
static Cfg conf(int dim, int nx, int ny, int nz, int type, double w, double lx, double ly, double lz)
{
	Cfg c;
	c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w;
	c.E[0] = 1e9; c.nu[0] = 0.2; c.Sy[0] = 1e6; c.Ka[0] = 5e7;
	c.E[1] = 2e10; c.nu[1] = 0.35; c.Sy[1] = 5e7; c.Ka[1] = 2e8;
	c.L[0] = lx; c.L[1] = ly; c.L[2] = lz;
	return c;
}
struct Elastic { Mx C; std::vector<std::vector<double>> S; double tol, stol; };
static std::vector<std::vector<double>> strains(int dim)
{
	auto D = dirs(dim, true);
	int k = 0;
	for (auto &e : D) { k++; for (double &x : e) x *= k % 2 ? 1e-3 : -2e-3; }
	return D;
}
static Elastic elastic(const Cfg &c)
{
	Elastic r;
	auto D = strains(c.dim);
	Sut s(c);
	for (size_t i = 0; i < D.size(); i++) s.set((int)i, D[i].data());
	s.hom();
	r.C = s.tan(0);
	for (size_t i = 0; i < D.size(); i++) r.S.push_back(s.sig((int)i));
	r.stol = c.stol();
	r.tol = 1e7 * c.stol() + 1e-5 * amax(r.C.data(), c.V() * c.V());
	X.state(hash_vals(r.C.data(), c.V() * c.V(), hash_bytes(c.n, sizeof c.n)));
	X.outcome(hash_vals(r.C.data(), c.V() * c.V()));
	X.traces++;
	return r;
}
// tangent and stress work of a never above those of b
static bool below(const std::string &what, const Cfg &c, const Elastic &a, const Elastic &b)
{
	int V = c.V();
	if (!ordered("tangent " + what, a.C, b.C, V, a.tol + b.tol)) return false;
	auto D = strains(c.dim);
	for (size_t i = 0; i < D.size(); i++) {
		double wa = 0, wb = 0;
		for (int k = 0; k < V; k++) { wa += a.S[i][k] * D[i][k]; wb += b.S[i][k] * D[i][k]; }
		X.checks++;
		if (!(wa <= wb + V * (a.stol + b.stol) * amax(D[i].data(), V) + 1e-8 * std::fabs(wb))) { X.fail(fmt("energy %s for strain ", what.c_str()) + vec(D[i].data(), V) + fmt(": %.10g against %.10g", wa, wb)); return false; }
	}
	return true;
}
static Elastic mixture(const Cfg &c, bool voigt, const Elastic &like)
{
	int V = c.V(), k1 = 0;
	ref::Cell R = c.cell();
	for (int m : R.emat) k1 += m == 1;
	double f = (double)k1 / R.emat.size();
	Mx A = phase(c, 0), B = phase(c, 1), M(V * V);
	if (!voigt) { A = inverse(A, V); B = inverse(B, V); }
	for (int i = 0; i < V * V; i++) M[i] = (1 - f) * A[i] + f * B[i];
	if (!voigt) M = inverse(M, V);
	Elastic r;
	r.C = M; r.tol = 0; r.stol = 0;
	for (auto &e : strains(c.dim)) { std::vector<double> s(V, 0); for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) s[i] += M[i * V + j] * e[j]; r.S.push_back(s); }
	(void)like;
	return r;
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	std::vector<Cfg> cells;
	int t2 = T ? 7 : 5, t3 = T ? 5 : 4;
	for (int nx = 2; nx <= t2; nx++) for (int ny = 2; ny <= t2; ny++) for (int type = 0; type < 2; type++) for (double w : {0.3, 0.55}) {
		cells.push_back(conf(2, nx, ny, 1, type, w, 1, 1, 1));
		cells.push_back(conf(2, nx, ny, 1, type, w, 1.4, 0.8, 1));
	}
	for (int nx = 2; nx <= t3; nx++) for (int ny = 2; ny <= t3; ny++) for (int nz = 2; nz <= t3; nz++) for (int type = 0; type < 2; type++)
		cells.push_back(conf(3, nx, ny, nz, type, 0.45, 1, (nx + nz) % 2 ? 1 : 1.3, ny % 2 ? 1 : 0.7));
	cells.push_back(conf(2, 14, 11, 1, 0, 0.4, 1, 1, 1));
	cells.push_back(conf(2, 9, 17, 1, 1, 0.4, 1, 1, 1));
	cells.push_back(conf(3, 6, 7, 5, 0, 0.4, 1, 1, 1));
	cells.push_back(conf(3, 5, 6, 7, 1, 0.4, 1, 1, 1));
	for (auto &c0 : cells) for (int ph = 0; ph < 4; ph++) {
		Cfg c = c0;
		if (ph & 1) { std::swap(c.E[0], c.E[1]); std::swap(c.nu[0], c.nu[1]); }
		if (ph & 2) { c.nu[0] = -0.3; c.nu[1] = 0.45; c.E[1] = 30 * c.E[0]; }
		if (c.dim == 3 && ph == 3) { c.mt[0] = 2; }
		c.settle();
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("elastic order " + c.str())) continue;
		Elastic a = elastic(c);
		if (!below("of the cell against the average stiffness", c, a, mixture(c, true, a))) continue;
		if (!below("of the average compliance against the cell", c, mixture(c, false, a), a)) continue;
		bool ok = true;
		for (int i = 0; i < 2 && ok; i++) for (double k : {1.02, 3.0, 60.0}) {
			Cfg d = c;
			d.E[i] *= k;
			if (!(ok = below(fmt("after E of material %d grew by %g", i, k), c, a, elastic(d)))) break;
			// bulk modulus alone
			d = c;
			double mu = c.E[i] / (2 * (1 + c.nu[i])), K = c.E[i] / (3 * (1 - 2 * c.nu[i])) * k;
			d.E[i] = 9 * K * mu / (3 * K + mu); d.nu[i] = (3 * K - 2 * mu) / (2 * (3 * K + mu));
			if (k < 10 && d.nu[i] < 0.49 && !(ok = below(fmt("after the bulk modulus of material %d grew by %g", i, k), c, a, elastic(d)))) break;
		}
		if (!ok) continue;
		// more of the stiffer material (same Poisson ratio, so that one material is stiffer)
		Cfg d = c;
		d.nu[1] = d.nu[0];
		Elastic last; bool have = false;
		for (double w : {0.0, 0.2, 0.35, 0.5, 0.62, 0.8, 5.0}) {
			d.width = w;
			if (w > 0) d.settle();
			Elastic b = elastic(d);
			if (have && !(ok = d.E[1] >= d.E[0] ? below(fmt("when the stiffer phase grows to width %g", d.width), c, last, b) : below(fmt("when the softer phase grows to width %g", d.width), c, b, last))) break;
			last = b; have = true;
		}
		if (ok) X.sample(X.desc);
	}
	// nested grids, layers that end at element boundaries of the coarse grid (or one material): energy never grows
	int tr2 = T ? 4 : 3;
	for (int ex = 1; ex <= tr2; ex++) for (int ey = 1; ey <= 4; ey++) for (int ez = 0; ez <= (T ? 3 : 2); ez++) for (int lay = 0; lay <= ey; lay++) {
		Cfg c = conf(ez ? 3 : 2, ex + 1, ey + 1, ez + 1, 1, 0, 1, 1.25, 0.75);
		c.width = lay * 1.25 / ey;
		if (!X.mine()) { X.next++; continue; }
		if (!X.begin("nested grids " + c.str())) continue;
		Elastic a = elastic(c);
		for (int q = 1; q < (ez ? 8 : 4); q++) for (int k : {2, 3, 4}) {
			Cfg d = c;
			int e[3] = {ex, ey, ez};
			for (int i = 0; i < d.dim; i++) if (q >> i & 1) d.n[i] = e[i] * k + 1;
			if (d.nelem() > (d.dim == 3 ? (T ? 250 : 100) : 300)) continue;
			if (!below(fmt("after refinement to %dx%dx%d", d.n[0], d.n[1], d.n[2]), c, elastic(d), a)) { q = 99; break; }
		}
	}
	// plasticity
	struct PC { Cfg c; int depth, level; };
	std::vector<PC> pc;
	auto plast = [&](int nx, int ny, int nz, int type, double w, int m0, int m1, int depth, int level) {
		Cfg c = conf(3, nx, ny, nz, type, w, 1, 1.2, 0.8);
		c.E[1] = 4e9; c.Sy[1] = 3e6; c.mt[0] = m0; c.mt[1] = m1;
		c.settle();
		pc.push_back({c, depth, level});
	};
	plast(2, 2, 2, 0, 0, 1, 0, T ? 3 : 2, 2);
	plast(2, 3, 2, 1, 0.6, 1, 1, T ? 3 : 2, 2);
	plast(3, 3, 3, 0, 0.6, 1, 0, T ? 2 : 1, 2);
	plast(3, 3, 3, 1, 0.6, 0, 1, T ? 2 : 1, 2);
	plast(3, 3, 3, 0, 0.5, 1, 1, T ? 2 : 1, 2);
	plast(3, 4, 3, 1, 0.6, 1, 1, 1, 1);
	plast(4, 3, 4, 0, 0.5, 1, 2, 1, 0);
	plast(4, 4, 4, 0, 0.5, 1, 1, 1, 0);
	for (auto &q : pc) for (int ka = 0; ka < 2; ka++) {
		Cfg c = q.c;
		if (ka) { c.Ka[0] = 2e6; c.Ka[1] = 3e9; c.nu[0] = 0.45; }
		const int V = 6;
		Letters A = plast_letters(1e-3, q.level), B = A;
		// trial strains close to each other and large ones as well
		for (size_t i = 0; i < A.size(); i += 3) { auto e = A[i]; for (double &x : e) x *= 1.003; B.push_back(e); }
		B.push_back({0.02, -0.01, 0.004, 0.03, 0, -0.02});
		// all committed words up to the depth
		std::vector<std::vector<int>> words(1);
		for (size_t i = 0; i < words.size(); i++) if ((int)words[i].size() < q.depth) for (int l = 0; l < (int)A.size(); l++) { auto w = words[i]; w.push_back(l); words.push_back(w); }
		for (auto &w : words) {
			std::string ws = "committed";
			for (int l : w) ws += " " + vec(A[l].data(), V);
			if (!X.mine()) { X.next++; continue; }
			if (!X.begin("plastic order " + c.str() + " " + ws)) continue;
			Sut s(c);
			// the tangent is one-sided on a yield surface: the reference cell tells how far the trial is from it
			ref::Cell R = c.cell();
			std::vector<ref::PS> st;
			for (int l : w) st = R.solve(A[l].data(), st, false).st;
			// a reference point that stays elastic from the start gives the elastic tangent
			std::vector<double> zero(6, 0), prev(6, 0);
			for (size_t i = 0; i < B.size(); i++) s.set((int)i, zero.data());
			s.hom();
			Mx Ce = s.tan(0);
			double tt = 1e7 * c.stol() + 4e-4 * amax(Ce.data(), 36), work = 0, wtol = 0;
			bool ok = true;
			auto pay = [&](const std::vector<double> &sg, const std::vector<double> &e) {	// work of the last increment
				double d = 0;
				for (int k = 0; k < V; k++) { d += sg[k] * (e[k] - prev[k]); wtol += 5 * (c.stol() + 1e-9 * std::fabs(sg[k])) * std::fabs(e[k] - prev[k]); }
				return d;
			};
			for (int l : w) {
				for (size_t i = 0; i < B.size(); i++) s.set((int)i, A[l].data());
				s.hom();
				work += pay(s.sig(0), A[l]);
				X.checks++;
				if (!(work >= -wtol)) { X.fail(fmt("work %.9g spent so far is negative ", work) + ws); ok = false; break; }
				prev = A[l];
				s.commit();
			}
			if (!ok) continue;
			for (size_t i = 0; i < B.size(); i++) s.set((int)i, B[i].data());
			s.hom();
			std::vector<std::vector<double>> S;
			for (size_t i = 0; i < B.size() && ok; i++) {
				S.push_back(s.sig((int)i));
				Mx C = s.tan((int)i), Z(36, 0);
				std::string at = " for strain " + vec(B[i].data(), V) + " " + ws;
				if (R.solve(B[i].data(), st, false).kink > 3e-7) ok = ordered("tangent not negative" + at, Z, C, V, tt) && ordered("tangent below the elastic one" + at, C, Ce, V, tt);
				double w0 = wtol, wk = work + pay(S[i], B[i]);
				X.checks++;
				if (ok && !(wk >= -wtol)) { X.fail(fmt("work %.9g is negative", wk) + at); ok = false; }
				wtol = w0;
				X.state(hash_vals(S[i].data(), V, hash_vals(C.data(), 36)));
				X.outcome(hash_vals(S[i].data(), V));
			}
			for (size_t i = 0; i < B.size() && ok; i++) for (size_t j = 0; j < i; j++) {
				double d[6], p = 0, t = 0;
				for (int k = 0; k < V; k++) { d[k] = B[i][k] - B[j][k]; p += (S[i][k] - S[j][k]) * d[k]; t += 10 * (c.stol() + 1e-9 * (std::fabs(S[i][k]) + std::fabs(S[j][k]))) * std::fabs(d[k]); }
				double up = quad(Ce, d, d, V);
				X.checks++;
				if (!(p >= -t) || !(p <= up * (1 + 1e-5) + t)) {
					X.fail(fmt("stress difference times strain difference is %.9g, outside 0 .. %.9g, for ", p, up) + vec(B[i].data(), V) + " and " + vec(B[j].data(), V) + " " + ws);
					ok = false;
					break;
				}
				X.traces++;
			}
			if (ok) X.sample(X.desc);
		}
	}
	return X.finish();
}
