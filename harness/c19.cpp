// C19: material of every element.
#include "cell.hpp"
#include <algorithm>

static bool one(const Cfg &c, const std::vector<int> &want)
{
	Sut s(c);
	const int V = c.V(), NE = c.nelem();
	double e[6] = {1e-3, -4e-4, 7e-4, 5e-4, -3e-4, 9e-4};
	if (c.dim == 2) e[2] = 9e-4;
	s.set(3, e);
	s.m->output(1, 3);
	X.transitions++;
	Vtu v = read_vtu(3, 1);
	unlink("micropp_3_1.vtu");
	std::vector<double> t, st, sg;
	X.checks++;
	if (!v.ok || !v.array("elem_type", t) || !v.array("strain", st) || !v.array("stress", sg)) { X.fail("no output file or arrays"); return false; }
	if ((int)t.size() != NE || (int)st.size() != NE * V || (int)sg.size() != NE * V) { X.fail("arrays of wrong size"); return false; }
	double sm = amax(sg.data(), NE * V), em = amax(st.data(), NE * V);
	for (int k = 0; k < NE; k++) {
		int q[3] = {k % (c.n[0] - 1), (k / (c.n[0] - 1)) % (c.n[1] - 1), k / ((c.n[0] - 1) * (c.n[1] - 1))};
		if (t[k] != want[k]) { X.fail(fmt("element (%d,%d,%d) has type %g, expected %d", q[0], q[1], q[2], t[k], want[k])); return false; }
		// its mean stress must be that material's answer to its mean strain
		const double E = c.E[want[k]], nu = c.nu[want[k]], la = E * nu / ((1 + nu) * (1 - 2 * nu)), mu = E / (2 * (1 + nu));
		const double *a = &st[(size_t)k * V], *b = &sg[(size_t)k * V];
		double tr = 0;
		for (int i = 0; i < c.dim; i++) tr += a[i];
		for (int i = 0; i < V; i++) {
			double w = i < c.dim ? la * tr + 2 * mu * a[i] : mu * a[i];
			double tol = 4e-6 * (std::fabs(w) + (3 * la + 2 * mu) * em) + 1e-7 * sm;
			if (!(std::fabs(b[i] - w) <= tol)) { X.fail(fmt("element (%d,%d,%d): stress %d is %.8g, its material gives %.8g", q[0], q[1], q[2], i, b[i], w)); return false; }
		}
	}
	// and the macro stress is the average of these stresses
	s.hom();
	auto g = s.sig(3);
	std::vector<double> m(V, 0);
	for (int k = 0; k < NE; k++) for (int i = 0; i < V; i++) m[i] += sg[(size_t)k * V + i] / NE;
	if (!same("macro stress against the mean of the element stresses", g.data(), m.data(), V, 6e-6 * sm + 5 * c.stol())) return false;
	X.outcome(hash_vals(g.data(), V));
	X.state(hash_bytes(want.data(), want.size() * sizeof(int), hash_bytes(c.n, sizeof c.n, c.type)));
	X.traces++;
	return true;
}
static Cfg conf(int dim, int nx, int ny, int nz, int type, double lx, double ly, double lz, double w)
{
	Cfg c;
	c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.L[0] = lx; c.L[1] = ly; c.L[2] = lz; c.width = w;
	c.E[0] = 1e8; c.nu[0] = 0.2; c.E[1] = 9e8; c.nu[1] = 0.35;
	return c;
}
static void go(Cfg c, bool settle)
{
	if (settle) c.settle();
	if (!X.mine()) { X.next++; return; }
	if (!X.begin(c.str())) return;
	if (one(c, c.cell().emat)) X.sample(c.str());
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	int h2 = T ? 10 : 8, h3 = T ? 6 : 5;
	double L[4][3] = {{1, 1, 1}, {1, 2.5, 0.7}, {0.03, 0.05, 0.04}, {20, 11, 7}};
	for (int type = 0; type < 2; type++) for (auto &l : L) {
		// widths as fractions of the shortest side (ball) or of ly (layers): none, some, all
		std::vector<double> fr = type == 0 ? std::vector<double>{0, 1e-6, 0.15, 0.3, 0.45, 0.6, 0.9, 1.3, 50} : std::vector<double>{0, 1e-6, 0.1, 0.3, 0.5, 0.77, 0.96, 1.0, 1.5, 100};
		for (double f : fr) {
			for (int x = 2; x <= h2; x++) for (int y = 2; y <= h2; y++)
				go(conf(2, x, y, 0, type, l[0], l[1], 0, f * (type == 0 ? std::fmin(l[0], l[1]) : l[1])), true);
			for (int x = 2; x <= h3; x++) for (int y = 2; y <= h3; y++) for (int z = 2; z <= h3; z++) {
				if (x * y * z > (T ? 216 : 48) && !(x == 5 && y == 5 && z == 5)) continue;
				go(conf(3, x, y, z, type, l[0], l[1], l[2], f * (type == 0 ? std::fmin(l[0], std::fmin(l[1], l[2])) : l[1])), true);
			}
		}
	}
	// slender cells: balls wider than one or two sides that still leave corners out
	for (auto &l : {std::vector<double>{6, 1, 1.2}, {1, 5, 1.1}, {1.3, 1, 6}, {4, 3.5, 0.5}}) for (double f : {0.2, 0.4, 0.6, 0.75, 0.9, 0.99, 1.01}) {
		for (int x = 3; x <= 9; x += 2) for (int y = 4; y <= 10; y += 3) go(conf(2, x, y, 0, 0, l[0], l[1], 0, f * 0.5 * std::sqrt(l[0] * l[0] + l[1] * l[1])), true);
		for (int x = 2; x <= 6; x += 2) for (int y = 3; y <= 5; y += 2) for (int z = 2; z <= 7; z += 2) go(conf(3, x, y, z, 0, l[0], l[1], l[2], f * 0.5 * std::sqrt(l[0] * l[0] + l[1] * l[1] + l[2] * l[2])), true);
	}
	// larger and slender grids
	for (auto n : std::vector<std::vector<int>>{{2, 33, 0}, {33, 2, 0}, {17, 16, 0}, {3, 3, 17}, {3, 17, 3}, {17, 3, 3}, {9, 8, 7}}) for (int type = 0; type < 2; type++) for (double f : {0.2, 0.35, 0.5})
		go(conf(n[2] ? 3 : 2, n[0], n[1], n[2], type, 1, 1.5, 0.8, f), true);
	// element centres exactly on the interface (all quantities are dyadic, so exact): strictly inside only
	struct Tie { int dim, n[3]; double L[3], w; } ties[] = {
		{2, {2, 2, 0}, {1, 1, 0}, 0}, {2, {3, 2, 0}, {1, 1, 0}, 0.25}, {2, {2, 3, 0}, {1, 4, 0}, 1}, {2, {3, 3, 0}, {12, 16, 0}, 5}, {2, {5, 3, 0}, {24, 16, 0}, 5}, {2, {5, 5, 0}, {24, 32, 0}, 15}, {2, {3, 5, 0}, {32, 24, 0}, 17},
		{2, {9, 2, 0}, {1, 1, 0}, 0.1875}, {2, {9, 2, 0}, {1, 1, 0}, 0.4375}, {2, {2, 9, 0}, {1, 2, 0}, 0.625},
		{3, {2, 2, 2}, {1, 1, 1}, 0}, {3, {3, 3, 3}, {4, 8, 8}, 3}, {3, {3, 3, 3}, {8, 4, 8}, 3}, {3, {3, 3, 3}, {8, 12, 24}, 7}, {3, {3, 2, 2}, {1, 1, 1}, 0.25}, {3, {2, 3, 2}, {1, 1, 1}, 0.25}, {3, {2, 2, 3}, {1, 1, 1}, 0.25},
		{3, {3, 3, 2}, {12, 16, 1}, 5}, {3, {2, 3, 3}, {1, 12, 16}, 5}, {3, {3, 2, 3}, {16, 1, 12}, 5}, {3, {5, 3, 3}, {8, 8, 8}, 3}, {3, {2, 2, 5}, {1, 1, 1}, 0.375}};
	for (auto &t : ties) for (double f : {1.0, 1 - 1e-9, 1 + 1e-9}) go(conf(t.dim, t.n[0], t.n[1], t.n[2], 0, t.L[0], t.L[1], t.L[2], t.w * f), false);
	for (int dim = 2; dim <= 3; dim++) for (int ny : {2, 3, 5, 9}) for (double ly : {1.0, 4.0, 0.5}) for (int j = 0; j < ny - 1; j++) for (double f : {1.0, 1 - 1e-9, 1 + 1e-9})
		go(conf(dim, 3, ny, 2, 1, 1, ly, 1, (2 * j + 1) * ly / (2 * (ny - 1)) * f), false);
	// every element of grids with other spacings just inside and just outside
	for (auto &l : {std::vector<double>{1, 1.7, 0.6}, {0.03, 0.011, 0.07}, {13, 29, 7.1}}) for (int dim = 2; dim <= 3; dim++) for (int nx : {3, 4, 7}) for (int ny : {2, 4, 6}) for (int nz : {3, 4}) {
		if (dim == 2 && nz > 3) continue;
		std::vector<double> rs;
		for (int i = 0; i < nx - 1; i++) for (int j = 0; j < ny - 1; j++) for (int k = 0; k < (dim == 3 ? nz - 1 : 1); k++) {
			double x = (i + 0.5) * l[0] / (nx - 1) - l[0] / 2, y = (j + 0.5) * l[1] / (ny - 1) - l[1] / 2, z = dim == 3 ? (k + 0.5) * l[2] / (nz - 1) - l[2] / 2 : 0;
			rs.push_back(std::sqrt(x * x + y * y + z * z));
		}
		std::sort(rs.begin(), rs.end());
		double last = 0;
		for (double r : rs) {
			if (!(r > last * (1 + 1e-7)) || r < 1e-6) continue;
			last = r;
			for (double f : {1 - 2e-9, 1 + 2e-9}) go(conf(dim, nx, ny, nz, 0, l[0], l[1], l[2], r * f), false);
		}
		if (nx == 3) for (int j = 0; j < ny - 1; j++) for (double f : {1 - 2e-9, 1 + 2e-9}) go(conf(dim, nx, ny, nz, 1, l[0], l[1], l[2], (j + 0.5) * l[1] / (ny - 1) * f), false);
	}
	return X.finish();
}
