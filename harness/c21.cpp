// C21: caller arrays are only read (inputs), only written in their extent
// (outputs), and only during the call.  Every argument lives in a page of its
// own that ends at an inaccessible page, is write-protected during the call if
// it is an input and made inaccessible altogether once the call has returned.
#include "cell.hpp"
#include "ell.hpp"

struct Page {
	static size_t ps() { static size_t p = (size_t)sysconf(_SC_PAGESIZE); return p; }
	char *base = nullptr;
	size_t pages, n;
	explicit Page(size_t bytes) : n(bytes)
	{
		pages = (bytes + ps() - 1) / ps();
		base = (char *)mmap(nullptr, (pages + 2) * ps(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (base == MAP_FAILED) { perror("mmap"); exit(3); }
	}
	~Page() { munmap(base, (pages + 2) * ps()); }
	Page(const Page &) = delete;
	// the last byte is the last one of the accessible pages
	char *at() { return base + ps() + pages * ps() - n; }
	void prot(int p) { if (mprotect(base + ps(), pages * ps(), p)) { perror("mprotect"); exit(3); } }
	void load(const void *src) { prot(PROT_READ | PROT_WRITE); memset(base + ps(), 0xa5, pages * ps()); memcpy(at(), src, n); }
	bool clean()	// nothing before the array was touched
	{
		prot(PROT_READ | PROT_WRITE);
		for (char *q = base + ps(); q < at(); q++) if ((unsigned char)*q != 0xa5) return false;
		return true;
	}
	void close() { prot(PROT_NONE); }
};
template <class T> struct In {	// an input array: readable during the call, gone afterwards
	Page p;
	In(const T *src, size_t n) : p(n * sizeof(T)) { p.load(src); p.prot(PROT_READ); }
	T *get() { return (T *)p.at(); }
	~In() { p.close(); }
};
template <class T> struct Out {
	Page p;
	size_t n;
	Out(size_t n_, T fill) : p(n_ * sizeof(T)), n(n_) { std::vector<T> v(n, fill); p.load(v.data()); }
	T *get() { return (T *)p.at(); }
	std::vector<T> take(const char *what) { if (!p.clean()) X.fail(std::string(what) + " wrote before the caller's array"); std::vector<T> v(get(), get() + n); p.close(); return v; }
};
extern "C" {
void micropp_construct_(int *, int *, int *, double *, int *, double *);
void micropp_output_(int *, int *);
void micropp_get_non_linear_flag_(int *, int *);
void micropp_set_macro_strain_(int *, double *);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *, double *);
void micropp_get_macro_ctan_(int *, double *);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

struct O { char k; int a, b; };
static std::string show(const std::vector<O> &w) { std::string s; for (auto &o : w) s += fmt(" %c(%d,%d)", o.k, o.a, o.b); return s; }
static std::vector<std::vector<double>> E(int dim)
{
	if (dim == 2) return {{3e-3, 1e-4, 7e-4}, {-2e-3, 1e-3, 0}, {1e-9, 0, 0}};
	return {{3e-3, 1e-4, 0, 0, 0, 0}, {-2e-3, 1e-3, 3e-4, 7e-4, 3e-3, -2e-4}, {4e-4, 0, 0, 0, 1e-4, 0}};
}

// how = 0: ordinary arrays that live on; 1: protected pages, C++; 2: protected pages, wrapper
static std::vector<double> drive(const Cfg &c, const std::vector<O> &w, int how)
{
	std::vector<double> r;
	auto L = E(c.dim);
	int V = c.V();
	int sz[3]; double mp[5], par[2 * MAX_MAT_PARAM];
	c.args(sz, mp, par);
	int mt[2] = {c.mt[0], c.mt[1]}, dim = c.dim, type = c.type;
	micropp_t *m = nullptr;
	if (how == 0) m = new micropp_t(dim, sz, type, mp, mt, par);
	else {
		In<int> z(sz, 3), t(mt, 2), dd(&dim, 1), ty(&type, 1);
		In<double> q(mp, 5), pp(par, 2 * MAX_MAT_PARAM);
		if (how == 1) m = new micropp_t(dim, z.get(), type, q.get(), t.get(), pp.get());
		else micropp_construct_(dd.get(), z.get(), ty.get(), q.get(), t.get(), pp.get());
	}
	X.transitions += w.size() + 1;
	for (auto &o : w) {
		if (o.k == 'S') {
			if (how == 0) { std::vector<double> e(L[o.b]); e.resize(6, 0); m->set_macro_strain(o.a, e.data()); }
			else { In<double> e(L[o.b].data(), V); In<int> id(&o.a, 1); if (how == 1) m->set_macro_strain(o.a, e.get()); else micropp_set_macro_strain_(id.get(), e.get()); }
		} else if (o.k == 'H') { if (how == 2) micropp_homogenize_(); else m->homogenize(); }
		else if (o.k == 'U') { if (how == 2) micropp_update_internal_variables_(); else m->update_vars(); }
		else if (o.k == 'W') { if (how == 2) micropp_write_convergence_file_(); else m->write_info_files(); }
		else if (o.k == 'O') {
			if (how == 2) { In<int> st(&o.b, 1), id(&o.a, 1); micropp_output_(st.get(), id.get()); } else m->output(o.b, o.a);
			unlink(fmt("micropp_%d_%d.vtu", o.a, o.b).c_str());
		} else if (o.k == 'G') {
			if (how == 0) {
				std::vector<double> s(V, -5), t(V * V, -6); int f = -7;
				m->get_macro_stress(o.a, s.data()); m->get_macro_ctan(o.a, t.data()); m->get_nl_flag(o.a, &f);
				r.insert(r.end(), s.begin(), s.end()); r.insert(r.end(), t.begin(), t.end()); r.push_back(f);
			} else {
				Out<double> s(V, -5), t(V * V, -6); Out<int> f(1, -7); In<int> id(&o.a, 1);
				if (how == 1) { m->get_macro_stress(o.a, s.get()); m->get_macro_ctan(o.a, t.get()); m->get_nl_flag(o.a, f.get()); }
				else { micropp_get_macro_stress_(id.get(), s.get()); micropp_get_macro_ctan_(id.get(), t.get()); micropp_get_non_linear_flag_(id.get(), f.get()); }
				auto sv = s.take("get_macro_stress"), tv = t.take("get_macro_ctan");
				auto fv = f.take("get_nl_flag");
				r.insert(r.end(), sv.begin(), sv.end()); r.insert(r.end(), tv.begin(), tv.end()); r.push_back(fv[0]);
			}
		}
	}
	delete m;
	return r;
}

static void words(const Cfg &c, const std::vector<O> &ops, int depth, int split)
{
	std::vector<int> pre(split, 0);
	while (!X.stop()) {
		auto word = [&](const std::vector<int> &ix) { std::vector<O> w; for (int i : ix) w.push_back(ops[i]); return w; };
		if (!X.mine()) X.next++;
		else if (X.begin(c.str() + fmt(" | words of length %d starting", depth) + show(word(pre)))) {
			std::vector<int> w(pre);
			w.resize(depth, 0);
			while (true) {
				auto ww = word(w);
				// every word ends by looking at all points
				ww.push_back({'H', 0, 0}); ww.push_back({'G', 1, 0}); ww.push_back({'G', 2, 0}); ww.push_back({'U', 0, 0}); ww.push_back({'H', 0, 0}); ww.push_back({'G', 1, 0});
				auto a = drive(c, ww, 0);
				for (int how = 1; how < 3; how++) {
					auto b = drive(c, ww, how);
					X.checks++; X.traces++;
					if (X.stop()) return;
					if (a.size() != b.size() || memcmp(a.data(), b.data(), a.size() * 8)) { X.fail(fmt("%s, arguments gone after each call: results differ from those with arguments left in place, word", how == 1 ? "C++" : "wrapper") + show(ww)); return; }
				}
				X.state(hash_vals(a.data(), a.size(), hash_bytes(c.str().data(), c.str().size())));
				X.outcome(hash_vals(a.data(), a.size()));
				int p = depth - 1;
				while (p >= split && ++w[p] == (int)ops.size()) w[p--] = 0;
				if (p < split) break;
			}
			X.sample(X.desc);
		}
		int p = split - 1;
		while (p >= 0 && ++pre[p] == (int)ops.size()) pre[p--] = 0;
		if (p < 0) break;
	}
}

// structured matrices: element matrix, operand and right-hand side are inputs
static void ell(int dim, int nx, int ny, int nz, int nf)
{
	if (!X.mine()) { X.next++; return; }
	if (!X.begin(fmt("matrix %dD %dx%dx%d, %d unknowns per node", dim, nx, ny, nz, nf))) return;
	int nn = nx * ny * (dim == 3 ? nz : 1), N = nn * nf, npe = dim == 2 ? 4 : 8, ed = npe * nf;
	ell_matrix A[2];
	std::vector<double> res[2];
	for (int how = 0; how < 2; how++) {
		ell_matrix &m = A[how];
		if (dim == 2) ell_init_2D(&m, nf, nx, ny); else ell_init_3D(&m, nf, nx, ny, nz);
		ell_set_zero_mat(&m);
		for (int k = 0; k < (dim == 3 ? nz - 1 : 1); k++) for (int j = 0; j < ny - 1; j++) for (int i = 0; i < nx - 1; i++) {
			std::vector<double> Ae((size_t)ed * ed);
			for (int a = 0; a < ed; a++) for (int b = 0; b < ed; b++) Ae[(size_t)a * ed + b] = a == b ? 3.0 * ed + i + j : ((a + b + i) % 3 - 1.0);
			X.transitions++;
			if (how == 0) { if (dim == 2) ell_add_struct2D(&m, i, j, Ae.data(), nf, nx, ny); else ell_add_struct3D(&m, i, j, k, Ae.data(), nf, nx, ny, nz); }
			else { In<double> p(Ae.data(), Ae.size()); if (dim == 2) ell_add_struct2D(&m, i, j, p.get(), nf, nx, ny); else ell_add_struct3D(&m, i, j, k, p.get(), nf, nx, ny, nz); }
		}
		for (int bc = 0; bc < 2; bc++) {
			if (bc) { if (dim == 2) ell_set_bc_2D(&m, nf, nx, ny); else ell_set_bc_3D(&m, nf, nx, ny, nz); }
			std::vector<double> x(N), b(N);
			for (int i = 0; i < N; i++) { x[i] = (i * 7) % 13 - 6; b[i] = (i * 5) % 9 - 4; }
			std::vector<double> y(N, 0.0);
			if (how == 0) ell_mvp_2D(&m, x.data(), y.data());
			else { In<double> px(x.data(), N); Out<double> py(N, 0.0); ell_mvp_2D(&m, px.get(), py.get()); y = py.take("ell_mvp_2D"); }
			res[how].insert(res[how].end(), y.begin(), y.end());
			for (int s = 0; s < 3; s++) for (int its : {3, 2000}) {
				if (dim == 3 && s != 1) continue;
				ell_solver so; so.max_its = its; so.min_tol = 1e-7; so.its = 0; so.err = 0;
				auto call = [&](double *bb, double *xx) {
					X.transitions++;
					if (s == 0) ell_solve_cgpd_2D(&so, &m, nf, nx, ny, bb, xx);
					else if (s == 1) ell_solve_cgpd_struct(&so, &m, nf, dim, nn, bb, xx);
					else ell_solve_jacobi_2D(&so, &m, nf, nx, ny, bb, xx);
				};
				std::vector<double> z(N, 0.5);
				if (how == 0) call(b.data(), z.data());
				else { In<double> pb(b.data(), N); Out<double> pz(N, 0.5); call(pb.get(), pz.get()); z = pz.take("solver"); }
				res[how].insert(res[how].end(), z.begin(), z.end());
				res[how].push_back(so.its); res[how].push_back(so.err);
			}
		}
	}
	X.checks++; X.traces++;
	if (res[0] != res[1]) X.fail("results with protected arguments differ");
	ell_free(&A[0]); ell_free(&A[1]);
	X.state(hash_vals(res[0].data(), res[0].size()));
	X.outcome(hash_vals(res[0].data(), res[0].size()));
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	const bool T = X.thorough;
	auto conf = [&](int dim, int nx, int ny, int nz, int type, double w, int m0, int m1, double itol) {
		Cfg c;
		c.dim = dim; c.n[0] = nx; c.n[1] = ny; c.n[2] = nz; c.type = type; c.width = w; c.inv_tol = itol;
		c.E[0] = 1e9; c.E[1] = 2e9; c.Sy[0] = 1e6; c.Sy[1] = 2e6; c.Ka[0] = 1e8; c.Ka[1] = 1e7; c.mt[0] = m0; c.mt[1] = m1;
		c.settle();
		return c;
	};
	const std::vector<O> all = {{'S', 1, 0}, {'S', 1, 1}, {'S', 2, 2}, {'H', 0, 0}, {'U', 0, 0}, {'G', 1, 0}, {'G', 9, 0}, {'O', 1, 3}, {'W', 0, 0}};
	const std::vector<O> core = {{'S', 1, 0}, {'S', 2, 1}, {'H', 0, 0}, {'U', 0, 0}, {'G', 1, 0}};
	words(conf(3, 2, 2, 2, 0, 0, 1, 0, 0), all, T ? 5 : 4, 2);
	words(conf(3, 2, 2, 2, 0, 0, 1, 0, 0), core, T ? 8 : 6, 3);
	words(conf(3, 2, 2, 2, 1, 9, 0, 1, 2e6), all, T ? 5 : 4, 2);
	words(conf(3, 3, 3, 3, 1, 0.6, 1, 1, 0), all, T ? 4 : 3, 2);
	words(conf(3, 3, 4, 3, 0, 0.45, 2, 1, 1e6), core, T ? 5 : 4, 2);
	words(conf(2, 3, 3, 1, 0, 0.4, 0, 0, 0), all, T ? 5 : 4, 2);
	words(conf(2, 2, 4, 1, 1, 0.5, 1, 2, 1e6), all, T ? 5 : 4, 2);
	words(conf(2, 5, 4, 1, 0, 0.3, 0, 0, -1), core, T ? 7 : 5, 2);
	for (int nf = 1; nf <= 3; nf++) {
		for (int x = 2; x <= (T ? 6 : 5); x++) for (int y = 2; y <= (T ? 6 : 5); y++) ell(2, x, y, 1, nf);
		for (int x = 2; x <= 4; x++) for (int y = 2; y <= 4; y++) for (int z = 2; z <= 4; z++) ell(3, x, y, z, nf);
	}
	return X.finish();
}
