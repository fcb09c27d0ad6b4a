// Configurations of the library, the library under test driven through its
// public interface, and the matching reference cell.
#pragma once
#include "common.hpp"
#include "ref_fe.hpp"
#include "micro.hpp"

struct Cfg {
	int dim = 3;
	int n[3] = {3, 3, 3};
	double L[3] = {1, 1, 1};
	int type = 0;
	double width = 0.3;
	double inv_tol = 0;
	int mt[2] = {0, 0};
	double E[2] = {1e8, 5e8}, nu[2] = {0.25, 0.3}, Sy[2] = {1e5, 2e5}, Ka[2] = {1e7, 3e7};

	int V() const { return dim == 2 ? 3 : 6; }
	int nelem() const { int r = 1; for (int d = 0; d < dim; d++) r *= n[d] - 1; return r; }
	int nnode() const { int r = 1; for (int d = 0; d < dim; d++) r *= n[d]; return r; }
	double vol() const { double r = 1; for (int d = 0; d < dim; d++) r *= L[d]; return r; }
	double Lmax() const { double r = 0; for (int d = 0; d < dim; d++) r = std::fmax(r, L[d]); return r; }
	double Emax() const { return std::fmax(E[0], E[1]); }
	std::string str() const
	{
		std::string s = fmt("%dD %dx%d", dim, n[0], n[1]);
		if (dim == 3) s += fmt("x%d", n[2]);
		s += fmt(" L=%g,%g", L[0], L[1]);
		if (dim == 3) s += fmt(",%g", L[2]);
		s += fmt(" type%d w=%g itol=%g", type, width, inv_tol);
		for (int i = 0; i < 2; i++) s += fmt(" m%d{t%d E=%g nu=%g Sy=%g Ka=%g}", i, mt[i], E[i], nu[i], Sy[i], Ka[i]);
		return s;
	}
	ref::Cell cell() const
	{
		ref::Cell c;
		c.dim = dim;
		for (int d = 0; d < 3; d++) { c.n[d] = n[d]; c.L[d] = L[d]; }
		for (int i = 0; i < 2; i++) { c.mat[i].E = E[i]; c.mat[i].nu = nu[i]; c.mat[i].Sy = Sy[i]; c.mat[i].Ka = Ka[i]; c.mat[i].plastic = dim == 3 && mt[i] == 1; }
		c.geometry(type, width);
		return c;
	}
	// move the width away from element centres lying on the interface up to rounding
	void settle()
	{
		for (int t = 0; t < 50; t++) {
			bool bad = false;
			int ne[3]; for (int d = 0; d < 3; d++) ne[d] = d < dim ? n[d] - 1 : 1;
			for (int k = 0; k < ne[2]; k++) for (int j = 0; j < ne[1]; j++) for (int i = 0; i < ne[0]; i++) {
				int q[3] = {i, j, k};
				double d2 = 0, y = 0;
				for (int d = 0; d < dim; d++) { double x = (q[d] + 0.5) * L[d] / (n[d] - 1); if (d == 1) y = x; d2 += (x - L[d] / 2) * (x - L[d] / 2); }
				if (type == 0 ? std::fabs(d2 - width * width) < 1e-9 * width * width : std::fabs(y - width) < 1e-9 * width) bad = true;
			}
			if (!bad) return;
			width *= 1.0137;
		}
	}
	// what the fixed residual-force tolerance (1e-5) can change in an average stress
	double stol() const { return 2e-4 * Lmax() * std::sqrt((double)nnode()) / vol(); }
	// constructor arguments; everything not documented is poisoned
	void args(int sz[3], double mp[5], double par[2 * MAX_MAT_PARAM]) const
	{
		for (int d = 0; d < 3; d++) { sz[d] = n[d]; mp[d] = L[d]; }
		if (dim == 2) { sz[2] = 77; mp[2] = -3; }
		mp[3] = width; mp[4] = inv_tol;
		for (int i = 0; i < 2 * MAX_MAT_PARAM; i++) par[i] = -1e3 - i;
		for (int i = 0; i < 2; i++) { double *p = par + i * MAX_MAT_PARAM; p[0] = E[i]; p[1] = nu[i]; p[2] = Sy[i]; p[3] = Ka[i]; }
	}
};

struct Sut {
	micropp_t *m;
	int V;
	explicit Sut(const Cfg &c)
	{
		int sz[3]; double mp[5], par[2 * MAX_MAT_PARAM];
		c.args(sz, mp, par);
		m = new micropp_t(c.dim, sz, c.type, mp, c.mt, par);
		V = c.V();
	}
	~Sut() { delete m; }
	Sut(const Sut &) = delete;
	void set(int gp, const double *e) { double t[6] = {0, 0, 0, 0, 0, 0}; memcpy(t, e, V * sizeof(double)); m->set_macro_strain(gp, t); X.transitions++; }
	void hom() { m->homogenize(); X.transitions++; }
	void commit() { m->update_vars(); X.transitions++; }
	std::vector<double> sig(int gp) { std::vector<double> s(6, 0); m->get_macro_stress(gp, s.data()); s.resize(V); return s; }
	std::vector<double> tan(int gp) { std::vector<double> s(36, 0); m->get_macro_ctan(gp, s.data()); s.resize(V * V); return s; }
	int flag(int gp) { int f = -7; m->get_nl_flag(gp, &f); return f; }
};

// --- reading the library's files ---------------------------------------------------

inline std::string slurp(const std::string &f)
{
	std::ifstream in(f, std::ios::binary);
	std::stringstream s;
	s << in.rdbuf();
	return s.str();
}
inline bool exists(const std::string &f) { struct stat st; return stat(f.c_str(), &st) == 0; }
inline std::vector<double> numbers(const std::string &s)
{
	std::vector<double> v;
	const char *p = s.c_str();
	while (*p) {
		while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++;
		if (!*p) break;
		char *e;
		double d = strtod(p, &e);
		if (e == p) { v.push_back(NAN); while (*p && *p != ' ' && *p != '\n') p++; }
		else { v.push_back(d); p = e; }
	}
	return v;
}
struct Vtu {
	bool ok = false;
	std::string text;
	// contents of <DataArray ... Name="name" ...> ... </DataArray>
	bool array(const std::string &name, std::vector<double> &out, int *comp = nullptr) const
	{
		size_t p = 0;
		while ((p = text.find("<DataArray", p)) != std::string::npos) {
			size_t q = text.find('>', p);
			if (q == std::string::npos) return false;
			std::string head = text.substr(p, q - p);
			if (head.find("Name=\"" + name + "\"") != std::string::npos) {
				size_t e = text.find("</DataArray>", q);
				if (e == std::string::npos) return false;
				out = numbers(text.substr(q + 1, e - q - 1));
				if (comp) {
					size_t c = head.find("NumberOfComponents=\"");
					*comp = c == std::string::npos ? 1 : atoi(head.c_str() + c + 20);
				}
				return true;
			}
			p = q;
		}
		return false;
	}
};
inline Vtu read_vtu(int gp, int step)
{
	Vtu v;
	std::string f = fmt("micropp_%d_%d.vtu", gp, step);
	v.ok = exists(f);
	if (v.ok) v.text = slurp(f);
	return v;
}

// data lines (no '#', not blank) of a report file, split at " | " into blocks of numbers
inline std::vector<std::vector<std::vector<double>>> read_report(const std::string &f)
{
	std::vector<std::vector<std::vector<double>>> L;
	std::stringstream in(slurp(f));
	std::string line;
	while (std::getline(in, line)) {
		if (line.find('#') != std::string::npos) continue;
		if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
		std::vector<std::vector<double>> blocks;
		std::stringstream ls(line);
		std::string b;
		while (std::getline(ls, b, '|')) {
			std::vector<double> v = numbers(b);
			if (!v.empty()) blocks.push_back(v);
		}
		L.push_back(blocks);
	}
	return L;
}

// --- alphabets -----------------------------------------------------------------------

// strain directions; 3D Voigt xx yy zz xy xz yz, 2D xx yy xy
inline std::vector<std::vector<double>> dirs(int dim, bool rich = false)
{
	std::vector<std::vector<double>> r;
	int V = dim == 2 ? 3 : 6;
	for (int i = 0; i < V; i++) { std::vector<double> v(V, 0); v[i] = 1; r.push_back(v); }
	if (dim == 2) { r.push_back({0.7, -0.4, 0.9}); r.push_back({-0.3, 1.1, -0.6}); }
	else { r.push_back({0.7, -0.4, 0.2, 0.9, -0.5, 0.3}); r.push_back({-0.3, 0.5, 1.1, -0.6, 0.8, -0.2}); }
	if (rich) {
		if (dim == 2) { r.push_back({1, 1, 0}); r.push_back({1, -1, 0}); r.push_back({-1, 0, 1}); }
		else { r.push_back({1, 1, 1, 0, 0, 0}); r.push_back({1, -1, 0, 0, 0, 0}); r.push_back({0, 1, -0.5, 0, 1, 0}); r.push_back({0, 0, 0, 1, 1, 1}); }
	}
	return r;
}
