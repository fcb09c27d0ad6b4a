// C15: the visualisation files as XML documents describing the mesh.
#include "cell.hpp"
#include <dirent.h>
#include <map>

struct Tag { std::string name, parent; std::map<std::string, std::string> at; std::string text; };

// a small strict XML reader; returns "" or what is wrong
static std::string parse(const std::string &s, std::vector<Tag> &out)
{
	size_t p = 0;
	std::vector<int> stack;
	bool root_done = false;
	auto ws = [&](size_t &q) { while (q < s.size() && isspace((unsigned char)s[q])) q++; };
	auto name = [&](size_t &q) { size_t a = q; while (q < s.size() && (isalnum((unsigned char)s[q]) || s[q] == '_' || s[q] == ':' || s[q] == '-' || s[q] == '.')) q++; return s.substr(a, q - a); };
	ws(p);
	if (s.compare(p, 5, "<?xml") == 0) { size_t e = s.find("?>", p); if (e == std::string::npos) return "unterminated declaration"; p = e + 2; }
	while (p < s.size()) {
		if (s[p] != '<') {
			size_t e = s.find('<', p);
			if (e == std::string::npos) e = s.size();
			std::string t = s.substr(p, e - p);
			if (t.find('&') != std::string::npos) return "bare &";
			if (t.find('\0') != std::string::npos) return "NUL character";
			if (t.find("]]>") != std::string::npos) return "]]>";
			if (stack.empty()) { if (t.find_first_not_of(" \t\r\n") != std::string::npos) return "text outside the root element"; }
			else out[stack.back()].text += t;
			p = e;
			continue;
		}
		if (s.compare(p, 4, "<!--") == 0) { size_t e = s.find("-->", p); if (e == std::string::npos) return "unterminated comment"; p = e + 3; continue; }
		if (p + 1 < s.size() && s[p + 1] == '/') {
			p += 2;
			std::string n = name(p);
			ws(p);
			if (p >= s.size() || s[p] != '>') return "bad end tag " + n;
			p++;
			if (stack.empty() || out[stack.back()].name != n) return "unbalanced end tag " + n;
			stack.pop_back();
			if (stack.empty()) root_done = true;
			continue;
		}
		p++;
		Tag t;
		t.name = name(p);
		if (t.name.empty()) return "bad tag";
		if (stack.empty() && root_done) return "second root element";
		t.parent = stack.empty() ? "" : out[stack.back()].name;
		while (true) {
			size_t b = p;
			ws(p);
			if (p >= s.size()) return "unterminated tag " + t.name;
			if (s[p] == '>') { p++; out.push_back(t); stack.push_back((int)out.size() - 1); break; }
			if (s[p] == '/' && p + 1 < s.size() && s[p + 1] == '>') { p += 2; out.push_back(t); if (stack.empty()) root_done = true; break; }
			if (b == p) return "attributes not separated in " + t.name;
			std::string a = name(p);
			ws(p);
			if (a.empty() || p >= s.size() || s[p] != '=') return "bad attribute in " + t.name;
			p++; ws(p);
			if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) return "unquoted attribute in " + t.name;
			char q = s[p++];
			size_t e = s.find(q, p);
			if (e == std::string::npos) return "unterminated attribute";
			std::string v = s.substr(p, e - p);
			if (v.find('<') != std::string::npos || v.find('&') != std::string::npos) return "bad attribute value";
			if (t.at.count(a)) return "attribute twice: " + a;
			t.at[a] = v;
			p = e + 1;
		}
	}
	if (!stack.empty()) return "element not closed: " + out[stack.back()].name;
	if (!root_done) return "no root element";
	return "";
}

static bool bad(const std::string &m) { X.fail(m); return false; }

static bool whole_numbers(const Tag &t, std::vector<double> &v, const char *what, bool integer)
{
	v = numbers(t.text);
	for (double d : v) if (!std::isfinite(d) || (integer && d != floor(d))) return bad(fmt("array %s holds something that is not %s number", what, integer ? "an integer" : "a finite"));
	return true;
}

static bool check_file(const Cfg &c, const std::string &f)
{
	X.checks++;
	if (!exists(f)) return bad("no file " + f);
	std::string s = slurp(f);
	std::vector<Tag> T;
	std::string w = parse(s, T);
	if (!w.empty()) return bad(f + " is not well-formed XML: " + w);
	// structure
	if (T[0].name != "VTKFile" || T[0].at["type"] != "UnstructuredGrid") return bad("root is not a VTKFile of type UnstructuredGrid");
	std::map<std::string, int> count;
	for (auto &t : T) count[t.name]++;
	static const char *once[] = {"VTKFile", "UnstructuredGrid", "Piece", "Points", "Cells", "PointData", "CellData"};
	static const char *parent[] = {"", "VTKFile", "UnstructuredGrid", "Piece", "Piece", "Piece", "Piece"};
	for (int i = 0; i < 7; i++) {
		if (count[once[i]] != 1) return bad(fmt("%d elements %s", count[once[i]], once[i]));
		for (auto &t : T) if (t.name == once[i] && t.parent != parent[i]) return bad(fmt("%s is inside %s", once[i], t.parent.c_str()));
	}
	int nn = c.nnode(), ne = c.nelem(), npe = c.dim == 2 ? 4 : 8;
	for (auto &t : T) if (t.name == "Piece" && (t.at["NumberOfPoints"] != fmt("%d", nn) || t.at["NumberOfCells"] != fmt("%d", ne)))
		return bad("Piece declares " + t.at["NumberOfPoints"] + " points and " + t.at["NumberOfCells"] + fmt(" cells, expected %d and %d", nn, ne));
	auto get = [&](const char *par, const char *nm) -> const Tag * {
		const Tag *r = nullptr;
		for (auto &t : T) if (t.name == "DataArray" && t.parent == par && (!nm || t.at["Name"] == nm)) { if (r) return nullptr; r = &t; }
		return r;
	};
	std::vector<double> v;
	auto comps = [&](const Tag *t) { auto i = t->at.find("NumberOfComponents"); return i == t->at.end() ? 1 : atoi(i->second.c_str()); };
	auto ascii = [&](const Tag *t) { auto i = t->at.find("format"); return i != t->at.end() && i->second == "ascii"; };
	for (auto &t : T) if (t.name == "DataArray" && !ascii(&t)) return bad("array " + t.at["Name"] + " is not declared ascii");
	// points
	const Tag *P = get("Points", nullptr);
	if (!P) return bad("not exactly one array of points");
	if (comps(P) != 3) return bad("points do not have 3 components");
	if (!whole_numbers(*P, v, "points", false)) return false;
	if ((int)v.size() != 3 * nn) return bad(fmt("%zu point coordinates, expected %d", v.size(), 3 * nn));
	std::vector<double> pts = v, want(3 * nn, 0.0);
	for (int n = 0; n < nn; n++) {
		int q[3] = {n % c.n[0], (n / c.n[0]) % c.n[1], n / (c.n[0] * c.n[1])};
		for (int d = 0; d < c.dim; d++) want[3 * n + d] = q[d] * c.L[d] / (c.n[d] - 1);
	}
	if (!same("point coordinates", pts.data(), want.data(), 3 * nn, 6e-6 * c.Lmax())) return false;
	// cells
	const Tag *C = get("Cells", "connectivity"), *O = get("Cells", "offsets"), *Y = get("Cells", "types");
	if (!C || !O || !Y) return bad("connectivity, offsets and types are not there exactly once");
	if (!whole_numbers(*C, v, "connectivity", true)) return false;
	if ((int)v.size() != npe * ne) return bad(fmt("%zu connectivity entries, expected %d", v.size(), npe * ne));
	std::set<std::vector<int>> got, exp;
	for (int e = 0; e < ne; e++) {
		std::vector<int> a(npe);
		for (int i = 0; i < npe; i++) { a[i] = (int)v[e * npe + i]; if (a[i] < 0 || a[i] >= nn) return bad(fmt("cell %d refers to point %d", e, a[i])); }
		// rotate each ring so that the smallest node of the bottom one comes first
		int m = 0;
		for (int i = 1; i < 4; i++) if (a[i] < a[m]) m = i;
		std::vector<int> r(npe);
		for (int i = 0; i < npe; i++) r[i] = a[(i / 4) * 4 + (i % 4 + m) % 4];
		got.insert(r);
		int q[3] = {e % (c.n[0] - 1), (e / (c.n[0] - 1)) % (c.n[1] - 1), e / ((c.n[0] - 1) * (c.n[1] - 1))};
		auto nd = [&](int i, int j, int k) { return ((q[2] + k) * c.n[1] + q[1] + j) * c.n[0] + q[0] + i; };
		std::vector<int> x = {nd(0, 0, 0), nd(1, 0, 0), nd(1, 1, 0), nd(0, 1, 0)};
		if (npe == 8) { std::vector<int> t = {nd(0, 0, 1), nd(1, 0, 1), nd(1, 1, 1), nd(0, 1, 1)}; x.insert(x.end(), t.begin(), t.end()); }
		exp.insert(x);
	}
	if (got != exp) return bad("the cells are not the elements of the grid, each once with the standard corner order");
	if (!whole_numbers(*O, v, "offsets", true)) return false;
	if ((int)v.size() != ne) return bad(fmt("%zu offsets, expected %d", v.size(), ne));
	for (int e = 0; e < ne; e++) if (v[e] != npe * (e + 1)) return bad(fmt("offset %d is %g, expected %d", e, v[e], npe * (e + 1)));
	if (!whole_numbers(*Y, v, "types", true)) return false;
	if ((int)v.size() != ne) return bad(fmt("%zu types, expected %d", v.size(), ne));
	for (int e = 0; e < ne; e++) if (v[e] != (npe == 4 ? 9 : 12)) return bad(fmt("type %d is %g", e, v[e]));
	// fields
	struct F { const char *par, *nm; int per, comp; bool i; } fs[] = {
		{"PointData", "displ", nn, 3, false}, {"PointData", "b", nn, 3, false}, {"CellData", "strain", ne, c.V(), false}, {"CellData", "stress", ne, c.V(), false},
		{"CellData", "elem_type", ne, 1, true}, {"CellData", "plasticity", ne, 1, false}, {"CellData", "hardening", ne, 1, false}};
	for (auto &f : fs) {
		const Tag *t = get(f.par, f.nm);
		if (!t) return bad(fmt("array %s is not there exactly once in %s", f.nm, f.par));
		if (!whole_numbers(*t, v, f.nm, f.i)) return false;
		if (comps(t) != f.comp) return bad(fmt("array %s declares %d components, expected %d", f.nm, comps(t), f.comp));
		if ((int)v.size() != f.per * f.comp) return bad(fmt("array %s has %zu numbers, expected %d", f.nm, v.size(), f.per * f.comp));
	}
	for (auto &t : T) if (t.name == "DataArray" && t.parent == "PointData" && (int)numbers(t.text).size() != nn * comps(&t)) return bad("array " + t.at["Name"] + " does not match the number of points");
	for (auto &t : T) if (t.name == "DataArray" && t.parent == "CellData" && (int)numbers(t.text).size() != ne * comps(&t)) return bad("array " + t.at["Name"] + " does not match the number of cells");
	X.outcome(hash_bytes(s.data(), s.size()));
	return true;
}

static std::map<std::string, std::string> listing()
{
	std::map<std::string, std::string> r;
	DIR *d = opendir(".");
	while (dirent *e = readdir(d)) {
		std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		struct stat st;
		if (stat(n.c_str(), &st) || !S_ISREG(st.st_mode)) { r[n] = "(not a regular file)"; continue; }
		r[n] = slurp(n);
	}
	closedir(d);
	return r;
}
static void wipe() { for (auto &f : listing()) unlink(f.first.c_str()); }

static void mesh(const Cfg &c)
{
	if (!X.begin("mesh " + c.str())) return;
	wipe();
	Sut s(c);
	double e[6] = {1e-4, -2e-4, 5e-5, 3e-4, -1e-4, 2e-4};
	s.set(17, e);
	s.m->output(2, 17);		// before any evaluation
	if (!check_file(c, "micropp_17_2.vtu")) return;
	s.hom();
	s.m->output(3, 17);
	if (!check_file(c, "micropp_17_3.vtu")) return;
	s.commit();
	s.m->output(3, 17);
	if (!check_file(c, "micropp_17_3.vtu")) return;
	X.transitions += 3;
	X.traces++;
	X.state(hash_bytes(c.str().data(), c.str().size()));
	X.sample(c.str());
	wipe();
}

// all words over output calls, strain changes and evaluations against a model of the directory
static void files(const Cfg &c, const std::vector<int> &ids, const std::vector<int> &steps, int depth)
{
	struct O { char k; int a, b; };
	std::vector<O> ops;
	for (int i : ids) for (int s : steps) ops.push_back({'O', i, s});
	ops.push_back({'O', 999, steps[0]});		// unknown point
	ops.push_back({'S', ids[0], 1});
	ops.push_back({'S', ids[1], 2});
	ops.push_back({'H', 0, 0});
	ops.push_back({'U', 0, 0});
	ops.push_back({'W', 0, 0});
	int k = (int)ops.size();
	double e[3][6] = {{1e-4, 0, 0, 0, 0, 0}, {0, 2e-4, 0, 0, 0, 0}, {0, 5e-3, 0, 0, 0, 0}};
	for (int first = 0; first < k; first++) {
		std::string d0 = fmt("files %s | words of length %d starting with letter %d", c.str().c_str(), depth, first);
		if (!X.begin(d0)) continue;
		std::vector<int> w(depth, 0);
		w[0] = first;
		while (true) {
			wipe();
			// leftovers with names of their own and a longer old version of one output file
			std::string old(200000, 'x');
			{ std::ofstream("keep.txt") << "keep"; std::ofstream("micropp_1.vtu") << "keep"; std::ofstream(fmt("micropp_%d_%d.vtu", ids[0], steps[0])) << old; }
			Sut s(c);
			int cur[8];
			for (size_t i = 0; i < ids.size(); i++) { s.set(ids[i], e[0]); cur[i] = 0; }
			auto before = listing();
			std::string tr;
			for (int j = 0; j < depth; j++) {
				const O &o = ops[w[j]];
				std::string name;
				if (o.k == 'O') {
					tr += fmt(" output(%d,%d)", o.b, o.a);
					s.m->output(o.b, o.a); X.transitions++;
					if (o.a != 999) name = fmt("micropp_%d_%d.vtu", o.a, o.b);
				} else if (o.k == 'S') {
					tr += fmt(" set(%d,e%d)", o.a, o.b);
					s.set(o.a, e[o.b]);
					cur[o.a == ids[0] ? 0 : 1] = o.b;
				} else if (o.k == 'H') { tr += " homogenize"; s.hom(); }
				else if (o.k == 'U') { tr += " commit"; s.commit(); }
				else { tr += " write_info_files"; s.m->write_info_files(); X.transitions++; }
				auto after = listing();
				X.checks++;
				for (auto &f : before) {
					if (!after.count(f.first)) { X.fail(tr + " removed " + f.first); return; }
					bool may = f.first == name || (o.k == 'W' && f.first.find(".dat") != std::string::npos);
					if (!may && after[f.first] != f.second) { X.fail(tr + " changed " + f.first); return; }
				}
				for (auto &f : after) if (!before.count(f.first) && f.first != name && !(o.k == 'W' && f.first.find(".dat") != std::string::npos)) { X.fail(tr + " created " + f.first); return; }
				if (!name.empty()) {
					if (!after.count(name)) { X.fail(tr + " did not create " + name); return; }
					if (!check_file(c, name)) return;
					int gi = 0;
					for (size_t i = 0; i < ids.size(); i++) if (ids[i] == o.a) gi = (int)i;
					Vtu v; v.ok = true; v.text = after[name];
					std::vector<double> u;
					v.array("displ", u);
					// the last node carries (strain)*(lengths)
					double wu[3] = {e[cur[gi]][0] * c.L[0], e[cur[gi]][1] * c.L[1], 0};
					if (!same((tr + ": displacement of the last node").c_str(), u.data() + u.size() - 3, wu, 3, 1e-8)) return;
				}
				before = after;
			}
			X.traces++;
			X.state(hash_bytes(tr.data(), tr.size(), hash_bytes(d0.data(), d0.size())));
			int p = depth - 1;
			while (p >= 1 && ++w[p] == k) w[p--] = 0;
			if (p < 1) break;
		}
		X.sample(d0);
		wipe();
	}
}
static void names(const Cfg &c)
{
	// extreme numbers in file names
	std::vector<int> v = {0, 1, -1, 9, 10, 99, 1000, 12345, 999999, 1000000, -1000000, 2147483647, -2147483647 - 1};
	for (int id : v) for (int st : v) {
		if (!X.begin(fmt("name of output(step %d, id %d)", st, id))) continue;
		wipe();
		Sut s(c);
		double e[6] = {1e-4, 0, 0, 0, 0, 0};
		s.set(id, e);
		s.set(id == 7 ? 8 : 7, e);
		auto before = listing();
		s.m->output(st, id);
		auto after = listing();
		std::string n = fmt("micropp_%d_%d.vtu", id, st);
		X.checks++; X.transitions++; X.traces++;
		if (after.size() != before.size() + 1 || !after.count(n)) {
			std::string l;
			for (auto &f : after) if (!before.count(f.first)) l += " " + f.first;
			X.fail("files created:" + l + ", expected " + n);
			return;
		}
		if (!check_file(c, n)) return;
		X.state(hash_bytes(n.data(), n.size()));
		wipe();
	}
}

int main(int argc, char **argv)
{
	X.init(argc, argv);
	if (mkdir("d", 0755) && errno != EEXIST) return 3;
	if (chdir("d")) return 3;
	std::vector<std::vector<double>> Ls = {{1, 1, 1}, {0.3, 2.5, 7}, {1e-3, 4e-3, 2e-3}};
	int h2 = X.thorough ? 9 : 7, h3 = X.thorough ? 6 : 5;
	for (auto &L : Ls) for (int t = 0; t < 2; t++) {
		for (int x = 2; x <= h2; x++) for (int y = 2; y <= h2; y++) {
			Cfg c; c.dim = 2; c.n[0] = x; c.n[1] = y; c.type = t; for (int d = 0; d < 3; d++) c.L[d] = L[d]; c.width = 0.3 * L[1]; c.E[0] = 1e6; c.E[1] = 3e6;
			mesh(c);
		}
		for (int x = 2; x <= h3; x++) for (int y = 2; y <= h3; y++) for (int z = 2; z <= h3; z++) {
			if (x * y * z > (X.thorough ? 216 : 64)) continue;
			Cfg c; c.n[0] = x; c.n[1] = y; c.n[2] = z; c.type = t; for (int d = 0; d < 3; d++) c.L[d] = L[d]; c.width = 0.3 * L[1]; c.E[0] = 1e6; c.E[1] = 3e6; c.mt[0] = 1;
			mesh(c);
		}
	}
	for (auto n : std::vector<std::vector<int>>{{2, 30, 0}, {30, 2, 0}, {14, 13, 0}, {3, 2, 15}, {2, 15, 3}, {15, 3, 2}}) {
		Cfg c; c.dim = n[2] ? 3 : 2; for (int d = 0; d < 3; d++) c.n[d] = n[d]; c.E[0] = 1e6; c.E[1] = 3e6;
		mesh(c);
	}
	// large meshes: indices, offsets and counts beyond 16 bits
	for (auto n : std::vector<std::vector<int>>{{140, 130, 0}, {300, 12, 0}, {12, 300, 0}, {22, 23, 21}, {40, 5, 4}, {4, 45, 5}, {5, 4, 50}}) {
		Cfg c; c.dim = n[2] ? 3 : 2; for (int d = 0; d < 3; d++) c.n[d] = n[d]; c.E[0] = 1e6; c.E[1] = 3e6;
		mesh(c);
	}
	Cfg c;
	for (int d = 0; d < 3; d++) c.n[d] = 2;
	c.mt[0] = c.mt[1] = 1;
	files(c, {0, 5}, {0, 1}, X.thorough ? 5 : 4);
	files(c, {-3, 12, 1}, {7, 71}, X.thorough ? 4 : 3);
	files(c, {1, 2, 4}, {1, 2}, X.thorough ? 4 : 3);
	files(c, {2, 1, 3, 12}, {0, 1, 2}, X.thorough ? 3 : 2);
	Cfg q; q.dim = 2; q.n[0] = 3; q.n[1] = 2;
	files(q, {1, 11}, {1, 111}, X.thorough ? 4 : 3);
	names(c);
	if (chdir("..")) return 3;
	return X.finish();
}
