// P32: files for viewing (STL, OFF, DX) describe exactly the mesh
#include "alpha.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mm; using namespace vf;
static Alpha *A;
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static VI rot(VI a) { if (a.size()) std::rotate(a.begin(), std::min_element(a.begin(), a.end()), a.end()); return a; }
typedef std::multiset<std::string> MS;
static std::string key(const std::string &kind, const VI &a, double tag = 0) { return kind + " " + str(a) + fmt(" %g", tag); }
static std::string df(const MS &a, const MS &b) { MS x = a; for (auto &s : b) { auto i = x.find(s); if (i == x.end()) return "extra " + s; x.erase(i); } return x.empty() ? "" : "lost " + *x.begin(); }
struct Bad { std::string s; };
// one mesh, its vertices by position in the vertex iteration
static Mesh_ptr source(std::string &name, H &h, int &dim, Spec &s) {
  int kind = pick(4, "plain, loose vertices, element deleted, renumbered"); s = A->spec(thorough ? 6 : 4, kind != 1); if (!A->mask) return NULL; How hw = pick_how(1); M b = build(s, hw); dim = s.dim; int n = s.cells.size(); VI mat; for (int i = 0; i < n; i++) mat.push_back(1 + i % 3); classify(b.m, dim, mat);
  if (kind == 2) { if (n < 2) return NULL; VP q = all_of(b.m, dim); if (dim == 3) MR_Delete(q[0], 0); else MF_Delete(q[0], 0); count("element deleted"); }
  int emb = pick(dim == 3 ? 2 : 4, "placement"); int i = 0; for (auto v : all_v(b.m)) { P3 p = coords(v); double x[3] = {p[0], p[1], p[2]}; if (emb == 1) for (int k = 0; k < 3; k++) x[k] = x[k] * 1000.5 - 7; if (emb == 2) { x[2] = x[0] + 0.25 * x[1]; } if (emb == 3) { double t = x[0]; x[0] = x[1]; x[1] = t; x[2] -= 0.125; } MV_Set_Coords(v, x); i++; }
  if (kind == 3) { VP v = all_v(b.m); for (size_t k = 0; k < v.size(); k++) MV_Set_ID(v[k], v.size() - k); count("vertex IDs not in order"); } if (kind == 1) count("loose vertices");
  name = fmt("%s kind %d rep %d how %d/%d placement %d", s.name.c_str(), kind, hw.rep, hw.how, hw.fl, emb); h.add(A->id()); h.add(kind * 64 + hw.rep * 16 + hw.how * 8 + hw.fl); h.add(emb); return b.m;
}
static std::map<void *, int> order(Mesh_ptr m) { std::map<void *, int> o; int i = 0; for (auto v : all_v(m)) o[v] = i++; return o; }
static VI idx(std::map<void *, int> &o, const VP &q) { VI r; for (auto v : q) r.push_back(o[v]); return r; }
static bool near(double a, double b, double eps) { return fabs(a - b) <= eps * std::max(1., fabs(b)); }
struct Tok { std::istringstream i; Tok(const std::string &s) : i(s) {} std::string w() { std::string s; if (!(i >> s)) throw Bad{"ends too early"}; return s; } void want(const char *x) { std::string s = w(); if (s != x) throw Bad{"'" + s + "' where '" + x + "' belongs"}; }
  double num() { std::string s = w(); char *e; double d = strtod(s.c_str(), &e); if (*e) throw Bad{"'" + s + "' is not a number"}; return d; } int in() { std::string s = w(); char *e; long d = strtol(s.c_str(), &e, 10); if (*e) throw Bad{"'" + s + "' is not an integer"}; return d; } void end() { std::string s; if (i >> s) throw Bad{"text after the end: " + s}; } };
static void stl(Mesh_ptr m, int dim, const std::string &f, const std::string &name) {
  bool tri = dim == 2; for (auto x : all_f(m)) if (fverts(x).size() != 3) tri = false; int r = MESH_ExportToFile(m, f.c_str(), "stl", 0, NULL, NULL, NULL); step(); if (!tri) { CK(r == 0, "STL of a mesh that is no triangulated surface", "%s: returned %d", name.c_str(), r); count("STL refused"); return; } CK(r == 1, "STL export failed", "%s", name.c_str());
  VP F = all_f(m); std::vector<bool> used(F.size(), false); size_t n = 0; try { Tok t(slurp(f)); std::string w; t.want("solid"); w = t.w(); if (w != "facet" && w != "endsolid") w = t.w();
    while (w != "endsolid") { if (w != "facet") throw Bad{"'" + w + "' where 'facet' belongs"}; t.want("normal"); double N[3], x[3][3]; for (auto &k : N) k = t.num(); t.want("outer"); t.want("loop"); for (auto &v : x) { t.want("vertex"); for (auto &k : v) k = t.num(); } t.want("endloop"); t.want("endfacet"); n++;
      double u[3], v[3], c[3]; for (int k = 0; k < 3; k++) { u[k] = x[1][k] - x[0][k]; v[k] = x[2][k] - x[0][k]; } for (int k = 0; k < 3; k++) c[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3]; double l = sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); for (int k = 0; k < 3; k++) if (fabs(N[k] - c[k] / l) > 1e-6) throw Bad{fmt("normal %g %g %g of facet %zu", N[0], N[1], N[2], n)};
      bool hit = false; for (size_t i = 0; i < F.size() && !hit; i++) if (!used[i]) { VP q = fverts(F[i]); for (int s = 0; s < 3 && !hit; s++) { bool eq = true; for (int j = 0; j < 3; j++) { P3 p = coords(q[(j + s) % 3]); for (int k = 0; k < 3; k++) if (!near(x[j][k], p[k], 1e-8)) eq = false; } if (eq) { used[i] = true; hit = true; } } } if (!hit) throw Bad{fmt("facet %zu is no face of the mesh", n)}; w = t.w(); }
    std::string rest; if (t.i >> rest) { } if (t.i >> rest) throw Bad{"text after endsolid"}; if (n != F.size()) throw Bad{fmt("%zu facets for %zu faces", n, F.size())}; } catch (Bad &b) { CK(0, "STL file is wrong", "%s: %s", name.c_str(), b.s.c_str()); } count("STL");
}
static void off(Mesh_ptr m, int dim, const std::string &f, const std::string &name) {
  int r = MESH_ExportToFile(m, f.c_str(), "off", 0, NULL, NULL, NULL); step(); if (dim == 3) { CK(r == 0, "OFF of a volume mesh", "%s: returned %d", name.c_str(), r); count("OFF refused"); return; } CK(r == 1, "OFF export failed", "%s", name.c_str());
  auto o = order(m); VP V = all_v(m); MS want, got; for (auto x : all_f(m)) want.insert(key("face", rot(idx(o, fverts(x))))); try { Tok t(slurp(f)); t.want("OFF"); int nv = t.in(), nf = t.in(); t.in(); if (nv != (int)V.size() || nf != MESH_Num_Faces(m)) throw Bad{fmt("%d vertices and %d faces announced", nv, nf)};
    for (int i = 0; i < nv; i++) { P3 p = coords(V[i]); for (int k = 0; k < 3; k++) { double x = t.num(); if (!near(x, p[k], 1e-10)) throw Bad{fmt("vertex %d coordinate %d is %.15g instead of %.15g", i, k, x, p[k])}; } }
    for (int i = 0; i < nf; i++) { int n = t.in(); VI a; for (int k = 0; k < n; k++) { int v = t.in(); if (v < 0 || v >= nv) throw Bad{fmt("vertex index %d, counted from 0, with %d vertices", v, nv)}; a.push_back(v); } got.insert(key("face", rot(a))); } t.end(); std::string d = df(want, got); if (!d.empty()) throw Bad{d}; } catch (Bad &b) { CK(0, "OFF file is wrong", "%s: %s", name.c_str(), b.s.c_str()); } count("OFF");
}
struct Arr { std::string type; int rank = 0, shape = 1, items = 0; bool big = false; long off = 0; std::string file; std::map<std::string, std::string> att; std::vector<double> v; };
static void dx(Mesh_ptr m, int dim, const std::string &f, const std::string &name) {
  int r = MESH_ExportToFile(m, f.c_str(), "dx", 0, NULL, NULL, NULL); step(); CK(r == 1, "DX export failed", "%s: returned %d", name.c_str(), r);
  try { Tok t(slurp(f)); std::map<int, Arr> O; std::map<std::string, std::map<std::string, int>> F; std::string dat; long filled = 0; Arr *cur = NULL;
    for (;;) { std::string w = t.w(); if (w == "end") break; if (w == "object") { std::string id = t.w(); t.want("class"); std::string c = t.w(); if (c == "array") { Arr a; t.want("type"); a.type = t.w(); t.want("rank"); a.rank = t.in(); if (a.rank) { t.want("shape"); a.shape = t.in(); } t.want("items"); a.items = t.in(); a.big = t.w() == "msb"; t.want("binary"); t.want("data"); t.want("file"); std::string fo = t.w(); size_t c = fo.rfind(','); a.file = fo.substr(0, c); a.off = atol(fo.c_str() + c + 1); if (O.count(atoi(id.c_str()))) throw Bad{"object " + id + " twice"}; cur = &(O[atoi(id.c_str())] = a); }
        else if (c == "field") { cur = NULL; std::string fn = id; F[fn]; for (;;) { std::streampos p = t.i.tellg(); std::string x = t.w(); if (x != "component") { t.i.seekg(p); break; } std::string cn = t.w(); t.want("value"); F[fn][cn.substr(1, cn.size() - 2)] = t.in(); } } else throw Bad{"class " + c}; }
      else if (w == "attribute") { std::string n = t.w(); if (n == "\"element") { t.w(); n = "\"element type\""; } t.want("string"); if (!cur) throw Bad{"attribute of nothing"}; cur->att[n.substr(1, n.size() - 2)] = t.w(); } else throw Bad{"'" + w + "' where an object belongs"}; }
    t.end();
    for (auto &x : O) { Arr &a = x.second; if (dat.empty()) dat = slurp(a.file); long n = (long)a.items * a.shape; if (a.off < 0 || a.off + 4 * n > (long)dat.size()) throw Bad{fmt("object %d lies outside the data file", x.first)}; filled += 4 * n; for (long i = 0; i < n; i++) { unsigned char b[4]; memcpy(b, dat.data() + a.off + 4 * i, 4); if (a.big) std::swap(b[0], b[3]), std::swap(b[1], b[2]); if (a.type == "float") { float z; memcpy(&z, b, 4); a.v.push_back(z); } else { int z; memcpy(&z, b, 4); a.v.push_back(z); } } }
    if (filled != (long)dat.size()) throw Bad{fmt("%ld bytes described, %zu in the data file", filled, dat.size())};
    auto o = order(m); VP V = all_v(m); if (!O.count(1)) throw Bad{"no positions"}; Arr &P = O[1]; if (P.shape != 3 || P.items < (int)V.size()) throw Bad{"positions"}; for (size_t i = 0; i < V.size(); i++) { P3 p = coords(V[i]); for (int k = 0; k < 3; k++) if (P.v[3 * i + k] != (double)(float)p[k]) throw Bad{fmt("position %zu", i)}; }
    auto get = [&](const std::string &fn, const char *c) -> Arr & { auto i = F[fn].find(c); if (i == F[fn].end() || !O.count(i->second)) throw Bad{"component " + std::string(c) + " of " + fn}; return O[i->second]; };
    MS want, got; int nextra = P.items - V.size();
    if (dim == 3) { bool lone = false; for (auto x : all_f(m)) if (vec(MF_Regions(x)).empty()) lone = true; if (nextra && !lone) throw Bad{"too many positions"}; for (auto x : all_r(m)) { VI a = idx(o, vec(MR_Vertices(x))); MRType ty = MR_ElementType(x); if (ty == POLYHED || ty == RUNKNOWN) continue; std::string k = ty == TET ? "tets" : ty == PYRAMID ? "pyramids" : ty == PRISM ? "prisms" : "hexes"; want.insert(key(k, a, MR_GEntID(x))); }
      for (auto &x : F) { std::string fn = x.first.substr(1, x.first.size() - 2); if (get(x.first, "positions").v != P.v) throw Bad{"positions of " + fn}; if (lone && (fn == "tris" || fn == "polygons")) continue; Arr &c = get(x.first, "connections"), &d = get(x.first, "data"); int w = fn == "tets" ? 4 : 8; if (c.shape != w || c.att["element type"] != (w == 4 ? "\"tetrahedra\"" : "\"cubes\"") || c.att["ref"] != "\"positions\"" || d.att["dep"] != "\"connections\"" || d.items != c.items) throw Bad{"arrays of " + fn};
        for (int i = 0; i < c.items; i++) { VI a; for (int k = 0; k < w; k++) { int q = c.v[i * w + k]; if (q < 0 || q >= (int)V.size()) throw Bad{"position index " + std::to_string(q)}; a.push_back(q); } VI b = a; if (w == 8) { b = {a[0], a[1], a[3], a[2], a[4], a[5], a[7], a[6]}; if (fn == "pyramids") { if (b[4] != b[5] || b[5] != b[6] || b[6] != b[7]) throw Bad{"pyramid"}; b.resize(5); } if (fn == "prisms") { if (b[2] != b[3] || b[6] != b[7]) throw Bad{"prism"}; b = {b[0], b[1], b[2], b[4], b[5], b[6]}; } } got.insert(key(fn, b, d.v[i])); } } }
    else { int ex = V.size(); std::map<int, std::pair<VI, double>> fan; bool poly = false; for (auto x : all_f(m)) { VI a = idx(o, fverts(x)); if (a.size() > 3) poly = true; }
      for (auto x : all_f(m)) { VP q = fverts(x); VI a = idx(o, q); double g = MF_GEntID(x); if (a.size() == 3) want.insert(key("tri", rot(a), g)); else { if (ex >= P.items) throw Bad{"no centre for a face"}; for (int k = 0; k < 3; k++) { double c = 0; for (auto v : q) c += coords(v)[k]; if (!near(P.v[3 * ex + k], c / q.size(), 1e-5)) throw Bad{"centre of a face"}; } for (size_t k = 0; k < a.size(); k++) want.insert(key("tri", rot({a[k], a[(k + 1) % a.size()], ex}), g)); ex++; } if (poly) want.insert(key("polygon", rot(a), g)); }
      if (ex != P.items) throw Bad{"positions that belong to nothing"};
      for (auto &x : F) { std::string fn = x.first.substr(1, x.first.size() - 2); if (get(x.first, "positions").v != P.v) throw Bad{"positions of " + fn}; Arr &d = get(x.first, "data"); if (fn == "tris") { Arr &c = get(x.first, "connections"); if (c.shape != 3 || c.att["element type"] != "\"triangles\"" || d.items != c.items) throw Bad{"arrays of tris"}; for (int i = 0; i < c.items; i++) got.insert(key("tri", rot({(int)c.v[3 * i], (int)c.v[3 * i + 1], (int)c.v[3 * i + 2]}), d.v[i])); }
        else if (fn == "polygons") { Arr &e = get(x.first, "edges"), &l = get(x.first, "loops"), &fc = get(x.first, "faces"); if (d.items != fc.items || fc.items != l.items) throw Bad{"arrays of polygons"}; for (int i = 0; i < fc.items; i++) { int lo = fc.v[i]; if (lo != i) throw Bad{"loop of a face"}; int a = l.v[lo], b = lo + 1 < l.items ? (int)l.v[lo + 1] : e.items; if (a < 0 || b > e.items || a > b) throw Bad{"edges of a loop"}; VI q; for (int k = a; k < b; k++) q.push_back(e.v[k]); got.insert(key("polygon", rot(q), d.v[i])); } } else throw Bad{"field " + fn}; } }
    std::string d = df(want, got); if (!d.empty()) throw Bad{d}; } catch (Bad &b) { CK(0, "DX file is wrong", "%s: %s", name.c_str(), b.s.c_str()); } count(dim == 3 ? "DX volume" : "DX surface");
}
static void run() {
  std::string name; H h; int dim; Spec s; Mesh_ptr m = source(name, h, dim, s); if (!m) return; int k = pick(3, "format"); VF_TRACE("%s as %s", name.c_str(), k == 0 ? "STL" : k == 1 ? "OFF" : "DX"); auto P0 = by_pointer(m); std::string al = attr_list(m), f = scratch() + (k == 0 ? "/m.stl" : k == 1 ? "/m.off" : "/m.dx"); unlink(f.c_str()); h.add(k);
  if (k == 0) stl(m, dim, f, name); else if (k == 1) off(m, dim, f, name); else dx(m, dim, f, name); CK(by_pointer(m) == P0 && attr_list(m) == al, "export changed the mesh", "%s", name.c_str()); MESH_Delete(m); unlink(f.c_str()); unlink((scratch() + "/m.dat").c_str()); state(h.h); nontrivial(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P32"; o.run = run; return vf::main(c, v, o); }
