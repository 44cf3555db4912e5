// P22: conversion of triangles to quads and tets to hexes
#include "alpha.hpp"
using namespace mm; using namespace vf;
static Alpha *A; static std::vector<Spec> bad;
static P3 mean(const std::vector<P3> &p) { P3 c{0, 0, 0}; for (auto &x : p) for (int k = 0; k < 3; k++) c[k] += x[k] / p.size(); return c; }
static std::string at(P3 p) { return fmt("%.6f %.6f %.6f", p[0] + 0., p[1] + 0., p[2] + 0.); }
static std::string cls(void *e) { return fmt(" g%d/%d", MEnt_GEntDim(e), MEnt_GEntID(e)); }
static void run() {
  bool no = pick(2, "unsupported"); Spec s; How hw; if (no) { int k = pick((int)bad.size(), "mesh"); s = bad[k]; hw = pick_how(0); } else { s = A->spec(); hw = pick_how(thorough ? 4 : 3); } int rot = hw.how ? pick(3, "start") : 0;
  M M0 = build(s, hw.rep, hw.how, FLIPS[hw.fl], rot); Mesh_ptr m = M0.m; VI mat = pick_materials(s.cells.size(), 3); classify(m, s.dim, mat); auto before = by_pointer(m); std::string al = attr_list(m); VF_TRACE("%s rep %d how %d", s.name.c_str(), hw.rep, hw.how);
  Mesh_ptr n = NULL; int ok = s.dim == 3 ? MESH_Tet2Hex(m, &n) : MESH_Tri2Quad(m, &n); step();
  CK(by_pointer(m) == before, "the original changed", "%s", s.name.c_str());
  if (no) { CK(!ok, "a mesh that cannot be converted was accepted", "%s", s.name.c_str()); count("refused"); CK(attr_list(m) == al, "attributes were left on the original", "%s", attr_list(m).c_str()); MESH_Delete(m); return; }
  CK(attr_list(m) == al, "attributes were left on the original", "%s", attr_list(m).c_str());
  CK(ok && n, "conversion failed", "%s", s.name.c_str()); CK(MESH_RepType(n) == hw.rep, "representation", "%d", MESH_RepType(n)); verify(n, "converted mesh");
  // vertices: originals, edge mid points, face and region centers with their classification
  std::multiset<std::string> want, got; for (auto v : all_v(m)) want.insert(at(coords(v)) + cls(v)); for (auto e : all_e(m)) want.insert(at(mean({coords(ME_Vertex(e, 0)), coords(ME_Vertex(e, 1))})) + cls(e)); for (auto f : all_f(m)) want.insert(at(mean(pts(fverts(f)))) + cls(f)); for (auto r : all_r(m)) want.insert(at(mean(pts(vec(MR_Vertices(r))))) + cls(r)); for (auto v : all_v(n)) got.insert(at(coords(v)) + cls(v));
  CK(want == got, "vertices of the converted mesh", "%s: %zu, expected %zu", s.name.c_str(), got.size(), want.size());
  // elements: one per corner of each original, made of the corner, mid points and centers
  std::multiset<std::string> we, ge; double tot = 0, tot0 = 0;
  auto elkey = [&](std::vector<P3> p, void *g) { std::vector<std::string> q; for (auto &x : p) q.push_back(at(x)); std::sort(q.begin(), q.end()); std::string r; for (auto &x : q) r += x + ";"; return r + cls(g); };
  if (s.dim == 2) { for (auto f : all_f(m)) { auto p = pts(fverts(f)); for (int i = 0; i < 3; i++) we.insert(elkey({p[i], mean({p[i], p[(i + 1) % 3]}), mean(p), mean({p[i], p[(i + 2) % 3]})}, f)); tot0 += face_area(f); }
    for (auto f : all_f(n)) { auto q = fverts(f); CK(q.size() == 4, "not a quadrilateral", "%zu vertices", q.size()); ge.insert(elkey(pts(q), f)); tot += face_area(f); }
    // orientation as the original: the areas as vectors sum up
    P3 a{0, 0, 0}, b{0, 0, 0}; for (auto f : all_f(m)) { P3 v = face_avec(f); for (int k = 0; k < 3; k++) a[k] += v[k]; } for (auto f : all_f(n)) { P3 v = face_avec(f); for (int k = 0; k < 3; k++) b[k] += v[k]; } CK(norm(sub(a, b)) < 1e-9, "orientation of the quadrilaterals", "%s", s.name.c_str());
  } else { for (auto r : all_r(m)) { auto p = pts(vec(MR_Vertices(r))); for (int i = 0; i < 4; i++) { std::vector<P3> q{p[i], mean(p)}; for (int j = 0; j < 4; j++) if (j != i) { q.push_back(mean({p[i], p[j]})); std::vector<P3> o; for (int k = 0; k < 4; k++) if (k != j) o.push_back(p[k]); q.push_back(mean(o)); } we.insert(elkey(q, r)); } tot0 += region_volume(r); }
    for (auto r : all_r(n)) { auto q = vec(MR_Vertices(r)); CK(q.size() == 8 && MR_ElementType(r) == HEX, "not a hexahedron", "%zu vertices", q.size()); ge.insert(elkey(pts(q), r)); double v = region_volume(r); CK(v > 1e-9, "hexahedron with wrong orientation", "%s volume %g", s.name.c_str(), v); tot += v; } }
  CK(we == ge, "elements of the converted mesh", "%s: %zu, expected %zu", s.name.c_str(), ge.size(), we.size()); CK(fabs(tot - tot0) < 1e-9, "the elements do not fill the originals", "%s: %g of %g", s.name.c_str(), tot, tot0);
  count(s.dim == 3 ? "tets" : "triangles"); H h; h.add(A->id()); h.add(hash_str(str(mat))); h.add(hw.rep * 100 + hw.how * 10 + hw.fl + rot * 1000); state(h.h); nontrivial(h.h); MESH_Delete(n); MESH_Delete(m);
}
static Spec octa() { Spec s{"octahedron", 3, {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}}, {}}; Cell p; p.t = C_POLYH; p.v = {0, 1, 2, 3, 4, 5}; for (int i = 0; i < 4; i++) { p.faces.push_back({i, (i + 1) % 4, 4}); p.faces.push_back({(i + 1) % 4, i, 5}); } s.cells.push_back(p); return s; }
int main(int c, char **v) { A = new Alpha(std::vector<Spec>{host_tri8(), host_surf(), host_kuhn()}); bad = {octa(), host_quad(1, 1), host_hex(1, 1, 1), subset(host_mix2(), 6), subset(host_mix3(), 2), subset(host_mix3(), 18)}; for (auto &b : bad) orient(b); Options o; o.property = "P22"; o.run = run; return vf::main(c, v, o); }
