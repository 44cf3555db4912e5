// P29: common-entity and membership queries
#include "alpha.hpp"
using namespace mm; using namespace vf;
static Alpha *A;
// documented: a face connected to all the given vertices, whatever their number and order
static void documented() {
  Spec s = A->spec(); if (s.dim != 2 && s.dim != 3) return; M M0 = build(s, F1); void *lost = NULL; bool few = pick(2, "subset"); step();
  for (auto f : all_f(M0.m)) { VP t = fverts(f); if (t.size() < 4) continue; if (few) t.resize(3); else { std::swap(t[1], t[2]); } if (!MVs_CommonFace(t.size(), t.data())) lost = f; }
  count("documented"); state(A->id() * 2 + few); if (lost) fail(few ? "MVs_CommonFace: some of the vertices of a face" : "MVs_CommonFace: vertices of a face with two that are not neighbours first", "%s face %d not found", s.name.c_str(), MF_ID(lost)); MESH_Delete(M0.m); }
static void run() {
  if (pick(2, "documented")) return documented();
  int loose = pick(2, "loose vertices"); Spec s = A->spec(loose ? 2 : 99, !loose); if (!A->mask) return; How hw = pick_how(thorough ? 3 : 2); int rot = hw.how ? pick(2, "start") : 0; M M0 = build(s, hw.rep, hw.how, FLIPS[hw.fl], rot); Mesh_ptr m = M0.m; auto P0 = by_pointer(m); VF_TRACE("%s rep %d how %d", s.name.c_str(), hw.rep, hw.how);
  VP V = all_v(m), E = all_e(m), F = all_f(m); std::map<std::set<void *>, void *> em, fm, fem; std::map<void *, std::set<void *>> fv, fe; long q = 0;
  for (auto e : E) em[{ME_Vertex(e, 0), ME_Vertex(e, 1)}] = e;
  for (auto f : F) { VP a = fverts(f), b = vec(MF_Edges(f, 1, 0)); fv[f] = {a.begin(), a.end()}; fe[f] = {b.begin(), b.end()}; fm[fv[f]] = f; }
  for (auto a : V) for (auto b : V) if (a != b) { auto it = em.find({a, b}); void *w = it == em.end() ? NULL : it->second, *g = MVs_CommonEdge(a, b); q++; CK(g == w, "MVs_CommonEdge", "%s vertices %d %d: %s", s.name.c_str(), MV_ID(a), MV_ID(b), w ? g ? "wrong edge" : "edge not found" : "edge where there is none"); }
  for (auto e : E) for (int i = 0; i < 2; i++) { CK(ME_OppVertex(e, ME_Vertex(e, i)) == ME_Vertex(e, 1 - i), "ME_OppVertex", "edge %d", ME_ID(e)); CK(ME_OppVertexID(e, ME_VertexID(e, i)) == ME_VertexID(e, 1 - i), "ME_OppVertexID", "edge %d", ME_ID(e)); q += 2; }
  for (auto a : E) for (auto b : E) { CK(!!MEs_AreSame(a, b) == (a == b), "MEs_AreSame", "edges %d %d", ME_ID(a), ME_ID(b)); q++; } for (auto a : F) for (auto b : F) { CK(!!MFs_AreSame(a, b) == (a == b), "MFs_AreSame", "faces %d %d", MF_ID(a), MF_ID(b)); q++; }
  auto askv = [&](VP t, const char *what) { std::set<void *> k(t.begin(), t.end()); bool any = false; for (auto f : F) any |= std::includes(fv[f].begin(), fv[f].end(), k.begin(), k.end()); auto it = fm.find(k); bool adj = em.count({t[0], t[1]}); void *g = MVs_CommonFace(t.size(), t.data()); q++;
    if (it != fm.end() && adj) CK(g == it->second, "MVs_CommonFace", "%s %s %s: %s", s.name.c_str(), what, ids(t).c_str(), g ? "wrong face" : "face not found"); else if (!any) CK(!g, "MVs_CommonFace where there is none", "%s %s %s", s.name.c_str(), what, ids(t).c_str()); else CK(!g || std::includes(fv[g].begin(), fv[g].end(), k.begin(), k.end()), "MVs_CommonFace returned a face without one of the vertices", "%s %s %s", s.name.c_str(), what, ids(t).c_str()); };
  auto aske = [&](VP t) { std::set<void *> k(t.begin(), t.end()); bool any = false; for (auto f : F) any |= std::includes(fe[f].begin(), fe[f].end(), k.begin(), k.end()); void *g = MEs_CommonFace(t.size(), t.data()); q++; CK(!!g == any, any ? "MEs_CommonFace: face not found" : "MEs_CommonFace where there is none", "%s edges %s", s.name.c_str(), ids(t).c_str()); if (g) CK(std::includes(fe[g].begin(), fe[g].end(), k.begin(), k.end()), "MEs_CommonFace returned a face without one of the edges", "%s edges %s", s.name.c_str(), ids(t).c_str()); };
  for (auto f : F) { VP t = sorted(fverts(f)); do askv(t, "permutation"); while (std::next_permutation(t.begin(), t.end())); VP b = vec(MF_Edges(f, 1, 0)); std::sort(b.begin(), b.end()); if (b.size() <= 4) do aske(b); while (std::next_permutation(b.begin(), b.end()));
    // one vertex or edge exchanged for any other
    VP c = fverts(f); for (size_t i = 0; i < c.size(); i++) for (auto v : V) if (!has(c, v)) { VP d = c; d[i] = v; askv(d, "exchanged"); } VP x = vec(MF_Edges(f, 1, 0)); for (size_t i = 0; i < x.size(); i++) for (auto e : E) if (!has(x, e)) { VP d = x; d[i] = e; aske(d); } }
  for (auto e : E) { void *a = ME_Vertex(e, 0), *b = ME_Vertex(e, 1); for (auto c : V) if (c != a && c != b) { askv({a, b, c}, "triple"); askv({b, a, c}, "triple"); if (V.size() <= 9) for (auto d : V) if (d != a && d != b && d != c) askv({a, b, c, d}, "quadruple"); } }
  for (auto a : E) { aske({a}); for (auto b : E) if (a != b) { aske({a, b}); if (E.size() <= 16) for (auto c : E) if (c != a && c != b) aske({a, b, c}); } }
  // an entity uses another of lower dimension exactly when it is in its boundary, and of the same kind only itself
  auto part = [&](void *x, void *y) { int d = MEnt_Dim(y); if (MEnt_Dim(x) == MEDGE) return ME_Vertex(x, 0) == y || ME_Vertex(x, 1) == y; if (MEnt_Dim(x) == MFACE) return d == 0 ? fv[x].count(y) > 0 : fe[x].count(y) > 0; for (auto f : vec(MR_Faces(x))) if (d == 2 ? f == y : d == 1 ? fe[f].count(y) > 0 : fv[f].count(y) > 0) return true; return false; };
  for (int d = 1; d < 4; d++) for (auto x : all_of(m, d)) for (int k = 0; k < d; k++) for (auto y : all_of(m, k)) { bool w = part(x, y); int g = d == 1 ? ME_UsesEntity(x, y, k) : d == 2 ? MF_UsesEntity(x, y, k) : MR_UsesEntity(x, y, k); q++; CK(!!g == w, "UsesEntity", "%s: kind %d %d and kind %d %d: %d", s.name.c_str(), d, MEnt_ID(x), k, MEnt_ID(y), g); }
  CK(by_pointer(m) == P0, "a query changed the mesh", "%s", s.name.c_str()); step(q); count(s.dim == 3 ? "3D" : "2D"); if (loose) count("loose vertices"); H h; h.add(A->id()); h.add(hw.rep * 100 + hw.how * 10 + hw.fl + rot * 1000 + loose * 2000); state(h.h); nontrivial(h.h); MESH_Delete(m);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P29"; o.run = run; return vf::main(c, v, o); }
