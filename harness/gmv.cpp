// P25: GMV format
#include "alpha.hpp"
#include <algorithm>
#include <unistd.h>
using namespace mm; using namespace vf;
static Alpha *A;
// the cells GMV knows of: regions, faces of no region, edges of no face; in the order of their IDs or, where the IDs have gaps, of the lists
static bool gaps(Mesh_ptr m) { for (int d = 0; d < 4; d++) { VP q = all_of(m, d); int lo = 1 << 30, hi = 0; for (auto e : q) { lo = std::min(lo, MEnt_ID(e)); hi = std::max(hi, MEnt_ID(e)); } if (q.size() && (lo != 1 || hi != (int)q.size())) return true; } return false; }
static VP ordered(VP q, bool g) { if (!g) std::stable_sort(q.begin(), q.end(), [](void *a, void *b) { return MEnt_ID(a) < MEnt_ID(b); }); return q; }
static VP cells(Mesh_ptr m, bool g) { VP c; for (int d = 3; d > 0; d--) for (auto e : ordered(all_of(m, d), g)) { if (d == 2) { VP q = vec(MF_Regions(e)); if (q.size()) continue; } if (d == 1) { VP q = vec(ME_Faces(e)); if (q.size()) continue; } c.push_back(e); } return c; }
static std::string cyc(const VI &a) { size_t k = std::min_element(a.begin(), a.end()) - a.begin(); std::string s; for (size_t i = 0; i < a.size(); i++) s += fmt("%d ", a[(i + k) % a.size()]); return s; }
static std::string desc(void *c, std::map<void *, int> &N) { int d = MEnt_Dim(c); auto fv = [&](void *f, int dir) { VI a; for (auto v : vec(MF_Vertices(f, dir, 0))) a.push_back(N[v]); return cyc(a); };
  if (d == 1) return fmt("edge %d %d", N[ME_Vertex(c, 0)], N[ME_Vertex(c, 1)]); if (d == 2) return "face " + fv(c, 1);
  std::vector<std::string> q; VP f = vec(MR_Faces(c)); for (size_t i = 0; i < f.size(); i++) q.push_back(fv(f[i], MR_FaceDir_i(c, i))); std::sort(q.begin(), q.end()); std::string s = fmt("region type %d ", (int)MR_ElementType(c)); for (auto &x : q) s += x + "/ "; return s; }
static MAttrib_ptr att(Mesh_ptr m, const char *n, int d) { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { char b[256]; MAttrib_Get_Name(a, b); if (!strcmp(b, n) && (int)MAttrib_Get_EntDim(a) == d) return a; } return NULL; }
static double val(void *e, MAttrib_ptr a) { int iv; double rv; void *pv; MEnt_Get_AttVal(e, a, &iv, &rv, &pv); return MAttrib_Get_Type(a) == INT ? iv : rv; }
static Mesh_ptr source(std::string &name, H &h, int &dim) {
  int kind = pick(6, "mesh"); // alphabet, with loose vertices, element deleted, IDs permuted, wires, elements and wires
  if (kind == 4) { Mesh_ptr m = MESH_New(pick(2, "rep") ? F4 : F1); int n = 1 + pick(3, "vertices"); for (int i = 0; i < n; i++) { MVertex_ptr v = MV_New(m); double x[3] = {i * .5, -i * 1., 0}; MV_Set_Coords(v, x); MV_Set_GEntDim(v, i % 4); } for (int i = 0; i + 1 < n; i++) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, MESH_Vertex(m, i + 1)); ME_Set_Vertex(e, 1, MESH_Vertex(m, i)); ME_Set_GEntDim(e, 1); ME_Set_GEntID(e, 4 + i * 7); } name = fmt("wires of %d", n); h.add(n); dim = 1; count("wires"); return m; }
  Spec s = A->spec(thorough ? 5 : 3, kind != 1); if (!A->mask) return NULL; How hw = pick_how(2); M b = build(s, hw); int n = s.cells.size(); VI mat = n < 3 ? pick_materials(n, 2) : VI{5, 2, 11}; classify(b.m, s.dim, mat); dim = s.dim;
  if (kind == 2) { VP q = all_of(b.m, s.dim); int k = pick(2, "delete") ? (int)q.size() - 1 : 0; if (s.dim == 3) MR_Delete(q[k], 0); else MF_Delete(q[k], 0); count("element deleted"); if (q.size() == 1) dim--; else count("mixed"); }
  if (kind == 3) { for (int d = 0; d < 4; d++) { VP q = all_of(b.m, d); int k = q.size(); for (int i = 0; i < k; i++) { int id = (i + 1) % k + 1; if (d == 0) MV_Set_ID(q[i], id); if (d == 1) ME_Set_ID(q[i], k - i); if (d == 2) MF_Set_ID(q[i], id); if (d == 3) MR_Set_ID(q[i], k - i); } } count("IDs permuted"); }
  if (kind == 5) { VP v = all_v(b.m); MVertex_ptr x = MV_New(b.m); double c[3] = {9, 9, 9}; MV_Set_Coords(x, c); MEdge_ptr e = ME_New(b.m); ME_Set_Vertex(e, 0, x); ME_Set_Vertex(e, 1, v[0]); ME_Set_GEntDim(e, 1); ME_Set_GEntID(e, 77); count("mixed"); }
  name = fmt("%s kind %d rep %d how %d/%d mat %s", s.name.c_str(), kind, hw.rep, hw.how, hw.fl, str(mat).c_str()); h.add(A->id()); h.add(kind); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); h.add(hash_str(str(mat))); count(s.dim == 3 ? "3D" : "2D"); return b.m;
}
static void run() {
  std::string name; H h; int dim; Mesh_ptr m = source(name, h, dim); if (!m) return;
  int way = pick(3, "keywords"), na, to; if (!thorough && MESH_Num_Vertices(m) > 6) { na = 2 * pick(2, "attributes written"), to = (way + MESH_Num_Edges(m)) % 2; if (na == 2 && way == 2) na = 3; } else { na = pick(4, "attributes written"), to = pick(2, "to"); } int opts[5] = {way == 1, way == 2, 0, 0, 0}; // na: all, none, two chosen, one that is not there
  VF_TRACE("%s keywords %d attributes %d into %d", name.c_str(), way, na, to); bool g = gaps(m); VP V = ordered(all_v(m), g), C = cells(m, g); std::map<void *, int> N; for (size_t i = 0; i < V.size(); i++) N[V[i]] = i + 1;
  bool lone = false; for (auto c : C) if (MEnt_Dim(c) == 2) lone = true;
  struct Q { const char *n; MAttType t; int d; }; std::vector<Q> Q_ = {{"pressure", DOUBLE, 0}, {"count", INT, 0}, {"density", DOUBLE, dim}, {"layer", INT, dim}, {"both", DOUBLE, MALLTYPE}, {"number", INT, MALLTYPE}, {"velo", VECTOR, dim}}; std::map<std::string, MAttrib_ptr> AT;
  for (auto &q : Q_) { MAttrib_ptr a = AT[q.n] = q.t == VECTOR ? MAttrib_New(m, q.n, q.t, (MType)q.d, 2) : MAttrib_New(m, q.n, q.t, (MType)q.d); for (int d = 0; d < 4; d++) if (q.d == MALLTYPE || q.d == d) { int i = 0; for (auto e : all_of(m, d)) { i++; if (q.t == VECTOR || (i + q.n[0]) % 4 == 0) continue; MEnt_Set_AttVal(e, a, (i % 3 ? -1 : 1) * (i * 13 + d), (i % 3 ? 1 : -1) * (i * 10.0 / 3 + d * 1000), NULL); } } }
  std::string f = scratch() + "/m.gmv"; unlink(f.c_str()); auto P0 = by_pointer(m); std::string al = attr_list(m);
  const char *nm[2] = {"layer", "pressure"}, *no[1] = {"nosuch"}; int natt = na == 0 ? 0 : na == 1 ? -1 : na == 2 ? 2 : 1;
  int ok = MESH_ExportToGMV(m, f.c_str(), natt, na == 2 ? nm : na == 3 ? no : NULL, way ? opts : NULL, NULL); step();
  CK(by_pointer(m) == P0 && attr_list(m) == al, "export changed the mesh", "%s: attributes %s -> %s", name.c_str(), al.c_str(), attr_list(m).c_str());
  bool refused = way == 2 && lone; CK(ok == !refused, "export result", "%s: %d", name.c_str(), ok); h.add(way * 8 + na * 2 + to); if (refused) { CK(access(f.c_str(), F_OK), "refused export left a file", "%s", name.c_str()); count("refused"); state(h.h); MESH_Delete(m); return; }
  bool plain = true; if (way == 2) for (auto c : C) if (MEnt_Dim(c) != 3) plain = false; if (!plain) { count("vfaces mixed with other cells"); state(h.h); MESH_Delete(m); return; } // not a valid GMV file: readers warn about it
  Mesh_ptr c = MESH_New(to ? F4 : F1); ok = MESH_ImportFromGMV(c, f.c_str(), NULL); step(); CK(ok == 1, "import failed", "%s", name.c_str());
  VP W = all_v(c), D = cells(c, false); CK(W.size() == V.size(), "vertices", "%s: %zu instead of %zu", name.c_str(), W.size(), V.size()); CK(D.size() == C.size(), "cells", "%s: %zu instead of %zu", name.c_str(), D.size(), C.size());
  CK(MESH_Num_Edges(c) == MESH_Num_Edges(m) && MESH_Num_Faces(c) == MESH_Num_Faces(m) && MESH_Num_Regions(c) == MESH_Num_Regions(m), "counts", "%s: %d %d %d instead of %d %d %d", name.c_str(), MESH_Num_Edges(c), MESH_Num_Faces(c), MESH_Num_Regions(c), MESH_Num_Edges(m), MESH_Num_Faces(m), MESH_Num_Regions(m));
  std::map<void *, int> K; for (size_t i = 0; i < W.size(); i++) { K[W[i]] = i + 1; P3 p = coords(V[i]), q = coords(W[i]); for (int k = 0; k < 3; k++) CK(std::abs(p[k] - q[k]) < 1e-11, "coordinates", "%s: vertex %zu", name.c_str(), i + 1); CK(MV_GEntDim(W[i]) == MV_GEntDim(V[i]), "kind of model entity of a vertex", "%s: vertex %zu has %d instead of %d", name.c_str(), i + 1, MV_GEntDim(W[i]), MV_GEntDim(V[i])); }
  std::map<int, int> fw, bw; MAttrib_ptr it = C.empty() ? NULL : att(c, "itetclr", dim); CK(C.empty() || it, "no itetclr", "%s", name.c_str());
  for (size_t i = 0; i < C.size(); i++) { std::string x = desc(C[i], N), y = desc(D[i], K); CK(x == y, "cell differs", "%s: cell %zu is %s instead of %s", name.c_str(), i + 1, y.c_str(), x.c_str()); int a = MEnt_GEntID(C[i]), b = MEnt_GEntID(D[i]), d = MEnt_Dim(D[i]);
    CK(MEnt_GEntDim(D[i]) == d, "kind of model entity of a cell", "%s: cell %zu has %d", name.c_str(), i + 1, MEnt_GEntDim(D[i])); CK((!fw.count(a) || fw[a] == b) && (!bw.count(b) || bw[b] == a), "materials mixed up", "%s: cell %zu of material %d reads %d", name.c_str(), i + 1, a, b); fw[a] = b; bw[b] = a; if (d == dim) CK((int)val(D[i], it) == a, "itetclr", "%s: cell %zu has %d instead of %d", name.c_str(), i + 1, (int)val(D[i], it), a); }
  for (auto &q : Q_) for (int cell = 0; cell < 2; cell++) { if (q.d != MALLTYPE && (q.d != 0) != cell) continue; if (cell && C.empty()) continue; bool want = q.t != VECTOR && (na == 0 || (na == 2 && (!strcmp(q.n, nm[0]) || !strcmp(q.n, nm[1])))); MAttrib_ptr a = att(c, q.n, cell ? dim : 0); CK(want == (a != NULL), want ? "attribute not written" : "attribute written although not asked for", "%s: %s", name.c_str(), q.n); if (!a) continue;
      VP &X = cell ? C : V, &Y = cell ? D : W; for (size_t i = 0; i < X.size(); i++) { if (cell && MEnt_Dim(X[i]) != dim) continue; double u = val(X[i], AT[q.n]), w = val(Y[i], a); CK(std::abs(u - w) < 6e-7, "attribute value", "%s: %s of %s %zu is %g instead of %g", name.c_str(), q.n, cell ? "cell" : "vertex", i + 1, w, u); } count("attributes"); }
  int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(c, &i))) { char b[256]; MAttrib_Get_Name(a, b); bool known = !strcmp(b, "itetclr") || !strcmp(b, "icr1"); for (auto &q : Q_) if (!strcmp(b, q.n)) known = true; CK(known, "attribute from nowhere", "%s: %s", name.c_str(), b); }
  VerifyOpt vo; vo.pairs = false; if (dim > 1 && C.size()) verify(c, "read", vo); MESH_Delete(c); MESH_Delete(m); unlink(f.c_str()); if (g) count("ID gaps"); if (way == 1) count("nodes keyword"); if (way == 2) count("vface3d"); if (C.size()) nontrivial(h.h); state(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P25"; o.run = run; return vf::main(c, v, o); }
