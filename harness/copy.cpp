// P19: copying a mesh
#include "alpha.hpp"
using namespace mm; using namespace vf;
static Alpha *A;
static std::string ent(void *e) { return e ? fmt("%d:%d", (int)MEnt_Dim(e), MEnt_ID(e)) : "null"; }
// everything of a mesh by kind and ID, with attributes and sets
static std::map<std::string, std::string> table(Mesh_ptr m, bool atts, bool sets) {
  std::map<std::string, std::string> T; Lab L; for (auto v : all_v(m)) L[v] = MV_ID(v);
  for (int d = 0; d < 4; d++) { int pos = 0; for (auto e : all_of(m, d)) { std::string s = fmt("pos%d ", pos++) + key_of(e, L) + fmt(" g%d/%d", MEnt_GEntDim(e), MEnt_GEntID(e)); if (d == 0) { P3 p = coords(e); s += fmt(" %a %a %a", p[0], p[1], p[2]); }
      if (d == 1) s += " " + ent(ME_Vertex(e, 0)) + ent(ME_Vertex(e, 1)); if (d == 2) { s += " d"; for (auto v : fverts(e)) s += ent(v) + ","; VP q = vec(MF_Edges(e, 1, 0)); for (size_t i = 0; i < q.size(); i++) s += ent(q[i]) + (MF_EdgeDir_i(e, i) ? "+" : "-"); }
      if (d == 3) { VP q = vec(MR_Faces(e)); for (size_t i = 0; i < q.size(); i++) s += ent(q[i]) + (MR_FaceDir_i(e, i) ? "+" : "-"); } s += fmt(" type%d", d == 2 ? (int)MF_ElementType(e) : d == 3 ? (int)MR_ElementType(e) : 0);
      CK(!T.count(ent(e)), "two entities with one ID", "%s", ent(e).c_str()); T[ent(e)] = s;
      if (atts) { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { if (MAttrib_Get_Type(a) == POINTER) continue; char nm[256]; MAttrib_Get_Name(a, nm); int iv = 0; double rv = 0; void *pv = NULL; int ok = MEnt_Get_AttVal(e, a, &iv, &rv, &pv); std::string s; if (ok) switch (MAttrib_Get_Type(a)) { case INT: s = iv ? fmt("%d", iv) : ""; break; case DOUBLE: s = rv ? fmt("%a", rv) : ""; break; case VECTOR: case TENSOR: if (pv) for (int k = 0; k < MAttrib_Get_NumComps(a); k++) s += fmt("%a,", ((double *)pv)[k]); break; default:; } if (!s.empty()) T[ent(e) + "." + nm] = s; } } } }
  if (atts) { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { char nm[256]; MAttrib_Get_Name(a, nm); if (MAttrib_Get_Type(a) != POINTER) T[std::string("att ") + nm] = fmt("%d %d %d", (int)MAttrib_Get_Type(a), (int)MAttrib_Get_EntDim(a), MAttrib_Get_Type(a) == VECTOR || MAttrib_Get_Type(a) == TENSOR ? MAttrib_Get_NumComps(a) : 0); } }
  if (sets) { int i = 0; MSet_ptr s; while ((s = MESH_Next_MSet(m, &i))) { char nm[256]; MSet_Name(s, nm); std::string x = fmt("%d:", (int)MSet_EntDim(s)); int k = 0; void *e; while ((e = MSet_Next_Entry(s, &k))) x += ent(e) + (MEnt_Mesh(e) == m ? "," : "(foreign)"); T[std::string("set ") + nm] = x; } }
  return T;
}
static std::string df(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) { for (auto &x : a) { auto i = b.find(x.first); if (i == b.end()) return "lost " + x.first + " = " + x.second; if (i->second != x.second) return x.first + ": " + i->second + " instead of " + x.second; } for (auto &x : b) if (!a.count(x.first)) return "extra " + x.first + " = " + x.second; return ""; }
static void decorate(Mesh_ptr m, int pat) { // attributes of every type and kind and sets of every kind; pat selects who has values
  static const MAttType T[4] = {INT, DOUBLE, VECTOR, TENSOR}; static const MType D[5] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE};
  for (int t = 0; t < 4; t++) for (int d = 0; d < 5; d++) { int nc = t == 2 ? 2 : 3; MAttrib_ptr a = t < 2 ? MAttrib_New(m, fmt("a%d_%d", t, d).c_str(), T[t], D[d]) : MAttrib_New(m, fmt("a%d_%d", t, d).c_str(), T[t], D[d], nc); for (int k = 0; k < 4; k++) if (d == 4 || d == k) { int i = 0; for (auto e : all_of(m, k)) { i++; if (pat == 0 ? false : pat == 1 ? (i + t) % 2 : true) { double *x = t >= 2 ? (double *)malloc(nc * sizeof(double)) : NULL; for (int c = 0; c < nc && x; c++) x[c] = i + c * 0.25 + k * 100; MEnt_Set_AttVal(e, a, i * 7 + k, t == 1 ? i * 0.3 + k : 0., x); } } } }
  MAttrib_ptr ptr = MAttrib_New(m, "ptr", POINTER, MVERTEX); if (pat == 2) for (auto v : all_v(m)) MEnt_Set_AttVal(v, ptr, 0, 0., v);
  for (int k = 0; k < 4; k++) { MSet_ptr s = MSet_New(m, fmt("s%d", k).c_str(), D[k]); VP q = all_of(m, k); if (pat) for (int i = (int)q.size() - 1; i >= 0; i -= pat == 1 ? 2 : 1) MSet_Add(s, q[i]); }
  MSet_ptr s = MSet_New(m, "sall", MALLTYPE); if (pat) for (int k = 3; k >= 0; k--) { VP q = all_of(m, k); if (!q.empty()) MSet_Add(s, q[q.size() / 2]); } }
static void run() {
  Spec s = A->spec(thorough ? 6 : 3); if (!A->mask) return; How hw = pick_how(thorough ? 2 : 1); RepType rd = pick(2, "to") ? F4 : F1; M M0 = build(s, hw); Mesh_ptr m = M0.m; int n = s.cells.size(); VI mat = thorough || n < 2 ? pick_materials(n, 1) : VI{1, 2}; classify(m, s.dim, mat);
  int c0 = pick(9, "values, with, then"), pat = c0 < 7 ? 2 : c0 - 7, fl = c0 < 4 ? 3 : c0 < 7 ? c0 - 4 : 3, post = c0 % 4, idp = thorough ? pick(2, "ids") : c0 % 2 == 0; VF_TRACE("%s rep %d->%d how %d ids %d values %d with %d then %d", s.name.c_str(), hw.rep, rd, hw.how, idp, pat, fl, post);
  if (idp) for (int d = 0; d < 4; d++) { VP q = all_of(m, d); for (size_t i = 0; i < q.size(); i++) MEnt_Set_ID(q[i], 1000 - 3 * (int)i); } // descending with gaps
  decorate(m, pat); auto P0 = by_pointer(m); auto T0 = table(m, true, true); std::string al = attr_list(m); auto W = table(m, fl & 1, fl & 2);
  Mesh_ptr c = MESH_New(rd); int ok = MESH_Copy(m, c, fl & 1, !!(fl & 2)); step(); CK(ok, "copy failed", "%s", s.name.c_str()); CK(MESH_RepType(c) == rd, "representation of the copy", "%d", MESH_RepType(c));
  CK(by_pointer(m) == P0, "copying changed the original", "%s", s.name.c_str()); std::string d = df(T0, table(m, true, true)); CK(d.empty(), "copying changed the original", "%s", d.c_str()); CK(attr_list(m) == al, "copying left an attribute on the original", "%s", attr_list(m).c_str());
  auto C0 = table(c, true, true); d = df(W, C0); CK(d.empty(), "copy differs from the original", "%s rep %d->%d with %d: %s", s.name.c_str(), hw.rep, rd, fl, d.c_str());
  for (int k = 0; k < 4; k++) for (auto e : all_of(c, k)) CK(MEnt_Mesh(e) == c, "entity of the copy in another mesh", "kind %d", k);
  VerifyOpt vo; vo.pairs = false; verify(c, "copy", vo);
  // independence: change or delete one, the other stays
  auto wreck = [&](Mesh_ptr x) { for (auto v : all_v(x)) { double q[3] = {9, 9, 9}; MV_Set_Coords(v, q); MEnt_Set_GEntID(v, 77); } int i = 0; MAttrib_ptr a; VP as; while ((a = MESH_Next_Attrib(x, &i))) as.push_back(a); for (auto a : as) for (int k = 0; k < 4; k++) for (auto e : all_of(x, k)) { if (MAttrib_Get_EntDim(a) != MALLTYPE && (int)MAttrib_Get_EntDim(a) != k) continue; int iv; double rv; void *pv = NULL; MEnt_Get_AttVal(e, a, &iv, &rv, &pv); if ((MAttrib_Get_Type(a) == VECTOR || MAttrib_Get_Type(a) == TENSOR) && pv) ((double *)pv)[0] = -1; else if (MAttrib_Get_Type(a) == INT) MEnt_Set_AttVal(e, a, -5, 0., NULL); else if (MAttrib_Get_Type(a) == DOUBLE) MEnt_Set_AttVal(e, a, 0, -5., NULL); }
    int si = 0; MSet_ptr st; while ((st = MESH_Next_MSet(x, &si))) { void *e = MSet_Entry(st, 0); if (e) MSet_Rem(st, e); } for (auto r : all_r(x)) MR_Delete(r, 0); for (auto f : all_f(x)) MF_Delete(f, 0); MV_New(x); };
  Mesh_ptr keep = NULL;
  if (post == 0) { wreck(c); d = df(T0, table(m, true, true)); CK(d.empty() && by_pointer(m) == P0, "changing the copy changed the original", "%s: %s", s.name.c_str(), d.c_str()); MESH_Delete(c); keep = m; }
  if (post == 1) { wreck(m); d = df(C0, table(c, true, true)); CK(d.empty(), "changing the original changed the copy", "%s: %s", s.name.c_str(), d.c_str()); MESH_Delete(m); keep = c; }
  if (post == 2) { MESH_Delete(c); d = df(T0, table(m, true, true)); CK(d.empty(), "deleting the copy changed the original", "%s: %s", s.name.c_str(), d.c_str()); keep = m; }
  if (post == 3) { MESH_Delete(m); d = df(C0, table(c, true, true)); CK(d.empty(), "deleting the original changed the copy", "%s: %s", s.name.c_str(), d.c_str()); verify(c, "copy after the original was deleted", vo); keep = c; }
  MV_New(keep); table(keep, true, true); // a new entity gets an unused ID
  MESH_Delete(keep); count(s.dim == 3 ? "3D" : "2D"); if (hw.rep != rd) count("other representation"); H h; h.add(A->id()); h.add(hash_str(str(mat))); h.add(hw.rep * 2 + (rd == F4)); h.add(hw.how * 8 + hw.fl); h.add(idp * 100 + pat * 10 + fl); state(h.h); h.add(post); nontrivial(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P19"; o.run = run; return vf::main(c, v, o); }
