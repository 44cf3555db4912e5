// P10: what one build of the library answers (compiled once with the markers off and once with them on; harness/twin.cpp compares the two)
#include "ans.hpp"
#include <algorithm>
#include <unistd.h>
using namespace mm; using namespace vf;
extern "C" void twin_say(const char *);
static void say(const char *f, ...) { char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); twin_say(b); }
static void queries(Mesh_ptr m) { mm::queries(m, [](const std::string &s) { twin_say(s.c_str()); }); }
static Alpha *A;
static void common(Mesh_ptr m) {
  VP v = all_v(m), e = all_e(m), f = all_f(m), r = all_r(m); for (auto a : v) for (auto b : v) { MEdge_ptr x = MVs_CommonEdge(a, b); say("common %d %d: %d", MV_ID(a), MV_ID(b), x ? ME_ID(x) : 0); for (auto c : v) { MVertex_ptr q[3] = {a, b, c}; if (a == b || b == c || a == c) continue; MFace_ptr y = MVs_CommonFace(3, q); say("%d", y ? MF_ID(y) : 0); } }
  for (auto a : e) for (auto b : e) { if (a == b) continue; MEdge_ptr q[2] = {a, b}; MFace_ptr y = MEs_CommonFace(2, q); say("common %d %d: %d", ME_ID(a), ME_ID(b), y ? MF_ID(y) : 0); }
  for (auto y : f) { VP w = fverts(y); MFace_ptr g = MVs_CommonFace(w.size(), w.data()); say("%d", g ? MF_ID(g) : 0); }
}
static void sets() {
  Mesh_ptr m = MESH_New(F1); VP v; for (int i = 0; i < 4; i++) v.push_back(MV_New(m)); auto mk = [&](const char *n) { MSet_ptr s = MSet_New(m, n, MVERTEX); int c = pick(16, "entries"), d = pick(2, "from the end"); for (int i = 0; i < 4; i++) if (c >> (d ? 3 - i : i) & 1) MSet_Add(s, v[d ? 3 - i : i]); return s; }; MSet_ptr a = mk("a"), b = mk("b"); int op = pick(8, "operation"); say("%s %s operation %d", mset(a).c_str(), mset(b).c_str(), op);
  if (op == 0) a = MSets_Union(a, b); if (op == 1) a = MSets_Intersect(a, b); if (op == 2) a = MSets_Subtract(a, b); if (op == 3) a = MSet_Cat(a, b); if (op == 4) a = MSet_Copy(a); if (op == 5 && MSet_Num_Entries(a)) { int k = pick(MSet_Num_Entries(a), "which"); say("%d", MSet_Rem(a, MSet_Entry(a, k))); } if (op == 6 && MSet_Num_Entries(a)) { int k = pick(MSet_Num_Entries(a), "which"), w = pick(4, "by"); say("%d", MSet_Replace(a, MSet_Entry(a, k), v[w])); } if (op == 7 && MSet_Num_Entries(a)) { int k = pick(MSet_Num_Entries(a), "which"), w = pick(4, "new"); say("%d", MSet_Insert(a, v[w], MSet_Entry(a, k)) != NULL); }
  say("%s %s", mset(a).c_str(), mset(b).c_str()); if (a) for (auto x : v) say("%d %d", MSet_Contains(a, x), MSet_Locate(a, x)); MESH_Delete(m);
}
static std::string file(const std::string &n) { std::string s; FILE *f = fopen(n.c_str(), "r"); if (!f) return "no file"; char b[4096]; while (fgets(b, sizeof b, f)) s += b; fclose(f); return s; }
extern "C" int twin_run() {
  int fam = atoi(vf::arg("fam", "0").c_str()); if (fam == 1) { sets(); return 1; } if (!A) A = new Alpha();
  Spec s = A->spec(fam == 0 ? 3 : fam == 2 ? 2 : 3, true); if (!A->mask) return 0; How hw = pick_how(1); M b = build(s, hw); Mesh_ptr m = b.m; int dim = s.dim; int kind = pick(3, "classified"); if (kind) classify(m, dim, kind == 1 ? VI{1} : VI{1, 2}); else for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) { MEnt_Set_GEntDim(e, 4); MEnt_Set_GEntID(e, 0); }
  if (fam == 0) { int way = pick(2, "order"); if (way) common(m); queries(m); if (!way) common(m); }
  if (fam == 2) for (int k = 0; k < (thorough || s.cells.size() < 2 ? 2 : 1); k++) { int op = pick(6, "modification"); VP q; if (op == 0) { q = all_e(m); if (q.empty()) break; int w = pick((int)q.size(), "edge"), x = pick(2, "keep"); List_ptr del = NULL, mer = NULL; MVertex_ptr r = ME_Collapse(q[w], ME_Vertex(q[w], x), 1, &del, &mer); say("collapse %d", r ? MV_ID(r) : 0); if (del) List_Delete(del); if (mer) List_Delete(mer); }
      if (op == 1) { q = all_e(m); if (q.empty()) break; int w = pick((int)q.size(), "edge"); double x[3] = {.3, .4, .5}; MVertex_ptr r = ME_Split(q[w], x); say("split %d", r ? MV_ID(r) : 0); } if (op == 2) { q = all_f(m); bool simp = !q.empty(); for (auto f : q) if (MF_Num_Edges(f) != 3) simp = false; for (auto r : all_r(m)) if (MR_Num_Faces(r) != 4) simp = false; if (!simp) break; int w = pick((int)q.size(), "face"); double x[3] = {.3, .4, .5}; MVertex_ptr r = MF_Split_SimplexMesh(q[w], x); say("split %d", r ? MV_ID(r) : 0); break; }
      if (op == 3) { q = all_of(m, dim); if (q.empty()) break; int w = pick((int)q.size(), "element"); if (dim == 3) MR_Delete(q[w], 0); else MF_Delete(q[w], 0); } if (op == 4) { q = all_of(m, dim - 1); if (q.empty()) break; int w = pick((int)q.size(), "side"); VP el = vec(dim == 3 ? MF_Regions(q[w]) : ME_Faces(q[w])); if (el.size() != 2) break; void *r = dim == 3 ? (void *)MRs_Join(el[0], el[1], q[w]) : (void *)MFs_Join(el[0], el[1], q[w]); say("join %d", r ? MEnt_ID(r) : 0); }
      if (op == 5) break; queries(m); }
  if (fam == 3) { int op = pick(4, "what"); if (op < 2) { int t = pick(4, "of"); static const MType T[5] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE}; MESH_Renumber(m, op, T[t == 3 ? 4 : t == 2 ? dim : t]); queries(m); }
    if (op == 2) { int g = pick(2, "geometry"); say("classification %d", MESH_BuildClassfn(m, g)); queries(m); }
    if (op == 3) { int w = pick(2, "rounds"); MESH_BuildClassfn(m, 1); for (auto e : all_of(m, dim)) MEnt_Set_GEntID(e, 1 + MEnt_ID(e) % 2); MESH_BuildClassfn(m, w); queries(m); } }
  if (fam == 4) { int ex = pick(2, "format"), o = pick(2, "options"); MAttrib_ptr a = MAttrib_New(m, "x", DOUBLE, (MType)dim), c = MAttrib_New(m, "y", DOUBLE, MVERTEX); for (auto e : all_of(m, dim)) MEnt_Set_AttVal(e, a, 0, MEnt_ID(e) * .5, NULL); for (auto e : all_v(m)) MEnt_Set_AttVal(e, c, 0, MEnt_ID(e) * .25, NULL); { MSet_ptr q = MSet_New(m, "sideset_3", (MType)(dim - 1)); for (auto x : all_of(m, dim - 1)) if (MEnt_ID(x) % 2) MSet_Add(q, x); q = MSet_New(m, "nodeset_2", MVERTEX); for (auto x : all_v(m)) if (MEnt_ID(x) % 3) MSet_Add(q, x); }
    std::string f = scratch() + (ex ? "/m.exo" : "/m.gmv"); unlink(f.c_str()); int gm[5] = {o, 0, 0, 0, 0}, xo[3] = {0, o, 1}; int ok = ex ? MESH_ExportToExodusII(m, f.c_str(), 0, NULL, xo, NULL) : MESH_ExportToGMV(m, f.c_str(), 0, NULL, gm, NULL); say("export %d", ok); queries(m); if (!ex) say("%s", file(f).c_str()); Mesh_ptr n = MESH_New(pick(2, "to") ? F4 : F1); ok = ex ? MESH_ImportFromExodusII(n, f.c_str(), NULL, NULL) : MESH_ImportFromGMV(n, f.c_str(), NULL); say("import %d", ok); queries(n); MESH_Delete(n); }
  MESH_Delete(m); return 1;
}
