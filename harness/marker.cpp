// P09: markers: histories of obtaining, using and returning them; library operations return what they take and leave nothing marked
#include "mesh.hpp"
#include <unistd.h>
using namespace mm; using namespace vf;
static Spec tri4, kuhn2, quad4;
struct W { Mesh_ptr m; VP ent; List_ptr l; MSet_ptr s; std::map<int, std::set<int>> held; }; // marker -> marked entities
static void check(W &w, const char *op) {
  step();
  for (auto &h : w.held) { CK(h.first >= 1 && h.first <= 32, (std::string(op) + ": marker out of range").c_str(), "%d", h.first);
    for (size_t e = 0; e < w.ent.size(); e++) CK(!!MEnt_IsMarked(w.ent[e], h.first) == !!h.second.count(e), (std::string(op) + ": marks").c_str(), "marker %d entity %zu: %s", h.first, e, h.second.count(e) ? "mark lost" : "marked"); }
}
static int get(W &w, const char *op) { int k = MSTK_GetMarker(); CK(!w.held.count(k), (std::string(op) + ": a marker in use is handed out").c_str(), "%d", k); w.held[k]; check(w, op); return k; }
static void free_all(W &w) { while (!w.held.empty()) { int k = w.held.begin()->first; for (auto e : w.held[k]) MEnt_Unmark(w.ent[e], k); w.held.erase(k); MSTK_FreeMarker(k); check(w, "MSTK_FreeMarker"); } }
static void init(W &w, const Spec &s, RepType r) { M m = build(s, r); w.m = m.m; for (int d = 0; d < 4; d++) { VP q = all_of(w.m, d); w.ent.insert(w.ent.end(), q.begin(), q.end()); } }
static void history() {
  W w; init(w, tri4, F1); int start = pick(4, "held at start"); static const int N[4] = {0, 3, 30, 31}; for (int i = 0; i < N[start]; i++) get(w, "MSTK_GetMarker");
  for (auto &h : w.held) { int e = h.first % w.ent.size(); MEnt_Mark(w.ent[e], h.first); h.second.insert(e); } check(w, "MEnt_Mark");
  w.l = List_New(3); for (int e : {1, 3, 5}) List_Add(w.l, w.ent[e]); List_Rem(w.l, w.ent[3]); List_Add(w.l, w.ent[0]); w.s = MSet_New(w.m, "s", MALLTYPE); for (int e : {0, 4, 6}) MSet_Add(w.s, w.ent[e]); MSet_Rem(w.s, w.ent[4]);
  int depth = thorough ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    int o = pick(13, "op"); if (!o) break; o--;
    auto at = [&](int q) { auto it = w.held.begin(); std::advance(it, q == 0 ? 0 : q == 1 ? w.held.size() - 1 : w.held.size() / 2); return it; };
    if (o == 0) { if (w.held.size() == 32) return; get(w, "MSTK_GetMarker"); count("get"); continue; }
    if (w.held.empty()) return;
    if (o <= 3) { if (o == 3 && w.held.size() < 3) return; if (o == 2 && w.held.size() < 2) return; auto it = at(o - 1); int k = it->first; for (auto e : it->second) MEnt_Unmark(w.ent[e], k); w.held.erase(it); MSTK_FreeMarker(k); count("free"); check(w, "MSTK_FreeMarker"); VF_TRACE("free %d", k); continue; }
    int q = o & 1; if (q && w.held.size() < 2) return; auto it = at(q); int k = it->first; VF_TRACE("op %d with %d", o, k); std::set<int> L{1, 5, 0}, S{0, 6};
    switch ((o - 4) / 2) {
    case 0: MEnt_Mark(w.ent[0], k); it->second.insert(0); check(w, "MEnt_Mark"); break;
    case 1: MEnt_Unmark(w.ent[0], k); it->second.erase(0); check(w, "MEnt_Unmark"); break;
    case 2: if (d & 1) { List_Mark(w.l, k); it->second.insert(L.begin(), L.end()); check(w, "List_Mark"); } else { List_Unmark(w.l, k); for (int e : L) it->second.erase(e); check(w, "List_Unmark"); } count("list"); break;
    case 3: if (d & 1) { MSet_Unmark(w.s, k); for (int e : S) it->second.erase(e); check(w, "MSet_Unmark"); } else { MSet_Mark(w.s, k); it->second.insert(S.begin(), S.end()); check(w, "MSet_Mark"); } count("set"); break;
    }
  }
  H h; for (auto &x : w.held) { h.add(x.first); for (auto e : x.second) h.add(e); } state(h.h); nontrivial(h.h);
  int left = 32 - w.held.size(); for (int i = 0; i < left; i++) get(w, "taking all remaining markers"); free_all(w); List_Delete(w.l); MESH_Delete(w.m);
}
// library operations between "k markers held with marks" and "the rest can still be taken, nothing new is marked"
static void libops() {
  static const Spec *SP[3] = {&tri4, &quad4, &kuhn2}; int si = pick(3, "mesh"); RepType rep = pick(2, "rep") ? F4 : F1;
  W w; init(w, *SP[si], rep); int hold = pick(3, "held"); for (int i = 0; i < hold * 2; i++) { int k = get(w, "MSTK_GetMarker"); for (size_t e = i; e < w.ent.size(); e += 2 + i) { MEnt_Mark(w.ent[e], k); w.held[k].insert(e); } }
  int op = pick(17, "operation"); const char *name = ""; step();
  auto sets = [&](MSet_ptr *a, MSet_ptr *b) { *a = MSet_New(w.m, "a", MVERTEX); *b = MSet_New(w.m, "b", MVERTEX); VP v = all_v(w.m); for (size_t i = 0; i < v.size(); i++) { if (i % 2) MSet_Add(*a, v[i]); if (i % 3) MSet_Add(*b, v[i]); } };
  MSet_ptr a, b; std::string f = scratch() + "/marker";
  switch (op) {
  case 0: name = "MSets_Union"; sets(&a, &b); MSets_Union(a, b); break;
  case 1: name = "MSets_Intersect"; sets(&a, &b); MSets_Intersect(a, b); break;
  case 2: name = "MSets_Subtract"; sets(&a, &b); MSets_Subtract(a, b); break;
  case 3: case 4: case 5: case 6: name = "MESH_Renumber RCM"; MESH_Renumber(w.m, 1, (MType)(op - 3)); break;
  case 7: name = "MESH_Renumber all"; MESH_Renumber(w.m, 1, MALLTYPE); break;
  case 8: case 9: { name = "MESH_BuildClassfn"; int k = 0; VP el = all_of(w.m, si == 2 ? 3 : 2); for (auto x : el) { MEnt_Set_GEntDim(x, si == 2 ? 3 : 2); MEnt_Set_GEntID(x, 1 + (k++ % 2)); } MESH_BuildClassfn(w.m, op == 9); break; }
  case 10: name = "MESH_ExportToGMV"; for (auto e : w.ent) { int d = MEnt_Dim(e); MEnt_Set_GEntDim(e, d == 3 ? 3 : 2); MEnt_Set_GEntID(e, 1); } MESH_ExportToGMV(w.m, f.c_str(), 0, NULL, NULL, NULL); break;
  case 11: name = "MESH_ExportToExodusII"; for (auto e : w.ent) { int d = MEnt_Dim(e); MEnt_Set_GEntDim(e, d); MEnt_Set_GEntID(e, 1); } MESH_ExportToExodusII(w.m, f.c_str(), 0, NULL, NULL, NULL); break;
  case 12: name = "MESH_ImportFromExodusII"; for (auto e : w.ent) { int d = MEnt_Dim(e); MEnt_Set_GEntDim(e, d); MEnt_Set_GEntID(e, 1); } { MESH_ExportToExodusII(w.m, f.c_str(), 0, NULL, NULL, NULL); Mesh_ptr n = MESH_New(rep); MESH_ImportFromExodusII(n, f.c_str(), NULL, NULL); for (int d = 0; d < 4; d++) for (auto e : all_of(n, d)) w.ent.push_back(e); } break;
  case 13: name = "adjacency queries"; for (auto e : w.ent) switch (MEnt_Dim(e)) { case MVERTEX: MV_AdjVertices(e); MV_Edges(e); MV_Faces(e); MV_Regions(e); break; case MEDGE: ME_Faces(e); ME_Regions(e); break; case MFACE: MF_Vertices(e, 1, 0); MF_AdjFaces(e); MF_Regions(e); break; default: MR_Vertices(e); MR_Edges(e); MR_AdjRegions(e); } break;
  case 14: name = "MESH_CheckTopo"; for (auto e : w.ent) { MEnt_Set_GEntDim(e, si == 2 ? 3 : 2); MEnt_Set_GEntID(e, 1); } MESH_CheckTopo(w.m); break;
  case 15: { name = "MESH_GetElementGraph"; int n, *b2, *ad; MESH_GetElementGraph(w.m, &n, &b2, &ad); break; }
  case 16: { name = "MESH_Copy"; Mesh_ptr n = MESH_New(rep); MESH_Copy(w.m, n, 1, 1); for (int d = 0; d < 4; d++) for (auto e : all_of(n, d)) w.ent.push_back(e); break; }
  }
  count(name); VF_TRACE("%s, %d markers held", name, hold * 2); check(w, name); int left = 32 - w.held.size();
  for (int i = 0; i < left; i++) get(w, (std::string(name) + ": markers not returned or entities left marked").c_str());
  H h; h.add(op); h.add(si); h.add(rep); h.add(hold); state(h.h); nontrivial(h.h); free_all(w);
}
static void run() { for (int k = 1; k <= 32; k++) MSTK_FreeMarker(k); if (pick(2, "mode")) libops(); else history(); }
int main(int c, char **v) { tri4 = subset(host_tri8(), 0xf); kuhn2 = subset(host_kuhn(), 3); orient(kuhn2); quad4 = host_quad(2, 2); orient(quad4); Options o; o.property = "P09"; o.run = run; return vf::main(c, v, o); }
