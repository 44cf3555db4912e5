// P03: the mesh reports exactly its live entities; IDs and lookup by ID are exact; all histories up to a depth
#include "mesh.hpp"
using namespace mm; using namespace vf;
static Spec k2, t4;
struct Mod { VP live[4]; std::map<void *, int> id; VP kept; std::set<void *> parts; };
static MEntity_ptr fromid(Mesh_ptr m, int d, int id) { return d == 0 ? (void *)MESH_VertexFromID(m, id) : d == 1 ? (void *)MESH_EdgeFromID(m, id) : d == 2 ? (void *)MESH_FaceFromID(m, id) : (void *)MESH_RegionFromID(m, id); }
static int num(Mesh_ptr m, int d) { return d == 0 ? MESH_Num_Vertices(m) : d == 1 ? MESH_Num_Edges(m) : d == 2 ? MESH_Num_Faces(m) : MESH_Num_Regions(m); }
static void *at(Mesh_ptr m, int d, int i) { return d == 0 ? MESH_Vertex(m, i) : d == 1 ? MESH_Edge(m, i) : d == 2 ? MESH_Face(m, i) : MESH_Region(m, i); }
static void *nxt(Mesh_ptr m, int d, int *i) { return d == 0 ? MESH_Next_Vertex(m, i) : d == 1 ? MESH_Next_Edge(m, i) : d == 2 ? MESH_Next_Face(m, i) : MESH_Next_Region(m, i); }
static void check(Mesh_ptr m, Mod &M, const char *op) {
  for (int d = 0; d < 4; d++) {
    const char *D[] = {"vertices", "edges", "faces", "regions"};
    auto K = [&](const char *q) { return fmt("%s: %s", op, q); };
    int n = M.live[d].size();
    CK(num(m, d) == n, K("count").c_str(), "%d %s, expected %d", num(m, d), D[d], n);
    VP it; int idx = 0; void *p; while ((p = nxt(m, d, &idx)) && (int)it.size() <= n) it.push_back(p);
    CK(sorted(it) == sorted(M.live[d]), K("iteration").c_str(), "%s: %s expected %s", D[d], ids(it).c_str(), ids(M.live[d]).c_str());
    for (int i = 0; i < n; i++) CK(at(m, d, i) == it[i], K("indexed access").c_str(), "%s at %d", D[d], i);
    CK(at(m, d, n) == NULL, K("indexed access past the end").c_str(), "%s", D[d]);
    std::map<int, void *> byid; int mx = 0;
    for (auto e : M.live[d]) {
      int id = MEnt_ID(e); CK(id > 0, K("ID not positive").c_str(), "%s: %d", D[d], id);
      CK(byid.emplace(id, e).second, K("ID not unique").c_str(), "%s: two with ID %d", D[d], id);
      auto k = M.id.find(e); if (k == M.id.end()) M.id[e] = id; else CK(k->second == id, K("ID changed").c_str(), "%s: %d became %d", D[d], k->second, id);
      mx = std::max(mx, id);
      CK(MEnt_Dim(e) == d && MEnt_Mesh(e) == m, K("MEnt_Dim/MEnt_Mesh").c_str(), "%s %d", D[d], id);
    }
    for (int id = -1; id <= std::min(mx, 40) + 3; id++) { auto k = byid.find(id); void *want = k == byid.end() ? NULL : k->second;
      void *g = fromid(m, d, id); CK(g == want, K("lookup by ID").c_str(), "%s: ID %d finds %s", D[d], id, g ? want ? "another entity" : "something" : "nothing");
      if (d < 4) { g = MESH_EntityFromID(m, (MType)d, id); CK(g == want, K("MESH_EntityFromID").c_str(), "%s: ID %d", D[d], id); } }
    for (auto &k : byid) if (k.first > 40) CK(fromid(m, d, k.first) == k.second, K("lookup by ID").c_str(), "%s: ID %d not found", D[d], k.first);
  }
  for (auto e : M.kept) CK(MEnt_Dim(e) == MDELETED, fmt("%s: a detached entity is alive", op).c_str(), "ID %d", MEnt_ID(e));
}
static std::set<void *> bare; // entities created without parts: no boundary to query yet
static bool used(void *e) { if (bare.count(e)) return false; switch (MEnt_Dim(e)) { case MVERTEX: return vec(MV_Edges(e)).size(); case MEDGE: return vec(ME_Faces(e)).size(); case MFACE: return vec(MF_Regions(e)).size(); default: return false; } }
static void run() {
  int st = pick(3, "start"); RepType rep = pick(2, "rep") ? F4 : F1;
  Mod M; std::vector<MVertex_ptr> vs; Mesh_ptr m;
  if (st == 0) m = MESH_New(rep); else { mm::M b = build(st == 1 ? k2 : t4, rep); m = b.m; vs = b.v; }
  for (int d = 0; d < 4; d++) M.live[d] = all_of(m, d);
  int depth = (thorough ? 6 : 4); int fix = st; (void)fix;
  bare.clear(); check(m, M, "start"); int d = 0; int nextid = 60; std::string hist;
  auto drop = [&](void *e, int keep) {
    int dim = MEnt_Dim(e); if (!bare.count(e)) for (auto p : dim == 3 ? vec(MR_Faces(e)) : dim == 2 ? vec(MF_Edges(e, 1, 0)) : dim == 1 ? VP{ME_Vertex(e, 0), ME_Vertex(e, 1)} : VP{}) if (keep) M.parts.insert(p);
    auto &l = M.live[dim]; l.erase(std::find(l.begin(), l.end(), e));
    if (keep) M.kept.push_back(e); else M.id.erase(e);
    MEnt_Delete(e, keep);
  };
  for (; d < depth; d++) {
    int o = pick(17, "op"); step(); const char *op = "";
    auto cand = [&](int dim, bool last) -> void * { VP &l = M.live[dim]; if (last) { for (auto i = l.rbegin(); i != l.rend(); ++i) if (!used(*i)) return *i; } else for (auto e : l) if (!used(e)) return e; return NULL; };
    void *e;
    switch (o) {
    case 0: op = "MV_New"; e = MV_New(m); M.live[0].push_back(e); break;
    case 1: { op = "ME_New"; if (M.live[0].size() < 2) return; void *a = M.live[0][0], *b = M.live[0].back(); if (vec(MVs_CommonEdge(a, b) ? List_New(1) : NULL).size()) return; if (MVs_CommonEdge(a, b)) return; e = ME_New(m); ME_Set_Vertex(e, 0, a); ME_Set_Vertex(e, 1, b); M.live[1].push_back(e); break; }
    case 2: { op = "MF_New"; if (M.live[0].size() < 3) return; int n = M.live[0].size(); MVertex_ptr q[3] = {M.live[0][0], M.live[0][n / 2], M.live[0][n - 1]}; for (auto f : M.live[2]) if (!bare.count(f)) { VP fv = fverts(f); if (has(fv, q[0]) && has(fv, q[1]) && has(fv, q[2])) return; }
      e = MF_New(m); MF_Set_Vertices(e, 3, q); M.live[2].push_back(e); VP now = all_e(m); for (auto x : now) if (!has(M.live[1], x)) M.live[1].push_back(x); break; }
    case 3: { op = "MR_New"; if (M.live[0].size() < 4) return; int n = M.live[0].size(); MVertex_ptr q[4] = {M.live[0][n - 4], M.live[0][n - 3], M.live[0][n - 2], M.live[0][n - 1]}; std::set<void *> want(q, q + 4); for (auto r : M.live[3]) if (!bare.count(r)) { VP rv = vec(MR_Vertices(r)); if (std::set<void *>(rv.begin(), rv.end()) == want) return; }
      for (auto f : M.live[2]) if (!bare.count(f)) { VP fv = fverts(f); int c = 0; for (auto x : q) c += has(fv, x); if (c == 3) return; }
      e = MR_New(m); MR_Set_Vertices(e, 4, q, 0, NULL); M.live[3].push_back(e); for (int k = 1; k < 3; k++) for (auto x : all_of(m, k)) if (!has(M.live[k], x)) M.live[k].push_back(x); break; }
    case 4: case 5: case 6: case 7: { // delete the first unused entity, from the top
      int keep = o & 1; bool last = o >= 6; op = keep ? "detach" : "delete"; e = NULL; for (int k = 3; k >= 0 && !e; k--) e = cand(k, last); if (!e) return; if (!keep && M.parts.count(e)) return; drop(e, keep); break; }
    case 8: case 9: { int keep = o & 1; op = keep ? "detach a vertex" : "delete a vertex"; e = cand(0, false); if (!e || (!keep && M.parts.count(e))) return; drop(e, keep); break; }
    case 10: { op = "restore the last detached"; if (M.kept.empty()) return; e = M.kept.back(); M.kept.pop_back(); int od = MEnt_OrigDim(e); if (od == 3) MR_Restore(e); else if (od == 2) MF_Restore(e); else if (od == 1) ME_Restore(e); else MV_Restore(e); M.live[od].push_back(e); break; }
    case 11: { op = "MESH_Enable_LocalIDSearch"; MESH_Enable_LocalIDSearch(m); break; }
    case 12: { op = "setting an ID"; int dim = -1; for (int k = 3; k >= 0; k--) if (M.live[k].size() > 1) { dim = k; break; } if (dim < 0) return; int far = pick(3, "id"); e = M.live[dim][far == 2 ? 0 : M.live[dim].size() / 2];
      int id; { int mx = 0; for (auto x : M.live[dim]) mx = std::max(mx, MEnt_ID(x)); for (auto x : M.kept) if (MEnt_OrigDim(x) == dim) mx = std::max(mx, MEnt_ID(x)); id = far ? mx + 1 : mx + 20; }
      MEnt_Set_ID(e, id); M.id[e] = id; break; }
    case 13: { op = "MESH_Renumber"; if (!M.kept.empty()) return; MESH_Renumber(m, 0, MALLTYPE); M.id.clear(); for (int k = 0; k < 4; k++) { std::set<int> s; for (auto x : M.live[k]) s.insert(MEnt_ID(x)); CK(s.size() == M.live[k].size() && (s.empty() || (*s.begin() == 1 && *s.rbegin() == (int)s.size())), "MESH_Renumber: IDs are not 1..n", "dimension %d", k); } break; }
    case 14: { int keep = pick(2, "keep"); op = "deleting while iterating"; int dim = -1; for (int k = 3; k >= 0; k--) if (M.live[k].size() > 1) { dim = k; break; } if (dim < 0) return;
      for (auto x : M.live[dim]) if (used(x) || (!keep && M.parts.count(x))) return;
      VP before = sorted(M.live[dim]), seen; int idx = 0, c = 0; while ((e = nxt(m, dim, &idx)) && seen.size() < 99) { seen.push_back(e); if (c++ % 2 == 0) drop(e, keep); } CK(sorted(seen) == before, "deleting while iterating: entities skipped or repeated", "dimension %d: %zu visited of %zu", dim, seen.size(), before.size()); break; }
    case 16: { int k = 1 + pick(3, "dim"); op = "new entity without parts"; e = k == 1 ? (void *)ME_New(m) : k == 2 ? (void *)MF_New(m) : (void *)MR_New(m); M.live[k].push_back(e); bare.insert(e); break; }
    case 15: { op = "creating while iterating"; VP before = M.live[0], seen; int idx = 0; while ((e = MESH_Next_Vertex(m, &idx)) && seen.size() < 60) { seen.push_back(e); if (seen.size() <= 5) M.live[0].push_back(MV_New(m)); }
      for (auto x : before) CK(std::count(seen.begin(), seen.end(), x) == 1, "creating while iterating: vertices skipped or repeated", "visited %ld times", (long)std::count(seen.begin(), seen.end(), x)); for (auto x : seen) CK(std::count(seen.begin(), seen.end(), x) == 1 && has(M.live[0], x), "creating while iterating: vertices skipped or repeated", "repeat"); break; }
    }
    VF_TRACE("%s", op); count(op); check(m, M, op);
  }
  H h; h.add(st); h.add(rep); for (int k = 0; k < 4; k++) { h.add(77); for (auto e : all_of(m, k)) h.add(MEnt_ID(e)); } h.add(M.kept.size()); for (auto e : M.kept) h.add(MEnt_ID(e) * 4 + MEnt_OrigDim(e)); state(h.h); nontrivial(h.h);
  MESH_Delete(m);
}
int main(int c, char **v) { k2 = subset(host_kuhn(), 3); orient(k2); t4 = subset(host_tri8(), 0xf); Options o; o.property = "P03"; o.run = run; return vf::main(c, v, o); }
