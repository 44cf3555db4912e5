// P20: renumbering permutes IDs and changes nothing else
#include "alpha.hpp"
extern "C" int Graph_Renumber_GPS(int nnodes, int nstart, int *nadj, int *adj, int *newmap, int *depth, int *maxwidth);
using namespace mm; using namespace vf;
static Alpha *A;
static void meshes() {
  int loose = pick(2, "loose vertices"); Spec s = A->spec(99, !loose); How hw = pick_how(0); if (!s.cells.size()) return; if (loose && s.cells.size() == A->hosts[A->hi].cells.size()) return;
  M M0 = build(s, hw); Mesh_ptr m = M0.m; int gap = pick(6, "IDs");
  int top = s.dim;
  auto del = [&](int d, bool first) { VP e = all_of(m, d); if (e.size() < 2) return false; void *x = first ? e[0] : e.back(); switch (d) { case 0: MV_Delete(x, 0); break; case 2: MF_Delete(x, 0); break; case 3: MR_Delete(x, 0); } return true; };
  if (gap == 1 && !del(top, true)) return; if (gap == 2 && !(del(top, true) && del(top, false))) return;
  if (gap == 3) for (int d = 0; d < 4; d++) { int k = all_of(m, d).size(); for (auto e : all_of(m, d)) { int id = 7 + 3 * k--; switch (d) { case 0: MV_Set_ID(e, id); break; case 1: ME_Set_ID(e, id); break; case 2: MF_Set_ID(e, id); break; case 3: MR_Set_ID(e, id); } } }
  if (gap == 4) { MVertex_ptr v = MV_New(m); double x[3] = {-3, -3, -3}; MV_Set_Coords(v, x); if (!del(top, false)) return; }
  if (gap == 5) { if (s.cells.size() > 2) return; while (all_of(m, top).size()) { void *x = all_of(m, top)[0]; if (top == 2) MF_Delete(x, 0); else MR_Delete(x, 0); } } // no elements left
  int type = pick(2, "type"), kind = pick(5, "kind"); if (kind == 4) kind = MALLTYPE; bool fast = !(A->mask & 2);
  MAttrib_ptr at = MAttrib_New(m, "val", INT, MALLTYPE); for (int d = 0; d < 4; d++) { int k = 0; for (auto e : all_of(m, d)) { MEnt_Set_AttVal(e, at, ++k * 10 + d, 0.0, NULL); MEnt_Set_GEntID(e, k); } }
  MSet_ptr set = MSet_New(m, "set", MALLTYPE); for (int d = 0; d < 4; d++) { int k = 0; for (auto e : all_of(m, d)) if (k++ % 2) MSet_Add(set, e); }
  if (fast) { MESH_Enable_LocalIDSearch(m); for (int d = 0; d < 4; d++) MESH_EntityFromID(m, (MType)d, 1); }
  std::map<void *, int> val; std::set<void *> inset; for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) { double r; void *p; MEnt_Get_AttVal(e, at, &val[e], &r, &p); if (MSet_Contains(set, e)) inset.insert(e); }
  auto before = by_pointer(m); std::string atts = attr_list(m, "vidrcm"); VP order[4]; VI oid[4]; for (int d = 0; d < 4; d++) { order[d] = all_of(m, d); for (auto e : order[d]) oid[d].push_back(MEnt_ID(e)); }
  VF_TRACE("%s rep %d ids %d method %d kind %d", s.name.c_str(), hw.rep, gap, type, kind);
  MESH_Renumber(m, type, (MType)kind); step();
  CK(by_pointer(m) == before, "renumbering changed adjacency, coordinates or classification", "%s", s.name.c_str());
  CK(attr_list(m, "vidrcm") == atts, "renumbering changed the attributes of the mesh", "%s, was %s", attr_list(m).c_str(), atts.c_str());
  for (int d = 0; d < 4; d++) { CK(order[d] == all_of(m, d), "renumbering changed the entities", "kind %d", d);
    int k = 0; for (auto e : order[d]) { int iv = -1; double r; void *p; MEnt_Get_AttVal(e, at, &iv, &r, &p); k++; CK(iv == val[e] && iv % 10 == d, "renumbering changed attribute values", "kind %d entity %d: %d", d, k, iv); CK(!!MSet_Contains(set, e) == !!inset.count(e), "renumbering changed a set", "kind %d entity %d", d, k); }
    VI now; for (auto e : order[d]) now.push_back(MEnt_ID(e));
    bool on = kind == MALLTYPE || kind == d; if (!on) CK(now == oid[d], "renumbering changed IDs of another kind", "kind %d", d);
    else { VI q = skey(now); for (size_t i = 0; i < q.size(); i++) CK(q[i] == (int)i + 1, "new IDs are not 1 to n", "%s kind %d: ID %d at rank %zu of %zu", s.name.c_str(), d, q[i], i + 1, q.size()); if (type == 0) CK(q == now, "sequential numbering does not follow the order", "kind %d", d); }
    for (size_t i = 0; i < now.size(); i++) CK(MESH_EntityFromID(m, (MType)d, now[i]) == order[d][i], "lookup by the new ID", "kind %d ID %d", d, now[i]);
    void *nw = d == 0 ? (void *)MV_New(m) : d == 1 ? (void *)ME_New(m) : d == 2 ? (void *)MF_New(m) : (void *)MR_New(m); CK(std::find(now.begin(), now.end(), MEnt_ID(nw)) == now.end(), "a new entity got a used ID", "kind %d ID %d", d, MEnt_ID(nw)); CK(MESH_EntityFromID(m, (MType)d, MEnt_ID(nw)) == nw, "lookup of a new entity", "kind %d ID %d", d, MEnt_ID(nw));
    if (kind == MALLTYPE || kind == d) CK(MEnt_ID(nw) == (int)now.size() + 1, "numbering does not continue after the highest ID", "kind %d ID %d", d, MEnt_ID(nw));
    switch (d) { case 0: MV_Delete(nw, 0); break; case 1: ME_Delete(nw, 0); break; case 2: MF_Delete(nw, 0); break; case 3: MR_Delete(nw, 0); } }
  count(type ? "RCM" : "sequential"); if (gap) count("with gaps"); if (loose) count("with loose vertices");
  H h; h.add(A->id()); h.add(gap * 100 + type * 10 + kind); h.add(hw.rep * 2 + loose); state(h.h); nontrivial(h.h); MESH_Delete(m);
}
static void graphs() { // every graph on up to 5 (thorough 6) nodes, every start node
  int n = pick(thorough ? 6 : 5, "nodes") + 1; int ne = n * (n - 1) / 2; unsigned g = 0; for (int i = 0; i < ne; i += 5) g |= pick(1 << std::min(5, ne - i), "edges") << i; int start = pick(n, "start");
  std::vector<VI> nb(n); int k = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (g >> k++ & 1) { nb[i].push_back(j); nb[j].push_back(i); }
  VI nadj, adj; for (auto &x : nb) { nadj.push_back(x.size()); adj.insert(adj.end(), x.begin(), x.end()); } VI in1 = nadj, in2 = adj; adj.push_back(0);
  int *map = (int *)malloc(n * sizeof(int)), dep, wid; int *na = (int *)malloc(n * sizeof(int)), *ad = (int *)malloc(std::max<size_t>(1, in2.size()) * sizeof(int)); std::copy(in1.begin(), in1.end(), na); std::copy(in2.begin(), in2.end(), ad);
  Graph_Renumber_GPS(n, start, na, ad, map, &dep, &wid); step();
  std::vector<char> seen(n); for (int i = 0; i < n; i++) { CK(map[i] >= 0 && map[i] < n && !seen[map[i]], "graph numbering is not a permutation", "%d nodes, edges %x, start %d: node %d gets %d", n, g, start, i, map[i]); seen[map[i]] = 1; }
  CK(VI(na, na + n) == in1 && VI(ad, ad + in2.size()) == in2, "graph numbering changed its input", "%d nodes %x", n, g); free(map); free(na); free(ad); count("graphs"); H h; h.add(n); h.add(g); state(h.h); nontrivial(h.h);
}
int main(int c, char **v) { A = new Alpha(3); Options o; o.property = "P20"; o.run = [] { if (pick(2, "part")) graphs(); else meshes(); }; return vf::main(c, v, o); }
