// Distributed meshes: running an operation on every rank, collecting what each rank has, and judging it globally.
#pragma once
#include "alpha.hpp"
#include "sim.hpp"
#include <sstream>
namespace pm {
using namespace mm; using vf::pick; using vf::count;
// one entity as a rank sees it; what it is is told by the places of its vertices (all places differ)
struct En { int kind, gid, owner, pt, bdry, gdim, gent, list; VI v; std::string x; };
struct Rk { std::vector<En> e; std::string extra; std::map<std::pair<int, VI>, int> at; const En *find(int k, const VI &v) const { auto i = at.find({k, v}); return i == at.end() ? NULL : &e[i->second]; } };
typedef std::vector<Rk> Dist;
inline std::map<P3, int> places(const Spec &s) { std::map<P3, int> m; for (size_t i = 0; i < s.xyz.size(); i++) m[s.xyz[i]] = i; return m; }
// label of a vertex: from the attribute-free coordinates, or as given
typedef std::map<void *, int> VL;
inline VL vlabels(Mesh_ptr m, const std::map<P3, int> &pl) { VL r; for (auto v : all_v(m)) { auto i = pl.find(coords(v)); r[v] = i == pl.end() ? -1 : i->second; } return r; }
inline VI parts_of(void *e, const VL &L) { // by vertices: edges and regions sorted, faces as a cycle up to direction
  auto l = [&](void *v) { auto i = L.find(v); return i == L.end() ? -2 : i->second; };
  switch (MEnt_Dim(e)) { case MVERTEX: return {l(e)}; case MEDGE: return skey({l(ME_Vertex(e, 0)), l(ME_Vertex(e, 1))}); case MFACE: { VI r; for (auto v : fverts(e)) r.push_back(l(v)); return norm_cycle(r, false); } default: { VI r; for (auto v : vec(MR_Vertices(e))) r.push_back(l(v)); return skey(r); } }
}
inline std::string dump(Mesh_ptr m, const VL &L, const std::function<std::string(void *, int)> &extra = nullptr) {
  std::map<void *, int> lists; int i; void *p;
#define LL(fn, n, get, bit) { i = 0; int k = 0; while ((p = fn(m, &i))) { CK(!(lists[p] & bit), "entity twice in a ghost or overlap list", #fn); lists[p] |= bit; CK(get(m, k) == p, #get, "%d", k); k++; } CK(n(m) == k, #n, "%d counted, %d iterated", n(m), k); }
  LL(MESH_Next_GhostVertex, MESH_Num_GhostVertices, MESH_GhostVertex, 1) LL(MESH_Next_GhostEdge, MESH_Num_GhostEdges, MESH_GhostEdge, 1) LL(MESH_Next_GhostFace, MESH_Num_GhostFaces, MESH_GhostFace, 1) LL(MESH_Next_GhostRegion, MESH_Num_GhostRegions, MESH_GhostRegion, 1)
  LL(MESH_Next_OverlapVertex, MESH_Num_OverlapVertices, MESH_OverlapVertex, 2) LL(MESH_Next_OverlapEdge, MESH_Num_OverlapEdges, MESH_OverlapEdge, 2) LL(MESH_Next_OverlapFace, MESH_Num_OverlapFaces, MESH_OverlapFace, 2) LL(MESH_Next_OverlapRegion, MESH_Num_OverlapRegions, MESH_OverlapRegion, 2)
#undef LL
  std::string s; for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) { VI v = parts_of(e, L); s += fmt("%d %d %d %d %d %d %d %d %zu", d, MEnt_GlobalID(e), MEnt_MasterParID(e), (int)MEnt_PType(e), MEnt_OnParBoundary(e), MEnt_GEntDim(e), MEnt_GEntID(e), lists.count(e) ? lists[e] : 0, v.size()); for (int x : v) s += fmt(" %d", x); lists.erase(e); s += " |" + (extra ? extra(e, d) : std::string()) + "\n"; }
  for (auto &x : lists) if (x.second) fail("ghost or overlap list names an entity that is not in the mesh", "%d", x.second);
  return s;
}
inline Dist parse(const std::vector<std::string> &reps) { // "E ..." lines; anything after a line "X" is extra text
  Dist D; for (auto &r : reps) { Rk k; std::istringstream in(r); std::string l; bool ex = false; while (std::getline(in, l)) { if (l == "X") { ex = true; continue; } if (ex) { k.extra += l + "\n"; continue; } std::istringstream a(l); En e; size_t n; a >> e.kind >> e.gid >> e.owner >> e.pt >> e.bdry >> e.gdim >> e.gent >> e.list >> n; e.v.resize(n); for (auto &x : e.v) a >> x; size_t b = l.find('|'); e.x = b == std::string::npos ? "" : l.substr(b + 1); if (!k.at.emplace(std::make_pair(e.kind, e.v), (int)k.e.size()).second) fail("two entities at one place on a rank", "kind %d %s", e.kind, str(e.v).c_str()); k.e.push_back(e); } D.push_back(k); }
  return D;
}
// what the mesh is, independent of the library's queries upwards
struct Whole {
  int dim; std::vector<std::set<VI>> elem; // per element: closure as kind-tagged parts {kind, v...}
  std::vector<VI> key; std::vector<VI> verts; std::map<VI, std::pair<int, int>> cls; // {kind,v...} -> classification
};
inline VI tag(int k, const VI &v) { VI r = {k}; r.insert(r.end(), v.begin(), v.end()); return r; }
inline Whole whole(Mesh_ptr m, int dim, const VL &L) {
  Whole w; w.dim = dim; for (auto c : all_of(m, dim)) { std::set<VI> cl; VP fs = dim == 3 ? vec(MR_Faces(c)) : VP{c}; if (dim == 3) cl.insert(tag(3, parts_of(c, L))); std::set<int> vs;
    for (auto f : fs) { cl.insert(tag(2, parts_of(f, L))); for (auto e : vec(MF_Edges(f, 1, 0))) { cl.insert(tag(1, parts_of(e, L))); for (int k = 0; k < 2; k++) { cl.insert(tag(0, parts_of(ME_Vertex(e, k), L))); vs.insert(L.at(ME_Vertex(e, k))); } } }
    w.elem.push_back(cl); w.key.push_back(parts_of(c, L)); w.verts.push_back(VI(vs.begin(), vs.end())); }
  for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) w.cls[tag(d, parts_of(e, L))] = {MEnt_GEntDim(e), MEnt_GEntID(e)};
  return w;
}
// elements within k layers of the elements of rank r, by shared vertices
inline std::set<int> layers(const Whole &w, const VI &part, int r, int k) {
  std::set<int> in; for (size_t c = 0; c < part.size(); c++) if (part[c] == r) in.insert(c);
  while (k--) { std::set<int> vs; for (int c : in) vs.insert(w.verts[c].begin(), w.verts[c].end()); for (size_t c = 0; c < part.size(); c++) for (int v : w.verts[c]) if (vs.count(v)) in.insert(c); }
  return in;
}
struct Check { bool content = true, owners = true, cls = true; bool elem_owner_is_part = true; };
// P40: content and ownership; P41: identity and ghost information
inline void check_content(const Dist &D, const Whole &w, const VI &part, int ring, bool cls = true) {
  int n = D.size(); std::map<VI, std::set<int>> users; for (size_t c = 0; c < part.size(); c++) for (auto &x : w.elem[c]) users[x].insert(part[c]);
  std::map<VI, std::set<int>> owned;
  for (int r = 0; r < n; r++) { std::set<VI> want; for (int c : layers(w, part, r, ring)) want.insert(w.elem[c].begin(), w.elem[c].end()); std::set<VI> got; for (auto &e : D[r].e) got.insert(tag(e.kind, e.v));
    for (auto &x : want) CK(got.count(x), "entity missing on a rank", "rank %d of %d lacks kind %d %s", r, n, x[0], str(x).c_str()); for (auto &x : got) CK(want.count(x), "entity on a rank that has no use for it", "rank %d has kind %d %s", r, x[0], str(x).c_str());
    for (auto &e : D[r].e) { VI t = tag(e.kind, e.v); if (e.pt != PGHOST) owned[t].insert(r); if (cls) { auto &c = w.cls.at(t); CK(e.gdim == c.first && e.gent == c.second, "classification on a rank", "rank %d kind %d %s: %d/%d, original %d/%d", r, e.kind, str(e.v).c_str(), e.gdim, e.gent, c.first, c.second); } } }
  for (auto &u : users) { auto &o = owned[u.first]; CK(o.size() == 1, o.size() ? "entity owned by several ranks" : "entity owned by no rank", "kind %d %s: %zu owners", u.first[0], str(u.first).c_str(), o.size()); CK(u.second.count(*o.begin()), "entity owned by a rank with no element using it", "kind %d %s: rank %d", u.first[0], str(u.first).c_str(), *o.begin()); }
  for (size_t c = 0; c < part.size(); c++) { VI t = tag(w.dim, w.key[c]); CK(owned[t].count(part[c]), "element not owned by the rank it was assigned to", "element %zu", c); }
}
inline void check_identity(const Dist &D) {
  int n = D.size(); std::map<VI, int> gid; std::map<std::pair<int, int>, VI> back; std::map<VI, std::set<int>> has; std::map<VI, int> own;
  for (int r = 0; r < n; r++) for (auto &e : D[r].e) { VI t = tag(e.kind, e.v); has[t].insert(r);
      CK(e.gid > 0, "global ID not positive", "rank %d kind %d %s: %d", r, e.kind, str(e.v).c_str(), e.gid); auto g = gid.emplace(t, e.gid); CK(g.first->second == e.gid, "copies of an entity with different global IDs", "kind %d %s: %d and %d", e.kind, str(e.v).c_str(), g.first->second, e.gid); auto b = back.emplace(std::make_pair(e.kind, e.gid), t); CK(b.first->second == t, "different entities with the same global ID", "kind %d id %d: %s and %s", e.kind, e.gid, str(b.first->second).c_str(), str(t).c_str());
      auto o = own.emplace(t, e.owner); CK(o.first->second == e.owner, "copies of an entity name different owners", "kind %d %s: %d and %d", e.kind, str(e.v).c_str(), o.first->second, e.owner); CK((e.pt == PGHOST) == (e.owner != r), "ghost flag and owner disagree", "rank %d kind %d %s: type %d owner %d", r, e.kind, str(e.v).c_str(), e.pt, e.owner);
      CK((e.list & 1) == (e.pt == PGHOST) && !!(e.list & 2) == (e.pt == POVERLAP), "ghost and overlap lists", "rank %d kind %d %s: type %d lists %d", r, e.kind, str(e.v).c_str(), e.pt, e.list); }
  for (auto &h : has) { int o = own[h.first]; CK(o >= 0 && o < n && h.second.count(o), "owner has no copy", "kind %d %s: owner %d", h.first[0], str(h.first).c_str(), o); const En *e = D[o].find(h.first[0], VI(h.first.begin() + 1, h.first.end())); CK((e->pt == POVERLAP) == (h.second.size() > 1), h.second.size() > 1 ? "owner does not mark a shared entity" : "owner marks an entity as shared that has no copies", "rank %d kind %d %s: type %d", o, h.first[0], str(h.first).c_str(), e->pt); }
}
// every partition of n elements onto k ranks, up to lim elements; beyond, blocks, stripes and one-against-rest patterns
inline VI pick_part(int n, int k, int lim) {
  VI p(n); if (n <= lim) { for (auto &x : p) x = pick(k, "rank of element"); return p; }
  int t = pick(4 + n, "partition"); for (int i = 0; i < n; i++) p[i] = t == 0 ? i * k / n : t == 1 ? i % k : t == 2 ? (n - 1 - i) * k / n : t == 3 ? (i / 2) % k : (i == t - 4 ? k - 1 : i * (k - 1 > 0 ? k - 1 : 1) / n % (k > 1 ? k - 1 : 1)); return p;
}
inline bool all_used(const VI &p, int k) { std::set<int> s(p.begin(), p.end()); return (int)s.size() == k; }
inline Mesh_ptr distribute(Mesh_ptr parent, int dim, int ring, int attr, int method = 0, int del = 0, Mesh_ptr into = NULL) { Mesh_ptr my = into; int d = sim::rank() == 0 ? dim : 0; int ok = MSTK_Mesh_Distribute(sim::rank() == 0 ? parent : NULL, &my, &d, ring, attr, method, del, MPI_COMM_WORLD); CK(ok == 1 && my, "MSTK_Mesh_Distribute", "returned %d", ok); CK(d == dim, "dimension handed back", "%d", d); return my; }
inline sim::Mode mode_of(int k) { sim::Mode m; if (k == 1) { m.sync = m.late = m.loose = true; m.order = 1; } else if (k == 2) { m.sync = true; } else if (k == 3) { m.late = true; m.order = 1; } return m; }
}
