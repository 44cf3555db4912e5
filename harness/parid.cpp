// P47 global renumbering, P48 weaving, P49 the parallel check, P50 lookup by global ID
#include "par.hpp"
#include "MSTK_private.h"
using namespace pm; using namespace vf;
extern "C" { void MESH_Set_Prtn(Mesh_ptr, unsigned int, unsigned int); void MESH_Flag_Has_Ghosts_From_Prtn(Mesh_ptr, unsigned int, MType); int MESH_Get_OverlapAdj_From_GhostAdj(Mesh_ptr, MSTK_Comm); }
static Alpha *A; static std::string fam; static int lim, maxr, minr, maxc, ents;
static MEntity_ptr look(Mesh_ptr m, int d, int g, bool any) { if (any) return MESH_EntityFromGlobalID(m, (MType)d, g); switch (d) { case 0: return MESH_VertexFromGlobalID(m, g); case 1: return MESH_EdgeFromGlobalID(m, g); case 2: return MESH_FaceFromGlobalID(m, g); default: return MESH_RegionFromGlobalID(m, g); } }
static void lookups(Mesh_ptr m, const char *when) { for (int d = 0; d < 4; d++) { std::map<int, void *> at; int mx = 0; for (auto e : all_of(m, d)) { at[MEnt_GlobalID(e)] = e; mx = std::max(mx, MEnt_GlobalID(e)); } for (int g = 0; g <= mx + 2; g++) { auto i = at.find(g); void *want = i == at.end() ? NULL : i->second; for (int a = 0; a < 2; a++) { void *got = look(m, d, g, a); CK(got == want, fmt("lookup by global ID %s", when).c_str(), "kind %d id %d: %s, expected %s", d, g, got ? fmt("entity with %d", MEnt_GlobalID(got)).c_str() : "nothing", want ? "entity" : "nothing"); } } } }
static void run() {
  Spec s = A->spec(maxc); if (!A->mask) return; int n = s.cells.size(); int k = 2 + pick(maxr - 1, "ranks"); if (k > n || k < minr) return; if (n > lim && __builtin_popcount(A->mask) != (int)A->hosts[A->hi].cells.size()) return;
  VI part = pick_part(n, k, k == 2 ? lim : lim - 1); if (!all_used(part, k)) return;
  How hw{n % 2 ? F1 : F4, 0, 0}; int ring = 0, mt = 0, type = 0, var = 0, md = 0, what = 0, kind = 0, at = 0, who = 0;
  if (fam == "weave") { ring = pick(2, "layers"); type = pick(3, "input type"); var = pick(3, "numbering"); hw.rep = pick(2, "rep") ? F4 : F1; md = var % 2; }
  else { ring = pick(3, "layers"); if (fam == "renum") { mt = pick(5, "kind"); var = pick(2, "before"); md = (mt + ring) % 2; } else if (fam == "look") { var = pick(5, "history"); } else { what = pick(7, "inconsistency"); if (what) kind = pick(4, "kind"); if (what == 4 && kind) return; } }
  M M0 = build(s, hw); VI mat(n); for (int i = 0; i < n; i++) mat[i] = 1 + i % 2; classify(M0.m, s.dim, mat); auto pl = places(s); VL L = vlabels(M0.m, pl); Whole w = whole(M0.m, s.dim, L); sim::answer = part;
  if (fam == "weave") { std::map<VI, int> up; for (auto &c : w.elem) for (auto &x : c) if (x[0] == s.dim - 1) if (++up[x] > 2) { MESH_Delete(M0.m); return; } }
  VF_TRACE("%s ranks %d partition %s layers %d rep %d kind %d type %d variant %d timing %d inconsistency %d kind %d rank %d entity %d", s.name.c_str(), k, str(part).c_str(), ring, (int)hw.rep, mt, type, var, md, what, kind, who, at);
  H h; h.add(A->id()); for (int x : part) h.add(x); h.add(ring * 10000 + mt * 1000 + type * 100 + var * 10 + what); h.add(k * 1000 + kind * 100 + who * 10); h.add(at * 4 + hw.rep);
  bool skipped = false;
  auto rep = sim::run(k, mode_of(md), [&](int r) {
    if (fam == "weave") {
      Spec q; q.name = s.name; q.dim = s.dim; VI cells; for (int c = 0; c < n; c++) if (part[c] == r) cells.push_back(c); if (var == 1 || (var == 2 && r % 2)) std::reverse(cells.begin(), cells.end());
      std::map<int, int> m; auto nm = [&](int v) { auto i = m.emplace(v, (int)m.size()); if (i.second) q.xyz.push_back(s.xyz[v]); return i.first->second; };
      if (var == 2) for (int v = (int)s.xyz.size() - 1; v >= 0; v--) for (int c : cells) if (std::count(s.cells[c].v.begin(), s.cells[c].v.end(), v)) nm(v);
      for (int c : cells) { Cell x = s.cells[c]; for (auto &v : x.v) v = nm(v); for (auto &f : x.faces) for (auto &v : f) v = nm(v); q.cells.push_back(x); }
      M my = build(q, hw); VL l = vlabels(my.m, pl); if (type == 1) for (auto v : all_v(my.m)) MV_Set_GlobalID(v, var == 0 ? l[v] + 1 : (int)(s.xyz.size() - l[v]) * 3 + 2);
      if (type == 2) { MESH_Set_Prtn(my.m, r, k); for (int o = 0; o < k; o++) if (var == 1 ? o != r : o < r) { bool sh = false; std::set<int> mine, his; for (int c = 0; c < n; c++) { if (part[c] == r) mine.insert(w.verts[c].begin(), w.verts[c].end()); if (part[c] == o) his.insert(w.verts[c].begin(), w.verts[c].end()); } for (int v : mine) sh |= his.count(v); if (sh) { MESH_Flag_Has_Ghosts_From_Prtn(my.m, o, MVERTEX); MESH_Flag_Has_Ghosts_From_Prtn(my.m, o, MEDGE); if (s.dim == 3) MESH_Flag_Has_Ghosts_From_Prtn(my.m, o, MFACE); } } MESH_Get_OverlapAdj_From_GhostAdj(my.m, MPI_COMM_WORLD); }
      int ok = MSTK_Weave_DistributedMeshes(my.m, s.dim, ring, type, MPI_COMM_WORLD); CK(ok == 1, "MSTK_Weave_DistributedMeshes", "returned %d", ok);
      VL l2 = vlabels(my.m, pl); for (auto &x : l2) CK(x.second >= 0, "vertex at a place where the mesh has none", "rank %d", r); if (type == 1) for (auto v : all_v(my.m)) CK(MV_GlobalID(v) == (var == 0 ? l2[v] + 1 : (int)(s.xyz.size() - l2[v]) * 3 + 2), "given global ID of a vertex changed", "%d", MV_GlobalID(v)); VerifyOpt o; o.pairs = false; verify(my.m, "woven part", o); sim::report(dump(my.m, l2)); return; }
    Mesh_ptr my = distribute(M0.m, s.dim, ring, 0); VL l = vlabels(my, pl);
    if (fam == "renum") {
      MESH_Enable_GlobalIDSearch(my); if (var) for (int d = 0; d < 4; d++) { for (auto e : all_of(my, d)) MEnt_Set_GlobalID(e, 1000 - 3 * MEnt_GlobalID(e)); } if (var) MESH_Build_GhostLists(my, s.dim);
      std::map<void *, int> old; for (int d = 0; d < 4; d++) for (auto e : all_of(my, d)) old[e] = MEnt_GlobalID(e); std::string at0 = attr_list(my);
      int ok = MESH_Renumber_GlobalIDs(my, mt == 4 ? MALLTYPE : (MType)mt, 0, NULL, MPI_COMM_WORLD); CK(ok == 1, "MESH_Renumber_GlobalIDs", "returned %d", ok); CK(attr_list(my) == at0, "attributes after renumbering", "%s", attr_list(my).c_str());
      for (int d = 0; d < 4; d++) if (mt != 4 && mt != d) for (auto e : all_of(my, d)) CK(MEnt_GlobalID(e) == old[e], "global ID of another kind changed", "kind %d", d);
      if (!var || mt == 4) lookups(my, "after renumbering"); MESH_Disable_GlobalIDSearch(my);
      MAttrib_ptr a = MAttrib_New(my, "x", INT, mt == 4 ? (MType)s.dim : (MType)mt); for (auto e : all_of(my, mt == 4 ? s.dim : mt)) MEnt_Set_AttVal(e, a, MEnt_PType(e) == PGHOST ? 7 : 10 + MEnt_GlobalID(e), 0, NULL); MESH_Update1Attribute(my, a, MPI_COMM_WORLD); for (auto e : all_of(my, mt == 4 ? s.dim : mt)) { int iv = 0; MEnt_Get_AttVal(e, a, &iv, NULL, NULL); CK(iv == 10 + MEnt_GlobalID(e), "attribute update after renumbering", "%d", iv); } }
    else if (fam == "look") {
      MESH_Enable_GlobalIDSearch(my); lookups(my, "after distribution"); if (var == 1) { MESH_Enable_GlobalIDSearch(my); lookups(my, "enabled twice"); } if (var == 2) { VP el = all_of(my, s.dim); if (el.size() > 1) { MESH_Disable_GlobalIDSearch(my); MEnt_Delete(el[0], 0); MESH_Enable_GlobalIDSearch(my); lookups(my, "after deletion"); } else skipped = true; } if (var == 3) { MESH_Disable_GlobalIDSearch(my); MVertex_ptr v = MV_New(my); MV_Set_GlobalID(v, 9999 + r); MESH_Enable_GlobalIDSearch(my); lookups(my, "after creation"); MESH_Disable_GlobalIDSearch(my); MV_Delete(v, 0); MESH_Enable_GlobalIDSearch(my); lookups(my, "after creation and deletion"); } if (var == 4) { MESH_Renumber_GlobalIDs(my, MALLTYPE, 0, NULL, MPI_COMM_WORLD); lookups(my, "after renumbering"); } MESH_Disable_GlobalIDSearch(my); }
    else { // one inconsistency on one rank
      std::string all; for (int w2 = 0; w2 < (what ? k : 1); w2++) for (int a2 = 0; a2 < (what ? ents : 1); a2++) { char did = '0'; void *e = NULL; int old = 0; double x[3], y[3];
        if (what && r == w2) { VP c; for (auto q : all_of(my, kind)) if (what == 6 ? MEnt_PType(q) == POVERLAP : MEnt_PType(q) != PINTERIOR) c.push_back(q); if ((int)c.size() > a2) { e = c[(int)c.size() > ents ? a2 * (int)c.size() / ents : a2]; did = '1'; } }
        if (e) switch (what) { case 1: old = MEnt_GlobalID(e); MEnt_Set_GlobalID(e, old + 1000); break; case 2: old = MEnt_MasterParID(e); MEnt_Set_MasterParID(e, MEnt_PType(e) == PGHOST ? (old + 1) % k : (r + 1) % k); break; case 3: old = MEnt_PType(e); MEnt_Set_PType(e, old == PGHOST ? POVERLAP : PGHOST); break; case 4: MV_Coords(e, x); for (int i = 0; i < 3; i++) y[i] = x[i] + (i == a2 % 3 ? .125 : 0); MV_Set_Coords(e, y); break; case 5: old = MEnt_GEntID(e); MEnt_Set_GEntID(e, old + 100); break; case 6: old = MEnt_PType(e); MEnt_Set_PType(e, PINTERIOR); break; }
        int ok = MESH_Parallel_Check(my, MPI_COMM_WORLD); all += did; all += '0' + (char)ok;
        if (e) switch (what) { case 1: MEnt_Set_GlobalID(e, old); break; case 2: MEnt_Set_MasterParID(e, old); break; case 3: case 6: MEnt_Set_PType(e, (PType)old); break; case 4: MV_Set_Coords(e, x); break; case 5: MEnt_Set_GEntID(e, old); break; } }
      sim::report(all); return; }
    sim::report(dump(my, l));
  });
  step();
  if (fam == "chk") { static const char *nm[] = {"none", "global ID", "owner", "ghost mark", "coordinates", "classification", "shared mark"}; bool any = false;
    for (int w2 = 0; w2 < (what ? k : 1); w2++) for (int a2 = 0; a2 < (what ? ents : 1); a2++) { int i = 2 * (what ? w2 * ents + a2 : 0); bool did = false, all = true; for (auto &x : rep) { did |= x[i] == '1'; all &= x[i + 1] == '1'; } if (!did && what && a2) continue; if (!did) CK(all, "consistent mesh rejected", "layers %d", ring); else CK(!all, fmt("accepted with wrong %s", nm[what]).c_str(), "kind %d rank %d entity %d layers %d", kind, w2, a2, ring); any |= did; if (a2 || w2) step(); } if (what && !any) { MESH_Delete(M0.m); return; } count(any ? nm[what] : "consistent"); }
  else { Dist D = parse(rep); if (fam == "weave" && !ring) { for (auto &rk : D) for (auto &e : rk.e) if (e.pt == POVERLAP) { e.pt = PINTERIOR; e.list = 0; } } 
    if (fam == "weave") check_content(D, w, part, ring, false); if (!(fam == "weave" && !ring) && !(fam == "look" && var > 1)) check_identity(D); else { for (auto &rk : D) for (auto &e : rk.e) if (e.pt != PGHOST) { bool sh = false; for (auto &r2 : D) if (&r2 != &rk && r2.find(e.kind, e.v)) sh = true; e.pt = sh ? POVERLAP : PINTERIOR; e.list = sh ? 2 : 0; } if (fam == "weave") check_identity(D); }
    if (fam == "renum") for (int d = 0; d < 4; d++) if (mt == 4 || mt == d) { std::map<int, std::set<int>> by; std::set<int> all; for (int r = 0; r < k; r++) for (auto &e : D[r].e) if (e.kind == d) { all.insert(e.gid); if (e.owner == r) by[r].insert(e.gid); } if (all.empty()) continue; CK(*all.begin() == 1 && *all.rbegin() == (int)all.size(), "global IDs are not 1..N", "kind %d: %zu IDs from %d to %d", d, all.size(), *all.begin(), *all.rbegin()); for (auto &b : by) CK(*b.second.rbegin() - *b.second.begin() + 1 == (int)b.second.size(), "global IDs of a rank are not contiguous", "kind %d rank %d", d, b.first); } }
  state(h.h); nontrivial(h.h); count(s.dim == 3 ? "3D" : "2D"); if (k > 2) count("three ranks"); if (ring == 2) count("two layers"); if (fam == "weave") count(type == 0 ? "by place" : type == 1 ? "by global ID" : "by neighbours"); MESH_Delete(M0.m);
}
int main(int c, char **v) { static Options o; o.property = "P47"; o.run = [] { static bool init = false; if (!init) { init = true; fam = arg("fam", "renum"); ents = atoi(arg("ents", thorough ? "40" : "6").c_str()); minr = atoi(arg("minr", "2").c_str()); lim = atoi(arg("lim", thorough ? "6" : "4").c_str()); maxc = atoi(arg("cells", "99").c_str()); maxr = atoi(arg("ranks", thorough ? "4" : "3").c_str()); } run(); };
  A = new Alpha(std::vector<Spec>{host_quad(2, 2), host_mix2(), host_surf(), host_kuhn(), host_hex(2, 2, 1), host_mix3()}); return vf::main(c, v, o); }
