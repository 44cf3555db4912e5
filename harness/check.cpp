// P18: MESH_CheckTopo accepts exactly the consistent meshes: every valid mesh, every single change of a classification
// (judged by an independent statement of the relations), every single broken link or direction
#include "alpha.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
extern "C" {
#include "MSTK_private.h"
}
using namespace mm; using namespace vf;
static Alpha *A; static int maxc;
struct G { int d, i; }; typedef std::map<void *, G> Cl;
struct Cx { VP V, E, F, R; std::map<void *, VP> eF, vE, vF, fE, fR; std::map<void *, std::pair<void *, void *>> ev; };
static Cx complex_of(Mesh_ptr m) { Cx c; c.V = all_v(m); c.E = all_e(m); c.F = all_f(m); c.R = all_r(m); for (auto e : c.E) { c.ev[e] = {ME_Vertex(e, 0), ME_Vertex(e, 1)}; c.vE[c.ev[e].first].push_back(e); c.vE[c.ev[e].second].push_back(e); } for (auto f : c.F) { c.fE[f] = vec(MF_Edges(f, 1, 0)); for (auto e : c.fE[f]) c.eF[e].push_back(f); for (auto v : fverts(f)) c.vF[v].push_back(f); } for (auto r : c.R) for (auto f : vec(MR_Faces(r))) c.fR[f].push_back(r); return c; }
// faces around a vertex that are on model faces, linked through edges on model faces: the number of rings
static int rings(const Cx &c, const Cl &g, void *v) { std::map<void *, void *> up; for (auto f : c.vF.count(v) ? c.vF.at(v) : VP()) if (g.at(f).d == 2) up[f] = f; std::function<void *(void *)> root = [&](void *x) { return up[x] == x ? x : root(up[x]); }; for (auto e : c.vE.at(v)) { VP q; if (c.eF.count(e)) for (auto f : c.eF.at(e)) if (up.count(f)) q.push_back(f); for (size_t i = 1; i < q.size(); i++) up[root(q[i])] = root(q[0]); } std::set<void *> s; for (auto &x : up) s.insert(root(x.first)); return s.size(); }
// 1 consistent, 0 inconsistent, -1 not said (several sheets meeting in one vertex)
static int judge(const Cx &c, const Cl &g, std::string &why) {
  int r = 1;
  for (auto e : c.E) { G a = g.at(e); for (auto v : {c.ev.at(e).first, c.ev.at(e).second}) { G b = g.at(v); if (a.d < b.d || (a.d == b.d && a.i != b.i)) { why = "edge and its vertex"; return 0; } }
    VP up = c.eF.count(e) ? c.eF.at(e) : VP(); for (auto f : up) { G b = g.at(f); if (b.d < a.d || (b.d == a.d && b.i != a.i)) { why = "face and its edge"; return 0; } }
    if (a.d == 2) { int n = 0; for (auto f : up) n += g.at(f).d == 2; if (n != 2) { why = "edge on a model face without two faces on it"; return 0; } } }
  for (auto f : c.F) if (g.at(f).d == 3 && (!c.fR.count(f) || c.fR.at(f).size() != 2)) { why = "interior face without two regions"; return 0; }
  for (auto v : c.V) if (g.at(v).d == 2 && c.vE.count(v)) { int n = rings(c, g, v); if (n == 0) { why = "vertex on a model face without faces on it"; return 0; } if (n > 1) r = -1; }
  return r;
}
// a consistent classification: elements by material; sides between materials or at the boundary below; edges and vertices by what meets in them
static void proper(Mesh_ptr m, int dim, const VI &mat, int hard) {
  Cx c = complex_of(m); Cl g; VP el = all_of(m, dim), sd = all_of(m, dim - 1); for (size_t i = 0; i < el.size(); i++) g[el[i]] = {dim, mat[i % mat.size()]};
  auto ups = [&](void *s) { std::map<void *, VP> &u = dim == 3 ? c.fR : c.eF; return u.count(s) ? u[s] : VP(); };
  for (auto s : sd) { VP u = ups(s); std::set<int> mm; for (auto x : u) mm.insert(g[x].i); if (u.size() == 2 && mm.size() == 1) g[s] = {dim, *mm.begin()}; else { int id = u.size() > 2 ? 900 : 10 * *mm.begin() + (mm.size() > 1 ? *mm.rbegin() : 0); g[s] = {dim - 1, id}; } }
  if (dim == 3) for (auto e : c.E) { std::set<int> ids; int n = 0, in = 0; for (auto f : c.eF[e]) { if (g[f].d == 2) { n++; ids.insert(g[f].i); } else in = g[f].i; } if (!n) g[e] = {3, in}; else if (n == 2 && ids.size() == 1) g[e] = {2, *ids.begin()}; else { int id = n; for (int x : ids) id = id * 131 + x; g[e] = {1, id}; } }
  for (auto v : c.V) { if (!c.vE.count(v)) { g[v] = {0, 1}; continue; } int n = 0; std::map<int, int> ids; std::set<int> fi; int in = 0; for (auto e : c.vE[v]) { if (g[e].d == 1) { n++; ids[g[e].i]++; } if (g[e].d == 3) in = g[e].i; } for (auto f : c.vF[v]) if (g[f].d == 2) fi.insert(g[f].i);
    static int hardid; if (n) { if (n == 2 && ids.size() == 1) g[v] = {1, ids.begin()->first}; else g[v] = {0, 1 + hardid++}; } else if (fi.size()) { if (fi.size() == 1 && rings(c, g, v) == 1) g[v] = {2, *fi.begin()}; else g[v] = {0, 1 + hardid++}; } else g[v] = {3, in};
    if (hard && v == c.V[c.V.size() / 2]) g[v] = {0, 7}; }
  for (auto &x : g) { MEnt_Set_GEntDim(x.first, x.second.d); MEnt_Set_GEntID(x.first, x.second.i); }
}
static int answer(Mesh_ptr m, const char *) { int r = MESH_CheckTopo(m); CK(r == 0 || r == 1, "answer", "%d", r); step(); return r; }
static void run() {
  Spec s = A->spec(99); if (!A->mask) return; if (__builtin_popcount(A->mask) > maxc && __builtin_popcount(A->mask) != (int)A->hosts[A->hi].cells.size()) return; int n = s.cells.size(); if (!thorough && n > 2 && (A->mask % 3)) return; How hw = pick_how(n <= 2 || thorough ? 2 : 1); VI mat = n <= 2 ? pick_materials(n) : pick(2, "materials") ? VI{1, 2} : VI{1}; int hard = pick(2, "hard vertex"), kind = pick(4, "changed entity");
  M b = build(s, hw); Mesh_ptr m = b.m; proper(m, s.dim, mat, hard); Cx c = complex_of(m); Cl g; for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) g[e] = {MEnt_GEntDim(e), MEnt_GEntID(e)};
  VF_TRACE("%s rep %d how %d/%d mat %s hard %d", s.name.c_str(), hw.rep, hw.how, hw.fl, str(mat).c_str(), hard);
  std::string why; int j = judge(c, g, why); CK(j != 0, "the harness's own classification is not consistent", "%s", why.c_str()); int got = MESH_CheckTopo(m); step(); if (j > 0) CK(got == 1, "valid mesh rejected", "%s", s.name.c_str());
  if (!got) { MESH_Delete(m); return; } VP ents = all_of(m, kind); if (ents.empty()) { MESH_Delete(m); return; } int who = pick(std::min((int)ents.size(), 250), "entity"); void *x = ents[who];
  VF_TRACE("kind %d entity %d (on %d/%d)", kind, who, g[x].d, g[x].i);
  if (kind < 3) for (int d = 0; d < 5; d++) for (int di = 0; di < 3; di++) { // every classification it could have: the same ID, another, or one used elsewhere
      int other = g[x].i + 977; if (di == 2) for (auto &y : g) if (y.second.d == d && y.second.i != g[x].i) other = y.second.i; if (d == g[x].d && di == 0) continue; G old = g[x]; if (d == 4 && di) continue;
      g[x] = {d, di ? other : old.i}; MEnt_Set_GEntDim(x, d); MEnt_Set_GEntID(x, g[x].i); why = ""; int want = d == 4 ? 1 : judge(c, g, why); int now = answer(m, "classification"); if (d < 4 && want >= 0) { CK(now == want, want ? "consistent classification rejected" : fmt("inconsistent classification accepted: %s", why.c_str()).c_str(), "entity of kind %d from %d/%d to %d/%d", kind, old.d, old.i, d, g[x].i); count(want ? "changed and consistent" : why.c_str()); }
      g[x] = old; MEnt_Set_GEntDim(x, old.d); MEnt_Set_GEntID(x, old.i); }
  auto bad = [&](const char *w, const std::function<void()> &brk, const std::function<void()> &fix) { brk(); int now = answer(m, w); CK(now == 0, fmt("accepted: %s", w).c_str(), "%s kind %d entity %d", s.name.c_str(), kind, who); fix(); count(w); };
  if (kind == 1) { void *v0 = ME_Vertex(x, 0), *v1 = ME_Vertex(x, 1); if (hw.rep == F1) for (void *v : {v0, v1}) bad("vertex does not know its edge", [&] { MV_Rem_Edge(v, x); }, [&] { MV_Add_Edge(v, x); });
    for (auto v : c.V) if (v != v0 && v != v1) { if (hw.rep == F1) bad("vertex lists a foreign edge", [&] { MV_Add_Edge(v, x); }, [&] { MV_Rem_Edge(v, x); }); break; }
    for (auto f : c.eF.count(x) ? c.eF[x] : VP()) if (hw.rep == F1) bad("edge does not know its face", [&] { ME_Rem_Face(x, f); }, [&] { ME_Add_Face(x, f); }); }
  if (kind == 2 && s.dim == 3) { for (auto e : c.fE[x]) bad("face uses an edge in the wrong direction", [&] { MF_Rev_EdgeDir(x, e); }, [&] { MF_Rev_EdgeDir(x, e); });
    for (auto r : c.fR[x]) { int sd = MF_Region(x, 0) == r ? 0 : 1; if (hw.rep == F1) bad("face does not know its region", [&] { MF_Rem_Region(x, r); }, [&] { MF_Add_Region(x, r, sd); }); } }
  if (kind == 3) { VP fs = vec(MR_Faces(x)); void *f = fs[pick(fs.size(), "face")]; int old = MR_FaceDir(x, f); bad("region uses a face in the wrong direction", [&] { MR_Set_FaceDir(x, f, !old); }, [&] {}); } else {
  got = answer(m, "restored"); CK(got == 1, "valid mesh rejected after changes were taken back", "%s kind %d", s.name.c_str(), kind); } count(s.dim == 3 ? "3D" : "2D");
  MESH_Delete(m); H h; h.add(A->id()); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); for (int q : mat) h.add(q); h.add(hard * 4 + kind); h.add(who); state(h.h); nontrivial(h.h);
}
int main(int c, char **v) { A = new Alpha(); { Spec t{"star", 3, {{0, 0, 0}, {4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {1, 1, 1}}, {}}; int f[4][3] = {{0, 1, 2}, {0, 1, 3}, {1, 2, 3}, {0, 2, 3}}; for (auto &q : f) t.cells.push_back(cell(C_TET, {q[0], q[1], q[2], 4})); orient(t); A->hosts.push_back(t); } Options o; o.property = "P18"; o.run = [] { static bool init = false; if (!init) { init = true; maxc = atoi(arg("cells", thorough ? "6" : "3").c_str()); } run(); }; return vf::main(c, v, o); }
