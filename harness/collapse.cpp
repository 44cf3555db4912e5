// P14: edge collapse against the image of the complex under "vdel becomes vkeep"
#include "mod.hpp"
using namespace mm; using namespace vf;
static Alpha *A; static int two; static std::vector<Spec> small;
struct Ctx { Mesh_ptr m; Names N; std::string log; int n = 0; };
static VI squash(VI c, int a, int b) { c = subst(c, a, b); VI r; for (size_t i = 0; i < c.size(); i++) if (c[i] != c[(i + 1) % c.size()]) r.push_back(c[i]); return r; }
static bool repeats(const VI &c) { std::set<int> s(c.begin(), c.end()); return s.size() != c.size(); }
struct Image { std::vector<Ent> e; std::vector<bool> gone; std::map<std::string, VI> groups; bool ok = true; };
static Image image(const CX &W, int del, int keep, int dim) {
  Image I; I.e = W.e; int n = W.e.size(); I.gone.assign(n, false); auto deg = [&](const VI &c) { return squash(c, del, keep).size() < 3; };
  std::map<VI, std::vector<int>> fk; // faces by vertex set after the collapse
  for (int i = 0; i < n; i++) { Ent &x = I.e[i]; if (x.dim == 0) I.gone[i] = x.cyc[0] == del; else if (x.dim == 1) { x.cyc = subst(x.cyc, del, keep); I.gone[i] = x.cyc[0] == x.cyc[1]; } else if (x.dim == 2) { x.cyc = squash(x.cyc, del, keep); I.gone[i] = x.cyc.size() < 3; if (!I.gone[i] && repeats(x.cyc)) I.ok = false; }
    else { std::vector<VI> fs; std::set<VI> vs; bool twice = false; for (auto &f : x.faces) { VI c = squash(f, del, keep); if (c.size() < 3) continue; fs.push_back(c); twice |= !vs.insert(skey(c)).second; } bool had = x.faces != fs; x.faces = fs; if (twice) { I.gone[i] = true; if (fs.size() != 2) I.ok = false; } else if (had && fs.size() < 4) I.ok = false; } }
  // what coincides must do so because something between them degenerated
  std::map<VI, int> uses_before, uses_after; auto und = [](const VI &c) { return norm_cycle(c, false); };
  for (int i = 0; i < n; i++) if (!I.gone[i] && I.e[i].dim) { std::string k = I.e[i].dim == 3 ? canon(Ent{3, {}, I.e[i].faces, -1, 0, NULL, {}}) : str(skey(I.e[i].cyc)) + fmt("/%d", I.e[i].dim); I.groups[k].push_back(i); }
  for (auto &g : I.groups) { if (g.second.size() > 2) I.ok = false; if (g.second.size() < 2) continue; const Ent &p = W.e[g.second[0]], &q = W.e[g.second[1]]; if (p.dim == dim) { I.ok = false; continue; } bool between = false; if (p.dim == 1) { for (int i = 0; i < n; i++) if (W.e[i].dim == 2 && I.gone[i] && uses(W.e[i].cyc, p.cyc[0]) && uses(W.e[i].cyc, p.cyc[1]) && uses(W.e[i].cyc, q.cyc[0]) && uses(W.e[i].cyc, q.cyc[1])) between = true; if (ekey(p.cyc[0], p.cyc[1]) == ekey(q.cyc[0], q.cyc[1])) between = false; }
    else for (int i = 0; i < n; i++) if (W.e[i].dim == 3 && I.gone[i]) { int c = 0; for (auto &f : W.e[i].faces) { c += und(f) == und(p.cyc); c += und(f) == und(q.cyc); } if (c == 2) between = true; } if (!between) I.ok = false; }
  // every directed cycle at most once, faces used before are used afterwards
  std::set<VI> dir; for (int i = 0; i < n; i++) if (!I.gone[i] && I.e[i].dim == 3) for (auto &f : I.e[i].faces) if (!dir.insert(norm_cycle(f, true)).second) I.ok = false;
  std::set<VI> ub, ua; for (auto &x : W.e) if (x.dim == 3) for (auto &f : x.faces) ub.insert(und(f)); for (auto &f : dir) ua.insert(und(f)); for (int i = 0; i < n; i++) if (W.e[i].dim == 2 && !I.gone[i] && ub.count(und(W.e[i].cyc)) && !ua.count(und(I.e[i].cyc))) I.ok = false;
  return I;
}
static void *at(Ctx &C, const CX &W, int l) { for (auto &x : W.e) if (x.dim == 0 && x.cyc[0] == l) return x.p; return NULL; }
static bool external(void *v) { for (auto e : vec(MV_Edges(v))) if (vec(ME_Faces(e)).size() < 2) return true; for (auto f : vec(MV_Faces(v))) if (vec(MF_Regions(f)).size() == 1) return true; return false; }
static void op_collapse(Ctx &C, int dim) {
  VP E = all_e(C.m); if (E.empty()) return; void *e = E[pick(E.size(), "edge")]; int kc = pick(3, "keep"), tf = pick(2, "topoflag"); void *v0 = ME_Vertex(e, 0), *v1 = ME_Vertex(e, 1), *given = kc == 0 ? NULL : kc == 1 ? v0 : v1; CX W = extract(C.m, C.N); auto B = ptrs(W); int a = C.N.of(v0), b = C.N.of(v1);
  int keep = kc == 1 ? a : kc == 2 ? b : -1; C.log += fmt(" collapse %d-%d keep %d topoflag %d", a, b, keep, tf); VF_TRACE("%s", C.log.c_str()); Ent x0 = *W.find(v0), x1 = *W.find(v1); bool refuse = false;
  if (tf) { if (x0.gd == x1.gd) refuse = x0.gi != x1.gi; else { int low = x0.gd < x1.gd ? a : b; if (keep < 0) keep = low; else refuse = keep != low; } }
  Image Ia = image(W, b, a, dim), Ib = image(W, a, b, dim); if (!(keep == b ? Ib.ok : keep == a ? Ia.ok : Ia.ok && Ib.ok)) { C.n = -1; return; } Image &J = keep == b ? Ib : Ia;
  if (tf && !refuse) for (auto &g : J.groups) if (g.second.size() == 2) { Ent &p = W.e[g.second[0]], &q = W.e[g.second[1]]; if (p.gd == q.gd && p.gi != q.gi) refuse = true; }
  bool ex0 = external(v0), ex1 = external(v1); List_ptr del = NULL, mer = NULL; void *vk = ME_Collapse(e, given, tf, &del, &mer);
  if (refuse) { CK(!vk, "ME_Collapse: collapse the classification forbids was done", "%s", C.log.c_str()); CK(!del && !mer, "ME_Collapse: refused, but reports changes", "%s", C.log.c_str()); same(W, C.m, C.N, B, "ME_Collapse refused", C.log); step(); count("refused"); C.n++; return; }
  CK(vk == v0 || vk == v1, "ME_Collapse: refused, or returned the wrong vertex", "%s", C.log.c_str()); if (keep >= 0) CK(C.N.of(vk) == keep, "ME_Collapse: kept the wrong vertex", "%s", C.log.c_str()); else if (!tf && ex0 != ex1) { count("external kept"); CK(vk == (ex0 ? v0 : v1), "ME_Collapse: a vertex on the outer boundary was collapsed into one that is not", "%s", C.log.c_str()); }
  keep = C.N.of(vk); Image &I = keep == a ? Ia : Ib; int gone = keep == a ? b : a; VP dl = vec(del), ml = vec(mer); std::set<void *> dead(dl.begin(), dl.end()); CK(dead.size() == dl.size(), "ME_Collapse: an entity is reported deleted twice", "%s", C.log.c_str());
  std::map<void *, void *> into; CK(ml.size() % 2 == 0, "ME_Collapse: merged pairs", "%s", C.log.c_str()); for (size_t i = 0; i + 1 < ml.size(); i += 2) { CK(!into.count(ml[i]), "ME_Collapse: an entity is reported merged twice", "%s", C.log.c_str()); into[ml[i]] = ml[i + 1]; }
  CX V; std::set<void *> live; for (int d = 0; d < 4; d++) for (auto x : all_of(C.m, d)) live.insert(x); std::map<void *, void *> winto;
  for (size_t i = 0; i < I.e.size(); i++) if (I.gone[i]) CK(!live.count(I.e[i].p), "ME_Collapse: something that degenerated is still there", "%s: %s", C.log.c_str(), canon(W.e[i]).c_str()); else if (I.e[i].dim == 0) V.e.push_back(I.e[i]);
  for (auto &g : I.groups) { if (g.second.size() == 1) { V.e.push_back(I.e[g.second[0]]); continue; } Ent p = I.e[g.second[0]], q = I.e[g.second[1]]; bool lp = live.count(p.p), lq = live.count(q.p); CK(lp != lq, "ME_Collapse: of two coinciding entities not exactly one is left", "%s: %s", C.log.c_str(), canon(p).c_str()); Ent &s = lp ? p : q, &t = lp ? q : p; if (tf) CK(s.gd <= t.gd, "ME_Collapse: classification on the lower dimensional model entity is lost", "%s: %s %s", C.log.c_str(), canon(s).c_str(), canon(t).c_str()); if (s.dim == 2) s.undirected = false; V.e.push_back(s); winto[t.p] = s.p; count(s.dim == 1 ? "edges merged" : "faces merged"); }
  winto[at(C, W, gone)] = vk; CK(into == winto, "ME_Collapse: merged pairs", "%s: %zu reported, %zu expected", C.log.c_str(), into.size(), winto.size()); std::set<void *> wd; for (auto &x : W.e) if (!live.count(x.p)) wd.insert(x.p); CK(dead == wd, "ME_Collapse: list of deleted entities", "%s: %zu reported, %zu deleted", C.log.c_str(), dead.size(), wd.size());
  for (auto x : dl) CK(MEnt_Dim(x) == MDELETED && MEnt_OrigDim(x) == W.find(x)->dim, "ME_Collapse: deleted entity is not marked deleted", "%s", C.log.c_str()); for (auto x : dl) MEnt_Delete(x, 0); C.N.l.erase(gone == a ? v0 : v1);
  same(V, C.m, C.N, B, "ME_Collapse", C.log); step(); count(dim == 3 ? "3D" : "2D"); C.n++; VerifyOpt vo; vo.pairs = false; verify(C.m, "ME_Collapse", vo);
}
static void run() {
  two = pick(2, "two collapses"); Spec s; if (two && !thorough) s = small[pick(4, "small mesh")]; else { s = A->spec(two ? 3 : 99); if (!A->mask || (!thorough && s.cells.size() > 3 && A->mask + 1 != 1u << A->hosts[A->hi].cells.size())) return; }
  How hw; if (thorough && !two) hw = pick_how(3); else { int k = pick(2, "representation"); hw = How{k ? F4 : F1, two ? 0 : k, k ? 3 : 0}; } Ctx C; M M0 = build(s, hw.rep, hw.how, FLIPS[hw.fl]); C.m = M0.m; for (auto v : M0.v) C.N.of(v);
  int cl = pick(two && !thorough ? 2 : 4, "classification"); if (cl < 3) { classify(C.m, s.dim, cl ? VI{1, 2} : VI{1}); if (cl == 2) { if (s.dim == 2) { MESH_Delete(C.m); return; } int k = 0; for (auto e : all_e(C.m)) if (MEnt_GEntDim(e) == 2 && ++k % 3) { MEnt_Set_GEntDim(e, 1); MEnt_Set_GEntID(e, 1 + k % 2); } } } else for (int d = 0; d < 4; d++) for (auto e : all_of(C.m, d)) { MEnt_Set_GEntDim(e, 4); MEnt_Set_GEntID(e, 0); }
  C.log = s.name + fmt(" rep %d how %d class %d:", hw.rep, hw.how * 10 + hw.fl, cl);
  for (int k = 0; k < 1 + two; k++) { int before = C.n; op_collapse(C, s.dim); if (C.n <= before) { MESH_Delete(C.m); return; } }
  H h; for (auto &x : snapshot(C.m, C.N.l)) h.add(x); h.add(hw.rep); state(h.h); h.add(C.log); nontrivial(h.h); MESH_Delete(C.m);
}
int main(int c, char **v) { Options o; A = new Alpha(); small = {subset(host_tri8(), 7), subset(host_mix2(), 5), subset(host_surf(), 19), subset(host_kuhn(), 3), subset(host_mix3(), 2), subset(host_mix3(), 4)}; for (auto &x : small) orient(x); o.property = "P14"; o.run = run; return vf::main(c, v, o); }
