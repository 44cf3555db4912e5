// P15: joining faces and regions, merging vertices, edges and faces (zipping separate elements together)
#include "mod.hpp"
using namespace mm; using namespace vf;
static Alpha *A; static std::string fam;
struct Ctx { Mesh_ptr m; Names N; std::string log; };
static void done(Ctx &C, const CX &W, const std::set<void *> &B, const char *op) { same(W, C.m, C.N, B, op, C.log); step(); count(op); VerifyOpt vo; vo.pairs = false; if (fam == "merge") { std::set<EK> k; for (auto &x : W.e) if (x.dim == 1 && !k.insert(ekey(x.cyc[0], x.cyc[1])).second) return; } verify(C.m, op, vo); } // coincident edges that are still to be merged show in all queries
// a list of directed cycles of a region without those of one face; returns whether the face was used forward
static int drop(std::vector<VI> &fs, const VI &cyc) { VI a = norm_cycle(cyc, true), r(cyc.rbegin(), cyc.rend()), b = norm_cycle(r, true); for (size_t i = 0; i < fs.size(); i++) { VI k = norm_cycle(fs[i], true); if (k == a || k == b) { fs.erase(fs.begin() + i); return k == a; } } return -1; }
static VI rot_from(const VI &c, int v) { VI r = c; std::rotate(r.begin(), std::find(r.begin(), r.end(), v), r.end()); return r; }
static void join_faces(Ctx &C, void *f0, void *f1, void *e) {
  VP q0 = vec(MF_Edges(f0, 1, 0)), q1 = vec(MF_Edges(f1, 1, 0)); bool has = std::count(q0.begin(), q0.end(), e) && std::count(q1.begin(), q1.end(), e); int shared = 0; for (auto x : q0) shared += std::count(q1.begin(), q1.end(), x);
  CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x0 = *W.find(f0), x1 = *W.find(f1), xe = *W.find(e); int sv = 0; for (int v : x0.cyc) sv += uses(x1.cyc, v); VP r0 = vec(MF_Regions(f0)), r1 = vec(MF_Regions(f1)); std::sort(r0.begin(), r0.end()); std::sort(r1.begin(), r1.end());
  bool ok = has && x0.gd == x1.gd && x0.gi == x1.gi && r0 == r1 && vec(ME_Faces(e)).size() == 2; C.log = str(x0.cyc) + " " + str(x1.cyc) + " " + str(xe.cyc); if (ok && (shared != 1 || sv != 2)) return; // shares more than one edge: not claimed
  void *f = MFs_Join(f0, f1, e); if (!ok) { CK(!f, "MFs_Join: join that is not possible was accepted", "%s", C.log.c_str()); done(C, W, B, "MFs_Join refused"); return; }
  CK(f && !B.count(f) && MEnt_Dim(f) == MFACE, "MFs_Join: refused, or returned the wrong face", "%s", C.log.c_str()); int a = xe.cyc[0], b = xe.cyc[1]; VI c0 = rot_from(x0.cyc, a); if (c0[1] == b) std::swap(a, b); c0 = rot_from(x0.cyc, a); // f0 goes b -> a along e: from a it runs to b
  VI c1 = rot_from(x1.cyc, b); if (c1[1] == a) { std::reverse(c1.begin(), c1.end()); c1 = rot_from(c1, b); } // from b it runs to a
  VI cyc = c0; for (size_t i = 1; i + 1 < c1.size(); i++) cyc.push_back(c1[i]); W.rem(f0); W.rem(f1); W.rem(e); W.add_face(cyc, x0.gd, x0.gi); for (auto r : r0) { Ent *y = W.find(r); int fw = drop(y->faces, x0.cyc); drop(y->faces, x1.cyc); VI c = cyc; if (!fw) std::reverse(c.begin(), c.end()); y->faces.push_back(c); }
  count(MF_Num_Vertices(f) > 4 ? "joined to a polygon" : "joined to a quad"); done(C, W, B, r0.empty() ? "MFs_Join" : "MFs_Join with regions");
}
static void join_regions(Ctx &C, void *r0, void *r1, void *f, bool given) {
  CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x0 = *W.find(r0), x1 = *W.find(r1); VP q0 = vec(MR_Faces(r0)), q1 = vec(MR_Faces(r1)); int shared = 0; void *common = NULL; for (auto x : q0) if (std::count(q1.begin(), q1.end(), x)) shared++, common = x; bool has = given ? std::count(q0.begin(), q0.end(), f) && std::count(q1.begin(), q1.end(), f) : shared > 0; if (!given) f = common;
  bool ok = has && x0.gi == x1.gi; C.log = canon(x0) + " " + canon(x1) + (given ? " given" : ""); if (ok && shared != 1) return;
  void *r = MRs_Join(r0, r1, given ? f : NULL); if (!ok) { CK(!r, "MRs_Join: join that is not possible was accepted", "%s", C.log.c_str()); done(C, W, B, "MRs_Join refused"); return; }
  CK(r == r0, "MRs_Join: refused, or returned the wrong region", "%s", C.log.c_str()); Ent fx = *W.find(f); W.rem(f); W.rem(r1); drop(x1.faces, fx.cyc); Ent *y = W.find(r0); drop(y->faces, fx.cyc); for (auto &c : x1.faces) y->faces.push_back(c); done(C, W, B, "MRs_Join");
}
static void run_join() {
  int big = thorough ? 5 : 3; Spec s = A->spec(big); if (!A->mask || (!thorough && s.dim == 3 && s.cells.size() > 2)) return; How hw = pick_how(thorough ? 3 : 1); Ctx C; M M0 = build(s, hw.rep, hw.how, FLIPS[hw.fl + (thorough ? 0 : 3)]); C.m = M0.m; for (auto v : M0.v) C.N.of(v); classify(C.m, s.dim, thorough ? pick_materials(s.cells.size(), 3) : pick(2, "materials") ? VI{1, 2} : VI{1});
  if (s.dim == 3 && pick(2, "split a face first")) { // faces that lie between the same two regions
    VP F = all_f(C.m), G; for (auto f : F) if (MF_Num_Vertices(f) > 3) G.push_back(f); if (G.empty()) { MESH_Delete(C.m); return; } void *f = G[pick(G.size(), "face")]; VP q = fverts(f); int d = pick(2, "diagonal"); MF_Split_with_Edge(f, q[d], q[d + 2]); VP E; for (auto e : all_e(C.m)) { bool a = ME_Vertex(e, 0) == q[d] || ME_Vertex(e, 1) == q[d], b = ME_Vertex(e, 0) == q[d + 2] || ME_Vertex(e, 1) == q[d + 2]; if (a && b) E.push_back(e); } VP fs = vec(ME_Faces(E.at(0))); int o = pick(2, "order"); join_faces(C, fs[o], fs[!o], E[0]); }
  else if (s.dim == 3 && pick(2, "regions")) { VP R = all_r(C.m); int n = R.size(), a = pick(n, "first"), b = pick(n, "second"); if (a == b) { MESH_Delete(C.m); return; } VP q = vec(MR_Faces(R[a])), F; for (auto f : q) { VP u = vec(MF_Regions(f)); if (std::count(u.begin(), u.end(), R[b])) F.push_back(f); } int k = pick(F.size() + 2, "face"); join_regions(C, R[a], R[b], k < (int)F.size() ? F[k] : k == (int)F.size() ? q[0] : NULL, k <= (int)F.size()); }
  else { VP E = all_e(C.m); int i = pick(E.size(), "edge"); VP F = vec(ME_Faces(E[i])); if (F.size() < 2) { MESH_Delete(C.m); return; } int a = pick(F.size(), "first"), b = pick(F.size(), "second"); if (a == b) { MESH_Delete(C.m); return; } int w = pick(3, "edge, another one of the first, of the second"); void *e = E[i]; if (w) { VP q = vec(MF_Edges(F[w == 1 ? a : b], 1, 0)); size_t k = std::find(q.begin(), q.end(), e) - q.begin(); e = q[(k + 1) % q.size()]; } join_faces(C, F[a], F[b], e); }
  H h; for (auto &x : snapshot(C.m, C.N.l)) h.add(x); h.add(hw.rep); state(h.h); h.add(C.log); nontrivial(h.h); MESH_Delete(C.m);
}
static MSet_ptr mkset(Mesh_ptr m, const char *n, MType t, VP v) { MSet_ptr s = MSet_New(m, n, t); for (auto x : v) MSet_Add(s, x); return s; }
static VP members(MSet_ptr s) { VP r; int i = 0; void *x; while ((x = MSet_Next_Entry(s, &i))) r.push_back(x); std::sort(r.begin(), r.end()); return r; }
// merge, with one set of each possible content; then check the sets
template <class F> static void *merged(Ctx &C, void *a, void *b, MType t, bool ok, F f) {
  VP none; MSet_ptr s[4] = {mkset(C.m, "a", t, {a}), mkset(C.m, "b", t, {b}), mkset(C.m, "ba", t, {b, a}), mkset(C.m, "none", t, none)}; void *r = f(); VP A1 = {a}, B1 = {b}, AB = {a, b}; std::sort(AB.begin(), AB.end()); CK((r != NULL) == ok, ok ? "merge refused" : "merge that is not possible was accepted", "%s", C.log.c_str()); if (ok) CK(r == a, "merge: wrong entity returned", "%s", C.log.c_str());
  CK(members(s[0]) == A1 && members(s[1]) == (ok ? A1 : B1) && members(s[2]) == (ok ? A1 : AB) && members(s[3]).empty(), "merge: sets do not contain the kept entity in place of the merged one", "%s", C.log.c_str()); for (auto x : s) MSet_Delete(x); return r;
}
static void cls(void *e, int d, int i) { MEnt_Set_GEntDim(e, d); MEnt_Set_GEntID(e, i); }
static void run_merge() {
  // the elements with their own vertices, to be zipped together where the host's elements touch
  Spec s = A->spec(thorough ? 3 : 2); if (!A->mask) return; int nc = s.cells.size(); if (nc < 2) return; bool shared = false; Spec z = s; z.xyz.clear(); VI orig; VI owner; for (int c = 0; c < nc; c++) { std::map<int, int> mp; auto mv = [&](int v) { auto i = mp.find(v); if (i != mp.end()) return i->second; z.xyz.push_back(s.xyz[v]); orig.push_back(v); owner.push_back(c); return mp[v] = (int)z.xyz.size() - 1; }; Cell &k = z.cells[c]; for (auto &v : k.v) v = mv(v); for (auto &f : k.faces) for (auto &v : f) v = mv(v); }
  std::map<int, VI> same_v; for (size_t i = 0; i < orig.size(); i++) same_v[orig[i]].push_back(i); int ns = 0; for (auto &x : same_v) ns += x.second.size() > 1; if (ns < 2) return; (void)shared;
  How hw = pick_how(thorough ? 2 : 1); Ctx C; M M0 = build(z, hw.rep, hw.how, FLIPS[thorough ? hw.fl + 1 : 3]); C.m = M0.m; for (auto v : M0.v) C.N.of(v); int cl = pick(thorough ? 3 : 2, "classification"); // all on one entity; unknown; as the separate elements are
  for (int d = 0; d < 4; d++) for (auto e : all_of(C.m, d)) if (cl == 0) cls(e, s.dim, 1); else if (cl == 2) cls(e, 4, 0);
  bool mixed = cl == 1; int tf = pick(2, "topoflag"); if (mixed) { int k = 0; for (auto v : all_v(C.m)) cls(v, k % 2 ? 1 : 2, 1 + k / 3 % 2), k++; for (auto e : all_e(C.m)) cls(e, k % 3 ? 1 : 2, 1 + k / 2 % 2), k++; for (auto f : all_f(C.m)) cls(f, k % 3 ? 2 : 3, 1 + k / 2 % 2), k++; for (auto r : all_r(C.m)) cls(r, 3, 1); }
  int flip = pick(4, "kept"), order = pick(2, "order"); // which of each pair is kept: all first, all second, alternating
  C.log = s.name + fmt(" rep %d how %d class %d topoflag %d kept %d order %d:", hw.rep, hw.how, cl, tf, flip, order); std::string base = C.log; int k = 0; auto sel = [&]() { k++; return flip == 0 ? 0 : flip == 1 ? 1 : (k + flip) % 2; };
  // refusals while the parts are still separate
  auto edge_pairs = [&]() { std::vector<std::pair<void *, void *>> r; VP E = all_e(C.m); for (size_t i = 0; i < E.size(); i++) for (size_t j = 0; j < i; j++) { EK a = ekey(C.N.of(ME_Vertex(E[i], 0)), C.N.of(ME_Vertex(E[i], 1))), b = ekey(C.N.of(ME_Vertex(E[j], 0)), C.N.of(ME_Vertex(E[j], 1))); if (a == b) r.push_back({E[j], E[i]}); } if (order) std::reverse(r.begin(), r.end()); return r; };
  auto face_pairs = [&](bool matching) { std::vector<std::pair<void *, void *>> r; VP F = all_f(C.m); for (size_t i = 0; i < F.size(); i++) for (size_t j = 0; j < i; j++) { VP a = vec(MF_Edges(F[i], 1, 0)), b = vec(MF_Edges(F[j], 1, 0)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); bool touch = false; for (auto x : a) touch |= std::count(b.begin(), b.end(), x) > 0; if (matching ? a == b : touch && a != b) r.push_back({F[j], F[i]}); } if (order) std::reverse(r.begin(), r.end()); return r; };
  auto allowed = [&](void *a, void *b, int kind) { if (!tf) return true; int da = MEnt_GEntDim(a), db = MEnt_GEntDim(b), ia = MEnt_GEntID(a), ib = MEnt_GEntID(b); return kind == 0 ? da == db && ia == ib : da == db ? ia == ib : db > da; };
  { VP E = all_e(C.m); void *a = E.front(), *b = E.back(); CX W = extract(C.m, C.N); auto B = ptrs(W); C.log = base + " merge of separate edges"; merged(C, a, b, MEDGE, false, [&] { return MEs_Merge(a, b, tf); }); done(C, W, B, "MEs_Merge refused"); VP F = all_f(C.m); a = F.front(); b = F.back(); C.log = base + " merge of separate faces"; if (a != b) { merged(C, a, b, MFACE, false, [&] { return MFs_Merge(a, b, tf); }); done(C, W, B, "MFs_Merge refused"); } }
  // vertices
  VI keys; for (auto &x : same_v) if (x.second.size() > 1) keys.push_back(x.first); if (order) std::reverse(keys.begin(), keys.end()); int skipped = 0;
  for (int key : keys) { VI l = same_v[key]; while (l.size() > 1) { int s2 = sel(); int a = s2 ? l[1] : l[0], b = s2 ? l[0] : l[1]; void *va = M0.v[a], *vb = M0.v[b]; CX W = extract(C.m, C.N); auto B = ptrs(W); bool ok = allowed(va, vb, 0); C.log = base + fmt(" merge vertex %d into %d", b, a); VF_TRACE("%s", C.log.c_str()); merged(C, va, vb, MVERTEX, ok, [&] { return MVs_Merge(va, vb, tf); });
      if (ok) { W.rem(vb); for (auto &y : W.e) { y.cyc = subst(y.cyc, b, a); for (auto &f : y.faces) f = subst(f, b, a); } } done(C, W, B, ok ? "MVs_Merge" : "MVs_Merge refused"); if (!ok) { Ent *x = W.find(va); cls(vb, x->gd, x->gi); if (skipped++ > 50) fail("harness: classification", " "); continue; } l.erase(std::find(l.begin(), l.end(), b)); } }
  // faces that share only some edges, and whose edges have not been merged
  auto ep = edge_pairs(); while (!ep.empty()) {
    void *a = ep[0].first, *b = ep[0].second; if (sel()) std::swap(a, b); CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(b); bool ok = allowed(a, b, 1); C.log = base + " merge edge " + str(x.cyc); VF_TRACE("%s", C.log.c_str()); merged(C, a, b, MEDGE, ok, [&] { return MEs_Merge(a, b, tf); }); if (ok) W.rem(b); done(C, W, B, ok ? "MEs_Merge" : "MEs_Merge refused"); if (!ok) { cls(b, MEnt_GEntDim(a), MEnt_GEntID(a)); if (skipped++ > 50) fail("harness: classification", " "); }
    if (s.dim == 3 || thorough) { auto fp = face_pairs(false); if (!fp.empty()) { CX W2 = extract(C.m, C.N); auto B2 = ptrs(W2); void *f = fp[0].first, *g = fp[0].second; C.log += " then of faces that differ"; merged(C, f, g, MFACE, false, [&] { return MFs_Merge(f, g, tf); }); done(C, W2, B2, "MFs_Merge refused"); } }
    ep = edge_pairs(); }
  auto fp = face_pairs(true); while (!fp.empty()) {
    void *a = fp[0].first, *b = fp[0].second; if (sel()) std::swap(a, b); CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(b); bool ok = allowed(a, b, 1); C.log = base + " merge face " + str(x.cyc); VF_TRACE("%s", C.log.c_str()); merged(C, a, b, MFACE, ok, [&] { return MFs_Merge(a, b, tf); }); if (ok) W.rem(b); done(C, W, B, ok ? "MFs_Merge" : "MFs_Merge refused"); if (!ok) { cls(b, MEnt_GEntDim(a), MEnt_GEntID(a)); if (skipped++ > 50) fail("harness: classification", " "); } fp = face_pairs(true); }
  // everything zipped: the mesh is the host's
  Lab L; for (auto v : all_v(C.m)) L[v] = orig[C.N.of(v)]; H h; for (auto &x : snapshot(C.m, L)) h.add(x); h.add(hw.rep); h.add(cl); state(h.h); h.add(base); nontrivial(h.h); VerifyOpt vo; vo.pairs = true; verify(C.m, "after zipping", vo); MESH_Delete(C.m);
}
static void run() { if (fam == "join") run_join(); else run_merge(); }
int main(int c, char **v) { Options o; fam = "join"; for (int i = 1; i < c; i++) if (!strncmp(v[i], "--fam=", 6)) fam = v[i] + 6; A = new Alpha(); o.property = "P15"; o.run = run; return vf::main(c, v, o); }
