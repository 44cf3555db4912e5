// P12, P13, P16, P17: splitting edges, faces and regions and swapping edges, also one after another
#include "mod.hpp"
using namespace mm; using namespace vf;
static Alpha *A; static std::string fam; static int two; static std::vector<Spec> small;
struct Ctx { Mesh_ptr m; Names N; std::string log; int n = 0; };
static P3 mid(P3 a, P3 b, double t) { P3 r; for (int k = 0; k < 3; k++) r[k] = a[k] + t * (b[k] - a[k]); return r; }
static bool simplices(Ctx &C) { for (auto f : all_f(C.m)) if (MF_Num_Vertices(f) != 3) return false; for (auto r : all_r(C.m)) if (vec(MR_Faces(r)).size() != 4) return false; return true; }
typedef std::function<void(Ctx &)> Op;
static void done(Ctx &C, const CX &W, const std::set<void *> &B, const char *op) { same(W, C.m, C.N, B, op, C.log); step(); count(op); C.n++; }

static void op_split_edge(Ctx &C) {
  VP E = all_e(C.m); if (E.empty()) return; void *e = E[pick(E.size(), "edge")]; int n = pick(two ? 2 : 3, "points") + 1; bool given = !two && (n == 1 || thorough) && pick(2, "given coordinates"); bool single = n == 1 && pick(two ? 1 : 2, "ME_Split");
  CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(e); void *v0 = ME_Vertex(e, 0), *v1 = ME_Vertex(e, 1); P3 a = coords(v0), b = coords(v1); double (*xyz)[3] = (double (*)[3])malloc(n * sizeof(double[3])); VI ch; std::vector<P3> at; for (int i = 0; i < n; i++) { double t = given ? 0.1 + 0.8 * (i + 1) / (n + 2) : (i + 1.) / (n + 1); at.push_back(mid(a, b, t)); for (int k = 0; k < 3; k++) xyz[i][k] = at[i][k]; }
  C.log += fmt(" split edge %d-%d in %d%s", x.cyc[0], x.cyc[1], n + 1, given ? " at points" : ""); VF_TRACE("%s", C.log.c_str()); VP got; void *vn = NULL; if (single) { vn = ME_Split(e, given ? xyz[0] : NULL); CK(vn && !B.count(vn), "ME_Split: returned vertex", "%s", C.log.c_str()); for (auto v : all_v(C.m)) if (!B.count(v)) CK(v == vn, "ME_Split: returned vertex", "%s", C.log.c_str()); ch = {C.N.of(vn)}; }
  else { List_ptr l = ME_MultiSplit(e, n, given ? xyz : NULL); got = vec(l); CK((int)got.size() == n + 1, "ME_MultiSplit: returned edges", "%s: %zu", C.log.c_str(), got.size()); void *v = v0; for (auto g : got) { CK(!B.count(g) && MEnt_Dim(g) == MEDGE && (ME_Vertex(g, 0) == v || ME_Vertex(g, 1) == v), "ME_MultiSplit: returned edges not in order", "%s", C.log.c_str()); v = ME_Vertex(g, 0) == v ? ME_Vertex(g, 1) : ME_Vertex(g, 0); if (g != got.back()) ch.push_back(C.N.of(v)); } CK(v == v1, "ME_MultiSplit: returned edges not in order", "%s", C.log.c_str()); }
  free(xyz); W.rem(e); for (int i = 0; i < n; i++) W.add_vertex(ch[i], at[i], x.gd, x.gi); int prev = x.cyc[0]; for (int i = 0; i <= n; i++) { int nx = i < n ? ch[i] : x.cyc[1]; W.add_edge(prev, nx, x.gd, x.gi); prev = nx; } W.insert_chain(x.cyc[0], x.cyc[1], ch); done(C, W, B, single ? "ME_Split" : "ME_MultiSplit");
}
static void op_split_edge_simplex(Ctx &C) {
  if (!simplices(C)) return; VP E = all_e(C.m); if (E.empty()) return; void *e = E[pick(E.size(), "edge")]; bool given = pick(2, "given coordinates"); CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(e); int a = x.cyc[0], b = x.cyc[1]; P3 p = mid(coords(ME_Vertex(e, 0)), coords(ME_Vertex(e, 1)), given ? 0.3 : 0.5); double *q = (double *)malloc(3 * sizeof(double)); for (int k = 0; k < 3; k++) q[k] = p[k];
  C.log += fmt(" simplex split of edge %d-%d", a, b); VF_TRACE("%s", C.log.c_str()); void *vn = ME_Split_SimplexMesh(e, given ? q : NULL); free(q); CK(vn && !B.count(vn), "ME_Split_SimplexMesh: returned vertex", "%s", C.log.c_str()); int n = C.N.of(vn); CX V = W; V.e.clear(); 
  for (auto &y : W.e) { if (y.dim == 2 && uses(y.cyc, a) && uses(y.cyc, b)) { V.add_face(subst(y.cyc, a, n), y.gd, y.gi); V.add_face(subst(y.cyc, b, n), y.gd, y.gi); int c = -1; for (int v : y.cyc) if (v != a && v != b) c = v; V.add_edge(n, c, y.gd, y.gi); }
    else if (y.dim == 3) { bool ua = false, ub = false; for (auto &f : y.faces) { ua |= uses(f, a); ub |= uses(f, b); } if (!ua || !ub) { V.e.push_back(y); continue; } for (int s = 0; s < 2; s++) { int keep = s ? b : a, gone = s ? a : b; std::vector<VI> fs; for (auto &f : y.faces) if (!(uses(f, gone) && !uses(f, keep))) fs.push_back(uses(f, gone) ? subst(f, gone, n) : f); else fs.push_back(subst(f, gone, n)); V.add_region(fs, y.gd, y.gi); } for (auto &f : y.faces) if (uses(f, b) && !uses(f, a)) V.add_face(subst(f, b, n), 3, y.gi, true); }
    else if (y.p != e) V.e.push_back(y); }
  V.add_vertex(n, p, x.gd, x.gi); V.add_edge(a, n, x.gd, x.gi); V.add_edge(n, b, x.gd, x.gi); done(C, V, B, "ME_Split_SimplexMesh");
}
static void split_face(CX &W, void *f, int n, P3 p) { Ent x = *W.find(f); W.rem(f); std::vector<VI> nu; int k = x.cyc.size(); W.add_vertex(n, p, x.gd, x.gi); for (int i = 0; i < k; i++) { VI t = {n, x.cyc[i], x.cyc[(i + 1) % k]}; nu.push_back(t); W.add_face(t, x.gd, x.gi); W.add_edge(n, x.cyc[i], x.gd, x.gi); } W.replace_cycle(x.cyc, nu); }
static P3 inside(void *f) { auto p = pts(fverts(f)); P3 c{0, 0, 0}; double w = 0; for (size_t i = 0; i < p.size(); i++) { double s = 1 + 0.1 * i; for (int k = 0; k < 3; k++) c[k] += s * p[i][k]; w += s; } for (int k = 0; k < 3; k++) c[k] /= w; return c; }
static void op_split_face(Ctx &C) {
  VP F = all_f(C.m); if (F.empty()) return; void *f = F[pick(F.size(), "face")]; CX W = extract(C.m, C.N); auto B = ptrs(W); P3 p = inside(f); double *q = (double *)malloc(3 * sizeof(double)); for (int k = 0; k < 3; k++) q[k] = p[k]; C.log += " split face " + str(W.find(f)->cyc); VF_TRACE("%s", C.log.c_str());
  void *vn = MF_Split(f, q); free(q); CK(vn && !B.count(vn), "MF_Split: returned vertex", "%s", C.log.c_str()); split_face(W, f, C.N.of(vn), p); done(C, W, B, "MF_Split");
}
static void op_split_face_simplex(Ctx &C) {
  if (!simplices(C)) return; VP F = all_f(C.m); if (F.empty()) return; void *f = F[pick(F.size(), "face")]; CX W = extract(C.m, C.N); auto B = ptrs(W); P3 p = inside(f); double *q = (double *)malloc(3 * sizeof(double)); for (int k = 0; k < 3; k++) q[k] = p[k]; Ent x = *W.find(f); C.log += " simplex split of face " + str(x.cyc); VF_TRACE("%s", C.log.c_str());
  void *vn = MF_Split_SimplexMesh(f, q); free(q); CK(vn && !B.count(vn), "MF_Split_SimplexMesh: returned vertex", "%s", C.log.c_str()); int n = C.N.of(vn); VI key = norm_cycle(x.cyc, false); CX V = W; V.e.clear();
  for (auto &y : W.e) { bool on = false; if (y.dim == 3) for (auto &g : y.faces) on |= norm_cycle(g, false) == key; if (!on) { V.e.push_back(y); continue; } int apex = -1; for (auto &g : y.faces) for (int v : g) if (!uses(x.cyc, v)) apex = v;
    for (int i = 0; i < 3; i++) { int gone = x.cyc[i]; std::vector<VI> fs; for (auto &g : y.faces) fs.push_back(subst(g, gone, n)); V.add_region(fs, y.gd, y.gi); V.add_face({n, x.cyc[i], apex}, 3, y.gi, true); } V.add_edge(n, apex, 3, y.gi); }
  // the face of the deleted tets and its pieces
  split_face(V, f, n, p); done(C, V, B, "MF_Split_SimplexMesh");
}
static void op_split_face_edge(Ctx &C) {
  VP F = all_f(C.m); if (F.empty()) return; void *f = F[pick(F.size(), "face")]; VP q = fverts(f); int n = q.size(); if (n < 4 && !thorough) return; int i = pick(n, "from"), j = pick(n, "to"); if (i == j) return; CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(f); int a = C.N.of(q[i]), b = C.N.of(q[j]); bool ex = W.has_edge(a, b);
  C.log += " split face " + str(x.cyc) + fmt(" by edge %d-%d", a, b); VF_TRACE("%s", C.log.c_str()); void *e = MF_Split_with_Edge(f, q[i], q[j]); CK(e && MEnt_Dim(e) == MEDGE && ((ME_Vertex(e, 0) == q[i] && ME_Vertex(e, 1) == q[j]) || (ME_Vertex(e, 0) == q[j] && ME_Vertex(e, 1) == q[i])), "MF_Split_with_Edge: returned edge", "%s", C.log.c_str());
  if (ex) { CK(B.count(e), "MF_Split_with_Edge: returned edge", "%s", C.log.c_str()); done(C, W, B, "MF_Split_with_Edge, edge exists"); return; }
  VI c1, c2; for (int k = i;; k = (k + 1) % n) { c1.push_back(x.cyc[k]); if (k == j) break; } for (int k = j;; k = (k + 1) % n) { c2.push_back(x.cyc[k]); if (k == i) break; } W.rem(f); W.add_edge(a, b, x.gd, x.gi); W.add_face(c1, x.gd, x.gi); W.add_face(c2, x.gd, x.gi); W.replace_cycle(x.cyc, {c1, c2}); done(C, W, B, "MF_Split_with_Edge");
}
static void op_swap(Ctx &C) {
  VP E = all_e(C.m); if (E.empty()) return; void *e = E[pick(E.size(), "edge")]; CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(e); VP fs = vec(ME_Faces(e)); bool ok = x.gd == 2 && fs.size() == 2; for (auto f : fs) ok &= MF_Num_Vertices(f) == 3; int a = x.cyc[0], b = x.cyc[1]; C.log += fmt(" swap %d-%d", a, b); VF_TRACE("%s", C.log.c_str()); MEdge_ptr en = NULL; MFace_ptr *fn = (MFace_ptr *)calloc(2, sizeof(MFace_ptr));
  if (!ok) { int r = ME_Swap2D(e, &en, fn); free(fn); CK(!r, "ME_Swap2D: swap that is not possible was accepted", "%s", C.log.c_str()); done(C, W, B, "ME_Swap2D refused"); return; }
  int d0 = MF_EdgeDir(fs[0], e), d1 = MF_EdgeDir(fs[1], e); VI f0, f1; for (auto v : fverts(fs[0])) f0.push_back(C.N.of(v)); for (auto v : fverts(fs[1])) f1.push_back(C.N.of(v)); int o0 = -1, o1 = -1; for (int v : f0) if (v != a && v != b) o0 = v; for (int v : f1) if (v != a && v != b) o1 = v;
  if (d0 == d1 || W.has_edge(o0, o1) || o0 == o1) { free(fn); C.n = -1; return; } // documented: not checked
  Ent y0 = *W.find(fs[0]), y1 = *W.find(fs[1]); if (y0.gd != y1.gd || y0.gi != y1.gi) { free(fn); C.n = -1; return; } 
  int r = ME_Swap2D(e, &en, fn); CK(r, "ME_Swap2D: refused a possible swap", "%s", C.log.c_str()); CK(en && fn[0] && fn[1] && !B.count(en) && !B.count(fn[0]) && !B.count(fn[1]) && fn[0] != fn[1], "ME_Swap2D: returned entities", "%s", C.log.c_str()); 
  CK(MEnt_Dim(en) == MEDGE && MEnt_Dim(fn[0]) == MFACE && MEnt_Dim(fn[1]) == MFACE, "ME_Swap2D: returned entities", "%s", C.log.c_str()); W.rem(e); W.rem(fs[0]); W.rem(fs[1]); W.add_edge(o0, o1, x.gd, x.gi); W.add_face(subst(f0, d0 ? b : a, o1), y0.gd, y0.gi); W.add_face(subst(f1, d1 ? b : a, o0), y0.gd, y0.gi); free(fn); done(C, W, B, "ME_Swap2D");
  // again: back to the original triangulation
  CX W2 = extract(C.m, C.N); auto B2 = ptrs(W2); MEdge_ptr e2 = NULL; MFace_ptr f2[2]; void *ff[2]; { VP q = vec(ME_Faces(en)); ff[0] = q[0]; ff[1] = q[1]; } C.log += " and back"; r = ME_Swap2D(en, &e2, f2); CK(r, "ME_Swap2D: refused a possible swap", "%s", C.log.c_str()); W2.rem(en); W2.rem(ff[0]); W2.rem(ff[1]); W2.add_edge(a, b, x.gd, x.gi); W2.add_face(f0, y0.gd, y0.gi); W2.add_face(f1, y0.gd, y0.gi); done(C, W2, B2, "ME_Swap2D");
}
// simple closed loops of a region's edges, found by depth first search; every start, direction and loop is a choice
static void op_split_region(Ctx &C) {
  VP R = all_r(C.m); if (R.empty()) return; void *r = R[pick(R.size(), "region")]; CX W = extract(C.m, C.N); auto B = ptrs(W); Ent x = *W.find(r); VP E = vec(MR_Edges(r)); std::map<int, std::vector<std::pair<int, void *>>> adj; for (auto e : E) { int a = C.N.of(ME_Vertex(e, 0)), b = C.N.of(ME_Vertex(e, 1)); adj[a].push_back({b, e}); adj[b].push_back({a, e}); }
  std::vector<std::pair<VI, VP>> loops; VI pv; VP pe; std::function<void(int, int)> dfs = [&](int s, int v) { for (auto &y : adj[v]) { if (y.first == s && pe.size() >= 2 && y.second != pe[0]) { if (pv[1] < v) { VP q = pe; q.push_back(y.second); loops.push_back({pv, q}); } } else if (y.first > s && !uses(pv, y.first) && pv.size() < (thorough ? 8u : 6u)) { pv.push_back(y.first); pe.push_back(y.second); dfs(s, y.first); pv.pop_back(); pe.pop_back(); } } };
  for (auto &s : adj) { pv = {s.first}; pe.clear(); dfs(s.first, s.first); } if (loops.empty()) return; auto L = loops[pick(loops.size(), "loop")]; int n = L.second.size(), st = pick(thorough ? n : 2, "start"); std::rotate(L.first.begin(), L.first.begin() + st, L.first.end()); std::rotate(L.second.begin(), L.second.begin() + st, L.second.end()); if (pick(2, "direction")) { std::reverse(L.second.begin(), L.second.end()); std::reverse(L.first.begin() + 1, L.first.end()); }
  // the two parts of the surface
  std::set<EK> cut; for (int i = 0; i < n; i++) cut.insert(ekey(L.first[i], L.first[(i + 1) % n])); int nf = x.faces.size(); VI part(nf, -1); int np = 0; for (int i = 0; i < nf; i++) if (part[i] < 0) { VI st = {i}; part[i] = np; while (!st.empty()) { int k = st.back(); st.pop_back(); for (int j = 0; j < nf; j++) if (part[j] < 0) { bool con = false; for (size_t p = 0; p < x.faces[k].size(); p++) { EK e = ekey(x.faces[k][p], x.faces[k][(p + 1) % x.faces[k].size()]); if (cut.count(e)) continue; for (size_t q = 0; q < x.faces[j].size(); q++) con |= e == ekey(x.faces[j][q], x.faces[j][(q + 1) % x.faces[j].size()]); } if (con) { part[j] = np; st.push_back(j); } } } np++; }
  if (np != 2) return; int c0 = std::count(part.begin(), part.end(), 0); if (c0 < 2 || c0 > nf - 2) return; // one side would be a single face
  VI cyc; { void *e0 = L.second[0]; int a = C.N.of(ME_Vertex(e0, 0)), b = C.N.of(ME_Vertex(e0, 1)); int n0 = L.second[1] && (C.N.of(ME_Vertex(L.second[1], 0)) == b || C.N.of(ME_Vertex(L.second[1], 1)) == b); if (!n0) { std::rotate(L.second.begin(), L.second.end() - 1, L.second.end()); std::reverse(L.second.begin(), L.second.end()); std::rotate(L.second.begin(), L.second.begin(), L.second.end()); e0 = L.second[0]; a = C.N.of(ME_Vertex(e0, 0)); b = C.N.of(ME_Vertex(e0, 1)); n0 = C.N.of(ME_Vertex(L.second[1], 0)) == b || C.N.of(ME_Vertex(L.second[1], 1)) == b; }
    if (!n0) { std::reverse(L.second.begin() + 1, L.second.end()); } int v = a; for (auto e : L.second) { cyc.push_back(v); v = C.N.of(ME_Vertex(e, 0)) == v ? C.N.of(ME_Vertex(e, 1)) : C.N.of(ME_Vertex(e, 0)); } (void)b; }
  MEdge_ptr *arr = (MEdge_ptr *)malloc(n * sizeof(MEdge_ptr)); for (int i = 0; i < n; i++) arr[i] = L.second[i]; C.log += " split region " + canon(x) + " along " + str(cyc); VF_TRACE("%s", C.log.c_str()); void *f = MR_Split_with_EdgeLoop(r, n, arr); free(arr); CK(f && !B.count(f) && MEnt_Dim(f) == MFACE, "MR_Split_with_EdgeLoop: returned face", "%s", C.log.c_str());
  W.rem(r); W.add_face(cyc, 3, x.gi); bool p0fwd = false; // does part 0 use an edge of the loop in the direction of the face: then the face is reversed in it
  for (int i = 0; i < nf; i++) if (part[i] == 0) for (size_t p = 0; p < x.faces[i].size(); p++) for (int k = 0; k < n; k++) if (x.faces[i][p] == cyc[k] && x.faces[i][(p + 1) % x.faces[i].size()] == cyc[(k + 1) % n]) p0fwd = true;
  for (int s = 0; s < 2; s++) { std::vector<VI> fs; for (int i = 0; i < nf; i++) if (part[i] == s) fs.push_back(x.faces[i]); VI c = cyc; if ((s == 0) == p0fwd) std::reverse(c.begin(), c.end()); fs.push_back(c); W.add_region(fs, x.gd, x.gi); } done(C, W, B, "MR_Split_with_EdgeLoop");
}
static void run() {
  std::vector<Op> ops; if (fam == "edge") ops = {op_split_edge, op_split_edge_simplex}; if (fam == "face") ops = {op_split_face, op_split_face_edge, op_split_face_simplex}; if (fam == "region") ops = {op_split_region}; if (fam == "swap") ops = {op_swap};
  two = fam == "region" ? 0 : pick(2, "two operations"); int cells = thorough || fam == "swap" || fam == "region" ? 99 : 3; if (two && fam == "swap") cells = 4;
  Spec s; if (two && fam != "swap") s = small[pick(thorough ? small.size() : fam == "edge" ? 3 : 5, "small mesh")]; else { s = A->spec(cells); if (!A->mask) return; } How hw = pick_how(two ? 1 : thorough ? 3 : 1); int rot = hw.how && !two && (thorough || fam == "swap") ? pick(2, "start") : 0; Ctx C; M M0 = build(s, hw.rep, hw.how, FLIPS[two ? 3 : hw.fl + (thorough ? 0 : 3)], rot); C.m = M0.m; for (auto v : M0.v) C.N.of(v); classify(C.m, s.dim, two || s.cells.size() > 1 + thorough ? VI{1, 2} : pick_materials(s.cells.size(), 0)); C.log = s.name + fmt(" rep %d how %d:", hw.rep, hw.how * 10 + hw.fl);
  if (fam == "swap") for (auto e : all_e(C.m)) if (MEnt_GEntDim(e) == 2) count("swappable by classification");
  if (fam == "region" && thorough && pick(2, "diagonal first")) { op_split_face_edge(C); if (!C.n) { MESH_Delete(C.m); return; } }
  for (int k = 0; k < 1 + two; k++) { int before = C.n; ops[pick(ops.size(), "op")](C); if (C.n <= before) { MESH_Delete(C.m); return; } VerifyOpt vo; vo.pairs = false; verify(C.m, C.log.c_str(), vo); }
  std::set<std::string> sn = snapshot(C.m, C.N.l); H h; for (auto &x : sn) h.add(x); h.add(hw.rep); state(h.h); h.add(C.log); nontrivial(h.h); MESH_Delete(C.m);
}
int main(int c, char **v) { Options o; small = {subset(host_tri8(), 3), subset(host_mix2(), 5), subset(host_kuhn(), 3), subset(host_surf(), 19), host_quad(2, 1), host_hex(1, 1, 1), subset(host_mix3(), 2), subset(host_mix3(), 4)}; for (auto &x : small) orient(x); fam = "edge"; for (int i = 1; i < c; i++) if (!strncmp(v[i], "--fam=", 6)) fam = v[i] + 6; if (fam == "swap") A = new Alpha(1); else if (fam == "region") { A = new Alpha(std::vector<Spec>{host_mix3(), host_hex(2, 1, 1), subset(host_kuhn(), 15)}); } else A = new Alpha();
  o.property = fam == "edge" ? "P12" : fam == "face" ? "P13" : fam == "region" ? "P16" : "P17"; o.run = run; return vf::main(c, v, o); }
