// P06: face boundaries are one closed loop, whatever the edge directions, the number of edges and the editing history
#include "mesh.hpp"
using namespace mm; using namespace vf;

struct Poly { Mesh_ptr m; std::vector<MVertex_ptr> v; MFace_ptr f; VI loop; std::vector<void *> byname; bool reg; };
static MVertex_ptr newv(Poly &p, double x, double y, double z) { MVertex_ptr v = MV_New(p.m); double c[3] = {x, y, z}; MV_Set_Coords(v, c); p.byname.push_back(v); return v; }
static MEdge_ptr newe(Mesh_ptr m, MVertex_ptr a, MVertex_ptr b) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, a); ME_Set_Vertex(e, 1, b); return e; }
static int nameof(Poly &p, void *v) { for (size_t i = 0; i < p.byname.size(); i++) if (p.byname[i] == v) return i; return -99; }

// what the face says its directed loop is
static VI loop_of(Poly &p) { VI r; for (auto v : fverts(p.f, 1)) r.push_back(nameof(p, v)); return r; }

static void check(Poly &p, const char *when, RepType rep, bool full) {
  VI a = norm_cycle(p.loop, true), b = norm_cycle(loop_of(p), true);
  CK(a == b, (std::string(when) + ": not the loop described").c_str(), "rep %d: got %s expected %s", rep, str(b).c_str(), str(a).c_str());
  verify(p.m, (fmt("%s F%d", when, rep == F1 ? 1 : 4)).c_str(), VerifyOpt{true, full, true, full ? 64 : 3});
  step();
}

static Poly make(int n, RepType rep, uint64_t dirs, int how, bool reg) {
  Poly p; p.m = MESH_New(rep); p.reg = reg;
  for (int i = 0; i < n; i++) { newv(p, cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 0); p.loop.push_back(i); }
  std::vector<MEdge_ptr> e; VI d;
  auto V = [&](int i) { return p.byname[i]; };
  if (how != 1) for (int i = 0; i < n; i++) { bool fw = dirs >> i & 1; e.push_back(fw ? newe(p.m, V(i), V((i + 1) % n)) : newe(p.m, V((i + 1) % n), V(i))); d.push_back(fw); }
  p.f = MF_New(p.m);
  if (how == 0) MF_Set_Edges(p.f, n, e.data(), d.data());
  else { std::vector<MVertex_ptr> q; for (int i = 0; i < n; i++) q.push_back(V(i)); MF_Set_Vertices(p.f, n, q.data()); }  // how 2: the edges exist already
  if (reg) { // prism over the polygon; the polygon is its base
    std::vector<MFace_ptr> fs = {p.f}; VI fd = {0};
    for (int i = 0; i < n; i++) newv(p, cos(2 * M_PI * i / n), sin(2 * M_PI * i / n), 1);
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; std::vector<MVertex_ptr> q = {V(i), V(j), V(n + j), V(n + i)}; MFace_ptr f = MF_New(p.m); MF_Set_Vertices(f, 4, q.data()); fs.push_back(f); fd.push_back(1); }
    std::vector<MVertex_ptr> q; for (int i = 0; i < n; i++) q.push_back(V(n + i)); MFace_ptr f = MF_New(p.m); MF_Set_Vertices(f, n, q.data()); fs.push_back(f); fd.push_back(1);
    MRegion_ptr r = MR_New(p.m); MR_Set_Faces(r, fs.size(), fs.data(), fd.data());
  }
  return p;
}
static int nv0, nops;
// edge from loop position i to i+1
static MEdge_ptr edge_at(Poly &p, int i) { int n = p.loop.size(); return MVs_CommonEdge(p.byname[p.loop[i]], p.byname[p.loop[(i + 1) % n]]); }

static bool replace(Poly &p, int maxlen, bool big) {
  int n = p.loop.size();
  static const int BIG[6] = {0, 1, 30, 31, 32, 62};
  int i; if (!big) i = pick(n, "start"); else { int k = pick(7, "start"); i = k == 6 ? n - 1 : BIG[k]; if (i >= n) return false; }
  bool lean = nops++ && !thorough; if (p.reg) maxlen = 1; if (lean) maxlen = 2;
  int L = 1 + pick(std::min(maxlen, n - 1), "old length"), K = 1 + pick(lean ? 2 : 3, "new length");
  if (big && (K == 2 || L == 2) && !thorough) return false;
  if (n - L + K < 3 || n - L + K > 64) return false;
  int orev = pick(2, "old listed backward"), nrev = lean ? orev : pick(2, "new listed backward"), nd = pick(big || lean ? 2 : 1 << std::min(K, 2), "new directions"), byindex = lean ? 0 : pick(2, "by index");
  if (byindex && orev) return false;
  int start = i;
  std::vector<MEdge_ptr> old; for (int k = 0; k < L; k++) { MEdge_ptr e = edge_at(p, (i + k) % n); old.push_back(e); }
  int a = p.loop[i], b = p.loop[(i + L) % n]; VI path = {a};
  for (int k = 1; k < K; k++) { newv(p, 2 + nv0++ * .1, k, 3); path.push_back(p.byname.size() - 1); }
  path.push_back(b);
  if (K == 1 && L == n - 1) return false;   // would duplicate the remaining edge
  std::vector<MEdge_ptr> nu; for (int k = 0; k < K; k++) { MVertex_ptr x = p.byname[path[k]], y = p.byname[path[k + 1]];
    // a replacement of one edge by one edge joins the same vertices: the mesh then has two such edges until the old one goes
    nu.push_back((nd >> (k & 1) & 1) ? newe(p.m, y, x) : newe(p.m, x, y)); }
  std::vector<MEdge_ptr> fe; for (auto e : vec(MF_Edges(p.f, 1, 0))) fe.push_back(e);
  int idx = std::find(fe.begin(), fe.end(), old[0]) - fe.begin();
  std::vector<MEdge_ptr> o2 = old, n2 = nu; if (orev) std::reverse(o2.begin(), o2.end()); if (nrev) std::reverse(n2.begin(), n2.end());
  VF_TRACE("replace %d edges from position %d (index %d)%s by %d%s, new directions %d, %s", L, i, idx, orev ? " listed backward" : "", K, nrev ? " listed backward" : "", nd, byindex ? "MF_Replace_Edges_i" : "MF_Replace_Edges");
  VP users = vec(ME_Faces(old[0])); if (!p.reg) users = {p.f};
  for (auto f : users) {
    if (f != p.f) { VP x = vec(MF_Edges(f, 1, 0)); idx = std::find(x.begin(), x.end(), (void *)old[0]) - x.begin(); }
    if (byindex) MF_Replace_Edges_i(f, L, idx, K, n2.data()); else MF_Replace_Edges(f, L, o2.data(), K, n2.data());
  }
  // model
  VI r; for (int k = 0; k < n - L; k++) r.push_back(p.loop[(i + L + k) % n]);
  r.push_back(a); r.insert(r.end(), path.begin() + 1, path.end() - 1);
  if (n - L == 0) r = VI(path.begin(), path.end() - 1);
  p.loop = r; (void)start;
  // the face must now use exactly the new edges in place of the old ones
  VP es = vec(MF_Edges(p.f, 1, 0)); std::set<void *> got(es.begin(), es.end()), want(fe.begin(), fe.end()); for (auto e : old) want.erase(e); want.insert(nu.begin(), nu.end());
  CK(got == want, "replace: face edges", "edges %s expected %s", ids(es).c_str(), ids(VP(want.begin(), want.end())).c_str());
  // drop old edges nobody uses
  for (auto e : old) if (vec(ME_Faces(e)).empty()) ME_Delete(e, 0);
  count(byindex ? "MF_Replace_Edges_i" : "MF_Replace_Edges");
  return true;
}
static bool reverse_edge(Poly &p, bool big) {
  int n = p.loop.size(); static const int BIG[6] = {0, 1, 30, 31, 32, 62};
  int i; if (!big) i = pick(n, "edge"); else { int k = pick(7, "edge"); i = k == 6 ? n - 1 : BIG[k]; if (i >= n) return false; }
  int byindex = pick(2, "by index");
  MEdge_ptr e = edge_at(p, i); MVertex_ptr a = ME_Vertex(e, 0), b = ME_Vertex(e, 1); MVertex_ptr t = MV_New(p.m);
  VF_TRACE("reverse the edge at position %d, %s", i, byindex ? "by index" : "by edge");
  VP fs = vec(ME_Faces(e));
  ME_Replace_Vertex(e, a, t); ME_Replace_Vertex(e, b, a); ME_Replace_Vertex(e, t, b); MV_Delete(t, 0);
  for (auto f : fs) { if (byindex) { VP es = vec(MF_Edges(f, 1, 0)); MF_Rev_EdgeDir_i(f, std::find(es.begin(), es.end(), (void *)e) - es.begin()); } else MF_Rev_EdgeDir(f, e); }
  count("MF_Rev_EdgeDir"); return true;
}
static bool contract_edge(Poly &p, bool big) {
  int n = p.loop.size(); if (n < 4) return false;
  static const int BIG[6] = {0, 1, 30, 31, 32, 62};
  int i; if (!big) i = pick(n, "edge"); else { int k = pick(7, "edge"); i = k == 6 ? n - 1 : BIG[k]; if (i >= n) return false; }
  MEdge_ptr e = edge_at(p, i); int a = p.loop[i], b = p.loop[(i + 1) % n]; MVertex_ptr va = p.byname[a], vb = p.byname[b];
  VF_TRACE("contract the edge at position %d", i);
  VP fs = vec(ME_Faces(e));
  for (auto f : fs) if (MF_Num_Edges(f) < 4) return false;
  for (auto f : fs) MF_Rem_Edge(f, e);
  for (auto x : vec(MV_Edges(vb))) if (x != e) ME_Replace_Vertex(x, vb, va);
  ME_Delete(e, 0); MV_Delete(vb, 0);
  p.byname[b] = NULL; p.loop.erase(std::find(p.loop.begin(), p.loop.end(), b));
  count("MF_Rem_Edge"); return true;
}
static void run() {
  nv0 = nops = 0; int bigk = 0;
  bool big = pick(2, "big");
  int n; uint64_t dirs; RepType rep = pick(2, "rep") ? F4 : F1; int how = pick(3, "how"); bool reg;
  if (!big) {
    n = 3 + pick(thorough ? 6 : 3, "n"); reg = pick(2, "region");
    dirs = how == 1 ? 0 : pick(std::min(1 << n, 250), "dirs"); if (n == 8 && dirs >= 32) dirs = dirs << 3 & 255; 
  } else {
    static const int N[] = {29, 31, 32, 33, 34, 40, 62, 63, 64}; n = N[pick(9, "n")]; reg = false;
    if (how == 1) dirs = 0; else { bigk = pick(thorough ? 4 + n : 12, "dirs"); int k = bigk; static const int S[8] = {0, 1, 30, 31, 32, 33, 62, 63};
      dirs = k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? 0xaaaaaaaaaaaaaaaaull : k == 3 ? 0xfffffffe00000001ull : thorough ? 1ull << (k - 4) : 1ull << S[k - 4]; }
  }
  Poly p = make(n, rep, dirs, how, reg);
  VF_TRACE("%d edges, rep %d, directions %llx, how %d, region %d", n, rep, (unsigned long long)dirs, how, reg);
  check(p, "set", rep, true);
  if (how != 1) { VP es = vec(MF_Edges(p.f, 1, 0)); for (size_t i = 0; i < es.size(); i++) if (how == 0) CK(MF_EdgeDir_i(p.f, i) == (int)(dirs >> i & 1), "set: direction bit", "edge %zu of %d", i, n); }
  int depth = big ? (thorough ? 2 : 1) : (n <= 3 ? 2 : thorough && n <= 5 ? 2 : 1);
  if (!thorough && how == 2) depth = 0;
  if (!thorough && reg) depth = std::min(depth, 1);
  if (big && !thorough && (bigk < 2 || bigk > 4)) depth = 0;
  if (thorough && n > 6 && dirs % 7) depth = 1;
  if (big && !thorough && n != 33 && n != 63) depth = 0;
  if (!thorough && !big && (how || (dirs != 0 && dirs != 5))) depth = std::min(depth, 1);
  if (!thorough && !big && n > 3 && reg && dirs % 3) depth = 0;
  if (!thorough && !big && n > 4 && dirs % 4 > 1) depth = 0;
  int done = 0;
  for (; done < depth; done++) {
    int op = pick(4, "op"); if (op == 0) break; bool ok; const char *nm;
    // regions are left out when contraction would squeeze side faces
    if (op == 1) { ok = replace(p, 3, big); nm = "replace edges"; }
    else if (op == 2) { ok = reverse_edge(p, big); nm = "reverse edge"; }
    else { ok = contract_edge(p, big); nm = "remove edge"; }
    if (!ok) break;
    check(p, nm, rep, !big && done == 0);
  }
  H h; h.add(n); h.add(dirs); h.add(rep); h.add(how); h.add(reg); for (int x : p.loop) h.add(x); for (auto e : vec(MF_Edges(p.f, 1, 0))) h.add(MF_EdgeDir(p.f, e)); state(h.h); if (done) nontrivial(h.h);
  MESH_Delete(p.m);
}
int main(int c, char **v) { Options o; o.property = "P06"; o.run = run; return vf::main(c, v, o); }
