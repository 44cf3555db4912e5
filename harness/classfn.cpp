// P21: MESH_BuildClassfn
#include "alpha.hpp"
#include <algorithm>
#include <set>
using namespace mm; using namespace vf;
static Alpha *A;
static const double SHARP = std::cos(5 * 3.141592 / 6);
static int ambiguous;
static bool smooth(double c) { if (std::abs(c - SHARP) < 1e-6) ambiguous = 1; return c <= SHARP; }
static P3 unit(P3 a) { double l = std::sqrt(dot(a, a)); for (int k = 0; k < 3; k++) a[k] /= l; return a; }
static P3 perp(void *f, void *e) { P3 a = coords(ME_Vertex(e, 0)), b = coords(ME_Vertex(e, 1)), t = unit(sub(b, a)), c = {0, 0, 0}; auto q = fverts(f); if (q.size() == 3) { for (auto v : q) if (v != ME_Vertex(e, 0) && v != ME_Vertex(e, 1)) c = coords(v); } else for (auto v : q) { P3 p = coords(v); for (int k = 0; k < 3; k++) c[k] += p[k] / q.size(); } P3 d = sub(c, a); double s = dot(d, t); for (int k = 0; k < 3; k++) d[k] -= s * t[k]; return unit(d); }
static double fangle(void *f, void *g, void *e) { return dot(perp(f, e), perp(g, e)); }
static double eangle(void *d, void *e, void *v) { auto dir = [&](void *x) { void *w = ME_Vertex(x, 0) == v ? ME_Vertex(x, 1) : ME_Vertex(x, 0); return unit(sub(coords(w), coords(v))); }; return dot(dir(d), dir(e)); }
struct UF { std::map<void *, void *> p; void *find(void *a) { while (p.count(a) && p[a] != a) a = p[a]; return a; } void join(void *a, void *b) { a = find(a); b = find(b); if (a != b) p[a] = b; } };
typedef std::map<void *, std::string> Part; // class of every entity
static void partition(const Part &want, std::map<void *, int> &id, const char *what, const std::string &name) { std::map<std::string, int> f; std::map<int, std::string> g; for (auto &x : want) { int i = id[x.first]; CK(!f.count(x.second) || f[x.second] == i, "two IDs for one model entity", "%s: %s IDs %d and %d in the same patch", name.c_str(), what, f[x.second], i); CK(!g.count(i) || g[i] == x.second, "one ID for two model entities", "%s: %s ID %d", name.c_str(), what, i); f[x.second] = i; g[i] = x.second; CK(i > 0, "ID", "%s: %s ID %d", name.c_str(), what, i); } }
static VP ef(void *e) { VP r; for (auto f : vec(ME_Faces(e))) if (MF_GEntDim(f) == 2) r.push_back(f); return r; }
static VP ve(void *v) { VP r; for (auto e : vec(MV_Edges(v))) if (ME_GEntDim(e) == 1) r.push_back(e); return r; }
static VI gids(const VP &q) { VI r; for (auto e : q) r.push_back(MEnt_GEntID(e)); std::sort(r.begin(), r.end()); return r; }
static void verify_classfn(Mesh_ptr m, int dim, int geo, Part fclass, const std::string &name) {
  std::map<void *, std::pair<int, int>> junk; Part FW; std::map<void *, int> FI, EI; VP F = all_f(m), E = all_e(m), V = all_v(m); UF U;
  for (auto f : F) { VP r = vec(MF_Regions(f)); if (dim == 3) { if (r.size() == 2 && MR_GEntID(r[0]) == MR_GEntID(r[1])) { CK(MF_GEntDim(f) == 3 && MF_GEntID(f) == MR_GEntID(r[0]), "interior face", "%s: face %d on %d/%d", name.c_str(), MF_ID(f), MF_GEntDim(f), MF_GEntID(f)); continue; } VI k = gids(r); fclass[f] = str(k); } CK(MF_GEntDim(f) == 2, "boundary face", "%s: face %d on %d", name.c_str(), MF_ID(f), MF_GEntDim(f)); FI[f] = MF_GEntID(f); }
  std::set<void *> sharpe, sharpv;
  if (geo) for (auto e : E) { VP q = ef(e); if (q.size() == 2 && fclass[q[0]] == fclass[q[1]]) { if (smooth(fangle(q[0], q[1], e))) U.join(q[0], q[1]); else sharpe.insert(e); } }
  for (auto f : F) if (FI.count(f)) FW[f] = fclass[f] + (geo ? fmt("/%p", U.find(f)) : ""); if (ambiguous) return; partition(FW, FI, "face", name);
  Part eclass, EW; UF W;
  for (auto e : E) { VP q = ef(e), all = vec(ME_Faces(e)); int d = q.empty() && all.size() ? 3 : q.size() == 2 && MF_GEntID(q[0]) == MF_GEntID(q[1]) && !sharpe.count(e) ? 2 : 1; CK(ME_GEntDim(e) == d, "kind of model entity of an edge", "%s: edge %d has %d instead of %d", name.c_str(), ME_ID(e), ME_GEntDim(e), d);
    if (d > 1) { int want = MF_GEntID(d == 2 ? q[0] : all[0]); CK(ME_GEntID(e) == want, "model entity of an edge", "%s: edge %d has %d instead of %d", name.c_str(), ME_ID(e), ME_GEntID(e), want); continue; } eclass[e] = str(gids(q)); EI[e] = ME_GEntID(e); }
  if (geo) for (auto v : V) { VP q = ve(v); if (q.size() == 2 && eclass[q[0]] == eclass[q[1]]) { if (smooth(eangle(q[0], q[1], v))) W.join(q[0], q[1]); else sharpv.insert(v); } }
  for (auto &x : eclass) EW[x.first] = x.second + (geo ? fmt("/%p", W.find(x.first)) : ""); if (ambiguous) return; partition(EW, EI, "edge", name);
  std::map<int, VI> used; std::map<int, int> nu; std::set<int> alone;
  for (auto v : V) { VP q = ve(v), all = vec(MV_Edges(v)); std::set<int> fi; for (auto e : all) if (ME_GEntDim(e) == 2) fi.insert(ME_GEntID(e)); int d = all.empty() ? 0 : q.empty() ? fi.size() > 1 ? 0 : fi.size() ? 2 : 3 : q.size() == 2 && ME_GEntID(q[0]) == ME_GEntID(q[1]) && !sharpv.count(v) ? 1 : 0;
    CK(MV_GEntDim(v) == d, "kind of model entity of a vertex", "%s: vertex %d has %d instead of %d", name.c_str(), MV_ID(v), MV_GEntDim(v), d); int g = MV_GEntID(v);
    if (d) { int want = d == 1 ? ME_GEntID(q[0]) : d == 2 ? *fi.begin() : ME_GEntID(all[0]); CK(g == want, "model entity of a vertex", "%s: vertex %d has %d instead of %d", name.c_str(), MV_ID(v), g, want); continue; }
    CK(g > 0, "ID", "%s: vertex %d", name.c_str(), MV_ID(v)); VI k = gids(q); bool own = q.empty() || (q.size() == 2 && k[0] == k[1]); if (used.count(g)) CK(!own && !alone.count(g) && used[g] == k, "one model vertex for two corners", "%s: vertex %d shares ID %d", name.c_str(), MV_ID(v), g); used[g] = k; if (own) alone.insert(g); }
}
static void run() {
  Spec s = A->spec(thorough ? 5 : 4); if (!A->mask) return; int n = s.cells.size(), dim = s.dim; bool big = !thorough && n > 2; How hw = big ? How{(A->mask & 1) ? F4 : F1, 1, (A->mask >> 1) & 1} : pick_how(2); int mp = pick(4, "given IDs"); // 1/2, 7/3, none, 0/5
  VI mat = mp == 2 ? VI(n, 1) : pick_materials(n, 4); if (dim == 2 && mp == 3) return; // mixing given and missing IDs on a surface is left open
  int geo = pick(2, "use geometry"), bend = pick(3, "shape"), loose = big ? 0 : pick(2, "loose"); if (!geo && bend) return; M b = build(s, hw); Mesh_ptr m = b.m; static const int G[4][2] = {{1, 2}, {7, 3}, {0, 0}, {0, 5}};
  std::string name = fmt("%s rep %d how %d/%d mat %s ids %d geometry %d shape %d loose %d", s.name.c_str(), hw.rep, hw.how, hw.fl, str(mat).c_str(), mp, geo, bend, loose); VF_TRACE("%s", name.c_str());
  VP C = all_of(m, dim); Part fc; std::vector<int> want; int mx = 0; for (int i = 0; i < n; i++) mx = std::max(mx, G[mp][mat[i] - 1]); for (int i = 0; i < n; i++) { int g = G[mp][mat[i] - 1]; if (dim == 3) { MR_Set_GEntID(C[i], g); want.push_back(g ? g : mx + 1); } else { if (g) { MF_Set_GEntDim(C[i], 2); MF_Set_GEntID(C[i], g); } fc[C[i]] = fmt("given %d", g); want.push_back(g); } }
  if (bend) for (auto v : all_v(m)) { P3 p = coords(v); double x[3] = {p[0], p[1], p[2] + (bend == 1 ? 0.08 * p[0] * p[0] + 0.03 * p[1] * p[0] : 0.9 * std::abs(p[0] - 1) + 0.07 * p[1] * p[1])}; MV_Set_Coords(v, x); }
  if (loose) { VP q; for (int i = 0; i < 4; i++) { MVertex_ptr v = MV_New(m); double x[3] = {20. + i, i == 2 ? 5. : 0., 0}; MV_Set_Coords(v, x); q.push_back(v); } for (int i = 0; i < 2; i++) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, q[i]); ME_Set_Vertex(e, 1, q[i + 1]); } count("loose"); }
  H h; h.add(A->id()); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); h.add(hash_str(str(mat))); h.add(mp * 16 + geo * 8 + bend * 2 + loose); std::string al = attr_list(m); auto shape = [&]() { std::string r; for (auto v : all_v(m)) { P3 p = coords(v); r += fmt("%p %.17g %.17g %.17g;", v, p[0], p[1], p[2]); } for (auto e : all_e(m)) r += fmt("%p %p %p;", e, ME_Vertex(e, 0), ME_Vertex(e, 1)); for (auto f : all_f(m)) { r += fmt("%p:", f); for (auto v : fverts(f)) r += fmt(" %p", v); } for (auto x : all_of(m, 3)) for (auto f : vec(MR_Faces(x))) r += fmt(" %p%d", f, MR_FaceDir(x, f)); return r; }; std::string S = shape(); ambiguous = 0;
  for (int round = 0; round < 2; round++) { int ok = MESH_BuildClassfn(m, geo); step(); CK(ok == 1, "failed", "%s", name.c_str()); CK(shape() == S && attr_list(m) == al, "classifying changed the mesh", "%s", name.c_str()); for (int i = 0; i < n; i++) if (dim == 3 || !geo) if (want[i]) CK(MEnt_GEntID(C[i]) == want[i] && MEnt_GEntDim(C[i]) == dim, "ID given to an element", "%s: element %d has %d/%d instead of %d", name.c_str(), i + 1, MEnt_GEntDim(C[i]), MEnt_GEntID(C[i]), want[i]);
    if (round && geo) break; verify_classfn(m, dim, geo, fc, name + (round ? " again" : "")); if (ambiguous) break; }
  count(dim == 3 ? "3D" : "2D"); if (geo) count("geometry"); if (ambiguous) count("angle at the threshold"); MESH_Delete(m); state(h.h); if (n > 1) nontrivial(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P21"; o.run = run; return vf::main(c, v, o); }
