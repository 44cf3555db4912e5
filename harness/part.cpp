// P51 partitioning calls, P52 attributes and sets of distributed meshes, P42 every parallel operation under all message timings
#include "par.hpp"
#include "MSTK_private.h"
using namespace pm; using namespace vf;
extern "C" { int MESH_XchngEdgeFaceAttrib(Mesh_ptr, MAttrib_ptr, MPI_Comm); }
static Alpha *A; static std::string fam; static int lim, maxr, maxc, light, modes;
struct AT { MAttType t; int n; const char *nm; };
static const AT T[5] = {{INT, 1, "i"}, {DOUBLE, 1, "d"}, {VECTOR, 3, "v"}, {TENSOR, 4, "t"}, {VECTOR, 1, "u"}};
static std::string vs(const AT &t, const double *v) { std::string s; bool z = true; for (int k = 0; k < t.n; k++) z &= v[k] == 0; if (z) return "0"; for (int k = 0; k < t.n; k++) s += fmt("%.17g,", v[k]); return s; }
static void put(MEntity_ptr e, MAttrib_ptr a, const AT &t, const double *v) { double *p = NULL; if (t.t == VECTOR || t.t == TENSOR) { p = (double *)malloc(t.n * sizeof(double)); for (int k = 0; k < t.n; k++) p[k] = v[k]; } MEnt_Set_AttVal(e, a, t.t == INT ? (int)v[0] : 0, t.t == DOUBLE ? v[0] : 0.0, p); }
static std::string get(MEntity_ptr e, MAttrib_ptr a, const AT &t) { int iv = 0; double rv = 0; void *p = NULL; MEnt_Get_AttVal(e, a, &iv, &rv, &p); double v[4] = {0, 0, 0, 0}; if (t.t == INT) v[0] = iv; else if (t.t == DOUBLE) v[0] = rv; else if (p) for (int k = 0; k < t.n; k++) v[k] = ((double *)p)[k]; return vs(t, v); }
static MAttrib_ptr mk(Mesh_ptr m, const AT &t, int d, const std::string &nm) { return t.t == INT || t.t == DOUBLE ? MAttrib_New(m, nm.c_str(), t.t, (MType)d) : MAttrib_New(m, nm.c_str(), t.t, (MType)d, t.n); }
// does entity i have a value (or belong to the set) under pattern p
static bool has(int p, int i) { return p == 0 ? true : p == 1 ? i % 2 == 0 : p == 2 ? i % 3 == 1 : p == 3 ? i == 1 : false; }
static void val(const AT &t, int i, int salt, double *v) { for (int k = 0; k < t.n; k++) v[k] = i % 5 == 4 ? 0 : (i * 8 + salt + k * 1000) * (i % 2 ? -1 : 1) + (t.t == INT ? 0 : 0.25); }

static void travel() {
  Spec s = A->spec(maxc); if (!A->mask) return; int n = s.cells.size(); int k = 2 + pick(maxr - 1, "ranks"); if (k > n) return; if (n > lim && __builtin_popcount(A->mask) != (int)A->hosts[A->hi].cells.size()) return;
  VI part = pick_part(n, k, k == 2 ? lim : lim - 1); if (!all_used(part, k)) return; int ring = pick(3, "layers"); int what = pick(3, "what"); /* one attribute, one set, many of both */ int kind = what == 0 ? pick(4, "kind") : what == 1 ? pick(5, "kind") : 0, type = what == 0 ? pick(5, "type") : 0, pat = what < 2 ? pick(5, "pattern") : 0; int many = what == 2 ? pick(3, "how many") : 0; How hw{(what == 2 || thorough ? pick(2, "rep") : (type + kind + pat) % 2) ? F4 : F1, 0, 0}; int md = (ring + pat) % 2; if (!thorough && what < 2 && (ring == 2 || (pat == 0 && kind) || pat == 3 || (k > 2 && pat != 1) || (light && pat != 2))) return;
  M M0 = build(s, hw); VI mat(n); for (int i = 0; i < n; i++) mat[i] = 1 + i % 2; classify(M0.m, s.dim, mat); auto pl = places(s); VL L = vlabels(M0.m, pl); sim::answer = part;
  struct At { int d; AT t; std::string nm; int pat, salt; }; struct St { int d; std::string nm; int pat; }; std::vector<At> at; std::vector<St> st; 
  if (what == 0) at.push_back({kind, T[type], "alone", pat, 1}); else if (what == 1) st.push_back({kind == 4 ? (int)MALLTYPE : kind, "set", pat}); else { int c = many == 0 ? 1 : many == 1 ? 7 : 2; for (int q = 0; q < (many == 2 ? 1 : c); q++) for (int d = 0; d < 4; d++) for (int t = 0; t < 5; t++) if (many || (t + d) % 2) at.push_back({d, T[t], fmt("a%s%d_%d", T[t].nm, d, q), (t + d + q) % 5, q * 20 + d * 5 + t}); for (int q = 0; q < c; q++) for (int d = 0; d < 5; d++) st.push_back({d == 4 ? (int)MALLTYPE : d, fmt("s%d_%d", d, q), (d + q) % 5}); }
  std::map<VI, std::string> want; std::vector<MAttrib_ptr> ap; std::vector<MSet_ptr> sp; for (auto &a : at) ap.push_back(mk(M0.m, a.t, a.d, a.nm)); for (auto &x : st) sp.push_back(MSet_New(M0.m, x.nm.c_str(), (MType)x.d));
  MAttrib_ptr ptr = what == 2 && many == 1 ? MAttrib_New(M0.m, "pointer", POINTER, MVERTEX) : NULL; if (ptr) for (auto v : all_v(M0.m)) MEnt_Set_AttVal(v, ptr, 0, 0, v);
  int total[5] = {0, 0, 0, 0, 0}; std::map<void *, int> seq; { int q = 0; for (int d = 0; d < 4; d++) for (auto e : all_of(M0.m, d)) { seq[e] = total[d]++; (void)q; } }
  for (int d = 0; d < 4; d++) for (auto e : all_of(M0.m, d)) { int i = seq[e]; std::string w; for (size_t a = 0; a < at.size(); a++) { double v[4] = {0, 0, 0, 0}; if (at[a].d == d && has(at[a].pat, i)) { val(at[a].t, i, at[a].salt, v); put(e, ap[a], at[a].t, v); } if (at[a].d == d) w += at[a].nm + "=" + vs(at[a].t, v) + " "; } for (size_t q = 0; q < st.size(); q++) { bool in = (st[q].d == d || st[q].d == MALLTYPE) && has(st[q].pat, i); if (in) MSet_Add(sp[q], e); w += in ? "1" : "0"; } want[tag(d, parts_of(e, L))] = w; }
  VF_TRACE("%s ranks %d partition %s layers %d what %d kind %d type %d pattern %d many %d rep %d", s.name.c_str(), k, str(part).c_str(), ring, what, kind, type, pat, many, (int)hw.rep);
  auto look = [&](Mesh_ptr m, const VL &l, const char *where) { bool orig = m == M0.m; std::vector<MAttrib_ptr> a2; std::vector<MSet_ptr> s2; for (auto &a : at) { MAttrib_ptr x = MESH_AttribByName(m, a.nm.c_str()); CK(x, fmt("attribute missing %s", where).c_str(), "%s", a.nm.c_str()); CK(MAttrib_Get_Type(x) == a.t.t && MAttrib_Get_EntDim(x) == a.d && MAttrib_Get_NumComps(x) == a.t.n, fmt("attribute definition %s", where).c_str(), "%s type %d kind %d components %d", a.nm.c_str(), MAttrib_Get_Type(x), MAttrib_Get_EntDim(x), MAttrib_Get_NumComps(x)); a2.push_back(x); } for (auto &q : st) { MSet_ptr x = MESH_MSetByName(m, q.nm.c_str()); CK(x && MSet_EntDim(x) == (MType)q.d, fmt("set missing or of another type %s", where).c_str(), "%s", q.nm.c_str()); s2.push_back(x); }
    CK(MESH_Num_MSets(m) == (int)st.size(), fmt("number of sets %s", where).c_str(), "%d", MESH_Num_MSets(m)); int i = 0; MAttrib_ptr x; while ((x = MESH_Next_Attrib(m, &i))) { char nm[256]; MAttrib_Get_Name(x, nm); bool known = !strcmp(nm, "pointer") && orig; for (auto &a : at) known |= a.nm == nm; CK(known, fmt("unexpected attribute %s", where).c_str(), "%s", nm); }
    std::vector<std::set<void *>> mem; for (auto q : s2) { std::set<void *> in; int j = 0; void *e; while ((e = MSet_Next_Entry(q, &j))) CK(in.insert(e).second, fmt("entity twice in a set %s", where).c_str(), "set"); CK((int)in.size() == MSet_Num_Entries(q), "MSet_Num_Entries", "%d", MSet_Num_Entries(q)); mem.push_back(in); } size_t seen = 0, tot = 0; for (auto &q : mem) tot += q.size();
    std::string all = dump(m, l, [&](void *e, int d) { std::string w; for (size_t a = 0; a < at.size(); a++) if (at[a].d == d) w += at[a].nm + "=" + get(e, a2[a], at[a].t) + " "; for (auto &q : mem) { bool in = q.count(e); seen += in; w += in ? "1" : "0"; } return w; }); CK(seen == tot, fmt("set names entities that are not in the mesh %s", where).c_str(), "%zu of %zu", seen, tot); return all; };
  auto rep = sim::run(k, mode_of(md), [&](int) { Mesh_ptr my = distribute(M0.m, s.dim, ring, 1); VL l = vlabels(my, pl); sim::report(look(my, l, "on a rank")); MESH_Delete(my); });
  step(); Dist D = parse(rep); for (int r = 0; r < k; r++) for (auto &e : D[r].e) CK(e.x == want.at(tag(e.kind, e.v)), what == 0 ? "attribute value on a rank" : what == 1 ? "set membership on a rank" : "attribute values or sets on a rank", "rank %d kind %d %s (%s): %s, original %s", r, e.kind, str(e.v).c_str(), e.owner == r ? "owned" : "copy", e.x.c_str(), want.at(tag(e.kind, e.v)).c_str());
  Dist O = parse({look(M0.m, L, "of the distributed mesh afterwards")}); for (auto &e : O[0].e) CK(e.x == want.at(tag(e.kind, e.v)), "distributing changed the original mesh", "kind %d", e.kind);
  H h; h.add(A->id()); for (int x : part) h.add(x); h.add(ring * 1000 + what * 100 + kind * 10 + type); h.add(pat * 10 + many); h.add(k * 2 + (hw.rep == F4)); state(h.h); nontrivial(h.h); count(s.dim == 3 ? "3D" : "2D"); if (k > 2) count("three ranks"); if (ring == 2) count("two layers"); count(what == 0 ? "attribute" : what == 1 ? "set" : "many attributes and sets"); MESH_Delete(M0.m);
}

static void parting() {
  Spec s = A->spec(maxc); if (!A->mask) return; int n = s.cells.size(); int k = 1 + pick(maxr, "ranks"); int method = pick(3, "method"); if (n > lim && __builtin_popcount(A->mask) != (int)A->hosts[A->hi].cells.size() && !thorough) return;
  VI part = pick_part(n, k, k == 2 ? lim + 2 : lim); How hw{pick(2, "rep") ? F4 : F1, 0, 0}; bool all = method && k > 1 && pick(2, "objects listed"); int lift = s.dim == 2 && method == 2 ? pick(2, "lifted") : 0;
  bool columns = s.dim == 3 && method == 2; if (columns) for (auto &c : s.cells) if (c.v.size() != 8) return; // columns of hexes only
  if (lift) for (auto &x : s.xyz) x[2] += 1 + x[0];
  M M0 = build(s, hw); auto pl = places(s); VL L = vlabels(M0.m, pl); sim::answer = part; sim::zoltan_all = all; sim::graph = sim::Graph();
  VF_TRACE("%s ranks %d method %d answer %s rep %d all %d lifted %d", s.name.c_str(), k, method, str(part).c_str(), (int)hw.rep, (int)all, lift);
  std::string before = dump(M0.m, L);
  auto rep = sim::run(k, mode_of((method + k) % 2), [&](int r) { int *p = NULL; int ok = MESH_Get_Partitioning(r ? NULL : M0.m, method, &p, MPI_COMM_WORLD); CK(ok == 1, "MESH_Get_Partitioning", "returned %d", ok); if (r == 0) { CK(p, "no partition on rank 0", "method %d", method); for (int i = 0; i < n; i++) sim::report(fmt("%d ", p[i])); auto &g = sim::graph; sim::report(fmt("-1 %d %d %zu ", (int)g.seen, g.ndim, g.xadj.size())); for (int x : g.xadj) sim::report(fmt("%d ", x)); sim::report(fmt("%zu ", g.adj.size())); for (int x : g.adj) sim::report(fmt("%d ", x)); sim::report(fmt("%zu ", g.geom.size())); for (double x : g.geom) sim::report(fmt("%.17g ", x)); } if (p) free(p); });
  step(); VI got; sim::Graph G; { std::istringstream in(rep[0]); int x; while (in >> x && x != -1) got.push_back(x); size_t q; in >> x; G.seen = x; in >> G.ndim >> q; G.xadj.resize(q); for (auto &y : G.xadj) in >> y; in >> q; G.adj.resize(q); for (auto &y : G.adj) in >> y; in >> q; G.geom.resize(q); for (auto &y : G.geom) in >> y; CK(!in.fail(), "report", "%s", rep[0].c_str()); } CK((int)got.size() == n, "number of elements in the partition", "%zu", got.size()); for (int x : got) CK(x >= 0 && x < k, "rank of an element out of range", "%d of %d", x, k); CK(dump(M0.m, L) == before, "partitioning changed the mesh", "method %d", method);
  VP el = all_of(M0.m, s.dim); std::map<void *, int> ix; for (int i = 0; i < n; i++) ix[el[i]] = i; std::multiset<std::pair<int, int>> dual; // elements sharing a side
  { std::map<VI, VI> side; for (int i = 0; i < n; i++) for (auto x : s.dim == 3 ? vec(MR_Faces(el[i])) : vec(MF_Edges(el[i], 1, 0))) side[parts_of(x, L)].push_back(i); for (auto &x : side) for (int a : x.second) for (int b : x.second) if (a != b) dual.insert({a, b}); }
  if (k == 1) { for (int x : got) CK(x == 0, "partition onto one rank", "%d", x); }
  else if (!columns) for (int i = 0; i < n; i++) CK(got[i] == part[i], "rank of an element is not the partitioner's answer", "element %d: %d, answer %d", i, got[i], part[i]);
  else { // columns: elements above one another share the horizontal side
    VI up(n); for (int i = 0; i < n; i++) up[i] = i; std::function<int(int)> f = [&](int i) { return up[i] == i ? i : up[i] = f(up[i]); }; for (auto &d : dual) { auto cz = [&](int i) { double c[3] = {0, 0, 0}; VP vv = vec(MR_Vertices(el[i])); for (auto v : vv) { P3 x = coords(v); for (int q = 0; q < 3; q++) c[q] += x[q] / vv.size(); } return P3{c[0], c[1], c[2]}; }; P3 a = cz(d.first), b = cz(d.second); if (fabs(a[0] - b[0]) < 1e-9 && fabs(a[1] - b[1]) < 1e-9) up[f(d.first)] = f(d.second); }
    std::map<int, std::set<int>> rk, in; for (int i = 0; i < n; i++) { rk[f(i)].insert(got[i]); in[f(i)].insert(part[i]); } for (auto &c : rk) { CK(c.second.size() == 1, "elements of one column on different ranks", "%zu ranks", c.second.size()); CK(in[c.first].count(*c.second.begin()), "column moved to a rank none of its elements was on", "rank %d", *c.second.begin()); } count("columns"); }
  if (k > 1) { auto &g = G; CK(g.seen, "partitioner not called", "method %d", method); if (method < 2) { CK((int)g.xadj.size() == n + 1 && g.xadj[n] == (int)g.adj.size(), "graph given to the partitioner", "%zu offsets", g.xadj.size()); std::multiset<std::pair<int, int>> gg; for (int i = 0; i < n; i++) for (int q = g.xadj[i]; q < g.xadj[i + 1]; q++) gg.insert({i, g.adj[q]}); CK(gg == dual, "graph given to the partitioner is not the element graph", "method %d: %zu links, expected %zu", method, gg.size(), dual.size()); count(method ? "Zoltan graph" : "METIS"); }
    else { int nd = g.ndim; CK(nd >= 1 && (int)g.geom.size() == n * nd, "centres given to the partitioner", "%d dimensions", nd); CK(nd == (s.dim == 3 || lift || [&] { for (auto &x : s.xyz) if (x[2] != 0) return true; return false; }() ? 2 : 1), "dimensions given to the partitioner", "%d", nd); for (int i = 0; i < n; i++) { VP vv = s.dim == 3 ? vec(MR_Vertices(el[i])) : fverts(el[i]); for (int q = 0; q < nd; q++) { double c = 0; for (auto v : vv) c += coords(v)[q] / vv.size(); CK(fabs(c - g.geom[i * nd + q]) < 1e-9, "centre of an element given to the partitioner", "element %d", i); } } count("coordinates"); } }
  H h; h.add(A->id()); for (int x : part) h.add(x); h.add(method * 100 + k); h.add(hw.rep * 4 + all * 2 + lift); state(h.h); if (k > 1) nontrivial(h.h); count(s.dim == 3 ? "3D" : "2D"); MESH_Delete(M0.m);
}

// every operation once under the default timing, then under every timing that deviates from it in at most devbound places
static std::string ops(Mesh_ptr m0, const Spec &s, int op, int ring, int r, int k, const std::map<P3, int> &pl, const VI &part, const Whole &w) {
  VerifyOpt vo; vo.pairs = false; (void)r;
  if (op == 8) { Spec q; q.name = s.name; q.dim = s.dim; std::map<int, int> m; auto nm = [&](int v) { auto i = m.emplace(v, (int)m.size()); if (i.second) q.xyz.push_back(s.xyz[v]); return i.first->second; }; for (size_t c = 0; c < part.size(); c++) if (part[c] == r) { Cell x = s.cells[c]; for (auto &v : x.v) v = nm(v); for (auto &f : x.faces) for (auto &v : f) v = nm(v); q.cells.push_back(x); } M my = build(q, How{F1, 0, 0}); CK(MSTK_Weave_DistributedMeshes(my.m, s.dim, ring, 0, MPI_COMM_WORLD) == 1, "MSTK_Weave_DistributedMeshes", "failed"); VL l = vlabels(my.m, pl); std::string o = dump(my.m, l); MESH_Delete(my.m); return o; }
  Mesh_ptr my = distribute(m0, s.dim, ring, op == 0); VL l = vlabels(my, pl); MAttrib_ptr a = MAttrib_New(my, "a", DOUBLE, (MType)(op == 5 ? s.dim - 1 : 0)), b = MAttrib_New(my, "b", INT, (MType)s.dim), c = MAttrib_New(my, "c", VECTOR, (MType)(op == 5 ? s.dim - 1 : 0), 2);
  for (int d = 0; d < 4; d++) for (auto e : all_of(my, d)) { double x = MEnt_GlobalID(e) * 16 + r + 1; if (d == MAttrib_Get_EntDim(a)) { MEnt_Set_AttVal(e, a, 0, x, NULL); double *p = (double *)malloc(16); p[0] = x; p[1] = -x; MEnt_Set_AttVal(e, c, 0, 0, p); } if (d == s.dim) MEnt_Set_AttVal(e, b, (int)x, 0, NULL); }
  switch (op) { case 0: break; case 1: CK(MESH_UpdateAttributes(my, MPI_COMM_WORLD) == 1, "MESH_UpdateAttributes", "failed"); break; case 2: for (auto v : all_v(my)) { double x[3]; MV_Coords(v, x); x[0] += r; MV_Set_Coords(v, x); } CK(MESH_UpdateVertexCoords(my, MPI_COMM_WORLD) == 1, "MESH_UpdateVertexCoords", "failed"); break; case 3: CK(MESH_GathScat1Attribute(my, a, ATTOP_SUM, MPI_COMM_WORLD) == 1, "MESH_GathScat1Attribute", "failed"); break; case 4: CK(MESH_GathScat1Attribute(my, c, ATTOP_MAX, MPI_COMM_WORLD) == 1, "MESH_GathScat1Attribute", "failed"); break; case 5: CK(MESH_XchngEdgeFaceAttrib(my, a, MPI_COMM_WORLD) == 1 && MESH_XchngEdgeFaceAttrib(my, c, MPI_COMM_WORLD) == 1, "MESH_XchngEdgeFaceAttrib", "failed"); break; case 6: CK(MESH_Renumber_GlobalIDs(my, MALLTYPE, 0, NULL, MPI_COMM_WORLD) == 1, "MESH_Renumber_GlobalIDs", "failed"); break; case 7: CK(MESH_Parallel_Check(my, MPI_COMM_WORLD) == 1, "MESH_Parallel_Check", "failed"); break; }
  std::string o = dump(my, l, [&](void *e, int d) { std::string w2; if (!d) { double x[3]; MV_Coords(e, x); w2 += fmt("%.17g ", x[0]); } if (d == MAttrib_Get_EntDim(a)) w2 += get(e, a, T[1]) + " " + get(e, c, AT{VECTOR, 2, "c"}); if (d == s.dim) w2 += " " + get(e, b, T[0]); if (op == 0) { MAttrib_ptr q = MESH_AttribByName(my, "q"); if (q && MAttrib_Get_EntDim(q) == d) w2 += " q" + get(e, q, T[0]); MSet_ptr t = MESH_MSetByName(my, "t"); if (t) w2 += MSet_Contains(t, e) ? " in" : " out"; } return w2; }); (void)w; MESH_Delete(my); return o;
}
static void timing() {
  Spec s = A->spec(maxc); if (!A->mask) return; int n = s.cells.size(); int k = 2 + pick(maxr - 1, "ranks"); if (k > n) return; VI part = pick_part(n, k, lim); if (!all_used(part, k)) return; int op = pick(9, "operation"), ring = pick(2, "layers"); if (op != 8 && op != 0 && !ring) return; int md = pick(modes, "timing");
  M M0 = build(s, How{F1, 0, 0}); auto pl = places(s); VL L = vlabels(M0.m, pl); Whole w = whole(M0.m, s.dim, L); sim::answer = part; if (op == 0) { MAttrib_ptr q = MAttrib_New(M0.m, "q", INT, (MType)s.dim); MSet_ptr t = MSet_New(M0.m, "t", MVERTEX); MSet_New(M0.m, "none", MFACE); for (auto e : all_of(M0.m, s.dim)) MEnt_Set_AttVal(e, q, MEnt_ID(e) + 3, 0, NULL); for (auto v : all_v(M0.m)) if (MV_ID(v) % 2) MSet_Add(t, v); }
  if (op == 8) { std::map<VI, int> up; for (auto &c : w.elem) for (auto &x : c) if (x[0] == s.dim - 1) if (++up[x] > 2) { MESH_Delete(M0.m); return; } }
  static std::map<std::string, std::vector<std::string>> ref; std::string key = fmt("%s %s %d %d %d", s.name.c_str(), str(part).c_str(), k, op, ring); auto fn = [&](int r) { sim::report(ops(M0.m, s, op, ring, r, k, pl, part, w)); };
  VF_TRACE("%s operation %d timing %d", key.c_str(), op, md);
  if (!ref.count(key)) { if (ref.size() > 2000) ref.clear(); ref[key] = sim::run(k, mode_of(0), fn); }
  sim::Mode m = mode_of(md); m.explore = true; auto rep = sim::run(k, m, fn); step(); auto &want = ref[key]; for (int r = 0; r < k; r++) CK(rep[r] == want[r], "result depends on the timing of messages", "operation %d rank %d", op, r);
  H h; h.add(A->id()); for (int x : part) h.add(x); h.add(op * 10 + ring); h.add(k * 4 + md); state(h.h); nontrivial(h.h); static const char *nm[] = {"distribution", "attribute update", "coordinate update", "gather-scatter", "gather-scatter", "exchange", "renumbering", "check", "weaving"}; count(nm[op]); count(s.dim == 3 ? "3D" : "2D"); if (k > 2) count("three ranks"); MESH_Delete(M0.m);
}
static void run() { if (fam == "travel") travel(); else if (fam == "time") timing(); else parting(); }
int main(int c, char **v) { static Options o; o.property = "P51"; int dev = 0, th = 0; for (int i = 1; i < c; i++) { if (!strncmp(v[i], "--dev=", 6)) dev = atoi(v[i] + 6); if (!strcmp(v[i], "--tier=thorough")) th = 1; } o.devbound = dev + (th && dev); o.run = [] { static bool init = false; if (!init) { init = true; light = atoi(arg("light", "0").c_str()); modes = atoi(arg("modes", "4").c_str()); fam = arg("fam", "part"); lim = atoi(arg("lim", thorough ? "6" : "4").c_str()); maxc = atoi(arg("cells", "99").c_str()); maxr = atoi(arg("ranks", thorough ? "4" : "3").c_str()); } run(); };
  A = new Alpha(std::vector<Spec>{host_quad(2, 2), host_mix2(), host_surf(), host_kuhn(), host_hex(2, 2, 1), host_hex(2, 1, 2), host_hex(1, 1, 3), host_mix3()}); return vf::main(c, v, o); }
