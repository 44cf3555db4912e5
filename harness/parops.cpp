// P43 attribute update, P44 coordinate update, P45 gather-scatter, P46 pairwise exchange on distributed meshes
#include "par.hpp"
using namespace pm; using namespace vf;
extern "C" { int MESH_XchngEdgeFaceAttrib(Mesh_ptr, MAttrib_ptr, MPI_Comm); }
static Alpha *A; static std::string fam; static int lim, maxr, minr, maxc;
struct AT { MAttType t; int n; const char *nm; };
static const AT T[5] = {{INT, 1, "i"}, {DOUBLE, 1, "d"}, {VECTOR, 3, "v"}, {TENSOR, 4, "t"}, {VECTOR, 1, "u"}};
static double base(int idx, int rank, int comp, int neg) { double x = idx * 8 + rank + 1 + comp * 1000; return neg ? (neg == 1 ? -x : (idx + rank + comp) % 2 ? -x : x) : x; }
// state of a copy: 0 no value, 1 zero, 2 value
static int state_of(int pat, int idx, bool owner, int rank) { if (pat < 6) return owner ? pat % 3 : (pat / 3) * 2; if (pat == 6) return owner ? idx % 3 : (idx + rank) % 3; return 2; }
static std::vector<double> value(const AT &t, int pat, int idx, bool owner, int rank) { std::vector<double> v(t.n, 0); if (state_of(pat, idx, owner, rank) == 2) for (int k = 0; k < t.n; k++) v[k] = base(idx, rank, k, pat == 7 ? 1 : pat == 8 ? 2 : 0) + (t.t == INT ? 0 : 0.25); return v; }
static void put(MEntity_ptr e, MAttrib_ptr a, const AT &t, const std::vector<double> &v) { double *p = NULL; if (t.t == VECTOR || t.t == TENSOR) { p = (double *)malloc(t.n * sizeof(double)); for (int k = 0; k < t.n; k++) p[k] = v[k]; } MEnt_Set_AttVal(e, a, t.t == INT ? (int)v[0] : 0, t.t == DOUBLE ? v[0] : 0.0, p); }
static std::vector<double> get(MEntity_ptr e, MAttrib_ptr a, const AT &t) { int iv = 0; double rv = 0; void *p = NULL; MEnt_Get_AttVal(e, a, &iv, &rv, &p); std::vector<double> v(t.n, 0); if (t.t == INT) v[0] = iv; else if (t.t == DOUBLE) v[0] = rv; else if (p) for (int k = 0; k < t.n; k++) v[k] = ((double *)p)[k]; return v; }
static std::string vs(const std::vector<double> &v) { std::string s; for (double x : v) s += fmt("%.17g,", x + 0.0); return s; }
static std::vector<std::string> words(const std::string &s) { std::vector<std::string> r; std::istringstream i(s); std::string w; while (i >> w) r.push_back(w); return r; }
static void run() {
  Spec s = A->spec(maxc); if (!A->mask) return; int n = s.cells.size(); int k = 2 + pick(maxr - 1, "ranks"); if (k > n || k < minr) return; if (n > lim && __builtin_popcount(A->mask) != (int)A->hosts[A->hi].cells.size()) return;
  VI part = pick_part(n, k, k == 2 ? lim : lim - 1); if (!all_used(part, k)) return; int ring = pick(3, "layers"); How hw{n % 2 ? F1 : F4, 0, 0};
  int one = -1, pat = 0, op = 0, md = 0; if (fam == "coord") { pat = pick(4, "moved"); md = pick(2, "timing"); } else { pat = pick(9, "values"); if (fam == "upd") one = pick(2, "single") ? pick(20, "attribute") : -1; else if (fam == "gs") op = pick(4, "operation"); md = (pat + ring) % 2; if (one >= 0 && ((pat != 3 && pat != 6) || (!thorough && (ring != 1 || one / 5 != (one + n) % 4)))) return; if (fam == "gs" && !thorough && (n > 2 || ring == 2) && op != pat % 4) return; }
  M M0 = build(s, hw); auto pl = places(s); VL L = vlabels(M0.m, pl); Whole w = whole(M0.m, s.dim, L); std::map<VI, int> idx; for (auto &x : w.cls) { int i = idx.size(); idx[x.first] = i; } sim::answer = part;
  std::map<VI, std::set<int>> users; for (size_t c = 0; c < part.size(); c++) for (auto &x : w.elem[c]) users[x].insert(part[c]); int ed = s.dim - 1;
  VF_TRACE("%s ranks %d partition %s layers %d values %d op %d single %d timing %d", s.name.c_str(), k, str(part).c_str(), ring, pat, op, one, md);
  auto rep = sim::run(k, mode_of(md), [&](int r) {
    Mesh_ptr my = distribute(M0.m, s.dim, ring, 0); VL l = vlabels(my, pl);
    if (fam == "coord") { for (auto v : all_v(my)) { bool own = MV_PType(v) != PGHOST; int i = l[v]; bool mv = pat == 0 ? own : pat == 1 ? !own : pat == 2 ? true : (i + r) % 2; if (mv) { double x[3]; MV_Coords(v, x); x[0] += (r + 1) * .125; x[1] -= (i + 1) * .25 + r; x[2] += 1; MV_Set_Coords(v, x); } }
      int ok = MESH_UpdateVertexCoords(my, MPI_COMM_WORLD); CK(ok == 1, "MESH_UpdateVertexCoords", "%d", ok); sim::report(dump(my, l, [&](void *e, int d) { if (d) return std::string(); double x[3]; MV_Coords(e, x); return fmt("%.17g,%.17g,%.17g", x[0], x[1], x[2]); })); return; }
    std::vector<MAttrib_ptr> at(20); for (int d = 0; d < 4; d++) for (int t = 0; t < 5; t++) { char nm[16]; sprintf(nm, "a%s%d", T[t].nm, d); at[d * 5 + t] = t < 2 ? MAttrib_New(my, nm, T[t].t, (MType)d) : MAttrib_New(my, nm, T[t].t, (MType)d, T[t].n); for (auto e : all_of(my, d)) { int i = idx.at(tag(d, parts_of(e, l))); bool own = MEnt_PType(e) != PGHOST; if (state_of(pat, i, own, r)) put(e, at[d * 5 + t], T[t], value(T[t], pat, i, own, r)); } }
    MAttrib_ptr pt = MAttrib_New(my, "ptr", POINTER, MVERTEX), all = MAttrib_New(my, "all", INT, MALLTYPE); for (int d = 0; d < 4; d++) for (auto e : all_of(my, d)) { if (!d) MEnt_Set_AttVal(e, pt, 0, 0, e); MEnt_Set_AttVal(e, all, r + 1, 0, NULL); }
    if (fam == "upd") { int ok = one < 0 ? MESH_UpdateAttributes(my, MPI_COMM_WORLD) : MESH_Update1Attribute(my, at[one], MPI_COMM_WORLD); CK(ok == 1, "update", "returned %d", ok); }
    else if (fam == "gs") { for (int a = 0; a < 20; a++) { if (T[a % 5].t == INT && op == 3) continue; int ok = MESH_GathScat1Attribute(my, at[a], op == 0 ? ATTOP_SUM : op == 1 ? ATTOP_MAX : op == 2 ? ATTOP_MIN : ATTOP_AVG, MPI_COMM_WORLD); CK(ok == 1, "MESH_GathScat1Attribute", "returned %d", ok); } }
    else for (int t = 0; t < 5; t++) { int ok = MESH_XchngEdgeFaceAttrib(my, at[ed * 5 + t], MPI_COMM_WORLD); CK(ok == 1, "MESH_XchngEdgeFaceAttrib", "returned %d", ok); }
    sim::report(dump(my, l, [&](void *e, int d) { std::string o; for (int t = 0; t < 5; t++) o += vs(get(e, at[d * 5 + t], T[t])) + " "; int iv = 0; double rv; void *p = NULL; if (!d) { MEnt_Get_AttVal(e, pt, &iv, &rv, &p); CK(p == e, "other attribute changed", "pointer"); } MEnt_Get_AttVal(e, all, &iv, &rv, &p); CK(iv == r + 1, "other attribute changed", "attribute of all types"); return o; }));
  });
  step(); Dist D = parse(rep); check_identity(D); long copies = 0;
  for (int r = 0; r < k; r++) for (auto &e : D[r].e) { VI t = tag(e.kind, e.v); int i = idx.at(t), o = e.owner; bool own = o == r; copies += !own;
      if (fam == "coord") { if (e.kind) continue; int i0 = e.v[0]; P3 x = s.xyz[i0]; bool mv = pat == 0 ? true : pat == 1 ? false : pat == 2 ? true : (i0 + o) % 2; if (mv) { x[0] += (o + 1) * .125; x[1] -= (i0 + 1) * .25 + o; x[2] += 1; } std::string want = fmt("%.17g,%.17g,%.17g", x[0], x[1], x[2]); CK(e.x == want, own ? "owner's coordinates changed" : "copy does not have its owner's coordinates", "rank %d vertex %d: %s, owner %d has %s", r, i0, e.x.c_str(), o, want.c_str()); continue; }
      auto got = words(e.x); for (int a = 0; a < 5; a++) { std::string want, key;
        auto val = [&](int rr) { return value(T[a], pat, i, rr == o, rr); }; std::vector<int> cp; for (int rr = 0; rr < k; rr++) if (D[rr].find(e.kind, e.v)) cp.push_back(rr);
        if (fam == "upd") { bool up = one < 0 || one == e.kind * 5 + a; want = vs(val(up ? o : r)); key = !up ? "other attribute changed" : own ? "owner's value changed" : "copy does not have its owner's value"; }
        else if (fam == "gs") { key = "value after gather-scatter"; std::vector<double> v = val(cp[0]); auto nm = [](const std::vector<double> &x) { double q = 0; for (double y : x) q += y * y; return q; }; bool vec = T[a].t == VECTOR || T[a].t == TENSOR;
          for (size_t c = 1; c < cp.size(); c++) { auto x = val(cp[c]); for (int q = 0; q < T[a].n; q++) if (op == 0 || op == 3) v[q] += x[q]; if (op == 1 || op == 2) { if (vec ? (op == 1 ? nm(x) > nm(v) : nm(x) < nm(v)) : (op == 1 ? x[0] > v[0] : x[0] < v[0])) v = x; } } if (op == 3 && T[a].t != INT) for (auto &q : v) q /= cp.size(); want = vs(op == 3 && T[a].t == INT ? val(r) : v); }
        else { key = "value after the exchange"; auto &u = users[t]; if (e.kind != ed) want = vs(val(r)); else { if (u.size() > 2) continue; int other = u.size() == 2 && u.count(r) ? (*u.begin() == r ? *u.rbegin() : *u.begin()) : o; want = vs(val(other)); } }
        CK(got[a] == want, fmt("%s: %s", key.c_str(), T[a].t == INT ? "int" : T[a].t == DOUBLE ? "double" : T[a].n == 1 ? "vector of one" : "vector or tensor").c_str(), "rank %d (owner %d, %zu copies) kind %d %s: has %s expected %s", r, o, cp.size(), e.kind, str(e.v).c_str(), got[a].c_str(), want.c_str()); } }
  H h; h.add(A->id()); for (int x : part) h.add(x); h.add(ring * 100 + pat); h.add(k); h.add(op * 100 + one + 1); state(h.h); if (copies) nontrivial(h.h); count(s.dim == 3 ? "3D" : "2D"); if (k > 2) count("three ranks"); if (ring == 2) count("two layers"); MESH_Delete(M0.m);
}
int main(int c, char **v) { static Options o; o.property = "P43"; o.run = [] { static bool init = false; if (!init) { init = true; fam = arg("fam", "upd"); minr = atoi(arg("minr", "2").c_str()); lim = atoi(arg("lim", thorough ? "6" : "4").c_str()); maxc = atoi(arg("cells", "99").c_str()); maxr = atoi(arg("ranks", thorough ? "4" : "3").c_str()); } run(); };
  A = new Alpha(std::vector<Spec>{host_quad(2, 2), host_mix2(), host_surf(), host_kuhn(), host_hex(2, 2, 1), host_mix3()}); return vf::main(c, v, o); }
