// P08: attributes are per-entity maps, isolated from each other and from mesh changes
#include "mesh.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace mm; using namespace vf;
struct A { MAttrib_ptr a; std::string name; MAttType t; MType dim; int nc; };
struct Val { int i; double d; void *p; std::vector<double> v; };
static const MAttType TY[5] = {INT, DOUBLE, POINTER, VECTOR, TENSOR};
static const MType DM[5] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE};
static int cell_x[4];
struct W {
  Mesh_ptr m; std::vector<A> at; std::vector<void *> ent; std::vector<MType> dim; std::vector<int> st; // 0 live 1 detached 2 gone
  std::map<std::pair<void *, int>, Val> val; // (attribute, entity) -> value
};
static bool takes(const A &a, MType d) { return a.dim == MALLTYPE || a.dim == d; }
static void check(W &w, const char *op) {
  std::string K = std::string("after ") + op; step();
  CK(MESH_Num_Attribs(w.m) == (int)w.at.size(), (K + ": MESH_Num_Attribs").c_str(), "%d of %zu", MESH_Num_Attribs(w.m), w.at.size());
  int idx = 0; for (size_t k = 0; k < w.at.size(); k++) { A &a = w.at[k]; char nm[300];
    CK(MESH_Attrib(w.m, k) == a.a, (K + ": MESH_Attrib").c_str(), "%zu", k); CK(MESH_Next_Attrib(w.m, &idx) == a.a, (K + ": MESH_Next_Attrib").c_str(), "%zu", k);
    CK(MESH_AttribByName(w.m, a.name.c_str()) == a.a, (K + ": MESH_AttribByName").c_str(), "%s", a.name.c_str());
    CK(a.name == MAttrib_Get_Name(a.a, nm) && MAttrib_Get_Type(a.a) == a.t && MAttrib_Get_EntDim(a.a) == a.dim && MAttrib_Get_NumComps(a.a) == a.nc, (K + ": attribute definition").c_str(), "%s: %s type %d dim %d comps %d", a.name.c_str(), nm, MAttrib_Get_Type(a.a), MAttrib_Get_EntDim(a.a), MAttrib_Get_NumComps(a.a)); }
  CK(!MESH_Next_Attrib(w.m, &idx), (K + ": MESH_Next_Attrib past the end").c_str(), "x");
  static const char *NM[] = {"a", "ab", "b", "stress", "A"};
  for (auto n : NM) { bool live = false; for (auto &a : w.at) if (a.name == n) live = true; if (!live) CK(!MESH_AttribByName(w.m, n), (K + ": MESH_AttribByName finds a deleted attribute").c_str(), "%s", n); }
  for (size_t e = 0; e < w.ent.size(); e++) if (w.st[e] != 2) for (auto &a : w.at) {
    int i = -5; double d = -5; void *p = &i; int r = MEnt_Get_AttVal(w.ent[e], a.a, &i, &d, &p);
    auto it = w.val.find({a.a, (int)e}); std::string Q = K + ": value"; const char *q = Q.c_str();
    if (it == w.val.end()) { CK(r == 0 && i == 0 && d == 0 && p == NULL, q, "attribute %s entity %zu: unset, got status %d %d %g %p", a.name.c_str(), e, r, i, d, p); continue; }
    Val &v = it->second; CK(r == 1, q, "attribute %s entity %zu: value lost", a.name.c_str(), e);
    switch (a.t) {
    case INT: CK(i == v.i && MEnt_Get_IntAttVal(w.ent[e], a.a) == v.i, q, "%s on %zu: %d expected %d", a.name.c_str(), e, i, v.i); break;
    case DOUBLE: CK(d == v.d && MEnt_Get_DblAttVal(w.ent[e], a.a) == v.d, q, "%s on %zu: %g expected %g", a.name.c_str(), e, d, v.d); break;
    case POINTER: CK(p == v.p && MEnt_Get_PtrAttVal(w.ent[e], a.a) == v.p, q, "%s on %zu: %p expected %p", a.name.c_str(), e, p, v.p); break;
    default: { void *g = a.t == VECTOR ? (void *)MEnt_Get_VecAttVal(w.ent[e], a.a) : (void *)MEnt_Get_TnsrAttVal(w.ent[e], a.a); CK(g == p, q, "%s on %zu: typed query differs", a.name.c_str(), e);
      if (v.v.empty()) { if (p) for (int k = 0; k < a.nc; k++) CK(((double *)p)[k] == 0, q, "%s on %zu: not cleared", a.name.c_str(), e); }
      else { CK(p, q, "%s on %zu: no value", a.name.c_str(), e); for (int k = 0; k < a.nc; k++) CK(((double *)p)[k] == v.v[k], q, "%s on %zu component %d: %g expected %g", a.name.c_str(), e, k, ((double *)p)[k], v.v[k]); } } }
  }
}
static A mk(W &w, const char *n, int ty, int dm) { A a; a.name = n; a.t = TY[ty]; a.dim = DM[dm]; a.nc = 1; if (a.t == VECTOR) a.nc = 2 + (dm & 1); if (a.t == TENSOR) a.nc = 4;
  a.a = a.nc == 1 ? MAttrib_New(w.m, n, a.t, a.dim) : MAttrib_New(w.m, n, a.t, a.dim, a.nc); w.at.push_back(a); return a; }
static void set(W &w, A &a, int e, int k, bool typed) {
  Val v{0, 0, 0, {}}; void *x = w.ent[e];
  switch (a.t) {
  case INT: v.i = k == 0 ? 0 : k == 1 ? -7 : 2147483647; typed ? MEnt_Set_IntAttVal(x, a.a, v.i) : MEnt_Set_AttVal(x, a.a, v.i, 9.5, NULL); break;
  case DOUBLE: v.d = k == 0 ? 0.25 : k == 1 ? -1e300 : 5e-324; typed ? MEnt_Set_DblAttVal(x, a.a, v.d) : MEnt_Set_AttVal(x, a.a, 3, v.d, NULL); break;
  case POINTER: v.p = k == 0 ? NULL : &cell_x[k]; typed ? MEnt_Set_PtrAttVal(x, a.a, v.p) : MEnt_Set_AttVal(x, a.a, 3, 1.5, v.p); break;
  default: { for (int j = 0; j < a.nc; j++) v.v.push_back(k * 10 + j + .5); std::vector<double> b = v.v; if (!typed) MEnt_Set_AttVal(x, a.a, 3, 1.5, b.data()); else if (a.t == VECTOR) MEnt_Set_VecAttVal(x, a.a, b.data()); else MEnt_Set_TnsrAttVal(x, a.a, b.data()); for (auto &q : b) q = -1; } }
  w.val[{a.a, e}] = v;
}
static Spec base;
static void start(W &w, RepType rep) {
  M m = build(base, rep); w.m = m.m;
  auto add = [&](void *e, MType d) { w.ent.push_back(e); w.dim.push_back(d); w.st.push_back(0); };
  for (int d = 0; d < 4; d++) { VP q = all_of(w.m, d); add(q[0], (MType)d); add(q[1], (MType)d); }
}
static void apply_all() { // every type on every kind, next to another attribute of every type
  W w; start(w, pick(2, "rep") ? F4 : F1); int t0 = pick(5, "type"), d0 = pick(5, "kind"), t1 = pick(5, "type 2"), d1 = pick(5, "kind 2");
  mk(w, "a", t0, d0); mk(w, "ab", t1, d1); check(w, "MAttrib_New");
  for (int k = 0; k < 2; k++) for (size_t e = 0; e < w.ent.size(); e++) if (takes(w.at[k], w.dim[e])) { set(w, w.at[k], e, (e + k) % 3, (e + k) & 1); check(w, "set"); }
  int e0 = -1; for (size_t e = 0; e < w.ent.size(); e++) if (takes(w.at[0], w.dim[e])) { e0 = e; break; }
  switch (pick(4, "then")) {
  case 0: MEnt_Clear_AttVal(w.ent[e0], w.at[0].a); w.val[{w.at[0].a, e0}] = Val{0, 0, 0, {}}; check(w, "MEnt_Clear_AttVal"); count("clear"); break;
  case 1: MEnt_Rem_AttVal(w.ent[e0], w.at[0].a); w.val.erase({w.at[0].a, e0}); check(w, "MEnt_Rem_AttVal"); count("remove"); break;
  case 2: MAttrib_Clear(w.at[0].a); for (auto &x : w.val) if (x.first.first == w.at[0].a) x.second = Val{0, 0, 0, {}}; check(w, "MAttrib_Clear"); count("clear attribute"); break;
  case 3: { MAttrib_ptr a = w.at[0].a; MAttrib_Delete(a); w.at.erase(w.at.begin()); for (auto it = w.val.begin(); it != w.val.end();) it = it->first.first == a ? w.val.erase(it) : ++it; check(w, "MAttrib_Delete");
    mk(w, "a", t0, d0); check(w, "MAttrib_New again"); count("delete attribute"); break; } }
  H h; h.add(t0); h.add(d0); h.add(t1); h.add(d1); h.add(w.val.size()); state(h.h); nontrivial(h.h); MESH_Delete(w.m);
}
static void history() {
  W w; start(w, pick(2, "rep") ? F4 : F1);
  // attribute pairs (type, kind)
  static const int C[6][4] = {{0, 0, 3, 4}, {3, 3, 4, 3}, {1, 4, 2, 4}, {3, 1, 0, 1}, {2, 2, 3, 2}, {4, 4, 4, 4}};
  int c = pick(6, "config"); mk(w, "a", C[c][0], C[c][1]); mk(w, "ab", C[c][2], C[c][3]);
  // entities of interest: two of the last kind that the first attribute takes
  int e0 = -1, e1 = -1; for (int e = w.ent.size() - 1; e >= 0; e--) if (takes(w.at[0], w.dim[e]) && takes(w.at[1], w.dim[e])) { if (e1 < 0) e1 = e; else if (e0 < 0) e0 = e; }
  bool deletable = w.dim[e1] == MREGION; // regions can be deleted without deleting what they bound
  int depth = thorough ? 5 : 4, nn = 0; std::vector<int> det; H path;
  static const char *NM[] = {"b", "stress", "A"};
  for (int k = 0; k < depth; k++) {
    int na = w.at.size(), nops = 1 + 6 * na + (nn < 2) + (deletable ? 3 : 0);
    int o = pick(nops, "op"); if (o == 0) break; o--;
    if (o < 6 * na) {
      A a = w.at[o / 6];
      switch (o % 6) {
      case 0: case 1: { int e = o % 6 ? e1 : e0; if (w.st[e] == 2 || !takes(a, w.dim[e])) return; VF_TRACE("set %s on %d", a.name.c_str(), e); set(w, a, e, 1 + (k & 1), k & 1); check(w, "set"); break; }
      case 2: if (w.st[e1] == 2) return; VF_TRACE("clear %s on %d", a.name.c_str(), e1); MEnt_Clear_AttVal(w.ent[e1], a.a); if (w.val.count({a.a, e1})) w.val[{a.a, e1}] = Val{0, 0, 0, {}}; check(w, "MEnt_Clear_AttVal"); break;
      case 3: if (w.st[e1] == 2) return; VF_TRACE("remove %s on %d", a.name.c_str(), e1); MEnt_Rem_AttVal(w.ent[e1], a.a); w.val.erase({a.a, e1}); check(w, "MEnt_Rem_AttVal"); break;
      case 4: VF_TRACE("clear attribute %s", a.name.c_str()); MAttrib_Clear(a.a); for (auto &x : w.val) if (x.first.first == a.a && w.st[x.first.second] == 0) x.second = Val{0, 0, 0, {}}; check(w, "MAttrib_Clear"); break;
      case 5: {
        bool held = false; for (auto &x : w.val) if (x.first.first == a.a && w.st[x.first.second] == 1) held = true;
        if (held) return; // see held_by_detached()
        VF_TRACE("delete attribute %s", a.name.c_str());
        MAttrib_Delete(a.a); w.at.erase(w.at.begin() + o / 6); for (auto it = w.val.begin(); it != w.val.end();) it = it->first.first == a.a ? w.val.erase(it) : ++it;
        check(w, "MAttrib_Delete"); break; }
      }
    } else if ((o -= 6 * na) == 0 && nn < 2) { VF_TRACE("new attribute %s", NM[nn]); mk(w, NM[nn], (C[c][0] + nn + 1) % 5, w.dim[e1] == MREGION ? 3 : 4); nn++; check(w, "MAttrib_New"); }
    else {
      if (nn < 2) o--;
      if (o == 0) { if (w.st[e1]) return; VF_TRACE("detach"); MR_Delete(w.ent[e1], 1); w.st[e1] = 1; check(w, "detach"); count("detach"); }
      else if (o == 1) { if (w.st[e1] == 2) return; if (w.st[e1] == 1) { MR_Restore(w.ent[e1]); w.st[e1] = 0; check(w, "restore"); count("restore"); } else { VF_TRACE("destroy"); MR_Delete(w.ent[e1], 0); w.st[e1] = 2; for (auto it = w.val.begin(); it != w.val.end();) it = it->first.second == e1 ? w.val.erase(it) : ++it; check(w, "destroy"); count("destroy"); } }
      else { if (w.st[e0]) return; VF_TRACE("destroy the other"); MR_Delete(w.ent[e0], 0); w.st[e0] = 2; for (auto it = w.val.begin(); it != w.val.end();) it = it->first.second == e0 ? w.val.erase(it) : ++it; check(w, "destroy"); }
    }
  }
  H h; h.add(c); for (auto &a : w.at) h.add(a.name); for (auto &x : w.val) { for (size_t i = 0; i < w.at.size(); i++) if (w.at[i].a == x.first.first) h.add(i); h.add(x.first.second); h.add(x.second.i); h.add(x.second.v.size()); } for (int s : w.st) h.add(s); state(h.h); nontrivial(h.h);
  if (w.st[e1] == 1) { MR_Restore(w.ent[e1]); w.st[e1] = 0; check(w, "restore at the end"); }
  MESH_Delete(w.m);
}
// an attribute is deleted while a detached entity holds a value for it; the entity is then restored or destroyed
static void held_by_detached() {
  RepType rep = pick(2, "rep") ? F4 : F1; int ty = pick(5, "type"); bool destroy = pick(2, "destroy"), other = pick(2, "other");
  VF_TRACE("attribute of type %d, set, region detached, attribute deleted, region %s", ty, destroy ? "destroyed" : "restored, mesh deleted");
  step(); count("attribute held by a detached entity"); fflush(NULL); pid_t pid = fork();
  if (!pid) {
    if (!freopen("/dev/null", "w", stderr)) _exit(9);
    W w; start(w, rep); A a = mk(w, "a", ty, 3); if (other) { A b = mk(w, "ab", 0, 3); set(w, b, 6, 1, true); } set(w, w.at[0], 6, 1, true);
    MR_Delete(w.ent[6], 1); MAttrib_Delete(a.a); if (destroy) MR_Delete(w.ent[6], 0); else MR_Restore(w.ent[6]);
    MESH_Delete(w.m); _exit(0);
  }
  int st; waitpid(pid, &st, 0); CK(WIFEXITED(st) && WEXITSTATUS(st) == 0, destroy ? "attribute deleted while a detached region holds a value, region destroyed: crash" : "attribute deleted while a detached region holds a value, region restored and mesh deleted: crash", "status %x", st);
}
static void run() { switch (pick(3, "mode")) { case 0: apply_all(); break; case 1: history(); break; default: held_by_detached(); } }
int main(int c, char **v) { Spec h = host_kuhn(); orient(h); base = subset(h, 0x9); Options o; o.property = "P08"; o.run = run; return vf::main(c, v, o); }
