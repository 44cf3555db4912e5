// P11: native file format
#include "alpha.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mm; using namespace vf;
static Alpha *A;
typedef std::map<std::string, std::string> Tab;
struct Scale { double c, a; } SC[3] = {{1, 1}, {1e-9 / 3, 1e-12 / 7}, {1e11 / 3, 1e15 / 7}};
// everything of a mesh by kind and position
static Tab table(Mesh_ptr m) {
  Tab T; std::map<void *, std::string> N; for (int d = 0; d < 4; d++) { int k = 0; for (auto e : all_of(m, d)) N[e] = fmt("%d:%d", d, ++k); }
  auto nm = [&](void *e) { auto i = N.find(e); return i == N.end() ? std::string("?") : i->second; };
  for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) { std::string s = fmt("g%d/%d", MEnt_GEntDim(e), MEnt_GEntID(e));
      if (d == 0) { P3 p = coords(e); s += fmt(" %a %a %a", p[0], p[1], p[2]); } if (d == 1) s += " " + nm(ME_Vertex(e, 0)) + "," + nm(ME_Vertex(e, 1));
      if (d == 2) { for (auto v : fverts(e)) s += " " + nm(v); VP q = vec(MF_Edges(e, 1, 0)); for (size_t i = 0; i < q.size(); i++) s += " " + nm(q[i]) + (MF_EdgeDir_i(e, i) ? "+" : "-"); }
      if (d == 3) { VP q = vec(MR_Faces(e)); for (size_t i = 0; i < q.size(); i++) s += " " + nm(q[i]) + (MR_FaceDir_i(e, i) ? "+" : "-"); s += fmt(" type%d", (int)MR_ElementType(e)); }
      T[nm(e)] = s; }
  int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { MAttType t = MAttrib_Get_Type(a); if (t == POINTER) continue; char an[256]; MAttrib_Get_Name(a, an); int n = 0;
    for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) { int iv; double rv; void *pv; if (!MEnt_Get_AttVal(e, a, &iv, &rv, &pv)) continue; std::string s; if (t == INT) s = fmt("%d", iv); else if (t == DOUBLE) s = fmt("%a", rv); else for (int k = 0; k < MAttrib_Get_NumComps(a); k++) s += pv ? fmt("%a,", ((double *)pv)[k]) : "none"; T[nm(e) + "." + an] = s; n++; }
    if (n) T[std::string("att ") + an] = fmt("%d %d %d", (int)t, (int)MAttrib_Get_EntDim(a), MAttrib_Get_NumComps(a)); } // attributes that no entity uses are not written
  return T;
}
static std::string df(const Tab &a, const Tab &b) { for (auto &x : a) { auto i = b.find(x.first); if (i == b.end()) return "lost " + x.first + " = " + x.second; if (i->second != x.second) return x.first + ": " + i->second + " instead of " + x.second; } for (auto &x : b) if (!a.count(x.first)) return "extra " + x.first + " = " + x.second; return ""; }
static void decorate(Mesh_ptr m, int pat, double sc) {
  static const MAttType T[5] = {INT, DOUBLE, VECTOR, TENSOR, VECTOR}; static const MType D[5] = {MVERTEX, MEDGE, MFACE, MREGION, MALLTYPE}; static const int NC[5] = {1, 1, 2, 3, 1};
  for (int t = 0; t < 5; t++) for (int d = 0; d < 5; d++) { if ((pat == 3) && (t + d) % 3) continue; MAttrib_ptr a = t < 2 ? MAttrib_New(m, fmt("a%d_%d", t, d).c_str(), T[t], D[d]) : MAttrib_New(m, fmt("a%d_%d", t, d).c_str(), T[t], D[d], NC[t]);
      for (int k = 0; k < 4; k++) if (d == 4 || d == k) { int i = 0; for (auto e : all_of(m, k)) { i++; if (pat == 0 || (pat == 1 && (i + t) % 2)) continue; double x[3]; for (int c = 0; c < 3; c++) x[c] = ((i + t + c) % 4 == 3 ? 0 : (c == 1 ? -1 : 1) * (i + c * 0.3 + k * 100) * sc); MEnt_Set_AttVal(e, a, (i + t) % 4 == 3 ? 0 : i % 2 ? i * 7 + k : -i, x[0], t >= 2 ? x : NULL); } } }
  MAttrib_ptr p = MAttrib_New(m, "ptr", POINTER, MVERTEX); if (pat == 2) for (auto v : all_v(m)) MEnt_Set_AttVal(v, p, 0, 0., v);
}
static std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "r"); if (!p) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p))) s.append(b, n); fclose(p); return s; }
static Mesh_ptr source(std::string &name, H &h, bool &threeD) {
  int kind = pick(8, "bare, loose or alphabet"); // 0-2: vertices only, 3: vertices and edges, 4: nothing at all
  if (kind < 5) { Mesh_ptr m = MESH_New(pick(2, "rep") ? F4 : F1); int nv = kind == 4 ? 0 : kind == 3 ? 3 : kind + 1; for (int i = 0; i < nv; i++) { MVertex_ptr v = MV_New(m); double x[3] = {i * .5, -i * 1., 0}; MV_Set_Coords(v, x); MV_Set_GEntDim(v, i % 2); MV_Set_GEntID(v, i); } if (kind == 3) for (int i = 0; i < 2; i++) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, MESH_Vertex(m, i + 1)); ME_Set_Vertex(e, 1, MESH_Vertex(m, i)); ME_Set_GEntDim(e, 1); ME_Set_GEntID(e, 4); } name = fmt("bare%d rep %d", kind, MESH_RepType(m)); h.add(kind); h.add(MESH_RepType(m)); threeD = false; count(kind == 4 ? "empty mesh" : "no elements"); return m; }
  Spec s = A->spec(thorough ? 6 : 2, kind != 5); if (!A->mask) return NULL; How hw = pick_how(2); M b = build(s, hw); int n = s.cells.size(); VI mat = n < 3 ? pick_materials(n, 2) : VI{1, 2}; classify(b.m, s.dim, mat); if (kind == 5) count("loose vertices"); if (kind == 7) { VP q = all_of(b.m, s.dim); if (s.dim == 3) MR_Delete(q[0], 0); else MF_Delete(q[0], 0); count("element deleted"); }
  name = fmt("%s kind %d rep %d how %d/%d mat %s", s.name.c_str(), kind, hw.rep, hw.how, hw.fl, str(mat).c_str()); h.add(A->id()); h.add(kind); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); h.add(hash_str(str(mat))); threeD = s.dim == 3; count(threeD ? "3D" : "2D"); return b.m;
}
static void native() {
  std::string name; H h; bool td; Mesh_ptr m = source(name, h, td); if (!m) return;
  bool few = !thorough && MESH_Num_Vertices(m) > 8; int q = pick(few ? 4 : 12, "attributes and scale"), pat = q % 4, sc = few ? (q + MESH_Num_Edges(m)) % 3 : q / 4, to = pick(3, "to"), wr = thorough ? pick(3, "written as") : (to + pat) % 3; RepType R[3] = {UNKNOWN_REP, F1, F4};
  VF_TRACE("%s attributes %d scale %d written as %d read into %d", name.c_str(), pat, sc, R[wr], R[to]);
  for (auto v : all_v(m)) { P3 p = coords(v); double x[3] = {p[0] * SC[sc].c, p[1] * SC[sc].c, p[2] * SC[sc].c}; MV_Set_Coords(v, x); } decorate(m, pat, SC[sc].a);
  auto P0 = by_pointer(m); Tab T = table(m); std::string al = attr_list(m), f = scratch() + "/m.mstk"; unlink(f.c_str());
  int ok = MESH_WriteToFile(m, f.c_str(), R[wr], NULL); step(); CK(ok == 1, "writing failed", "%s", name.c_str()); CK(by_pointer(m) == P0 && attr_list(m) == al, "writing changed the mesh", "%s", name.c_str()); std::string d = df(T, table(m)); CK(d.empty(), "writing changed the mesh", "%s: %s", name.c_str(), d.c_str());
  Mesh_ptr c = MESH_New(R[to]); ok = MESH_InitFromFile(c, f.c_str(), NULL); step(); CK(ok == 1, "reading failed", "%s", name.c_str()); RepType want = to ? R[to] : wr ? R[wr] : MESH_RepType(m); CK(MESH_RepType(c) == want, "representation", "%d instead of %d", MESH_RepType(c), want);
  CK(MESH_Num_Vertices(c) == MESH_Num_Vertices(m) && MESH_Num_Edges(c) == MESH_Num_Edges(m) && MESH_Num_Faces(c) == MESH_Num_Faces(m) && MESH_Num_Regions(c) == MESH_Num_Regions(m), "counts differ", "%s", name.c_str());
  d = df(T, table(c)); CK(d.empty(), "mesh read differs from the mesh written", "%s: %s", name.c_str(), d.c_str()); VerifyOpt vo; vo.pairs = false; if (name[0] != 'b') verify(c, "read", vo);
  for (int k = 0; k < 4; k++) { int i = 0; for (auto e : all_of(c, k)) { CK(MEnt_ID(e) == ++i, "ID", "kind %d", k); CK(MEnt_Mesh(e) == c, "mesh of an entity", "kind %d", k); } }
  MVertex_ptr nv = MV_New(c); CK(MV_ID(nv) == MESH_Num_Vertices(c), "ID of a new vertex", "%d", MV_ID(nv)); MESH_Delete(c); MESH_Delete(m); unlink(f.c_str()); if (pat) count("attributes"); if (sc) count("tiny or huge values"); h.add(q); state(h.h); h.add(to * 3 + wr); nontrivial(h.h);
}
// a file cut off anywhere is refused (an error return or the fatal exit), or what it announces is all there
static void cut() {
  Spec s = A->spec(2); if (!A->mask) return; if ((int)s.cells.size() > 1 && !thorough && A->mask % 5) return; How hw = pick_how(1); M b = build(s, hw); classify(b.m, s.dim, {1, 12}); int pat = pick(2, "attributes") ? 3 : 0; if (pat) decorate(b.m, pat, 1); Tab T = table(b.m); std::string f = scratch() + "/c.mstk"; int ok = MESH_WriteToFile(b.m, f.c_str(), UNKNOWN_REP, NULL); CK(ok == 1, "writing failed", "%s", s.name.c_str()); std::string all = slurp(f); MESH_Delete(b.m);
  int n = all.size(); size_t at = all.find("attributes"); int topo = at == std::string::npos ? n : (int)at; // numbers cut short at the end stay readable, so only cuts behind white space are decisive
  int from = pick((n + 63) / 64, "part of the file") * 64, dig = 0; VF_TRACE("%s rep %d how %d attributes %d, %d bytes", s.name.c_str(), hw.rep, hw.how, pat, n);
  for (int k = from; k < std::min(n, from + 64); k++) { VF_TRACE("cut at %d", k); FILE *p = fopen(f.c_str(), "w"); fwrite(all.data(), 1, k, p); fclose(p); step();
    fflush(stdout); pid_t c = fork(); if (!c) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); Mesh_ptr m = MESH_New(UNKNOWN_REP); alarm(10); int r = MESH_InitFromFile(m, f.c_str(), NULL); if (!r) _exit(20); bool cutnum = k < n && k > 0 && !isspace(all[k - 1]) && !isspace(all[k]); Tab t = table(m); int full = 1; for (auto &x : T) { bool att = x.first.find('.') != std::string::npos || x.first.compare(0, 4, "att ") == 0; if (k >= topo && att) { if (t.count(x.first) && t[x.first] != x.second && !cutnum) full = 0; continue; } if (att) continue; if (!t.count(x.first) || (t[x.first] != x.second && !(cutnum && k < topo))) full = 0; } _exit(full ? 21 : 22); }
    int st; waitpid(c, &st, 0); bool refused = WIFEXITED(st) && (WEXITSTATUS(st) == 20 || WEXITSTATUS(st) == 255), fine = WIFEXITED(st) && WEXITSTATUS(st) == 21; CK(refused || fine, WIFEXITED(st) && WEXITSTATUS(st) == 22 ? "cut file accepted with wrong content" : "crash on a cut file", "%s: cut after %d of %d bytes, status %x, file ends '%s'", s.name.c_str(), k, n, st, all.substr(k > 40 ? k - 40 : 0, std::min(40, k)).c_str()); dig = dig * 2 + refused; count(refused ? "refused" : "complete although cut"); }
  unlink(f.c_str()); H h; h.add(A->id()); h.add(hw.rep * 8 + hw.how * 2 + (pat > 0)); h.add(from); state(h.h); nontrivial(h.h); count(at == std::string::npos ? "plain file" : "file with attributes");
}
static void run() { static std::string fam = arg("fam", "native"); if (fam == "cut") cut(); else native(); }
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P11"; o.run = run; return vf::main(c, v, o); }
