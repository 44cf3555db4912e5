// P26: FLAG X3D format
#include "alpha.hpp"
#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mm; using namespace vf;
static Alpha *A;
struct There { char old[4096]; There(const std::string &d) { if (!getcwd(old, sizeof old) || chdir(d.c_str())) fail("harness", "cannot enter the scratch directory"); } ~There() { if (chdir(old)) abort(); } };
static void clean(const char *d) { DIR *p = opendir(d); if (!p) return; while (struct dirent *e = readdir(p)) { std::string f = e->d_name; if (f.size() > 4 && (f.find(".Reg") != std::string::npos || f.find(".Bdy") != std::string::npos || f.find(".x3d") != std::string::npos)) unlink((std::string(d) + "/" + f).c_str()); } closedir(p); }
static int number(const char *d) { int n = 0; DIR *p = opendir(d); if (!p) return 0; while (struct dirent *e = readdir(p)) if (e->d_type == DT_REG) n++; closedir(p); return n; }
static std::string cyc(const VI &a) { size_t k = std::min_element(a.begin(), a.end()) - a.begin(); std::string s; for (size_t i = 0; i < a.size(); i++) s += fmt("%d ", a[(i + k) % a.size()]); return s; }
static std::string desc(void *c, std::map<void *, int> &N) { auto fv = [&](void *f, int dir) { VI a; for (auto v : vec(MF_Vertices(f, dir, 0))) a.push_back(N[v]); return cyc(a); }; if (MEnt_Dim(c) == 2) return fv(c, 1);
  std::vector<std::string> q; VP f = vec(MR_Faces(c)); for (size_t i = 0; i < f.size(); i++) q.push_back(fv(f[i], MR_FaceDir_i(c, i))); std::sort(q.begin(), q.end()); std::string s = fmt("type %d ", (int)MR_ElementType(c)); for (auto &x : q) s += x + "/ "; return s; }
static MAttrib_ptr att(Mesh_ptr m, const char *n, int d) { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { char b[256]; MAttrib_Get_Name(a, b); if (!strcmp(b, n) && (int)MAttrib_Get_EntDim(a) == d) return a; } return NULL; }
static std::vector<double> val(void *e, MAttrib_ptr a, int nc) { int iv = 0; double rv = 0; void *pv = NULL; MEnt_Get_AttVal(e, a, &iv, &rv, &pv); if (nc < 2) return {MAttrib_Get_Type(a) == INT ? (double)iv : rv}; std::vector<double> r; for (int k = 0; k < 3; k++) r.push_back(pv && k < nc ? ((double *)pv)[k] : 0); return r; }
static bool near(double a, double b, double r) { return std::abs(a - b) <= r * std::max(std::abs(a), std::abs(b)); }
static std::vector<int> members(MSet_ptr s, std::map<void *, int> &N) { std::vector<int> r; int i = 0; void *e; while ((e = MSet_Next_Entry(s, &i))) r.push_back(N[e]); std::sort(r.begin(), r.end()); return r; }
static void run() {
  int kind = pick(5, "mesh"); // plain, loose vertices, element deleted with and without what only it used, IDs permuted
  Spec s = A->spec(thorough ? 5 : 3, kind != 1); if (!A->mask) return; How hw = pick_how(2); M b = build(s, hw); Mesh_ptr m = b.m; int n = s.cells.size(), dim = s.dim; VI mat = n < 3 ? pick_materials(n, 2) : VI{5, 2, 11}; static const VI MM[3] = {{0, 1}, {3, 40}, {2, 1}}; classify(m, dim, mat);
  bool big = !thorough && (n > 1 || hw.how); int mp = big ? (MESH_Num_Faces(m) + kind) % 3 : pick(3, "material numbers"); for (auto e : all_of(m, dim)) { int g = MEnt_GEntID(e); if (n < 3) MEnt_Set_GEntID(e, MM[mp][g & 1]); else MEnt_Set_GEntID(e, g * (mp == 1 ? 7 : 1) - (mp == 2 ? 2 : 0)); }
  if (kind == 2 || kind == 3) { if (n < 2) { MESH_Delete(m); return; } VP q = all_of(m, dim); int k = pick(2, "delete") ? (int)q.size() - 1 : 0; if (dim == 3) MR_Delete(q[k], 0); else MF_Delete(q[k], 0); if (kind == 2) { if (dim == 3) for (auto f : all_f(m)) { VP r = vec(MF_Regions(f)); if (r.empty()) MF_Delete(f, 0); } for (auto e : all_e(m)) { VP r = vec(ME_Faces(e)); if (r.empty()) ME_Delete(e, 0); } } count("element deleted"); }
  if (kind == 4) { for (int d = 0; d < 4; d++) { VP q = all_of(m, d); int k = q.size(); for (int i = 0; i < k; i++) { int id = (i + 1) % k + 1; if (d == 0) MV_Set_ID(q[i], id); if (d == 1) ME_Set_ID(q[i], k - i); if (d == 2) MF_Set_ID(q[i], id); if (d == 3) MR_Set_ID(q[i], k - i); } } count("IDs permuted"); }
  int na, where, sets, to; if (big) { na = (MESH_Num_Edges(m) + kind) % 2 * 2; sets = (MESH_Num_Faces(m) + hw.rep) % 4; where = (hw.rep + hw.how + MESH_Num_Vertices(m)) % 3; to = (hw.how + hw.fl + kind) % 2; } else { na = pick(3, "attributes written"); where = pick(3, "directory"); sets = pick(4, "sets"); to = pick(2, "to"); }
  std::string name = fmt("%s kind %d rep %d how %d/%d mat %s/%d attributes %d directory %d sets %d into %d", s.name.c_str(), kind, hw.rep, hw.how, hw.fl, str(mat).c_str(), mp, na, where, sets, to); VF_TRACE("%s", name.c_str());
  H h; h.add(A->id()); h.add(kind); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); h.add(hash_str(str(mat))); h.add(((mp * 3 + na) * 3 + where) * 8 + sets * 2 + to);
  VP V = all_v(m), C = all_of(m, dim); std::map<void *, int> N, NC; for (size_t i = 0; i < V.size(); i++) N[V[i]] = i + 1; for (size_t i = 0; i < C.size(); i++) NC[C[i]] = i + 1; bool odd = false; if (dim == 3) { for (auto f : all_f(m)) { VP r = vec(MF_Regions(f)); if (r.empty()) odd = true; } } else for (auto e : all_e(m)) { VP r = vec(ME_Faces(e)); if (r.empty() || r.size() > 2) odd = true; }
  struct Q { const char *n; MAttType t; int d, nc; }; std::vector<Q> Q_ = {{"density", DOUBLE, dim, 1}, {"layer", INT, dim, 1}, {"velo", VECTOR, MVERTEX, dim}, {"five", VECTOR, MVERTEX, 5}, {"pressure", DOUBLE, MVERTEX, 1}, {"number", INT, MALLTYPE, 1}, {"flux", VECTOR, MALLTYPE, dim}, {"stress", TENSOR, dim, 4}}; std::map<std::string, MAttrib_ptr> AT;
  for (auto &q : Q_) { MAttrib_ptr a = AT[q.n] = q.nc > 1 ? MAttrib_New(m, q.n, q.t, (MType)q.d, q.nc) : MAttrib_New(m, q.n, q.t, (MType)q.d); for (int d = 0; d < 4; d++) if (q.d == MALLTYPE || q.d == d) { int i = 0; for (auto e : all_of(m, d)) { i++; if ((i + q.n[0]) % 4 == 0) continue; double x[5]; for (int k = 0; k < 5; k++) x[k] = (i % 3 ? 1e-7 : -1e9) * (i / 3.0 + k * 10); MEnt_Set_AttVal(e, a, (i % 3 ? -1 : 1) * (i * 13 + d), x[0], q.nc > 1 ? x : NULL); } } }
  if (sets) { MSet_ptr x = MSet_New(m, "edge1", MEDGE); if (MESH_Num_Edges(m)) MSet_Add(x, MESH_Edge(m, 0)); } if (sets & 1) { MSet_ptr x = MSet_New(m, "some", (MType)dim), y = MSet_New(m, "rest", (MType)dim); for (size_t i = 0; i < C.size(); i++) MSet_Add(i % 2 == (size_t)(sets > 1) ? x : y, C[i]); } if (sets & 2) { MSet_ptr x = MSet_New(m, "corners", MVERTEX); for (size_t i = V.size(); i-- > 0;) if (i % 3 != 1) MSet_Add(x, V[i]); }
  There T(scratch()); mkdir("sub", 0777); mkdir("su.b", 0777); for (auto d : {".", "sub", "su.b"}) clean(d); const char *F[3] = {"m.x3d", "sub/m.x3d", "su.b/m.x3d"}, *D[3] = {".", "sub", "su.b"}; char file[64]; strcpy(file, F[where]); { FILE *p = fopen((std::string(D[where]) + "/mm.other.Reg").c_str(), "w"); fprintf(p, "% 10d\n\n", 1); fclose(p); }
  auto P0 = by_pointer(m); std::string al = attr_list(m); const char *nm[3] = {"layer", "velo", "nosuch"}; int before = number(D[where]);
  int ok = MESH_ExportToFLAGX3D(m, file, na == 0 ? 0 : na == 1 ? -1 : 3, na == 2 ? nm : NULL, NULL, NULL); step(); CK(!strcmp(file, F[where]), "export changed the file name it was given", "%s", name.c_str()); CK(by_pointer(m) == P0 && attr_list(m) == al, "export changed the mesh", "%s: attributes %s -> %s", name.c_str(), al.c_str(), attr_list(m).c_str());
  bool want = !odd && C.size(); CK(ok == want, "export result", "%s: %d", name.c_str(), ok); if (!want) { CK(number(D[where]) == before, "refused export left a file", "%s", name.c_str()); count("refused"); state(h.h); MESH_Delete(m); return; }
  Mesh_ptr c = MESH_New(to ? F4 : F1); ok = MESH_ImportFromFLAGX3D(c, file, NULL, NULL); step(); CK(ok == 1, "import failed", "%s", name.c_str()); VP W = all_v(c), E = all_of(c, dim); CK(W.size() == V.size() && E.size() == C.size(), "counts", "%s: %zu vertices, %zu cells instead of %zu, %zu", name.c_str(), W.size(), E.size(), V.size(), C.size());
  CK(MESH_Num_Edges(c) == MESH_Num_Edges(m) && MESH_Num_Faces(c) == MESH_Num_Faces(m) && MESH_Num_Regions(c) == MESH_Num_Regions(m), "counts", "%s: %d %d %d instead of %d %d %d", name.c_str(), MESH_Num_Edges(c), MESH_Num_Faces(c), MESH_Num_Regions(c), MESH_Num_Edges(m), MESH_Num_Faces(m), MESH_Num_Regions(m));
  std::map<void *, int> K, KC; for (size_t i = 0; i < W.size(); i++) { K[W[i]] = i + 1; P3 p = coords(V[i]), q = coords(W[i]); for (int k = 0; k < 3; k++) CK(near(p[k], q[k], 1e-13), "coordinates", "%s: vertex %zu", name.c_str(), i + 1); } for (size_t i = 0; i < E.size(); i++) KC[E[i]] = i + 1;
  std::map<int, int> fw, bw; for (size_t i = 0; i < C.size(); i++) { std::string x = desc(C[i], N), y = desc(E[i], K); CK(x == y, "cell differs", "%s: cell %zu is %s instead of %s", name.c_str(), i + 1, y.c_str(), x.c_str()); CK(MEnt_GEntDim(E[i]) == dim, "kind of model entity of a cell", "%s: cell %zu has %d", name.c_str(), i + 1, MEnt_GEntDim(E[i])); if (sets & 1) continue; int g = MEnt_GEntID(C[i]), k = MEnt_GEntID(E[i]); CK((!fw.count(g) || fw[g] == k) && (!bw.count(k) || bw[k] == g), "materials mixed up", "%s: cell %zu of material %d reads %d", name.c_str(), i + 1, g, k); fw[g] = k; bw[k] = g; }
  for (auto &q : Q_) for (int cell = 0; cell < 2; cell++) { if (q.d != MALLTYPE && (q.d != MVERTEX) != cell) continue; bool chosen = na == 0 || (na == 2 && (!strcmp(q.n, nm[0]) || !strcmp(q.n, nm[1]))), w = chosen && (cell ? q.nc == 1 : q.nc == dim); MAttrib_ptr a = att(c, q.n, cell ? dim : 0); CK(w == (a != NULL), w ? "attribute not written" : "attribute written although not asked for", "%s: %s", name.c_str(), q.n); if (!a) continue; VP &X = cell ? C : V, &Y = cell ? E : W; for (size_t i = 0; i < X.size(); i++) { auto u = val(X[i], AT[q.n], q.nc), v = val(Y[i], a, q.nc > 1 ? 3 : 1); for (size_t k = 0; k < u.size(); k++) CK(near(u[k], v[k], 1e-11), "attribute value", "%s: %s of %s %zu is %g instead of %g", name.c_str(), q.n, cell ? "cell" : "vertex", i + 1, v[k], u[k]); } count("attributes"); }
  int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(c, &i))) { char x[256]; MAttrib_Get_Name(a, x); bool known = !strcmp(x, "partelm"); for (auto &q : Q_) if (!strcmp(x, q.n)) known = true; CK(known, "attribute from nowhere", "%s: %s", name.c_str(), x); }
  int ns = 0; MSet_ptr z; i = 0; while ((z = MESH_Next_MSet(c, &i))) { char x[256]; MSet_Name(z, x); MSet_ptr o = MESH_MSetByName(m, x); CK(o, "set from nowhere", "%s: %s", name.c_str(), x); CK(MSet_EntDim(o) == MSet_EntDim(z), "kind of a set", "%s: %s", name.c_str(), x); bool v = MSet_EntDim(z) == MVERTEX; CK(members(z, v ? K : KC) == members(o, v ? N : NC), "members of a set", "%s: %s has %s instead of %s", name.c_str(), x, str(members(z, v ? K : KC)).c_str(), str(members(o, v ? N : NC)).c_str()); ns++; }
  CK(ns == (sets & 1) * 2 + (sets >> 1), "sets", "%s: %d read", name.c_str(), ns); VerifyOpt vo; vo.pairs = false; verify(c, "read", vo); MESH_Delete(c); MESH_Delete(m); if (sets) count("sets"); if (where) count("directory"); count(dim == 3 ? "3D" : "2D"); nontrivial(h.h); state(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P26"; o.run = run; return vf::main(c, v, o); }
