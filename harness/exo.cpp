// P24: ExodusII format
#include "alpha.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
using namespace mm; using namespace vf;
static Alpha *A;
static std::string cyc(const VI &a) { size_t k = std::min_element(a.begin(), a.end()) - a.begin(); std::string s; for (size_t i = 0; i < a.size(); i++) s += fmt("%d ", a[(i + k) % a.size()]); return s; }
static std::string desc(void *c, std::map<void *, int> &N) { auto fv = [&](void *f, int dir) { VI a; for (auto v : vec(MF_Vertices(f, dir, 0))) a.push_back(N[v]); return cyc(a); }; if (MEnt_Dim(c) == 2) return fv(c, 1);
  std::vector<std::string> q; VP f = vec(MR_Faces(c)); for (size_t i = 0; i < f.size(); i++) q.push_back(fv(f[i], MR_FaceDir_i(c, i))); std::sort(q.begin(), q.end()); std::string s = fmt("type %d ", (int)MR_ElementType(c)); for (auto &x : q) s += x + "/ "; return s; }
static std::string side(void *e, std::map<void *, int> &N) { VI a; if (MEnt_Dim(e) == 1) a = {N[ME_Vertex(e, 0)], N[ME_Vertex(e, 1)]}; else if (MEnt_Dim(e) == 0) a = {N[e]}; else for (auto v : vec(MF_Vertices(e, 1, 0))) a.push_back(N[v]); std::sort(a.begin(), a.end()); return str(a); }
static MAttrib_ptr att(Mesh_ptr m, const char *n, int d) { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { char b[256]; MAttrib_Get_Name(a, b); if (!strcmp(b, n) && (int)MAttrib_Get_EntDim(a) == d) return a; } return NULL; }
static std::vector<double> val(void *e, MAttrib_ptr a, int nc) { int iv = 0; double rv = 0; void *pv = NULL; MEnt_Get_AttVal(e, a, &iv, &rv, &pv); if (MAttrib_Get_Type(a) == INT) return {(double)iv}; if (nc < 2) return {rv}; std::vector<double> r; for (int k = 0; k < nc; k++) r.push_back(pv ? ((double *)pv)[k] : 0); return r; }
static std::string sets_of(Mesh_ptr m) { std::string s; int i = 0; MSet_ptr z; while ((z = MESH_Next_MSet(m, &i))) { char b[256]; MSet_Name(z, b); s += fmt("%s:%d", b, (int)MSet_EntDim(z)); int j = 0; void *e; while ((e = MSet_Next_Entry(z, &j))) s += fmt(" %p", e); s += ";"; } return s; }
typedef std::map<std::string, std::set<std::string>> SS; // set name -> its members
static void run() {
  int kind = pick(7, "mesh"); if (kind == 6) { int n = pick(4, "vertices"); Mesh_ptr m = MESH_New(pick(2, "rep") ? F4 : F1); for (int i = 0; i < n; i++) { MVertex_ptr v = MV_New(m); double x[3] = {i * 1., 0, 0}; MV_Set_Coords(v, x); if (i > 1) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, MESH_Vertex(m, i - 1)); ME_Set_Vertex(e, 1, v); } } std::string f = scratch() + "/w.exo"; unlink(f.c_str()); auto P0 = by_pointer(m); int ok = MESH_ExportToExodusII(m, f.c_str(), 0, NULL, NULL, NULL); step(); CK(!ok && access(f.c_str(), F_OK) && by_pointer(m) == P0 && attr_list(m) == "", "mesh without elements", "%d vertices: %d", n, ok); count("refused"); H h; h.add(n); state(h.h); MESH_Delete(m); return; }
  // plain, loose vertices, element deleted, IDs permuted, IDs with gaps, elements joined
  Spec s = A->spec(thorough ? 5 : 3, kind != 1); if (!A->mask) return; How hw = pick_how(2); M b = build(s, hw); Mesh_ptr m = b.m; int n = s.cells.size(), dim = s.dim; VI mat = n < 3 ? pick_materials(n, 2) : VI{5, 2, 11}; static const VI MM[3] = {{1, 2}, {3, 40}, {0, 1}}; bool big = !thorough && (n > 1 || hw.how); int mp = big ? (MESH_Num_Faces(m) + kind) % 3 : pick(3, "material numbers");
  bool fine = kind == 0 || kind >= 3; if (kind >= 2 && n < 2) { MESH_Delete(m); return; } classify(m, dim, mat); for (auto e : all_of(m, dim)) { int g = MEnt_GEntID(e); MEnt_Set_GEntID(e, n < 3 ? MM[mp][g & 1] : mp == 0 ? g : mp == 1 ? g * 7 : g % 2); }
  if (kind == 5) { bool done = false; if (dim == 3) { for (auto f : all_f(m)) { VP r = vec(MF_Regions(f)); if (r.size() == 2) { int g = MEnt_GEntID(r[0]); auto *x = MRs_Join(r[0], r[1], f); if (x) { MR_Set_GEntID(x, g); MR_Set_GEntDim(x, 3); done = true; } break; } } } else for (auto e : all_e(m)) { VP r = vec(ME_Faces(e)); if (r.size() == 2) { int g = MEnt_GEntID(r[0]); auto *x = MFs_Join(r[0], r[1], e); if (x) { MF_Set_GEntID(x, g); MF_Set_GEntDim(x, 2); done = true; } break; } } if (!done) { MESH_Delete(m); return; } count("joined elements"); }
  if (kind == 2) { VP q = all_of(m, dim); int k = pick(2, "delete") ? (int)q.size() - 1 : 0; if (dim == 3) MR_Delete(q[k], 0); else MF_Delete(q[k], 0); count("element deleted"); }
  if (kind == 3 || kind == 4) { for (int d = 0; d < 4; d++) { VP q = all_of(m, d); int k = q.size(); for (int i = 0; i < k; i++) { int id = kind == 3 ? (i + 1) % k + 1 : 2 * i + 5; if (d == 0) MV_Set_ID(q[i], id); if (d == 1) ME_Set_ID(q[i], kind == 3 ? k - i : id); if (d == 2) MF_Set_ID(q[i], id); if (d == 3) MR_Set_ID(q[i], kind == 3 ? k - i : id); } } count(kind == 3 ? "IDs permuted" : "ID gaps"); }
  int na, sets, to, oo; if (big) { na = (MESH_Num_Edges(m) + kind) % 3; sets = (MESH_Num_Faces(m) + hw.rep) % 2; oo = (hw.rep + hw.how + MESH_Num_Vertices(m)) % 4; to = (hw.how + hw.fl + kind) % 2; } else { na = pick(3, "attributes written"); oo = pick(4, "options"); sets = pick(2, "sets"); to = pick(2, "to"); } if (oo == 2 && !fine) oo = 0;
  int opts[3] = {0, oo == 2, oo != 3}; if (oo == 2) { MESH_BuildClassfn(m, 1); for (auto e : all_of(m, dim)) if (MEnt_GEntID(e) == 0) fine = false; }
  std::string name = fmt("%s kind %d rep %d how %d/%d mat %s/%d attributes %d options %d sets %d into %d", s.name.c_str(), kind, hw.rep, hw.how, hw.fl, str(mat).c_str(), mp, na, oo, sets, to); VF_TRACE("%s", name.c_str());
  H h; h.add(A->id()); h.add(kind); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); h.add(hash_str(str(mat))); h.add(((mp * 3 + na) * 4 + oo) * 4 + sets * 2 + to);
  // what is expected in the file: elements, the vertices they use, sets by name and fields
  VP C = all_of(m, dim), V; std::map<void *, int> N; std::set<void *> used; std::map<P3, int> at; for (auto c : C) for (auto v : vec(dim == 3 ? MR_Vertices(c) : MF_Vertices(c, 1, 0))) if (used.insert(v).second) { V.push_back(v); N[v] = V.size(); at[coords(v)] = V.size(); }
  struct Q { const char *n; MAttType t; int d, nc; }; std::vector<Q> Q_ = {{"density", DOUBLE, dim, 1}, {"layer", INT, dim, 1}, {"velo", VECTOR, MVERTEX, dim}, {"pressure", DOUBLE, MVERTEX, 1}, {"flux", VECTOR, dim, dim}, {"stress", TENSOR, dim, 9}, {"pressure", DOUBLE, dim, 1}, {"velo", VECTOR, dim, dim}, {"onedge", DOUBLE, MEDGE, 1}}; std::map<std::string, MAttrib_ptr> AT;
  for (auto &q : Q_) { MAttrib_ptr a = AT[q.n + std::string(1, 48 + q.d)] = q.nc > 1 ? MAttrib_New(m, q.n, q.t, (MType)q.d, q.nc) : MAttrib_New(m, q.n, q.t, (MType)q.d); for (int d = 0; d < 4; d++) if (q.d == d) { int i = 0; for (auto e : all_of(m, d)) { i++; if ((i + q.n[0]) % 4 == 0) continue; double *x = (double *)malloc(9 * sizeof(double)); for (int k = 0; k < 9; k++) x[k] = (i % 3 ? 1e-7 : -1e9) * (i / 3.0 + k * 10); MEnt_Set_AttVal(e, a, i, x[0], q.nc > 1 ? x : NULL); if (q.nc < 2) free(x); } } }
  if (sets) { VP S; for (auto x : all_of(m, dim - 1)) { VP r = vec(dim == 3 ? MF_Regions(x) : ME_Faces(x)); if (r.size()) S.push_back(x); } MSet_ptr z[8] = {MSet_New(m, "nodeset_4", MVERTEX), MSet_New(m, "nodeset_12", MVERTEX), MSet_New(m, "sideset_3", (MType)(dim - 1)), MSet_New(m, "sideset_1", (MType)(dim - 1)), MSet_New(m, "elemset_9", (MType)dim), MSet_New(m, "elemset_2", (MType)dim), MSet_New(m, "other", MVERTEX), MSet_New(m, "matset_1", MEDGE)};
    for (size_t i = V.size(); i-- > 0;) MSet_Add(z[i % 3 == 1], V[i]); for (size_t i = 0; i < S.size(); i++) { MSet_Add(z[2 + i % 2], S[i]); if (i % 5 == 0) MSet_Add(z[3 - i % 2], S[i]); } for (size_t i = 0; i < C.size(); i++) { MSet_Add(z[4], C[C.size() - 1 - i]); if (i % 2) MSet_Add(z[5], C[i]); } MSet_Add(z[6], V[0]); for (auto v : all_v(m)) if (!used.count(v)) { MSet_Add(z[0], v); count("loose vertex in a set"); break; } count("sets"); }
  SS want; std::map<void *, std::string> dn; for (auto c : C) { dn[c] = desc(c, N); want[fmt("matset_%d", MEnt_GEntID(c))].insert(dn[c]); }
  { int i = 0; MSet_ptr z; while ((z = MESH_Next_MSet(m, &i))) { char x[256]; MSet_Name(z, x); if (strncmp(x, "nodeset_", 8) && strncmp(x, "sideset_", 8) && strncmp(x, "elemset_", 8)) continue; auto &w = want[x]; int j = 0; void *e; while ((e = MSet_Next_Entry(z, &j))) if (MEnt_Dim(e) || used.count(e)) w.insert(MEnt_Dim(e) == dim ? dn[e] : side(e, N)); } }
  if (oo == 2) { for (auto x : all_of(m, dim - 1)) { VP r = vec(dim == 3 ? MF_Regions(x) : ME_Faces(x)); if (dim == 3 ? MEnt_GEntDim(x) != 3 && r.size() : MEnt_GEntDim(x) == 1 && r.size()) want[fmt("sideset_%d", MEnt_GEntID(x))].insert(side(x, N)); } for (auto v : V) if (MEnt_GEntDim(v) < 2) want[fmt("nodeset_%d", MEnt_GEntDim(v) * 10000 + MEnt_GEntID(v))].insert(side(v, N)); count("geometry sets"); }
  std::string f = scratch() + (sets ? "/m.exo" : "/a_mesh_which_is_to_be_kept_in_a_file_with_a_rather_long_and_quite_descriptive_name.exo"); unlink(f.c_str()); auto P0 = by_pointer(m); std::string al = attr_list(m), sl = sets_of(m); const char *nm[3] = {"stress", "velo", "nosuch"};
  int ok = MESH_ExportToExodusII(m, f.c_str(), na == 0 ? 0 : na == 1 ? -1 : 3, na == 2 ? nm : NULL, oo ? opts : NULL, NULL); step();
  CK(by_pointer(m) == P0 && attr_list(m) == al, "export changed the mesh", "%s: attributes %s -> %s", name.c_str(), al.c_str(), attr_list(m).c_str()); CK(sets_of(m) == sl, "export changed the sets", "%s: %s -> %s", name.c_str(), sl.c_str(), sets_of(m).c_str());
  bool w1 = C.size() > 0; CK(ok == w1, "export result", "%s: %d", name.c_str(), ok); if (!w1) { CK(access(f.c_str(), F_OK), "refused export left a file", "%s", name.c_str()); count("refused"); state(h.h); MESH_Delete(m); return; }
  Mesh_ptr c = MESH_New(to ? F4 : F1); ok = MESH_ImportFromExodusII(c, f.c_str(), NULL, NULL); step(); CK(ok == 1, "import failed", "%s", name.c_str()); VP W = all_v(c), E = all_of(c, dim);
  CK(W.size() == V.size() && E.size() == C.size() && (dim == 3 || !MESH_Num_Regions(c)), "counts", "%s: %zu vertices, %zu elements instead of %zu, %zu", name.c_str(), W.size(), E.size(), V.size(), C.size());
  std::map<void *, int> K; for (auto v : W) { auto it = at.find(coords(v)); CK(it != at.end(), "coordinates", "%s: vertex %d", name.c_str(), MV_ID(v)); K[v] = it->second; }
  std::map<std::string, void *> el; for (auto e : E) el[desc(e, K)] = e; std::map<void *, void *> T; for (auto x : C) { auto it = el.find(dn[x]); if (it == el.end()) { std::string a; for (auto &q : el) a += " | " + q.first; CK(0, "element missing", "%s: %s among%s", name.c_str(), dn[x].c_str(), a.c_str()); } T[x] = it->second; CK(MEnt_GEntID(it->second) == MEnt_GEntID(x) && MEnt_GEntDim(it->second) == dim, "model entity of an element", "%s: %s has %d/%d instead of %d", name.c_str(), dn[x].c_str(), MEnt_GEntDim(it->second), MEnt_GEntID(it->second), MEnt_GEntID(x)); }
  SS got; std::map<void *, std::string> de; for (auto &q : el) de[q.second] = q.first; { int i = 0; MSet_ptr z; while ((z = MESH_Next_MSet(c, &i))) { char x[256]; MSet_Name(z, x); if (!strcmp(x, "faceset")) continue; int d = MSet_EntDim(z), wd = !strncmp(x, "node", 4) ? 0 : !strncmp(x, "side", 4) ? dim - 1 : dim; CK(d == wd, "kind of a set", "%s: %s has %d", name.c_str(), x, d); CK(!got.count(x), "set twice", "%s: %s", name.c_str(), x); auto &w = got[x]; int j = 0; void *e; while ((e = MSet_Next_Entry(z, &j))) CK(w.insert(MEnt_Dim(e) == dim ? de[e] : side(e, K)).second, "member twice", "%s: %s", name.c_str(), x); } }
  for (auto &q : want) { CK(got.count(q.first), "set missing", "%s: %s", name.c_str(), q.first.c_str()); CK(got[q.first] == q.second, "members of a set", "%s: %s has %zu instead of %zu", name.c_str(), q.first.c_str(), got[q.first].size(), q.second.size()); } for (auto &q : got) CK(want.count(q.first), "set from nowhere", "%s: %s", name.c_str(), q.first.c_str());
  std::map<int, void *> vb; for (auto v : W) vb[K[v]] = v;
  for (auto &q : Q_) { bool w = q.t != INT && q.d != MEDGE && (na == 0 || (na == 2 && (!strcmp(q.n, nm[0]) || !strcmp(q.n, nm[1])))); MAttrib_ptr a = att(c, q.n, q.d); CK(w == (a != NULL), w ? "attribute not written" : "attribute written although not asked for", "%s: %s", name.c_str(), q.n); if (!a) continue; CK((int)MAttrib_Get_Type(a) == q.t && (q.nc < 2 || MAttrib_Get_NumComps(a) == q.nc), "kind of an attribute", "%s: %s", name.c_str(), q.n);
    for (auto x : q.d ? C : V) CK(val(x, AT[q.n + std::string(1, 48 + q.d)], q.nc) == val(q.d ? T[x] : vb[N[x]], a, q.nc), "attribute value", "%s: %s of %d is %g instead of %g", name.c_str(), q.n, MEnt_ID(x), val(q.d ? T[x] : vb[N[x]], a, q.nc)[0], val(x, AT[q.n + std::string(1, 48 + q.d)], q.nc)[0]); count("attributes"); }
  for (auto &q : want) { bool mt = !q.first.compare(0, 4, "mats"), es = !q.first.compare(0, 4, "elem"); if (es) continue; int d = mt ? dim : q.first[0] == 'n' ? 0 : dim - 1, id = atoi(q.first.c_str() + q.first.find('_') + 1); MAttrib_ptr a = att(c, mt ? "elemblock" : q.first.c_str(), d); CK(a, "attribute of a set", "%s: %s", name.c_str(), q.first.c_str()); for (auto e : all_of(c, d)) { bool in = q.second.count(mt ? de[e] : side(e, K)); int v = (int)val(e, a, 1)[0]; CK(mt ? !in || v == id : v == (in ? id : 0), "attribute of a set", "%s: %s is %d", name.c_str(), q.first.c_str(), v); } }
  { int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(c, &i))) { char x[256]; MAttrib_Get_Name(a, x); bool known = !strcmp(x, "elemblock") || !strcmp(x, "node_map") || !strcmp(x, "elem_map") || want.count(x); for (auto &q : Q_) if (!strcmp(x, q.n)) known = true; CK(known, "attribute from nowhere", "%s: %s", name.c_str(), x); } }
  VerifyOpt vo; vo.pairs = false; verify(c, "read", vo); MESH_Delete(c); MESH_Delete(m); unlink(f.c_str()); count(dim == 3 ? "3D" : "2D"); nontrivial(h.h); state(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P24"; o.run = run; return vf::main(c, v, o); }
