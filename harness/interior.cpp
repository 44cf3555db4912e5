// P31: removing the interior keeps exactly the boundary
#include "alpha.hpp"
using namespace mm; using namespace vf;
static Alpha *A;
static void run() {
  int wire = pick(5, "dim") == 0; Spec s; M M0; How hw; VI mat{1};
  if (wire) { // edge meshes: paths and a cycle with end vertices or joints on the model's vertices
    RepType r = pick(2, "rep") ? F4 : F1; int n = pick(5, "edges") + 1, cyc = pick(2, "cycle"); if (cyc && n < 3) return; unsigned k = pick(1 << 5, "points"); M0.m = MESH_New(r); VP v; for (int i = 0; i < n + !cyc; i++) { v.push_back(MV_New(M0.m)); double x[3] = {(double)i, 0, 0}; MV_Set_Coords(v[i], x); bool pt = k >> i % 5 & 1; MV_Set_GEntDim(v[i], pt ? 0 : 1); MV_Set_GEntID(v[i], i + 1); }
    for (int i = 0; i < n; i++) { void *e = ME_New(M0.m); ME_Set_Vertex(e, 0, v[i]); ME_Set_Vertex(e, 1, v[(i + 1) % v.size()]); ME_Set_GEntDim(e, 1); ME_Set_GEntID(e, 1); } M0.v.assign(v.begin(), v.end()); count("wire");
  } else { s = A->spec(); hw = pick_how(2); M0 = build(s, hw); mat = pick_materials(s.cells.size(), 3); classify(M0.m, s.dim, mat); count(s.dim == 3 ? "3D" : "2D"); }
  Mesh_ptr m = M0.m; int dim = wire ? 1 : s.dim; MAttrib_ptr at = MAttrib_New(m, "a", INT, MALLTYPE); for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) MEnt_Set_AttVal(e, at, MEnt_ID(e) * 4 + d, 0, NULL);
  auto all = by_pointer(m); std::map<void *, std::string> want; std::map<void *, int> id; for (auto &x : all) if (MEnt_GEntDim(x.first) < dim && (int)MEnt_Dim(x.first) < dim) { want.insert(x); id[x.first] = MEnt_ID(x.first); }
  VF_TRACE("%s dim %d materials %s", s.name.c_str(), dim, str(mat).c_str());
  MESH_DelInterior(m); step(); auto now = by_pointer(m); CK(now == want, "remaining entities", "%s: %zu remain, %zu expected", s.name.c_str(), now.size(), want.size());
  for (auto &x : id) { int iv = 0; double r; void *p; MEnt_Get_AttVal(x.first, at, &iv, &r, &p); CK(MEnt_ID(x.first) == x.second && iv == x.second * 4 + MEnt_Dim(x.first), "ID or attribute of a remaining entity", "%d", x.second); }
  verify(m, "after removing the interior"); H h; h.add(A->id()); h.add(hash_str(str(mat))); h.add(hw.rep); h.add(want.size()); state(h.h); nontrivial(h.h); MESH_Delete(m);
}
int main(int c, char **v) { A = new Alpha(3); Options o; o.property = "P31"; o.run = run; return vf::main(c, v, o); }
