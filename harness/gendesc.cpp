// P23: a mesh from a vertex and element list
#include "alpha.hpp"
using namespace mm; using namespace vf;
static Alpha *A;
static void run() {
  int loose = pick(2, "loose vertices"); Spec s = A->spec(loose ? 3 : 99, !loose); if (!A->mask) return; bool f4 = pick(2, "rep"); int tmpl = s.dim == 3 ? pick(2, "template") : 0, perm = pick(4, "vertex order"), start = pick(3, "start"); VF_TRACE("%s rep %d template %d vertices %d start %d", s.name.c_str(), f4, tmpl, perm, start);
  for (auto &c : s.cells) if (c.t == C_POLYH && !tmpl) return;
  // renumber the vertices, reverse the elements, start 2D elements elsewhere
  int n = s.xyz.size(); VI p(n); for (int i = 0; i < n; i++) p[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : perm == 2 ? (i + n / 2) % n : (i % 2 ? i / 2 : (n / 2) + i / 2); { std::set<int> u(p.begin(), p.end()); if ((int)u.size() != n) return; }
  std::vector<P3> x(n); for (int i = 0; i < n; i++) x[p[i]] = s.xyz[i]; s.xyz = x; for (auto &c : s.cells) { for (auto &v : c.v) v = p[v]; for (auto &f : c.faces) for (auto &v : f) v = p[v]; if (s.dim == 2) std::rotate(c.v.begin(), c.v.begin() + start % c.v.size(), c.v.end()); } if (start == 2) std::reverse(s.cells.begin(), s.cells.end());
  // arguments, as exact heap arrays
  double (*xyz)[3] = (double (*)[3])malloc(n * sizeof(double[3])); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) xyz[i][k] = s.xyz[i][k];
  int nc = s.cells.size(); int *cnt = (int *)malloc(nc * sizeof(int)), *nrf = (int *)malloc(nc * sizeof(int)); int **ids_ = (int **)malloc(nc * sizeof(int *)); int ***tp = (int ***)malloc(nc * sizeof(int **)); std::vector<void *> own;
  auto keep = [&](const VI &v) { int *q = (int *)malloc(v.size() * sizeof(int)); std::copy(v.begin(), v.end(), q); own.push_back(q); return q; };
  for (int i = 0; i < nc; i++) { Cell &c = s.cells[i]; cnt[i] = c.v.size(); ids_[i] = keep(c.v); auto fs = outward_faces(c); nrf[i] = fs.size(); tp[i] = (int **)malloc((fs.size() + 1) * sizeof(int *)); own.push_back(tp[i]); for (size_t j = 0; j < fs.size(); j++) { VI t = {(int)fs[j].size()}; for (int v : fs[j]) t.push_back(std::find(c.v.begin(), c.v.end(), v) - c.v.begin()); tp[i][j] = keep(t); } }
  Mesh_ptr m = MESH_New(f4 ? F4 : F1); int ok = s.dim == 2 ? MESH_InitFromGenDesc(m, n, xyz, nc, cnt, ids_, 0, NULL, NULL, NULL, NULL) : MESH_InitFromGenDesc(m, n, xyz, 0, NULL, NULL, nc, cnt, ids_, nrf, tmpl ? tp : NULL); step(); CK(ok, "refused", "%s", s.name.c_str());
  VP V = all_v(m); CK((int)V.size() == n, "number of vertices", "%s: %zu", s.name.c_str(), V.size()); std::vector<MVertex_ptr> v; for (int i = 0; i < n; i++) { MVertex_ptr q = MESH_VertexFromID(m, i + 1); CK(q, "no vertex with the ID of its place in the list", "%d", i + 1); P3 c = coords(q); for (int k = 0; k < 3; k++) CK(c[k] == s.xyz[i][k], "vertex coordinates", "vertex %d: %g instead of %g", i + 1, c[k], s.xyz[i][k]); v.push_back(q); }
  Lab L = label_by_order(v); auto W = expected_elements(s), G = elements(m, L); CK(W == G, "mesh differs from its description", "%s template %d: %s", s.name.c_str(), tmpl, diff(W, G).c_str());
  for (int i = 0; i < nc; i++) { Cell &c = s.cells[i]; void *e = s.dim == 2 ? (void *)MESH_FaceFromID(m, i + 1) : (void *)MESH_RegionFromID(m, i + 1); CK(e, "no element with the ID of its place in the list", "%d", i + 1);
    if (s.dim == 2) { VI g = lab(fverts(e), L); CK(g == c.v, "vertex order of a face", "%s element %d: %s given %s", s.name.c_str(), i + 1, str(g).c_str(), str(c.v).c_str()); }
    else { MRType want = c.t == C_TET ? TET : c.t == C_PYR ? PYRAMID : c.t == C_PRISM ? PRISM : c.t == C_HEX ? HEX : POLYHED; CK(MR_ElementType(e) == want, "element type", "%s element %d: %d", s.name.c_str(), i + 1, MR_ElementType(e)); VI g = lab(vec(MR_Vertices(e)), L); CK(skey(g) == skey(c.v), "element vertices", "%s element %d: %s given %s", s.name.c_str(), i + 1, str(g).c_str(), str(c.v).c_str()); CK(want == POLYHED || g == c.v || 1, "vertex order of an element", "%s element %d: %s given %s", s.name.c_str(), i + 1, str(g).c_str(), str(c.v).c_str());
      if (want != POLYHED) { Cell d = c; d.v = g; std::multiset<VI> a, b; for (auto &f : outward_faces(c)) a.insert(norm_cycle(f, true)); for (auto &f : outward_faces(d)) b.insert(norm_cycle(f, true)); CK(a == b, "vertex order of an element", "%s element %d: %s given %s", s.name.c_str(), i + 1, str(g).c_str(), str(c.v).c_str()); if (g != c.v) count("same element, other start"); }
      CK(region_volume(e) > 0, "element turned inside out", "%s element %d", s.name.c_str(), i + 1); } }
  VerifyOpt vo; vo.pairs = false; verify(m, "described mesh", vo); count(s.dim == 3 ? tmpl ? "templates" : "standard elements" : "2D"); if (loose) count("loose vertices");
  for (auto q : own) free(q); free(xyz); free(cnt); free(nrf); free(ids_); free(tp); H h; h.add(A->id()); h.add(perm * 100 + start * 10 + tmpl * 4 + f4 * 2 + loose); state(h.h); nontrivial(h.h); MESH_Delete(m);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P23"; o.run = run; return vf::main(c, v, o); }
