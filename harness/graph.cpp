// P28: the element graph
#include "alpha.hpp"
#include <unistd.h>
using namespace mm; using namespace vf;
static Alpha *A; static std::vector<Spec> extra;
static Spec star() { Spec s{"star", 2, {}, {}}; int n = 7; s.xyz.push_back({0, 0, 0}); VI ring; for (int i = 0; i < n; i++) { s.xyz.push_back({cos(i * 2 * M_PI / n), sin(i * 2 * M_PI / n), 0}); ring.push_back(i + 1); } s.cells.push_back(cell(C_POLY, ring)); for (int i = 0; i < n; i++) { s.xyz.push_back({2 * cos((i + .5) * 2 * M_PI / n), 2 * sin((i + .5) * 2 * M_PI / n), 0}); s.cells.push_back(cell(C_TRI, {1 + i, (int)s.xyz.size() - 1, 1 + (i + 1) % n})); } return s; }
static Spec fan() { Spec s{"fan", 2, {{0, 0, 0}, {0, 0, 1}}, {}}; for (int i = 0; i < 6; i++) { s.xyz.push_back({cos(i * 1.), sin(i * 1.), 0}); s.cells.push_back(cell(C_TRI, {0, 1, i + 2})); } return s; }
static Spec twoedges() { return Spec{"twoedges", 2, {{0, 0, 0}, {2, 0, 0}, {2, 1, 0}, {1, 1.5, 0}, {0, 1, 0}, {0, 3, 0}, {2, 3, 0}}, {cell(C_POLY, {0, 1, 2, 3, 4}), cell(C_POLY, {4, 3, 2, 6, 5})}}; }
static Spec capped() { // a hex whose neighbours on all faces are pyramids, plus one on a pyramid
  Spec s = host_hex(1, 1, 1); s.name = "capped"; double c[6][3] = {{.5, .5, -1}, {.5, -1, .5}, {2, .5, .5}, {.5, 2, .5}, {-1, .5, .5}, {.5, .5, 2}}; auto fs = outward_faces(s.cells[0]); for (int i = 0; i < 6; i++) { s.xyz.push_back({c[i][0], c[i][1], c[i][2]}); VI v(fs[i].begin(), fs[i].end()); v.push_back(8 + i); s.cells.push_back(cell(C_PYR, v)); } return s; }
static void run() {
  int big = pick(2, "mesh set"); Spec s; int k = 0; if (big) { k = pick((int)extra.size(), "mesh"); s = extra[k]; } else { s = A->spec(); }
  How hw = pick_how(1); M M0 = build(s, hw); Mesh_ptr m = M0.m;
  if (s.dim == 3 && pick(2, "extra faces")) { // a face that belongs to no region must not matter
    VP v = all_v(m); void *q[3] = {v[0], v[1], MV_New(m)}; double x[3] = {9, 9, 9}; MV_Set_Coords(q[2], x); MF_Set_Vertices(MF_New(m), 3, q); }
  VP el = all_of(m, s.dim); std::map<void *, int> ix; for (size_t i = 0; i < el.size(); i++) ix[el[i]] = i;
  std::vector<std::set<int>> want(el.size()); for (auto sd : all_of(m, s.dim - 1)) { VP up; for (auto e : el) if (s.dim == 3 ? has(vec(MR_Faces(e)), sd) : has(vec(MF_Edges(e, 1, 0)), sd)) up.push_back(e); for (auto a : up) for (auto b : up) if (a != b) want[ix[a]].insert(ix[b]); }
  auto before = by_pointer(m); int n = -1, *beg = NULL, *adj = NULL; int ok = MESH_GetElementGraph(m, &n, &beg, &adj); step();
  CK(ok && n == (int)el.size(), "number of elements", "%d of %zu", n, el.size()); CK(beg[0] == 0, "offsets do not start at 0", "%d", beg[0]);
  for (int i = 0; i < n; i++) { CK(beg[i + 1] >= beg[i], "offsets decrease", "element %d", i); VI got(adj + beg[i], adj + beg[i + 1]); VI q = skey(got); CK(std::adjacent_find(q.begin(), q.end()) == q.end(), "an element is listed twice as a neighbour", "%s element %d: %s", s.name.c_str(), i, str(got).c_str()); CK(q == VI(want[i].begin(), want[i].end()), "neighbours", "%s element %d: %s expected %s", s.name.c_str(), i, str(got).c_str(), str(VI(want[i].begin(), want[i].end())).c_str()); }
  CK(by_pointer(m) == before, "the mesh changed", "%s", s.name.c_str()); free(beg); free(adj);
  count(s.dim == 3 ? "3D" : "2D"); if (big) count("elements with many neighbours");
  if (!all_of(m, 3).size() || big || pick(2, "exodus")) { // the same graph from a file
    Mesh_ptr e = m; bool extraf = s.dim == 3 && all_f(m).size() != Ref(s).F.size(); bool nonman = false; if (s.dim == 2) for (auto x : all_e(m)) nonman |= vec(ME_Faces(x)).size() > 2; if (!extraf && !nonman) {
    for (int d = 0; d < 4; d++) for (auto x : all_of(e, d)) { MEnt_Set_GEntDim(x, d); MEnt_Set_GEntID(x, 1); }
    std::string f = scratch() + "/graph.exo"; MESH_ExportToExodusII(e, f.c_str(), 0, NULL, NULL, NULL); int nd, ne, *b, *a; double (*cen)[3] = NULL; Mesh_ptr imp = MESH_New(F1); MESH_ImportFromExodusII(imp, f.c_str(), NULL, NULL); 
    int n2, *b2, *a2; MESH_GetElementGraph(imp, &n2, &b2, &a2); ok = ExodusII_GetElementGraph(f.c_str(), &nd, &ne, &b, &a, 1, &cen); step(); count("from a file");
    CK(ok && ne == n2, "graph read from a file: size", "%s: dim %d, %d elements of %d", s.name.c_str(), nd, ne, n2);
    for (int i = 0; i < ne; i++) { VI g1 = skey(VI(a + b[i], a + b[i + 1])), g2 = skey(VI(a2 + b2[i], a2 + b2[i + 1])); CK(g1 == g2, "graph read from a file: neighbours", "%s element %d: %s, mesh %s", s.name.c_str(), i, str(g1).c_str(), str(g2).c_str()); }
    VP im = all_of(imp, s.dim); for (int i = 0; i < ne; i++) { VP vs = s.dim == 3 ? vec(MR_Vertices(im[i])) : fverts(im[i]); P3 c{0, 0, 0}; for (auto v : vs) { P3 p = coords(v); for (int q = 0; q < 3; q++) c[q] += p[q] / vs.size(); } CK(norm(sub(c, P3{cen[i][0], cen[i][1], cen[i][2]})) < 1e-9, "graph read from a file: element center", "%s element %d: %g %g %g", s.name.c_str(), i, cen[i][0], cen[i][1], cen[i][2]); }
    free(cen); free(a); free(b); free(a2); free(b2); MESH_Delete(imp); unlink(f.c_str()); } }
  H h; h.add(A->id()); h.add(big * 100 + k); h.add(hw.rep * 4 + hw.how * 2); state(h.h); nontrivial(h.h); MESH_Delete(m);
}
int main(int c, char **v) { A = new Alpha(3); extra = {star(), fan(), twoedges(), capped(), host_hex(4, 4, 4), host_hex(3, 3, 3), host_hex(5, 1, 1), host_quad(5, 5), host_quad(6, 1)}; for (auto &x : extra) orient(x); Options o; o.property = "P28"; o.run = run; return vf::main(c, v, o); }
