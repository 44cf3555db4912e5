// P27: generated structured meshes
#include "alpha.hpp"
using namespace mm; using namespace vf;
// model of the box as documented: vertices 1..8, edges 1..12, faces 1..6, by which side (0 low, 1 inside, 2 high) in x, y, z
static const std::map<std::string, std::pair<int, int>> MODEL3 = {
  {"000", {0, 1}}, {"200", {0, 2}}, {"020", {0, 3}}, {"220", {0, 4}}, {"002", {0, 5}}, {"202", {0, 6}}, {"022", {0, 7}}, {"222", {0, 8}},
  {"100", {1, 1}}, {"201", {1, 2}}, {"102", {1, 3}}, {"001", {1, 4}}, {"120", {1, 5}}, {"221", {1, 6}}, {"122", {1, 7}}, {"021", {1, 8}}, {"010", {1, 9}}, {"210", {1, 10}}, {"212", {1, 11}}, {"012", {1, 12}},
  {"101", {2, 1}}, {"121", {2, 2}}, {"110", {2, 3}}, {"112", {2, 4}}, {"211", {2, 5}}, {"011", {2, 6}}, {"111", {3, 1}}};
static const std::map<std::string, std::pair<int, int>> MODEL2 = {{"00", {0, 1}}, {"20", {0, 2}}, {"22", {0, 3}}, {"02", {0, 4}}, {"10", {1, 1}}, {"21", {1, 2}}, {"12", {1, 3}}, {"01", {1, 4}}, {"11", {2, 1}}};
static void run() {
  static const double B[5][6] = {{0, 0, 0, 1, 1, 1}, {-1, 2, 0.5, 3, 2.25, 7}, {0.1, 0.2, 0.3, 0.7, 1.3, 2.9}, {-3, -2, -1, -2, -1.5, -0.9}, {1e6, -1e-3, 0, 1e6 + 3, 1e-3, 1e-6}};
  int b = pick(5, "box"), top = thorough ? 6 : 4; int nx = pick(top, "nx") + 1, ny = pick(top, "ny") + 1, nz = pick(top + 1, "nz"); const double *L = B[b], *U = B[b] + 3;
  Mesh_ptr m = MESH_Gen_Structured(L[0], L[1], L[2], U[0], U[1], U[2], nx, ny, nz); step(); int N[3] = {nx, ny, nz}, dim = nz ? 3 : 2; VF_TRACE("box %d: %d x %d x %d", b, nx, ny, nz);
  auto coord = [&](int d, int i) { return dim == 2 && d == 2 ? 0. : L[d] + (U[d] - L[d]) * i / N[d]; };
  // position of every vertex in the grid
  std::map<std::vector<int>, void *> at; std::map<void *, std::vector<int>> pos;
  for (auto v : all_v(m)) { P3 p = coords(v); std::vector<int> g(3); for (int d = 0; d < 3; d++) { double h = d == 2 && dim == 2 ? 1 : (U[d] - L[d]) / N[d]; g[d] = d == 2 && dim == 2 ? 0 : (int)lround((p[d] - L[d]) / h); CK(fabs(p[d] - coord(d, g[d])) <= 1e-6 * h + 1e-9 * fabs(p[d]) * (b == 4 ? 1 : 1e-3) && g[d] >= 0 && (d == 2 && dim == 2 ? true : g[d] <= N[d]), "vertex coordinates", "box %d %dx%dx%d: %.12g in direction %d", b, nx, ny, nz, p[d], d); if (!(dim == 2 && d == 2)) { if (g[d] == 0) CK(p[d] == L[d], "vertex not on the boundary of the box", "%.17g", p[d]); if (g[d] == N[d]) CK(p[d] == U[d], "vertex not on the boundary of the box", "%.17g", p[d]); } } CK(!at.count(g), "two vertices at one place", "%d %d %d", g[0], g[1], g[2]); at[g] = v; pos[v] = g; }
  CK(at.size() == (size_t)(nx + 1) * (ny + 1) * (nz + 1), "number of vertices", "%dx%dx%d: %zu", nx, ny, nz, at.size());
  auto where = [&](const VP &vs) { std::string s; for (int d = 0; d < dim; d++) { bool lo = true, hi = true; for (auto v : vs) { lo &= pos[v][d] == 0; hi &= pos[v][d] == N[d]; } s += lo ? '0' : hi ? '2' : '1'; } return s; };
  auto want = [&](const VP &vs) { return (dim == 3 ? MODEL3 : MODEL2).at(where(vs)); };
  auto box = [&](const VP &vs, int k) { // vertices are exactly the corners of a k-dimensional cell of the grid
    std::vector<int> lo = pos[vs[0]], hi = lo; for (auto v : vs) for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], pos[v][d]); hi[d] = std::max(hi[d], pos[v][d]); } int ext = 0; for (int d = 0; d < 3; d++) { if (hi[d] - lo[d] > 1) return false; ext += hi[d] - lo[d]; } return ext == k && (int)std::set<void *>(vs.begin(), vs.end()).size() == 1 << k && (int)vs.size() == 1 << k; };
  size_t ne = 0, nf = 0; if (dim == 3) { ne = (size_t)nx * (ny + 1) * (nz + 1) + (size_t)(nx + 1) * ny * (nz + 1) + (size_t)(nx + 1) * (ny + 1) * nz; nf = (size_t)nx * ny * (nz + 1) + (size_t)nx * (ny + 1) * nz + (size_t)(nx + 1) * ny * nz; } else { ne = (size_t)nx * (ny + 1) + (size_t)(nx + 1) * ny; nf = (size_t)nx * ny; }
  VP el[4] = {all_v(m), all_e(m), all_f(m), all_r(m)}; size_t cnt[4] = {at.size(), ne, nf, (size_t)nx * ny * nz}; for (int d = 1; d < 4; d++) CK(el[d].size() == cnt[d], "number of entities", "%dx%dx%d kind %d: %zu expected %zu", nx, ny, nz, d, el[d].size(), cnt[d]);
  for (int d = 0; d <= dim; d++) { std::set<std::set<void *>> uniq; for (auto e : el[d]) { VP vs = d == 0 ? VP{e} : d == 1 ? VP{ME_Vertex(e, 0), ME_Vertex(e, 1)} : d == 2 ? fverts(e) : vec(MR_Vertices(e)); CK(box(vs, d), "entity is not a cell of the grid", "kind %d", d); CK(uniq.insert(std::set<void *>(vs.begin(), vs.end())).second, "an entity exists twice", "kind %d", d); auto w = want(vs); CK(MEnt_GEntDim(e) == w.first && MEnt_GEntID(e) == w.second, "classification", "%dx%dx%d kind %d at %s: %d/%d expected %d/%d", nx, ny, nz, d, where(vs).c_str(), MEnt_GEntDim(e), MEnt_GEntID(e), w.first, w.second);
      if (d == 3) { CK(MR_ElementType(e) == HEX, "not a hexahedron", " "); CK(region_volume(e) > 0, "cell with wrong orientation", "volume %g", region_volume(e)); } if (d == 2 && dim == 2) { auto p = pts(vs); CK(area_vec(p)[2] > 0, "cell with wrong orientation", "area %g", area_vec(p)[2]); } } }
  VerifyOpt vo; if (el[0].size() > 60) vo.pairs = false; verify(m, "generated mesh", vo); count(dim == 3 ? "3D" : "2D"); H h; h.add(b); h.add(nx * 100 + ny * 10 + nz); state(h.h); nontrivial(h.h); MESH_Delete(m);
}
int main(int c, char **v) { Options o; o.property = "P27"; o.run = run; return vf::main(c, v, o); }
