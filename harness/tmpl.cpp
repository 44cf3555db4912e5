// P07: standard elements are recognised and ordered by the documented templates, whatever way their faces come
#include "mesh.hpp"
using namespace mm; using namespace vf;
struct Shape { const char *name; MRType type; int nv; std::vector<VI> faces; std::vector<VI> good; std::vector<std::pair<int,int>> wires; };
static std::vector<Shape> shapes;
static void hangs(Shape &s, int a, int b) { int m = s.nv++; for (auto &f : s.faces) for (size_t i = 0; i < f.size(); i++) { int x = f[i], y = f[(i + 1) % f.size()]; if ((x == a && y == b) || (x == b && y == a)) { f.insert(f.begin() + i + 1, m); break; } } }
static Shape std_shape(const char *n, MRType t, CT ct, int nv) {
  VI id; for (int i = 0; i < nv; i++) id.push_back(i);
  Shape s{n, t, nv, outward_faces(cell(ct, id)), {}, {}};
  // every numbering under which the template describes the same oriented element
  std::set<VI> want; for (auto &f : s.faces) want.insert(norm_cycle(f, true));
  VI p = id; do { std::set<VI> got; for (auto &f : outward_faces(cell(ct, p))) got.insert(norm_cycle(f, true)); if (got == want) s.good.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
  return s;
}
static void init() {
  shapes.push_back(std_shape("tet", TET, C_TET, 4));
  shapes.push_back(std_shape("pyramid", PYRAMID, C_PYR, 5));
  shapes.push_back(std_shape("prism", PRISM, C_PRISM, 6));
  shapes.push_back(std_shape("hex", HEX, C_HEX, 8));
  { Shape s = shapes[2]; s.name = "prism+diagonal edges"; s.wires = {{0, 4}, {1, 5}, {2, 3}, {0, 5}, {1, 3}, {2, 4}}; shapes.push_back(s); }
  { Shape s = shapes[3]; s.name = "hex+diagonal edges"; s.wires = {{0, 5}, {0, 6}, {0, 7}, {1, 4}, {1, 6}, {0, 2}, {4, 6}}; shapes.push_back(s); }
  auto poly = [](const char *n, int nv, std::vector<VI> f) { shapes.push_back(Shape{n, POLYHED, nv, f, {}, {}}); return &shapes.back(); };
  Shape *s;
  s = poly("tet, split edge", 4, shapes[0].faces); hangs(*s, 0, 1);
  s = poly("tet, two opposite edges split", 4, shapes[0].faces); hangs(*s, 0, 1); hangs(*s, 2, 3);
  s = poly("pyramid, split lateral edge", 5, shapes[1].faces); hangs(*s, 1, 4);
  s = poly("pyramid, split base edge", 5, shapes[1].faces); hangs(*s, 0, 1);
  s = poly("prism, split vertical edge", 6, shapes[2].faces); hangs(*s, 0, 3);
  std::vector<VI> bip = {{0, 1, 3}, {1, 2, 3}, {2, 0, 3}, {1, 0, 4}, {2, 1, 4}, {0, 2, 4}};
  poly("bipyramid", 5, bip);
  s = poly("bipyramid, equator split", 5, bip); hangs(*s, 0, 1); hangs(*s, 1, 2); hangs(*s, 2, 0);
  s = poly("bipyramid, three edges split", 5, bip); hangs(*s, 0, 1); hangs(*s, 2, 3); hangs(*s, 2, 4);
  poly("pentagonal pyramid", 6, {{4, 3, 2, 1, 0}, {0, 1, 5}, {1, 2, 5}, {2, 3, 5}, {3, 4, 5}, {4, 0, 5}});
  poly("pentagonal prism", 10, {{4, 3, 2, 1, 0}, {5, 6, 7, 8, 9}, {0, 1, 6, 5}, {1, 2, 7, 6}, {2, 3, 8, 7}, {3, 4, 9, 8}, {4, 0, 5, 9}});
  { VI q = {0, 1, 2, 3, 4, 5, 5, 6}; std::vector<VI> f; for (auto c : shapes[3].faces) { VI g; for (int x : c) { int y = q[x]; if (std::find(g.begin(), g.end(), y) == g.end()) g.push_back(y); } f.push_back(g); } poly("hex with a collapsed edge", 7, f); }
  poly("octahedron", 6, {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}});
}
static VI permutation(int n, int limit) { VI p, r; for (int i = 0; i < n; i++) p.push_back(i); for (int i = 0; i < n; i++) { int k = i < limit ? pick((int)p.size(), "order") : 0; r.push_back(p[k]); p.erase(p.begin() + k); } return r; }

static void check_region(Mesh_ptr m, const Shape &s, MRegion_ptr r, const std::vector<MVertex_ptr> &v, const char *W) {
  CK(MR_ElementType(r) == s.type, (std::string(W) + ": element type").c_str(), "%s: type %d expected %d", s.name, (int)MR_ElementType(r), (int)s.type);
  VP rv = vec(MR_Vertices(r)); VI q; for (auto x : rv) { int i = std::find(v.begin(), v.end(), x) - v.begin(); q.push_back(i); }
  std::set<int> used; for (auto &f : s.faces) used.insert(f.begin(), f.end());
  CK(std::set<int>(q.begin(), q.end()) == used && q.size() == used.size(), (std::string(W) + ": region vertices").c_str(), "%s: %s", s.name, str(q).c_str());
  if (s.good.size()) CK(std::find(s.good.begin(), s.good.end(), q) != s.good.end(), (std::string(W) + ": vertex order is not the documented numbering").c_str(), "%s: %s", s.name, str(q).c_str());
  VI id(q.size() + 4); int n = -1; MR_VertexIDs(r, &n, id.data()); CK(n == (int)q.size(), "MR_VertexIDs", "%s", s.name); for (int i = 0; i < n; i++) CK(id[i] == MV_ID(rv[i]), "MR_VertexIDs", "%s", s.name);
  // faces: exactly those described, each pointing as described
  std::set<VI> want, got; for (auto &f : s.faces) want.insert(norm_cycle(f, true));
  VP rf = vec(MR_Faces(r)); Lab L = label_by_order(v);
  for (auto f : rf) { VI c; for (auto x : fverts(f, MR_FaceDir(r, f))) c.push_back(L.count(x) ? L[x] : -99); got.insert(norm_cycle(c, true)); }
  CK(got == want && rf.size() == s.faces.size(), (std::string(W) + ": faces or their directions").c_str(), "%s", s.name);
}

static void by_faces() {
  int k = pick((int)shapes.size(), "shape"); const Shape &s = shapes[k]; RepType rep = pick(2, "rep") ? F4 : F1; int nf = s.faces.size();
  // what varies together: order x directions (starts default); order x one start; directions x starts
  int mode = pick(3, "mode"); VI order; unsigned flips = 0; VI rot(nf, 0);
  int lim = thorough ? 7 : nf <= 4 ? 7 : nf == 5 ? (mode == 0 ? 4 : 2) : nf == 6 ? (mode == 0 ? 2 : 3) : 2;
  if (!thorough && !s.good.size()) lim = nf > 4 ? 1 : 2;
  for (int i = 0; i < nf; i++) order.push_back(i);
  if (mode == 0) { order = permutation(nf, lim); flips = pick(1 << std::min(nf, thorough ? 7 : nf <= 4 ? 4 : 3), "flips"); if (nf >= 5 && !thorough) flips |= (flips & 1) << 3 | (flips & 2) << 3 | (flips & 1) << 5; }
  if (mode == 1) { order = permutation(nf, lim); int f = pick(nf, "face"); rot[f] = pick((int)s.faces[f].size(), "start"); if (thorough) flips = pick(4, "flips") * 0x55; }
  if (mode == 2) { flips = pick(1 << std::min(nf, thorough ? 8 : 5), "flips"); int free = thorough ? 6 : s.good.size() && nf < 6 ? 2 : 1; if (!thorough && nf > 4 && s.wires.size()) free = 1; for (int i = 0; i < nf && i < free; i++) rot[i] = pick((int)s.faces[i].size(), "start"); }
  VF_TRACE("%s rep %d flips %x", s.name, rep, flips);
  Mesh_ptr m = MESH_New(rep); std::vector<MVertex_ptr> v; for (int i = 0; i < s.nv; i++) { v.push_back(MV_New(m)); double x[3] = {cos(i * 1.3), sin(i * 1.7), i * .3}; MV_Set_Coords(v[i], x); }
  for (auto &w : s.wires) { MEdge_ptr e = ME_New(m); ME_Set_Vertex(e, 0, v[w.first]); ME_Set_Vertex(e, 1, v[w.second]); }
  // a neighbour on face 0, made first, in half of the cases
  std::vector<MFace_ptr> f(nf, nullptr);
  auto mkface = [&](int i) { VI c = s.faces[i]; std::rotate(c.begin(), c.begin() + rot[i], c.end()); if (flips >> i & 1) std::reverse(c.begin() + 1, c.end()); std::vector<MVertex_ptr> q; for (int x : c) q.push_back(v[x]); f[i] = MF_New(m); MF_Set_Vertices(f[i], q.size(), q.data()); };
  bool nb = mode != 0 && pick(2, "neighbour");
  if (nb) {
    mkface(0); MVertex_ptr apex = MV_New(m); const VI &c = s.faces[0]; std::vector<MFace_ptr> nfs = {f[0]}; VI nd = {!!(flips & 1)};
    for (size_t i = 0; i < c.size(); i++) { MFace_ptr t = MF_New(m); MVertex_ptr q[3] = {v[c[i]], v[c[(i + 1) % c.size()]], apex}; MF_Set_Vertices(t, 3, q); nfs.push_back(t); nd.push_back(1); }
    MRegion_ptr r = MR_New(m); MR_Set_Faces(r, nfs.size(), nfs.data(), nd.data());
  }
  for (int i = 0; i < nf; i++) if (!f[i]) mkface(i);
  std::vector<MFace_ptr> fo; VI fd; for (int i : order) { fo.push_back(f[i]); fd.push_back(!(flips >> i & 1)); }
  MRegion_ptr r = MR_New(m); MR_Set_Faces(r, nf, fo.data(), fd.data()); step();
  check_region(m, s, r, v, "by faces");
  if (thorough || mode == 1 || (flips & 3) == 0) verify(m, "by faces", VerifyOpt{true, false, true, 1});
  // turning a face around for both its regions and back
  if (mode == 1) {
    int f0 = pick(2, "reversed face") ? nf - 1 : 0; MFace_ptr x = f[f0]; int d = MR_FaceDir(r, x); MRegion_ptr o = MF_Region(x, d); // the region on the other side
    CK(MF_Region(x, !d) == r, "MF_Region", "%s", s.name);
    int byi = thorough ? pick(2, "by index") : (order[0] + f0) & 1; VP rf = vec(MR_Faces(r)); int ix = std::find(rf.begin(), rf.end(), (void *)x) - rf.begin();
    if (byi) MR_Rev_FaceDir_i(r, ix); else MR_Rev_FaceDir(r, x); step(); count("MR_Rev_FaceDir");
    CK(MR_FaceDir(r, x) == !d && (!o || MR_FaceDir(o, x) == d), "MR_Rev_FaceDir", "%s face %d: %d", s.name, f0, MR_FaceDir(r, x));
    CK(MF_Region(x, d) == r && MF_Region(x, !d) == o, "MR_Rev_FaceDir: MF_Region", "%s face %d", s.name, f0);
    for (size_t i = 0; i < rf.size(); i++) if (rf[i] != x) CK(MR_FaceDir_i(r, i) == fd[i], "MR_Rev_FaceDir changed another face", "%s", s.name);
    if (byi) MR_Rev_FaceDir_i(r, ix); else MR_Rev_FaceDir(r, x);
    check_region(m, s, r, v, "reversed twice");
    if (!o) { if (byi) MR_Set_FaceDir_i(r, ix, !d); else MR_Set_FaceDir(r, x, !d); count("MR_Set_FaceDir"); CK(MR_FaceDir(r, x) == !d && MF_Region(x, d) == r && !MF_Region(x, !d), "MR_Set_FaceDir", "%s", s.name); if (byi) MR_Set_FaceDir_i(r, ix, d); else MR_Set_FaceDir(r, x, d); check_region(m, s, r, v, "direction set twice"); }
  }
  H h; h.add(k); h.add(rep); h.add(flips); for (int i : order) h.add(i); for (int i : rot) h.add(i); h.add(nb); state(h.h); nontrivial(h.h); count(s.good.size() ? "standard elements" : "polyhedra");
  MESH_Delete(m);
}
// element given by its vertices, next to 0, 1 or 2 existing neighbours, in every admissible numbering
static void by_vertices() {
  int k = pick(4, "shape"); const Shape &s = shapes[k]; RepType rep = pick(2, "rep") ? F4 : F1;
  const VI &p = s.good[pick((int)s.good.size(), "numbering")]; int pre = pick((int)s.faces.size() + 1, "existing face"), rev = pick(2, "reversed"), rot = pick(3, "start"), templ = pick(2, "face template");
  Mesh_ptr m = MESH_New(rep); std::vector<MVertex_ptr> v; for (int i = 0; i < s.nv; i++) { v.push_back(MV_New(m)); double x[3] = {cos(i * 1.3), sin(i * 1.7), i * .3}; MV_Set_Coords(v[i], x); MV_Set_GEntDim(v[i], 3); MV_Set_GEntID(v[i], 1); }
  VF_TRACE("%s rep %d numbering %s existing %d rev %d start %d template %d", s.name, rep, str(p).c_str(), pre, rev, rot, templ);
  if (pre) { VI c = s.faces[pre - 1]; std::rotate(c.begin(), c.begin() + rot, c.end()); if (rev) std::reverse(c.begin(), c.end()); std::vector<MVertex_ptr> q; for (int x : c) q.push_back(v[x]); MFace_ptr f = MF_New(m); MF_Set_Vertices(f, q.size(), q.data()); }
  std::vector<MVertex_ptr> q; for (int x : p) q.push_back(v[x]);
  MRegion_ptr r = MR_New(m);
  if (!templ) MR_Set_Vertices(r, s.nv, q.data(), 0, NULL);
  else { std::vector<VI> t; std::vector<int *> tp; for (auto &f : s.faces) { VI x = {(int)f.size()}; for (int y : f) x.push_back(std::find(p.begin(), p.end(), y) - p.begin()); t.push_back(x); } for (auto &x : t) tp.push_back(x.data()); MR_Set_Vertices(r, s.nv, q.data(), tp.size(), tp.data()); }
  step(); check_region(m, s, r, v, templ ? "by face template" : "by vertices"); verify(m, "by vertices", VerifyOpt{true, true, true, 1});
  CK(MESH_Num_Faces(m) == (int)s.faces.size(), "by vertices: face created twice", "%s", s.name);
  H h; h.add(1000 + k); h.add(rep); h.add(pre); h.add(rev); h.add(rot); h.add(templ); for (int i : p) h.add(i); state(h.h); nontrivial(h.h); count("by vertices");
  MESH_Delete(m);
}
static void run() { if (pick(2, "how")) by_vertices(); else by_faces(); }
int main(int c, char **v) { init(); Options o; o.property = "P07"; o.run = run; return vf::main(c, v, o); }
