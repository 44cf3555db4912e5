// Mesh alphabet, builders, reference adjacency, canonical snapshots and the consistency oracle.
#pragma once
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "MSTK.h"
}

namespace mm {
using vf::fail; using vf::fmt; using vf::H;
typedef std::array<double, 3> P3;
typedef std::vector<int> VI;

enum CT { C_TRI, C_QUAD, C_POLY, C_TET, C_PYR, C_PRISM, C_HEX, C_POLYH };
struct Cell { CT t; VI v; std::vector<VI> faces; };   // faces: only for C_POLYH, outward
struct Spec { std::string name; int dim; std::vector<P3> xyz; std::vector<Cell> cells; };

// outward faces of the standard elements in the documented vertex numbering (base first, oriented into the element)
inline std::vector<VI> outward_faces(const Cell &c) {
  auto m = [&](std::vector<VI> l) { for (auto &f : l) for (auto &x : f) x = c.v[x]; return l; };
  switch (c.t) {
  case C_TET: return m({{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}});
  case C_PYR: return m({{0, 3, 2, 1}, {0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}});
  case C_PRISM: return m({{0, 2, 1}, {0, 1, 4, 3}, {1, 2, 5, 4}, {2, 0, 3, 5}, {3, 4, 5}});
  case C_HEX: return m({{0, 3, 2, 1}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}});
  case C_POLYH: return c.faces;
  default: return {};
  }
}
inline bool is3d(CT t) { return t >= C_TET; }

// ---- hosts: every non-empty subset of the cells of a host is a mesh of the alphabet -----------------------------
inline Cell cell(CT t, VI v) { return Cell{t, v, {}}; }

inline Spec host_tri8() { // 2x2 squares, each cut in two triangles with alternating diagonals
  Spec s{"tri8", 2, {}, {}};
  for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) s.xyz.push_back({(double)i, (double)j, 0});
  for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) {
    int a = j * 3 + i, b = a + 1, c = a + 4, d = a + 3;
    if ((i + j) % 2 == 0) { s.cells.push_back(cell(C_TRI, {a, b, c})); s.cells.push_back(cell(C_TRI, {a, c, d})); }
    else { s.cells.push_back(cell(C_TRI, {a, b, d})); s.cells.push_back(cell(C_TRI, {b, c, d})); }
  }
  return s;
}
inline Spec host_quad(int nx, int ny) {
  Spec s{fmt("quad%dx%d", nx, ny), 2, {}, {}};
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) s.xyz.push_back({(double)i, (double)j, 0});
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { int a = j * (nx + 1) + i; s.cells.push_back(cell(C_QUAD, {a, a + 1, a + nx + 2, a + nx + 1})); }
  return s;
}
inline Spec host_mix2() { // pentagon, triangles, quads around it, one separate triangle touching in a vertex
  Spec s{"mix2", 2, {{0, 0, 0}, {2, 0, 0}, {2.5, 1.5, 0}, {1, 2.5, 0}, {-0.5, 1.5, 0}, {0, -1.5, 0}, {2, -1.5, 0}, {3.5, 0.5, 0}, {3, 3, 0}, {-2, 0, 0}, {-2, 2, 0}}, {}};
  s.cells = {cell(C_POLY, {0, 1, 2, 3, 4}), cell(C_QUAD, {5, 6, 1, 0}), cell(C_TRI, {1, 7, 2}), cell(C_TRI, {2, 8, 3}), cell(C_QUAD, {9, 0, 4, 10}), cell(C_TRI, {6, 7, 1})};
  return s;
}
inline Spec host_surf() { // closed tetrahedron surface plus a fin: every edge of the tet has two faces, one has three
  Spec s{"surf", 2, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -1, 0}}, {}};
  s.cells = {cell(C_TRI, {0, 2, 1}), cell(C_TRI, {0, 1, 3}), cell(C_TRI, {1, 2, 3}), cell(C_TRI, {0, 3, 2}), cell(C_TRI, {0, 4, 1})};
  return s;
}
inline Spec host_kuhn() { // cube cut into six tets around a diagonal
  Spec s{"kuhn", 3, {}, {}};
  for (int k = 0; k < 8; k++) s.xyz.push_back({(double)(k & 1), (double)(k >> 1 & 1), (double)(k >> 2 & 1)});
  int perm[6][3] = {{1, 2, 4}, {2, 4, 1}, {4, 1, 2}, {2, 1, 4}, {1, 4, 2}, {4, 2, 1}};
  for (int p = 0; p < 6; p++) {
    int a = 0, b = perm[p][0], c = b + perm[p][1], d = 7;
    if (p < 3) s.cells.push_back(cell(C_TET, {a, b, c, d})); else s.cells.push_back(cell(C_TET, {a, c, b, d}));
  }
  return s;
}
inline Spec host_hex(int nx, int ny, int nz) {
  Spec s{fmt("hex%dx%dx%d", nx, ny, nz), 3, {}, {}};
  for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) s.xyz.push_back({(double)i, (double)j, (double)k});
  auto id = [&](int i, int j, int k) { return (k * (ny + 1) + j) * (nx + 1) + i; };
  for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++)
    s.cells.push_back(cell(C_HEX, {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)}));
  return s;
}
inline Spec host_mix3() { // hex; pyramid on top; prism on the side; pentagonal prism behind; tets on pyramid and prism
  Spec s{"mix3", 3, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}, {.5, .5, 2},
                     {2, 0, .5}, {2, 1, .5}, {0, 2, 1.3}, {0, 2.5, .5}, {0, 2, -.3}, {1, 2, 1.3}, {1, 2.5, .5}, {1, 2, -.3}, {2, .5, 2}, {1.3, -1, .5}}, {}};
  s.cells.push_back(cell(C_HEX, {0, 1, 2, 3, 4, 5, 6, 7}));
  s.cells.push_back(cell(C_PYR, {4, 5, 6, 7, 8}));
  // triangles at y=0: 1,5,9 and at y=1: 2,6,10; base (y=0) must point into the element, towards +y
  s.cells.push_back(cell(C_PRISM, {1, 5, 9, 2, 6, 10}));
  Cell p; p.t = C_POLYH; // pentagons 3,7,11,12,13 (x=0) and 2,6,14,15,16 (x=1)
  VI a = {3, 7, 11, 12, 13}, b = {2, 6, 14, 15, 16};
  p.v = a; p.v.insert(p.v.end(), b.begin(), b.end());
  p.faces.push_back(VI(a.rbegin(), a.rend())); // fixed up below by orientation
  p.faces.push_back(b);
  for (int i = 0; i < 5; i++) p.faces.push_back({a[i], a[(i + 1) % 5], b[(i + 1) % 5], b[i]});
  s.cells.push_back(p);
  s.cells.push_back(cell(C_TET, {5, 6, 8, 17}));
  s.cells.push_back(cell(C_TET, {1, 9, 5, 18}));
  return s;
}

// --- geometry (independent of the library) -----------------------------------------------------------------------
inline P3 sub(P3 a, P3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline P3 cross(P3 a, P3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double dot(P3 a, P3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double norm(P3 a) { return std::sqrt(dot(a, a)); }
inline P3 area_vec(const std::vector<P3> &p) { P3 s{0, 0, 0}; for (size_t i = 1; i + 1 < p.size(); i++) { P3 c = cross(sub(p[i], p[0]), sub(p[i + 1], p[0])); for (int k = 0; k < 3; k++) s[k] += c[k] / 2; } return s; }
// signed volume of a closed oriented polyhedron (fan triangulation of its faces from the face centroid)
inline double poly_volume(const std::vector<std::vector<P3>> &faces) {
  double vol = 0;
  for (auto &f : faces) { P3 c{0, 0, 0}; for (auto &p : f) for (int k = 0; k < 3; k++) c[k] += p[k] / f.size();
    for (size_t i = 0; i < f.size(); i++) vol += dot(c, cross(f[i], f[(i + 1) % f.size()])) / 6; }
  return vol;
}
inline void orient(Spec &s) { // make the polyhedra's faces outward and standard elements positively oriented
  for (auto &c : s.cells) {
    if (!is3d(c.t)) continue;
    auto fs = outward_faces(c);
    if (c.t == C_POLYH) {
      P3 cen{0, 0, 0}; for (int v : c.v) for (int k = 0; k < 3; k++) cen[k] += s.xyz[v][k] / c.v.size();
      for (auto &f : c.faces) { std::vector<P3> p; P3 fc{0, 0, 0}; for (int v : f) { p.push_back(s.xyz[v]); for (int k = 0; k < 3; k++) fc[k] += s.xyz[v][k] / f.size(); }
        if (dot(area_vec(p), sub(fc, cen)) < 0) std::reverse(f.begin(), f.end()); }
    } else {
      std::vector<std::vector<P3>> p; for (auto &f : fs) { std::vector<P3> q; for (int v : f) q.push_back(s.xyz[v]); p.push_back(q); }
      if (poly_volume(p) < 0) {
        if (c.t == C_TET) std::swap(c.v[1], c.v[2]);
        else if (c.t == C_PYR) std::swap(c.v[1], c.v[3]);
        else if (c.t == C_PRISM) { std::swap(c.v[1], c.v[2]); std::swap(c.v[4], c.v[5]); }
        else if (c.t == C_HEX) { std::swap(c.v[1], c.v[3]); std::swap(c.v[5], c.v[7]); }
      }
    }
  }
}

inline Spec subset(const Spec &h, unsigned mask, bool compact = true) {
  Spec s{h.name + fmt("/%x", mask), h.dim, {}, {}};
  std::set<int> used;
  for (size_t i = 0; i < h.cells.size(); i++) if (mask >> i & 1) { s.cells.push_back(h.cells[i]); for (int v : h.cells[i].v) used.insert(v); }
  if (!compact) { s.xyz = h.xyz; return s; }
  std::map<int, int> m; for (int v : used) { m[v] = s.xyz.size(); s.xyz.push_back(h.xyz[v]); }
  for (auto &c : s.cells) { for (auto &v : c.v) v = m[v]; for (auto &f : c.faces) for (auto &v : f) v = m[v]; }
  return s;
}

// ---- reference complex: what the spec means ----------------------------------------------------------------------
typedef std::pair<int, int> EK;
inline EK ekey(int a, int b) { return a < b ? EK(a, b) : EK(b, a); }
inline VI skey(VI v) { std::sort(v.begin(), v.end()); return v; }
struct Ref {
  int nv; std::set<EK> E; std::map<VI, VI> F; // sorted vertices -> one cycle
  std::vector<std::vector<VI>> rf;            // per region outward cycles
  explicit Ref(const Spec &s) {
    nv = s.xyz.size();
    for (auto &c : s.cells) {
      std::vector<VI> fs = is3d(c.t) ? outward_faces(c) : std::vector<VI>{c.v};
      if (is3d(c.t)) rf.push_back(fs);
      for (auto &f : fs) { F.emplace(skey(f), f); for (size_t i = 0; i < f.size(); i++) E.insert(ekey(f[i], f[(i + 1) % f.size()])); }
    }
  }
};

// ---- building -----------------------------------------------------------------------------------------------------
struct M { Mesh_ptr m = nullptr; std::vector<MVertex_ptr> v; std::vector<MEntity_ptr> cells; };

inline bool rep_ok(RepType r, const Spec &s) { for (auto &c : s.cells) if (c.t == C_POLYH && (r == R1 || r == R2)) return false; return true; }

// how: 0 elements by vertices; 1 explicit edges, faces, regions.  flip bits choose edge and face directions for how=1
// rot rotates every face's start vertex.
inline M build(const Spec &s, RepType rep, int how = 0, uint64_t flip = 0, int rot = 0, const std::function<void(M &, int)> &after = nullptr) {
  int ncell = 0;
  M r; r.m = MESH_New(rep);
  for (auto &p : s.xyz) { MVertex_ptr v = MV_New(r.m); double x[3] = {p[0], p[1], p[2]}; MV_Set_Coords(v, x); MV_Set_GEntDim(v, s.dim); MV_Set_GEntID(v, 1); r.v.push_back(v); }
  std::map<EK, MEdge_ptr> em; std::map<VI, std::pair<MFace_ptr, VI>> fm; int nbit = 0;
  auto bit = [&] { return (flip >> (nbit++ % 61)) & 1; };
  auto edge = [&](int a, int b) { MEdge_ptr &e = em[ekey(a, b)]; if (!e) { e = ME_New(r.m); bool f = bit(); ME_Set_Vertex(e, 0, r.v[f ? b : a]); ME_Set_Vertex(e, 1, r.v[f ? a : b]); ME_Set_GEntDim(e, s.dim); ME_Set_GEntID(e, 1); } return e; };
  auto face = [&](VI f, int &dir) {
    auto &x = fm[skey(f)];
    if (!x.first) {
      VI g = f; std::rotate(g.begin(), g.begin() + rot % g.size(), g.end());
      if (bit()) std::reverse(g.begin(), g.end());
      x.first = MF_New(r.m); x.second = g; MF_Set_GEntDim(x.first, s.dim); MF_Set_GEntID(x.first, 1);
      std::vector<MEdge_ptr> es; VI ds; for (size_t i = 0; i < g.size(); i++) { MEdge_ptr e = edge(g[i], g[(i + 1) % g.size()]); es.push_back(e); ds.push_back(ME_Vertex(e, 0) == r.v[g[i]]); }
      MF_Set_Edges(x.first, g.size(), es.data(), ds.data());
    }
    VI &g = x.second; int i = std::find(g.begin(), g.end(), f[0]) - g.begin();
    dir = g[(i + 1) % g.size()] == f[1];
    return x.first;
  };
  for (auto &c : s.cells) {
    if (!is3d(c.t)) {
      if (how == 0) { MFace_ptr f = MF_New(r.m); MF_Set_GEntDim(f, 2); MF_Set_GEntID(f, 1); std::vector<MVertex_ptr> q; for (int v : c.v) q.push_back(r.v[v]); MF_Set_Vertices(f, q.size(), q.data()); r.cells.push_back(f); }
      else { int d; r.cells.push_back(face(c.v, d)); }
    } else if (how == 0) {
      MRegion_ptr g = MR_New(r.m); MR_Set_GEntDim(g, 3); MR_Set_GEntID(g, 1); std::vector<MVertex_ptr> q; for (int v : c.v) q.push_back(r.v[v]);
      if (c.t != C_POLYH) MR_Set_Vertices(g, q.size(), q.data(), 0, NULL);
      else {
        std::vector<VI> t; std::vector<int *> tp; for (auto &f : c.faces) { VI x = {(int)f.size()}; for (int v : f) x.push_back(std::find(c.v.begin(), c.v.end(), v) - c.v.begin()); t.push_back(x); }
        for (auto &x : t) tp.push_back(x.data());
        MR_Set_Vertices(g, q.size(), q.data(), tp.size(), tp.data());
      }
      r.cells.push_back(g);
    } else {
      std::vector<MFace_ptr> fs; VI ds; for (auto &f : outward_faces(c)) { int d; fs.push_back(face(f, d)); ds.push_back(d); }
      MRegion_ptr g = MR_New(r.m); MR_Set_GEntDim(g, 3); MR_Set_GEntID(g, 1); MR_Set_Faces(g, fs.size(), fs.data(), ds.data()); r.cells.push_back(g);
    }
    ncell++; if (after) after(r, ncell);
  }
  return r;
}

// ---- small helpers --------------------------------------------------------------------------------------------------
inline std::vector<void *> vec(List_ptr l) { std::vector<void *> r; if (!l) return r; int i = 0; void *p; while ((p = List_Next_Entry(l, &i))) r.push_back(p); List_Delete(l); return r; }
typedef std::vector<void *> VP;
inline VP sorted(VP v) { std::sort(v.begin(), v.end()); return v; }
inline VP all_v(Mesh_ptr m) { VP r; int i = 0; void *p; while ((p = MESH_Next_Vertex(m, &i))) r.push_back(p); return r; }
inline VP all_e(Mesh_ptr m) { VP r; int i = 0; void *p; while ((p = MESH_Next_Edge(m, &i))) r.push_back(p); return r; }
inline VP all_f(Mesh_ptr m) { VP r; int i = 0; void *p; while ((p = MESH_Next_Face(m, &i))) r.push_back(p); return r; }
inline VP all_r(Mesh_ptr m) { VP r; int i = 0; void *p; while ((p = MESH_Next_Region(m, &i))) r.push_back(p); return r; }
inline VP all_of(Mesh_ptr m, int d) { return d == 0 ? all_v(m) : d == 1 ? all_e(m) : d == 2 ? all_f(m) : all_r(m); }
inline bool has(const VP &v, void *x) { return std::find(v.begin(), v.end(), x) != v.end(); }
inline P3 coords(MVertex_ptr v) { double x[3]; MV_Coords(v, x); return {x[0], x[1], x[2]}; }
inline VP fverts(MFace_ptr f, int dir = 1) { return vec(MF_Vertices(f, dir, 0)); }
inline std::vector<P3> pts(const VP &v) { std::vector<P3> r; for (auto x : v) r.push_back(coords(x)); return r; }
inline double face_area(MFace_ptr f) { return norm(area_vec(pts(fverts(f)))); }
inline P3 face_avec(MFace_ptr f) { return area_vec(pts(fverts(f))); }
inline double region_volume(MRegion_ptr r) {
  std::vector<std::vector<P3>> fs; VP rf = vec(MR_Faces(r));
  for (size_t i = 0; i < rf.size(); i++) fs.push_back(pts(fverts(rf[i], MR_FaceDir_i(r, i))));
  return poly_volume(fs);
}

// IDs by list, for messages
inline std::string ids(const VP &v) { std::string s = "{"; for (auto x : v) s += fmt("%d ", x ? MEnt_ID(x) : -1); return s + "}"; }

#define CK(cond, key, ...) do { if (!(cond)) fail(key, __VA_ARGS__); } while (0)

// ---- the consistency oracle ------------------------------------------------------------------------------------------
// Everything is recomputed from the downward definitions (edge->vertices, face->directed edges, region->directed
// faces); every other query of the library must agree with it.  Full representations only (F1, F4).
struct VerifyOpt { bool closed = true; bool pairs = true; bool degenerate_ok = false; int maxfverts = 64; };
inline void verify(Mesh_ptr m, const char *when, VerifyOpt o = VerifyOpt()) {
  std::string W = when; auto K = [&](const char *s) { return W + ": " + s; };
#define CV(cond, what, ...) do { if (!(cond)) fail(K(what).c_str(), __VA_ARGS__); } while (0)
  VP V = all_v(m), E = all_e(m), F = all_f(m), R = all_r(m);
  CV((int)V.size() == MESH_Num_Vertices(m), "MESH_Num_Vertices", "%zu iterated, %d counted", V.size(), MESH_Num_Vertices(m));
  CV((int)E.size() == MESH_Num_Edges(m), "MESH_Num_Edges", "%zu iterated, %d counted", E.size(), MESH_Num_Edges(m));
  CV((int)F.size() == MESH_Num_Faces(m), "MESH_Num_Faces", "%zu iterated, %d counted", F.size(), MESH_Num_Faces(m));
  CV((int)R.size() == MESH_Num_Regions(m), "MESH_Num_Regions", "%zu iterated, %d counted", R.size(), MESH_Num_Regions(m));
  for (size_t i = 0; i < V.size(); i++) CV(MESH_Vertex(m, i) == V[i] && MEnt_Dim(V[i]) == MVERTEX, "MESH_Vertex", "vertex %zu", i);
  for (size_t i = 0; i < E.size(); i++) CV(MESH_Edge(m, i) == E[i] && MEnt_Dim(E[i]) == MEDGE, "MESH_Edge", "edge %zu", i);
  for (size_t i = 0; i < F.size(); i++) CV(MESH_Face(m, i) == F[i] && MEnt_Dim(F[i]) == MFACE, "MESH_Face", "face %zu", i);
  for (size_t i = 0; i < R.size(); i++) CV(MESH_Region(m, i) == R[i] && MEnt_Dim(R[i]) == MREGION, "MESH_Region", "region %zu", i);
  std::set<void *> sV(V.begin(), V.end()), sE(E.begin(), E.end()), sF(F.begin(), F.end()), sR(R.begin(), R.end());
  std::map<void *, std::set<void *>> vE, vF, vR, vV, eF, eR, fR, eV, fE, fV, rF, rE, rV;
  std::map<void *, VP> loopE, loopV; std::map<void *, VI> loopD;
  for (auto e : E) {
    void *a = ME_Vertex(e, 0), *b = ME_Vertex(e, 1);
    CV(a && b && sV.count(a) && sV.count(b), "edge uses a vertex that is not in the mesh", "edge %d", ME_ID(e));
    CV(a != b || o.degenerate_ok, "edge with equal ends", "edge %d", ME_ID(e));
    CV(ME_VertexID(e, 0) == MV_ID(a) && ME_VertexID(e, 1) == MV_ID(b), "ME_VertexID", "edge %d", ME_ID(e));
    CV(ME_OppVertex(e, a) == b && ME_OppVertex(e, b) == a, "ME_OppVertex", "edge %d", ME_ID(e));
    CV(ME_OppVertexID(e, MV_ID(a)) == MV_ID(b), "ME_OppVertexID", "edge %d", ME_ID(e));
    vE[a].insert(e); vE[b].insert(e); vV[a].insert(b); vV[b].insert(a); eV[e] = {a, b};
  }
  for (auto f : F) {
    VP es = vec(MF_Edges(f, 1, 0)); int n = es.size(); VI d(n); VP vs(n);
    CV(n >= (o.degenerate_ok ? 1 : 3) && MF_Num_Edges(f) == n && MF_Num_Vertices(f) == n, "MF_Num_Edges", "face %d: %d edges, counted %d, %d vertices", MF_ID(f), n, MF_Num_Edges(f), MF_Num_Vertices(f));
    for (int i = 0; i < n; i++) {
      CV(es[i] && sE.count(es[i]), "face uses an edge that is not in the mesh", "face %d edge %d", MF_ID(f), i);
      d[i] = MF_EdgeDir_i(f, i); CV(d[i] == 0 || d[i] == 1, "MF_EdgeDir_i", "face %d edge %d dir %d", MF_ID(f), i, d[i]);
      CV(MF_EdgeDir(f, es[i]) == d[i], "MF_EdgeDir", "face %d edge %d: %d, by index %d", MF_ID(f), i, MF_EdgeDir(f, es[i]), d[i]);
      vs[i] = ME_Vertex(es[i], d[i] ? 0 : 1);
    }
    for (int i = 0; i < n; i++) CV(ME_Vertex(es[i], d[i] ? 1 : 0) == vs[(i + 1) % n], "face edges do not form a loop", "face %d at edge %d of %d", MF_ID(f), i, n);
    CV(n < 3 || (int)std::set<void *>(vs.begin(), vs.end()).size() == n, "face visits a vertex twice", "face %d", MF_ID(f));
    loopE[f] = es; loopV[f] = vs; loopD[f] = d;
    for (int i = 0; i < n; i++) { fE[f].insert(es[i]); fV[f].insert(vs[i]); eF[es[i]].insert(f); vF[vs[i]].insert(f); }
    VI idb(n + 8);
    for (int st = -1; st < std::min(n, o.maxfverts); st++) for (int dir = 0; dir < 2; dir++) {
      VP qv = vec(MF_Vertices(f, dir, st < 0 ? NULL : vs[st])), qe = vec(MF_Edges(f, dir, st < 0 ? NULL : vs[st]));
      CV((int)qv.size() == n && (int)qe.size() == n, "MF_Vertices/MF_Edges length", "face %d start %d dir %d: %zu vertices %zu edges of %d", MF_ID(f), st, dir, qv.size(), qe.size(), n);
      int s0 = st;
      if (st < 0) { s0 = std::find(vs.begin(), vs.end(), qv[0]) - vs.begin(); CV(s0 < n, "MF_Vertices", "face %d: foreign vertex", MF_ID(f)); if (dir) CV(s0 == 0, "MF_Vertices start", "face %d: default start %d", MF_ID(f), s0); }
      for (int i = 0; i < n; i++) CV(qv[i] == vs[((s0 + (dir ? i : -i)) % n + n) % n], "MF_Vertices order", "face %d start %d dir %d: vertex %d is %d", MF_ID(f), st, dir, i, MEnt_ID(qv[i]));
      // edges in the same direction from the same start
      int e0 = dir ? s0 : ((s0 - 1) % n + n) % n;
      if (st < 0) { int k = std::find(es.begin(), es.end(), qe[0]) - es.begin(); CV(k < n, "MF_Edges", "foreign edge"); e0 = k; }
      for (int i = 0; i < n; i++) CV(qe[i] == es[((e0 + (dir ? i : -i)) % n + n) % n], "MF_Edges order", "face %d start %d dir %d: edge %d is %d", MF_ID(f), st, dir, i, MEnt_ID(qe[i]));
      int nn = -1; MF_VertexIDs(f, dir, st < 0 ? 0 : MV_ID(vs[st]), &nn, idb.data());
      CV(nn == n, "MF_VertexIDs", "face %d: %d of %d", MF_ID(f), nn, n); for (int i = 0; i < n; i++) CV(idb[i] == MV_ID(qv[i]), "MF_VertexIDs", "face %d start %d dir %d pos %d: %d expected %d", MF_ID(f), st, dir, i, idb[i], MV_ID(qv[i]));
      nn = -1; MF_EdgeIDs(f, dir, st < 0 ? 0 : MV_ID(vs[st]), &nn, idb.data());
      CV(nn == n, "MF_EdgeIDs", "face %d: %d of %d", MF_ID(f), nn, n); for (int i = 0; i < n; i++) CV(idb[i] == ME_ID(qe[i]), "MF_EdgeIDs", "face %d start %d dir %d pos %d: %d expected %d", MF_ID(f), st, dir, i, idb[i], ME_ID(qe[i]));
    }
  }
  std::map<void *, std::vector<std::pair<void *, int>>> rFd;
  for (auto r : R) {
    VP fs = vec(MR_Faces(r)); int n = fs.size();
    CV(MR_Num_Faces(r) == n, "MR_Num_Faces", "region %d", MR_ID(r));
    std::map<EK, int> dummy; std::map<void *, int> euse;
    for (int i = 0; i < n; i++) {
      CV(fs[i] && sF.count(fs[i]), "region uses a face that is not in the mesh", "region %d face %d", MR_ID(r), i);
      int d = MR_FaceDir_i(r, i); CV(d == 0 || d == 1, "MR_FaceDir_i", "region %d face %d: %d", MR_ID(r), i, d);
      CV(MR_FaceDir(r, fs[i]) == d, "MR_FaceDir", "region %d face %d", MR_ID(r), i);
      CV(rF[r].insert(fs[i]).second, "region lists a face twice", "region %d face %d", MR_ID(r), MF_ID(fs[i]));
      fR[fs[i]].insert(r); rFd[fs[i]].push_back({r, d});
      for (size_t k = 0; k < loopE[fs[i]].size(); k++) { euse[loopE[fs[i]][k]] += (loopD[fs[i]][k] == d) ? 1 : 100; }
      for (auto e : fE[fs[i]]) { rE[r].insert(e); eR[e].insert(r); } for (auto v : fV[fs[i]]) { rV[r].insert(v); vR[v].insert(r); }
    }
    if (o.closed) for (auto &x : euse) CV(x.second == 101, "region boundary is not closed and consistently directed", "region %d edge %d: use code %d", MR_ID(r), ME_ID(x.first), x.second);
    VP q = vec(MR_Edges(r)); CV(sorted(q) == VP(rE[r].begin(), rE[r].end()), "MR_Edges", "region %d: %s", MR_ID(r), ids(q).c_str());
    CV(MR_Num_Edges(r) == (int)q.size(), "MR_Num_Edges", "region %d", MR_ID(r));
    VP qv = vec(MR_Vertices(r)); CV(sorted(qv) == VP(rV[r].begin(), rV[r].end()), "MR_Vertices", "region %d: %s", MR_ID(r), ids(qv).c_str());
    CV(MR_Num_Vertices(r) == (int)qv.size(), "MR_Num_Vertices", "region %d", MR_ID(r));
    VI b(q.size() + qv.size() + n + 8); int nn;
    nn = -1; MR_EdgeIDs(r, &nn, b.data()); CV(nn == (int)q.size(), "MR_EdgeIDs", "region %d: %d", MR_ID(r), nn); for (int i = 0; i < nn; i++) CV(b[i] == ME_ID(q[i]), "MR_EdgeIDs", "region %d pos %d", MR_ID(r), i);
    nn = -1; MR_VertexIDs(r, &nn, b.data()); CV(nn == (int)qv.size(), "MR_VertexIDs", "region %d: %d", MR_ID(r), nn); for (int i = 0; i < nn; i++) CV(b[i] == MV_ID(qv[i]), "MR_VertexIDs", "region %d pos %d", MR_ID(r), i);
    nn = -1; MR_FaceIDs(r, &nn, b.data()); CV(nn == n, "MR_FaceIDs", "region %d: %d", MR_ID(r), nn); for (int i = 0; i < nn; i++) CV(b[i] == MF_ID(fs[i]), "MR_FaceIDs", "region %d pos %d", MR_ID(r), i);
  }
  auto same = [&](List_ptr l, const std::set<void *> &s, const char *nm, void *ent) {
    VP q = vec(l); CV(sorted(q) == VP(s.begin(), s.end()), nm, "%s of entity %d (dim %d): got %s expected %s", nm, MEnt_ID(ent), (int)MEnt_Dim(ent), ids(q).c_str(), ids(VP(s.begin(), s.end())).c_str());
    return q;
  };
  auto idsame = [&](const VP &q, void (*fn)(void *, int *, int *), const char *nm, void *ent) {
    VI b(q.size() + 8, -7); int n = -1; fn(ent, &n, b.data()); CV(n == (int)q.size(), nm, "%s of %d: %d, expected %zu", nm, MEnt_ID(ent), n, q.size());
    VI x; for (auto y : q) x.push_back(MEnt_ID(y)); b.resize(n); CV(skey(b) == skey(x), nm, "%s of %d", nm, MEnt_ID(ent));
  };
  for (auto v : V) {
    VP q = same(MV_Edges(v), vE[v], "MV_Edges", v); CV(MV_Num_Edges(v) == (int)q.size(), "MV_Num_Edges", "vertex %d: %d", MV_ID(v), MV_Num_Edges(v)); idsame(q, (void (*)(void *, int *, int *))MV_EdgeIDs, "MV_EdgeIDs", v);
    q = same(MV_Faces(v), vF[v], "MV_Faces", v); CV(MV_Num_Faces(v) == (int)q.size(), "MV_Num_Faces", "vertex %d: %d", MV_ID(v), MV_Num_Faces(v)); idsame(q, (void (*)(void *, int *, int *))MV_FaceIDs, "MV_FaceIDs", v);
    q = same(MV_Regions(v), vR[v], "MV_Regions", v); CV(MV_Num_Regions(v) == (int)q.size(), "MV_Num_Regions", "vertex %d: %d", MV_ID(v), MV_Num_Regions(v)); idsame(q, (void (*)(void *, int *, int *))MV_RegionIDs, "MV_RegionIDs", v);
    q = same(MV_AdjVertices(v), vV[v], "MV_AdjVertices", v); CV(MV_Num_AdjVertices(v) == (int)q.size(), "MV_Num_AdjVertices", "vertex %d", MV_ID(v));
  }
  for (auto e : E) {
    VP q = same(ME_Faces(e), eF[e], "ME_Faces", e); CV(ME_Num_Faces(e) == (int)q.size(), "ME_Num_Faces", "edge %d", ME_ID(e)); idsame(q, (void (*)(void *, int *, int *))ME_FaceIDs, "ME_FaceIDs", e);
    q = same(ME_Regions(e), eR[e], "ME_Regions", e); CV(ME_Num_Regions(e) == (int)q.size(), "ME_Num_Regions", "edge %d", ME_ID(e)); idsame(q, (void (*)(void *, int *, int *))ME_RegionIDs, "ME_RegionIDs", e);
  }
  for (auto f : F) {
    VP q = same(MF_Regions(f), fR[f], "MF_Regions", f); idsame(q, (void (*)(void *, int *, int *))MF_RegionIDs, "MF_RegionIDs", f);
    CV(q.size() <= 2, "face with more than two regions", "face %d", MF_ID(f));
    void *side[2] = {NULL, NULL};
    for (auto &x : rFd[f]) { CV(!side[!x.second] || !o.closed, "two regions on one side of a face", "face %d", MF_ID(f)); side[!x.second] = x.first; }
    for (int s = 0; s < 2; s++) {
      CV(MF_Region(f, s) == side[s], "MF_Region side", "face %d side %d: region %d expected %d", MF_ID(f), s, MF_Region(f, s) ? MR_ID(MF_Region(f, s)) : 0, side[s] ? MR_ID(side[s]) : 0);
      CV(MF_RegionID(f, s) == (side[s] ? MR_ID(side[s]) : 0), "MF_RegionID", "face %d side %d: %d", MF_ID(f), s, MF_RegionID(f, s));
    }
  }
  for (auto r : R) {
    std::set<void *> adj; for (auto f : rF[r]) for (auto x : fR[f]) if (x != r) adj.insert(x);
    VP q = vec(MR_AdjRegions(r)); std::set<void *> qs(q.begin(), q.end());
    CV(qs == adj, "MR_AdjRegions", "region %d: %s expected %s", MR_ID(r), ids(q).c_str(), ids(VP(adj.begin(), adj.end())).c_str());
    size_t shared = 0; for (auto f : rF[r]) shared += fR[f].size() - 1;
    CV(q.size() == shared, "MR_AdjRegions count", "region %d: %zu entries for %zu shared faces", MR_ID(r), q.size(), shared);
    VI b(q.size() + 8); int nn = -1; MR_AdjRegionIDs(r, &nn, b.data()); CV(nn == (int)q.size(), "MR_AdjRegionIDs", "region %d", MR_ID(r));
    VI x; for (auto y : q) x.push_back(MR_ID(y)); b.resize(nn); CV(skey(b) == skey(x), "MR_AdjRegionIDs", "region %d", MR_ID(r));
  }
  if (o.pairs) {
    for (auto e : E) for (auto v : V) CV(!!ME_UsesEntity(e, v, MVERTEX) == !!eV[e].count(v), "ME_UsesEntity", "edge %d vertex %d", ME_ID(e), MV_ID(v));
    for (auto f : F) { for (auto v : V) CV(!!MF_UsesEntity(f, v, MVERTEX) == !!fV[f].count(v), "MF_UsesEntity vertex", "face %d vertex %d", MF_ID(f), MV_ID(v));
      for (auto e : E) { CV(!!MF_UsesEntity(f, e, MEDGE) == !!fE[f].count(e), "MF_UsesEntity edge", "face %d edge %d", MF_ID(f), ME_ID(e)); } }
    for (auto r : R) { for (auto v : V) CV(!!MR_UsesEntity(r, v, MVERTEX) == !!rV[r].count(v), "MR_UsesEntity vertex", "region %d vertex %d", MR_ID(r), MV_ID(v));
      for (auto e : E) CV(!!MR_UsesEntity(r, e, MEDGE) == !!rE[r].count(e), "MR_UsesEntity edge", "region %d edge %d", MR_ID(r), ME_ID(e));
      for (auto f : F) { CV(!!MR_UsesEntity(r, f, MFACE) == !!rF[r].count(f), "MR_UsesEntity face", "region %d face %d", MR_ID(r), MF_ID(f)); if (!rF[r].count(f)) CV(MR_FaceDir(r, f) == -1, "MR_FaceDir of a foreign face", "region %d face %d: %d", MR_ID(r), MF_ID(f), MR_FaceDir(r, f)); } }
  }
#undef CV
}

// ---- canonical snapshot -------------------------------------------------------------------------------------------
// label: vertex -> stable label.  Cycles are normalised; faces and regions keep their directions relative to labels
// unless undirected.
typedef std::map<void *, int> Lab;
inline VI norm_cycle(VI c, bool directed) {
  auto rot = [](VI c) { std::rotate(c.begin(), std::min_element(c.begin(), c.end()), c.end()); return c; };
  VI a = rot(c); if (directed) return a; std::reverse(c.begin(), c.end()); VI b = rot(c); return std::min(a, b);
}
inline std::string str(const VI &v) { std::string s; for (int x : v) s += fmt("%d,", x); return s; }
struct SnapOpt { bool coords = true, cls = true, facedir = false, types = true; int prec = 9; };
inline std::string snap_cls(void *e, const SnapOpt &o) { return o.cls ? fmt(" g%d/%d", MEnt_GEntDim(e), MEnt_GEntID(e)) : ""; }
inline VI lab(const VP &v, const Lab &L) { VI r; for (auto x : v) { auto i = L.find(x); r.push_back(i == L.end() ? -99 : i->second); } return r; }
inline std::string key_of(void *e, const Lab &L) {
  switch (MEnt_Dim(e)) {
  case MVERTEX: { auto i = L.find(e); return fmt("v%d", i == L.end() ? -99 : i->second); }
  case MEDGE: { VI q = lab({ME_Vertex(e, 0), ME_Vertex(e, 1)}, L); return "e" + str(skey(q)); }
  case MFACE: return "f" + str(norm_cycle(lab(fverts(e), L), false));
  case MREGION: { std::vector<std::string> s; VP fs = vec(MR_Faces(e)); for (size_t i = 0; i < fs.size(); i++) s.push_back(str(norm_cycle(lab(fverts(fs[i], MR_FaceDir_i(e, i)), L), true))); std::sort(s.begin(), s.end()); std::string r = "r"; for (auto &x : s) r += "(" + x + ")"; return r; }
  default: return "deleted";
  }
}
inline std::set<std::string> snapshot(Mesh_ptr m, const Lab &L, SnapOpt o = SnapOpt()) {
  std::set<std::string> S; int dup = 0;
  auto put = [&](std::string s) { std::string t = s; while (!S.insert(t).second) t = s + fmt(" dup%d", ++dup); };
  for (auto v : all_v(m)) { P3 p = coords(v); put(key_of(v, L) + (o.coords ? fmt(" %.*g %.*g %.*g", o.prec, p[0] + 0.0, o.prec, p[1] + 0.0, o.prec, p[2] + 0.0) : "") + snap_cls(v, o)); }
  for (auto e : all_e(m)) put(key_of(e, L) + snap_cls(e, o));
  for (auto f : all_f(m)) put(key_of(f, L) + (o.facedir ? " d" + str(norm_cycle(lab(fverts(f), L), true)) : "") + snap_cls(f, o));
  for (auto r : all_r(m)) put(key_of(r, L) + (o.types ? fmt(" t%d", (int)MR_ElementType(r)) : "") + snap_cls(r, o));
  return S;
}
inline std::string diff(const std::set<std::string> &a, const std::set<std::string> &b, int lim = 6) {
  std::string s; int n = 0;
  for (auto &x : a) if (!b.count(x) && n++ < lim) s += " missing[" + x + "]";
  n = 0; for (auto &x : b) if (!a.count(x) && n++ < lim) s += " extra[" + x + "]";
  return s;
}
inline Lab label_by_order(const std::vector<MVertex_ptr> &v) { Lab L; for (size_t i = 0; i < v.size(); i++) L[v[i]] = i; return L; }
// labels from coordinates of the spec (they are all different); -99 for unknown places
inline Lab label_by_coords(Mesh_ptr m, const std::vector<P3> &x, double tol = 1e-6) {
  Lab L; for (auto v : all_v(m)) { P3 p = coords(v); int l = -99; for (size_t i = 0; i < x.size(); i++) if (norm(sub(p, x[i])) < tol) { l = i; break; } L[v] = l; } return L;
}
// the snapshot a mesh of this spec must have (classification: everything on (dim,1) as build() sets it)
inline std::set<std::string> expected_elements(const Spec &s) {
  std::set<std::string> S; Ref R(s);
  for (size_t i = 0; i < s.xyz.size(); i++) S.insert(fmt("v%zu", i));
  for (auto &e : R.E) S.insert(fmt("e%d,%d,", e.first, e.second));
  for (auto &f : R.F) S.insert("f" + str(norm_cycle(f.second, false)));
  for (auto &r : R.rf) { std::vector<std::string> q; for (auto &f : r) q.push_back(str(norm_cycle(f, true))); std::sort(q.begin(), q.end()); std::string t = "r"; for (auto &x : q) t += "(" + x + ")"; S.insert(t); }
  return S;
}
inline std::set<std::string> elements(Mesh_ptr m, const Lab &L) { SnapOpt o; o.coords = o.cls = o.types = false; return snapshot(m, L, o); }
}
