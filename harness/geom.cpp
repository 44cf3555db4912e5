// P30: geometric quantities against their definitions
#include "alpha.hpp"
using namespace mm; using namespace vf;
static Alpha *A;
static double len(P3 a) { return sqrt(dot(a, a)); }
static bool near(double a, double b, double eps = 1e-9) { return fabs(a - b) <= eps * std::max(1., fabs(b)); }
// component of the direction from the edge to the face's centre (third vertex of a triangle) across the edge
static P3 across(void *f, void *e) { VP q = fverts(f); P3 a = coords(ME_Vertex(e, 0)), b = coords(ME_Vertex(e, 1)), c; for (int k = 0; k < 3; k++) { c[k] = 0; for (auto v : q) c[k] += coords(v)[k]; c[k] /= q.size(); } P3 u = sub(b, a), d = sub(c, a); double t = dot(u, d) / dot(u, u); for (int k = 0; k < 3; k++) d[k] -= t * u[k]; double l = len(d); for (int k = 0; k < 3; k++) d[k] /= l; return d; }
static void run() {
  Spec s = A->spec(thorough ? 6 : 3); if (!A->mask) return; How hw = pick_how(2); M b = build(s, hw); Mesh_ptr m = b.m; int place = pick(5, "placement"), ren = pick(2, "renumbered"); VF_TRACE("%s rep %d how %d/%d placement %d renumbered %d", s.name.c_str(), hw.rep, hw.how, hw.fl, place, ren);
  if (ren) MESH_Renumber(m, 1, MALLTYPE);
  for (auto v : all_v(m)) { P3 p = coords(v); double x[3] = {p[0], p[1], p[2]}; if (place == 1) { x[2] += 0.3 * p[0] * p[1]; x[0] += 0.2 * p[1] * p[1]; } if (place == 2) { x[0] = p[0] + 0.5 * p[1] + 0.25 * p[2]; x[1] = 0.5 * p[1] - p[2]; x[2] = p[0] * 0.1 + p[1] + 2 * p[2]; } if (place == 3) for (auto &z : x) z = z * 1e-4 + 3; if (place == 4) { x[2] = p[2] + (p[0] > 0.9 ? 0.7 * (p[0] - 0.9) : 0) + 0.1 * sin(3 * p[1] + p[0]); x[1] *= 1e3; } MV_Set_Coords(v, x); }
  VP E = all_e(m), F = all_f(m); double tol = place == 3 ? 1e-7 : 1e-9; int na = 0, nd = 0, np = 0;
  for (auto e : E) { P3 d = sub(coords(ME_Vertex(e, 1)), coords(ME_Vertex(e, 0))); step(); CK(near(ME_Len(e) / len(d), 1, 1e-12) && near(ME_LenSqr(e) / dot(d, d), 1, 1e-12), "length of an edge", "%.15g instead of %.15g", ME_Len(e), len(d)); }
  for (auto f : F) { VP q = fverts(f); int n = -1; double x[MAXPV2][3]; MF_Coords(f, &n, x); bool ok = n == (int)q.size(); for (int i = 0; ok && i < n; i++) for (int k = 0; k < 3; k++) ok = ok && x[i][k] == coords(q[i])[k]; CK(ok, "coordinates of a face", "%d points for %zu vertices", n, q.size()); step();
    double c[MAXPV2]; n = -1; MF_CondNums(f, &n, c); CK(n == (int)q.size(), "number of corners", "%d", n); for (int i = 0; i < n; i++) { P3 o = coords(q[i]), u = sub(coords(q[(i + 1) % n]), o), w = sub(coords(q[(i + n - 1) % n]), o); double ar = len(cross(u, w)); if (ar < 1e-3 * len(u) * len(w)) continue; double want = (dot(u, u) + dot(w, w)) / (2 * ar); CK(near(c[i] / want, 1, 1e-5), "condition number of a corner", "corner %d of %d: %.10g instead of %.10g", i, n, c[i], want); } }
  for (auto r : all_r(m)) { VP q = vec(MR_Vertices(r)); int n = -1; double x[MAXPV3][3]; MR_Coords(r, &n, x); bool ok = n == (int)q.size(); for (int i = 0; ok && i < n; i++) for (int k = 0; k < 3; k++) ok = ok && x[i][k] == coords(q[i])[k]; CK(ok, "coordinates of a region", "%d points for %zu vertices", n, q.size()); step(); }
  for (auto e : E) for (auto g : E) if (e != g) { void *c = NULL; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (ME_Vertex(e, i) == ME_Vertex(g, j)) c = ME_Vertex(e, i); if (!c) continue; auto away = [&](void *x) { void *o = ME_Vertex(x, 0) == c ? ME_Vertex(x, 1) : ME_Vertex(x, 0); return sub(coords(o), coords(c)); }; P3 u = away(e), w = away(g); double want = dot(u, w) / len(u) / len(w), got = MEs_Angle(e, g); step(); na++; CK(near(got, want, tol), "angle of two edges", "cosine %.12g instead of %.12g", got, want); }
  for (auto e : E) { VP ef = vec(ME_Faces(e)); for (auto f : ef) for (auto g : ef) if (f != g) { P3 u = across(f, e), w = across(g, e); double want = dot(u, w), got = MFs_DihedralAngle(f, g, e); step(); nd++; if (fverts(f).size() != fverts(g).size()) np++; CK(near(got, want, tol), "dihedral angle", "cosine %.12g instead of %.12g between faces of %zu and %zu vertices", got, want, fverts(f).size(), fverts(g).size());
      int common = 0; VP fe = vec(MF_Edges(f, 1, 0)), ge = vec(MF_Edges(g, 1, 0)); for (auto x : fe) common += std::count(ge.begin(), ge.end(), x); if (common == 1) { double q = MFs_DihedralAngle(f, g, NULL); CK(near(q, want, tol), "dihedral angle, edge not given", "cosine %.12g instead of %.12g", q, want); } } }
  if (na) count("edge angles"); if (nd) count("dihedral angles"); if (np) count("faces of different size"); count(s.dim == 3 ? "volume" : "surface"); if (place == 1 || place == 4) count("curved placement"); MESH_Delete(m);
  H h; h.add(A->id()); h.add(hw.rep * 16 + hw.how * 8 + hw.fl); h.add(place * 2 + ren); state(h.h); nontrivial(h.h);
}
int main(int c, char **v) { A = new Alpha(); Options o; o.property = "P30"; o.run = run; return vf::main(c, v, o); }
