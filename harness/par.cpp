// P40, P41: distribution of a mesh from rank 0
#include "par.hpp"
using namespace pm; using namespace vf;
static Alpha *A; static std::string fam; static int lim, maxr, maxc;
static void run() {
  Spec s = A->spec(maxc); if (!A->mask) return; int n = s.cells.size(); int k = 1 + pick(maxr, "ranks"); if (k > n) return; if (n > lim && k > 1 && __builtin_popcount(A->mask) != (int)A->hosts[A->hi].cells.size() && !thorough) return;
  VI part = pick_part(n, k, k == 2 ? lim : lim - 1); if (!all_used(part, k)) return; int ring = pick(fam == "own" ? 2 : 3, "layers"); How hw{pick(2, "rep") ? F4 : F1, 0, 0}; hw.how = hw.fl = 0; if (pick(2, "how")) { hw.how = 1; hw.fl = 3; } int md = pick(thorough ? 4 : 2, "timing"), into = pick(2, "into"); if (into && (ring == 0 || hw.how)) return; int again = pick(2, "again"); if (again && (into || md || n > 3)) return; int del = pick(2, "delete parent"); if (del && (md || hw.how || again)) return; if (!thorough && ring == 2 && (md || hw.how)) return;
  M M0 = build(s, hw); VI mat(n); for (int i = 0; i < n; i++) mat[i] = 1 + i % 2; classify(M0.m, s.dim, mat); auto pl = places(s); VL L = vlabels(M0.m, pl); Whole w = whole(M0.m, s.dim, L); sim::answer = part;
  VF_TRACE("%s ranks %d partition %s layers %d rep %d how %d timing %d into %d", s.name.c_str(), k, str(part).c_str(), ring, (int)hw.rep, hw.how, md, into);
  auto rep = sim::run(k, mode_of(md), [&](int r) { if (again) { VI o = part; sim::answer.assign(o.rbegin(), o.rend()); Mesh_ptr first = distribute(M0.m, s.dim, 1, 1); MESH_Delete(first); sim::answer = part; count("distributed twice"); } Mesh_ptr my = distribute(M0.m, s.dim, ring, 1, 0, del, into ? MESH_New(hw.rep) : NULL); CK(MESH_RepType(my) == hw.rep, "representation", "%d", (int)MESH_RepType(my)); VL l = vlabels(my, pl); for (auto &x : l) CK(x.second >= 0, "vertex at a place where the mesh has none", "rank %d", r); VerifyOpt o; o.pairs = false; verify(my, "part", o); sim::report(dump(my, l)); MESH_Delete(my); });
  step(); Dist D = parse(rep);
  if (fam == "own") check_content(D, w, part, ring); else { check_identity(D); for (int r = 0; r < k; r++) { std::set<VI> el; for (int c : layers(w, part, r, ring)) el.insert(w.key[c]); std::set<VI> got; for (auto &e : D[r].e) if (e.kind == s.dim) got.insert(e.v); CK(el == got, "elements within the requested layers", "rank %d: %zu, expected %zu", r, got.size(), el.size()); } }
  H h; h.add(A->id()); for (int x : part) h.add(x); h.add(ring); h.add(k); h.add(hw.rep * 2 + hw.how); state(h.h); if (k > 1) nontrivial(h.h); count(s.dim == 3 ? "3D" : "2D"); if (k > 2) count("three ranks"); if (ring == 2) count("two layers"); MESH_Delete(M0.m);
}
int main(int c, char **v) { fam = "own"; static Options o; o.property = "P40"; o.worker_init = [] {}; o.run = [] { static bool init = false; if (!init) { init = true; fam = arg("fam", "own"); lim = atoi(arg("lim", thorough ? "6" : "4").c_str()); maxc = atoi(arg("cells", "99").c_str()); maxr = atoi(arg("ranks", thorough ? "4" : "3").c_str()); } run(); };
  A = new Alpha(std::vector<Spec>{host_quad(2, 2), host_mix2(), host_surf(), host_kuhn(), host_hex(2, 2, 1), host_mix3()}); return vf::main(c, v, o); }
