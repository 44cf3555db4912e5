// P04: adjacency is reciprocal and exact at every step of construction and removal (F1 and F4)
#include "mesh.hpp"
using namespace mm; using namespace vf;

static std::vector<Spec> hosts;
static Spec single(const char *n, int dim, CT t, std::vector<P3> x) { Spec s{n, dim, x, {}}; VI v; for (size_t i = 0; i < x.size(); i++) v.push_back(i); s.cells.push_back(cell(t, v)); return s; }
static std::vector<Spec> small;
static void init() {
  hosts = {host_tri8(), host_quad(2, 2), host_mix2(), host_surf(), host_kuhn(), host_hex(2, 2, 1), host_mix3()};
  for (auto &h : hosts) orient(h);
  small = {single("tri", 2, C_TRI, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}), single("quad", 2, C_QUAD, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}),
           single("penta", 2, C_POLY, {{0, 0, 0}, {2, 0, 0}, {3, 1, 0}, {1, 3, 0}, {-1, 1, 0}}),
           single("tet", 3, C_TET, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}),
           single("pyr", 3, C_PYR, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {.5, .5, 1}}),
           single("prism", 3, C_PRISM, {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}}),
           subset(hosts[0], 0x3), subset(hosts[0], 0xf), subset(hosts[2], 0x3), subset(hosts[3], 0x13), subset(hosts[4], 0x3 | 0), subset(hosts[4], 0x9)};
  for (auto &h : small) orient(h);
}
static std::set<std::string> plus_loose(const Spec &s, int ncell) { Spec t = s; t.cells.resize(ncell); return expected_elements(t); }

// every direction of every edge and face, every start vertex of the faces, checked after every cell
static void build_all() {
  int k = pick((int)small.size(), "spec"); const Spec &s = small[k];
  RepType rep = pick(2, "rep") ? F4 : F1;
  Ref R(s); int nb = R.E.size() + (s.dim == 3 ? R.F.size() : R.F.size());
  int lim = thorough ? 18 : 8; int nfree = std::min(nb, lim); uint64_t flip = 0;
  for (int i = 0; i < nfree; i += 5) flip |= (uint64_t)pick(1 << std::min(5, nfree - i), "flips") << i;
  if (nb > nfree) { int p = pick(3, "rest"); for (int i = nfree; i < nb; i++) if (p == 1 || (p == 2 && (i & 1))) flip |= 1ull << i; }
  int rot = pick(thorough ? 4 : 2, "rot");
  VF_TRACE("%s rep %d flip %llx rot %d", s.name.c_str(), rep, (unsigned long long)flip, rot);
  M m = build(s, rep, 1, flip, rot, [&](M &m, int n) {
    std::string d = diff(plus_loose(s, n), elements(m.m, label_by_order(m.v)));
    CK(d.empty(), "build: elements are not those described", "%s after %d cells:%s", s.name.c_str(), n, d.c_str());
    verify(m.m, rep == F1 ? "build F1" : "build F4");
    step();
  });
  H h; h.add(k); h.add(rep); h.add(flip); h.add(rot); nontrivial(h.h); state(h.h); count("flip meshes");
  MESH_Delete(m.m);
}

// histories of deleting, detaching, restoring and re-creating entities on every subset mesh
struct Kept { void *e; std::string key; std::set<void *> parts; };
static void histories() {
  int hi = pick((int)hosts.size(), "host"); const Spec &h = hosts[hi]; int nc = h.cells.size();
  unsigned mask = pick((1 << nc) - 1, "mask") + 1;
  int cells = __builtin_popcount(mask);
  Spec s = subset(h, mask);
  RepType rep = pick(2, "rep") ? F4 : F1; int how = pick(2, "how");
  static const uint64_t FL[4] = {0, ~0ull, 0xaaaaaaaaaaaaaaaaull, 0x36db6db6db6db6dbull};
  int fl = how ? pick(4, "flip") : 0;
  int depth = thorough ? (cells <= 1 ? 4 : cells <= 4 ? 3 : 2) : (cells <= 1 ? 3 : cells <= 2 ? 2 : 1);
  if (!thorough && cells <= 1 && how == 1 && fl) depth = 2;
  if (!thorough && cells == 2 && how == 1 && fl > 1) return;
  if (!thorough && cells > 3 && how == 1 && fl % 2 == 0) return;
  if (how == 1 && fl && !thorough) depth = std::min(depth, 1);
  VF_TRACE("%s rep %d how %d flip %d", s.name.c_str(), rep, how, fl);
  const char *W = rep == F1 ? "history F1" : "history F4";
  M m = build(s, rep, how, FL[fl]);
  Lab L = label_by_order(m.v);
  std::set<std::string> want = expected_elements(s);
  auto check = [&](const char *op) {
    std::string d = diff(want, elements(m.m, L));
    CK(d.empty(), (std::string(W) + ": " + op + " changed other entities").c_str(), "%s:%s", s.name.c_str(), d.c_str());
    verify(m.m, (std::string(W) + " after " + op).c_str(), VerifyOpt{true, depth < 3, false, 64});
    step();
  };
  check("build");
  std::vector<Kept> kept; int ops = 0;
  H path;
  for (; ops < depth; ops++) {
    // candidates: regions; faces without regions; edges without faces; vertices without edges.  By symmetry classes
    // nothing is skipped: every entity is a candidate.
    std::vector<void *> cand;
    for (int d = 3; d >= 0; d--) for (auto e : all_of(m.m, d)) {
      bool used = d == 3 ? false : d == 2 ? vec(MF_Regions(e)).size() > 0 : d == 1 ? vec(ME_Faces(e)).size() > 0 : vec(MV_Edges(e)).size() > 0;
      if (!used) cand.push_back(e);
    }
    int nact = 1 + 2 * cand.size() + (kept.empty() ? 0 : 1);
    int a = pick(std::min(nact, 250), "action");
    if (a == 0) break;
    a--;
    if (a < (int)cand.size() * 2) {
      void *e = cand[a / 2]; int keep = a & 1;
      // what a detached entity is made of may be detached too, but not destroyed
      bool needed = false; for (auto &k : kept) if (k.parts.count(e)) needed = true;
      if (needed && !keep) return;
      std::set<void *> parts; std::string key = key_of(e, L); MType dim = MEnt_Dim(e);
      VF_TRACE("delete %s keep %d", key.c_str(), keep);
      for (auto p : dim == MREGION ? vec(MR_Faces(e)) : dim == MFACE ? vec(MF_Edges(e, 1, 0)) : dim == MEDGE ? VP{ME_Vertex(e, 0), ME_Vertex(e, 1)} : VP{}) parts.insert(p);
      if (dim == MREGION) MR_Delete(e, keep); else if (dim == MFACE) MF_Delete(e, keep); else if (dim == MEDGE) ME_Delete(e, keep); else MV_Delete(e, keep);
      want.erase(key);
      if (keep) { CK(MEnt_Dim(e) == MDELETED && MEnt_OrigDim(e) == dim, "MEnt_OrigDim of a detached entity", "%s", key.c_str()); kept.push_back({e, key, parts}); }
      count(keep ? "detach" : "delete"); check(keep ? "detach" : "delete");
    } else {
      Kept k = kept.back(); kept.pop_back(); VF_TRACE("restore %s", k.key.c_str());
      MType od = MEnt_OrigDim(k.e);
      if (od == MREGION) MR_Restore(k.e); else if (od == MFACE) MF_Restore(k.e); else if (od == MEDGE) ME_Restore(k.e); else MV_Restore(k.e);
      want.insert(k.key); count("restore"); check("restore");
    }
  }
  H q; q.add(hi); q.add(mask); q.add(rep); q.add(how); q.add(fl); for (auto &x : want) q.add(x); q.add(kept.size()); state(q.h); if (ops) nontrivial(q.h);
  MESH_Delete(m.m);
}

// complete teardown in every order of the cells, then top-down, then complete rebuilding in the same mesh
static void teardown() {
  int hi = pick((int)hosts.size(), "host"); const Spec &h = hosts[hi]; int nc = h.cells.size();
  unsigned mask = pick((1 << nc) - 1, "mask") + 1; int cells = __builtin_popcount(mask);
  if (cells > (thorough ? 5 : 3)) return;
  Spec s = subset(h, mask); RepType rep = pick(2, "rep") ? F4 : F1;
  const char *W = rep == F1 ? "teardown F1" : "teardown F4";
  M m = build(s, rep, 0); Lab L = label_by_order(m.v);
  std::vector<void *> rest(m.cells.begin(), m.cells.end());
  std::set<std::string> want = expected_elements(s);
  std::set<std::string> cellkeys;
  while (rest.size()) {
    int i = pick(rest.size(), "cell"); void *e = rest[i]; rest.erase(rest.begin() + i);
    int d0 = MEnt_Dim(e); want.erase(key_of(e, L)); if (d0 == MREGION) MR_Delete(e, 0); else MF_Delete(e, 0);
    // remove what is now unused, faces first
    int drop = 1;
    if (drop) for (int d = d0 - 1; d >= 1; d--) for (auto x : all_of(m.m, d)) {
      bool used = d == 2 ? vec(MF_Regions(x)).size() > 0 : vec(ME_Faces(x)).size() > 0;
      if (!used) { want.erase(key_of(x, L)); if (d == 2) MF_Delete(x, 0); else ME_Delete(x, 0); }
    }
    std::string df = diff(want, elements(m.m, L)); CK(df.empty(), (std::string(W) + ": wrong elements left").c_str(), "%s:%s", s.name.c_str(), df.c_str());
    verify(m.m, W, VerifyOpt{true, false, false, 2}); step();
  }
  // rebuild on the same vertices, reverse cell order
  for (int i = s.cells.size() - 1; i >= 0; i--) {
    const Cell &c = s.cells[i]; std::vector<MVertex_ptr> q; for (int v : c.v) q.push_back(m.v[v]);
    if (!is3d(c.t)) { MFace_ptr f = MF_New(m.m); MF_Set_Vertices(f, q.size(), q.data()); }
    else if (c.t != C_POLYH) { MRegion_ptr r = MR_New(m.m); MR_Set_Vertices(r, q.size(), q.data(), 0, NULL); }
    else { MRegion_ptr r = MR_New(m.m); std::vector<VI> t; std::vector<int *> tp; for (auto &f : c.faces) { VI x = {(int)f.size()}; for (int v : f) x.push_back(std::find(c.v.begin(), c.v.end(), v) - c.v.begin()); t.push_back(x); } for (auto &x : t) tp.push_back(x.data()); MR_Set_Vertices(r, q.size(), q.data(), tp.size(), tp.data()); }
  }
  std::string df = diff(expected_elements(s), elements(m.m, L)); CK(df.empty(), (std::string(W) + ": rebuilt mesh differs").c_str(), "%s:%s", s.name.c_str(), df.c_str());
  verify(m.m, (std::string(W) + " rebuilt").c_str()); count("teardowns");
  H q; q.add(hi); q.add(mask); q.add(rep); q.add(77); state(q.h); nontrivial(q.h);
  MESH_Delete(m.m);
}
static void run() {
  switch (pick(3, "mode")) { case 0: build_all(); break; case 1: histories(); break; case 2: teardown(); break; }
}
int main(int c, char **v) { init(); Options o; o.property = "P04"; o.run = run; return vf::main(c, v, o); }
