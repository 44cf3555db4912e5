// Abstract complexes: what a mesh is and what a modification must make of it
#pragma once
#include "alpha.hpp"
namespace mm {
struct Ent { int dim; VI cyc; std::vector<VI> faces; int gd, gi; void *p; P3 x; bool undirected = false; };
struct CX {
  std::vector<Ent> e;
  Ent *find(void *p) { for (auto &x : e) if (x.p == p) return &x; return NULL; }
  void rem(void *p) { for (size_t i = 0; i < e.size(); i++) if (e[i].p == p) { e.erase(e.begin() + i); return; } fail("harness: entity to remove not in complex", " "); }
  bool has_edge(int a, int b) const { for (auto &x : e) if (x.dim == 1 && ekey(x.cyc[0], x.cyc[1]) == ekey(a, b)) return true; return false; }
  void add_edge(int a, int b, int gd, int gi) { e.push_back(Ent{1, {a, b}, {}, gd, gi, NULL, {}}); }
  void add_face(VI c, int gd, int gi, bool und = false) { Ent f{2, c, {}, gd, gi, NULL, {}}; f.undirected = und; e.push_back(f); }
  void add_vertex(int l, P3 x, int gd, int gi) { e.push_back(Ent{0, {l}, {}, gd, gi, NULL, x}); }
  void add_region(std::vector<VI> f, int gd, int gi) { e.push_back(Ent{3, {}, f, gd, gi, NULL, {}}); }
  // replace a directed cycle by others in every region, in either direction
  void replace_cycle(const VI &old, const std::vector<VI> &nu) { VI a = norm_cycle(old, true), r(old.rbegin(), old.rend()), b = norm_cycle(r, true); for (auto &x : e) if (x.dim == 3) { std::vector<VI> out; for (auto &f : x.faces) { VI k = norm_cycle(f, true); if (k == a) out.insert(out.end(), nu.begin(), nu.end()); else if (k == b) for (auto g : nu) { std::reverse(g.begin(), g.end()); out.push_back(g); } else out.push_back(f); } x.faces = out; } }
  // insert a chain between neighbours a and b in every cycle
  void insert_chain(int a, int b, const VI &ch) { auto ins = [&](VI &c) { VI o; int n = c.size(); for (int i = 0; i < n; i++) { o.push_back(c[i]); int y = c[(i + 1) % n]; if (c[i] == a && y == b) o.insert(o.end(), ch.begin(), ch.end()); else if (c[i] == b && y == a) o.insert(o.end(), ch.rbegin(), ch.rend()); } c = o; }; for (auto &x : e) { if (x.dim == 2) ins(x.cyc); for (auto &f : x.faces) ins(f); } }
};
inline bool uses(const VI &c, int v) { return std::find(c.begin(), c.end(), v) != c.end(); }
inline VI subst(VI c, int a, int b) { for (auto &x : c) if (x == a) x = b; return c; }
inline std::string canon(const Ent &x, bool und = false) {
  std::string s; if (x.dim == 0) s = fmt("v%d %.9g %.9g %.9g", x.cyc[0], x.x[0] + 0., x.x[1] + 0., x.x[2] + 0.); else if (x.dim == 1) s = "e" + str(skey(x.cyc)); else if (x.dim == 2) s = (und ? "f" : "d") + str(norm_cycle(x.cyc, !und));
  else { std::vector<std::string> q; for (auto &f : x.faces) q.push_back(str(norm_cycle(f, true))); std::sort(q.begin(), q.end()); s = "r"; for (auto &f : q) s += "(" + f + ")"; }
  return s + (x.gd == -1 ? std::string(" g*") : x.dim == 3 ? fmt(" g%d", x.gi) : fmt(" g%d/%d", x.gd, x.gi));
}
struct Names { std::map<void *, int> l; int next = 0; int of(void *v) { auto i = l.find(v); if (i != l.end()) return i->second; return l[v] = next++; } };
inline CX extract(Mesh_ptr m, Names &N) {
  CX c; for (auto v : all_v(m)) c.e.push_back(Ent{0, {N.of(v)}, {}, MEnt_GEntDim(v), MEnt_GEntID(v), v, coords(v)});
  for (auto v : all_e(m)) c.e.push_back(Ent{1, {N.of(ME_Vertex(v, 0)), N.of(ME_Vertex(v, 1))}, {}, MEnt_GEntDim(v), MEnt_GEntID(v), v, {}});
  auto lv = [&](const VP &q) { VI r; for (auto x : q) r.push_back(N.of(x)); return r; };
  for (auto f : all_f(m)) c.e.push_back(Ent{2, lv(fverts(f)), {}, MEnt_GEntDim(f), MEnt_GEntID(f), f, {}});
  for (auto r : all_r(m)) { Ent x{3, {}, {}, MEnt_GEntDim(r), MEnt_GEntID(r), r, {}}; VP fs = vec(MR_Faces(r)); for (size_t i = 0; i < fs.size(); i++) x.faces.push_back(lv(fverts(fs[i], MR_FaceDir_i(r, i)))); c.e.push_back(x); }
  return c;
}
// the mesh is what was expected: entities with a pointer survive as that object, the others are new
inline void same(const CX &want, Mesh_ptr m, Names &N, const std::set<void *> &before, const char *op, const std::string &ctx) {
  CX got = extract(m, N); std::map<void *, Ent *> live; for (auto &x : got.e) live[x.p] = &x; std::multiset<std::string> a, b; std::set<void *> matched; std::set<VI> und;
  for (auto &w : want.e) if (w.p) { auto i = live.find(w.p); CK(i != live.end(), fmt("%s: an entity that must stay was deleted", op).c_str(), "%s: %s", ctx.c_str(), canon(w).c_str()); bool g = w.gd == -1; Ent q = *i->second; if (g) q.gd = -1; CK(canon(w, w.undirected) == canon(q, w.undirected), fmt("%s: wrong result", op).c_str(), "%s: %s, expected %s", ctx.c_str(), canon(q).c_str(), canon(w).c_str()); matched.insert(w.p); }
  for (auto &w : want.e) if (!w.p) { a.insert(canon(w, w.undirected)); if (w.undirected) und.insert(skey(w.cyc)); }
  for (auto &g : got.e) if (!matched.count(g.p)) { CK(!before.count(g.p), fmt("%s: an entity that must go is still there", op).c_str(), "%s: %s", ctx.c_str(), canon(g).c_str()); b.insert(canon(g, g.dim == 2 && und.count(skey(g.cyc)))); }
  if (a != b) { std::string s; for (auto &x : a) if (b.count(x) < a.count(x)) s += " missing[" + x + "]"; for (auto &x : b) if (a.count(x) < b.count(x)) s += " extra[" + x + "]"; fail(fmt("%s: wrong result", op).c_str(), "%s:%s", ctx.c_str(), s.c_str()); }
}
inline std::set<void *> ptrs(const CX &c) { std::set<void *> s; for (auto &x : c.e) s.insert(x.p); return s; }
inline int cls_same(const CX &, void *) { return 0; }
}
