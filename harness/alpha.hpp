// The mesh alphabet shared by the checks: every non-empty subset of the cells of the hosts, in F1 and F4, built by
// vertices or by explicit edges and faces with several direction patterns, optionally with loose vertices.
#pragma once
#include "mesh.hpp"
namespace mm {
struct Alpha {
  std::vector<Spec> hosts;
  Alpha(int dims = 3) {
    if (dims & 1) for (auto h : {host_tri8(), host_quad(2, 2), host_mix2(), host_surf()}) hosts.push_back(h);
    if (dims & 2) for (auto h : {host_kuhn(), host_hex(2, 2, 1), host_mix3()}) hosts.push_back(h);
    for (auto &h : hosts) orient(h);
  }
  Alpha(std::vector<Spec> h) : hosts(h) { for (auto &x : hosts) orient(x); }
  int hi = 0; unsigned mask = 0;
  Spec spec(int maxcells = 99, bool compact = true) {
    hi = vf::pick((int)hosts.size(), "host"); const Spec &h = hosts[hi]; int nc = h.cells.size();
    mask = vf::pick((1 << nc) - 1, "mask") + 1; if (__builtin_popcount(mask) > maxcells) mask = 0;
    return subset(h, mask, compact);
  }
  uint64_t id() const { return hi * 1000003ull + mask; }
};
static const uint64_t FLIPS[4] = {0, ~0ull, 0xaaaaaaaaaaaaaaaaull, 0x36db6db6db6db6dbull};
struct How { RepType rep; int how, fl; };
// nflip: number of direction patterns used when building explicitly (0: only by vertices)
inline How pick_how(int nflip = 2) { How h; h.rep = vf::pick(2, "rep") ? F4 : F1; int k = vf::pick(1 + nflip, "how"); h.how = k > 0; h.fl = k ? k - 1 : 0; return h; }
inline M build(const Spec &s, const How &h) { return build(s, h.rep, h.how, FLIPS[h.fl]); }
// everything of the mesh by pointer, IDs not included
inline std::map<void *, std::string> by_pointer(Mesh_ptr m) {
  std::map<void *, std::string> r; Lab L; int k = 0; for (auto v : all_v(m)) L[v] = (int)((uintptr_t)v >> 4);
  (void)k; for (int d = 0; d < 4; d++) for (auto e : all_of(m, d)) { std::string s = key_of(e, L) + fmt(" g%d/%d", MEnt_GEntDim(e), MEnt_GEntID(e)); if (!d) { P3 p = coords(e); s += fmt(" %.17g %.17g %.17g", p[0], p[1], p[2]); } if (d == 2) s += " d" + str(norm_cycle(lab(fverts(e), L), true)); r[e] = s; }
  return r;
}
inline std::string attr_list(Mesh_ptr m, const char *ignore = "") { std::string s; int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { char n[256]; MAttrib_Get_Name(a, n); if (strcmp(n, ignore)) s += std::string(n) + ";"; } return s; }
}
namespace mm {
// independent classification of a full mesh: elements on (dim, material); boundary and interface sides on dim-1; below, the lowest of what contains them
inline void classify(Mesh_ptr m, int dim, const VI &mat) {
  VP el = all_of(m, dim); for (size_t i = 0; i < el.size(); i++) { MEnt_Set_GEntDim(el[i], dim); MEnt_Set_GEntID(el[i], mat[i % mat.size()]); }
  VP sd = all_of(m, dim - 1); std::map<void *, std::pair<int, int>> low; // lower entities
  for (auto s : sd) { VP up = dim == 3 ? vec(MF_Regions(s)) : vec(ME_Faces(s)); bool inner = up.size() == 2 && MEnt_GEntID(up[0]) == MEnt_GEntID(up[1]); int gd = inner ? dim : dim - 1, gi = inner ? MEnt_GEntID(up[0]) : 10 + (up.size() ? MEnt_GEntID(up[0]) : 0) + (up.size() > 1 ? 5 : 0); MEnt_Set_GEntDim(s, gd); MEnt_Set_GEntID(s, gi);
    VP parts; if (dim == 3) { parts = vec(MF_Edges(s, 1, 0)); VP q = fverts(s); parts.insert(parts.end(), q.begin(), q.end()); } else parts = {ME_Vertex(s, 0), ME_Vertex(s, 1)};
    for (auto p : parts) { auto it = low.find(p); if (it == low.end() || it->second.first > gd) low[p] = {gd, gi}; } }
  for (auto &x : low) { MEnt_Set_GEntDim(x.first, x.second.first); MEnt_Set_GEntID(x.first, x.second.second); }
}
inline VI pick_materials(int n, int maxn = 4) { // every 2-colouring for up to maxn elements, else three patterns
  VI r(n, 1); if (n <= maxn) { unsigned b = vf::pick(1 << n, "materials"); for (int i = 0; i < n; i++) r[i] = 1 + (b >> i & 1); }
  else { int p = vf::pick(3, "materials"); for (int i = 0; i < n; i++) r[i] = p == 0 ? 1 : p == 1 ? 1 + i % 2 : 1 + i / ((n + 1) / 2); } return r;
}
}
