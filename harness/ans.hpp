// P10: everything that can be asked about a mesh, in the order in which it is answered
#pragma once
#include "alpha.hpp"
#include <functional>
namespace mm {
inline std::string lst(List_ptr l) { if (!l) return "NULL"; return ids(vec(l)); }
inline std::string mset(MSet_ptr s) { std::string r = "("; if (!s) return "NULL"; int i = 0; void *e; while ((e = MSet_Next_Entry(s, &i))) r += vf::fmt("%d.%d ", (int)MEnt_Dim(e), MEnt_ID(e)); return r + ")"; }
inline void queries(Mesh_ptr m, const std::function<void(const std::string &)> &say_) {
  for (auto v : all_v(m)) say_(fmt("v%d %d/%d: %s %s %s %s", MV_ID(v), MV_GEntDim(v), MV_GEntID(v), lst(MV_AdjVertices(v)).c_str(), lst(MV_Edges(v)).c_str(), lst(MV_Faces(v)).c_str(), lst(MV_Regions(v)).c_str()));
  for (auto e : all_e(m)) say_(fmt("e%d %d/%d: %d %d %s %s", ME_ID(e), ME_GEntDim(e), ME_GEntID(e), MV_ID(ME_Vertex(e, 0)), MV_ID(ME_Vertex(e, 1)), lst(ME_Faces(e)).c_str(), lst(ME_Regions(e)).c_str()));
  for (auto f : all_f(m)) { std::string d; VP e = vec(MF_Edges(f, 1, 0)); for (auto x : e) d += fmt("%d", MF_EdgeDir(f, x)); say_(fmt("f%d %d/%d: %s %s %s %s", MF_ID(f), MF_GEntDim(f), MF_GEntID(f), lst(MF_Vertices(f, 1, 0)).c_str(), ids(e).c_str(), d.c_str(), lst(MF_Regions(f)).c_str())); }
  for (auto r : all_r(m)) { std::string d; VP f = vec(MR_Faces(r)); for (auto x : f) d += fmt("%d", MR_FaceDir(r, x)); say_(fmt("r%d %d/%d: %s %s %s %s %s", MR_ID(r), MR_GEntDim(r), MR_GEntID(r), lst(MR_Vertices(r)).c_str(), lst(MR_Edges(r)).c_str(), ids(f).c_str(), d.c_str(), lst(MR_AdjRegions(r)).c_str())); }
  int i = 0; MAttrib_ptr a; while ((a = MESH_Next_Attrib(m, &i))) { char b[256]; MAttrib_Get_Name(a, b); std::string s; for (int d = 0; d < 4; d++) if (d == (int)MAttrib_Get_EntDim(a) || MAttrib_Get_EntDim(a) == MALLTYPE) for (auto e : all_of(m, d)) { int iv; double rv; void *pv; MEnt_Get_AttVal(e, a, &iv, &rv, &pv); s += fmt("%d/%g ", iv, rv); } say_(fmt("attribute %s of %d: %s", b, (int)MAttrib_Get_EntDim(a), s.c_str())); }
  i = 0; MSet_ptr z; while ((z = MESH_Next_MSet(m, &i))) { char b[256]; MSet_Name(z, b); say_(fmt("set %s of %d: %s", b, (int)MSet_EntDim(z), mset(z).c_str())); }
}
}
