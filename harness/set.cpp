// P02: entity sets behave as ordered collections, set algebra is exact; all operation sequences up to a depth
#include "mesh.hpp"
using namespace mm; using namespace vf;
struct Model { MSet_ptr s; std::string name; MType dim; VP m; bool live; };
static Spec host;
static VP ents;      // probe entities: vertices then edges then faces
static std::string show(const VP &v) { std::string s = "["; for (auto x : v) s += fmt("%d:%d ", (int)MEnt_Dim(x), MEnt_ID(x)); return s + "]"; }

static void check(Mesh_ptr m, const std::vector<Model> &S, const char *op) {
  auto K = [&](const char *q) { return std::string(op) + ": " + q; };
  int nlive = 0;
  for (auto &a : S) {
    if (!a.live) continue;
    nlive++; int n = a.m.size(); char nm[300];
    CK(MSet_Num_Entries(a.s) == n, K("MSet_Num_Entries").c_str(), "%s: %d expected %s", a.name.c_str(), MSet_Num_Entries(a.s), show(a.m).c_str());
    for (int i = 0; i < n; i++) CK(MSet_Entry(a.s, i) == a.m[i], K("MSet_Entry").c_str(), "%s at %d, expected %s", a.name.c_str(), i, show(a.m).c_str());
    CK(MSet_Entry(a.s, n) == NULL, K("MSet_Entry past the end").c_str(), "%s", a.name.c_str());
    VP it; int idx = 0; void *p; while ((p = MSet_Next_Entry(a.s, &idx)) && it.size() < 99) it.push_back(p);
    CK(it == a.m, K("MSet_Next_Entry").c_str(), "%s: %s expected %s", a.name.c_str(), show(it).c_str(), show(a.m).c_str());
    for (auto e : ents) {
      int pos = std::find(a.m.begin(), a.m.end(), e) - a.m.begin(); bool in = pos < n;
      CK(!!MSet_Contains(a.s, e) == in, K("MSet_Contains").c_str(), "%s", a.name.c_str());
      CK(MSet_Locate(a.s, e) == (in ? pos : -1), K("MSet_Locate").c_str(), "%s: %d expected %d", a.name.c_str(), MSet_Locate(a.s, e), in ? pos : -1);
    }
    CK(a.name == MSet_Name(a.s, nm), K("MSet_Name").c_str(), "%s expected %s", nm, a.name.c_str());
    CK(MSet_EntDim(a.s) == a.dim, K("MSet_EntDim").c_str(), "%s: %d expected %d", a.name.c_str(), (int)MSet_EntDim(a.s), (int)a.dim);
    CK(MSet_Mesh(a.s) == m, K("MSet_Mesh").c_str(), "%s", a.name.c_str());
    // by name: the first live set with that name
    MSet_ptr first = NULL; for (auto &b : S) if (b.live && b.name == a.name) { first = b.s; break; }
    CK(MESH_MSetByName(m, a.name.c_str()) == first, K("MESH_MSetByName").c_str(), "%s", a.name.c_str());
  }
  for (const char *n : {"x", "renamed to something much longer than before", "y"}) {
    MSet_ptr first = NULL; for (auto &b : S) if (b.live && b.name == n) { first = b.s; break; }
    CK(MESH_MSetByName(m, n) == first, K("MESH_MSetByName").c_str(), "'%s': %s", n, first ? "not found" : "found though no set has that name");
  }
  CK(MESH_Num_MSets(m) == nlive, K("MESH_Num_MSets").c_str(), "%d expected %d", MESH_Num_MSets(m), nlive);
  std::vector<MSet_ptr> live; for (auto &b : S) if (b.live) live.push_back(b.s);
  int idx = 0, k = 0; MSet_ptr q; while ((q = MESH_Next_MSet(m, &idx)) && k < 99) { CK(k < nlive && q == live[k], K("MESH_Next_MSet").c_str(), "position %d", k); CK(MESH_MSet(m, k) == q, K("MESH_MSet").c_str(), "position %d", k); k++; }
  CK(k == nlive, K("MESH_Next_MSet").c_str(), "%d of %d", k, nlive);
#ifdef MSTK_USE_MARKERS
  for (auto e : ents) for (int k = 1; k <= 8; k++) CK(!MEnt_IsMarked(e, k), K("an entity is left marked").c_str(), "marker %d", k);
#endif
}
static VP uniq(const VP &a) { VP r; for (auto x : a) if (!has(r, x)) r.push_back(x); return r; }

static void run() {
  M mm = build(host, F1); Mesh_ptr m = mm.m;
  ents.clear(); for (auto v : all_v(m)) ents.push_back(v); int nv = ents.size(); for (auto e : all_e(m)) ents.push_back(e); int ne = ents.size() - nv; for (auto f : all_f(m)) ents.push_back(f);
  auto V = [&](int i) { return ents[i]; }; auto E = [&](int i) { return ents[nv + i]; };
  (void)ne;
  std::vector<Model> S; S.reserve(32);
  auto mk = [&](const char *n, MType d) { S.push_back({MSet_New(m, n, d), n, d, {}, true}); return (int)S.size() - 1; };
  mk("a", MVERTEX); mk("b", MVERTEX); mk("c", MALLTYPE);
  // initial contents: subsets of the first four vertices in a and b, edges and vertices in c
  int mode = pick(3, "mode: histories / algebra / marks");
  if (mode == 1) {
    // every pair of subsets (a in either insertion order, with or without removed entries), every operation, then the operand check
    int ma = pick(32, "a"), mb = pick(32, "b"), gap = pick(4, "gaps"), rev = pick(2, "order"), kind = pick(3, "types"); // 0 same type, 1 different types, 2 both of all types
    int ia = kind == 2 ? 2 : 0, ib = kind == 0 ? 1 : 2;
    if (kind == 2) { mk("d", MALLTYPE); ib = 3; }
    auto item = [&](int which, int i) -> void * { return (kind == 0 || which == 0 || i < 3) ? (kind == 2 && i == 4 ? ents[nv + 2] : V(i)) : E(i); };
    auto fill = [&](int si, int mask, bool g, bool rv) {
      if (g) { MSet_Add(S[si].s, V(0)); MSet_Add(S[si].s, E(0)); S[si].m.push_back(V(0)); S[si].m.push_back(E(0)); }
      for (int k = 0; k < 5; k++) { int i = rv ? 4 - k : k; if (mask >> i & 1) { void *e = item(si == ia ? 0 : 1, i); if (g && e == V(0)) continue; MSet_ChknAdd(S[si].s, e); if (!has(S[si].m, e)) S[si].m.push_back(e); } }
      if (g) { MSet_Remi(S[si].s, 1); S[si].m.erase(S[si].m.begin() + 1); if (!(mask & 1)) { MSet_Rem(S[si].s, V(0)); S[si].m.erase(S[si].m.begin()); } }
    };
    fill(ia, ma, gap & 1, rev); fill(ib, mb, gap & 2, false);
    check(m, S, "filling");
    Model &A = S[ia], &B = S[ib]; VP a = A.m, b = B.m, want; int op = pick(4, "op"); MSet_ptr r = NULL; const char *nm[] = {"MSets_Union", "MSets_Intersect", "MSets_Subtract", "MSet_Cat"};
    VF_TRACE("%s of %s and %s", nm[op], show(a).c_str(), show(b).c_str());
    MType dim = A.dim == B.dim ? A.dim : MALLTYPE; std::string rn;
    switch (op) {
    case 0: r = MSets_Union(A.s, B.s); want = a; for (auto x : b) if (!has(a, x)) want.push_back(x); rn = "in_" + A.name + "_or_" + B.name; break;
    case 1: r = MSets_Intersect(A.s, B.s); for (auto x : a) if (has(b, x)) want.push_back(x); rn = "in_" + A.name + "_and_" + B.name; break;
    case 2: r = MSets_Subtract(A.s, B.s); dim = A.dim; for (auto x : a) if (!has(b, x)) want.push_back(x); rn = "in_" + A.name + "_minus_" + B.name; break;
    case 3: if (A.dim != B.dim) { MESH_Delete(m); return; } CK(MSet_Cat(A.s, B.s) == A.s, "MSet_Cat: result", "not the destination"); for (auto x : b) A.m.push_back(x); break;
    }
    step(); count(nm[op]);
    if (op < 3) {
      if (want.empty()) { CK(!r || MSet_Num_Entries(r) == 0, nm[op], "result is not empty"); if (r) S.push_back({r, rn, dim, {}, true}); }
      else {
        CK(r != NULL, nm[op], "no result, expected %s", show(want).c_str());
        VP got; int idx = 0; void *p; while ((p = MSet_Next_Entry(r, &idx)) && got.size() < 99) got.push_back(p);
        CK(sorted(got) == sorted(want), nm[op], "of %s and %s: %s expected %s", show(a).c_str(), show(b).c_str(), show(got).c_str(), show(want).c_str());
        char q[300]; MSet_Name(r, q); S.push_back({r, q, dim, got, true});
      }
    }
    check(m, S, nm[op]);
    // the result is independent of the operands
    if (r && op < 3 && !S.back().m.empty()) { MSet_Rem(r, S.back().m[0]); S.back().m.erase(S.back().m.begin()); check(m, S, "removing from a result"); MSet_Add(A.s, V(5)); A.m.push_back(V(5)); check(m, S, "adding to an operand"); }
    H h; h.add(ma); h.add(mb); h.add(gap); h.add(rev); h.add(kind); h.add(op); state(h.h); nontrivial(h.h);
    MESH_Delete(m); return;
  }
  if (mode == 2) {
    int ma = pick(64, "a"); for (int i = 0; i < 6; i++) if (ma >> i & 1) { MSet_Add(S[2].s, i < 3 ? V(i) : E(i)); S[2].m.push_back(i < 3 ? V(i) : E(i)); }
#ifdef MSTK_USE_MARKERS
    int mk0 = MSTK_GetMarker(), mk1 = MSTK_GetMarker(); MEnt_Mark(V(1), mk1);
    MSet_Mark(S[2].s, mk0); for (auto e : ents) { CK(!!MEnt_IsMarked(e, mk0) == has(S[2].m, e), "MSet_Mark", "set %x", ma); CK(!!MEnt_IsMarked(e, mk1) == (e == V(1)), "MSet_Mark touches another marker", "set %x", ma); }
    MSet_Unmark(S[2].s, mk0); for (auto e : ents) { CK(!MEnt_IsMarked(e, mk0), "MSet_Unmark", "set %x", ma); CK(!!MEnt_IsMarked(e, mk1) == (e == V(1)), "MSet_Unmark touches another marker", "set %x", ma); }
    MEnt_Unmark(V(1), mk1); MSTK_FreeMarker(mk0); MSTK_FreeMarker(mk1);
#endif
    check(m, S, "marking"); H h; h.add(ma); h.add(7); state(h.h); nontrivial(h.h); count("marks"); step(); MESH_Delete(m); return;
  }
  // histories on sets a (vertices), b (vertices, starts with v0..v6: at the growth limit), c (all types)
  for (int i = 0; i < 7; i++) { MSet_Add(S[1].s, V(i)); S[1].m.push_back(V(i)); }
  check(m, S, "filling");
  int depth = (thorough ? 5 : 4) - (atoi(arg("less", "0").c_str())), d = 0;
  for (; d < depth; d++) {
    int si = 0; const char *op = "";
    // a compact alphabet of (operation, set, argument)
    static const int OPS = 24; int o = pick(OPS, "op"); step();
    Model *A = &S[o < 8 ? 0 : o < 16 ? 1 : 2];
    auto add = [&](void *e) { op = "MSet_Add"; CK(MSet_Add(A->s, e) == A->s, "MSet_Add: result", "not the set"); A->m.push_back(e); };
    auto rem = [&](void *e) { op = "MSet_Rem"; auto it = std::find(A->m.begin(), A->m.end(), e); int rc = MSet_Rem(A->s, e); CK((rc != 0) == (it != A->m.end()), "MSet_Rem: result", "%d", rc); if (it != A->m.end()) A->m.erase(it); };
    if (!A->live && !(o == 23)) return;
    void *x;
    switch (o) {
    case 0: x = V(0); if (has(A->m, x)) return; add(x); break;
    case 1: x = V(1); op = "MSet_ChknAdd"; MSet_ChknAdd(A->s, x); if (!has(A->m, x)) A->m.push_back(x); break;
    case 2: x = V(2); if (has(A->m, x)) return; op = "MSet_Insert"; { void *b = A->m.empty() ? NULL : A->m[0]; CK(MSet_Insert(A->s, x, b) == A->s, "MSet_Insert: result", "not the set"); A->m.insert(A->m.begin(), x); } break;
    case 3: x = V(3); if (has(A->m, x)) return; op = "MSet_Inserti"; { int i = A->m.size() / 2; CK(MSet_Inserti(A->s, x, i) == A->s, "MSet_Inserti: result", "not the set"); A->m.insert(A->m.begin() + i, x); } break;
    case 4: rem(V(0)); break;
    case 5: rem(V(2)); break;
    case 6: op = "MSet_Delete"; MSet_Delete(A->s); A->live = false; break;
    case 7: if (S.size() > 4) return; { op = "MSet_Copy"; MSet_ptr r = MSet_Copy(A->s); CK(r && r != A->s, "MSet_Copy: result", "the set itself or none"); Model c = *A; c.s = r; S.push_back(c); } break;
    case 8: x = V(7); if (has(A->m, x)) return; add(x); break;
    case 9: x = V(8); if (has(A->m, x)) return; op = "MSet_ChknAdd"; MSet_ChknAdd(A->s, x); A->m.push_back(x); break;
    case 10: if (A->m.empty()) return; op = "MSet_Remi"; { int i = (int)A->m.size() - 1; CK(MSet_Remi(A->s, i) != 0, "MSet_Remi: result", "refused"); A->m.pop_back(); } break;
    case 11: if (A->m.size() < 2) return; op = "MSet_Remi"; CK(MSet_Remi(A->s, 1) != 0, "MSet_Remi: result", "refused"); A->m.erase(A->m.begin() + 1); break;
    case 12: if (A->m.size() < 3 || has(A->m, V(8))) return; op = "MSet_Replace"; { x = A->m[2]; CK(MSet_Replace(A->s, x, V(8)) != 0, "MSet_Replace: result", "refused"); A->m[2] = V(8); } break;
    case 13: if (A->m.size() < 2 || has(A->m, V(7))) return; op = "MSet_Replacei"; { int i = A->m.size() - 1; CK(MSet_Replacei(A->s, i, V(7)) != 0, "MSet_Replacei: result", "refused"); A->m[i] = V(7); } break;
    case 14: op = "MSet_Rename"; { std::string n = A->name == "b" ? "renamed to something much longer than before" : "b"; std::vector<char> q(n.c_str(), n.c_str() + n.size() + 1); MSet_Rename(A->s, q.data()); A->name = n; } break;
    case 15: if (!S[0].live) return; for (auto y : S[0].m) if (has(A->m, y)) return; op = "MSet_Cat"; CK(MSet_Cat(A->s, S[0].s) == A->s, "MSet_Cat: result", "not the set"); for (auto y : S[0].m) A->m.push_back(y); break;
    case 16: x = E(0); if (has(A->m, x)) return; add(x); break;
    case 17: x = V(0); if (has(A->m, x)) return; add(x); break;
    case 18: rem(E(0)); break;
    case 19: op = "MSets_Union"; if (!S[1].live) return; { MSet_ptr r = MSets_Union(A->s, S[1].s); CK(r != NULL, "MSets_Union", "no result"); VP w = A->m; for (auto y : S[1].m) if (!has(w, y)) w.push_back(y); VP got; int i = 0; while (void *p = MSet_Next_Entry(r, &i)) { got.push_back(p); if (got.size() > 99) break; } CK(sorted(got) == sorted(w), "MSets_Union", "%s expected %s", show(got).c_str(), show(w).c_str()); MSet_Delete(r); } break;
    case 20: op = "MSet_New"; if (S.size() > 4) return; mk("x", MFACE); break;
    case 21: op = "MSet_Delete"; if (S.size() <= 3 || !S.back().live) return; MSet_Delete(S.back().s); S.back().live = false; break;
    case 22: op = "MSets_Subtract"; if (!S[0].live) return; { Model &B = S[0]; MSet_ptr r = MSets_Subtract(S[1].s, B.s); VP w; for (auto y : S[1].m) if (!has(B.m, y)) w.push_back(y); VP got; int i = 0; if (r) while (void *p = MSet_Next_Entry(r, &i)) { got.push_back(p); if (got.size() > 99) break; } CK(sorted(got) == sorted(w), "MSets_Subtract", "%s expected %s", show(got).c_str(), show(w).c_str()); if (r) MSet_Delete(r); } break;
    case 23: // removing during an iteration over b
      op = "removal while iterating"; if (!S[1].live || S[1].m.size() < 2) return;
      { Model &B = S[1]; VP seen; int i = 0; void *p; VP orig = B.m; while ((p = MSet_Next_Entry(B.s, &i))) { seen.push_back(p); if (seen.size() % 2 == 0) { MSet_Rem(B.s, p); B.m.erase(std::find(B.m.begin(), B.m.end(), p)); } if (seen.size() > 99) break; } CK(seen == orig, "removal while iterating", "%s expected %s", show(seen).c_str(), show(orig).c_str()); } break;
    }
    (void)si;
    VF_TRACE("%s (op %d)", op, o);
    count(op); check(m, S, op);
  }
  H h; for (auto &a : S) { h.add(a.live); h.add(a.name); for (auto x : a.m) h.add(MEnt_ID(x) * 4 + MEnt_Dim(x)); h.add(99); } state(h.h); nontrivial(h.h);
  MESH_Delete(m);
}
int main(int c, char **v) { host = host_tri8(); Options o; o.property = "P02"; o.run = run; return vf::main(c, v, o); }
