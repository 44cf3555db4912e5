// P09, threads: every interleaving (up to a number of preemptions) of threads taking, using and returning markers
#include "fibers.hpp"
#include "mesh.hpp"
using namespace mm; using namespace vf;
static Spec tri4;
static int holder[40]; // which thread holds a marker; -1 nobody
static void take(int t, int *k) { *k = MSTK_GetMarker(); if (*k < 1 || *k > 32) fail("marker out of range", "%d", *k); if (holder[*k] >= 0) fail("a marker in use is handed out to another thread", "marker %d, threads %d and %d", *k, holder[*k], t); holder[*k] = t; }
static void give(int k) { holder[k] = -1; MSTK_FreeMarker(k); }
static void run() {
  for (int k = 1; k <= 32; k++) MSTK_FreeMarker(k);
  Mesh_ptr m = build(tri4, F1).m; VP v = all_v(m); for (auto &h : holder) h = -1;
  int pre = pick(4, "held before"), nt = 2 + pick(thorough ? 2 : 2, "threads"), prog = pick(nt == 2 ? 6 : 2, "programs"); static const int N[4] = {0, 2, 28, 29};
  std::vector<int> mine; for (int i = 0; i < N[pre]; i++) { int k; take(9, &k); mine.push_back(k); }
  if (pre == 3) { give(mine[3]); mine.erase(mine.begin() + 3); } // a gap below the last one
  if (mine.size()) { MEnt_Mark(v[0], mine[0]); MEnt_Mark(v[1], mine.back()); } // marks of others on the shared entities
  auto body = [&](int t, int p) -> std::function<void()> { return [&, t, p] { int a, b; void *x = v[t & 1], *s = v[0];
    auto use = [&](int k, void *e) { if (MEnt_IsMarked(e, k)) fail("an unused marker is marked", "thread %d marker %d", t, k); MEnt_Mark(e, k); if (!MEnt_IsMarked(e, k)) fail("mark lost", "thread %d marker %d", t, k); MEnt_Unmark(e, k); if (MEnt_IsMarked(e, k)) fail("mark not removed", "thread %d marker %d", t, k); };
    switch (p) {
    case 0: take(t, &a); give(a); break;
    case 1: take(t, &a); take(t, &b); give(a); give(b); break;
    case 2: take(t, &a); use(a, s); give(a); break;
    case 3: take(t, &a); give(a); take(t, &b); give(b); break;
    case 4: take(t, &a); MEnt_Mark(s, a); MEnt_Mark(x, a); MEnt_Unmark(s, a); if (!MEnt_IsMarked(x, a) && x != s) fail("mark lost", "thread %d marker %d", t, a); MEnt_Unmark(x, a); give(a); break;
    } }; };
  static const int P2[6][2] = {{0, 0}, {1, 0}, {1, 1}, {2, 2}, {3, 1}, {4, 2}}, P3[2][3] = {{0, 0, 0}, {2, 0, 2}};
  std::vector<std::function<void()>> bs; for (int t = 0; t < nt; t++) bs.push_back(body(t, nt == 2 ? P2[prog][t] : P3[prog][t]));
  count(nt == 2 ? "two threads" : "three threads"); fib::run(bs);
  if (mine.size()) if (!MEnt_IsMarked(v[0], mine[0]) || !MEnt_IsMarked(v[1], mine.back())) fail("a mark of another marker lost", "after the threads ended");
  if (mine.size()) { MEnt_Unmark(v[0], mine[0]); MEnt_Unmark(v[1], mine.back()); } int n = mine.size(); std::set<int> s(mine.begin(), mine.end()); H h; h.add(pre); h.add(nt); h.add(prog);
  for (int i = n; i < 32; i++) { int k = MSTK_GetMarker(); if (!s.insert(k).second || k < 1 || k > 32) fail("after the threads ended: markers lost", "%d of 32 could be taken, then %d", i, k); h.add(k); for (auto e : v) if (MEnt_IsMarked(e, k)) fail("after the threads ended: an entity left marked", "marker %d", k); }
  state(h.h); nontrivial(h.h); for (int k : s) MSTK_FreeMarker(k); MESH_Delete(m);
}
int main(int c, char **v) { tri4 = subset(host_tri8(), 0x3); Options o; o.property = "P09"; o.run = run; for (int i = 1; i < c; i++) if (!strncmp(v[i], "--preempt=", 10)) o.devbound = atoi(v[i] + 10); return vf::main(c, v, o); }
