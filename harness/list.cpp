// P01: every List operation agrees with a plain vector, over all operation sequences up to a depth.
#include "vf.hpp"
#include <algorithm>
extern "C" {
#include "MSTK.h"
}
using namespace vf;
extern "C" { int List_Size_Raw(List_ptr); void *List_Entry_Raw(List_ptr, int); int List_Remi_Raw(List_ptr, int);
int List_RemSorted(List_ptr l, void *entry, int (*entry2int)(void *)); }

struct Ent { int id; };
static Ent E[64];
static int eid(void *p) { return ((Ent *)p)->id; }
static int cmp(const void *a, const void *b) { int x = (*(Ent **)a)->id, y = (*(Ent **)b)->id; return (x > y) - (x < y); }
typedef std::vector<int> Seq;

static std::string show(const Seq &m) { std::string s = "["; for (int x : m) s += fmt("%d ", x); return s + "]"; }

static void compare(List_ptr l, const Seq &m, const char *op) {
  int n = List_Num_Entries(l);
  if (n != (int)m.size()) fail(fmt("%s: wrong count", op).c_str(), "after %s: List_Num_Entries=%d, expected %zu %s", op, n, m.size(), show(m).c_str());
  for (int i = 0; i < n; i++) {
    Ent *e = (Ent *)List_Entry(l, i);
    if (!e || e->id != m[i]) fail(fmt("%s: wrong entry", op).c_str(), "after %s: List_Entry(%d)=%d, expected %d of %s", op, i, e ? e->id : -1, m[i], show(m).c_str());
  }
  if (List_Entry(l, n)) fail(fmt("%s: entry past the end", op).c_str(), "after %s: List_Entry(%d) is not NULL", op, n);
  int idx = 0, k = 0; void *p;
  while ((p = List_Next_Entry(l, &idx))) {
    if (k >= n || eid(p) != m[k]) fail(fmt("%s: wrong iteration", op).c_str(), "after %s: iteration step %d gives %d, expected %s", op, k, eid(p), show(m).c_str());
    k++;
  }
  if (k != n) fail(fmt("%s: short iteration", op).c_str(), "after %s: iteration visits %d of %d", op, k, n);
  for (int v = 0; v < 5; v++) {
    int pos = std::find(m.begin(), m.end(), v) - m.begin();
    bool in = pos < n;
    if (!!List_Contains(l, &E[v]) != in) fail(fmt("%s: List_Contains", op).c_str(), "after %s: List_Contains(%d)=%d in %s", op, v, !in, show(m).c_str());
    if (List_Locate(l, &E[v]) != (in ? pos : -1)) fail(fmt("%s: List_Locate", op).c_str(), "after %s: List_Locate(%d)=%d in %s", op, v, List_Locate(l, &E[v]), show(m).c_str());
  }
  int raw = List_Size_Raw(l); k = 0;
  for (int i = 0; i < raw; i++) { Ent *e = (Ent *)List_Entry_Raw(l, i); if (!e) continue; if (k >= n || e->id != m[k]) fail(fmt("%s: raw contents", op).c_str(), "after %s: raw slot %d", op, i); k++; }
  if (k != n) fail(fmt("%s: raw contents", op).c_str(), "after %s: raw scan finds %d of %d", op, k, n);
}

static bool sorted(const Seq &m) { for (size_t i = 1; i < m.size(); i++) if (m[i - 1] >= m[i]) return false; return true; }

// the sizes the growth rule (2^p-1 slots) makes special
static int startsize(int k) { static const int s[] = {0, 3, 6, 7, 8, 1, 2, 14, 15}; return s[k]; }

// slim mode: one argument choice per operation, so that longer sequences are affordable
static bool slim;
static int arg_(int n, const char *l) { return slim ? (n > 1 ? 1 : 0) : pick(n, l); }
static void run() {
  for (int i = 0; i < 64; i++) E[i].id = i;
  slim = pick(2, "mode: full alphabet / one argument per operation");
  int ns = thorough ? 9 : 6, depth = slim ? (thorough ? 6 : 5) : (thorough ? 4 : 3);
  int s0 = startsize(pick(ns, "startsize")), ini = pick(2, "inisize") ? 1 : 0;
  int gaps = pick(3, "initial gaps"); // 0 none, 1 first entry removed, 2 last and middle removed
  if (s0 == 0 && gaps) return;
  List_ptr l = List_New(ini ? (s0 ? s0 : 1) : 0);
  Seq m;
  // entries 0..4 are the probe values and lead; fillers follow, so that the list starts sorted
  for (int i = 0; i < s0; i++) { int v = i < 3 ? i : 10 + i; List_Add(l, &E[v]); m.push_back(v); }
  if (gaps == 1) { List_Rem(l, &E[0]); m.erase(m.begin()); }
  if (gaps == 2) { List_Remi(l, s0 - 1); m.pop_back(); if (m.size() >= 3) { List_Remi(l, 1); m.erase(m.begin() + 1); } }
  compare(l, m, "setup");
  VF_TRACE("start %s", show(m).c_str());
  // an iterator that lives across removals and additions
  int it = 0; bool itlive = true; size_t itmod = 0; // itmod: number of model entries the iterator has passed
  for (int d = 0; d < depth; d++) {
    const int NOPS = 17;
    static const int slimops[] = {0, 2, 3, 4, 5, 10, 11, 8, 14};
    int op = slim ? slimops[pick(9, "op")] : pick(NOPS, "op"); char nm[40] = "";
    int n = m.size();
    step();
    switch (op) {
    case 0: { int v = arg_(4, "v") + 1; sprintf(nm, "List_Add"); List_ptr r = List_Add(l, &E[v]); if (r != l) fail("List_Add: result", "List_Add does not return the list"); m.push_back(v); VF_TRACE("Add(%d)", v); break; }
    case 1: { int v = arg_(3, "v") + 1; sprintf(nm, "List_ChknAdd"); List_ChknAdd(l, &E[v]); if (std::find(m.begin(), m.end(), v) == m.end()) m.push_back(v); VF_TRACE("ChknAdd(%d)", v); break; }
    case 2: { // Insert before an entry / NULL / absent
      sprintf(nm, "List_Insert"); int w = arg_(4, "b4"); int v = 4;
      if (w == 0) { List_Insert(l, &E[v], NULL); m.push_back(v); }
      else { auto q = std::find(m.begin(), m.end(), w - 1); List_Insert(l, &E[v], &E[w - 1]); if (q != m.end()) m.insert(q, v); }
      VF_TRACE("Insert(%d before %d)", v, w - 1); itlive = false; break; }
    case 3: { sprintf(nm, "List_Inserti"); int i = arg_(4, "i"); int at = i == 3 ? n : i == 2 ? n / 2 : i == 1 ? (n ? n - 1 : 0) : 0;
      VF_TRACE("Inserti(3 at %d)", at); List_Inserti(l, &E[3], at); m.insert(m.begin() + at, 3); itlive = false; break; }
    case 4: { sprintf(nm, "List_Rem"); int v = arg_(4, "v"); VF_TRACE("Rem(%d)", v); auto q = std::find(m.begin(), m.end(), v); int r = List_Rem(l, &E[v]);
      if (!!r != (q != m.end())) fail("List_Rem: result", "List_Rem(%d) returned %d for %s", v, r, show(m).c_str());
      if (q != m.end()) { if ((size_t)(q - m.begin()) < itmod) itmod--; m.erase(q); } break; }
    case 5: { sprintf(nm, "List_Remi"); int w = arg_(4, "i"); int i = w == 0 ? 0 : w == 1 ? n / 2 : w == 2 ? n - 1 : n; if (i < 0) i = 0; VF_TRACE("Remi(%d)", i);
      int r = List_Remi(l, i); if (!!r != (i < n)) fail("List_Remi: result", "List_Remi(%d) of %d entries returned %d", i, n, r);
      if (i < n) { if ((size_t)i < itmod) itmod--; m.erase(m.begin() + i); } break; }
    case 6: { sprintf(nm, "List_Replace"); int v = arg_(3, "v"); VF_TRACE("Replace(%d by 4)", v); auto q = std::find(m.begin(), m.end(), v); int r = List_Replace(l, &E[v], &E[4]);
      if (!!r != (q != m.end())) fail("List_Replace: result", "List_Replace(%d) returned %d for %s", v, r, show(m).c_str());
      if (q != m.end()) *q = 4; break; }
    case 7: { sprintf(nm, "List_Replacei"); int w = arg_(4, "i"); int i = w == 0 ? 0 : w == 1 ? n / 2 : w == 2 ? n - 1 : n; if (i < 0) i = 0; VF_TRACE("Replacei(%d by 3)", i);
      int r = List_Replacei(l, i, &E[3]); if (!!r != (i < n)) fail("List_Replacei: result", "List_Replacei(%d) of %d entries returned %d", i, n, r);
      if (i < n) m[i] = 3; break; }
    case 8: sprintf(nm, "List_Compress"); VF_TRACE("Compress"); if (List_Compress(l) != l) fail("List_Compress: result", "List_Compress returned another list");
      if (List_Size_Raw(l) != n) fail("List_Compress: gaps remain", "raw size %d, entries %d", List_Size_Raw(l), n); itlive = false; break;
    case 9: { sprintf(nm, "List_Copy"); VF_TRACE("Copy, change the original, continue with the copy"); List_ptr c = List_Copy(l);
      // independence: wreck the original
      List_Add(l, &E[0]); if (n) List_Replacei(l, 0, &E[60]); List_Delete(l); l = c; break; }
    case 10: { sprintf(nm, "List_Cat"); int w = arg_(5, "src"); // sources with and without gaps, long enough to force growth
      List_ptr s = List_New(0); Seq ms;
      if (w == 1) { List_Add(s, &E[1]); List_Add(s, &E[2]); List_Rem(s, &E[1]); ms = {2}; }
      else if (w == 2) { for (int i = 0; i < 9; i++) { List_Add(s, &E[20 + i]); ms.push_back(20 + i); } List_Remi(s, 4); ms.erase(ms.begin() + 4); }
      else if (w == 3) { List_Add(s, &E[1]); List_Add(s, &E[2]); List_Add(s, &E[3]); ms = {1, 2, 3}; }
      else if (w == 4) { List_Add(s, &E[1]); List_Add(s, &E[2]); List_Add(s, &E[3]); List_Rem(s, &E[3]); List_Rem(s, &E[1]); ms = {2}; }
      VF_TRACE("Cat(%s)", show(ms).c_str());
      if (List_Cat(l, s) != l) fail("List_Cat: result", "List_Cat does not return dest");
      m.insert(m.end(), ms.begin(), ms.end()); compare(s, ms, "List_Cat source"); List_Delete(s); break; }
    case 11: { sprintf(nm, "List_RemSorted"); if (!sorted(m) || !n) continue; int w = arg_(5, "which"); int v;
      if (w == 0) v = m[0]; else if (w == 1) v = m[n / 2]; else if (w == 2) v = m[n - 1]; else if (w == 3) v = 9; else v = 63;
      VF_TRACE("RemSorted(%d)", v); auto q = std::find(m.begin(), m.end(), v); int r = List_RemSorted(l, &E[v], eid);
      if (!!r != (q != m.end())) fail("List_RemSorted: result", "List_RemSorted(%d) returned %d for %s", v, r, show(m).c_str());
      if (q != m.end()) { if ((size_t)(q - m.begin()) < itmod) itmod--; m.erase(q); } break; }
    case 12: { sprintf(nm, "List_Sort"); List_Compress(l); VF_TRACE("Compress; Sort; Search"); List_Sort(l, List_Num_Entries(l), sizeof(void *), cmp); std::sort(m.begin(), m.end()); itlive = false;
      for (int v = 0; v < 5 && n; v++) { Ent *key = &E[v]; Ent *f = (Ent *)List_Search(l, &key, n, sizeof(void *), cmp); bool in = std::find(m.begin(), m.end(), v) != m.end();
        if ((f != NULL) != in || (f && f->id != v)) fail("List_Search: result", "List_Search(%d) in sorted %s gives %d", v, show(m).c_str(), f ? f->id : -1); }
      break; }
    case 13: { sprintf(nm, "List_Next_Entry"); if (!itlive) continue; VF_TRACE("Next_Entry (iterator kept across removals and additions)");
      void *p = List_Next_Entry(l, &it); bool end = itmod >= m.size();
      if (end != (p == NULL) || (p && eid(p) != m[itmod])) fail("List_Next_Entry: iterator", "iterator gives %d, expected %d (position %zu of %s)", p ? eid(p) : -1, end ? -1 : m[itmod], itmod, show(m).c_str());
      if (p) itmod++; break; }
    case 14: { sprintf(nm, "grow"); int k = arg_(2, "amount") ? 9 : 4; VF_TRACE("Add %d fillers", k); for (int i = 0; i < k; i++) { int v = 30 + (d * 9 + i) % 30; List_Add(l, &E[v]); m.push_back(v); } break; }
    case 15: { sprintf(nm, "drain"); VF_TRACE("Remove all but one"); while (m.size() > 1) { List_Remi(l, 0); m.erase(m.begin()); if (itmod) itmod--; } break; }
    case 16: { sprintf(nm, "List_Remi_Raw"); int raw = List_Size_Raw(l); int w = arg_(3, "i"); int i = w == 0 ? 0 : w == 1 ? raw - 1 : raw; if (i < 0) continue; VF_TRACE("Remi_Raw(%d)", i);
      int k = 0; for (int j = 0; j < i && j < raw; j++) if (List_Entry_Raw(l, j)) k++; bool valid = i < raw && List_Entry_Raw(l, i);
      List_Remi_Raw(l, i); if (valid) { if ((size_t)k < itmod) itmod--; m.erase(m.begin() + k); } break; }
    }
        compare(l, m, nm);
    H h; for (int x : m) h.add(x); int raw = List_Size_Raw(l); for (int i = 0; i < raw; i++) h.add(List_Entry_Raw(l, i) ? eid(List_Entry_Raw(l, i)) + 1 : 0); h.add(it);
    state(h.h);
    if (d == depth - 1) nontrivial(h.h);
  }
  List_Delete(l);
}

int main(int argc, char **argv) { Options o; o.property = "P01"; o.run = run; return vf::main(argc, argv, o); }
