// Simulated MPI.  Each rank is a forked process; exactly one runs at a time (token passing through futexes in shared
// memory), and every decision - who runs next, whether a send is buffered, when data arrives, what Test says - is
// taken here, by default according to Mode and in exploring mode as deviation points of the explorer.
// Monitored in every execution: deadlock, mismatched collectives, truncated or mistyped messages, messages never
// received, requests never completed, send buffers changed and receive buffers written while a transfer is pending.
#include "sim.hpp"
#include "vf.hpp"
#include "metis.h"
#include "zoltan.h"
#include <atomic>
#include <climits>
#include <linux/futex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
namespace sim {
std::vector<int> answer; Graph graph; long calls; bool zoltan_all = false;
enum { MAXR = 8, MAXM = 1 << 15, MAXC = 1 << 13 };
static const size_t ARENA = 1ull << 30;
enum Kind { K_BCAST = 1, K_ALLGATHER, K_ALLREDUCE, K_REDUCE, K_GATHER, K_SCATTER, K_BARRIER };
static const char *kname[] = {"", "Bcast", "Allgather", "Allreduce", "Reduce", "Gather", "Scatter", "Barrier"};
struct Send { int src, dst, tag, type, len; size_t off; bool sync, nonblocking; int recv; bool done; bool viaSend; };
struct Recv { int src, dst, tag, type, cap; int send; bool done; };
struct Coll { int kind, root, type, op; long count; int arrived; bool in[MAXR]; size_t off[MAXR]; size_t len[MAXR]; };
struct Shared {
  std::atomic<int> go[MAXR];
  int n, done[MAXR], waiting[MAXR]; long checked[MAXR]; const char *where[MAXR];
  long progress, calls;
  Mode mode;
  int nsend, nrecv, ncoll; size_t top;
  int seq[MAXR];
  size_t rep_off[MAXR], rep_len[MAXR];
  Send send[MAXM]; Recv recv[MAXM]; Coll coll[MAXC];
};
static Shared *G; static char *arena; static int me = -1; static bool inited = true;
int nranks() { return me < 0 ? 1 : G->n; }
int rank() { return me < 0 ? 0 : me; }
static size_t alloc(size_t n) { size_t o = G->top; G->top += (n + 15) & ~(size_t)15; if (G->top > ARENA) { fprintf(stderr, "VF-INTERNAL arena\n"); _exit(3); } return o; }
static void fwait(std::atomic<int> *a) { while (!a->load()) syscall(SYS_futex, (int *)a, FUTEX_WAIT, 0, NULL, NULL, 0); a->store(0); }
static void fwake(std::atomic<int> *a) { a->store(1); syscall(SYS_futex, (int *)a, FUTEX_WAKE, 1, NULL, NULL, 0); }
static int tsize(int t) { return t == MPI_CHAR ? 1 : t == MPI_INT ? 4 : t == MPI_DOUBLE ? 8 : 0; }
static const char *tname(int t) { return t == MPI_CHAR ? "char" : t == MPI_INT ? "int" : t == MPI_DOUBLE ? "double" : "?"; }
// the rank's own pending requests
struct Req { bool used = false, send; int idx; char *buf; size_t len; std::string saved; bool delivered = false; int type; std::string poison; };
static std::vector<Req> reqs;
static void deadlock() { std::string s; for (int r = 0; r < G->n; r++) s += fmt(" rank %d %s;", r, G->done[r] ? "has finished" : G->where[r] ? G->where[r] : "?"); fail("deadlock", "%s", s.c_str()); }
// hand the token to another rank that can run; returns when it is ours again.  mustother: we cannot go on ourselves
static void pass(bool self_ok) {
  int cand[MAXR], nc = 0; for (int k = 1; k <= G->n; k++) { int r = G->mode.order ? (me - k + 2 * G->n) % G->n : (me + k) % G->n; if (G->done[r]) continue; if (r == me && !self_ok) continue; if (r != me && G->waiting[r] && G->checked[r] == G->progress) continue; cand[nc++] = r; }
  if (!nc) { if (me >= 0 && G->done[me]) { bool all = true; for (int r = 0; r < G->n; r++) all &= G->done[r]; if (all) return; } deadlock(); }
  int c = G->mode.explore && nc > 1 ? dev(nc, "next rank") : 0; int r = cand[c]; if (r == me) return;
  fwake(&G->go[r]); if (!G->done[me]) fwait(&G->go[me]);
}
template <class F> static void block(const char *where, F cond) { G->where[me] = where; while (!cond()) { G->waiting[me] = 1; G->checked[me] = G->progress; pass(false); G->waiting[me] = 0; } }
static void deliver(Req &q) { // data of a matched receive arrives
  if (q.delivered || q.send) return; Recv &r = G->recv[q.idx]; Send &s = G->send[r.send]; if (memcmp(q.buf, q.poison.data(), q.len)) fail("receive buffer written while a receive is pending", "tag %d from rank %d", r.tag, s.src);
  memcpy(q.buf, q.saved.data(), q.len); memcpy(q.buf, arena + s.off, s.len); q.delivered = true;
}
static void entry(const char *where) { // every call
  if (me < 0) return; G->calls++; G->where[me] = where;
  for (auto &q : reqs) if (q.used) { if (q.send) { Send &s = G->send[q.idx]; if (memcmp(q.buf, arena + s.off, s.len)) fail("send buffer changed while a send is pending", "tag %d to rank %d", s.tag, s.dst); } else if (G->recv[q.idx].send >= 0 && !q.delivered) { bool late = G->mode.late; if (!late) deliver(q); } }
  if (G->mode.explore && G->n > 1) { bool other = false; for (int r = 0; r < G->n; r++) if (r != me && !G->done[r] && !(G->waiting[r] && G->checked[r] == G->progress)) other = true; if (other && dev(2, where)) { // let the others go first
      int save = G->waiting[me]; (void)save; int cand = -1; for (int k = 1; k < G->n; k++) { int r = (me + k) % G->n; if (!G->done[r] && !(G->waiting[r] && G->checked[r] == G->progress)) { cand = r; break; } } if (cand >= 0) { fwake(&G->go[cand]); fwait(&G->go[me]); } } }
}
static bool tagm(int a, int b) { return a == MPI_ANY_TAG || a == b; }
static void check_pair(Send &s, Recv &r) { if (s.len > r.cap) fail("message longer than the receive buffer", "from %d to %d tag %d: %d bytes into %d", s.src, s.dst, s.tag, s.len, r.cap); if (s.type != r.type) fail("message received as another type", "from %d to %d tag %d: %s as %s", s.src, s.dst, s.tag, tname(s.type), tname(r.type)); }
static int post_send(const void *buf, int count, int type, int dst, int tag, bool sync, bool nb) {
  if (dst < 0 || dst >= G->n) fail("send to an invalid rank", "%d", dst); if (count < 0) fail("send with negative count", "%d", count); if (dst == me && !nb && sync) fail("deadlock", "blocking send to self"); if (G->nsend >= MAXM) { fprintf(stderr, "VF-INTERNAL sends\n"); _exit(3); }
  int i = G->nsend; Send &s = G->send[i]; s = Send{me, dst, tag, type, count * tsize(type), 0, sync, nb, -1, false, !nb}; s.off = alloc(s.len + 1); memcpy(arena + s.off, buf, s.len); G->nsend = i + 1; G->progress++;
  for (int k = 0; k < G->nrecv; k++) { Recv &r = G->recv[k]; if (r.send < 0 && r.dst == dst && (r.src == me || r.src == MPI_ANY_SOURCE) && tagm(r.tag, tag)) { check_pair(s, r); r.send = i; s.recv = k; break; } } return i;
}
static int post_recv(int cap, int type, int src, int tag) {
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= G->n)) fail("receive from an invalid rank", "%d", src); if (cap < 0) fail("receive with negative count", "%d", cap); if (G->nrecv >= MAXM) { fprintf(stderr, "VF-INTERNAL recvs\n"); _exit(3); }
  int i = G->nrecv; Recv &r = G->recv[i]; r = Recv{src, me, tag, type, cap, -1, false}; G->nrecv = i + 1; G->progress++;
  for (int k = 0; k < G->nsend; k++) { Send &s = G->send[k]; if (s.recv < 0 && s.dst == me && (src == MPI_ANY_SOURCE || s.src == src) && tagm(tag, s.tag)) { check_pair(s, r); r.send = k; s.recv = i; break; } } return i;
}
static void setstatus(MPI_Status *st, int send) { if (!st) return; Send &s = G->send[send]; st->MPI_SOURCE = s.src; st->MPI_TAG = s.tag; st->MPI_ERROR = 0; st->bytes_ = s.len; }
static int newreq(Req q) { q.used = true; for (size_t i = 0; i < reqs.size(); i++) if (!reqs[i].used) { reqs[i] = q; return i + 1; } reqs.push_back(q); return reqs.size(); }
static bool syncmode(const char *w) { bool s = G->mode.sync; if (G->mode.explore && dev(2, w)) s = !s; return s; }
static void complete(int h, MPI_Status *st) { Req &q = reqs[h - 1]; if (q.send) { Send &s = G->send[q.idx]; if (memcmp(q.buf, arena + s.off, s.len)) fail("send buffer changed while a send is pending", "tag %d to rank %d", s.tag, s.dst); } else { deliver(q); G->recv[q.idx].done = true; setstatus(st, G->recv[q.idx].send); } q.used = false; q.saved.clear(); }
static bool ready(int h) { Req &q = reqs[h - 1]; return q.send ? !G->send[q.idx].sync || G->send[q.idx].recv >= 0 : G->recv[q.idx].send >= 0; }
static bool valid(int h) { return h >= 1 && h <= (int)reqs.size() && reqs[h - 1].used; }
// collectives
static Coll &enter(int kind, int root, int type, long count, int op, const void *data, size_t len) {
  if (root < 0 || root >= G->n) fail("collective with an invalid root", "%d", root); if (count < 0) fail("collective with negative count", "%s", kname[kind]); int k = G->seq[me]++; if (k >= MAXC) { fprintf(stderr, "VF-INTERNAL collectives\n"); _exit(3); } Coll &c = G->coll[k];
  if (k >= G->ncoll) { memset((void *)&c, 0, sizeof c); c.kind = kind; c.root = root; c.type = type; c.count = count; c.op = op; G->ncoll = k + 1; }
  if (c.kind != kind) fail("ranks call different collectives", "number %d: %s and %s", k, kname[c.kind], kname[kind]); if (c.root != root) fail("ranks use different roots", "%s", kname[kind]); if (c.type != type || c.count != count) fail("ranks use different counts or types in a collective", "%s: %ld %s and %ld %s", kname[kind], c.count, tname(c.type), count, tname(type)); if (c.op != op) fail("ranks use different operations", "%s", kname[kind]);
  c.in[me] = true; c.arrived++; c.len[me] = len; c.off[me] = alloc(len + 1); if (len && data) memcpy(arena + c.off[me], data, len); G->progress++; return c;
}
static void all(Coll &c, const char *w) { block(w, [&] { return c.arrived == G->n; }); }
static void reduce(Coll &c, void *out) {
  int ts = tsize(c.type); memcpy(out, arena + c.off[0], c.count * ts);
  for (int r = 1; r < G->n; r++) for (long i = 0; i < c.count; i++) { char *p = arena + c.off[r] + i * ts; auto ap = [&](auto *o, auto *x) { auto a = o[i], b = *x; o[i] = c.op == MPI_MAX ? (b > a ? b : a) : c.op == MPI_MIN ? (b < a ? b : a) : c.op == MPI_SUM ? a + b : (a || b); }; if (c.type == MPI_INT) ap((int *)out, (int *)p); else if (c.type == MPI_DOUBLE) ap((double *)out, (double *)p); else ap((char *)out, (char *)p); }
}
static void overlap(const void *a, size_t la, const void *b, size_t lb, const char *w) { const char *x = (const char *)a, *y = (const char *)b; if (la && lb && x < y + lb && y < x + la) fail("send and receive buffer of a collective overlap", "%s", w); }
static std::string myrep;
void report(const std::string &s) { myrep += s; }
std::vector<std::string> run(int n, Mode m, std::function<void(int)> fn) {
  if (!G) { G = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if ((void *)G == MAP_FAILED || arena == MAP_FAILED) { perror("mmap"); _exit(3); } }
  for (int r = 0; r < MAXR; r++) { G->go[r] = 0; G->done[r] = G->waiting[r] = 0; G->checked[r] = -1; G->where[r] = "has not started"; G->seq[r] = 0; G->rep_len[r] = 0; } G->n = n; G->progress = 1; G->calls = 0; G->mode = m; G->nsend = G->nrecv = G->ncoll = 0; G->top = 0; fflush(0);
  std::vector<pid_t> pid(n);
  for (int r = 0; r < n; r++) { pid_t p = fork(); if (p < 0) { perror("fork"); _exit(3); } if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); set_in_child(); me = r; fwait(&G->go[r]); try { fn(r); } catch (Failure &f) { child_fail(f.key.c_str(), f.msg.c_str()); }
        for (auto &q : reqs) if (q.used) fail("request never completed", "%s, tag %d", q.send ? "send" : "receive", q.send ? G->send[q.idx].tag : G->recv[q.idx].tag);
        size_t o = alloc(myrep.size() + 1); memcpy(arena + o, myrep.data(), myrep.size()); G->rep_off[r] = o; G->rep_len[r] = myrep.size(); G->done[r] = 1; G->where[r] = "has finished"; G->progress++; bool alldone = true; for (int k = 0; k < n; k++) alldone &= G->done[k]; if (!alldone) pass(false); fflush(0); _exit(0); } pid[r] = p; }
  fwake(&G->go[m.order ? n - 1 : 0]); int left = n, bad = 0, badst = 0; while (left) { int st; pid_t p = wait(&st); if (p < 0) break; bool mine = false; for (int r = 0; r < n; r++) if (pid[r] == p) { pid[r] = 0; mine = true; } if (!mine) continue; left--; if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!bad) { bad = 1; badst = st; } for (int r = 0; r < n; r++) if (pid[r]) kill(pid[r], SIGKILL); } }
  calls = G->calls; if (failed()) rethrow(); if (bad) { if (WIFEXITED(badst)) _exit(WEXITSTATUS(badst)); raise(SIGKILL == WTERMSIG(badst) ? SIGABRT : WTERMSIG(badst)); _exit(98); }
  for (int i = 0; i < G->nsend; i++) if (G->send[i].recv < 0) throw Failure{"message never received", fmt("from rank %d to rank %d, tag %d", G->send[i].src, G->send[i].dst, G->send[i].tag)};
  for (int r = 1; r < n; r++) if (G->seq[r] != G->seq[0]) throw Failure{"ranks make different numbers of collective calls", fmt("rank 0 %d, rank %d %d", G->seq[0], r, G->seq[r])};
  std::vector<std::string> out; for (int r = 0; r < n; r++) out.push_back(std::string(arena + G->rep_off[r], G->rep_len[r])); return out;
}
}
using namespace sim;
extern "C" {
int MPI_Init(int *, char ***) { return 0; } int MPI_Initialized(int *f) { *f = inited; return 0; } int MPI_Finalize(void) { return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { if (c != MPI_COMM_WORLD) fail("invalid communicator", "%d", c); *r = sim::rank(); return 0; } int MPI_Comm_size(MPI_Comm c, int *n) { if (c != MPI_COMM_WORLD) fail("invalid communicator", "%d", c); *n = sim::nranks(); return 0; }
double MPI_Wtime(void) { static double t; return t += 0.001; } int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; } int MPI_Abort(MPI_Comm, int e) { exit(e ? e : 1); }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { int k = tsize(t); if (!s || !k || s->bytes_ % k) fail("MPI_Get_count on something not received as that type", "type %s", tname(t)); *n = s->bytes_ / k; return 0; }
#define CC(c) do { if (c != MPI_COMM_WORLD) fail("invalid communicator", "%s", __func__); if (me < 0) fail("vf-internal", "message passing outside a rank: %s", __func__); } while (0)
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { CC(c); entry("MPI_Send"); bool s = syncmode("Send waits"); int i = post_send(b, n, t, d, tag, s, false); if (s) block("waits in MPI_Send", [&] { return G->send[i].recv >= 0; }); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) { CC(c); entry("MPI_Recv"); int i = post_recv(n * tsize(t), t, src, tag); block("waits in MPI_Recv", [&] { return G->recv[i].send >= 0; }); Send &s = G->send[G->recv[i].send]; memcpy(b, arena + s.off, s.len); G->recv[i].done = true; setstatus(st, G->recv[i].send); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { CC(c); entry("MPI_Isend"); bool s = syncmode("Isend waits"); int i = post_send(b, n, t, d, tag, s, true); Req q; q.send = true; q.idx = i; q.buf = (char *)b; q.len = G->send[i].len; q.type = t; *r = newreq(q); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) { CC(c); entry("MPI_Irecv"); int i = post_recv(n * tsize(t), t, src, tag); Req q; q.send = false; q.idx = i; q.buf = (char *)b; q.len = n * tsize(t); q.type = t; q.saved.assign((char *)b, q.len); q.poison.assign(q.len, (char)0xC9); memcpy(b, q.poison.data(), q.len); *r = newreq(q); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) { if (me < 0) return 0; entry("MPI_Wait"); if (*r == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->bytes_ = 0; } return 0; } if (!valid(*r)) fail("wait for something that is not a pending request", "MPI_Wait"); int h = *r; block("waits in MPI_Wait", [&] { return ready(h); }); complete(h, st); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { if (me < 0) return 0; entry("MPI_Waitall"); for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !valid(r[i])) fail("wait for something that is not a pending request", "MPI_Waitall"); for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { int h = r[i]; block("waits in MPI_Waitall", [&] { return ready(h); }); } for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { complete(r[i], st ? st + i : NULL); r[i] = MPI_REQUEST_NULL; } return 0; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
  if (me < 0) { *flag = 1; return 0; } entry("MPI_Test"); if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; } if (!valid(*r)) fail("test of something that is not a pending request", "MPI_Test"); static int polls; if (ready(*r) && !(G->mode.explore && dev(2, "Test says not yet"))) { *flag = 1; polls = 0; complete(*r, st); *r = MPI_REQUEST_NULL; return 0; }
  *flag = 0; if (++polls > 2000) fail("hang", "a request polled with MPI_Test never completes"); if (!ready(*r)) { G->waiting[me] = 1; G->checked[me] = G->progress; bool other = false; for (int k = 0; k < G->n; k++) if (k != me && !G->done[k] && !(G->waiting[k] && G->checked[k] == G->progress)) other = true; if (!other) deadlock(); pass(false); G->waiting[me] = 0; } return 0; }
int MPI_Sendrecv(const void *a, int n, MPI_Datatype t, int d, int tag, void *b, int k, MPI_Datatype u, int s, int g, MPI_Comm c, MPI_Status *st) { MPI_Request r; MPI_Isend(a, n, t, d, tag, c, &r); MPI_Recv(b, k, u, s, g, c, st); return MPI_Wait(&r, NULL); }
int MPI_Barrier(MPI_Comm c) { CC(c); entry("MPI_Barrier"); Coll &k = enter(K_BARRIER, 0, MPI_INT, 0, 0, NULL, 0); all(k, "waits in MPI_Barrier"); return 0; }
static bool loose() { bool l = G->mode.loose; if (G->mode.explore && dev(2, "collective returns early or late")) l = !l; return l; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { CC(c); entry("MPI_Bcast"); bool l = loose(); Coll &k = enter(K_BCAST, root, t, n, 0, me == root ? b : NULL, me == root ? n * tsize(t) : 0); if (!l) all(k, "waits in MPI_Bcast"); else if (me != root) block("waits in MPI_Bcast", [&] { return k.in[root]; }); if (me != root) memcpy(b, arena + k.off[root], n * tsize(t)); return 0; }
int MPI_Allgather(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, MPI_Comm c) { CC(c); entry("MPI_Allgather"); if (a == MPI_IN_PLACE) { a = (char *)b + me * m * tsize(u); n = m; t = u; } else overlap(a, n * tsize(t), b, (size_t)m * tsize(u) * G->n, "MPI_Allgather"); if (n != m || t != u) fail("counts or types of sending and receiving differ in a collective", "MPI_Allgather"); Coll &k = enter(K_ALLGATHER, 0, t, n, 0, a, n * tsize(t)); all(k, "waits in MPI_Allgather"); for (int r = 0; r < G->n; r++) memcpy((char *)b + (size_t)r * m * tsize(u), arena + k.off[r], m * tsize(u)); return 0; }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { CC(c); entry("MPI_Allreduce"); if (a == MPI_IN_PLACE) a = b; else overlap(a, n * tsize(t), b, n * tsize(t), "MPI_Allreduce"); Coll &k = enter(K_ALLREDUCE, 0, t, n, op, a, n * tsize(t)); all(k, "waits in MPI_Allreduce"); sim::reduce(k, b); return 0; }
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { CC(c); entry("MPI_Reduce"); bool l = loose(); if (me == root && a == MPI_IN_PLACE) a = b; Coll &k = enter(K_REDUCE, root, t, n, op, a, n * tsize(t)); if (me == root || !l) all(k, "waits in MPI_Reduce"); if (me == root) sim::reduce(k, b); return 0; }
int MPI_Gather(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, int root, MPI_Comm c) { CC(c); entry("MPI_Gather"); bool l = loose(); if (me == root && a == MPI_IN_PLACE) { a = (char *)b + me * m * tsize(u); n = m; t = u; } else if (me == root) { overlap(a, n * tsize(t), b, (size_t)m * tsize(u) * G->n, "MPI_Gather"); if (n != m || t != u) fail("counts or types of sending and receiving differ in a collective", "MPI_Gather"); } Coll &k = enter(K_GATHER, root, t, n, 0, a, n * tsize(t)); if (me == root || !l) all(k, "waits in MPI_Gather"); if (me == root) for (int r = 0; r < G->n; r++) memcpy((char *)b + (size_t)r * m * tsize(u), arena + k.off[r], m * tsize(u)); return 0; }
int MPI_Scatter(const void *a, int n, MPI_Datatype t, void *b, int m, MPI_Datatype u, int root, MPI_Comm c) { CC(c); entry("MPI_Scatter"); bool l = loose(); if (me == root && (n != m || t != u)) fail("counts or types of sending and receiving differ in a collective", "MPI_Scatter"); Coll &k = enter(K_SCATTER, root, u, m, 0, me == root ? a : NULL, me == root ? (size_t)n * tsize(t) * G->n : 0); if (!l) all(k, "waits in MPI_Scatter"); else if (me != root) block("waits in MPI_Scatter", [&] { return k.in[root]; }); if (!(me == root && b == MPI_IN_PLACE)) memcpy(b, arena + k.off[root] + (size_t)me * m * tsize(u), m * tsize(u)); return 0; }
// ---- partitioners: the answer is the environment's choice
int simMETIS_SetDefaultOptions(idx_t *o) { for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1; return METIS_OK; }
int simMETIS_PartGraph(idx_t *nv, idx_t *, idx_t *xadj, idx_t *adj, idx_t *, idx_t *, idx_t *, idx_t *np, real_t *, real_t *, idx_t *, idx_t *cut, idx_t *part) {
  Graph g; g.seen = true; g.nparts = *np; g.xadj.assign(xadj, xadj + *nv + 1); g.adj.assign(adj, adj + xadj[*nv]); graph = g; if ((int)answer.size() != *nv) fail("partitioner called with the wrong number of elements", "%d", *nv); for (int i = 0; i < *nv; i++) part[i] = answer[i]; *cut = 0; return METIS_OK; }
struct Zoltan_Struct { ZOLTAN_NUM_OBJ_FN *no; void *no_d; ZOLTAN_OBJ_LIST_FN *ol; void *ol_d; ZOLTAN_NUM_GEOM_FN *ng; void *ng_d; ZOLTAN_GEOM_MULTI_FN *gm; void *gm_d; ZOLTAN_NUM_EDGES_MULTI_FN *ne; void *ne_d; ZOLTAN_EDGE_LIST_MULTI_FN *el; void *el_d; MPI_Comm c; std::string method; };
int Zoltan_Initialize(int, char **, float *v) { *v = 3.9f; return ZOLTAN_OK; } struct Zoltan_Struct *Zoltan_Create(MPI_Comm c) { auto *z = new Zoltan_Struct(); z->c = c; return z; } void Zoltan_Destroy(struct Zoltan_Struct **z) { delete *z; *z = NULL; }
int Zoltan_Set_Param(struct Zoltan_Struct *z, const char *n, const char *v) { if (!strcmp(n, "LB_METHOD")) z->method = v; return ZOLTAN_OK; }
int Zoltan_Set_Num_Obj_Fn(struct Zoltan_Struct *z, ZOLTAN_NUM_OBJ_FN *f, void *d) { z->no = f; z->no_d = d; return 0; } int Zoltan_Set_Obj_List_Fn(struct Zoltan_Struct *z, ZOLTAN_OBJ_LIST_FN *f, void *d) { z->ol = f; z->ol_d = d; return 0; } int Zoltan_Set_Num_Geom_Fn(struct Zoltan_Struct *z, ZOLTAN_NUM_GEOM_FN *f, void *d) { z->ng = f; z->ng_d = d; return 0; } int Zoltan_Set_Geom_Multi_Fn(struct Zoltan_Struct *z, ZOLTAN_GEOM_MULTI_FN *f, void *d) { z->gm = f; z->gm_d = d; return 0; }
int Zoltan_Set_Num_Edges_Multi_Fn(struct Zoltan_Struct *z, ZOLTAN_NUM_EDGES_MULTI_FN *f, void *d) { z->ne = f; z->ne_d = d; return 0; } int Zoltan_Set_Edge_List_Multi_Fn(struct Zoltan_Struct *z, ZOLTAN_EDGE_LIST_MULTI_FN *f, void *d) { z->el = f; z->el_d = d; return 0; }
int Zoltan_LB_Partition(struct Zoltan_Struct *z, int *ch, int *ng, int *nl, int *ni, ZOLTAN_ID_PTR *ig, ZOLTAN_ID_PTR *il, int **ip, int **it, int *nx, ZOLTAN_ID_PTR *xg, ZOLTAN_ID_PTR *xl, int **xp, int **xt) {
  MPI_Barrier(z->c); *ch = 1; *ng = *nl = 1; *ni = *nx = 0; *ig = *il = *xg = *xl = NULL; *ip = *it = *xp = *xt = NULL; if (!z->no || !z->ol) return ZOLTAN_FATAL; int err = ZOLTAN_OK; int n = z->no(z->no_d, &err); if (err) return err; std::vector<ZOLTAN_ID_TYPE> gid(n), lid(n); z->ol(z->ol_d, 1, 1, gid.data(), lid.data(), 0, NULL, &err); if (err) return err; Graph g; g.seen = true;
  if (z->ng && z->gm) { g.ndim = z->ng(z->ng_d, &err); g.geom.assign(n * g.ndim, 0); if (n) z->gm(z->gm_d, 1, 1, n, gid.data(), lid.data(), g.ndim, g.geom.data(), &err); if (err) return err; } else if (!z->ne || !z->el) return ZOLTAN_FATAL;
  if (z->ne && z->el) { std::vector<int> ne(n); z->ne(z->ne_d, 1, 1, n, gid.data(), lid.data(), ne.data(), &err); if (err) return err; int tot = 0; g.xadj.push_back(0); for (int x : ne) { tot += x; g.xadj.push_back(tot); } std::vector<ZOLTAN_ID_TYPE> ng2(tot); std::vector<int> np(tot); z->el(z->el_d, 1, 1, n, gid.data(), lid.data(), ne.data(), ng2.data(), np.data(), 0, NULL, &err); if (err) return err; for (auto x : ng2) g.adj.push_back((int)x - 1); }
  if (sim::rank() == 0) { graph = g; if (n != (int)answer.size()) fail("partitioner called with the wrong number of elements", "%d", n); } else if (n) fail("partitioner given elements on another rank than 0", "%d", n);
  int k = 0; *xg = (ZOLTAN_ID_PTR)malloc(4 * n + 1); *xl = (ZOLTAN_ID_PTR)malloc(4 * n + 1); *xp = (int *)malloc(4 * n + 1); *xt = (int *)malloc(4 * n + 1); for (int i = 0; i < n; i++) { int a = answer[gid[i] - 1]; if (a == sim::rank() && !zoltan_all) continue; (*xg)[k] = gid[i]; (*xl)[k] = lid[i]; (*xp)[k] = a; (*xt)[k] = a; k++; } *nx = k; return ZOLTAN_OK; }
int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR *a, ZOLTAN_ID_PTR *b, int **c, int **d) { free(*a); free(*b); free(*c); free(*d); *a = *b = NULL; *c = *d = NULL; return 0; }
}
