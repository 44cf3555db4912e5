#include "vf.hpp"
#include <atomic>
#include <cstdarg>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

namespace vf {
bool tracing = false, thorough = false, replaying = false;
static bool child_ = false;

enum { MAXF = 56, MAXPOS = 8192, LSTACK = 1 << 16, POOL = 1 << 20, NV = 256, NCNT = 96, TRACESZ = 1 << 17 };

struct Prefix { uint8_t n; uint8_t val[MAXF]; uint16_t pos[MAXF]; };

struct RunState {            // one per worker; shared with the parent and with rank processes
  volatile int active;       // an execution is running
  Prefix pre;
  int flen;                  // choices before flen are forced
  int fi;                    // next forced entry
  int pos;                   // next choice index
  int ndev;
  uint8_t val[MAXPOS], arity[MAXPOS], isdev[MAXPOS];
  volatile int failed;
  char key[160], msg[2000];
  volatile uint64_t runs;
  volatile int trace_n;
  char trace[TRACESZ];
  // local stack (circular, bottom is the shallowest)
  volatile uint64_t lo, hi;
  Prefix st[LSTACK];
};
struct Viol { char key[160], msg[2000]; int len; uint8_t val[MAXPOS]; int crash; int hang; };
struct Counter { char name[48]; std::atomic<long> v; };
struct Shared {
  std::atomic<int> lock, busy, stop, nviol, overflow;
  std::atomic<uint64_t> runs, steps, states, nontriv, maxlen, pruned, toolong;
  int npool;
  Viol viol[NV];
  Counter cnt[NCNT];
  int nsamples; char samples[6][600];
  Prefix pool[POOL];
};
static const uint64_t TB = 1ull << 24;
static Shared *S; static RunState *RS, *W; static std::atomic<uint64_t> *T1, *T2;
static int nworkers, me = -1;
static Options *O;
static std::map<std::string, std::string> args_;
static std::string scratch_;

static void lock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(1); } }
static void unlock() { S->lock.store(0); }

std::string fmt(const char *f, ...) { char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
std::string arg(const char *n, const char *d) { auto i = args_.find(n); return i == args_.end() ? d : i->second; }
std::string scratch() { return scratch_; }

void trace_line(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); int k = vsnprintf(b, sizeof b - 2, f, ap); va_end(ap);
  if (k > (int)sizeof b - 2) k = sizeof b - 2;
  b[k++] = '\n';
  if (W->trace_n + k < TRACESZ) { memcpy(W->trace + W->trace_n, b, k); W->trace_n += k; }
}

void fail(const char *key, const char *f, ...) {
  char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (child_) { child_fail(key, b); }
  throw Failure{key, b};
}
void child_fail(const char *key, const char *msg) {
  if (!W->failed) { snprintf(W->key, sizeof W->key, "%s", key); snprintf(W->msg, sizeof W->msg, "%s", msg); W->failed = 1; }
  _exit(77);
}
bool failed() { return W->failed; }
void rethrow() { if (W->failed) throw Failure{W->key, W->msg}; }
bool in_child() { return child_; }
void set_in_child() { child_ = true; }

static void internal(const char *m) { fprintf(stderr, "VF-INTERNAL %s\n", m); dprintf(2, "VF-INTERNAL %s\n", m); if (child_) child_fail("vf-internal", m); throw Failure{"vf-internal", m}; }

static int choose(int n, bool d, const char *label) {
  if (n <= 0 || n > 255) internal(fmt("choice arity %d at %s", n, label).c_str());
  int p = W->pos, v = 0;
  if (p >= MAXPOS) { // beyond the recorded horizon: default answer, never branched
    if (p == MAXPOS) S->toolong++;
    W->pos++;
    return 0;
  }
  if (p < W->flen) {
    if (W->fi < W->pre.n && W->pre.pos[W->fi] == p) { v = W->pre.val[W->fi]; W->fi++; }
    if (v >= n) internal(fmt("forced choice %d out of range %d at position %d (%s): nondeterministic execution", v, n, p, label).c_str());
  }
  W->val[p] = v; W->arity[p] = n; W->isdev[p] = d;
  if (d && v) W->ndev++;
  W->pos = p + 1;
  if (tracing && n > 1) trace_line("  choice[%d] %s = %d of %d", p, label, v, n);
  return v;
}
int pick(int n, const char *l) { return choose(n, false, l); }
int dev(int n, const char *l) { return choose(n, true, l); }

static bool insert(std::atomic<uint64_t> *t, uint64_t h) {
  if (!h) h = 1;
  for (uint64_t i = h & (TB - 1), k = 0; k < TB; i = (i + 1) & (TB - 1), k++) {
    uint64_t c = t[i].load(std::memory_order_relaxed);
    if (c == h) return false;
    if (!c) { if (t[i].compare_exchange_strong(c, h)) return true; if (c == h) return false; }
    if (k > 100000) { S->overflow = 1; return true; }
  }
  return true;
}
bool fresh(uint64_t h) {
  if (W->pos < W->flen) return true;   // still on the forced prefix: an ancestor visited it
  if (replaying) return true;
  if (insert(T1, h)) { S->states++; return true; }
  S->pruned++;
  return false;
}
void state(uint64_t h) { if (!replaying && insert(T1, h)) S->states++; }
void nontrivial(uint64_t h) { if (!replaying && insert(T2, h)) S->nontriv++; }
void step(int n) { S->steps += n; }
void count(const char *name, long n) {
  for (int i = 0; i < NCNT; i++) {
    if (!S->cnt[i].name[0]) {
      lock();
      if (!S->cnt[i].name[0]) { snprintf(S->cnt[i].name, sizeof S->cnt[i].name, "%s", name); }
      unlock();
    }
    if (!strncmp(S->cnt[i].name, name, 47)) { S->cnt[i].v += n; return; }
  }
}

static void push_global(const Prefix &p) { if (S->npool < POOL) S->pool[S->npool++] = p; else S->overflow = 1; }

static void push_children(RunState *w, bool to_global) {
  int top = w->pos < MAXPOS ? w->pos : MAXPOS;
  // deviations spent on the forced part
  Prefix base = w->pre;
  int nd = 0;
  for (int i = 0; i < base.n; i++) if (w->isdev[base.pos[i]]) nd++;
  // beyond the forced part all values are 0 in a normal run
  for (int i = w->flen; i < top; i++) {
    if (w->arity[i] < 2) continue;
    if (w->isdev[i] && nd >= O->devbound) continue;
    if (base.n >= MAXF) { S->overflow = 1; break; }
    for (int a = w->arity[i] - 1; a >= 1; a--) {
      Prefix c = base; c.pos[c.n] = i; c.val[c.n] = a; c.n++;
      if (to_global || w->hi - w->lo >= LSTACK - 1) { lock(); push_global(c); unlock(); }
      else { w->st[w->hi % LSTACK] = c; w->hi = w->hi + 1; }
    }
  }
}

static void begin(const Prefix &p) {
  W->pre = p; W->flen = p.n ? p.pos[p.n - 1] + 1 : 0; W->fi = 0; W->pos = 0; W->ndev = 0; W->failed = 0; W->trace_n = 0;
  W->active = 1;
}

static bool add_viol(RunState *w, const char *key, const char *msg, int crash, int hang) {
  lock();
  int n = S->nviol, same = 0;
  for (int i = 0; i < n; i++) if (!strcmp(S->viol[i].key, key)) same++;
  bool ok = n < NV && same < 2;
  if (ok) {
    Viol &v = S->viol[n];
    snprintf(v.key, sizeof v.key, "%s", key); snprintf(v.msg, sizeof v.msg, "%s", msg);
    v.len = w->pos < MAXPOS ? w->pos : MAXPOS; memcpy(v.val, w->val, v.len); v.crash = crash; v.hang = hang;
    S->nviol = n + 1;
  }
  unlock();
  return ok;
}

static void run_one() {
  try { O->run(); }
  catch (Failure &f) {
    W->active = 0;
    add_viol(W, f.key.c_str(), f.msg.c_str(), 0, 0);
    return;
  }
  W->active = 0;
}

static void clean_dir(const std::string &d) {
  DIR *D = opendir(d.c_str()); if (!D) return;
  while (dirent *e = readdir(D)) { std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { clean_dir(p); rmdir(p.c_str()); } else unlink(p.c_str()); }
  closedir(D);
}
static std::string base_dir;
static std::string log_path(int k) { return base_dir + fmt("/log.%d", k); }

static void worker(int k) {
  me = k; W = &RS[k];
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (O->worker_init) O->worker_init();
  long n = 0;
  for (;;) {
    if (S->stop) break;
    Prefix p; bool got = false;
    if (W->hi > W->lo) { W->hi = W->hi - 1; p = W->st[W->hi % LSTACK]; got = true; }
    else {
      lock();
      if (S->npool > 0) { p = S->pool[--S->npool]; got = true; S->busy |= 1 << k; }
      else S->busy &= ~(1 << k);
      unlock();
    }
    if (!got) { if (!S->busy.load()) { break; } usleep(200); continue; }
    // busy bit is set while we have local work
    begin(p);
    if (n % 64 == 0) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
    run_one();
    S->runs++; S->steps += 0;
    { uint64_t m = S->maxlen, q = W->pos; while (q > m && !S->maxlen.compare_exchange_weak(m, q)) {} }
    if (S->runs <= 4000 && S->nsamples < 5 && W->pos > W->flen - 1 && (p.n >= 2 || S->nsamples == 0)) {
      lock();
      if (S->nsamples < 5 && (S->nsamples == 0 || S->runs > (uint64_t)(20 << (2 * S->nsamples)))) {
        std::string s; for (int i = 0; i < W->pos && i < MAXPOS && s.size() < 560; i++) s += fmt("%d/%d ", W->val[i], W->arity[i]);
        snprintf(S->samples[S->nsamples++], 600, "%s", s.c_str());
      }
      unlock();
    }
    push_children(W, false);
    W->runs = W->runs + 1;
    if (S->npool < 2 * nworkers) {
      while (W->hi - W->lo > 1 && S->npool < 4 * nworkers) {
        lock(); push_global(W->st[W->lo % LSTACK]); unlock(); W->lo = W->lo + 1;
      }
    }
    if (++n >= O->max_runs_per_worker) { fflush(0); _exit(78); }
    if (n % 256 == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 2500000) { _exit(78); } }
  }
  _exit(0);
}

static void redirect(int k) {
  int fd = open(log_path(k).c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
  dup2(fd, 1); dup2(fd, 2); close(fd);
  int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
}
static std::string slurp(const std::string &p, size_t max = 1 << 20) {
  std::string s; FILE *f = fopen(p.c_str(), "r"); if (!f) return s; char b[4096]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
  fclose(f); return s;
}
// a stable key for a crash, from the sanitizer report
std::string crash_key(const std::string &log, int status) {
  std::string k;
  size_t p = log.rfind("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    std::string t = log.substr(p + 25); t = t.substr(0, t.find_first_of(" \n:"));
    k = "crash:" + t;
    // first frame in a source file of the repository
    size_t q = p; int found = 0;
    while (found < 1 && (q = log.find("\n    #", q + 1)) != std::string::npos) {
      size_t e = log.find('\n', q + 1); std::string line = log.substr(q, e - q);
      size_t in = line.find(" in ");
      if (in == std::string::npos) continue;
      if (line.find("/src/") == std::string::npos || line.find("libsanitizer") != std::string::npos) continue;
      std::string fn = line.substr(in + 4); fn = fn.substr(0, fn.find(' '));
      k += ":" + fn; found++;
    }
    return k;
  }
  if (WIFSIGNALED(status)) return fmt("crash:signal%d", WTERMSIG(status));
  return fmt("exit:%d", WEXITSTATUS(status));
}

static pid_t spawn(int k) {
  fflush(0);
  pid_t p = fork();
  if (!p) { redirect(k); scratch_ = base_dir + fmt("/w%d", k); mkdir(scratch_.c_str(), 0777); if (chdir(scratch_.c_str())) {} worker(k); }
  return p;
}

// run exactly the given choices in a fresh process with tracing; returns true if it failed
static bool replay(const std::vector<uint8_t> &v, std::string &key, std::string &msg, std::string &trace, std::string &log, double limit, bool *hang) {
  int k = nworkers;
  RunState *w = &RS[k];
  memset((void *)w, 0, offsetof(RunState, st));
  fflush(0);
  pid_t p = fork();
  if (!p) {
    redirect(k); me = k; W = w; tracing = true; replaying = true;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    scratch_ = base_dir + "/rep"; mkdir(scratch_.c_str(), 0777); clean_dir(scratch_); if (chdir(scratch_.c_str())) {}
    if (O->worker_init) O->worker_init();
    Prefix e; memset(&e, 0, sizeof e);
    for (int i = 0; i < (int)v.size() && i < MAXPOS; i++) if (v[i]) { if (e.n >= MAXF) break; e.pos[e.n] = i; e.val[e.n++] = v[i]; }
    begin(e);
    try { O->run(); W->active = 0; _exit(0); }
    catch (Failure &f) { W->active = 0; snprintf(W->key, sizeof W->key, "%s", f.key.c_str()); snprintf(W->msg, sizeof W->msg, "%s", f.msg.c_str()); W->failed = 2; _exit(0); }
  }
  double t0 = time(0); int st = 0; *hang = false;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (time(0) - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); *hang = true; break; }
    usleep(2000);
  }
  trace.assign(w->trace, w->trace_n);
  log = slurp(log_path(k));
  if (*hang) { key = "hang"; msg = fmt("execution did not finish within %g s", limit); return true; }
  if (w->failed == 2) { key = w->key; msg = w->msg; return true; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  key = crash_key(log, st); msg = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("process exited with status %d in the middle of an execution", WEXITSTATUS(st));
  return true;
}

static std::string jstr(const std::string &s) {
  std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o + "\"";
}

static void *shm(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p;
}

int main(int argc, char **argv, Options &o) {
  O = &o;
  if (!getenv("VF_NOASLR")) {
    setenv("VF_NOASLR", "1", 1);
    int per = personality(0xffffffff);
    if (per != -1 && personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.substr(0, 2) != "--") continue; size_t e = a.find('='); args_[a.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : a.substr(e + 1); }
  thorough = arg("tier", "quick") == "thorough";
  nworkers = atoi(arg("jobs", "8").c_str());
  double maxtime = atof(arg("maxtime", "600").c_str());
  S = (Shared *)shm(sizeof(Shared)); RS = (RunState *)shm(sizeof(RunState) * (nworkers + 1));
  T1 = (std::atomic<uint64_t> *)shm(TB * 8); T2 = (std::atomic<uint64_t> *)shm(TB * 8);
  base_dir = arg("tmp", "/tmp") + fmt("/vf.%s.%d", o.property, (int)getpid());
  mkdir(base_dir.c_str(), 0777);
  double t0; { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); t0 = ts.tv_sec + ts.tv_nsec * 1e-9; }
  auto now = [&] { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9 - t0; };

  auto finish = [&] { clean_dir(base_dir); rmdir(base_dir.c_str()); };

  if (arg("replay") != "") {
    std::string s = slurp(arg("replay")); std::vector<uint8_t> v;
    size_t p = s.find("choices:"); if (p == std::string::npos) { fprintf(stderr, "no choices in replay file\n"); finish(); return 2; }
    const char *c = s.c_str() + p + 8; while (*c && *c != '\n') { char *e; long x = strtol(c, &e, 10); if (e == c) break; v.push_back(x); c = e; }
    std::string key, msg, tr, log; bool hang;
    bool f = replay(v, key, msg, tr, log, 120, &hang);
    printf("%s", tr.c_str()); if (arg("log") != "") printf("---- log\n%s\n", log.c_str());
    if (f) printf("FAIL key=%s: %s\n%s\n", key.c_str(), msg.c_str(), log.substr(0, 4000).c_str()); else printf("execution passed\n");
    finish();
    return f ? 1 : 0;
  }

  Prefix root; memset(&root, 0, sizeof root); push_global(root);
  S->busy = (1 << nworkers) - 1;
  std::vector<pid_t> pid(nworkers); std::vector<uint64_t> lastrun(nworkers); std::vector<double> lastt(nworkers);
  int crashes = 0; bool capped = false, err = false; std::string errmsg;
  for (int k = 0; k < nworkers; k++) { pid[k] = spawn(k); lastt[k] = now(); }
  int alive = nworkers;
  while (alive) {
    bool any = false;
    for (int k = 0; k < nworkers; k++) {
      if (!pid[k]) continue;
      int st; pid_t r = waitpid(pid[k], &st, WNOHANG);
      if (r == pid[k]) {
        any = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[k] = 0; alive--; continue; }
        bool restart = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {}
        else {
          crashes++;
          std::string log = slurp(log_path(k)); RunState *w = &RS[k];
          if (!w->active) { err = true; errmsg = "worker died outside an execution: " + log.substr(log.size() > 2000 ? log.size() - 2000 : 0); S->stop = 1; restart = false; }
          else {
            std::string key = crash_key(log, st);
            add_viol(w, key.c_str(), "crash", 1, 0);
            push_children(w, false); w->active = 0;
            if (crashes > 60) { S->stop = 1; capped = true; restart = false; }
          }
        }
        if (restart && !S->stop) { pid[k] = spawn(k); lastt[k] = now(); } else { pid[k] = 0; alive--; }
        continue;
      }
      RunState *w = &RS[k];
      if (w->runs != lastrun[k] || !w->active) { lastrun[k] = w->runs; lastt[k] = now(); }
      else if (now() - lastt[k] > o.run_timeout) {
        kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); any = true; crashes++;
        add_viol(w, "hang", "suspected hang", 0, 1); push_children(w, false); w->active = 0;
        if (crashes > 20) { S->stop = 1; capped = true; pid[k] = 0; alive--; } else { pid[k] = spawn(k); lastt[k] = now(); }
      }
    }
    if (now() > maxtime && !S->stop) { S->stop = 1; capped = true; }
    if (S->nviol >= 40 && !S->stop) { S->stop = 1; capped = true; }
    if (!any) usleep(3000);
  }
  if (S->npool > 0 && !S->stop) capped = true;
  // replay what was found
  std::string vj; std::set<std::string> seen; int unrepro = 0;
  for (int i = 0; i < S->nviol; i++) {
    Viol &v = S->viol[i];
    if (!strcmp(v.key, "vf-internal")) { err = true; errmsg = v.msg; continue; }
    std::vector<uint8_t> c(v.val, v.val + v.len);
    if (seen.size() > 25) break;
    std::string key, msg, tr, log; bool hang; bool rep = false;
    for (int a = 0; a < 2 && !rep; a++) rep = replay(c, key, msg, tr, log, v.hang ? 60 : 40, &hang);
    if (!rep) { unrepro++; fprintf(stderr, "unreproducible: %s: %s\n", v.key, v.msg); continue; }
    if (key == "vf-internal") { err = true; errmsg = msg; continue; }
    if (!seen.insert(key).second) continue;
    std::string cs; for (auto x : c) cs += fmt("%d ", x);
    if (log.size() > 6000) log = log.substr(0, 6000);
    if (tr.size() > 20000) tr = tr.substr(tr.size() - 20000);
    vj += (vj.empty() ? "" : ",") + std::string("{\"key\":") + jstr(key) + ",\"msg\":" + jstr(msg) + ",\"choices\":" + jstr(cs) + ",\"trace\":" + jstr(tr) + ",\"log\":" + jstr(log) + "}";
  }
  std::string out = arg("out");
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"runs\":%lu,\"steps\":%lu,\"states\":%lu,\"nontrivial\":%lu,\"pruned\":%lu,\"maxlen\":%lu,\"exhaustive\":%s,\"capped\":%s,\"beyond_horizon\":%lu,\"unreproducible\":%d,\"wall\":%.2f,\"devbound\":%d,\"error\":%s,\"counters\":{",
          (unsigned long)S->runs, (unsigned long)S->steps, (unsigned long)S->states, (unsigned long)S->nontriv, (unsigned long)S->pruned, (unsigned long)S->maxlen,
          (!capped && !S->overflow && !err) ? "true" : "false", capped ? "true" : "false", (unsigned long)S->toolong, unrepro, now(), o.devbound, jstr(err ? errmsg : "").c_str());
  for (int i = 0, q = 0; i < NCNT; i++) if (S->cnt[i].name[0]) fprintf(f, "%s%s:%ld", q++ ? "," : "", jstr(S->cnt[i].name).c_str(), S->cnt[i].v.load());
  fprintf(f, "},\"samples\":[");
  for (int i = 0; i < S->nsamples; i++) fprintf(f, "%s%s", i ? "," : "", jstr(S->samples[i]).c_str());
  fprintf(f, "],\"violations\":[%s]}\n", vj.c_str());
  if (f != stdout) fclose(f);
  finish();
  return err ? 2 : 0;
}
}
