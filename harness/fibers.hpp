// Threads of the code under test as fibers under a controlled scheduler.  The library is compiled with
// -fsanitize=thread, which makes the compiler call __tsan_read/__tsan_write before every memory access that another
// thread could see; those calls, defined here instead of by the sanitizer, are the preemption points, together with
// the pthread mutex operations (renamed by the linker).
#pragma once
#include <ucontext.h>
#include <pthread.h>
#include <errno.h>
#include <functional>
#include <vector>
#include <memory>
#include "vf.hpp"
namespace fib {
struct F { ucontext_t c; std::vector<char> stack; std::function<void()> f; bool done = false; pthread_mutex_t *wait = nullptr; };
inline std::vector<std::unique_ptr<F>> fs; inline ucontext_t home; inline int cur = -1; inline bool active = false; inline vf::Failure *err = nullptr;
inline std::vector<std::pair<pthread_mutex_t *, int>> owners;
inline int owner(pthread_mutex_t *m) { for (auto &o : owners) if (o.first == m) return o.second; return -1; }
inline bool runnable(int i) { return !fs[i]->done && !(fs[i]->wait && owner(fs[i]->wait) >= 0); }
inline void to(int i) { int p = cur; cur = i; if (p == i) return; swapcontext(p < 0 ? &home : &fs[p]->c, i < 0 ? &home : &fs[i]->c); }
// a scheduling point; forced: the current fiber cannot go on
inline void point(bool forced) {
  if (!active) return; vf::step();
  if (err) { to(-1); return; }
  std::vector<int> r; for (size_t k = 0; k < fs.size(); k++) if ((int)k != cur && runnable(k)) r.push_back(k);
  int n;
  if (forced) { if (r.empty()) { bool all = true; for (auto &f : fs) if (!f->done) all = false; if (!all && !err) err = new vf::Failure{"deadlock of threads", "no thread can run"}; to(-1); return; } n = r[r.size() > 1 ? vf::pick(r.size(), "next thread") : 0]; }
  else { if (r.empty()) return; int d = vf::dev(r.size() + 1, "preempt"); if (!d) return; n = r[d - 1]; }
  to(n);
}
inline void entry(int i) { F &f = *fs[i]; try { f.f(); } catch (vf::Failure &e) { if (!err) err = new vf::Failure(e); } f.done = true; if (err) to(-1); else point(true); to(-1); }
inline void run(std::vector<std::function<void()>> bodies) {
  fs.clear(); owners.clear(); delete err; err = nullptr;
  for (size_t i = 0; i < bodies.size(); i++) { fs.emplace_back(new F); F &f = *fs[i]; f.stack.resize(1 << 16); f.f = bodies[i]; getcontext(&f.c); f.c.uc_stack.ss_sp = f.stack.data(); f.c.uc_stack.ss_size = f.stack.size(); f.c.uc_link = &home; makecontext(&f.c, (void (*)())entry, 1, (int)i); }
  active = true; cur = -1; to(bodies.size() > 1 ? vf::pick(bodies.size(), "first thread") : 0); active = false; cur = -1;
  if (err) vf::fail(err->key.c_str(), "%s", err->msg.c_str());
}
inline bool shared(void *p) { if (cur < 0) return false; char *s = fs[cur]->stack.data(); return !((char *)p >= s && (char *)p < s + fs[cur]->stack.size()); }
inline void access(void *p) { if (active && shared(p)) point(false); }
inline int lock(pthread_mutex_t *m) { if (!active) return 0; point(false); int o = owner(m); if (o == cur) { if (!err) err = new vf::Failure{"self deadlock", "a thread locks a mutex it holds"}; to(-1); }
  while (owner(m) >= 0) { fs[cur]->wait = m; point(true); fs[cur]->wait = nullptr; } owners.push_back({m, cur}); return 0; }
inline int unlock(pthread_mutex_t *m) { if (!active) return 0; for (size_t i = 0; i < owners.size(); i++) if (owners[i].first == m) { if (owners[i].second != cur && !err) err = new vf::Failure{"unlock of a mutex held by another thread", ""}; owners.erase(owners.begin() + i); break; } point(false); return 0; }
inline int trylock(pthread_mutex_t *m) { if (!active) return 0; point(false); if (owner(m) >= 0) return EBUSY; owners.push_back({m, cur}); return 0; }
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define A(n) void __tsan_##n(void *p) { fib::access(p); }
A(read1) A(read2) A(read4) A(read8) A(read16) A(write1) A(write2) A(write4) A(write8) A(write16)
A(unaligned_read2) A(unaligned_read4) A(unaligned_read8) A(unaligned_read16) A(unaligned_write2) A(unaligned_write4) A(unaligned_write8) A(unaligned_write16)
A(read1_pc) A(read2_pc) A(read4_pc) A(read8_pc) A(write1_pc) A(write2_pc) A(write4_pc) A(write8_pc)
A(volatile_read1) A(volatile_read2) A(volatile_read4) A(volatile_read8) A(volatile_write1) A(volatile_write2) A(volatile_write4) A(volatile_write8)
#undef A
void __tsan_read_range(void *p, unsigned long) { fib::access(p); } void __tsan_write_range(void *p, unsigned long) { fib::access(p); }
// atomics: one scheduling point, then the operation itself
#define AT(N, T) T __tsan_atomic##N##_load(const volatile T *p, int) { fib::access((void *)p); return *p; } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int) { fib::access((void *)p); *p = v; } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { fib::access((void *)p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { fib::access((void *)p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { fib::access((void *)p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { fib::access((void *)p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { fib::access((void *)p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { fib::access((void *)p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { fib::access((void *)p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { fib::access((void *)p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
#undef AT
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return fib::lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return fib::unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return fib::trylock(m); }
}
