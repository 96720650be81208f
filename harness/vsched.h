// A stand-in for the threading part of the standard library under which every thread is a fiber and
// every step on a shared object (atomic, mutex, condition variable, future) is a point where a
// seeded scheduler decides who runs next.  It is included before everything else (-include), and the
// library and the driver are then compiled with std:: naming this namespace, so that the real code
// runs under chosen, reproducible schedules.
#ifndef VSCHED_H
#define VSCHED_H
#include <bits/stdc++.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <pthread.h>
#include <sys/single_threaded.h>
#include <time.h>

// Parts which must run without being interrupted even when memory accesses are scheduling points.
#define VS __attribute__((no_sanitize_thread, noinline))

namespace vsched {
struct Stuck {};
struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr;
  std::function<void()> fn;
  int state = 0;  // 0 ready, 1 blocked, 2 done
  const void* on = nullptr;
  bool timed = false, timedout = false;
  int prio = 0, id = 0;
};
constexpr size_t STACK = 512 << 10;
struct State {
  std::vector<Fiber*> fs;
  Fiber* cur = nullptr;
  bool in = false, stuck = false, off = false;
  uint64_t rnd = 1;
  int mode = 0;             // 0 random switches, 1 priorities with change points, 2 systematic
  int pct = 100;            // switch probability (1/1000)
  std::vector<long> changes;
  int lowprio = 0;
  long steps = 0, cap = 0, yields = 0, preempts = 0;
  long aperiod = 0, anext = 0;  // plain memory accesses between two points
  // systematic exploration
  std::vector<int> prefix;
  std::vector<std::pair<int, int>> trail;
  int bound = 2, ybound = 4;
  std::vector<char*> pool;
  void (*onstuck)() = nullptr;
  void (*onyield)(int id) = nullptr;
};
alignas(64) inline char g_mem[sizeof(State)];
inline State* g_state = nullptr;
VS inline State& S() {
  if (g_state == nullptr) { g_state = (State*)g_mem; new (g_mem) State; __libc_single_threaded = 0; }
  return *g_state;
}
VS inline uint32_t R(uint32_t n) {
  uint64_t& x = S().rnd;
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  return n ? (uint32_t)((x >> 24) % n) : 0;
}
VS inline Fiber* Main() {
  State& s = S();
  if (s.cur == nullptr) {
    const bool in = s.in;
    s.in = true;
    Fiber* f = new Fiber;
    s.fs.push_back(f);
    s.cur = f;
    s.in = in;
  }
  return s.cur;
}
VS inline int Choose(int n) {
  State& s = S();
  if (n <= 1) return 0;
  if (s.mode != 2) return R(n);
  const size_t i = s.trail.size();
  const int c = i < s.prefix.size() ? std::min(s.prefix[i], n - 1) : 0;
  s.trail.emplace_back(c, n);
  return c;
}
VS inline void SwitchTo(Fiber* f) {
  State& s = S();
  if (f->state == 1) { f->timedout = true; f->state = 0; f->on = nullptr; }
  Fiber* me = s.cur;
  if (f != me) {
    s.in = true;
    s.cur = f;
    swapcontext(&me->ctx, &f->ctx);
  }
  s.in = false;
}
// Nobody can go on: gives the control to the main fiber, which throws.
VS inline void GiveUp() {
  State& s = S();
  if (s.onstuck) { s.off = true; s.onstuck(); }
  s.stuck = true;
  s.in = false;
  Fiber* m = s.fs[0];
  if (s.cur != m) { m->state = 0; SwitchTo(m); }
  throw Stuck();
}
VS inline void Candidates(std::vector<Fiber*>* ready, std::vector<Fiber*>* timed) {
  State& s = S();
  const int n = s.fs.size();
  int at = 0;
  for (int i = 0; i < n; i++) if (s.fs[i] == s.cur) at = i;
  for (int i = 1; i < n; i++) {
    Fiber* f = s.fs[(at + i) % n];
    if (f->state == 0) ready->push_back(f);
    else if (f->state == 1 && f->timed) timed->push_back(f);
  }
}
VS inline Fiber* Highest(const std::vector<Fiber*>& v) {
  Fiber* b = nullptr;
  for (auto* f : v) if (b == nullptr || f->prio > b->prio) b = f;
  return b;
}
VS inline void CheckStuck() { if (S().stuck && S().cur == S().fs[0]) throw Stuck(); }
// A step on a shared object is about to be made.
VS inline void Point() {
  State& s = S();
  if (s.in || s.off || s.stuck || s.fs.size() < 2) return;
  s.in = true;
  s.steps++;
  if (s.cap && s.steps > s.cap) GiveUp();
  if (s.mode == 0) { if ((int)R(1000) >= s.pct) { s.in = false; return; } }
  std::vector<Fiber*> ready, timed;
  Candidates(&ready, &timed);
  Fiber* to = nullptr;
  if (s.mode == 0) {
    if (!timed.empty() && (ready.empty() ? R(4) == 0 : R(8) == 0)) to = timed[R(timed.size())];
    else if (!ready.empty()) to = ready[R(ready.size())];
  } else if (s.mode == 1) {
    for (long c : s.changes) if (c == s.steps) s.cur->prio = --s.lowprio;
    if (!timed.empty() && R(60) == 0) to = timed[R(timed.size())];
    else { Fiber* h = Highest(ready); if (h && h->prio > s.cur->prio) to = h; }
  } else if (s.preempts < s.bound) {
    ready.insert(ready.end(), timed.begin(), timed.end());
    const int c = Choose(1 + (int)ready.size());
    if (c > 0) { s.preempts++; to = ready[c - 1]; }
  }
  if (to) SwitchTo(to); else s.in = false;
}
// A plain memory access.
VS inline void Access() {
  State& s = S();
  if (s.aperiod == 0 || s.in || s.off || s.stuck || --s.anext > 0) return;
  s.anext = 1 + R(2 * s.aperiod);
  if (s.fs.size() < 2 || s.mode == 2) return;
  s.in = true;
  s.steps++;
  std::vector<Fiber*> ready, timed;
  Candidates(&ready, &timed);
  Fiber* to = nullptr;
  if (s.mode == 0) { if (!ready.empty()) to = ready[R(ready.size())]; }
  else if (R(3) == 0) {
    s.cur->prio = --s.lowprio;
    Fiber* h = Highest(ready);
    if (h && h->prio > s.cur->prio) to = h;
  }
  if (to) SwitchTo(to); else s.in = false;
}
// The current fiber cannot or does not want to go on.
VS inline void Away(bool blocked) {
  State& s = S();
  s.in = true;
  s.steps++;
  if (s.cap && s.steps > s.cap) GiveUp();
  std::vector<Fiber*> ready, timed;
  Candidates(&ready, &timed);
  if (blocked && s.cur->timed) timed.push_back(s.cur);
  Fiber* to = nullptr;
  if (ready.empty()) {
    if (!blocked) {
      if (!timed.empty()) to = timed[Choose(timed.size())];
    } else {
      if (timed.empty()) GiveUp();
      to = timed[Choose(timed.size())];
    }
  } else if (s.mode == 2) {
    if (s.yields++ < s.ybound) {
      ready.insert(ready.end(), timed.begin(), timed.end());
      to = ready[Choose(ready.size())];
    } else to = ready[0];
  } else if (!timed.empty() && R(10) == 0) to = timed[R(timed.size())];
  else if (s.mode == 1) {
    if (!blocked) s.cur->prio = --s.lowprio;
    to = Highest(ready);
  } else to = ready[R(ready.size())];
  if (to) SwitchTo(to); else s.in = false;
}
VS inline void Yield() {
  if (S().off || S().fs.size() < 2) return;
  if (S().in) return;
  if (S().onyield) S().onyield(S().cur->id);
  Away(false);
}
VS inline bool Block(const void* on, bool timed) {
  CheckStuck();
  S().in = true;
  Fiber* f = Main();
  f->on = on;
  f->timed = timed;
  f->timedout = false;
  f->state = 1;
  Away(true);
  CheckStuck();
  f->timed = false;
  return f->timedout;
}
VS inline void Wake(const void* on, bool all = true) {
  State& s = S();
  if (s.fs.size() < 2) return;
  const bool in = s.in;
  s.in = true;
  {
    std::vector<Fiber*> v;
    for (auto* f : s.fs) if (f->state == 1 && f->on == on) v.push_back(f);
    if (!all && v.size() > 1) { Fiber* f = v[Choose(v.size())]; v.assign(1, f); }
    for (auto* f : v) { f->state = 0; f->on = nullptr; }
  }
  s.in = in;
}
VS inline void Entry() {
  State& s = S();
  Fiber* f = s.cur;
  s.in = false;
  f->fn();
  s.in = true;
  f->fn = nullptr;
  f->state = 2;
  Wake(f);
  Away(true);
  abort();
}
VS inline Fiber* Spawn(std::function<void()> fn) {
  State& s = S();
  Main();
  const bool in = s.in;
  s.in = true;
  Fiber* f = new Fiber;
  f->id = s.fs.size();
  f->fn = std::move(fn);
  f->prio = (int)R(1000);
  if (s.pool.empty()) f->stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  else { f->stack = s.pool.back(); s.pool.pop_back(); }
  getcontext(&f->ctx);
  f->ctx.uc_stack.ss_sp = f->stack;
  f->ctx.uc_stack.ss_size = STACK;
  f->ctx.uc_link = nullptr;
  makecontext(&f->ctx, (void (*)())Entry, 0);
  s.fs.push_back(f);
  s.in = in;
  return f;
}
VS inline void Reap(Fiber* f) {
  State& s = S();
  s.in = true;
  s.fs.erase(std::find(s.fs.begin(), s.fs.end(), f));
  s.pool.push_back(f->stack);
  delete f;
  s.in = false;
}
// Code of the harness on data shared by the fibers.
struct Quiet {
  bool in;
  VS Quiet() { in = S().in; S().in = true; }
  VS ~Quiet() { S().in = in; }
};
// Forgets all fibers but the main one (after Stuck).
VS inline void Reset() {
  State& s = S();
  s.in = true;
  Main();
  for (size_t i = 1; i < s.fs.size(); i++) s.pool.push_back(s.fs[i]->stack);
  s.fs.resize(1);
  s.cur = s.fs[0];
  s.cur->state = 0;
  s.stuck = false;
  s.steps = s.yields = s.preempts = 0;
  s.trail.clear();
  s.in = false;
}
// A seeded way of scheduling.
VS inline void Policy(uint64_t seed, int kind = -1, int len = 400) {
  State& s = S();
  s.rnd = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
  for (int i = 0; i < 4; i++) R(2);
  s.steps = s.yields = s.preempts = 0;
  s.mode = kind >= 0 ? kind : (R(100) < 70 ? 0 : 1);
  static const int ps[] = {5, 20, 60, 150, 300, 600};
  s.pct = ps[R(6)];
  s.changes.clear();
  s.lowprio = 0;
  if (s.mode == 1) for (int i = 0, n = 1 + R(4); i < n; i++) s.changes.push_back(1 + R(len));
  static const long as[] = {0, 0, 100, 1000, 10000};
  s.aperiod = s.mode == 2 ? 0 : as[R(5)];
  s.anext = 1 + R(100);
  Main()->prio = (int)R(1000);
}
// Systematic exploration: the next schedule after the one just run; false if there is none.
VS inline bool NextSchedule() {
  State& s = S();
  auto& t = s.trail;
  while (!t.empty() && t.back().first + 1 >= t.back().second) t.pop_back();
  if (t.empty()) return false;
  s.prefix.clear();
  for (auto& x : t) s.prefix.push_back(x.first);
  s.prefix.back()++;
  return true;
}
}  // namespace vsched

namespace vstd {
using namespace ::std;

template <class T>
struct atomic {
  T v;
  atomic() : v() {}
  atomic(T x) : v(x) {}
  atomic(const atomic&) = delete;
  atomic& operator=(const atomic&) = delete;
  VS static void P() { vsched::Point(); }
  VS T load(memory_order = memory_order_seq_cst) const { P(); return v; }
  VS void store(T x, memory_order = memory_order_seq_cst) { P(); v = x; }
  VS operator T() const { P(); return v; }
  VS T operator=(T x) { P(); v = x; return x; }
  VS T exchange(T x, memory_order = memory_order_seq_cst) { P(); T o = v; v = x; return o; }
  VS bool compare_exchange_strong(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
    P();
    if (v == e) { v = d; return true; }
    e = v;
    return false;
  }
  VS bool compare_exchange_weak(T& e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) {
    P();
    if (vsched::S().mode != 2 && vsched::R(50) == 0) { e = v; return false; }
    if (v == e) { v = d; return true; }
    e = v;
    return false;
  }
  template <class U> VS T fetch_add(U x, memory_order = memory_order_seq_cst) { P(); T o = v; v = v + x; return o; }
  template <class U> VS T fetch_sub(U x, memory_order = memory_order_seq_cst) { P(); T o = v; v = v - x; return o; }
  template <class U> VS T fetch_or(U x, memory_order = memory_order_seq_cst) { P(); T o = v; v = v | x; return o; }
  template <class U> VS T fetch_and(U x, memory_order = memory_order_seq_cst) { P(); T o = v; v = v & x; return o; }
  VS T operator++() { P(); return ++v; }
  VS T operator--() { P(); return --v; }
  VS T operator++(int) { P(); return v++; }
  VS T operator--(int) { P(); return v--; }
  template <class U> VS T operator+=(U x) { P(); return v += x; }
  template <class U> VS T operator-=(U x) { P(); return v -= x; }
};
typedef atomic<bool> atomic_bool;
typedef atomic<int32_t> atomic_int32_t;
typedef atomic<int64_t> atomic_int64_t;
typedef atomic<uint32_t> atomic_uint32_t;
typedef atomic<uint64_t> atomic_uint64_t;
typedef atomic<int> atomic_int;
typedef atomic<long> atomic_long;
typedef atomic<size_t> atomic_size_t;
struct atomic_flag {
  bool f = false;
  atomic_flag() {}
  atomic_flag(int) {}
  VS bool test_and_set(memory_order = memory_order_seq_cst) { vsched::Point(); bool o = f; f = true; return o; }
  VS void clear(memory_order = memory_order_seq_cst) { vsched::Point(); f = false; }
};
inline void atomic_thread_fence(memory_order) { vsched::Point(); }

struct shared_timed_mutex {
  bool w = false;
  int r = 0;
  shared_timed_mutex() {}
  shared_timed_mutex(const shared_timed_mutex&) = delete;
  VS void lock() { vsched::Point(); while (w || r) vsched::Block(this, false); w = true; }
  VS bool try_lock() { vsched::Point(); if (w || r) return false; w = true; return true; }
  VS void unlock() { vsched::Point(); w = false; vsched::Wake(this); }
  VS void lock_shared() { vsched::Point(); while (w) vsched::Block(this, false); r++; }
  VS bool try_lock_shared() { vsched::Point(); if (w) return false; r++; return true; }
  VS void unlock_shared() { vsched::Point(); r--; if (r <= 0) vsched::Wake(this); }
  template <class D> VS bool try_lock_for(const D&) { vsched::Point(); while (w || r) if (vsched::Block(this, true) && (w || r)) return false; w = true; return true; }
  template <class D> VS bool try_lock_until(const D& d) { return try_lock_for(d); }
  template <class D> VS bool try_lock_shared_for(const D&) { vsched::Point(); while (w) if (vsched::Block(this, true) && w) return false; r++; return true; }
};
struct shared_mutex : public shared_timed_mutex {};
struct mutex {
  bool w = false;
  mutex() {}
  mutex(const mutex&) = delete;
  VS void lock() { vsched::Point(); while (w) vsched::Block(this, false); w = true; }
  VS bool try_lock() { vsched::Point(); if (w) return false; w = true; return true; }
  VS void unlock() { vsched::Point(); w = false; vsched::Wake(this); }
  template <class D> VS bool try_lock_for(const D&) { vsched::Point(); while (w) if (vsched::Block(this, true) && w) return false; w = true; return true; }
};
typedef mutex timed_mutex;
struct recursive_mutex {
  mutex m;
  vsched::Fiber* own = nullptr;
  int n = 0;
  VS void lock() { if (own == vsched::Main()) { n++; return; } m.lock(); own = vsched::Main(); n = 1; }
  VS bool try_lock() { if (own == vsched::Main()) { n++; return true; } if (!m.try_lock()) return false; own = vsched::Main(); n = 1; return true; }
  VS void unlock() { if (--n == 0) { own = nullptr; m.unlock(); } }
};
struct condition_variable {
  template <class L> VS void wait(L& l) { Sleep(l, false); }
  template <class L, class P> VS void wait(L& l, P p) { while (!p()) wait(l); }
  template <class L, class C, class D> VS cv_status wait_until(L& l, const chrono::time_point<C, D>& t) {
    const double left = chrono::duration<double>(t - C::now()).count();
    return Sleep(l, left < 1e6) ? cv_status::timeout : cv_status::no_timeout;
  }
  template <class L, class C, class D, class P> VS bool wait_until(L& l, const chrono::time_point<C, D>& t, P p) {
    while (!p()) if (wait_until(l, t) == cv_status::timeout) return p();
    return true;
  }
  template <class L, class R, class Q> VS cv_status wait_for(L& l, const chrono::duration<R, Q>& d) {
    return Sleep(l, chrono::duration<double>(d).count() < 1e6) ? cv_status::timeout : cv_status::no_timeout;
  }
  template <class L, class R, class Q, class P> VS bool wait_for(L& l, const chrono::duration<R, Q>& d, P p) {
    while (!p()) if (wait_for(l, d) == cv_status::timeout) return p();
    return true;
  }
  VS void notify_one() { vsched::Point(); vsched::Wake(this, false); }
  VS void notify_all() { vsched::Point(); vsched::Wake(this); }
 private:
  template <class L> VS bool Sleep(L& l, bool timed) {
    if (vsched::S().mode != 2 && vsched::R(60) == 0) { l.unlock(); vsched::Yield(); l.lock(); return false; }  // wakes for no reason
    // releasing the lock and going to sleep are one step
    vsched::Point();
    vsched::S().in = true;
    l.unlock();
    const bool to = vsched::Block(this, timed);
    l.lock();
    return to;
  }
};
typedef condition_variable condition_variable_any;

class thread {
 public:
  typedef int id;
  thread() {}
  template <class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, thread>>>
  explicit thread(F&& f, A&&... a) {
    auto b = make_shared<tuple<decay_t<F>, decay_t<A>...>>(forward<F>(f), forward<A>(a)...);
    f_ = vsched::Spawn([b]() { apply([](auto& g, auto&... x) { invoke(move(g), move(x)...); }, *b); });
  }
  thread(thread&& o) noexcept : f_(o.f_) { o.f_ = nullptr; }
  thread& operator=(thread&& o) noexcept { f_ = o.f_; o.f_ = nullptr; return *this; }
  thread(const thread&) = delete;
  ~thread() {}
  VS bool joinable() const { return f_ != nullptr; }
  VS void join() { while (f_->state != 2) vsched::Block(f_, false); vsched::Reap(f_); f_ = nullptr; }
  VS void detach() { f_ = nullptr; }
  int get_id() const { return f_ ? f_->id : 0; }
  static unsigned hardware_concurrency() { return 4; }
 private:
  vsched::Fiber* f_ = nullptr;
};
namespace this_thread {
inline void yield() { vsched::Yield(); }
inline int get_id() { return vsched::Main()->id; }
template <class R, class P> void sleep_for(const chrono::duration<R, P>& d) {
  if (vsched::S().fs.size() < 2) { ::std::this_thread::sleep_for(d); return; }
  static int x;
  vsched::Block(&x, true);
}
template <class C, class D> void sleep_until(const chrono::time_point<C, D>&) { sleep_for(chrono::seconds(0)); }
}  // namespace this_thread

struct once_flag { mutex m; bool d = false; };
template <class F, class... A> void call_once(once_flag& o, F&& f, A&&... a) {
  lock_guard<mutex> l(o.m);
  if (!o.d) { invoke(forward<F>(f), forward<A>(a)...); o.d = true; }
}

template <class T> struct FutState {
  mutex m;
  condition_variable c;
  bool ready = false;
  optional<conditional_t<is_void_v<T>, int, T>> v;
  exception_ptr e;
};
template <class T> class future {
 public:
  future() {}
  explicit future(shared_ptr<FutState<T>> s) : s_(move(s)) {}
  future(future&&) = default;
  future& operator=(future&&) = default;
  VS bool valid() const { return s_ != nullptr; }
  VS void wait() const { unique_lock<mutex> l(s_->m); s_->c.wait(l, [&]() { return s_->ready; }); }
  template <class R, class P> future_status wait_for(const chrono::duration<R, P>& d) const {
    unique_lock<mutex> l(s_->m);
    if (!s_->ready && d.count() <= 0) return future_status::timeout;
    return s_->c.wait_for(l, d, [&]() { return s_->ready; }) ? future_status::ready : future_status::timeout;
  }
  template <class C, class D> future_status wait_until(const chrono::time_point<C, D>& t) const {
    unique_lock<mutex> l(s_->m);
    return s_->c.wait_until(l, t, [&]() { return s_->ready; }) ? future_status::ready : future_status::timeout;
  }
  T get() {
    wait();
    auto s = move(s_);
    if (s->e) rethrow_exception(s->e);
    if constexpr (!is_void_v<T>) return move(*s->v);
  }
 private:
  shared_ptr<FutState<T>> s_;
};
template <class T> class promise {
 public:
  promise() : s_(make_shared<FutState<T>>()) {}
  promise(promise&&) = default;
  promise& operator=(promise&&) = default;
  ~promise() { if (s_ && !s_->ready) { s_->e = make_exception_ptr(future_error(future_errc::broken_promise)); Done(); } }
  future<T> get_future() { return future<T>(s_); }
  template <class... U> void set_value(U&&... u) {
    if (s_->ready) throw future_error(future_errc::promise_already_satisfied);
    if constexpr (is_void_v<T>) s_->v = 0; else s_->v.emplace(forward<U>(u)...);
    Done();
  }
  void set_exception(exception_ptr e) { s_->e = e; Done(); }
 private:
  VS void Done() { { lock_guard<mutex> l(s_->m); s_->ready = true; } s_->c.notify_all(); }
  shared_ptr<FutState<T>> s_;
};
}  // namespace vstd
#define std vstd
#endif
