// The vmc runtime: choice-vector explorer and cooperative fibers.
#include "vmc/vmc.h"

#include <cxxabi.h>
#include <pthread.h>
#include <sys/mman.h>

#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>

#include "boost/context/detail/fcontext.hpp"

namespace vmc {

// ------------------------------------------------------------- explorer ----
namespace {
struct Cp {
  int n;
  int pick;
  int cost;
};
std::vector<Cp> g_stack;   // choices of the current execution
size_t g_pos = 0;          // next choice
std::vector<int> g_prefix; // replay prefix
bool g_exploring = false;
}  // namespace

int choose(int n, const char* what, int cost) {
  (void)what;
  if (n <= 1 || !g_exploring) return 0;
  if (g_pos < g_stack.size()) {
    // The system under test must be deterministic given the choices.
    if (g_stack[g_pos].n != n) {
      std::fprintf(stderr,
                   "vmc: nondeterministic replay at choice %zu (%s): %d vs %d\n",
                   g_pos, what, g_stack[g_pos].n, n);
      std::abort();
    }
    return g_stack[g_pos++].pick;
  }
  int pick = 0;
  if (g_pos < g_prefix.size()) pick = g_prefix[g_pos] % n;
  g_stack.push_back({n, pick, cost});
  ++g_pos;
  return pick;
}

bool Explorer::explore(const std::function<bool()>& body) {
  auto t0 = std::chrono::steady_clock::now();
  g_stack.clear();
  g_prefix.clear();
  bool ok = true;
  while (true) {
    g_pos = 0;
    g_exploring = true;
    ok = body();
    g_exploring = false;
    ++execs;
    g_stack.resize(g_pos);
    choice_points += static_cast<long>(g_stack.size());
    max_depth = std::max<long>(max_depth, static_cast<long>(g_stack.size()));
    last.clear();
    for (auto& c : g_stack) last.push_back(c.pick);
    if (!ok) break;
    if (max_execs >= 0 && execs >= max_execs) {
      capped = true;
      break;
    }
    if (max_seconds >= 0 &&
        std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
                .count() > max_seconds) {
      capped = true;
      break;
    }
    // backtrack: last position whose next alternative fits in the bound
    int used = 0;
    std::vector<int> before(g_stack.size());
    for (size_t i = 0; i < g_stack.size(); ++i) {
      before[i] = used;
      if (g_stack[i].pick != 0) used += g_stack[i].cost;
    }
    bool found = false;
    while (!g_stack.empty()) {
      size_t i = g_stack.size() - 1;
      if (g_stack[i].pick + 1 < g_stack[i].n &&
          before[i] + g_stack[i].cost <= bound) {
        g_stack[i].pick++;
        found = true;
        break;
      }
      g_stack.pop_back();
    }
    if (!found) break;
  }
  g_stack.clear();
  return ok;
}

bool Explorer::replay(const std::vector<int>& choices,
                      const std::function<bool()>& body) {
  g_stack.clear();
  g_prefix = choices;
  g_pos = 0;
  g_exploring = true;
  bool ok = body();
  g_exploring = false;
  ++execs;
  last.clear();
  for (auto& c : g_stack) last.push_back(c.pick);
  g_stack.clear();
  g_prefix.clear();
  return ok;
}

std::string Explorer::lastStr() const {
  std::string s;
  for (auto c : last) s += (s.empty() ? "" : ",") + std::to_string(c);
  return s;
}

// --------------------------------------------------------------- fibers ----
SchedConfig sched;

using boost::context::detail::fcontext_t;
using boost::context::detail::jump_fcontext;
using boost::context::detail::make_fcontext;
using boost::context::detail::transfer_t;

struct Fiber {
  int id = 0;
  int party = 0;
  bool main = false;
  bool done = false;
  bool started = false;
  std::function<void()> fn;
  std::function<bool()> ready;  // null: runnable
  std::string why;
  fcontext_t ctx = nullptr;
  void* stack = nullptr;
  std::string error;
  bool stuck = false;
  bool raise_stuck = false;
  bool nounwind = false;  // blocked where throwing is not allowed
  char eh[16] = {0};  // saved __cxa_eh_globals
};

namespace {
constexpr size_t kStack = 1 << 20;
std::vector<void*> g_pool;
std::vector<std::unique_ptr<Fiber>> g_fibers;
Fiber* g_cur = nullptr;
fcontext_t g_main_ctx = nullptr;
bool g_active = false;
bool g_failed = false;  // some fiber ended with an error
bool g_terminated = false;
long g_switches = 0;
int g_rr = 0;
char g_main_eh[16];

void* allocStack() {
  if (!g_pool.empty()) {
    void* p = g_pool.back();
    g_pool.pop_back();
    return p;
  }
  void* p = mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    std::perror("mmap");
    std::abort();
  }
  mprotect(p, 4096, PROT_NONE);
  return p;
}

void entry(transfer_t t) {
  g_main_ctx = t.fctx;
  Fiber* self = g_cur;
  try {
    self->fn();
  } catch (const Stuck& s) {
    self->error = "stuck: " + s.what;
    self->stuck = true;
    g_failed = true;
  } catch (const std::exception& e) {
    self->error = e.what();
    if (self->error.empty()) self->error = "exception";
    self->stuck = self->raise_stuck;
    g_failed = true;
    if (!self->main) g_terminated = true;  // escaping a thread: terminate()
  } catch (...) {
    self->error = "unknown exception";
    g_failed = true;
    if (!self->main) g_terminated = true;
  }
  self->fn = nullptr;
  self->done = true;
  auto r = jump_fcontext(g_main_ctx, nullptr);
  (void)r;
  std::abort();
}

void yieldToMain() {
  Fiber* self = g_cur;
  std::memcpy(self->eh, abi::__cxa_get_globals(), 16);
  transfer_t t = jump_fcontext(g_main_ctx, nullptr);
  g_main_ctx = t.fctx;
  std::memcpy(static_cast<void*>(abi::__cxa_get_globals()), self->eh, 16);
}

void resume(Fiber* f) {
  g_cur = f;
  std::memcpy(g_main_eh, abi::__cxa_get_globals(), 16);
  if (!f->started) {
    f->started = true;
    f->stack = allocStack();
    f->ctx = make_fcontext(static_cast<char*>(f->stack) + kStack, kStack - 4096,
                           entry);
    std::memset(static_cast<void*>(abi::__cxa_get_globals()), 0, 16);
  }
  ++g_switches;
  transfer_t t = jump_fcontext(f->ctx, nullptr);
  f->ctx = t.fctx;
  std::memcpy(static_cast<void*>(abi::__cxa_get_globals()), g_main_eh, 16);
  g_cur = nullptr;
  if (f->done && f->stack) {
    g_pool.push_back(f->stack);
    f->stack = nullptr;
  }
}

bool enabled(Fiber* f) { return !f->done && (!f->ready || f->ready()); }
}  // namespace

bool active() { return g_active && g_cur != nullptr; }
int self_party() { return g_cur ? g_cur->party : 0; }
int self_fiber() { return g_cur ? g_cur->id : -1; }

Fiber* spawn(std::function<void()> fn) {
  if (!active()) {
    std::fprintf(stderr, "vmc: spawn outside run()\n");
    std::abort();
  }
  auto f = std::make_unique<Fiber>();
  f->id = static_cast<int>(g_fibers.size());
  f->party = g_cur->party;
  f->fn = std::move(fn);
  g_fibers.push_back(std::move(f));
  auto* p = g_fibers.back().get();
  point("spawn");
  return p;
}

bool finished(Fiber* f) { return f->done; }

void join(Fiber* f) {
  block([f] { return f->done; }, "join fiber " + std::to_string(f->id));
}

void block(const std::function<bool()>& ready, const std::string& why) {
  if (!active()) {
    if (ready()) return;
    std::fprintf(stderr, "vmc: blocking outside run(): %s\n", why.c_str());
    throw Stuck{why};
  }
  if (ready()) return;
  Fiber* self = g_cur;
  self->ready = ready;
  self->why = why;
  yieldToMain();
  self->ready = nullptr;
  if (self->raise_stuck) {
    throw Stuck{why};
  }
}

void point(const char* what) {
  if (!active() || !sched.preempt) return;
  Fiber* self = g_cur;
  std::vector<Fiber*> others;
  for (auto& f : g_fibers) {
    if (f.get() != self && enabled(f.get())) others.push_back(f.get());
  }
  if (others.empty()) return;
  int k = choose(1 + static_cast<int>(others.size()), what, 1);
  if (k == 0) return;
  // Ask the main loop to run others[k-1] next.
  static Fiber* target;
  target = others[k - 1];
  self->ready = nullptr;
  self->why = "preempted";
  extern Fiber* g_next_hint;
  g_next_hint = target;
  yieldToMain();
}

Fiber* g_next_hint = nullptr;

RunResult run(const std::vector<std::function<void()>>& bodies) {
  if (g_active) {
    std::fprintf(stderr, "vmc: nested run()\n");
    std::abort();
  }
  g_active = true;
  g_failed = false;
  g_terminated = false;
  g_switches = 0;
  g_rr = 0;
  g_fibers.clear();
  for (size_t i = 0; i < bodies.size(); ++i) {
    auto f = std::make_unique<Fiber>();
    f->id = static_cast<int>(i);
    f->party = static_cast<int>(i);
    f->main = true;
    f->fn = bodies[i];
    g_fibers.push_back(std::move(f));
  }
  RunResult r;
  while (true) {
    Fiber* next = nullptr;
    if (g_next_hint != nullptr) {
      next = g_next_hint;
      g_next_hint = nullptr;
    } else {
      std::vector<Fiber*> en;
      bool all_done = true;
      for (auto& f : g_fibers) {
        if (!f->done) all_done = false;
        if (enabled(f.get())) en.push_back(f.get());
      }
      if (all_done) break;
      if (en.empty()) {
        if (!g_failed && !r.deadlock) {
          r.deadlock = true;
          for (auto& f : g_fibers) {
            if (!f->done)
              r.blocked.push_back("fiber " + std::to_string(f->id) + "/party " +
                                  std::to_string(f->party) + ": " + f->why);
          }
        }
        // unwind every blocked fiber
        bool any = false;
        for (auto& f : g_fibers) {
          if (!f->done && !f->nounwind) {
            f->raise_stuck = true;
            f->ready = nullptr;
            any = true;
          }
        }
        if (!any) {
          // only fibers parked in mutexes/futures are left: abandon them
          for (auto& f : g_fibers) {
            if (!f->done) {
              f->done = true;
              f->stuck = true;
              f->error = "stuck: " + f->why;
            }
          }
          break;
        }
        continue;
      }
      size_t pick = 0;
      if (en.size() > 1) {
        if (sched.explore_blocking) {
          pick = choose(static_cast<int>(en.size()), "next fiber", 0);
        } else if (sched.policy == 1) {
          pick = en.size() - 1;
        } else if (sched.policy == 2) {
          pick = (g_rr++) % en.size();
        }
        if (sched.delay_bounded && !sched.explore_blocking) {
          pick = (pick + choose(static_cast<int>(en.size()), "next fiber", 1)) % en.size();
        }
      }
      next = en[pick];
    }
    resume(next);
  }
  for (size_t i = 0; i < bodies.size(); ++i) {
    r.errors.push_back(g_fibers[i]->error);
    r.stuck.push_back(g_fibers[i]->stuck);
  }
  for (size_t i = bodies.size(); i < g_fibers.size(); ++i) {
    if (!g_fibers[i]->error.empty() && !g_fibers[i]->stuck) {
      r.errors.push_back("thread: " + g_fibers[i]->error);
      r.stuck.push_back(false);
    }
  }
  r.switches = g_switches;
  r.terminated = g_terminated;
  g_fibers.clear();
  g_active = false;
  return r;
}

std::string RunResult::str() const {
  std::string s;
  if (deadlock) {
    s += "DEADLOCK[";
    for (auto& b : blocked) s += b + "; ";
    s += "]";
  }
  if (terminated) s += "TERMINATE ";
  for (size_t i = 0; i < errors.size(); ++i) {
    if (!errors[i].empty()) s += " party" + std::to_string(i) + ": " + errors[i];
  }
  return s;
}

}  // namespace vmc

namespace vmc {
// Blocking inside a nothrow C function.
static void parkNoThrow(const std::function<bool()>& ready,
                        const std::string& why) {
  if (!active()) {
    if (ready()) return;
    std::fprintf(stderr, "vmc: blocking outside run(): %s\n", why.c_str());
    std::abort();
  }
  if (ready()) return;
  g_cur->nounwind = true;
  block(ready, why);
  g_cur->nounwind = false;
}
}  // namespace vmc

// ------------------------------------------------ pthread interposition -----
// The production code's std::thread / std::async / std::mutex / ... land here.
// The process has exactly one OS thread, so plain memory is enough.
using vmc::active;
using vmc::parkNoThrow;

namespace {
struct Rw {
  int readers = 0;
  bool writer = false;
};
struct Cond {
  unsigned long seq = 0;      // tickets handed out
  std::vector<unsigned long> woken;
  std::vector<unsigned long> waiting;
};
std::map<void*, Rw>& rws() {
  static auto* m = new std::map<void*, Rw>();
  return *m;
}
std::map<void*, Cond>& conds() {
  static auto* m = new std::map<void*, Cond>();
  return *m;
}
struct Thread {
  vmc::Fiber* f;
};
}  // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  int* lk = &m->__data.__lock;
  const int me = vmc::self_fiber() + 2;
  if (*lk != 0 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE &&
      m->__data.__owner == me) {
    m->__data.__count++;
    return 0;
  }
  vmc::point("mutex");
  if (*lk != 0) {
    parkNoThrow([lk] { return *lk == 0; }, "mutex");
  }
  *lk = 1;
  m->__data.__owner = me;
  m->__data.__count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  int* lk = &m->__data.__lock;
  const int me = vmc::self_fiber() + 2;
  if (*lk != 0) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == me) {
      m->__data.__count++;
      return 0;
    }
    return EBUSY;
  }
  *lk = 1;
  m->__data.__owner = me;
  m->__data.__count = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && --m->__data.__count > 0) {
    return 0;
  }
  m->__data.__lock = 0;
  m->__data.__owner = 0;
  m->__data.__count = 0;
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  auto& r = rws()[l];
  vmc::point("rdlock");
  if (r.writer) parkNoThrow([&r] { return !r.writer; }, "rdlock");
  r.readers++;
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  auto& r = rws()[l];
  vmc::point("wrlock");
  if (r.writer || r.readers > 0)
    parkNoThrow([&r] { return !r.writer && r.readers == 0; }, "wrlock");
  r.writer = true;
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  auto& r = rws()[l];
  if (r.writer) {
    r.writer = false;
  } else {
    r.readers--;
  }
  if (!r.writer && r.readers == 0) {
    // keep the entry: references may be held by blocked fibers
  }
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  auto& cd = conds()[c];
  unsigned long t = ++cd.seq;
  cd.waiting.push_back(t);
  pthread_mutex_unlock(m);
  auto woken = [&cd, t] {
    for (auto w : cd.woken)
      if (w == t) return true;
    return false;
  };
  parkNoThrow(woken, "condition variable");
  for (size_t i = 0; i < cd.woken.size(); ++i) {
    if (cd.woken[i] == t) {
      cd.woken.erase(cd.woken.begin() + static_cast<long>(i));
      break;
    }
  }
  return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec*) {
  return pthread_cond_wait(c, m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t,
                           const struct timespec*) {
  return pthread_cond_wait(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  auto& cd = conds()[c];
  if (!cd.waiting.empty()) {
    // which waiter wakes up is a scheduling choice
    size_t k = 0;
    if (vmc::sched.preempt && cd.waiting.size() > 1)
      k = vmc::choose(static_cast<int>(cd.waiting.size()), "signal", 1);
    cd.woken.push_back(cd.waiting[k]);
    cd.waiting.erase(cd.waiting.begin() + static_cast<long>(k));
  }
  vmc::point("signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  auto& cd = conds()[c];
  for (auto t : cd.waiting) cd.woken.push_back(t);
  cd.waiting.clear();
  vmc::point("broadcast");
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  conds().erase(c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  conds().erase(c);
  return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*),
                   void* arg) {
  if (!active()) {
    std::fprintf(stderr, "vmc: thread created outside run()\n");
    return EAGAIN;
  }
  auto* th = new Thread{nullptr};
  *t = reinterpret_cast<pthread_t>(th);
  th->f = vmc::spawn([fn, arg] { fn(arg); });
  return 0;
}
int pthread_join(pthread_t t, void**) {
  auto* th = reinterpret_cast<Thread*>(t);
  parkNoThrow([th] { return vmc::finished(th->f); }, "thread join");
  delete th;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  // 0: fresh  1: running  2: done
  if (*o == 2) return 0;
  if (*o == 1) {
    parkNoThrow([o] { return *o != 1; }, "call_once");
    if (*o == 2) return 0;
  }
  *o = 1;
  try {
    fn();
  } catch (...) {
    *o = 0;
    throw;
  }
  *o = 2;
  return 0;
}
}  // extern "C"

// libstdc++'s futures park on this futex wrapper.
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned* addr, unsigned val, bool, chrono::seconds, chrono::nanoseconds) {
  parkNoThrow(
      [addr, val] {
        return __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val;
      },
      "future");
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned* addr, unsigned val, bool b, chrono::seconds s,
    chrono::nanoseconds n) {
  return _M_futex_wait_until(addr, val, b, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {
  vmc::point("notify");
}
}  // namespace std
