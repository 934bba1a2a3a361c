#include "detsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <vector>

namespace {

struct Real {
  int (*create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  int (*join)(pthread_t, void**);
  int (*detach)(pthread_t);
  int (*lock)(pthread_mutex_t*);
  int (*trylock)(pthread_mutex_t*);
  int (*unlock)(pthread_mutex_t*);
  int (*wait)(pthread_cond_t*, pthread_mutex_t*);
  int (*timedwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  int (*signal)(pthread_cond_t*);
  int (*broadcast)(pthread_cond_t*);
} real;

template <typename F>
void load(F& f, const char* name) {
  f = (F)dlsym(RTLD_NEXT, name);
  if (f == nullptr) abort();
}
bool g_loaded = false;
void load_all() {
  if (g_loaded) return;
  load(real.create, "pthread_create");
  load(real.join, "pthread_join");
  load(real.detach, "pthread_detach");
  load(real.lock, "pthread_mutex_lock");
  load(real.trylock, "pthread_mutex_trylock");
  load(real.unlock, "pthread_mutex_unlock");
  load(real.wait, "pthread_cond_wait");
  load(real.timedwait, "pthread_cond_timedwait");
  load(real.signal, "pthread_cond_signal");
  load(real.broadcast, "pthread_cond_broadcast");
  g_loaded = true;
}
__attribute__((constructor)) void init() { load_all(); }

enum State { kReady, kMutex, kCond, kJoin, kQuiet, kDone };
struct Thread {
  int id = 0;
  State st = kReady;
  void* obj = nullptr;    // condition waited for
  void* mutex = nullptr;  // mutex wanted (or to be re-taken)
  Thread* target = nullptr;
  bool timed_out = false, timed = false;
  int prio = 0;
  sem_t sem;
  pthread_t real_id;
  bool has_real = false;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  std::function<void()> fn;
};

struct World {
  pbt::Gen* g = nullptr;
  std::vector<std::unique_ptr<Thread>> th;
  std::map<void*, Thread*> owner;
  int mode = 0;
  bool spurious = false;
  int next_prio = 0;
  sched::Stats stats;
};
World* W = nullptr;
thread_local Thread* self = nullptr;

// --- allocation tracking -----------------------------------------------------
bool g_track = false;
const size_t kTab = 1 << 16;
void* g_tab[kTab];
size_t g_live = 0;
size_t slot(const void* p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL) >> 48; }
void tab_add(void* p) {
  size_t i = slot(p);
  for (size_t n = 0; n < kTab; ++n, i = (i + 1) % kTab)
    if (g_tab[i] == nullptr || g_tab[i] == (void*)1) {
      g_tab[i] = p;
      ++g_live;
      return;
    }
}
bool tab_find(const void* p, size_t* at) {
  size_t i = slot(p);
  for (size_t n = 0; n < kTab && g_tab[i] != nullptr; ++n, i = (i + 1) % kTab)
    if (g_tab[i] == p) {
      *at = i;
      return true;
    }
  return false;
}
struct Untracked {
  bool old;
  Untracked() : old(g_track) { g_track = false; }
  ~Untracked() { g_track = old; }
};

bool managed() { return W != nullptr && self != nullptr; }

bool enabled(Thread* t) {
  switch (t->st) {
    case kReady:
      return true;
    case kMutex: {
      auto it = W->owner.find(t->mutex);
      return it == W->owner.end() || it->second == nullptr;
    }
    case kCond:
      return false;
    case kJoin:
      return t->target->st == kDone;
    default:
      return false;
  }
}

std::string dump() {
  std::string s;
  static const char* names[] = {"ready", "waits for a mutex", "waits for a condition", "waits for a thread to end", "waits for quiescence", "ended"};
  for (auto& t : W->th) s += "thread " + std::to_string(t->id) + " " + names[t->st] + "; ";
  return s;
}

// the current thread gives up the processor (its state is set)
void reschedule() {
  World* w = W;
  Thread* me = self;
  pbt::Gen& g = *w->g;
  if (++w->stats.steps > 200000) sched::fail("livelock", "no progress after 200000 scheduling points: " + dump());
  if (w->spurious && g.chance(1, 24)) {
    std::vector<Thread*> ws;
    for (auto& t : w->th)
      if (t->st == kCond) ws.push_back(t.get());
    if (!ws.empty()) g.pick(ws)->st = kMutex;
  }
  std::vector<Thread*> en;
  if (enabled(me)) en.push_back(me);  // choice 0: go on
  for (auto& t : w->th)
    if (t.get() != me && enabled(t.get())) en.push_back(t.get());
  if (en.empty()) {
    for (auto& t : w->th)
      if (t->st == kQuiet) {
        t->st = kReady;
        en.push_back(t.get());
        break;
      }
  }
  if (en.empty()) {
    // a timed wait may time out
    for (auto& t : w->th)
      if (t->st == kCond && t->timed) {
        t->timed_out = true;
        t->st = kMutex;
        if (enabled(t.get())) {
          en.push_back(t.get());
          break;
        }
      }
  }
  if (en.empty()) sched::fail("deadlock", "no thread can run: " + dump());
  Thread* next = en[0];
  bool preempt = en[0] == me;
  if (en.size() > 1) {
    switch (w->mode) {
      case 0:
        next = g.pick(en);
        break;
      case 1:
        if (!preempt || g.chance(1, 4)) next = g.pick(en);
        break;
      case 2:
        if (!preempt || g.chance(1, 12)) next = g.pick(en);
        break;
      default:  // priorities that change now and then
        if (g.chance(1, 10)) me->prio = --w->next_prio;
        for (Thread* t : en)
          if (t->prio > next->prio) next = t;
    }
  }
  if (next->st == kMutex || next->st == kJoin) next->st = kReady;
  if (next == me) return;
  ++w->stats.switches;
  bool done = me->st == kDone;
  sem_post(&next->sem);
  if (done) return;
  while (sem_wait(&me->sem) != 0) {
  }
}

void* entry(void* p) {
  Thread* t = (Thread*)p;
  self = t;
  while (sem_wait(&t->sem) != 0) {
  }
  if (t->start != nullptr)
    t->ret = t->start(t->arg);
  else
    t->fn();
  Untracked u;
  t->st = kDone;
  t->fn = nullptr;
  reschedule();
  self = nullptr;
  return t->ret;
}

Thread* new_thread() {
  std::unique_ptr<Thread> t(new Thread);
  t->id = (int)W->th.size();
  t->prio = (int)W->g->below(8);
  sem_init(&t->sem, 0, 0);
  W->th.push_back(std::move(t));
  return W->th.back().get();
}
void launch(Thread* t) {
  ++W->stats.threads;
  t->has_real = true;
  if (real.create(&t->real_id, nullptr, entry, t) != 0) abort();
  reschedule();
}

}  // namespace

namespace sched {

bool active() { return managed(); }

void fail(const std::string& key, const std::string& msg) { pbt::hard_fail(key, msg); }

Stats run(pbt::Gen& g, pbt::Ctx& c, const std::function<void()>& fn) {
  World* w = new World;
  w->g = &g;
  W = w;
  w->mode = (int)g.below(4);
  w->spurious = g.chance(1, 3);
  static const char* modes[] = {"uniform", "1/4", "1/12", "priorities"};
  c.label(std::string("schedule: ") + modes[w->mode]);
  if (w->spurious) c.label("spurious wake-ups");
  Thread* t0 = new_thread();
  self = t0;
  try {
    fn();
  } catch (pbt::Failure& f) {
    if (w->th.size() > 1) fail(f.key, f.what());
    self = nullptr;
    W = nullptr;
    throw;
  }
  Untracked u;
  for (auto& t : w->th)
    if (t.get() != t0 && t->st != kDone)
      ++w->stats.unfinished;
    else if (t->start != nullptr && t->has_real)
      ++w->stats.unjoined;
  Stats s = w->stats;
  if (s.switches > 3) c.label("more than 3 context switches");
  self = nullptr;
  W = nullptr;
  if (s.unfinished == 0 && s.unjoined == 0) {
    for (auto& t : w->th) sem_destroy(&t->sem);
    delete w;
  }
  return s;
}

void point() {
  if (!managed()) return;
  Untracked u;
  reschedule();
}

void wait_quiescent() {
  Untracked u;
  self->st = kQuiet;
  reschedule();
}

int spawn(const std::function<void()>& fn) {
  Untracked u;
  Thread* t = new_thread();
  t->fn = fn;
  launch(t);
  return t->id;
}
void join(int id) {
  Untracked u;
  Thread* t = W->th[id].get();
  self->st = kJoin;
  self->target = t;
  reschedule();
  self->st = kReady;
  real.join(t->real_id, nullptr);
}
bool finished(int id) { return W->th[id]->st == kDone; }

void track(bool on) {
  if (on) {
    memset(g_tab, 0, sizeof g_tab);
    g_live = 0;
  }
  g_track = on;
}
size_t tracked_live() { return g_live; }
bool tracked(const void* p) {
  size_t at;
  return tab_find(p, &at);
}

}  // namespace sched

// --- interposed functions ------------------------------------------------------
extern "C" {

int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  load_all();
  if (!managed()) return real.create(id, a, f, arg);
  Untracked u;
  Thread* t = new_thread();
  t->start = f;
  t->arg = arg;
  ++W->stats.threads;
  t->has_real = true;
  if (real.create(&t->real_id, nullptr, entry, t) != 0) abort();
  *id = t->real_id;
  reschedule();
  return 0;
}
int pthread_join(pthread_t id, void** ret) {
  load_all();
  if (managed()) {
    Untracked u;
    for (auto& t : W->th)
      if (t->has_real && pthread_equal(t->real_id, id)) {
        t->has_real = false;
        self->st = kJoin;
        self->target = t.get();
        reschedule();
        self->st = kReady;
        break;
      }
  }
  return real.join(id, ret);
}
int pthread_detach(pthread_t id) {
  load_all();
  if (managed()) {
    for (auto& t : W->th)
      if (t->has_real && pthread_equal(t->real_id, id)) t->has_real = false;
  }
  return real.detach(id);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!managed()) {
    load_all();
    return real.lock(m);
  }
  Untracked u;
  self->st = kReady;
  reschedule();
  if (W->owner[m] != nullptr) {
    self->mutex = m;
    self->st = kMutex;
    reschedule();
    self->st = kReady;
  }
  W->owner[m] = self;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!managed()) {
    load_all();
    return real.trylock(m);
  }
  Untracked u;
  reschedule();
  if (W->owner[m] != nullptr) return EBUSY;
  W->owner[m] = self;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!managed()) {
    load_all();
    return real.unlock(m);
  }
  Untracked u;
  W->owner[m] = nullptr;
  reschedule();
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!managed()) {
    load_all();
    return real.wait(c, m);
  }
  Untracked u;
  W->owner[m] = nullptr;
  self->mutex = m;
  self->obj = c;
  self->st = kCond;
  self->timed = false;
  reschedule();
  self->st = kReady;
  W->owner[m] = self;
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!managed()) {
    load_all();
    return real.timedwait(c, m, ts);
  }
  Untracked u;
  W->owner[m] = nullptr;
  self->mutex = m;
  self->obj = c;
  self->st = kCond;
  self->timed = true;
  self->timed_out = false;
  reschedule();
  self->st = kReady;
  self->timed = false;
  W->owner[m] = self;
  return self->timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!managed()) {
    load_all();
    return real.signal(c);
  }
  Untracked u;
  std::vector<Thread*> ws;
  for (auto& t : W->th)
    if (t->st == kCond && t->obj == c) ws.push_back(t.get());
  if (!ws.empty()) W->g->pick(ws)->st = kMutex;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!managed()) {
    load_all();
    return real.broadcast(c);
  }
  Untracked u;
  for (auto& t : W->th)
    if (t->st == kCond && t->obj == c) t->st = kMutex;
  return 0;
}
int sched_yield(void) {
  sched::point();
  return 0;
}
int usleep(useconds_t us) {
  if (managed()) {
    sched::point();
    return 0;
  }
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}

}  // extern "C"

void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  if (g_track) tab_add(p);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  size_t at;
  if (g_live > 0 && p != nullptr && tab_find(p, &at)) {
    g_tab[at] = (void*)1;
    --g_live;
  }
  free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
