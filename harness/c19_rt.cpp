// C19: all schedules of two (or three) threads with one or more calls each, up to a preemption bound.
//
// The operations are compiled with clang's thread instrumentation; this file is the runtime behind
// it. Real threads pass a baton: the one that holds it runs, and at every instrumented access to
// memory outside its own stack the scheduler may hand the baton over. Each schedule runs in a freshly
// forked process, so it starts from the initial state of every static variable.
//
// Reduction: accesses of different threads to different locations, or both reading, commute. Only
// accesses to locations that both threads touch (one of them writing) in some explored schedule, and
// synchronisation operations, are scheduling points of the bounded search; a pair of calls with no such
// location has one schedule up to commutation, which is run serially in both orders and with a switch at
// every single access. Pairs with conflicts are also run with several calls in one thread (up to 17: slots
// handed out in turn come round again) and with a third thread.
//
// Every run is also judged by vector clocks: two accesses to the same byte, at least one a plain write, that no
// lock, atomic or initialisation guard orders are a data race, which leaves the results of both calls undefined.
#include "c19.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <new>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// ---------------------------------------------------------------- state of one run (in the child)
enum { NT = 3, MAXPRE = 4, TABLE = 1 << 14, CONF = 1 << 12, SYNCS = 1 << 10 };
struct Spec                      // what to run
{
  size_t op[NT]; int arg[NT];    // operation and argument set of each thread
  int reps[NT];                  // further calls of each thread, with the next argument sets
  int threads;                   // 2, 3, or 1 for a call on its own
  int warm;                      // -1, or the thread whose call (with other arguments) is made once before
  int first;                     // thread that starts
  bool everyAccess;              // hand over at every access
  int npre; uint32_t pre[MAXPRE]; int to[MAXPRE];   // scheduling points at which to preempt, and in favour of which thread (distance)
};
struct Report                    // shared with the parent
{
  volatile int finished; uint64_t result[NT]; int wrong[NT]; uint32_t points, accesses; int deadlock, livelock, race; int raceThreads[2]; bool raceWrites[2]; uintptr_t raceAt;
  uint32_t nconf; uintptr_t conf[CONF];
};
static Report* rep;
static uintptr_t* confTable; static uint32_t* nConf;      // shared: locations known to be in conflict
static Spec spec;
struct Thr { int id; char *lo, *hi; sem_t sem; volatile int state; const void* waits; pthread_t th; uint64_t streak; };   // state 0 ready, 1 blocked, 2 done
static Thr thr[NT];
static volatile int current; static sem_t done;
static __thread Thr* self;
static uint32_t point; static uint64_t accesses;
struct Cell { uintptr_t a; uint8_t f; uint16_t index; };   // bit 0/1: read/written by thread 0, 2/3: by thread 1, 4/5: by thread 2
static Cell cells[TABLE]; static uint16_t used[TABLE]; static uint32_t nUsed;
static std::vector<uint64_t> alone;                        // [op*4+arg]: the result of the call on its own

// ---- happens-before: clocks of the threads, of synchronisation objects and of the bytes accessed
typedef uint32_t Clock[NT];
static Clock vc[NT];
struct Bytes { uint32_t r[NT][8], w[NT][8]; };
static Bytes bytes[TABLE];                                 // by Cell::index, dense
struct Sync { uintptr_t a; Clock c; };
static Sync syncs[SYNCS]; static bool syncsFull;
static Sync* syncOf(const volatile void* p)
{
  size_t h = ((uintptr_t)p * 0x9e3779b97f4a7c15ull >> 40) % SYNCS;
  for (size_t k = 0; k < SYNCS / 2; ++k, h = (h + 1) % SYNCS) { if (syncs[h].a == (uintptr_t)p) return syncs + h; if (!syncs[h].a) { syncs[h].a = (uintptr_t)p; return syncs + h; } }
  syncsFull = true; return syncs;
}
static void acquire(const volatile void* p) { if (!self) return; Sync* s = syncOf(p); for (int k = 0; k < NT; ++k) vc[self->id][k] = std::max(vc[self->id][k], s->c[k]); }
static void release(const volatile void* p) { if (!self) return; Sync* s = syncOf(p); for (int k = 0; k < NT; ++k) s->c[k] = std::max(vc[self->id][k], s->c[k]); ++vc[self->id][self->id]; }
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void ordered(uint16_t index, uintptr_t word, uintptr_t from, uintptr_t to, int id, bool w)
{
  Bytes& b = bytes[index];
  for (int k = 0; k < 8; ++k)
  {
    if (word + k < from || word + k >= to) continue;
    for (int u = 0; u < spec.threads; ++u)
    {
      if (u == id) continue;
      const bool ww = b.w[u][k] > vc[id][u], wr = w && b.r[u][k] > vc[id][u];
      if ((ww || wr) && !rep->race) { rep->race = 1; rep->raceThreads[0] = u; rep->raceThreads[1] = id; rep->raceWrites[0] = ww; rep->raceWrites[1] = w; rep->raceAt = word + k; }
    }
    (w ? b.w : b.r)[id][k] = vc[id][id];
  }
}

static bool inConf(uintptr_t a)
{
  if (!*nConf) return false;
  size_t h = (a * 0x9e3779b97f4a7c15ull >> 40) % CONF;
  for (size_t k = 0; k < CONF; ++k, h = (h + 1) % CONF) { if (confTable[h] == a) return true; if (!confTable[h]) return false; }
  return false;
}
static void addConf(uintptr_t a)
{
  if (inConf(a) || *nConf > CONF / 2) return;
  size_t h = (a * 0x9e3779b97f4a7c15ull >> 40) % CONF;
  while (confTable[h]) h = (h + 1) % CONF;
  confTable[h] = a; ++*nConf;
}
static Cell* note(uintptr_t a, int id, bool w)
{
  size_t h = (a * 0x9e3779b97f4a7c15ull >> 40) % TABLE;
  for (size_t k = 0; k < TABLE / 2; ++k, h = (h + 1) % TABLE)
  {
    if (!cells[h].a) { cells[h].a = a; cells[h].index = (uint16_t)nUsed; used[nUsed++] = (uint16_t)h; }
    if (cells[h].a == a) { cells[h].f |= (uint8_t)((w ? 2 : 1) << (2 * id)); return cells + h; }
  }
  return nullptr;
}
static bool ready(int k) { return k < spec.threads && thr[k].state == 0; }
// the next thread that can run, from `distance` on; -1: none
static int another(int id, int distance = 1)
{
  for (int k = 0; k < spec.threads; ++k) { int t = (id + distance + k) % spec.threads; if (t != id && ready(t)) return t; }
  return -1;
}
static void handTo(int k) { Thr* me = self; me->streak = 0; current = k; sem_post(&thr[k].sem); while (sem_wait(&me->sem) != 0) {} }
static void endRun() { sem_post(&done); for (;;) pause(); }
static void stuck(bool dead) { if (dead) rep->deadlock = 1; else rep->livelock = 1; rep->finished = 1; _exit(0); }

// a scheduling point of the bounded search
static void schedPoint()
{
  int other = -1;
  ++point;
  if (point == 2000000) stuck(false);
  bool go = false;
  for (int k = 0; k < spec.npre; ++k) if (spec.pre[k] == point) { go = true; other = another(self->id, spec.to[k]); }
  if (spec.everyAccess) go = true;
  if (++self->streak > 100000) go = true;               // a thread that spins lets the other go on
  if (go && other < 0) other = another(self->id);
  if (go && other >= 0) handTo(other);
}
static void access(const volatile void* p, size_t n, bool w, bool sync = false)
{
  Thr* me = self;
  if (!me) return;
  char* c = (char*)p;
  if (c >= me->lo && c < me->hi) return;
  if (!n) return;
  if (++accesses > 200000000) stuck(false);
  bool rel = false;
  uintptr_t a0 = (uintptr_t)c & ~(uintptr_t)7, a1 = ((uintptr_t)c + n - 1) & ~(uintptr_t)7;
  if (a1 - a0 > 8 * 4096) a1 = a0 + 8 * 4096;
  for (uintptr_t a = a0; a <= a1; a += 8) if (!rel && inConf(a)) rel = true;
  if (rel) schedPoint();
  else if (spec.everyAccess || ++me->streak > 100000) { const int other = another(me->id); if (other >= 0) handTo(other); }
  // the access itself comes after the switch
  for (uintptr_t a = a0; a <= a1; a += 8) { Cell* cell = note(a, me->id, w); if (cell && !sync && spec.threads > 1) ordered(cell->index, a, (uintptr_t)c, (uintptr_t)c + n, me->id, w); }
}
static void blockOn(const void* what)
{
  Thr* me = self; const int other = another(me->id);
  if (other < 0) stuck(true);
  me->state = 1; me->waits = what;
  handTo(other);
}
static void wake(const void* what) { for (auto& t : thr) if (t.state == 1 && t.waits == what) t.state = 0; }

// ---------------------------------------------------------------- the instrumentation's entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false); } \
  void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }

#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { access(p, sizeof *p, false, true); if (acq(mo)) acquire(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (rel(mo)) release(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r && rel(mo)) release(p); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r && rel(mo)) release(p); return r; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { access(p, sizeof *p, true, true); if (acq(mo)) acquire(p); if (rel(mo)) release(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fenceObject;
void __tsan_atomic_thread_fence(int) { acquire(&fenceObject); release(&fenceObject); __sync_synchronize(); }   // orders more than a fence does: never reports a race that is none
void __tsan_atomic_signal_fence(int) {}

// ---- initialisation guards of static variables
int __cxa_guard_acquire(uint64_t* gd)
{
  uint8_t* b = (uint8_t*)gd;
  access(gd, 8, !b[0], true);
  for (;;)
  {
    if (b[0]) { acquire(gd); return 0; }
    if (!b[1]) { acquire(gd); b[1] = self ? (uint8_t)(self->id + 1) : 3; return 1; }
    if (!self || b[1] == self->id + 1) { if (self) stuck(true); return 0; }
    blockOn(gd);
  }
}
void __cxa_guard_release(uint64_t* gd) { uint8_t* b = (uint8_t*)gd; release(gd); b[1] = 0; b[0] = 1; wake(gd); access(gd, 8, true, true); }
void __cxa_guard_abort(uint64_t* gd) { uint8_t* b = (uint8_t*)gd; release(gd); b[1] = 0; wake(gd); access(gd, 8, true, true); }

// ---- locks
typedef int (*F1)(void*);
#define REAL(name) static F1 real = nullptr; if (!real) real = (F1)dlsym(RTLD_NEXT, name)
int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL { REAL("pthread_mutex_trylock"); access(m, 8, true, true); int r = real(m); if (!r) acquire(m); return r; }
int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL
{
  REAL("pthread_mutex_lock"); static F1 tryReal = nullptr; if (!tryReal) tryReal = (F1)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  if (!self) return real(m);
  access(m, 8, true, true);
  while (tryReal(m) == EBUSY) blockOn(m);
  acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL { REAL("pthread_mutex_unlock"); release(m); int r = real(m); if (self) { wake(m); access(m, 8, true, true); } return r; }
#define RWL(fn, tr) int fn(pthread_rwlock_t* m) __THROWNL \
{ REAL(#fn); static F1 tryReal = nullptr; if (!tryReal) tryReal = (F1)dlsym(RTLD_NEXT, #tr); \
  if (!self) return real(m); access(m, 8, true, true); while (tryReal(m) == EBUSY) blockOn(m); acquire(m); return 0; }
RWL(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock) RWL(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
int pthread_rwlock_unlock(pthread_rwlock_t* m) __THROWNL { REAL("pthread_rwlock_unlock"); release(m); int r = real(m); if (self) { wake(m); access(m, 8, true, true); } return r; }
int pthread_once(pthread_once_t* o, void (*f)()) 
{
  static int (*real)(pthread_once_t*, void (*)()) = nullptr; if (!real) real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
  if (!self) return real(o, f);
  volatile int* s = (volatile int*)o;
  access(o, 4, *s != 2, true);
  for (;;)
  {
    if (*s == 2) { acquire(o); return 0; }          // the value the C library leaves there when it is done
    if (*s == 0)
    {
      *s = 0x100 + self->id;
      try { f(); } catch (...) { *s = 0; wake(o); throw; }
      release(o); *s = 2; wake(o); access(o, 4, true, true); return 0;
    }
    if (*s == 0x100 + self->id) stuck(true);
    blockOn(o);
  }
}
int sched_yield() __THROW { if (self) { const int other = another(self->id); if (other >= 0) handTo(other); } return 0; }
}

// ---- each thread's dynamic memory is its own and is not reused, so that an address names one object
enum { ARENA = 16 << 20 };
static char* arenas[NT]; static size_t arenaUsed[NT];
static void* get(size_t n)
{
  if (!self) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  n = (n + 31) & ~(size_t)31;
  size_t& u = arenaUsed[self->id];
  if (u + n > ARENA) throw std::bad_alloc();
  void* p = arenas[self->id] + u; u += n; return p;
}
static void put(void* p) { for (char* a : arenas) if ((char*)p >= a && (char*)p < a + ARENA) return; free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

// ---------------------------------------------------------------- one run
static char* stacks[NT]; enum { STACK = 8 << 20 };
static void* body(void* a)
{
  Thr* t = (Thr*)a;
  while (sem_wait(&t->sem) != 0) {}
  self = t;
  const Op& o = c19_ops[spec.op[t->id]];
  uint64_t out = 0; int wrong = 0;
  for (int k = 0; k <= spec.reps[t->id]; ++k)
  {
    const size_t a = (size_t)(spec.arg[t->id] + k) % 4;
    o.run(&o, o.arg[a], &out);
    if (!wrong && out != alone[spec.op[t->id] * 4 + a]) wrong = k + 1;
  }
  self = nullptr;
  rep->result[t->id] = out; rep->wrong[t->id] = wrong;
  t->state = 2;
  const int other = another(t->id);
  bool waiting = false; for (int k = 0; k < spec.threads; ++k) waiting |= thr[k].state == 1;
  if (other >= 0) { current = other; sem_post(&thr[other].sem); }
  else { if (waiting) rep->deadlock = 1; sem_post(&done); }     // waits for nobody
  return nullptr;
}
static void child()
{
  alarm(60);
  if (spec.warm >= 0) { const Op& o = c19_ops[spec.op[spec.warm]]; uint64_t out; o.run(&o, o.arg[(spec.arg[spec.warm] + 1) % 4], &out); }
  sem_init(&done, 0, 0);
  for (int k = 0; k < NT; ++k) vc[k][k] = 1;
  for (int k = 0; k < spec.threads; ++k)
  {
    thr[k].id = k; thr[k].lo = stacks[k]; thr[k].hi = stacks[k] + STACK; thr[k].state = 0; sem_init(&thr[k].sem, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks[k], STACK);
    if (pthread_create(&thr[k].th, &at, body, &thr[k]) != 0) _exit(9);
  }
  current = spec.first; sem_post(&thr[spec.first].sem);
  while (sem_wait(&done) != 0) {}
  rep->points = point; rep->accesses = (uint32_t)accesses;
  rep->nconf = 0;
  for (uint32_t k = 0; k < nUsed; ++k)
  {
    const Cell& c = cells[used[k]];
    bool both = false;
    for (int t = 0; t < NT; ++t) if (c.f >> (2 * t) & 2) both |= (c.f & ~(3 << (2 * t))) != 0;
    if (both && rep->nconf < CONF) rep->conf[rep->nconf++] = c.a;
  }
  if (syncsFull) rep->race = 0;
  rep->finished = 1;
  _exit(0);
}

// ---------------------------------------------------------------- the search
static uint64_t schedules, totalPoints, totalAccesses, compared, pairs, conflictPairs, capped, longer; static int thorough; static unsigned worker, workers = 1;
static std::set<uintptr_t> everConf;
static std::vector<std::string> samples;
static std::string jstr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o + "\""; }
static std::string opText(size_t o, int a) { return std::string(c19_ops[o].name) + " on " + std::to_string(c19_ops[o].rows) + "x" + std::to_string(c19_ops[o].cols) + " arguments " + std::to_string(a); }
static std::string specText()
{
  std::string s;
  for (int k = 0; k < spec.threads; ++k) { s += "thread " + std::to_string(k) + ": " + opText(spec.op[k], spec.arg[k]); if (spec.reps[k]) s += " and " + std::to_string(spec.reps[k]) + " more calls with the next arguments"; s += "; "; }
  s += "starts with thread " + std::to_string(spec.first);
  if (spec.warm >= 0) s += "; after one call of thread " + std::to_string(spec.warm) + "'s operation";
  if (spec.everyAccess) s += "; switch at every access";
  s += "; preemptions at scheduling points"; for (int k = 0; k < spec.npre; ++k) { s += " " + std::to_string(spec.pre[k]); if (spec.threads > 2) s += "(+" + std::to_string(spec.to[k]) + ")"; }
  return s;
}
[[noreturn]] static void violation(const std::string& got, const std::string& want)
{
  std::printf("{\"violation\":true,\"noreplay\":true,\"property\":\"C19\",\"expr\":%s,\"operands\":[],\"got\":%s,\"expected\":%s,\"note\":\"schedule\"}\n", jstr(specText()).c_str(), jstr(got).c_str(), jstr(want).c_str());
  std::fflush(stdout); _exit(3);
}
static void run(bool check = true)
{
  memset((void*)rep, 0, offsetof(Report, conf));
  pid_t p = fork();
  if (p < 0) { std::fprintf(stderr, "fork failed\n"); _exit(9); }
  if (p == 0) child();
  int st = 0; waitpid(p, &st, 0);
  ++schedules;
  if (!rep->finished)
  {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) violation("no answer within a minute", "both calls return");
    if (WIFSIGNALED(st)) violation("the process was ended by signal " + std::to_string(WTERMSIG(st)), "both calls return");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { std::fprintf(stderr, "no thread\n"); _exit(9); }
    violation("the process ended", "both calls return");
  }
  if (rep->deadlock) violation("deadlock", "both calls return");
  if (rep->livelock) violation("a call goes on forever", "both calls return");
  totalPoints += rep->points; totalAccesses += rep->accesses;
  if (!check) return;
  for (int k = 0; k < spec.threads; compared += 1 + (uint64_t)spec.reps[k], ++k)
    if (rep->wrong[k])
      violation("the result of call " + std::to_string(rep->wrong[k]) + " of thread " + std::to_string(k) + " differs", "the result of the call on its own");
  if (rep->race)
    violation("data race: thread " + std::to_string(rep->raceThreads[0]) + (rep->raceWrites[0] ? " writes" : " reads") + " and thread " + std::to_string(rep->raceThreads[1]) + (rep->raceWrites[1] ? " writes" : " reads") + " the same memory with nothing ordering the two", "accesses of different calls to the same memory are reads or are ordered");
}
// returns true when new conflicting locations were found
static bool learn()
{
  const uint32_t before = *nConf;
  for (uint32_t k = 0; k < rep->nconf; ++k) { addConf(rep->conf[k]); everConf.insert(rep->conf[k]); }
  return *nConf != before;
}
// all schedules with up to `bound` preemptions, extending the list in spec.pre
static bool extend(int bound, uint64_t& budget)
{
  run();
  if (learn()) return true;
  if (spec.npre >= bound) return false;
  const uint32_t n = rep->points, from = spec.npre ? spec.pre[spec.npre - 1] + 1 : 1;
  for (uint32_t q = from; q <= n; ++q)
  {
    for (int to = 1; to < spec.threads; ++to)
    {
      if (!budget) { ++capped; return false; }
      --budget;
      spec.to[spec.npre] = to; spec.pre[spec.npre++] = q;
      const bool again = extend(bound, budget);
      --spec.npre;
      if (again) return true;
    }
  }
  return false;
}
// all schedules of the calls in spec from every first thread, starting over whenever new conflicts show up
static bool exploreSpec(uint64_t budget, int bound)
{
  bool any = false;
  for (int round = 0; round < 12; ++round)
  {
    bool again = false;
    for (int first = 0; first < spec.threads && !again; ++first)
    {
      spec.first = first; spec.npre = 0; spec.everyAccess = false;
      again = extend(0, budget);
      if (again) break;
      if (rep->points) { any = true; again = extend(1, budget); for (int b = 2; b <= bound && !again && budget; ++b) again = extend(b, budget); }
      if (again) break;
      spec.npre = 0; spec.everyAccess = true; run(); again = learn(); spec.everyAccess = false;
    }
    if (!again) break;
    any = true;
  }
  return any || *nConf;
}
static void fresh(size_t a, size_t b, int argA, int argB, int warm)
{
  memset(confTable, 0, CONF * sizeof *confTable); *nConf = 0;
  memset((void*)&spec, 0, sizeof spec);
  spec.op[0] = spec.op[2] = a; spec.op[1] = b; spec.arg[0] = argA; spec.arg[1] = argB; spec.arg[2] = (argB + 1) % 4; spec.threads = 2; spec.warm = warm;
}
static void explorePair(size_t a, size_t b, int argA, int argB)
{
  ++pairs;
  bool any = false;
  for (int warm = -1; warm < 2; ++warm)
  {
    if (warm >= 0 && !(any || (a == b && warm == 0))) continue;
    fresh(a, b, argA, argB, warm);
    const uint64_t budget = thorough ? 40000 : schedules < 30000 ? 2000 : schedules < 60000 ? 200 : 40;
    if (exploreSpec(budget, thorough ? 3 : 2)) any = true;
  }
  if (any)
  {
    ++conflictPairs;
    const bool deep = thorough || schedules < 30000;
    if (deep || (a == b && schedules < 60000))
    {
      // several calls in one thread, then three threads
      const uint64_t budget = thorough ? 10000 : deep ? 600 : 60;
      for (int reps : {1, 4, 8, 16}) { fresh(a, b, argA, argB, -1); spec.reps[1] = reps; exploreSpec(budget, 2); }
      fresh(a, b, argA, argB, -1); spec.reps[0] = spec.reps[1] = 2; exploreSpec(budget, 2);
      fresh(a, b, argA, argB, -1); spec.threads = 3; exploreSpec(budget * 2, 2);
      ++longer;
    }
  }
  if (samples.size() < 3 && pairs % 37 == 5) samples.push_back(specText() + ": both results as alone, " + std::to_string(rep->points) + " scheduling points, " + std::to_string(rep->accesses) + " shared accesses");
}
int main(int argc, char** argv)
{
  for (int i = 1; i < argc; ++i)
  {
    std::string s = argv[i];
    if (s == "--thorough") thorough = 1;
    else if (s == "--worker" && i + 1 < argc) std::sscanf(argv[++i], "%u/%u", &worker, &workers);
  }
  auto share = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
  rep = (Report*)share(sizeof(Report)); confTable = (uintptr_t*)share(CONF * sizeof(uintptr_t)); nConf = (uint32_t*)share(64);
  for (auto& s : stacks) s = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  for (auto& s : arenas) s = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  c19_register();
  alone.resize(c19_nops * 4);
  for (size_t o = 0; o < c19_nops; ++o) for (int a = 0; a < 4; ++a)
  {
    memset((void*)&spec, 0, sizeof spec);
    spec.op[0] = spec.op[1] = o; spec.arg[0] = a; spec.threads = 1; spec.warm = -1;
    run(false); alone[o * 4 + (size_t)a] = rep->result[0];
  }
  const uint64_t singles = schedules;
  uint64_t k = 0;
  for (size_t a = 0; a < c19_nops; ++a) for (size_t b = 0; b < c19_nops; ++b)
  {
    const bool sameShape = c19_ops[a].rows == c19_ops[b].rows && c19_ops[a].cols == c19_ops[b].cols;
    const bool sameName = !strcmp(c19_ops[a].name, c19_ops[b].name);
    if (!sameShape && (!sameName || a > b)) continue;
    if (sameShape && a != b && c19_ops[a].rows * c19_ops[a].cols > 9) continue;     // larger shapes: each operation against itself
    if (k++ % workers != worker) continue;
    const bool big = c19_ops[a].rows * c19_ops[a].cols > 121 || c19_ops[b].rows * c19_ops[b].cols > 121;
    if (big && !thorough) { explorePair(a, b, 0, 1); if (a == b) { explorePair(a, b, 1, 1); explorePair(a, b, 2, 0); explorePair(a, b, 3, 1); } continue; }
    if (a == b) { for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) explorePair(a, b, x, y); continue; }
    explorePair(a, b, 0, 1);
    if (a < b) { explorePair(a, b, 0, 0); explorePair(a, b, 2, 2); }        // both threads on the same argument objects
  }
  std::printf("{\"violation\":false,\"units\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"schedules\":%llu,\"conflicting_pairs\":%llu,\"conflicting_locations\":%llu,\"budget_exhausted\":%llu,\"pairs_with_more_calls_and_threads\":%llu,\"distinct_outcomes\":%llu,\"modes\":{\"calls alone\":%llu,\"operation pairs\":%llu},\"samples\":[",
    (unsigned long long)c19_nops, (unsigned long long)schedules, (unsigned long long)totalAccesses, (unsigned long long)compared, (unsigned long long)schedules, (unsigned long long)conflictPairs, (unsigned long long)everConf.size(), (unsigned long long)capped, (unsigned long long)longer, (unsigned long long)std::set<uint64_t>(alone.begin(), alone.end()).size(),
    (unsigned long long)singles, (unsigned long long)pairs);
  for (size_t i = 0; i < samples.size(); ++i) std::printf("%s%s", i ? "," : "", jstr(samples[i]).c_str());
  std::printf("]}\n");
  return 0;
}
