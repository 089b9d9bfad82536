// Scheduler seam: caller threads run one at a time, switched at yield points.
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <libxml/parser.h>
#include <libxml/xmlmemory.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>

namespace sim {
namespace sched {
volatile bool running = false;
namespace {
struct Thread {
  std::function<void()> body;
  sem_t sem;
  pthread_t th;
  bool done = false;
};
std::vector<Thread *> *threads = nullptr;
sem_t mainSem;
uint32_t gap = 1, bits = 0;
uint64_t nSwitch = 0;
thread_local int tid = -1;
thread_local int depth = 0;
thread_local bool inYield = false;

void newGap() {
  uint32_t e = bits - chooseMain(bits + 1); // 0 => the longest
  gap = (1u << e) + chooseMain(1u << e);
}
int pickNext(int cur) {
  uint32_t n = 0;
  int alive[64];
  int at = 0;
  for (size_t i = 0; i < threads->size(); ++i) {
    size_t j = (cur + i) % threads->size();
    if (!(*threads)[j]->done)
      alive[n++] = (int)j;
  }
  (void)at;
  if (!n)
    return -1;
  int nx = alive[chooseMain(n)];
  return nx;
}
void *entry(void *p) {
  auto *t = (Thread *)p;
  while (sem_wait(&t->sem)) {
  }
  for (size_t i = 0; i < threads->size(); ++i)
    if ((*threads)[i] == t)
      tid = (int)i;
  t->body();
  inYield = true;
  t->done = true;
  int nx = pickNext(tid);
  R->sched = mix(R->sched, 1000 + tid);
  if (nx < 0)
    sem_post(&mainSem);
  else {
    newGap();
    sem_post(&(*threads)[nx]->sem);
  }
  return nullptr;
}
} // namespace

Hold::Hold() { ++depth; }
Hold::~Hold() { --depth; }
bool held() { return depth > 0; }
bool active() { return running && tid >= 0; }
int current() { return tid; }
uint64_t switches() { return nSwitch; }

static uint32_t sinceSwitch = 0;
void yieldPoint(int kind) {
  if (!running || tid < 0 || depth > 0 || inYield)
    return;
  R->steps++;
  sinceSwitch++;
  if (--gap > 0)
    return;
  inYield = true;
  newGap();
  int nx = pickNext(tid);
  if (nx != tid) {
    nSwitch++;
    R->sched = mix(R->sched, (uint64_t)nx * 131 + sinceSwitch * 7 + kind);
    sinceSwitch = 0;
    int me = tid;
    sem_post(&(*threads)[nx]->sem);
    while (sem_wait(&(*threads)[me]->sem)) {
    }
  }
  inYield = false;
}

void run(std::vector<std::function<void()>> bodies, uint32_t maxGap) {
  threads = new std::vector<Thread *>();
  sem_init(&mainSem, 0, 0);
  bits = 0;
  while ((2u << bits) <= maxGap)
    ++bits;
  for (auto &b : bodies) {
    auto *t = new Thread();
    t->body = b;
    sem_init(&t->sem, 0, 0);
    threads->push_back(t);
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 16 << 20);
  for (auto *t : *threads)
    pthread_create(&t->th, &at, entry, t);
  newGap();
  nSwitch = 0;
  running = true;
  int first = pickNext(0);
  sem_post(&(*threads)[first]->sem);
  while (sem_wait(&mainSem)) {
  }
  running = false;
  for (auto *t : *threads)
    pthread_join(t->th, nullptr);
}
static void enter() { ++depth; }
static void leave() { --depth; }
} // namespace sched

// ---- libxml2 memory as yield points -----------------------------------------
static void xf(void *p) { free(p); }
static void *xm(size_t n) {
  if (sched::active())
    sched::yieldPoint(1);
  return malloc(n);
}
static void *xr(void *p, size_t n) {
  if (sched::active())
    sched::yieldPoint(1);
  return realloc(p, n);
}
static char *xd(const char *s) { return strdup(s); }
void installXmlSeam() { xmlMemSetup(xf, xm, xr, xd); }
} // namespace sim

// ---- locks: no switch while one is held --------------------------------------
using sim::sched::enter;
using sim::sched::leave;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = nullptr;
  if (!r)
    r = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  enter();
  int e = r(m);
  if (e)
    leave();
  return e;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = nullptr;
  if (!r)
    r = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  int e = r(m);
  if (!e)
    enter();
  return e;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = nullptr;
  if (!r)
    r = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int e = r(m);
  if (!e)
    leave();
  return e;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  static int (*r)(pthread_rwlock_t *) = nullptr;
  if (!r)
    r = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
  enter();
  int e = r(m);
  if (e)
    leave();
  return e;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  static int (*r)(pthread_rwlock_t *) = nullptr;
  if (!r)
    r = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
  enter();
  int e = r(m);
  if (e)
    leave();
  return e;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  static int (*r)(pthread_rwlock_t *) = nullptr;
  if (!r)
    r = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
  int e = r(m);
  if (!e)
    leave();
  return e;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  static int (*r)(pthread_once_t *, void (*)()) = nullptr;
  if (!r)
    r = (int (*)(pthread_once_t *, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
  enter();
  int e = r(o, f);
  leave();
  return e;
}
int __cxa_guard_acquire(uint64_t *g) {
  static int (*r)(uint64_t *) = nullptr;
  if (!r)
    r = (int (*)(uint64_t *))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  enter();
  int v = r(g);
  if (!v)
    leave();
  return v;
}
void __cxa_guard_release(uint64_t *g) {
  static void (*r)(uint64_t *) = nullptr;
  if (!r)
    r = (void (*)(uint64_t *))dlsym(RTLD_NEXT, "__cxa_guard_release");
  r(g);
  leave();
}
void __cxa_guard_abort(uint64_t *g) {
  static void (*r)(uint64_t *) = nullptr;
  if (!r)
    r = (void (*)(uint64_t *))dlsym(RTLD_NEXT, "__cxa_guard_abort");
  r(g);
  leave();
}
// Every basic block of the library: compiled with -fsanitize-coverage=trace-pc.
void __sanitizer_cov_trace_pc() {
  if (sim::sched::running)
    sim::sched::yieldPoint(5);
}
// ---- clock and randomness ----------------------------------------------------
time_t time(time_t *t) noexcept {
  time_t v = 1700000000 + (sim::R ? (time_t)(sim::R->simTime / 1000000) : 0);
  if (t)
    *t = v;
  return v;
}
int rand_r(unsigned *s) noexcept {
  *s = *s * 1103515245u + 12345u;
  return (int)((*s >> 16) & 0x7fff);
}
int rand() noexcept {
  static unsigned s = 1;
  return rand_r(&s);
}
uint32_t arc4random() noexcept { // names of temporary files
  static unsigned s = 7;
  return (uint32_t)rand_r(&s) << 16 ^ (uint32_t)rand_r(&s);
}
}
