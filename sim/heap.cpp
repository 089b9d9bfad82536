// Allocator seam: every C++ allocation of the process is placed by the
// simulator (seeded placement, reuse order and failures).
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <new>
#include <sanitizer/asan_interface.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char __executable_start, etext;

namespace sim {
namespace heap {
namespace {
constexpr uintptr_t Base = 0x300000000000ull;
constexpr size_t Size = 1ull << 33;
constexpr size_t Unit = 1 << 16;
constexpr int NClass = 40;
bool on = false;
Mode mode = Seq;
uint64_t prng = 1;
uintptr_t nextUnit = Base, limit = Base + Size;
uint8_t unitClass[Size / Unit]; // 0: none, 255: large, else class+1
int64_t armed = -1, seen = 0;
bool fired = false;
bool counting = false;
uintptr_t stdLo = 0, stdHi = 0;
volatile int lock_ = 0;

size_t classSize(int c) { // 16-byte steps to 512, then doubling
  return c < 32 ? (size_t)(c + 1) * 16 : (size_t)512 << (c - 31);
}
int classOf(size_t n) {
  if (n <= 512)
    return (int)((n + 15) / 16) - 1;
  int c = 32;
  while (classSize(c) < n)
    ++c;
  return c;
}
struct Cls {
  uintptr_t unit = 0;  // unit being carved
  uint32_t used = 0, cap = 0;
  uint32_t mul = 1, add = 0; // slot permutation of the unit
  uintptr_t *freed = nullptr;
  uint32_t nFreed = 0, capFreed = 0;
} cls[NClass];

uint64_t rnd() {
  prng ^= prng << 13;
  prng ^= prng >> 7;
  prng ^= prng << 17;
  return prng;
}
uint32_t gcd(uint32_t a, uint32_t b) { return b ? gcd(b, a % b) : a; }

struct Lock {
  Lock() {
    while (__sync_lock_test_and_set(&lock_, 1)) {
    }
  }
  ~Lock() { __sync_lock_release(&lock_); }
};

} // namespace

// Blocks above half a unit come from malloc: the library never orders objects
// by the addresses of such blocks.
static void *arenaAlloc(size_t n) {
  size_t want = n + 16;
  if (want > Unit / 2)
    return nullptr;
  int c = classOf(want);
  size_t sz = classSize(c);
  Cls &k = cls[c];
  uintptr_t p = 0;
  if (mode == Reuse && k.nFreed) {
    p = k.freed[--k.nFreed];
  } else {
    if (!k.unit || k.used == k.cap) {
      if (nextUnit + Unit > limit)
        return nullptr;
      if (mode == Rev) {
        limit -= Unit;
        k.unit = limit;
      } else if (mode == Rand && (rnd() & 1)) {
        limit -= Unit;
        k.unit = limit;
      } else {
        k.unit = nextUnit;
        nextUnit += Unit;
      }
      unitClass[(k.unit - Base) / Unit] = (uint8_t)(c + 1);
      k.used = 0;
      k.cap = Unit / sz;
      __asan_poison_memory_region((void *)k.unit, Unit);
      k.mul = 1;
      k.add = 0;
      if (mode == Rand) {
        k.add = rnd() % k.cap;
        do
          k.mul = k.cap > 1 ? 1 + rnd() % (k.cap - 1) : 1;
        while (gcd(k.mul, k.cap) != 1);
      }
    }
    uint64_t slot = ((uint64_t)k.used * k.mul + k.add) % k.cap;
    if (mode == Rev)
      slot = k.cap - 1 - slot;
    k.used++;
    p = k.unit + slot * sz;
  }
  __asan_unpoison_memory_region((void *)p, n);
  return (void *)p;
}

bool inProgram(const void *pc) {
  return pc >= (void *)&__executable_start && pc < (void *)&etext;
}

void setup(Mode m, uint64_t seed) {
  static bool mapped = false;
  if (!mapped) {
    void *p = mmap((void *)Base, Size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                   -1, 0);
    if (p != (void *)Base)
      return;
    mapped = true;
  }
  for (auto &k : cls) { // a slot order belongs to its mode
    k.unit = 0;
    k.nFreed = 0;
  }
  mode = m;
  prng = seed * 2 + 1;
  for (int i = 0; i < 8; ++i)
    rnd();
  on = true;
}
void off() { on = false; }
// The standard library allocates strings on behalf of its caller.
static int findStd(dl_phdr_info *i, size_t, void *) {
  if (!strstr(i->dlpi_name, "libstdc++"))
    return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
      stdLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      stdHi = stdLo + i->dlpi_phdr[k].p_memsz;
    }
  return 1;
}
void failAfter(int64_t n, bool wide) {
  stdLo = stdHi = 0;
  if (wide)
    dl_iterate_phdr(findStd, nullptr);
  armed = n;
  seen = 0;
  fired = false;
  counting = true;
  if (n < 0 && n != -2)
    counting = false;
}
bool failed() { return fired; }
int64_t allocsSeen() { return seen; }

static void *allocate(size_t n, const void *pc, bool nothrow) {
  if (n == 0)
    n = 1;
  bool mine = inProgram(pc);
  if (counting && !sched::held() &&
      (mine || ((uintptr_t)pc >= stdLo && (uintptr_t)pc < stdHi))) {
    if (seen++ == armed && !fired) {
      fired = true;
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  if (mine) {
    if (sched::active())
      sched::yieldPoint(0);
  }
  if (on) {
    Lock l;
    if (void *p = arenaAlloc(n))
      return p;
  }
  void *q = malloc(n);
  if (!q && !nothrow)
    throw std::bad_alloc();
  return q;
}
static void release(void *p) {
  if (!p)
    return;
  uintptr_t a = (uintptr_t)p;
  if (a < Base || a >= Base + Size) {
    free(p);
    return;
  }
  Lock l;
  uint8_t uc = unitClass[(a - Base) / Unit];
  if (uc == 0 || uc == 255)
    abort();
  int c = uc - 1;
  size_t sz = classSize(c);
  uintptr_t unit = a & ~(uintptr_t)(Unit - 1);
  if ((a - unit) % sz || __asan_address_is_poisoned(p)) {
    // double free or a pointer into the middle: let ASan report it
    static volatile char sink;
    sink = *(volatile char *)p;
    (void)sink;
    write(2, "Assertion `valid free' failed\n", 30);
    abort();
  }
  __asan_poison_memory_region(p, sz);
  if (mode == Reuse) {
    Cls &k = cls[c];
    if (k.nFreed == k.capFreed) {
      k.capFreed = k.capFreed ? k.capFreed * 2 : 64;
      k.freed = (uintptr_t *)realloc(k.freed, k.capFreed * sizeof(uintptr_t));
    }
    k.freed[k.nFreed++] = a;
  }
}
} // namespace heap
} // namespace sim

#define PC __builtin_return_address(0)
void *operator new(size_t n) { return sim::heap::allocate(n, PC, false); }
void *operator new[](size_t n) { return sim::heap::allocate(n, PC, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  return sim::heap::allocate(n, PC, true);
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  return sim::heap::allocate(n, PC, true);
}
void operator delete(void *p) noexcept { sim::heap::release(p); }
void operator delete[](void *p) noexcept { sim::heap::release(p); }
void operator delete(void *p, size_t) noexcept { sim::heap::release(p); }
void operator delete[](void *p, size_t) noexcept { sim::heap::release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::heap::release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::heap::release(p); }
