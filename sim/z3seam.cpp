// Solver seam: the answers of Z3 come through here.  The simulator may pick
// another model of a satisfiable query, or let Z3 give up (unknown).
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <map>
#include <sys/mman.h>
#include <vector>
#include <z3.h>

namespace sim {
namespace z3s {
static Cfg cfg;
static bool armed = false;
static uint64_t nChecks = 0, nGave = 0;
static bool lastGave = false;
void setup(const Cfg &c) {
  cfg = c;
  armed = true;
  nChecks = nGave = 0;
  lastGave = false;
}
uint64_t checks() { return nChecks; }
uint64_t gaveUp() { return nGave; }
void inProgram(uint64_t checks, uint64_t gave) {
  nChecks = checks;
  nGave = gave;
}
bool lastGaveUp() { return lastGave; }

// libz3 is not instrumented, so checked allocations find nothing in it but make
// it four times slower: give it the C library's own.
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void __libc_free(void *);
static int patch(dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "libz3.so"))
    return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    if (i->dlpi_phdr[k].p_type != PT_DYNAMIC)
      continue;
    ElfW(Rela) *rel = nullptr;
    size_t size = 0;
    ElfW(Sym) *sym = nullptr;
    const char *str = nullptr;
    for (auto *d = (ElfW(Dyn) *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
         d->d_tag != DT_NULL; ++d) {
      if (d->d_tag == DT_JMPREL)
        rel = (ElfW(Rela) *)d->d_un.d_ptr;
      else if (d->d_tag == DT_PLTRELSZ)
        size = d->d_un.d_val;
      else if (d->d_tag == DT_SYMTAB)
        sym = (ElfW(Sym) *)d->d_un.d_ptr;
      else if (d->d_tag == DT_STRTAB)
        str = (const char *)d->d_un.d_ptr;
    }
    if (!rel || !sym || !str)
      return 1;
    void **slot[3] = {};
    for (size_t r = 0; r < size / sizeof *rel; ++r) {
      const char *n = str + sym[ELF64_R_SYM(rel[r].r_info)].st_name;
      void **p = (void **)(i->dlpi_addr + rel[r].r_offset);
      if (!strcmp(n, "malloc"))
        slot[0] = p;
      else if (!strcmp(n, "realloc"))
        slot[1] = p;
      else if (!strcmp(n, "free"))
        slot[2] = p;
    }
    if (!slot[0] || !slot[1] || !slot[2])
      return 1;
    void *fn[3] = {(void *)__libc_malloc, (void *)__libc_realloc,
                   (void *)__libc_free};
    for (int s = 0; s < 3; ++s) {
      uintptr_t page = (uintptr_t)slot[s] & ~4095ul;
      if (mprotect((void *)page, 4096, PROT_READ | PROT_WRITE))
        return 1;
      *slot[s] = fn[s];
    }
    return 1;
  }
  return 1;
}
void fastAlloc() { dl_iterate_phdr(patch, nullptr); }

using CheckFn = Z3_lbool (*)(Z3_context, Z3_solver);
using AssumeFn = Z3_lbool (*)(Z3_context, Z3_solver, unsigned, Z3_ast const *);
static CheckFn realCheck() {
  static auto *f = (CheckFn)dlsym(RTLD_NEXT, "Z3_solver_check");
  return f;
}
static AssumeFn realAssume() {
  static auto *f = (AssumeFn)dlsym(RTLD_NEXT, "Z3_solver_check_assumptions");
  return f;
}

static bool giveUpNow() {
  int64_t n = (int64_t)nChecks++;
  lastGave = false;
  bool g = cfg.giveUpAt >= 0 && n >= cfg.giveUpAt &&
           n < cfg.giveUpAt + cfg.giveUpLen;
  if (!g && cfg.giveUp)
    g = chooseMain(1000) >= 1000 - cfg.giveUp;
  if (g) {
    nGave++;
    lastGave = true;
    count("fault.solver_gives_up");
    logf("z3 check %lld: unknown", (long long)n);
  }
  return g;
}

// Another model of the same query, found by a second solver that got the same
// assertions and random literals on top; the library's own solver is not
// touched and its next get_model yields the other model.
static std::map<Z3_solver, Z3_model> others;
static void otherModel(Z3_context c, Z3_solver s) {
  static auto getModel =
      (Z3_model(*)(Z3_context, Z3_solver))dlsym(RTLD_NEXT, "Z3_solver_get_model");
  Z3_model m = getModel(c, s);
  if (!m)
    return;
  Z3_model_inc_ref(c, m);
  Z3_solver o = Z3_mk_simple_solver(c);
  Z3_solver_inc_ref(c, o);
  Z3_ast_vector as = Z3_solver_get_assertions(c, s);
  Z3_ast_vector_inc_ref(c, as);
  for (unsigned i = 0, n = Z3_ast_vector_size(c, as); i < n; ++i)
    Z3_solver_assert(c, o, Z3_ast_vector_get(c, as, i));
  Z3_ast_vector_dec_ref(c, as);
  unsigned n = Z3_model_get_num_consts(c, m), lits = 0;
  for (unsigned i = 0; i < n && lits < 6; ++i) {
    Z3_func_decl d = Z3_model_get_const_decl(c, m, i);
    Z3_sort so = Z3_get_range(c, d);
    uint32_t ch = chooseMain(3);
    if (ch == 0)
      continue;
    Z3_ast k = Z3_mk_app(c, d, 0, nullptr);
    Z3_inc_ref(c, k);
    Z3_ast lit = nullptr;
    if (Z3_get_sort_kind(c, so) == Z3_BOOL_SORT) {
      lit = ch == 1 ? k : Z3_mk_not(c, k);
    } else if (Z3_get_sort_kind(c, so) == Z3_INT_SORT) {
      Z3_ast v = Z3_model_get_const_interp(c, m, d);
      if (v)
        lit = ch == 1 ? Z3_mk_lt(c, k, v) : Z3_mk_gt(c, k, v);
    }
    if (lit) {
      Z3_inc_ref(c, lit);
      Z3_solver_push(c, o);
      Z3_solver_assert(c, o, lit);
      Z3_dec_ref(c, lit);
      if (realCheck()(c, o) == Z3_L_TRUE) {
        lits++;
        Z3_model x = getModel(c, o);
        Z3_model_inc_ref(c, x); // stays until the context goes
        others[s] = x;
      } else
        Z3_solver_pop(c, o, 1);
    }
    Z3_dec_ref(c, k);
  }
  if (lits)
    count("nondet.other_model");
  Z3_solver_dec_ref(c, o);
  Z3_model_dec_ref(c, m);
}

static Z3_lbool doCheck(Z3_context c, Z3_solver s) {
  if (sched::active())
    sched::yieldPoint(3);
  sched::Hold hold;
  if (!armed) {
    others.erase(s);
    return realCheck()(c, s);
  }
  step(1000);
  others.erase(s);
  if (giveUpNow())
    return Z3_L_UNDEF;
  Z3_lbool r = realCheck()(c, s);
  if (r == Z3_L_TRUE && cfg.randomModel && chooseMain(1000) >= 1000 - cfg.randomModel)
    otherModel(c, s);
  return r;
}
} // namespace z3s
} // namespace sim

extern "C" {
__attribute__((visibility("default"))) Z3_lbool Z3_API
Z3_solver_check(Z3_context c, Z3_solver s) {
  return sim::z3s::doCheck(c, s);
}
__attribute__((visibility("default"))) Z3_model Z3_API
Z3_solver_get_model(Z3_context c, Z3_solver s) {
  using namespace sim::z3s;
  sim::sched::Hold hold;
  auto it = others.find(s);
  if (it != others.end())
    return it->second;
  static auto getModel =
      (Z3_model(*)(Z3_context, Z3_solver))dlsym(RTLD_NEXT, "Z3_solver_get_model");
  return getModel(c, s);
}
__attribute__((visibility("default"))) Z3_lbool Z3_API
Z3_solver_check_assumptions(Z3_context c, Z3_solver s, unsigned n,
                            Z3_ast const as[]) {
  using namespace sim;
  if (z3s::armed) {
    step(1000);
    if (z3s::giveUpNow())
      return Z3_L_UNDEF;
  }
  return z3s::realAssume()(c, s, n, as);
}
}
