// Deterministic simulator: choice source, event log, counters, seams, runner.
#ifndef SIM_H
#define SIM_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

constexpr int MaxChoices = 1 << 16;
constexpr int LogBytes = 1 << 17;
constexpr int MaxCounters = 256;
constexpr int MaxStates = 256;

// Lives in a MAP_SHARED mapping, so that a crashed child's record survives.
struct RunRecord {
  uint32_t nChoices;      // choices consumed so far
  uint32_t overflow;      // ran out of choice storage
  uint64_t hash;          // rolling hash of the event log
  uint64_t sched;         // rolling hash of scheduling decisions only
  uint32_t events;        // number of log lines
  uint32_t logLen;
  uint32_t violated;
  uint32_t done;          // scenario finished normally
  uint32_t discarded;     // the case was trivial (rule in the scenario)
  uint64_t steps;         // simulated steps (operations + yields)
  uint64_t simTime;       // simulated microseconds (disk/solver latencies)
  char cls[160];          // violation class
  char msg[6000];         // violation text
  char summary[400];      // one-line description of the case
  char phase[64];         // what the scenario was doing (for crash reports)
  uint32_t nCounters;
  char cname[MaxCounters][40];
  uint64_t cval[MaxCounters];
  uint32_t nStates;
  uint64_t states[MaxStates];
  uint32_t nFindings;
  char findings[16][160];
  char log[LogBytes];
  uint32_t choices[MaxChoices];
};
extern RunRecord *R;

// ---- choices ---------------------------------------------------------------
uint32_t choose(uint32_t n); // uniform in [0,n); 0 is simplest
inline bool chance(uint32_t num, uint32_t den) {
  return choose(den) >= den - num; // 0 => false (simplest)
}
inline uint32_t range(uint32_t lo, uint32_t hi) {
  return lo + choose(hi - lo + 1);
}
template <class T> const T &pick(const std::vector<T> &v) {
  return v[choose(v.size())];
}
template <class T> void shuffle(std::vector<T> &v) {
  for (size_t i = 0; i + 1 < v.size(); ++i) {
    size_t j = i + choose(v.size() - i);
    std::swap(v[i], v[j]);
  }
}

// A thread with a tape draws its choices from there: what it does no longer
// depends on how it is interleaved with others.
struct Tape {
  std::vector<uint32_t> v;
  size_t at = 0;
};
void useTape(Tape *t); // null: back to the common stream
uint32_t chooseMain(uint32_t n); // from the common stream in any case

// ---- log, counters, verdicts -----------------------------------------------
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logs(const std::string &s);
void count(const char *name, uint64_t n = 1);
void state(uint64_t h); // a distinct state / interleaving
void step(uint64_t us = 0);
[[noreturn]] void violate(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
void discard(); // mark case as trivial
void finding(const char *key);
bool knownFinding(const char *key); // listed in known_findings
void summary(const std::string &s);
void phase(const char *what);
uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull);
uint64_t mix(uint64_t a, uint64_t b);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool thorough();

// ---- heap ------------------------------------------------------------------
namespace heap {
enum Mode { Seq, Rand, Rev, Reuse, NModes };
void setup(Mode m, uint64_t seed); // from now on place objects so
void off();                        // back to the ordinary allocator
// n-th library allocation fails; <0: never.  wide: counting those that the
// standard library makes for it (strings)
void failAfter(int64_t n, bool wide = false);
bool failed();                     // did the armed failure fire
int64_t allocsSeen();              // library allocations since arming
bool inProgram(const void *pc);    // pc within our executable
} // namespace heap

// ---- scheduler -------------------------------------------------------------
namespace sched {
// Runs the given bodies as caller threads, one at a time, switching at yield
// points chosen by the choice source.
void run(std::vector<std::function<void()>> bodies, uint32_t maxGap);
void yieldPoint(int kind); // 0 alloc, 1 xml alloc, 2 disk, 3 solver, 4 caller
bool active();
struct Hold { // no switch while one lives: the simulator's own state is in use
  Hold();
  ~Hold();
};
bool held();
int current();
uint64_t switches();
} // namespace sched

// ---- disk ------------------------------------------------------------------
namespace disk {
struct Faults {
  // probabilities in 1/1000 per operation
  uint32_t shortRead = 0, eintrRead = 0, eioRead = 0;
  uint32_t shortWrite = 0, eintrWrite = 0, eioWrite = 0, enospc = 0;
  uint32_t openFail = 0, eintrOpen = 0, closeFail = 0, statFail = 0;
  uint32_t renameFail = 0, syncFail = 0;
  int64_t capacity = -1;  // bytes on the whole disk
  int64_t crashAtOp = -1; // crash at the n-th disk operation
  uint32_t crashMid = 0;  // ... after a partial effect of it
  int64_t failAtOp = -1;  // n-th disk operation fails for good
};
void reset();
void setFaults(const Faults &f);
void clearFaults();
void put(const std::string &path, const std::string &bytes); // durable
bool exists(const std::string &path);
std::string get(const std::string &path);
void remove(const std::string &path);
std::vector<std::string> list();
uint64_t hardFaults(); // permanent errors delivered since setFaults
uint64_t writeHardFaults();
uint64_t readHardFaults();
uint64_t statFaults(); // those of them that failed a stat
uint64_t softFaults();
uint64_t ops(); // operations since setFaults
uint64_t openHandles();
// Crash support: body runs in a forked process that dies at the crash point;
// afterwards the parent's disk holds what survived.  Returns true if it died.
bool runUntilCrash(const std::function<void()> &body);
// out: what the program's standard output goes to, if not to the harness.  No
// program of its own is started: the file Root/.started tells its name, its
// argument and what that file contained.
int runProgram(const std::function<int()> &body, const std::string &out = "");
constexpr const char *Root = "/simfs";
} // namespace disk

// ---- z3 seam ---------------------------------------------------------------
namespace z3s {
struct Cfg {
  uint32_t randomModel = 0; // in 1/1000 per check
  uint32_t giveUp = 0;      // in 1/1000 per check
  int64_t giveUpAt = -1;    // n-th check gives up
  int64_t giveUpLen = 1;    // for so many checks
};
void setup(const Cfg &c);
void fastAlloc();
uint64_t checks();
uint64_t gaveUp();
void inProgram(uint64_t checks, uint64_t gaveUp); // what another process saw
bool lastGaveUp();
} // namespace z3s

// ---- xml memory seam -------------------------------------------------------
void installXmlSeam();

// ---- scenarios -------------------------------------------------------------
void addScenario(const char *id, const char *rule, void (*fn)());
struct Reg {
  Reg(const char *i, const char *r, void (*f)()) { addScenario(i, r, f); }
};
} // namespace sim
#endif
