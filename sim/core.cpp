// Choice source, recording, runner, shrinker.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
RunRecord *R = nullptr;

namespace {
struct Rng {
  uint64_t s[4];
  static uint64_t sm(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t x) {
    for (auto &v : s)
      v = sm(x);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
} rng;
bool replaying = false;
const uint32_t *replayList = nullptr;
uint32_t replayLen = 0;
std::set<std::string> *known = nullptr;
bool isThorough = false;

struct Scen {
  std::string id, rule;
  void (*fn)();
};
std::vector<Scen> &scens() {
  static std::vector<Scen> v;
  return v;
}
} // namespace

void addScenario(const char *id, const char *rule, void (*fn)()) {
  scens().push_back({id, rule, fn});
}
bool thorough() { return isThorough; }

static thread_local Tape *tape = nullptr;
void useTape(Tape *t) { tape = t; }
uint32_t choose(uint32_t n) {
  if (n <= 1)
    return 0;
  if (tape)
    return tape->at < tape->v.size() ? tape->v[tape->at++] % n : 0;
  return chooseMain(n);
}
uint32_t chooseMain(uint32_t n) {
  if (n <= 1)
    return 0;
  uint32_t v = 0;
  uint32_t i = R->nChoices;
  if (i >= (uint32_t)MaxChoices) {
    R->overflow = 1;
    return 0;
  }
  if (replaying)
    v = i < replayLen ? replayList[i] % n : 0;
  else
    v = (uint32_t)((rng.next() >> 33) % n);
  R->choices[i] = v;
  R->nChoices = i + 1;
  return v;
}

uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  return a ^ (a >> 32);
}
uint64_t hashStr(const std::string &s, uint64_t h) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

static void logRaw(const char *buf, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    R->hash ^= (unsigned char)buf[i];
    R->hash *= 1099511628211ull;
  }
  R->hash ^= '\n';
  R->hash *= 1099511628211ull;
  R->events++;
  if (R->logLen + n + 2 < (uint32_t)LogBytes) {
    memcpy(R->log + R->logLen, buf, n);
    R->log[R->logLen + n] = '\n';
    R->logLen += n + 1;
  }
}
void logf(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0)
    return;
  if (n >= (int)sizeof buf)
    n = sizeof buf - 1;
  logRaw(buf, n);
}
void logs(const std::string &s) { logRaw(s.data(), s.size()); }

void count(const char *name, uint64_t n) {
  uint32_t k = R->nCounters;
  for (uint32_t i = 0; i < k; ++i)
    if (!strcmp(R->cname[i], name)) {
      R->cval[i] += n;
      return;
    }
  if (k >= (uint32_t)MaxCounters)
    return;
  strncpy(R->cname[k], name, 39);
  R->cname[k][39] = 0;
  R->cval[k] = n;
  R->nCounters = k + 1;
}
void state(uint64_t h) {
  if (R->nStates < (uint32_t)MaxStates)
    R->states[R->nStates++] = h;
}
void step(uint64_t us) {
  R->steps++;
  R->simTime += us;
}
void violate(const char *cls, const char *fmt, ...) {
  if (!R->violated) {
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    logf("VIOLATED %s", cls);
    R->violated = 1;
  }
  _exit(0);
}
void discard() { R->discarded = 1; }
bool knownFinding(const char *key) { return known && known->count(key); }
void finding(const char *key) {
  if (R->nFindings < 16) {
    snprintf(R->findings[R->nFindings], 160, "%s", key);
    R->nFindings++;
  }
}
void summary(const std::string &s) {
  snprintf(R->summary, sizeof R->summary, "%s", s.c_str());
}
void phase(const char *w) { snprintf(R->phase, sizeof R->phase, "%s", w); }

std::string strf(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

// ---------------------------------------------------------------------------
namespace {
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
RunRecord *mapRecord() {
  void *p = mmap(nullptr, sizeof(RunRecord), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return (RunRecord *)p;
}
void clearRecord(RunRecord *r) {
  size_t head = offsetof(RunRecord, cname);
  memset((void *)r, 0, head);
  r->nStates = 0;
  r->nFindings = 0;
  r->hash = 1469598103934665603ull;
  r->sched = 1469598103934665603ull;
}

std::string readFd(int fd) {
  std::string s;
  off_t n = lseek(fd, 0, SEEK_END);
  if (n > 0) {
    if (n > 200000)
      n = 200000;
    s.resize(n);
    ssize_t k = pread(fd, &s[0], n, 0);
    s.resize(k > 0 ? k : 0);
  }
  return s;
}

// Turns a dead child's stderr into a violation class.
void classify(RunRecord *r, int status, const std::string &err) {
  std::string cls, text;
  size_t p;
  if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    size_t q = p + 25, e = q;
    while (e < err.size() && !isspace((unsigned char)err[e]))
      ++e;
    cls = "crash:asan:" + err.substr(q, e - q);
    text = err.substr(p, 3500);
  } else if ((p = err.find("Assertion `")) != std::string::npos) {
    size_t q = err.find("' failed", p);
    cls = "crash:assert:" +
          err.substr(p + 11, std::min<size_t>(100, (q == std::string::npos ? p + 60 : q) - p - 11));
    size_t ls = err.rfind('\n', p);
    text = err.substr(ls == std::string::npos ? 0 : ls + 1, 1500);
  } else if ((p = err.find("terminate called")) != std::string::npos) {
    cls = "crash:uncaught";
    text = err.substr(p, 600);
  } else if ((p = err.find("UNREACHABLE executed")) != std::string::npos) {
    cls = "crash:unreachable";
    text = err.substr(p > 200 ? p - 200 : 0, 600);
  } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGXCPU) {
    cls = "hang";
    text = "no progress within the CPU limit";
  } else if (WIFSIGNALED(status)) {
    cls = "crash:signal:" + std::to_string(WTERMSIG(status));
    text = err.substr(err.size() > 1500 ? err.size() - 1500 : 0);
  } else {
    cls = "crash:exit:" + std::to_string(WEXITSTATUS(status));
    text = err.substr(err.size() > 1500 ? err.size() - 1500 : 0);
  }
  if (r->phase[0])
    cls += std::string("@") + r->phase;
  snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
  snprintf(r->msg, sizeof r->msg, "process died (%s)\n%s", cls.c_str(),
           text.c_str());
  r->violated = 1;
}

int errFd = -1;
unsigned cpuLimit = 20;

// One simulated execution in a fresh child.
void execute(const Scen &s, bool replay, uint64_t seed, const uint32_t *list,
             uint32_t len) {
  clearRecord(R);
  if (ftruncate(errFd, 0)) {
  }
  pid_t pid = fork();
  if (pid == 0) {
    rlimit rl{cpuLimit, cpuLimit + 2};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit rc{0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    dup2(errFd, 2);
    lseek(2, 0, SEEK_SET);
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    replaying = replay;
    replayList = list;
    replayLen = len;
    rng.seed(seed);
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    s.fn();
    R->done = 1;
    _exit(0);
  }
  // wait with a wall-clock limit (a blocked run is a hang, too)
  sigset_t set;
  sigemptyset(&set);
  sigaddset(&set, SIGCHLD);
  double t0 = now();
  int status = 0;
  bool killed = false;
  for (;;) {
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid)
      break;
    if (!killed && now() - t0 > 120) {
      kill(pid, SIGKILL);
      killed = true;
    }
    timespec ts{1, 0};
    sigtimedwait(&set, nullptr, &ts);
  }
  if (R->violated)
    return;
  if (killed) {
    snprintf(R->cls, sizeof R->cls, "hang@%s", R->phase);
    snprintf(R->msg, sizeof R->msg, "run blocked for 120 s of wall time");
    R->violated = 1;
    return;
  }
  if (!R->done || !WIFEXITED(status) || WEXITSTATUS(status) != 0)
    classify(R, status, readFd(errFd));
}

std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n')
      o += "\\n";
    else if (c == '\t')
      o += "\\t";
    else if (c < 32 || c >= 127)
      o += strf("\\u%04x", c);
    else
      o += c;
  }
  return o;
}

void writeReplay(const std::string &file, const std::string &prop,
                 uint64_t seed, const std::vector<uint32_t> &ch,
                 uint32_t origLen) {
  std::ofstream o(file);
  o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \""
    << (isThorough ? "thorough" : "quick") << "\",\n \"seed\": \"" << seed
    << "\",\n \"class\": \"" << jsonEsc(R->cls) << "\",\n \"hash\": \""
    << R->hash << "\",\n \"original_choices\": " << origLen
    << ",\n \"choices\": [";
  for (size_t i = 0; i < ch.size(); ++i)
    o << (i ? "," : "") << ch[i];
  o << "],\n \"case\": \"" << jsonEsc(R->summary) << "\",\n \"message\": \""
    << jsonEsc(R->msg) << "\",\n \"trace\": [\n";
  std::string lg(R->log, R->logLen);
  std::stringstream ss(lg);
  std::string line;
  bool first = true;
  while (std::getline(ss, line)) {
    o << (first ? "  \"" : ",\n  \"") << jsonEsc(line) << "\"";
    first = false;
  }
  o << "\n ]\n}\n";
}

// Same failure?  The text after '@' (phase) may change while shrinking.
std::string clsKey(const std::string &c) { return c.substr(0, c.find('@')); }

std::vector<uint32_t> shrink(const Scen &s, std::vector<uint32_t> best,
                             const std::string &cls, double budget) {
  double t0 = now();
  auto tryIt = [&](const std::vector<uint32_t> &c) -> bool {
    execute(s, true, 0, c.data(), c.size());
    return R->violated && clsKey(R->cls) == cls;
  };
  auto accept = [&]() {
    best.assign(R->choices, R->choices + R->nChoices);
    while (!best.empty() && best.back() == 0)
      best.pop_back();
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    // drop blocks, zero blocks
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {
      for (size_t i = 0; i < best.size() && now() - t0 < budget;) {
        std::vector<uint32_t> c(best.begin(), best.begin() + i);
        if (i + blk < best.size())
          c.insert(c.end(), best.begin() + i + blk, best.end());
        if (tryIt(c) && (R->nChoices < best.size() || c.size() < best.size())) {
          size_t old = best.size();
          accept();
          progress = progress || best.size() < old;
          continue;
        }
        c = best;
        bool any = false;
        for (size_t k = i; k < std::min(best.size(), i + blk); ++k)
          if (c[k]) {
            c[k] = 0;
            any = true;
          }
        if (any && tryIt(c)) {
          auto old = best;
          accept();
          if (best < old || best.size() < old.size())
            progress = true;
        }
        i += blk;
      }
      if (blk == 1)
        break;
    }
    // lower single values
    for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
      while (i < best.size() && best[i] > 0 && now() - t0 < budget) {
        auto c = best;
        c[i] = c[i] / 2;
        if (tryIt(c) && R->nChoices <= best.size() + 4) {
          auto old = best;
          accept();
          if (!(best < old))
            break;
          progress = true;
        } else
          break;
      }
    }
  }
  return best;
}

struct Args {
  std::string cmd, prop, out, file, knownFile;
  uint64_t seed = 1;
  uint64_t runs = 1000, first = 0;
  int jobs = 8;
  double wall = 60;
  bool verbose = false;
};

struct Viol {
  uint64_t index, seed;
  std::string cls, msg;
};

uint64_t runSeed(const Args &a, uint64_t i) {
  return mix(mix(a.seed * 0x9e3779b97f4a7c15ull, hashStr(a.prop)), i + 1);
}

int worker(const Args &a, const Scen &s, int w, volatile uint32_t *stop) {
  R = mapRecord();
  std::string ef = a.out + "/err." + std::to_string(w);
  errFd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  unlink(ef.c_str());
  std::map<std::string, uint64_t> counters;
  std::set<uint64_t> states, scheds, hashes;
  uint64_t runs = 0, discarded = 0, steps = 0, simTime = 0, detChecked = 0,
           detMismatch = 0, overflow = 0, choices = 0, events = 0;
  std::vector<Viol> viols;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> findings;
  double t0 = now();
  for (uint64_t i = a.first + w; i < a.first + a.runs; i += a.jobs) {
    if (now() - t0 > a.wall || *stop)
      break;
    uint64_t seed = runSeed(a, i);
    execute(s, false, seed, nullptr, 0);
    runs++;
    if (R->violated) {
      viols.push_back({i, seed, R->cls, R->msg});
      if (viols.size() >= 3)
        __sync_fetch_and_add(stop, 1);
      continue;
    }
    for (uint32_t k = 0; k < R->nCounters; ++k)
      counters[R->cname[k]] += R->cval[k];
    for (uint32_t k = 0; k < R->nStates; ++k)
      states.insert(R->states[k]);
    for (uint32_t k = 0; k < R->nFindings; ++k)
      findings[R->findings[k]]++;
    scheds.insert(R->sched);
    if (R->discarded)
      discarded++;
    else
      hashes.insert(R->hash);
    steps += R->steps;
    simTime += R->simTime;
    overflow += R->overflow;
    choices += R->nChoices;
    events += R->events;
    if (samples.size() < 3 && !R->discarded && R->summary[0])
      samples.push_back(strf("seed %llu: %s", (unsigned long long)seed, R->summary));
    if (runs % 24 == 1) { // determinism audit
      uint64_t h = R->hash;
      uint32_t nc = R->nChoices;
      execute(s, false, seed, nullptr, 0);
      detChecked++;
      if (R->violated || R->hash != h || R->nChoices != nc) {
        detMismatch++;
        std::ofstream d(a.out + "/nondet." + std::to_string(w));
        d << "seed index " << i << " seed " << seed << "\n";
      }
    }
  }
  std::ofstream o(a.out + "/w" + std::to_string(w) + ".txt");
  o << "runs " << runs << "\ndiscarded " << discarded << "\nsteps " << steps
    << "\nsimtime " << simTime << "\ndetchecked " << detChecked
    << "\ndetmismatch " << detMismatch << "\noverflow " << overflow
    << "\nchoices " << choices << "\nevents " << events << "\n";
  for (auto &c : counters)
    o << "counter " << c.first << " " << c.second << "\n";
  for (auto &c : findings)
    o << "finding " << c.second << " " << c.first << "\n";
  for (auto &v : viols)
    o << "viol " << v.index << " " << v.seed << " " << v.cls << "\n";
  for (auto &x : samples)
    o << "sample " << x << "\n";
  auto dump = [&](const char *n, const std::set<uint64_t> &st) {
    std::ofstream b(a.out + "/w" + std::to_string(w) + "." + n, std::ios::binary);
    for (uint64_t v : st)
      b.write((const char *)&v, 8);
  };
  dump("states", states);
  dump("scheds", scheds);
  dump("hashes", hashes);
  return 0;
}

const Scen *findScen(const std::string &id) {
  for (auto &s : scens())
    if (s.id == id)
      return &s;
  return nullptr;
}

std::vector<uint32_t> parseChoices(const std::string &t) {
  std::vector<uint32_t> v;
  size_t p = t.find("\"choices\": [");
  if (p == std::string::npos)
    return v;
  p += 12;
  while (p < t.size() && t[p] != ']') {
    v.push_back(strtoul(t.c_str() + p, nullptr, 10));
    while (p < t.size() && t[p] != ',' && t[p] != ']')
      ++p;
    if (t[p] == ',')
      ++p;
  }
  return v;
}
std::string parseField(const std::string &t, const std::string &k) {
  size_t p = t.find("\"" + k + "\": \"");
  if (p == std::string::npos)
    return "";
  p += k.size() + 5;
  std::string s;
  while (p < t.size() && t[p] != '"') {
    if (t[p] == '\\' && p + 1 < t.size()) {
      ++p;
      if (t[p] == 'n')
        s += '\n';
      else if (t[p] == 't')
        s += '\t';
      else if (t[p] == 'u' && p + 4 < t.size()) {
        s += (char)strtoul(t.substr(p + 1, 4).c_str(), nullptr, 16);
        p += 4;
      } else
        s += t[p];
    } else
      s += t[p];
    ++p;
  }
  return s;
}

void openErr(const std::string &dir) {
  std::string ef = dir + "/err.main." + std::to_string(getpid());
  errFd = open(ef.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  if (errFd < 0) {
    perror(ef.c_str());
    exit(3);
  }
  unlink(ef.c_str());
}

} // namespace
} // namespace sim

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
         "exitcode=99:handle_abort=0:detect_stack_use_after_return=0:"
         "quarantine_size_mb=8:fast_unwind_on_malloc=1:malloc_context_size=2:"
         "detect_container_overflow=1:allow_user_poisoning=1:"
         "alloc_dealloc_mismatch=0:external_symbolizer_path=:use_sigaltstack=1:"
         "symbolize=1:print_legend=0:intercept_tls_get_addr=0";
}
extern "C" const char *__ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1";
}

int main(int argc, char **argv) {
  using namespace sim;
  // fixed addresses: what is outside our arena should repeat, too
  if (!getenv("VSIM_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) &&
        personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("VSIM_NOASLR", "1", 1);
      // for the allocations of libz3: no returning of memory in between
      setenv("GLIBC_TUNABLES",
             "glibc.malloc.trim_threshold=1000000000:glibc.malloc.top_pad="
             "67108864:glibc.malloc.mmap_max=0", 1);
      execv("/proc/self/exe", argv);
    }
  }
  Args a;
  a.cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i < argc; ++i) {
    std::string x = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (x == "--seed")
      a.seed = strtoull(val().c_str(), nullptr, 10);
    else if (x == "--runs")
      a.runs = strtoull(val().c_str(), nullptr, 10);
    else if (x == "--first")
      a.first = strtoull(val().c_str(), nullptr, 10);
    else if (x == "--jobs")
      a.jobs = atoi(val().c_str());
    else if (x == "--wall")
      a.wall = atof(val().c_str());
    else if (x == "--out")
      a.out = val();
    else if (x == "--known")
      a.knownFile = val();
    else if (x == "--cpu")
      cpuLimit = atoi(val().c_str());
    else if (x == "--thorough")
      isThorough = true;
    else if (x == "-v")
      a.verbose = true;
    else if (a.prop.empty())
      a.prop = x;
  }
  if (!a.knownFile.empty()) {
    known = new std::set<std::string>();
    std::ifstream f(a.knownFile);
    std::string l;
    while (std::getline(f, l))
      known->insert(l);
  }
  sigset_t set;
  sigemptyset(&set);
  sigaddset(&set, SIGCHLD);
  sigprocmask(SIG_BLOCK, &set, nullptr);
  installXmlSeam();

  if (a.cmd == "list") {
    for (auto &s : scens())
      printf("%s\t%s\n", s.id.c_str(), s.rule.c_str());
    return 0;
  }
  z3s::fastAlloc();
  if (a.cmd == "replay") {
    std::ifstream f(a.prop);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string t = ss.str(), prop = parseField(t, "property");
    isThorough |= parseField(t, "tier") == "thorough";
    const Scen *s = findScen(prop);
    if (!s) {
      fprintf(stderr, "no scenario for %s\n", prop.c_str());
      return 3;
    }
    R = mapRecord();
    openErr("/tmp");
    auto c = parseChoices(t);
    execute(*s, true, 0, c.data(), c.size());
    if (a.verbose)
      printf("%.*s", (int)R->logLen, R->log);
    if (!R->violated) {
      printf("replay: property %s held\n", prop.c_str());
      return 0;
    }
    printf("replay: %s\n%s\n", R->cls, R->msg);
    bool same = std::to_string(R->hash) == parseField(t, "hash") &&
                parseField(t, "class") == R->cls;
    printf("replay: %s\n", same ? "reproduced exactly" : "DIFFERENT from the recorded run");
    return same ? 1 : 4;
  }
  if (a.cmd == "one") { // one seed index, verbose
    const Scen *s = findScen(a.prop);
    R = mapRecord();
    openErr("/tmp");
    execute(*s, false, runSeed(a, a.first), nullptr, 0);
    printf("%.*s", (int)R->logLen, R->log);
    if (a.verbose)
      fprintf(stderr, "%s\n", readFd(errFd).c_str());
    printf("summary: %s\nhash %llx choices %u events %u steps %llu discarded %u violated %u\n",
           R->summary, (unsigned long long)R->hash, R->nChoices, R->events,
           (unsigned long long)R->steps, R->discarded, R->violated);
    for (uint32_t k = 0; k < R->nCounters; ++k)
      printf("  %s = %llu\n", R->cname[k], (unsigned long long)R->cval[k]);
    if (R->violated)
      printf("%s\n%s\n", R->cls, R->msg);
    return R->violated ? 1 : 0;
  }
  if (a.cmd == "run") {
    const Scen *s = findScen(a.prop);
    if (!s) {
      fprintf(stderr, "no scenario %s\n", a.prop.c_str());
      return 3;
    }
    auto *stop = (volatile uint32_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> ws;
    for (int w = 0; w < a.jobs; ++w) {
      pid_t p = fork();
      if (p == 0)
        _exit(worker(a, *s, w, stop));
      ws.push_back(p);
    }
    bool bad = false;
    for (pid_t p : ws) {
      int st;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st))
        bad = true;
    }
    if (bad) {
      fprintf(stderr, "a worker failed\n");
      return 3;
    }
    // collect violations, smallest index first, one per class
    std::vector<Viol> vs;
    for (int w = 0; w < a.jobs; ++w) {
      std::ifstream f(a.out + "/w" + std::to_string(w) + ".txt");
      std::string l;
      while (std::getline(f, l))
        if (l.compare(0, 5, "viol ") == 0) {
          std::stringstream ss(l.substr(5));
          Viol v;
          ss >> v.index >> v.seed;
          std::getline(ss, v.cls);
          if (!v.cls.empty())
            v.cls.erase(0, 1);
          vs.push_back(v);
        }
    }
    std::sort(vs.begin(), vs.end(),
              [](const Viol &x, const Viol &y) { return x.index < y.index; });
    if (vs.empty())
      return 0;
    R = mapRecord();
    openErr(a.out);
    std::set<std::string> seen;
    int confirmed = 0, tried = 0;
    for (auto &v : vs) {
      if (tried >= 6 || confirmed >= 1)
        break;
      if (!seen.insert(clsKey(v.cls)).second && tried >= 3)
        continue;
      tried++;
      execute(*s, false, v.seed, nullptr, 0);
      uint64_t h = R->hash;
      std::string c1 = R->cls;
      bool v1 = R->violated;
      std::vector<uint32_t> ch(R->choices, R->choices + R->nChoices);
      execute(*s, true, 0, ch.data(), ch.size());
      bool gate = v1 && R->violated && R->hash == h && c1 == R->cls;
      if (!gate) {
        fprintf(stderr, "unstable violation, seed %llu (%s / %s)\n",
                (unsigned long long)v.seed, c1.c_str(), R->cls);
        continue;
      }
      auto small = shrink(*s, ch, clsKey(c1), 25);
      execute(*s, true, 0, small.data(), small.size());
      if (!R->violated) { // shrinking ended badly: fall back to the original
        small = ch;
        execute(*s, true, 0, small.data(), small.size());
      }
      std::string rf = a.out + "/replay-" + a.prop + "-" + std::to_string(v.seed) + ".json";
      writeReplay(rf, a.prop, v.seed, small, ch.size());
      printf("FAIL %s class=%s seed=%llu choices=%zu->%zu\n%s\n", rf.c_str(), R->cls,
             (unsigned long long)v.seed, ch.size(), small.size(), R->msg);
      confirmed++;
    }
    return confirmed ? 1 : 2;
  }
  fprintf(stderr, "usage: vsim run|one|replay|list ...\n");
  return 3;
}
