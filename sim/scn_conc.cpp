// C15: independent work in several threads.  C16: the same work with other
// addresses and declaration orders.
#include "iogen.h"
#include "vara/Configuration/Configuration.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Sampling/SampleSetWriter.h"
#include "world.h"
#include <sys/mman.h>

using namespace sim;
using namespace rm;

namespace solv {
std::string solveSome(uint64_t limit);
}
namespace {
constexpr size_t Room = 1 << 20;
constexpr const char *Shared = "/simfs/shared.xml";

struct Client {
  int id = 0;
  uint32_t steps = 0;
  uint32_t mix = 0; // what it mostly does
  Tape tape;
  std::string out;
  uint32_t maxF = 6;
  void say(const std::string &what, const std::string &s) {
    out += "== " + what + "\n" + s;
    if (out.empty() || out.back() != '\n')
      out += '\n';
  }
  void run();
  void act(world::World &w);
};
std::string show(const vf::FeatureModel &FM) {
  return dump(extract(FM)) + fullDump(FM);
}
std::string loadSome(const std::string &path) {
  auto L = vf::loadFeatureModel(path);
  if (!L)
    return "no model";
  checkSound(*L, "loaded in a thread");
  return show(*L);
}

void Client::act(world::World &w) {
  auto live = w.liveSlots();
  auto txs = w.openTxs();
  uint32_t k = mix == 1   ? choose(8)      // edits
               : mix == 2 ? 8 + choose(5)  // files
               : mix == 3 ? 13 + choose(6) // text and solver
                          : choose(19);
  std::string path = strf(choose(2) ? "/simfs/d/t%d.xml" : "/simfs/t%d.xml", id);
  if (k < 13 && live.empty()) {
    w.addModel();
    return;
  }
  switch (k) {
  case 0:
    if (live.size() < 3) {
      int s = w.addModel();
      if (s >= 0)
        say("build", show(*w.slots[s]->fm));
    }
    break;
  case 1:
  case 2:
    if (txs.empty())
      w.open(pick(live), choose(2));
    else
      for (uint32_t n = range(1, 4); n--;)
        w.request(*w.txs[pick(txs)]);
    break;
  case 3:
    if (!txs.empty()) {
      w.commit(pick(txs));
      say("commit", "");
    }
    break;
  case 4: {
    int s = pick(live);
    w.helper(s);
    say("helper", show(*w.slots[s]->fm));
    break;
  }
  case 5: {
    if (live.size() > 3)
      break;
    w.cloneSlot(pick(live));
    say("clone", show(*w.slots.back()->fm));
    break;
  }
  case 6: {
    auto &a = *w.slots[pick(live)], &b = *w.slots[pick(live)];
    phase("merge in a thread");
    auto M = vf::mergeFeatureModels(*a.fm, *b.fm, choose(2));
    say("merge", M ? show(*M) : "nothing");
    break;
  }
  case 7:
    if (live.size() > 1) {
      int s = pick(live);
      if (!w.slotBusy(s))
        w.dropSlot(s);
    }
    break;
  case 8:
  case 9: {
    auto &s = *w.slots[pick(live)];
    phase("save in a thread");
    int rc = vf::FeatureModelXmlWriter(*s.fm).writeFeatureModel(path);
    std::string bytes;
    {
      sched::Hold h;
      bytes = disk::get(path);
    }
    say("save", strf("%d\n", rc) + bytes);
    phase("load in a thread");
    say("load", loadSome(path));
    break;
  }
  case 10: {
    auto &s = *w.slots[pick(live)];
    phase("save to a string in a thread");
    auto t = vf::FeatureModelXmlWriter(*s.fm).writeFeatureModel();
    say("string", t ? *t : "none");
    break;
  }
  case 11: {
    phase("load of a shared file in a thread");
    bool v = vf::verifyFeatureModel(Shared);
    say("shared", (v ? "valid\n" : "invalid\n") + loadSome(Shared));
    break;
  }
  case 12: {
    RModel m;
    Gen g;
    g.maxF = 6;
    bool sx = choose(2);
    std::string t;
    if (sx)
      t = io::sxfmDoc(m, 6);
    else {
      g.xmlRoot = g.xmlOnly = true;
      g.partialLocs = false;
      m = gen(g);
      t = io::xmlDoc(m);
      if (choose(3) == 0) {
        bool must;
        io::damageXml(t, m, must);
      }
    }
    phase("parse in a thread");
    std::unique_ptr<vf::FeatureModel> FM;
    bool v;
    if (sx) {
      FM = vf::FeatureModelSxfmParser(t).buildFeatureModel();
      v = bool(vf::FeatureModelSxfmParser(t).verifyFeatureModel());
    } else {
      FM = vf::FeatureModelXmlParser(t).buildFeatureModel();
      v = bool(vf::FeatureModelXmlParser(t).verifyFeatureModel());
    }
    say(sx ? "sxfm" : "xml", (v ? "valid\n" : "invalid\n") +
                                 (FM ? show(*FM) : std::string("no model")));
    break;
  }
  case 13: {
    RModel m = gen(w.g);
    std::string r;
    for (uint32_t n = range(1, 4); n--;) {
      auto c = genCon(w.g, m);
      std::string t = text(c.e);
      if (choose(6) == 0)
        t += choose(2) ? " )" : " &";
      phase("constraint in a thread");
      auto C = vf::ConstraintParser(t).buildConstraint();
      r += t + " => " + (C ? C->toString() + "#" + C->toHTML() : "none") + "\n";
      if (C)
        r += C->clone()->toString() + "\n";
    }
    say("constraints", r);
    break;
  }
  case 14: {
    std::string r;
    for (uint32_t n = range(1, 3); n--;) {
      Feat f = genFeat(w.g, "n");
      std::string t = f.hasStep ? f.step.text() : "x + 2";
      if (choose(6) == 0)
        t += " +";
      phase("step function in a thread");
      auto S = vf::StepFunctionParser(t).buildStepFunction();
      r += t + (S ? strf(" %.17g %.17g", (*S)(1), (*S)(7.5)) : " none") + "\n";
    }
    say("steps", r);
    break;
  }
  case 15: {
    phase("configuration in a thread");
    vara::feature::Configuration C;
    for (uint32_t n = range(0, 5); n--;)
      C.setConfigurationOption(strf("o%u", choose(7)),
                               choose(2) ? "true" : strf("%u", choose(100)));
    auto t = C.dumpToString();
    auto D = vf::Configuration::createConfigurationFromString(t);
    say("configuration", t + "\n" + (D ? D->dumpToString() : "none"));
    break;
  }
  case 18: {
    if (live.empty())
      break;
    int i = pick(live);
    if (w.slotBusy(i))
      break;
    auto &s = *w.slots[i];
    std::vector<vf::detail::FeatureVariantTy> L;
    for (auto &kv : s.ref.f)
      if (choose(3) == 1)
        L.push_back(kv.first);
    shuffle(L);
    phase("batch removal");
    auto back = vf::removeFeatures(*s.fm, L, choose(2));
    std::multiset<std::string> names;
    for (auto &v : back)
      names.insert(std::holds_alternative<std::string>(v)
                       ? std::get<std::string>(v)
                       : std::get<vf::Feature *>(v)->getName().str());
    std::string r;
    for (auto &x : names)
      r += x + " ";
    say("removal", r + "\n" + show(*s.fm));
    w.dropSlot(i);
    break;
  }
  default:
    phase("solve in a thread");
    say("solve", solv::solveSome(40));
  }
}
void Client::run() {
  useTape(&tape);
  world::World w;
  w.g.maxF = maxF;
  w.oc.bad = 12;
  for (uint32_t i = 0; i < steps; ++i) {
    act(w);
    step();
  }
  w.finish();
  for (auto &s : w.slots)
    if (s) {
      say("end", show(*s->fm));
      auto t = vf::FeatureModelXmlWriter(*s->fm).writeFeatureModel();
      say("document", t ? *t : "none");
    }
  useTape(nullptr);
}
std::string firstDiff(const std::string &a, const std::string &b,
                      const char *A = "alone", const char *B = "together") {
  size_t i = 0, line = 0, head = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    if (a[i] == '\n') {
      line = i + 1;
      if (a.compare(i + 1, 3, "== ") == 0)
        head = i + 1;
    }
    ++i;
  }
  auto cut = [&](const std::string &s) {
    return s.substr(line, std::min<size_t>(s.find('\n', i) - line, 400));
  };
  return a.substr(head, a.find('\n', head) - head) + "\n  " + A + ": " + cut(a) + "\n  " + B +
         ": " + cut(b);
}

// What body returns in a process of its own; the disk stays as it was.
std::string apart(const std::function<std::string()> &body) {
  static char *shm = (char *)mmap(nullptr, Room, PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string shared = disk::get(Shared);
  disk::runUntilCrash([&] {
    std::string o = body();
    size_t k = std::min(o.size(), Room - 8);
    memcpy(shm, &k, 8);
    memcpy(shm + 8, o.data(), k);
  });
  size_t k;
  memcpy(&k, shm, 8);
  disk::reset();
  disk::put(Shared, shared);
  return std::string(shm + 8, k);
}

void c15() {
  world::setupHeap();
  disk::reset();
  uint32_t n = range(2, thorough() ? 5 : 4);
  std::vector<Client> cs(n);
  {
    Gen g;
    g.maxF = 6;
    g.xmlRoot = g.xmlOnly = true;
    g.partialLocs = false;
    RModel m = gen(g);
    disk::put(Shared, io::xmlDoc(m));
  }
  uint32_t same = choose(4); // 1: all do the same; 2: the same kind of work
  uint32_t kind = choose(4);
  for (uint32_t i = 0; i < n; ++i) {
    Client &c = cs[i];
    c.id = (int)i;
    if (i && same == 1) {
      c.steps = cs[0].steps;
      c.mix = cs[0].mix;
      c.tape = cs[0].tape;
      continue;
    }
    c.steps = range(1, thorough() ? 14 : 7);
    c.mix = same == 2 ? kind : choose(4);
    uint32_t len = 40u << choose(5);
    for (uint32_t k = 0; k < len; ++k)
      c.tape.v.push_back(choose(1 << 20));
  }
  static const uint32_t Gaps[] = {1 << 18, 1 << 15, 1 << 12, 1 << 9};
  uint32_t gap = Gaps[choose(4)];
  auto go = [] {
    disk::Faults f;
    f.shortRead = f.eintrRead = f.shortWrite = f.eintrWrite = f.eintrOpen = 100;
    disk::setFaults(f);
    z3s::Cfg z;
    z.randomModel = 300;
    z3s::setup(z);
  };
  // each alone, in a process of its own that starts from the same state
  std::vector<std::string> want;
  for (auto &c : cs)
    want.push_back(apart([&] {
      go();
      c.run();
      return c.out;
    }));
  logf("%u threads, gap %u", n, gap);
  go();
  std::vector<std::function<void()>> bodies;
  for (auto &c : cs)
    bodies.push_back([&c] { c.run(); });
  phase("threads");
  sched::run(bodies, gap);
  disk::clearFaults();
  size_t bytes = 0;
  for (uint32_t i = 0; i < n; ++i) {
    auto got = cs[i].out.substr(0, Room - 8);
    bytes += got.size();
    if (got != want[i])
      violate("threads:differs",
              "thread %u of %u obtains another result than alone, in %s", i, n,
              firstDiff(want[i], got).c_str());
  }
  if (disk::openHandles())
    violate("threads:leak", "files left open");
  count("sched.switches", sched::switches());
  state(R->sched);
  summary(strf("%u threads, %llu switches, %zu bytes of results", n,
               (unsigned long long)sched::switches(), bytes));
  if (sched::switches() < 2)
    discard();
}
Reg r15("C15", "at least two switches between threads took place", c15);

// ---- C16 ---------------------------------------------------------------------
void c16() {
  disk::reset();
  world::setupHeap();
  Client c;
  {
    Gen g;
    g.maxF = 8;
    g.xmlRoot = g.xmlOnly = true;
    g.partialLocs = false;
    RModel m = gen(g);
    disk::put(Shared, io::xmlDoc(m));
  }
  c.steps = range(1, thorough() ? 24 : 12);
  c.mix = choose(5);
  uint32_t len = 40u << choose(6);
  for (uint32_t k = 0; k < len; ++k)
    c.tape.v.push_back(choose(1 << 20));
  c.maxF = thorough() ? 12 : 8;
  uint32_t n = range(2, thorough() ? 5 : 3);
  std::string first;
  for (uint32_t i = 0; i < n; ++i) {
    logf("layout %u", i);
    auto got = apart([&] {
      if (i)
        world::setupHeap();
      rm::orderFromMain = true;
      z3s::Cfg z;
      z.randomModel = i ? 500 : 0;
      z3s::setup(z);
      c.run();
      return c.out;
    });
    step();
    if (!i)
      first = got;
    else if (got != first)
      violate("layout:differs",
              "the same work gives another result with other addresses and "
              "declaration orders, in %s",
              firstDiff(first, got, "first", "now").c_str());
  }
  state(hashStr(first));
  summary(strf("%u layouts, %zu bytes of results", n, first.size()));
  if (first.size() < 200)
    discard();
}
Reg r16("C16", "the work has at least 200 bytes of results", c16);
} // namespace
