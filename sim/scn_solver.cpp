// C12-C14: enumeration of configurations, a solver that gives up, interleaved
// enumerations and additions.
#include "iogen.h"
#include "vara/Configuration/Configuration.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
#include "vara/Solver/Z3Solver.h"
#include "world.h"
#include <algorithm>

using namespace sim;
using namespace rm;
namespace vs = vara::solver;

namespace solv {
// Numeric features are leaves outside of groups: everything else is not
// supported by the solver interface (see DESIGN.md).
void tame(RModel &m) {
  for (auto &kv : m.f) {
    Feat &F = kv.second;
    if (F.kind == FK::FK_ROOT)
      continue;
    while (m.f.at(F.parent).kind == FK::FK_NUMERIC) {
      F.parent = m.f.at(F.parent).parent;
      F.inGroup = false;
    }
    if (F.kind == FK::FK_NUMERIC)
      F.inGroup = false;
  }
  for (auto it = m.g.begin(); it != m.g.end();)
    it = m.grouped(it->first).empty() ? m.g.erase(it) : std::next(it);
}
// A boolean negation may be written "~" as well as "!".
static ExprP negs(const ExprP &e) {
  if (e->k == CK::CK_FEATURE || e->k == CK::CK_INTEGER)
    return e;
  if (!e->r) {
    auto a = negs(e->l);
    return mkU(e->k == CK::CK_NOT && chance(1, 4) ? CK::CK_NEG : e->k, a);
  }
  auto a = negs(e->l), b = negs(e->r);
  return mkB(e->k, a, b);
}
static ExprP noNegs(const ExprP &e) { // inverse, on boolean expressions
  if (e->k == CK::CK_FEATURE || e->k == CK::CK_INTEGER)
    return e;
  if (!e->r)
    return mkU(CK::CK_NOT, noNegs(e->l));
  return mkB(e->k, noNegs(e->l), noNegs(e->r));
}
static void deNeg(RModel &m) {
  for (auto &c : m.cons)
    if (c.cls == 0)
      c.e = noNegs(c.e);
}
// What was really built, with the step functions it was built from.
RModel observed(const vf::FeatureModel &FM, const RModel &old) {
  RModel r = extract(FM);
  for (auto &kv : r.f) {
    auto it = old.f.find(kv.first);
    if (it == old.f.end())
      continue;
    kv.second.hasStep = it->second.hasStep;
    kv.second.step = it->second.step;
  }
  deNeg(r);
  return r;
}
static Gen solverGen() {
  Gen g;
  g.maxF = thorough() ? 9 : 6;
  g.emptyGroups = false;
  g.division = false;
  g.locs = false;
  g.meta = false;
  return g;
}
RModel genSolverModel(uint64_t limit, std::set<Config> &want) {
  Gen g = solverGen();
  uint32_t again = choose(8) ? 3 : 0; // unsatisfiable models are less interesting
  for (;;) {
    RModel m = gen(g);
    tame(m);
    bool neg = chance(1, 4);
    want.clear();
    if (enumerate(m, want, limit)) {
      if (want.size() < 2 && again) {
        --again;
        continue;
      }
      if (neg)
        for (auto &c : m.cons)
          if (c.cls == 0)
            c.e = negs(c.e);
      return m;
    }
    g.maxF = g.maxF > 1 ? g.maxF - 1 : 1;
    g.numeric = g.numeric && g.maxF > 3;
  }
}
static Config configOf(vf::Configuration &C) {
  Config r;
  for (auto &O : C)
    r[O.getValue()->name().str()] = O.getValue()->asString();
  size_t n = 0;
  const auto &K = C;
  for (auto &O : K)
    n += r.count(O.getValue()->name().str());
  if (n != r.size())
    violate("solver:const-iteration",
            "%zu of %zu options seen by an iteration over a constant "
            "configuration",
            n, r.size());
  for (auto &kv : r) {
    auto v = C.configurationOptionValue(kv.first);
    if (!v || *v != kv.second)
      violate("solver:option-value", "option %s reads '%s', listed as '%s'",
              kv.first.c_str(), v ? v->c_str() : "-", kv.second.c_str());
  }
  return r;
}
static std::string setStr(const std::set<Config> &s) {
  std::string r;
  size_t n = 0;
  for (auto &c : s) {
    if (++n > 12) {
      r += "  ...\n";
      break;
    }
    r += "  " + configStr(c) + "\n";
  }
  return r;
}
void z3setup(bool giveUps) {
  z3s::Cfg c;
  switch (choose(3)) {
  case 0:
    break;
  case 1:
    c.randomModel = 300;
    break;
  default:
    c.randomModel = 900;
  }
  if (giveUps)
    switch (choose(4)) {
    case 0:
      c.giveUpAt = choose(12);
      c.giveUpLen = 1;
      break;
    case 1:
      c.giveUpAt = choose(8);
      c.giveUpLen = range(2, 6);
      break;
    case 2:
      c.giveUp = 100;
      break;
    default:
      c.giveUp = 500;
    }
  z3s::setup(c);
}
static const char *errName(vs::SolverErrorCode e) {
  switch (e) {
  case vs::NOT_IMPLEMENTED: return "NOT_IMPLEMENTED";
  case vs::NOT_SUPPORTED: return "NOT_SUPPORTED";
  case vs::UNSAT: return "UNSAT";
  case vs::ALREADY_PRESENT: return "ALREADY_PRESENT";
  case vs::NOT_ALL_CONSTRAINTS_PROCESSED: return "NOT_ALL";
  case vs::PARENT_NOT_PRESENT: return "PARENT_NOT_PRESENT";
  case vs::ILLEGAL_STATE: return "ILLEGAL_STATE";
  default: return "UNDECIDED or unknown";
  }
}

// ---- one-shot queries -----------------------------------------------------------------
// Each is compared with the reference set; g: did the solver give up in it.
static void checkList(const char *what, const std::vector<Config> &got,
                      const std::set<Config> &want, bool all, size_t n,
                      const RModel &m) {
  std::set<Config> seen;
  for (auto &c : got) {
    if (!want.count(c))
      violate("solver:unsound", "%s yields a configuration the model forbids: "
              "%s\n%s", what, configStr(c).c_str(), dump(m).c_str());
    if (!seen.insert(c).second)
      violate("solver:duplicate", "%s yields a configuration twice: %s\n%s",
              what, configStr(c).c_str(), dump(m).c_str());
  }
  size_t need = all ? want.size() : std::min(n, want.size());
  if (got.size() != need)
    violate("solver:incomplete",
            "%s yields %zu configurations instead of %zu; expected:\n%s%s", what,
            got.size(), need, setStr(want).c_str(), dump(m).c_str());
}
static void oneShot(vf::FeatureModel &FM, const std::set<Config> &want,
                    const RModel &m, uint32_t kind) {
  uint64_t g0 = z3s::gaveUp();
  auto gave = [&] { return z3s::gaveUp() != g0; };
  auto refused = [&](const char *what, vs::SolverErrorCode e) {
    if (gave()) {
      if (e == vs::UNSAT)
        violate("solver:gave-up-as-unsat",
                "%s claims that there is no configuration after the solver "
                "gave up", what);
      count("query.reported-give-up");
      return;
    }
    // Fewer than N configurations are no error, getAllConfigs says so of none.
    if (e != vs::UNSAT || !want.empty() || kind == 2)
      violate("solver:spurious-error", "%s fails with %s, %zu configurations "
              "exist:\n%s", what, errName(e), want.size(), dump(m).c_str());
  };
  switch (kind) {
  case 0: {
    phase("getAllConfigs");
    auto R = vs::ConfigurationFactory::getAllConfigs(FM);
    if (!R)
      return refused("getAllConfigs", R.getError());
    if (gave())
      violate("solver:gave-up-hidden",
              "getAllConfigs succeeds although the solver gave up");
    std::vector<Config> got;
    for (auto &c : R.extractValue())
      got.push_back(configOf(*c));
    checkList("getAllConfigs", got, want, true, 0, m);
    break;
  }
  case 1: {
    phase("getNumConfigs");
    auto R = vs::ConfigurationFactory::getNumConfigs(FM);
    if (!R)
      return refused("getNumConfigs", R.getError());
    if (gave())
      violate("solver:gave-up-hidden",
              "getNumConfigs succeeds although the solver gave up");
    uint64_t n = R.extractValue();
    if (n != want.size())
      violate("solver:count", "getNumConfigs says %llu instead of %zu:\n%s%s",
              (unsigned long long)n, want.size(), setStr(want).c_str(),
              dump(m).c_str());
    break;
  }
  case 2: {
    uint32_t n = choose(4) ? choose(6) : choose(2) * 100000 +
                                             (uint32_t)want.size();
    phase("getNConfigs");
    auto R = vs::ConfigurationFactory::getNConfigs(FM, n);
    if (!R)
      return refused("getNConfigs", R.getError());
    if (gave() && !want.empty() && n) // else: it was settled before
      violate("solver:gave-up-hidden",
              "getNConfigs succeeds although the solver gave up");
    std::vector<Config> got;
    for (auto &c : R.extractValue())
      got.push_back(configOf(*c));
    checkList("getNConfigs", got, want, false, n, m);
    break;
  }
  default: {
    phase("isValid");
    bool v = vs::ConfigurationFactory::isValid(FM);
    if (v && (want.empty() || gave()))
      violate("solver:is-valid", "isValid says yes, %zu configurations exist%s"
              "\n%s", want.size(), gave() ? ", the solver gave up" : "",
              dump(m).c_str());
    if (!v && !want.empty() && !gave())
      violate("solver:is-valid", "isValid says no, %zu configurations exist:\n"
              "%s", want.size(), dump(m).c_str());
  }
  }
}

// ---- the state of a solver, independently of the library ---------------------------------
struct Var {
  std::string name;
  bool boolean = true;
  std::vector<int64_t> dom{0, 1};
};
struct SRef {
  std::vector<Var> vars;
  std::vector<RModel> models; // tree, groups and constraints of what was added
  std::vector<Con> cons;
  std::set<std::string> have;
  struct Tree { std::string f, parent; bool opt, root; };
  std::vector<Tree> tree;
  struct Grp { std::string parent; std::vector<std::string> ch; bool alt; };
  std::vector<Grp> grps;
  std::vector<Config> out; // delivered; over the variables of that time

  const Var *var(const std::string &n) const {
    for (auto &v : vars)
      if (v.name == n)
        return &v;
    return nullptr;
  }
  uint64_t space() const {
    unsigned __int128 t = 1;
    for (auto &v : vars) {
      t *= std::max<size_t>(1, v.dom.size());
      if (t > (1u << 20))
        return 1u << 20;
    }
    return (uint64_t)t;
  }
  void addFeat(const Feat &F, bool root) {
    Var v;
    v.name = F.name;
    if (F.kind == FK::FK_NUMERIC) {
      v.boolean = false;
      v.dom = domain(F);
    } else
      tree.push_back({F.name, F.parent, F.opt || F.inGroup, root});
    vars.push_back(v);
    have.insert(F.name);
  }
  void addGrp(const RModel &m, const std::string &p) {
    grps.push_back({p, m.grouped(p), m.g.at(p).kind == RK::RK_ALTERNATIVE});
  }
  void addModel(const RModel &m) {
    for (auto &n : m.dfs())
      addFeat(m.f.at(n), n == m.root);
    for (auto &kv : m.g)
      addGrp(m, kv.first);
    for (auto &c : m.cons)
      cons.push_back(c);
  }
  static std::string show(const Var &v, int64_t x) {
    return v.boolean ? (x ? "true" : "false") : strf("%lld", (long long)x);
  }
  // everything that may still be delivered
  std::set<Config> rest() const {
    std::set<Config> r;
    std::map<std::string, int64_t> s;
    auto isB = [&](const std::string &n) { return var(n)->boolean; };
    std::function<void(size_t)> go = [&](size_t i) {
      if (i < vars.size()) {
        for (auto x : vars[i].dom) {
          s[vars[i].name] = x;
          go(i + 1);
        }
        return;
      }
      for (auto &t : tree) {
        if (t.root) {
          if (!s[t.f])
            return;
          continue;
        }
        if (s[t.f] && !s[t.parent])
          return;
        if (!s[t.f] && s[t.parent] && !t.opt)
          return;
      }
      for (auto &g : grps) {
        if (!s[g.parent])
          continue;
        size_t n = 0;
        for (auto &c : g.ch)
          n += s[c] != 0;
        if (n == 0 || (g.alt && n != 1))
          return;
      }
      for (auto &c : cons)
        if (!holds(c, s, isB))
          return;
      Config cfg;
      for (auto &v : vars)
        cfg[v.name] = show(v, s[v.name]);
      for (auto &o : out) {
        bool same = true;
        for (auto &kv : o)
          same &= cfg.at(kv.first) == kv.second;
        if (same)
          return;
      }
      r.insert(cfg);
    };
    go(0);
    return r;
  }
};

// ---- a running enumeration -------------------------------------------------------------
struct Enum {
  std::unique_ptr<vs::Solver> s;                        // direct
  std::unique_ptr<vs::ConfigurationIterable> it;        // lazy iterator
  std::unique_ptr<vs::ConfigurationIterable::ConfigurationIterator> pos;
  SRef ref;
  std::set<Config> left; // what is still to come
  bool has = false;      // a current configuration exists
  Config cur;
  bool ended = false;    // the iterator is at its end
  bool pendErr = false;  // the iterator is at an error element
  bool fresh = true;     // iterator: nothing requested yet
  int id = 0;
  void refresh() { left = ref.rest(); }
};

struct Game {
  bool giveUps = false;
  std::vector<std::unique_ptr<Enum>> en;
  int nextId = 0;
  uint64_t delivered = 0, ended = 0, additions = 0;

  void take(Enum &e, const Config &c, const char *what) {
    if (!e.left.count(c)) {
      bool dup = false;
      for (auto &o : e.ref.out)
        dup |= o == c;
      violate(dup ? "solver:duplicate" : "solver:unsound",
              "enumeration %d, %s: %s a configuration %s; possible:\n%s", e.id,
              what, configStr(c).c_str(),
              dup ? "was delivered before" : "is not admissible",
              setStr(e.left).c_str());
    }
    e.left.erase(c);
    e.ref.out.push_back(c);
    e.has = true;
    e.cur = c;
    delivered++;
    logf("enum %d: %s -> %s", e.id, what, configStr(c).c_str());
  }
  // A query failed: right only if the solver gave up or nothing is left.
  void failed(Enum &e, vs::SolverErrorCode c, bool gave, const char *what) {
    logf("enum %d: %s -> error %s", e.id, what, errName(c));
    if (gave) {
      count("query.reported-give-up");
      if (c == vs::UNSAT)
        violate("solver:gave-up-as-unsat",
                "enumeration %d, %s: claims the end although the solver gave up",
                e.id, what);
      return;
    }
    if (c != vs::UNSAT)
      violate("solver:spurious-error", "enumeration %d, %s fails with %s", e.id,
              what, errName(c));
    if (!e.left.empty())
      violate("solver:incomplete",
              "enumeration %d, %s: claims the end, but is missing:\n%s", e.id,
              what, setStr(e.left).c_str());
    ended++;
  }
  void next(Enum &e) {
    phase("next configuration");
    uint64_t g0 = z3s::gaveUp();
    auto R = e.s->getNextConfiguration();
    bool gave = z3s::gaveUp() != g0;
    if (!R)
      return failed(e, R.getError(), gave, "next");
    if (gave)
      violate("solver:gave-up-hidden",
              "enumeration %d: a configuration is returned although the solver "
              "gave up", e.id);
    take(e, configOf(*R.extractValue()), "next");
  }
  void current(Enum &e) {
    for (uint32_t n = range(1, 3); n--;) {
      phase("current configuration");
      uint64_t g0 = z3s::gaveUp();
      auto R = e.s->getCurrentConfiguration();
      bool gave = z3s::gaveUp() != g0;
      if (!R) {
        if (e.has)
          violate("solver:current", "enumeration %d: the current configuration "
                  "cannot be read", e.id);
        failed(e, R.getError(), gave, "first");
        continue;
      }
      if (gave && !e.has)
        violate("solver:gave-up-hidden", "enumeration %d: a configuration is "
                "returned although the solver gave up", e.id);
      auto c = configOf(*R.extractValue());
      if (!e.has)
        take(e, c, "first");
      else if (c != e.cur)
        violate("solver:current", "enumeration %d: the current configuration "
                "changed from\n  %s\nto\n  %s", e.id,
                configStr(e.cur).c_str(), configStr(c).c_str());
    }
  }
  void valid(Enum &e) {
    phase("has valid configurations");
    uint64_t g0 = z3s::gaveUp();
    auto R = e.s->hasValidConfigurations();
    bool gave = z3s::gaveUp() != g0;
    if (!R) {
      auto c = R.getError();
      if (gave ? c == vs::UNSAT : !(e.has && c == vs::ILLEGAL_STATE))
        violate("solver:has-valid", "enumeration %d: hasValidConfigurations "
                "fails with %s", e.id, errName(c));
      if (gave)
        count("query.reported-give-up");
      return;
    }
    bool v = R.extractValue();
    if (gave)
      violate("solver:gave-up-hidden", "enumeration %d: hasValidConfigurations "
              "answers although the solver gave up", e.id);
    if (v != !(e.left.empty() && (e.has || e.ref.out.empty())))
      violate("solver:has-valid",
              "enumeration %d: hasValidConfigurations says %s, left:\n%s", e.id,
              v ? "yes" : "no", setStr(e.left).c_str());
  }
  void deref(Enum &e) {
    phase("dereference iterator");
    uint64_t g0 = z3s::gaveUp();
    auto R = **e.pos;
    bool gave = z3s::gaveUp() != g0;
    if (!R) {
      if (e.pendErr)
        return;
      if (e.has && !e.fresh)
        violate("solver:iterator", "enumeration %d: the element of the iterator "
                "turned into an error", e.id);
      failed(e, R.getError(), gave, "iterator");
      e.pendErr = true;
      e.fresh = false;
      return;
    }
    if (e.pendErr)
      violate("solver:iterator",
              "enumeration %d: an error element turned into a configuration",
              e.id);
    if (gave)
      violate("solver:gave-up-hidden", "enumeration %d: the iterator yields a "
              "configuration although the solver gave up", e.id);
    auto c = configOf(*R.extractValue());
    if (e.fresh) {
      take(e, c, "iterator");
      e.fresh = false;
    } else if (c != e.cur)
      violate("solver:current", "enumeration %d: the element of the iterator "
              "changed", e.id);
  }
  void advance(Enum &e) {
    phase("advance iterator");
    bool hadErr = e.pendErr;
    bool skip = e.fresh && !e.has && !e.pendErr; // first element unseen
    uint64_t g0 = z3s::gaveUp(), c0 = z3s::checks();
    ++*e.pos;
    bool gave = z3s::gaveUp() != g0;
    (void)c0;
    bool end = *e.pos == e.it->end();
    if (end) {
      e.ended = true;
      ended++;
      logf("enum %d: iterator at its end", e.id);
      size_t unseen = skip && !e.left.empty() ? 1 : 0;
      if (gave)
        count("query.reported-give-up");
      if (!gave && e.left.size() > unseen)
        violate("solver:incomplete", "enumeration %d: the iteration ends, but is "
                "missing %zu:\n%s", e.id, e.left.size() - unseen,
                setStr(e.left).c_str());
      if (gave && !hadErr && !skip)
        violate("solver:gave-up-hidden", "enumeration %d: the iteration ends "
                "without an error after the solver gave up", e.id);
      return;
    }
    // where are we?  The element tells; an unseen first one is lost.
    auto R = **e.pos;
    if (skip) {
      // one configuration went by unseen, unless the solver gave up
      e.fresh = false;
      if (!R) {
        e.pendErr = true;
        if (!gave)
          violate("solver:iterator", "enumeration %d: error without a reason",
                  e.id);
        e.ended = true; // which ones were delivered is not observable
        return;
      }
      // a configuration: it must be admissible; the skipped one is unknown
      auto c = configOf(*R.extractValue());
      if (!e.left.count(c))
        violate("solver:unsound", "enumeration %d: %s is not admissible", e.id,
                configStr(c).c_str());
      size_t rest = e.left.size() - 1 - (gave ? 0 : 1), n = 0;
      std::set<Config> seen{c};
      if (!giveUps) {
        for (++*e.pos; *e.pos != e.it->end(); ++*e.pos) {
          auto Q = **e.pos;
          if (!Q)
            violate("solver:iterator", "enumeration %d: error without a reason",
                    e.id);
          auto d = configOf(*Q.extractValue());
          if (!e.left.count(d) || !seen.insert(d).second)
            violate("solver:unsound",
                    "enumeration %d: %s is not admissible or a duplicate", e.id,
                    configStr(d).c_str());
          n++;
        }
        if (n != rest)
          violate("solver:incomplete", "enumeration %d: %zu configurations after "
                  "skipping one, not %zu", e.id, n + 1, rest + 1);
      }
      e.ended = true;
      return;
    }
    if (!R) {
      e.pendErr = true;
      e.fresh = false;
      if (!gave)
        violate("solver:spurious-error",
                "enumeration %d: the iterator is at an error (%s)", e.id,
                errName(R.getError()));
      if (R.getError() == vs::UNSAT)
        violate("solver:gave-up-as-unsat", "enumeration %d: the iterator claims "
                "the end although the solver gave up", e.id);
      count("query.reported-give-up");
      return;
    }
    if (gave)
      violate("solver:gave-up-hidden", "enumeration %d: the iterator yields a "
              "configuration although the solver gave up", e.id);
    e.pendErr = false;
    take(e, configOf(*R.extractValue()), "advance");
    e.fresh = false;
  }
  void stepEnum(Enum &e) {
    step();
    if (e.s) {
      switch (choose(8)) {
      case 0:
      case 1:
        current(e);
        break;
      case 2:
        valid(e);
        break;
      default:
        next(e);
      }
    } else if (!e.ended) {
      if (choose(3) == 0)
        deref(e);
      else if (!(e.fresh && choose(8))) // skipping the first is rare
        advance(e);
      else
        deref(e);
    }
  }
  // runs it to the end; with give-ups the solver recovers first
  void drain(Enum &e) {
    if (e.s) {
      size_t n = e.left.size();
      for (size_t i = 0; i <= n; ++i)
        next(e);
      if (!giveUps && !e.left.empty())
        violate("solver:incomplete", "enumeration %d: %zu missing", e.id,
                e.left.size());
    } else {
      for (size_t guard = e.left.size() + 4; !e.ended && guard; --guard) {
        if (e.fresh)
          deref(e);
        else
          advance(e);
      }
      if (!giveUps && !e.ended)
        violate("solver:iterator", "enumeration %d does not end", e.id);
    }
  }
  Enum &add(vf::FeatureModel &FM, const RModel &m) {
    auto e = std::make_unique<Enum>();
    e->id = nextId++;
    phase("start enumeration");
    if (choose(3)) {
      e->s = vs::SolverFactory::initializeSolver(FM, vs::SolverType::Z3);
    } else {
      e->it.reset(new vs::ConfigurationIterable(
          vs::ConfigurationFactory::getConfigIterator(FM)));
      e->pos = std::make_unique<vs::ConfigurationIterable::ConfigurationIterator>(
          e->it->begin());
    }
    e->ref.addModel(m);
    e->refresh();
    logf("enum %d starts (%s): %zu configurations", e->id,
         e->s ? "solver" : "iterator", e->left.size());
    en.push_back(std::move(e));
    return *en.back();
  }
};

// For the thread scenario: solve one model in every way; the answers as text.
std::string solveSome(uint64_t limit) {
  std::set<Config> want;
  RModel m = genSolverModel(limit, want);
  auto FM = build(m);
  if (!FM)
    return "refused";
  RModel ref = observed(*FM, m);
  Game G;
  for (uint32_t n = range(1, 2); n--;) {
    uint32_t k = choose(6);
    if (k < 4)
      oneShot(*FM, want, ref, k);
    else
      G.drain(G.add(*FM, ref));
  }
  std::string r = strf("%zu configurations\n", want.size());
  for (auto &c : want)
    r += configStr(c) + "\n";
  return r;
}

// ---- C12 ------------------------------------------------------------------------------
static void c12() {
  world::setupHeap();
  z3setup(false);
  std::set<Config> want;
  RModel m = genSolverModel(thorough() ? 2000 : 300, want);
  auto FM = build(m);
  if (!FM)
    return discard();
  RModel ref = observed(*FM, m);
  Game G;
  for (uint32_t n = range(1, 3); n--;) {
    uint32_t k = choose(6);
    step();
    if (k < 4)
      oneShot(*FM, want, ref, k);
    else {
      auto &e = G.add(*FM, ref);
      if (e.left != want)
        violate("harness:reference", "the two references differ:\n%s",
                dump(ref).c_str());
      G.drain(e);
    }
  }
  auto d = diff(ref, observed(*FM, m));
  if (!d.empty())
    violate("solver:changed-model", "queries changed the model:%s", d.c_str());
  state(mix(shapeHash(ref), want.size()));
  summary(strf("%zu features, %zu constraints, %zu configurations", m.f.size(),
               m.cons.size(), want.size()));
  if (m.f.size() < 2)
    discard();
}
static Reg r12("C12", "the model has at least one feature besides the root", c12);

// ---- C13 ------------------------------------------------------------------------------
static void c13() {
  world::setupHeap();
  z3setup(true);
  std::set<Config> want;
  RModel m = genSolverModel(thorough() ? 400 : 100, want);
  auto FM = build(m);
  if (!FM)
    return discard();
  RModel ref = observed(*FM, m);
  Game G;
  G.giveUps = true;
  for (uint32_t n = range(1, 3); n--;)
    if (choose(2))
      oneShot(*FM, want, ref, choose(4));
    else {
      auto &e = G.add(*FM, ref);
      for (uint32_t k = range(1, 12); k--;)
        G.stepEnum(e);
    }
  uint64_t gave = z3s::gaveUp();
  if (choose(3) == 0) { // it does not recover: loops end nevertheless
    z3s::Cfg never;
    never.giveUpAt = 0;
    never.giveUpLen = INT32_MAX;
    z3s::setup(never);
    for (auto &e : G.en)
      if (e->it) {
        for (uint32_t k = 0; k < 8 && !e->ended; ++k)
          G.advance(*e);
        if (!e->ended)
          violate("solver:endless", "enumeration %d: the iteration does not end "
                  "although the solver gives up again and again", e->id);
      }
    gave += z3s::gaveUp();
  }
  z3s::setup(z3s::Cfg()); // the solver recovers
  G.giveUps = false;
  for (auto &e : G.en)
    if (!(e->it && e->ended))
      G.drain(*e);
  for (uint32_t k = 0; k < 4; ++k)
    if (choose(2))
      oneShot(*FM, want, ref, k);
  state(mix(mix(shapeHash(ref), want.size()), gave));
  summary(strf("%zu features, %zu configurations, gave up %llu times",
               m.f.size(), want.size(), (unsigned long long)gave));
  if (!gave)
    discard();
}
static Reg r13("C13", "the solver gave up at least once", c13);

// ---- C14 ------------------------------------------------------------------------------
static RModel renamed(const RModel &m, const std::string &sfx) {
  RModel r = m;
  auto nn = [&](const std::string &n) { return n == m.root ? n : n + sfx; };
  r.f.clear();
  r.g.clear();
  for (auto &kv : m.f) {
    Feat F = kv.second;
    F.name = nn(F.name);
    if (!F.parent.empty())
      F.parent = nn(F.parent);
    r.f[F.name] = F;
  }
  for (auto &kv : m.g)
    r.g[nn(kv.first)] = kv.second;
  for (auto &c : r.cons)
    for (auto &kv : m.f)
      if (kv.first != m.root)
        c.e = renameIn(c.e, kv.first, "\x01" + kv.first);
  for (auto &c : r.cons)
    for (auto &kv : m.f)
      if (kv.first != m.root)
        c.e = renameIn(c.e, "\x01" + kv.first, nn(kv.first));
  return r;
}
static void addConSolver(vs::Solver &S, const Con &c, bool want, Enum &e) {
  auto K = realExpr(c.e);
  using MC = vf::FeatureModel::MixedConstraint;
  bool ok = c.cls == 2
                ? bool(S.addMixedConstraint(
                      *K, c.neg ? MC::ExprKind::NEG : MC::ExprKind::POS,
                      c.req ? MC::Req::NONE : MC::Req::ALL))
                : bool(S.addConstraint(*K));
  logf("enum %d: add %s -> %s", e.id, c.str().c_str(), ok ? "ok" : "refused");
  if (ok != want)
    violate("solver:add", "enumeration %d: adding the constraint %s %s", e.id,
            c.str().c_str(),
            ok ? "succeeds although a feature is missing" : "is refused");
}
static constexpr uint64_t MaxSpace = 600;
static void addition(Game &G, Enum &e) {
  phase("add to solver");
  vs::Solver &S = *e.s;
  G.additions++;
  std::vector<std::string> names_(e.ref.have.begin(), e.ref.have.end());
  auto expect = [&](const char *what, bool ok, bool want) {
    logf("enum %d: %s -> %s", e.id, what, ok ? "ok" : "refused");
    if (ok != want)
      violate("solver:add", "enumeration %d: %s %s", e.id, what,
              ok ? "succeeds although it is inadmissible" : "is refused");
  };
  RModel vocab; // names and kinds known to the solver
  for (auto &v : e.ref.vars) {
    Feat F;
    F.name = v.name;
    F.kind = v.boolean ? FK::FK_BINARY : FK::FK_NUMERIC;
    vocab.f[v.name] = F;
  }
  switch (choose(8)) {
  case 0: { // a free boolean
    if (e.ref.space() * 2 > MaxSpace)
      return;
    std::string n = freshName(vocab);
    expect("add a boolean by name", bool(S.addFeature(n)), true);
    Var v;
    v.name = n;
    e.ref.vars.push_back(v);
    e.ref.have.insert(n);
    break;
  }
  case 1: { // a number
    std::string n = freshName(vocab);
    Var v;
    v.name = n;
    v.boolean = false;
    v.dom.clear();
    static const std::vector<int64_t> V = {0, 1, -4, 7, 5000000000ll};
    for (uint32_t k = choose(8) ? range(1, 3) : 0; k--;) {
      auto x = pick(V);
      if (std::find(v.dom.begin(), v.dom.end(), x) == v.dom.end())
        v.dom.push_back(x);
    }
    if (e.ref.space() * std::max<size_t>(1, v.dom.size()) > MaxSpace)
      return;
    expect("add a number by name", bool(S.addFeature(n, v.dom)), true);
    e.ref.vars.push_back(v);
    e.ref.have.insert(n);
    break;
  }
  case 2: { // already there
    if (names_.empty())
      return;
    auto n = pick(names_);
    uint32_t how = choose(3);
    if (how == 0)
      expect("add a known name", bool(S.addFeature(n)), false);
    else if (how == 1)
      expect("add a known name", bool(S.addFeature(n, {3, 4})), false);
    else {
      vf::RootFeature F(n);
      expect("add a known feature", bool(S.addFeature(F)), false);
    }
    break;
  }
  case 3: { // a binary feature without a parent
    vf::BinaryFeature F(freshName(vocab), chance(1, 2));
    expect("add a feature without parent", bool(S.addFeature(F)), false);
    break;
  }
  case 4: { // a constraint over a missing feature
    Con c;
    c.cls = choose(3);
    c.req = choose(2);
    c.neg = choose(2);
    std::vector<std::string> bools;
    for (auto &v : e.ref.vars)
      if (v.boolean)
        bools.push_back(v.name);
    auto gone = mkF(freshName(vocab));
    if (bools.empty())
      c.e = mkU(CK::CK_NOT, gone);
    else {
      auto b = mkF(pick(bools));
      uint32_t h = choose(4);
      c.e = h == 0   ? mkB(CK::CK_EXCLUDES, b, gone)
            : h == 1 ? mkB(CK::CK_IMPLIES, gone, b)
            : h == 2 ? mkU(CK::CK_NOT, mkB(CK::CK_OR, b, gone))
                     : mkB(CK::CK_EQUAL, b, gone);
    }
    addConSolver(S, c, false, e);
    break;
  }
  case 5: { // features, groups and constraints of another model
    std::set<Config> dummy;
    Gen g = solverGen();
    g.maxF = 3;
    RModel m = gen(g);
    tame(m);
    std::string rootName = m.root;
    // attach to the root of the solver, if it has one of that name
    m = renamed(m, strf("_%llu", (unsigned long long)G.additions));
    auto FM = build(m);
    if (!FM)
      return;
    m = observed(*FM, m);
    uint64_t sp = e.ref.space();
    for (auto &n : m.dfs())
      if (n != m.root)
        sp *= m.f.at(n).kind == FK::FK_NUMERIC ? domain(m.f.at(n)).size() : 2;
    if (sp > MaxSpace)
      return;
    auto order = m.dfs();
    if (chance(1, 3))
      shuffle(order);
    std::set<std::string> added;
    for (auto &n : order) {
      const Feat &F = m.f.at(n);
      bool know = e.ref.have.count(n);
      const Var *pv = F.parent.empty() ? nullptr : e.ref.var(F.parent);
      bool ok = !know && (F.parent.empty() || pv);
      if (pv && !pv->boolean)
        continue; // below a number: not supported
      expect(strf("add feature %s", n.c_str()).c_str(),
             bool(S.addFeature(*FM->getFeature(n), F.inGroup)), ok);
      if (ok) {
        e.ref.addFeat(F, F.kind == FK::FK_ROOT);
        added.insert(n);
      }
    }
    const vf::FeatureModel &CFM = *FM;
    for (auto &R : CFM.relationships()) {
      auto *P = llvm::dyn_cast<vf::Feature>(R->getParent());
      std::string p = P->getName().str();
      bool all = e.ref.have.count(p) && e.ref.var(p)->boolean;
      for (auto &c : m.grouped(p))
        all &= added.count(c) > 0;
      expect("add a group", bool(S.addRelationship(*R)), all);
      if (all)
        e.ref.addGrp(m, p);
    }
    for (auto &c : m.cons) {
      std::vector<std::string> ns;
      names(c.e, ns);
      bool all = true;
      for (auto &n : ns)
        all &= e.ref.have.count(n) > 0;
      if (all)
        for (auto &n : ns) // the kinds must fit as well
          all &= e.ref.var(n)->boolean ==
                 (m.f.at(n).kind != FK::FK_NUMERIC);
        else {
          addConSolver(S, c, false, e);
          continue;
        }
      if (!all)
        continue;
      addConSolver(S, c, true, e);
      e.ref.cons.push_back(c);
    }
    break;
  }
  default: { // a constraint
    bool anyBool = false;
    for (auto &v : e.ref.vars)
      anyBool |= v.boolean;
    if (!anyBool)
      return;
    Gen g = solverGen();
    Con c = genCon(g, vocab);
    addConSolver(S, c, true, e);
    e.ref.cons.push_back(c);
  }
  }
  e.refresh();
}
static void c14() {
  world::setupHeap();
  z3setup(false);
  struct M {
    std::unique_ptr<vf::FeatureModel> fm;
    RModel ref;
    std::set<Config> want;
  };
  std::vector<std::unique_ptr<M>> ms;
  uint64_t lim = thorough() ? 200 : 60;
  for (uint32_t n = range(1, 2); n--;) {
    auto x = std::make_unique<M>();
    RModel m = genSolverModel(lim, x->want);
    x->fm = build(m);
    if (!x->fm)
      return discard();
    x->ref = observed(*x->fm, m);
    ms.push_back(std::move(x));
  }
  Game G;
  uint64_t edits = 0, kills = 0;
  if (chance(1, 6)) { // a bare solver
    auto e = std::make_unique<Enum>();
    e->id = G.nextId++;
    if (chance(1, 2)) {
      e->s = vs::SolverFactory::initializeSolver(vs::SolverType::Z3);
      RModel m;
      Feat R;
      R.name = m.root = "root";
      R.kind = FK::FK_ROOT;
      m.f["root"] = R;
      e->ref.addModel(m);
    } else
      e->s = vs::Z3Solver::create();
    e->refresh();
    G.en.push_back(std::move(e));
  } else
    G.add(*ms[0]->fm, ms[0]->ref);
  uint32_t steps = range(4, thorough() ? 60 : 30);
  for (uint32_t i = 0; i < steps; ++i) {
    step();
    uint32_t a = choose(20);
    if (a < 11 && !G.en.empty()) {
      G.stepEnum(*G.en[choose(G.en.size())]);
    } else if (a < 14 && !G.en.empty()) {
      auto &e = *G.en[choose(G.en.size())];
      if (e.s)
        addition(G, e);
    } else if (a == 14 && !ms.empty() && G.en.size() < 4) {
      auto &x = *ms[choose(ms.size())];
      G.add(*x.fm, x.ref);
    } else if (a == 15 && !ms.empty()) {
      auto &x = *ms[choose(ms.size())];
      oneShot(*x.fm, x.want, x.ref, choose(4));
    } else if (a <= 17 && !ms.empty()) { // edit a model
      auto &x = *ms[choose(ms.size())];
      phase("edit model");
      auto T = vf::FeatureModelModifyTransaction::openTransaction(*x.fm);
      if (chance(1, 2)) {
        Gen g = solverGen();
        T.addFeature(std::make_unique<vf::BinaryFeature>(freshName(x.ref),
                                                         chance(1, 2)));
      } else {
        Gen g = solverGen();
        addConTo(T, genCon(g, x.ref));
      }
      if (!T.commit())
        violate("solver:edit", "an edit of a model is refused");
      x.ref = observed(*x.fm, x.ref);
      edits++;
      if (!enumerate(x.ref, x.want, 4096) || x.want.size() > 2 * lim) {
        x.fm.reset();
        for (size_t k = 0; k < ms.size(); ++k)
          if (ms[k].get() == &x) {
            ms.erase(ms.begin() + k);
            break;
          }
        continue;
      }
    } else if (a == 18 && !ms.empty()) { // destroy a model
      phase("destroy model");
      ms.erase(ms.begin() + choose(ms.size()));
      kills++;
    } else if (a == 19 && G.en.size() > 1) { // stop early
      phase("drop enumeration");
      size_t k = choose(G.en.size());
      G.en[k]->pos.reset();
      G.en.erase(G.en.begin() + k);
    }
  }
  for (auto &e : G.en)
    if (chance(2, 3))
      G.drain(*e);
  if (chance(1, 2))
    ms.clear();
  G.en.clear();
  state(mix(mix(G.delivered, G.additions), mix(edits, kills)));
  summary(strf("%d enumerations, %llu configurations, %llu additions, %llu "
               "edits, %llu models destroyed",
               G.nextId, (unsigned long long)G.delivered,
               (unsigned long long)G.additions, (unsigned long long)edits,
               (unsigned long long)kills));
  if (!G.delivered || steps < 5)
    discard();
}
static Reg r14("C14", "at least one configuration was delivered amid other use",
               c14);
} // namespace solv
