// C05-C11: transactions, helpers, clones, merges, batch removal.
#include "iogen.h"
#include "vara/Feature/FeatureModelParser.h"
#include "world.h"
#include <algorithm>

using namespace sim;
using namespace world;

static Gen baseGen() {
  Gen g;
  g.maxF = thorough() ? 12 : 8;
  g.unknown = true;
  return g;
}
static void summarise(const World &w, const char *what) {
  std::string s = what;
  for (auto &sl : w.slots)
    if (sl)
      s += strf(" [%zu features, %zu groups, %zu constraints]", sl->ref.f.size(),
                sl->ref.g.size(), sl->ref.cons.size());
  summary(s);
}

// ---- C05 ---------------------------------------------------------------------
static void c05() {
  setupHeap();
  World w;
  w.g = baseGen();
  w.oc.bad = 12;
  if (w.addModel() < 0)
    return discard();
  uint32_t steps = range(4, thorough() ? 60 : 28);
  uint64_t edits = 0, commits = 0;
  w.open(0, true);
  for (uint32_t i = 0; i < steps; ++i) {
    auto txs = w.openTxs();
    auto live = w.liveSlots();
    uint32_t k = choose(16);
    if (txs.empty() || (k == 15 && txs.size() < 4 && !live.empty())) {
      if (live.empty())
        break;
      w.open(pick(live), !chance(1, 4));
    } else if (k < 10) {
      w.request(*w.txs[pick(txs)]);
      edits++;
    } else if (k == 10 || k == 11) {
      w.commit(pick(txs));
      commits++;
    } else if (k == 12) {
      if (chance(1, 2))
        w.abort(pick(txs));
      else
        w.moveTx(pick(txs));
    } else if (k == 13 && !live.empty()) { // edits of the original meanwhile
      w.helper(pick(live));
    } else if (k == 14 && live.size() > 1) {
      int s = pick(live);
      if (!w.slotBusy(s))
        w.dropSlot(s);
    }
    w.checkAll("not-isolated", "after a step");
  }
  w.finish();
  summarise(w, "copy transactions:");
  if (edits < 2)
    discard();
}
static Reg r05("C05",
               "at least two edits requested in transactions of which at least "
               "one is a copying one",
               c05);

// ---- C06 ---------------------------------------------------------------------
static void c06() {
  setupHeap();
  World w;
  w.g = baseGen();
  if (w.addModel() < 0)
    return discard();
  uint32_t steps = range(4, thorough() ? 60 : 28);
  uint64_t edits = 0;
  w.open(0, false);
  for (uint32_t i = 0; i < steps; ++i) {
    auto txs = w.openTxs();
    auto live = w.liveSlots();
    uint32_t k = choose(16);
    if (txs.empty() || (k == 15 && txs.size() < 4)) {
      w.open(pick(live), chance(1, 8));
    } else if (k < 11) {
      w.request(*w.txs[pick(txs)]);
      edits++;
    } else if (k < 13) {
      w.commit(pick(txs));
    } else if (k == 13) {
      if (chance(1, 2))
        w.abort(pick(txs));
      else
        w.moveTx(pick(txs));
    } else if (k == 14)
      w.helper(pick(live));
    w.checkAll("visible-early", "after a step");
  }
  w.finish();
  summarise(w, "modifying transactions:");
  if (edits < 2)
    discard();
}
static Reg r06("C06", "at least two edits requested in modifying transactions",
               c06);

// ---- C07 ---------------------------------------------------------------------
static void c07() {
  setupHeap();
  World w;
  w.g = baseGen();
  w.failing = true;
  if (w.addModel() < 0)
    return discard();
  uint32_t rounds = range(1, thorough() ? 8 : 5);
  uint64_t fails = 0;
  for (uint32_t i = 0; i < rounds; ++i) {
    auto live = w.liveSlots();
    if (chance(1, 6)) {
      w.oc.bad = 60;
      w.helper(pick(live));
      w.oc.bad = 0;
      continue;
    }
    int ti = w.open(pick(live), false);
    uint32_t n = choose(5);
    int bad = chance(4, 5) ? (int)choose(n + 1) : -1;
    for (int k = 0; k <= (int)n; ++k) {
      Op op;
      if (k == bad && w.genBad(op, w.txs[ti]->pred)) {
        w.requestOp(*w.txs[ti], op);
        fails++;
      } else
        w.request(*w.txs[ti]);
    }
    w.commit(ti);
    w.checkAll("failed-commit", "after a commit");
    if (chance(1, 4)) // the model must still be fully usable
      w.cloneSlot(pick(w.liveSlots()));
  }
  w.oc.bad = 0;
  for (int i = 0; i < 2; ++i) {
    int ti = w.open(0, false);
    w.request(*w.txs[ti]);
    w.commit(ti);
  }
  w.finish();
  summarise(w, "failing commits:");
  if (!fails)
    discard();
}
static Reg r07("C07", "at least one transaction with an edit that must be refused",
               c07);

// ---- C08 ---------------------------------------------------------------------
static void loadModel(World &w) {
  step();
  RModel m;
  std::string text;
  uint32_t k = choose(4);
  if (k == 3)
    text = io::sxfmDoc(m, w.g.maxF);
  else {
    Gen g = w.g;
    g.xmlRoot = g.xmlOnly = true;
    g.partialLocs = g.groups = false;
    m = gen(g);
    text = io::xmlDoc(m);
  }
  bool damaged = k < 3 && chance(1, 4), must = false;
  if (damaged)
    io::damageXml(text, m, must);
  phase("load");
  std::unique_ptr<vf::FeatureModel> FM;
  if (k == 3)
    FM = vf::FeatureModelSxfmParser(text).buildFeatureModel();
  else
    FM = vf::FeatureModelXmlParser(text).buildFeatureModel();
  logf("%s model loaded: %s", damaged ? "damaged" : "valid", FM ? "yes" : "no");
  if (!FM)
    return;
  count("op.load");
  if (damaged)
    checkSound(*FM, "loaded");
  else {
    RModel r = extract(*FM);
    w.adopt(std::move(FM), r, "loaded");
  }
}
static void c08() {
  setupHeap();
  World w;
  w.g = baseGen();
  w.g.maxF = thorough() ? 16 : 10;
  w.soundAlways = true;
  w.oc.bad = 4;
  if (chance(1, 3))
    loadModel(w);
  if (w.liveSlots().empty() && w.addModel() < 0)
    return discard();
  uint32_t steps = range(6, thorough() ? 80 : 40);
  uint64_t n = 0;
  for (uint32_t i = 0; i < steps; ++i) {
    auto txs = w.openTxs();
    auto live = w.liveSlots();
    uint32_t k = choose(20);
    if (k < 9) {
      if (txs.empty())
        w.open(pick(live), chance(1, 3));
      w.request(*w.txs[pick(w.openTxs())]);
      ++n;
    } else if (k < 12) {
      if (!txs.empty())
        w.commit(pick(txs));
    } else if (k < 16) {
      w.helper(pick(live));
      ++n;
    } else if (k == 16 && live.size() < 4) {
      w.cloneSlot(pick(live));
    } else if (k == 17) {
      if (live.size() > 1) {
        int s = pick(live);
        if (!w.slotBusy(s))
          w.dropSlot(s);
      }
    } else if (k == 18 && live.size() < 4) {
      if (chance(1, 3))
        w.addModel();
      else
        loadModel(w);
    } else if (k == 19 && live.size() > 1) {
      auto &a = *w.slots[pick(live)], &b = *w.slots[pick(live)];
      phase("merge");
      auto M = vf::mergeFeatureModels(*a.fm, *b.fm, chance(1, 4));
      if (M) {
        checkSound(*M, "merged");
        count("op.merge");
        if (live.size() < 5) {
          RModel r = extract(*M);
          w.adopt(std::move(M), r, "merged");
        }
      }
    }
    w.checkAll("unexpected-state", "after a step");
  }
  w.finish();
  summarise(w, "histories:");
  if (n < 3)
    discard();
}
static Reg r08("C08", "at least three edits in the history", c08);

// ---- C09 ---------------------------------------------------------------------
static void c09() {
  setupHeap();
  World w;
  w.g = baseGen();
  w.g.maxF = thorough() ? 16 : 10;
  if (w.addModel() < 0)
    return discard();
  bool nontrivial = w.slots[0]->ref.f.size() > 1;
  w.cloneSlot(0);
  {
    const auto &a = *w.slots[0]->fm, &b = *w.slots[1]->fm;
    for (auto *F : a.features()) {
      auto *G = b.getFeature(F->getName());
      if (G == F)
        violate("clone:shared", "clone shares feature '%s'",
                F->getName().str().c_str());
      if (auto *N = llvm::dyn_cast<vf::NumericFeature>(F))
        if (N->getStepFunction() &&
            N->getStepFunction() ==
                llvm::cast<vf::NumericFeature>(G)->getStepFunction())
          violate("clone:shared", "clone shares a step function");
    }
    std::set<void *> cs;
    for (const auto &c : a.booleanConstraints())
      cs.insert(c->constraint());
    for (const auto &c : b.booleanConstraints())
      if (cs.count(c->constraint()))
        violate("clone:shared", "clone shares a constraint");
  }
  uint32_t steps = range(2, thorough() ? 50 : 20);
  for (uint32_t i = 0; i < steps; ++i) {
    auto live = w.liveSlots();
    auto txs = w.openTxs();
    uint32_t k = choose(12);
    if (k < 3)
      w.helper(pick(live));
    else if (k < 8) {
      if (txs.empty())
        w.open(pick(live), false);
      else
        w.request(*w.txs[pick(txs)]);
    } else if (k == 8) {
      if (!txs.empty())
        w.commit(pick(txs));
    } else if (k == 9) {
      if (live.size() < 5)
        w.cloneSlot(pick(live));
    } else if (k == 10 && live.size() > 1) {
      int s = pick(live);
      if (!w.slotBusy(s))
        w.dropSlot(s);
    }
    w.checkAll("clone:not-independent", "after a step");
  }
  w.finish();
  summarise(w, "clones:");
  if (!nontrivial)
    discard();
}
static Reg r09("C09", "the cloned model has at least two features", c09);

// ---- C10 ---------------------------------------------------------------------
static bool mergeRef(const RModel &a, const RModel &b, bool strict, RModel &out,
                     bool &vague) {
  out = a;
  if (a.root != b.root)
    return false;
  for (auto &n : b.dfs()) {
    const Feat &F2 = b.f.at(n);
    auto it = a.f.find(n);
    if (it == a.f.end()) {
      if (F2.kind == FK::FK_UNKNOWN)
        return false;
      Feat F = F2;
      F.inGroup = false;
      out.f[n] = F;
      continue;
    }
    const Feat &F1 = it->second;
    if ((F1.kind == FK::FK_ROOT) != (F2.kind == FK::FK_ROOT))
      return false;
    if (F1.kind != FK::FK_ROOT && F1.parent != F2.parent)
      return false;
    if (strict) {
      if (F1.opt != F2.opt || F1.kind != F2.kind || F1.inGroup != F2.inGroup)
        return false;
      if (F1.inGroup && a.g.at(F1.parent).kind != b.g.at(F2.parent).kind)
        vague = true;
      if (F1.kind == FK::FK_UNKNOWN)
        return false;
      if (F1.kind == FK::FK_NUMERIC &&
          (F1.isRange != F2.isRange ||
           (F1.isRange ? F1.lo != F2.lo || F1.hi != F2.hi : F1.vals != F2.vals)))
        return false;
    }
    auto &L = out.f[n].locs;
    for (auto &l : F2.locs) {
      bool have = false;
      for (auto &x : L)
        have |= x.same(l);
      if (!have)
        L.push_back(l);
    }
  }
  return true;
}
static void uniqLocs(RModel &m) {
  for (auto &kv : m.f) {
    std::vector<Loc> v;
    for (auto &l : kv.second.locs) {
      bool have = false;
      for (auto &x : v)
        have |= x.same(l);
      if (!have)
        v.push_back(l);
    }
    kv.second.locs = v;
  }
}
static void c10() {
  setupHeap();
  World w;
  w.g = baseGen();
  w.g.maxF = thorough() ? 10 : 7;
  RModel m1 = gen(w.g);
  uniqLocs(m1);
  // the second model: a variation of the first, or another one
  RModel m2;
  if (chance(1, 6))
    m2 = gen(w.g);
  else {
    m2 = m1;
    for (auto &kv : m2.f)
      kv.second.uid = freshUid();
    uint32_t n = choose(7);
    for (uint32_t i = 0; i < n; ++i) {
      std::vector<std::string> ns;
      for (auto &kv : m2.f)
        ns.push_back(kv.first);
      auto nm = pick(ns);
      auto &F = m2.f[nm];
      switch (choose(10)) {
      case 0:
      case 1:
      case 2: { // a new feature somewhere
        Feat N = genFeat(w.g, freshName(m2, [&] {
                           std::set<std::string> s;
                           for (auto &kv : m1.f)
                             s.insert(kv.first);
                           return s;
                         }()));
        N.parent = nm;
        m2.f[N.name] = N;
        break;
      }
      case 3: { // gone
        Op op;
        op.k = OpK::RemoveFeature;
        op.a.name = nm;
        op.recursive = true;
        apply(m2, op);
        break;
      }
      case 4:
        if (nm != m2.root && F.kind != FK::FK_UNKNOWN)
          F.opt = !F.opt;
        break;
      case 5:
        if (F.kind != FK::FK_UNKNOWN)
          F.locs.push_back(!F.locs.empty() && chance(1, 2) ? nearLoc(pick(F.locs))
                                                         : genLoc(w.g));
        break;
      case 6:
        if (!F.locs.empty())
          F.locs.erase(F.locs.begin());
        break;
      case 7:
        if (F.kind == FK::FK_NUMERIC) {
          if (F.isRange)
            F.hi++;
          else
            F.vals.push_back(77);
        }
        break;
      case 8: { // moved, or regrouped
        Op op;
        op.k = chance(1, 2) ? OpK::AddChild
               : m2.g.count(nm) ? OpK::RemoveRel
                                : OpK::AddRel;
        op.a.name = nm;
        op.b.name = pick(ns);
        op.newUid = freshUid();
        apply(m2, op);
        break;
      }
      default: {
        Op op;
        op.k = OpK::SetRoot;
        op.s = chance(1, 2) ? freshName(m2) : m2.root;
        op.newUid = freshUid();
        if (chance(1, 4))
          apply(m2, op);
        else if (nm != m2.root && F.kind != FK::FK_ROOT &&
                 F.kind != FK::FK_UNKNOWN)
          F.out = "-other";
      }
      }
    }
    m2.name = "second";
    m2.commit = "2222";
    if (chance(1, 8)) { // the root of one is an inner feature of the other
      std::vector<std::string> ns;
      for (auto &kv : m2.f)
        if (kv.first != m2.root)
          ns.push_back(kv.first);
      if (!ns.empty()) {
        RModel t;
        t.name = m2.name;
        t.root = pick(ns);
        for (auto &kv : m2.f)
          if (m2.below(t.root, kv.first)) {
            t.f.insert(kv);
            if (m2.g.count(kv.first))
              t.g.insert(*m2.g.find(kv.first));
          }
        Feat R;
        R.uid = freshUid();
        R.name = t.root;
        R.kind = FK::FK_ROOT;
        t.f[t.root] = R;
        m2 = t;
        if (chance(1, 2))
          std::swap(m1, m2);
        count("merge.inner_root");
      }
    }
  }
  uniqLocs(m2);
  if (w.addModel(&m1) < 0 || w.addModel(&m2) < 0)
    return discard();
  bool strict = chance(1, 2);
  Slot &a = *w.slots[0], &b = *w.slots[1];
  RModel want;
  bool vague = false;
  bool ok = mergeRef(a.ref, b.ref, strict, want, vague);
  if (vague)
    return discard();
  logf("merge %s, expect %s", strict ? "strict" : "non-strict",
       ok ? "a model" : "nothing");
  phase(strict ? "merge (strict)" : "merge (non-strict)");
  auto M = vf::mergeFeatureModels(*a.fm, *b.fm, strict);
  step();
  if (!!M != ok)
    violate(ok ? "merge:refused" : "merge:accepted",
            "%s merge gave %s.\n  first:%s\n  second:%s",
            strict ? "strict" : "non-strict", M ? "a model" : "nothing",
            dump(a.ref).c_str(), dump(b.ref).c_str());
  w.checkAll("merge:input-changed", "after a merge");
  count(ok ? "merge.joined" : "merge.conflict");
  summarise(w, strict ? "strict merge:" : "non-strict merge:");
  if (!M)
    return;
  w.adopt(std::move(M), want, "merged");
  // independence: edit and destroy any of the three
  uint32_t steps = choose(8);
  for (uint32_t i = 0; i < steps; ++i) {
    auto live = w.liveSlots();
    if (live.size() > 1 && chance(1, 4))
      w.dropSlot(pick(live));
    else
      w.helper(pick(live));
    w.checkAll("merge:not-independent", "after a step");
  }
  w.finish();
}
static Reg r10("C10", "the grouping of shared features is comparable", c10);

// ---- C11 ---------------------------------------------------------------------
static void c11() {
  setupHeap();
  World w;
  w.g = baseGen();
  w.g.maxF = thorough() ? 14 : 9;
  if (w.addModel() < 0)
    return discard();
  Slot &s = *w.slots[0];
  uint32_t rounds = range(1, 3);
  bool nontrivial = false;
  for (uint32_t r = 0; r < rounds; ++r) {
    bool rec = chance(1, 2);
    std::vector<vf::detail::FeatureVariantTy> L;
    std::vector<std::string> nmList;
    std::vector<bool> isPtr;
    std::vector<std::string> ns;
    for (auto &kv : s.ref.f)
      ns.push_back(kv.first);
    uint32_t n = choose(7);
    std::set<std::string> used;
    for (uint32_t i = 0; i < n; ++i) {
      std::string nm = chance(1, 10) ? "ghost" : pick(ns);
      if (!used.insert(nm).second && !chance(1, 4))
        continue;
      bool p = s.ref.f.count(nm) && chance(1, 2);
      nmList.push_back(nm);
      isPtr.push_back(p);
      if (p)
        L.push_back(s.p.at(s.ref.f.at(nm).uid));
      else
        L.push_back(nm);
    }
    // what is to happen
    RModel want = s.ref;
    std::set<std::string> listed(nmList.begin(), nmList.end());
    if (rec) {
      for (auto &x : listed)
        if (x != want.root && want.f.count(x)) {
          Op op;
          op.k = OpK::RemoveFeature;
          op.a.name = x;
          op.recursive = true;
          apply(want, op);
        }
    } else {
      for (bool more = true; more;) {
        more = false;
        for (auto &x : listed)
          if (want.f.count(x) && x != want.root && want.children(x).empty()) {
            Op op;
            op.k = OpK::RemoveFeature;
            op.a.name = x;
            if (apply(want, op) == Eff::Ok)
              more = true;
          }
      }
    }
    std::multiset<std::string> rest;
    for (size_t i = 0; i < nmList.size(); ++i)
      if (!s.ref.f.count(nmList[i]) || want.f.count(nmList[i]))
        rest.insert(nmList[i]);
    std::string txt;
    for (size_t i = 0; i < nmList.size(); ++i)
      txt += (isPtr[i] ? " &" : " ") + nmList[i];
    logf("removeFeatures%s:%s", rec ? " recursive" : "", txt.c_str());
    phase("removeFeatures");
    std::map<vf::Feature *, std::string> nameOf;
    for (auto &kv : s.ref.f)
      nameOf[s.p.at(kv.second.uid)] = kv.first;
    auto back = vf::removeFeatures(*s.fm, L, rec);
    step();
    std::multiset<std::string> got;
    for (auto &v : back) {
      if (std::holds_alternative<std::string>(v))
        got.insert(std::get<std::string>(v));
      else {
        auto it = nameOf.find(std::get<vf::Feature *>(v));
        got.insert(it == nameOf.end() ? "<unknown pointer>" : it->second);
      }
    }
    auto show = [](const std::multiset<std::string> &m) {
      std::string t;
      for (auto &x : m)
        t += " " + x;
      return t;
    };
    RModel before = s.ref;
    s.ref = want;
    std::string d = diff(want, extract(*s.fm));
    if (!d.empty())
      violate("batch:state",
              "after %s removal of%s the model differs:%s\n  before:%s",
              rec ? "recursive" : "plain", txt.c_str(), d.c_str(),
              dump(before).c_str());
    if (got != rest)
      violate("batch:returned",
              "%s removal of%s returned{%s }, expected{%s }\n  before:%s",
              rec ? "recursive" : "plain", txt.c_str(), show(got).c_str(),
              show(rest).c_str(), dump(before).c_str());
    checkSound(*s.fm, "after removeFeatures");
    w.refresh(s);
    state(shapeHash(s.ref));
    nontrivial |= before.f.size() != want.f.size();
    count("batch.removed", before.f.size() - want.f.size());
    count("batch.refused", rest.size());
  }
  summarise(w, "batch removal:");
  if (!nontrivial)
    discard();
}
static Reg r11("C11", "something was removed", c11);
