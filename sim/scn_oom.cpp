// C19: an allocation fails somewhere inside an operation.
#include "iogen.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "world.h"
#include <exception>
#include <new>
#include <unistd.h>

using namespace sim;
using namespace world;
namespace solv {
RModel genSolverModel(uint64_t limit, std::set<Config> &want);
}

namespace {
enum class Out { Done, Oom };
bool fired = false;      // the last attempt met a failing allocation
uint64_t nFired = 0, nAttempts = 0;

template <class F> Out attempt(const char *what, bool wide, F f) {
  step();
  phase(what);
  int64_t k = choose(1u << choose(10));
  if (wide)
    wide = chance(1, 2);
  nAttempts++;
  logf("%s, allocation %lld fails%s", what, (long long)k, wide ? " (wide)" : "");
  Out o = Out::Done;
  heap::failAfter(k, wide);
  try {
    f();
  } catch (const std::bad_alloc &) {
    o = Out::Oom;
  }
  fired = heap::failed();
  int64_t seen = heap::allocsSeen();
  heap::failAfter(-1);
  if (o == Out::Oom && !fired)
    violate("oom:out-of-nothing", "%s: out of memory, but no allocation failed "
            "(%lld made)", what, (long long)seen);
  if (fired) {
    count("fault.alloc");
    count(o == Out::Oom ? "oom.reported" : "oom.coped");
    nFired++;
  }
  logf(" -> %s after %lld allocations", o == Out::Oom ? "out of memory" : "done",
       (long long)seen);
  return o;
}

// An edit with everything it needs, made beforehand.
struct Edit {
  Op op;
  std::unique_ptr<vf::Feature> F;
  vf::Feature *parent = nullptr;
  vf::detail::FeatureVariantTy a;
  vf::detail::FeatureTreeNodeVariantTy n1, n2;
  std::optional<vf::FeatureSourceRange> loc;
  std::unique_ptr<vf::FeatureModel::BooleanConstraint> b;
  std::unique_ptr<vf::FeatureModel::NonBooleanConstraint> nb;
  std::unique_ptr<vf::FeatureModel::MixedConstraint> mx;
  std::unique_ptr<vf::RootFeature> root;
};
using FMod = vf::FeatureModel;
Edit prepare(World &w, Slot &s, const RModel &P, bool usable) {
  Edit e;
  for (int i = 0;; ++i) {
    e.op = w.genOp(P, &s, nullptr);
    Op &op = e.op;
    // an edit of a model that is pending or that is copied names its nodes
    bool ok = !op.a.group && !op.b.group;
    if (op.k == OpK::AddFeature && op.hasParent &&
        !s.ref.f.count(op.a.name))
      ok = false;
    RModel x = P;
    op.a.byName = op.b.byName = true;
    if (ok && usable && apply(x, op) != Eff::Ok)
      ok = false;
    if (ok)
      break;
    if (i > 10) {
      op = Op();
      op.k = OpK::SetName;
      op.s = "fallback that is long enough to need memory of its own";
      break;
    }
  }
  Op &op = e.op;
  if (op.k == OpK::AddFeature) {
    e.F = realFeat(op.feat);
    if (op.hasParent)
      e.parent = s.fm->getFeature(op.a.name);
  }
  e.a = op.a.name;
  e.n1 = op.a.name;
  e.n2 = op.b.name;
  if (op.k == OpK::AddLoc || op.k == OpK::RemoveLoc)
    e.loc = op.loc.real();
  if (op.k == OpK::AddCon) {
    auto c = realExpr(op.con.e);
    if (op.con.cls == 0)
      e.b = std::make_unique<FMod::BooleanConstraint>(std::move(c));
    else if (op.con.cls == 1)
      e.nb = std::make_unique<FMod::NonBooleanConstraint>(std::move(c));
    else
      e.mx = std::make_unique<FMod::MixedConstraint>(
          std::move(c),
          op.con.req ? FMod::MixedConstraint::Req::NONE
                     : FMod::MixedConstraint::Req::ALL,
          op.con.neg ? FMod::MixedConstraint::ExprKind::NEG
                     : FMod::MixedConstraint::ExprKind::POS);
  }
  if (op.k == OpK::SetRoot)
    e.root = std::make_unique<vf::RootFeature>(op.s);
  return e;
}
template <class TX> void perform(TX &T, Edit &e) {
  Op &op = e.op;
  switch (op.k) {
  case OpK::AddFeature: (void)T.addFeature(std::move(e.F), e.parent); break;
  case OpK::RemoveFeature: (void)T.removeFeature(e.a, op.recursive); break;
  case OpK::AddRel: (void)T.addRelationship(op.rk, e.a); break;
  case OpK::RemoveRel: (void)T.removeRelationship(e.a); break;
  case OpK::AddLoc: (void)T.addLocation(e.a, *e.loc); break;
  case OpK::RemoveLoc: (void)T.removeLocation(e.a, *e.loc); break;
  case OpK::AddCon:
    if (e.b)
      (void)T.addConstraint(std::move(e.b));
    else if (e.nb)
      (void)T.addConstraint(std::move(e.nb));
    else
      (void)T.addConstraint(std::move(e.mx));
    break;
  case OpK::SetName: (void)T.setName(op.s); break;
  case OpK::SetCommit: (void)T.setCommit(op.s); break;
  case OpK::SetPath: (void)T.setPath(op.s); break;
  case OpK::SetRoot: (void)T.setRoot(std::move(e.root)); break;
  case OpK::AddChild: (void)T.addChild(e.n1, e.n2); break;
  default: break;
  }
}

struct Game {
  World w;
  std::vector<std::pair<std::string, std::string>> files; // to stay as they are
  int spoilt = -1; // a model whose modification was abandoned

  void others(const char *what) {
    for (size_t i = 0; i < w.slots.size(); ++i)
      if (w.slots[i] && (int)i != spoilt)
        w.checkSlot(*w.slots[i], "oom:other-model-changed", what);
    for (auto &f : files)
      if (!disk::exists(f.first) || disk::get(f.first) != f.second)
        violate("oom:other-file-changed", "%s: the file %s changed", what,
                f.first.c_str());
  }
  // A model in an unknown state has to go without harm.
  void retire() {
    if (spoilt < 0)
      return;
    phase("destroy the abandoned model");
    w.dropSlot(spoilt);
    spoilt = -1;
  }
  void copyTx(int i);
  void modTx(int i);
  void helper(int i);
  void merge(int i, int j);
  void batch(int i);
  void builder();
  void load();
  void save(int i);
  void clone(int i);
  void solver();
  void text(int i);
};

void Game::clone(int i) {
  std::unique_ptr<vf::FeatureModel> c;
  Slot &s = *w.slots[i];
  auto o = attempt("clone", true, [&] { c = s.fm->clone(); });
  others("clone");
  if (o == Out::Oom) {
    if (c)
      violate("oom:half", "clone: a result in spite of an exception");
    return;
  }
  if (!c) {
    if (!fired)
      violate("oom:refused", "clone gives nothing");
    return;
  }
  RModel want = s.ref;
  w.adopt(std::move(c), want, "cloned");
}
void Game::copyTx(int i) {
  Slot &s = *w.slots[i];
  std::optional<CopyTx> T;
  auto o = attempt("open a copying transaction", true,
                   [&] { T.emplace(CopyTx::openTransaction(*s.fm)); });
  others("open a copying transaction");
  if (o == Out::Oom)
    return;
  RModel c = s.ref;
  uint32_t n = choose(5);
  while (n--) {
    Edit e = prepare(w, s, c, !chance(1, 8));
    logf("edit: %s", e.op.str().c_str());
    if (chance(1, 2)) {
      perform(*T, e);
    } else {
      o = attempt("edit in a copying transaction", true, [&] { perform(*T, e); });
      others("edit in a copying transaction");
      if (o == Out::Oom || fired) { // what the copy looks like is open
        phase("give up a copying transaction");
        T->abort();
        T.reset();
        others("given up a copying transaction");
        return;
      }
    }
    apply(c, e.op);
  }
  std::unique_ptr<vf::FeatureModel> M;
  bool ok = false;
  o = attempt("commit a copying transaction", true, [&] {
    auto C = T->commit();
    if ((ok = (bool)C))
      M = C.extractValue();
  });
  others("commit a copying transaction");
  if (o == Out::Oom || (fired && !ok)) {
    T->abort();
    T.reset();
    others("given up a copying transaction");
    return;
  }
  if (!ok || !M)
    violate("oom:refused", "commit of a copying transaction fails");
  w.adopt(std::move(M), c, "copied");
}
void Game::modTx(int i) {
  Slot &s = *w.slots[i];
  auto T = std::make_unique<ModTx>(ModTx::openTransaction(*s.fm));
  RModel c = s.ref;
  uint32_t n = range(1, 5);
  while (n--) {
    Edit e = prepare(w, s, c, true);
    logf("edit: %s", e.op.str().c_str());
    if (chance(2, 3)) {
      perform(*T, e);
    } else {
      auto o = attempt("edit in a modifying transaction", true,
                       [&] { perform(*T, e); });
      others("edit in a modifying transaction"); // nothing is visible
      if (o == Out::Oom || fired) {
        T->abort();
        T.reset();
        others("aborted a modifying transaction");
        return;
      }
    }
    apply(c, e.op);
  }
  bool ok = false;
  auto o = attempt("commit a modifying transaction", true,
                   [&] { ok = (bool)T->commit(); });
  if (o == Out::Done && ok) {
    s.ref = c;
    w.refresh(s);
    others("commit a modifying transaction");
    checkSound(*s.fm, "after a commit");
    return;
  }
  if (!fired)
    violate("oom:refused", "commit of applicable edits fails");
  spoilt = i;
  others("commit a modifying transaction");
  heap::failAfter(-1);
  phase("destroy the abandoned transaction");
  T->abort();
  T.reset();
  others("abandoned a modifying transaction");
}
void Game::helper(int i) {
  Slot &s = *w.slots[i];
  Edit e = prepare(w, s, s.ref, true);
  Op &op = e.op;
  logf("helper: %s", op.str().c_str());
  auto &FM = *s.fm;
  RModel c = s.ref;
  std::vector<std::pair<std::unique_ptr<vf::Feature>, vf::Feature *>> v;
  bool many = chance(1, 2);
  if (op.k == OpK::AddFeature && many)
    v.emplace_back(std::move(e.F), e.parent);
  bool run = true;
  auto o = attempt("helper", true, [&] {
    switch (op.k) {
    case OpK::AddFeature:
      if (many)
        vf::addFeatures(FM, std::move(v));
      else
        vf::addFeature(FM, std::move(e.F), e.parent);
      break;
    case OpK::RemoveFeature: vf::removeFeature(FM, e.a, op.recursive); break;
    case OpK::AddRel: vf::addRelationship(FM, e.a, op.rk); break;
    case OpK::RemoveRel: vf::removeRelationship(FM, e.a); break;
    case OpK::SetCommit: vf::setCommit(FM, op.s); break;
    default: run = false;
    }
  });
  if (!run)
    return;
  if (o == Out::Done && !fired) {
    apply(c, op);
    s.ref = c;
    w.refresh(s);
  } else
    spoilt = i;
  others("helper");
}
void Game::merge(int i, int j) {
  auto &A = *w.slots[i]->fm, &B = *w.slots[j]->fm;
  bool strict = chance(1, 2);
  std::unique_ptr<vf::FeatureModel> M, N;
  auto o = attempt("merge", true,
                   [&] { M = vf::mergeFeatureModels(A, B, strict); });
  others("merge");
  if (o == Out::Oom)
    return;
  N = vf::mergeFeatureModels(A, B, strict);
  if (!M && fired)
    return;
  if (!M != !N)
    violate("oom:differs", "merging with a failing allocation gives %s, without "
            "one %s", M ? "a model" : "nothing", N ? "a model" : "nothing");
  if (!M)
    return;
  checkSound(*M, "merged");
  auto d = diff(extract(*N), extract(*M));
  if (!d.empty())
    violate("oom:differs", "merging with a failing allocation gives another "
            "model:%s", d.c_str());
}
void Game::batch(int i) {
  Slot &s = *w.slots[i];
  auto twin = s.fm->clone();
  std::vector<std::string> ns;
  for (auto &kv : s.ref.f)
    ns.push_back(kv.first);
  std::vector<vf::detail::FeatureVariantTy> v, v2, r, r2;
  for (uint32_t n = range(1, 4); n--;)
    v.push_back(chance(1, 8) ? std::string("no_such_feature") : pick(ns));
  v2 = v;
  bool rec = chance(1, 2);
  auto o = attempt("remove features", true,
                   [&] { r = vf::removeFeatures(*s.fm, v, rec); });
  if (o == Out::Oom || fired) {
    spoilt = i;
    others("remove features");
    return;
  }
  r2 = vf::removeFeatures(*twin, v2, rec);
  s.ref = adoptRef(s.ref, *s.fm);
  w.refresh(s);
  others("remove features");
  auto d = diff(extract(*twin), s.ref);
  if (!d.empty() || r.size() != r2.size())
    violate("oom:differs", "removing features differs:%s", d.c_str());
}
void Game::builder() {
  RModel m = gen(w.g);
  auto A = std::make_unique<vf::FeatureModelBuilder>(),
       B = std::make_unique<vf::FeatureModelBuilder>();
  std::vector<std::string> ns;
  for (auto &n : m.dfs())
    if (n != m.root)
      ns.push_back(n);
  for (auto *X : {A.get(), B.get()})
    X->makeRoot(m.root);
  bool spoiltA = false;
  size_t failAt = choose((uint32_t)ns.size() * 2 + 1);
  for (size_t i = 0; i < ns.size(); ++i) {
    const auto &n = ns[i], &p = m.f.at(n).parent;
    B->makeFeature<vf::BinaryFeature>(n, m.f.at(n).opt);
    B->addEdge(p, n);
    if (spoiltA)
      continue;
    bool opt = m.f.at(n).opt;
    if (i != failAt) {
      A->makeFeature<vf::BinaryFeature>(n, opt);
      A->addEdge(p, n);
    } else {
      auto o = attempt("declare in a builder", true, [&] {
        A->makeFeature<vf::BinaryFeature>(n, opt);
        A->addEdge(p, n);
      });
      spoiltA = o == Out::Oom || fired;
    }
  }
  for (auto &kv : m.f)
    if (kv.first != m.root) {
      Feat F;
      F.uid = kv.second.uid;
      F.name = kv.first;
      F.opt = kv.second.opt;
      F.parent = kv.second.parent;
      kv.second = F;
    } else {
      kv.second.locs.clear();
      kv.second.out.clear();
    }
  m.g.clear();
  m.cons.clear();
  vf::FeatureModel D;
  m.name = D.getName().str();
  m.path = D.getPath().string();
  m.commit = D.getCommit().str();
  auto check = [&](std::unique_ptr<vf::FeatureModel> M, bool may, const char *t) {
    if (!M) {
      if (!may)
        violate("oom:refused", "%s gives no model", t);
      return;
    }
    checkSound(*M, t);
    auto d = diff(m, extract(*M));
    if (!d.empty())
      violate("oom:builder", "%s gives another model:%s", t, d.c_str());
  };
  std::unique_ptr<vf::FeatureModel> M;
  if (!spoiltA) {
    auto o = attempt("build a model", true, [&] { M = A->buildFeatureModel(); });
    if (o == Out::Done)
      check(std::move(M), fired, "the builder that met a failing allocation");
  }
  if (chance(1, 2))
    A.reset();
  others("a builder met a failing allocation");
  check(B->buildFeatureModel(), false, "another builder");
  others("another builder was used");
}
void Game::load() {
  Gen g = w.g;
  g.maxF = 6;
  g.xmlRoot = g.xmlOnly = true;
  g.partialLocs = false;
  RModel m;
  bool sx = chance(1, 3);
  std::string p = "/simfs/a.xml", t;
  if (sx) {
    t = io::sxfmDoc(m, 7);
  } else {
    m = gen(g);
    t = io::xmlDoc(m);
    disk::put(p, t);
  }
  auto load = [&]() -> std::unique_ptr<vf::FeatureModel> {
    if (!sx)
      return vf::loadFeatureModel(p);
    vf::FeatureModelSxfmParser P(t);
    return P.buildFeatureModel();
  };
  auto verify = [&]() -> bool {
    if (!sx)
      return vf::verifyFeatureModel(p);
    vf::FeatureModelSxfmParser P(t);
    return (bool)P.verifyFeatureModel();
  };
  std::unique_ptr<vf::FeatureModel> M, N;
  bool ver = false, ver2;
  auto o = chance(1, 4) ? attempt("verify a file", true, [&] { ver = verify(); })
                        : attempt("load a file", true, [&] {
                            M = load();
                            ver = (bool)M;
                          });
  others("load");
  N = load();
  ver2 = verify();
  if (!N || !ver2)
    violate("oom:refused", "a valid file is refused after a failed allocation");
  if (o == Out::Oom)
    return;
  if (!ver && !fired)
    violate("oom:refused", "a valid file is refused");
  if (M) {
    checkSound(*M, "loaded");
    auto d = diff(extract(*N), extract(*M));
    if (!d.empty())
      violate("oom:differs", "loading with a failing allocation gives another "
              "model:%s", d.c_str());
    RModel x = extract(*M);
    w.adopt(std::move(M), x, "loaded");
  }
}
void Game::save(int i) {
  Slot &s = *w.slots[i];
  std::string p = "/simfs/saved.xml";
  if (chance(1, 2))
    disk::put(p, "former content");
  int rc = -1;
  vf::FeatureModelXmlWriter W(*s.fm), V(*s.fm);
  auto o = attempt("save", true, [&] { rc = W.writeFeatureModel(p); });
  std::string got = disk::exists(p) ? disk::get(p) : "";
  others("save");
  if (disk::openHandles())
    violate("oom:leaves-open", "a file stays open after saving");
  disk::put("/simfs/again.xml", "");
  int rc2 = V.writeFeatureModel("/simfs/again.xml");
  std::string ref = disk::get("/simfs/again.xml");
  if (o == Out::Oom)
    return;
  if (rc == 0 && (rc2 != 0 || got != ref))
    violate("oom:fakes", "saving reports success, but the file is not complete:\n%s",
            got.c_str());
  if (rc != 0 && rc2 == 0 && !fired)
    violate("oom:refused", "saving fails");
}
void Game::text(int i) {
  Slot &s = *w.slots[i];
  std::vector<vf::Feature *> fs;
  for (auto *F : std::as_const(*s.fm).features())
    fs.push_back(F);
  auto *F = pick(fs);
  std::string t;
  auto q = [&] {
    t = F->toString();
    for (auto *C : F->constraints())
      t += C->getRoot()->toString() + C->getRoot()->toHTML();
    for (auto *X : F->getChildren<vf::Feature>())
      t += X->getName().str();
    t += std::to_string(std::as_const(*s.fm).features().begin() == std::as_const(*s.fm).features().end());
    if (auto *P = F->getParentFeature())
      t += P->getName().str();
  };
  auto o = attempt("print", true, q);
  std::string a = t;
  others("print");
  t.clear();
  q();
  if (o == Out::Done && a != t)
    violate("oom:differs", "printed with a failing allocation:\n%s\nwithout:\n%s",
            a.c_str(), t.c_str());
}
void Game::solver() {
  std::set<Config> want;
  RModel m = solv::genSolverModel(30, want);
  auto FM = build(m);
  if (!FM)
    return;
  m = extract(*FM);
  z3s::setup(z3s::Cfg());
  bool done = false, ok = false;
  uint64_t n = 0;
  auto o = attempt("solve", false, [&] {
    auto R = vara::solver::ConfigurationFactory::getNumConfigs(*FM);
    ok = (bool)R;
    if (R)
      n = R.extractValue();
    done = true;
  });
  others("solve");
  auto d = diff(m, extract(*FM));
  if (!d.empty())
    violate("oom:other-model-changed", "enumerating changed the model:%s",
            d.c_str());
  if (o == Out::Done && ok && n != want.size())
    violate("oom:fakes", "%llu configurations reported, %zu exist",
            (unsigned long long)n, want.size());
  if (o == Out::Done && !ok && !want.empty() && !fired)
    violate("oom:refused", "enumerating fails");
  auto R = vara::solver::ConfigurationFactory::getNumConfigs(*FM);
  if ((bool)R != !want.empty() || (R && R.extractValue() != want.size()))
    violate("oom:later", "after a failed allocation the configurations are wrong");
}

void c19() {
  setupHeap();
  disk::reset();
  Game G;
  World &w = G.w;
  w.g.maxF = thorough() ? 10 : 7;
  w.oc.setRoot = true;
  nFired = nAttempts = 0;
  if (w.addModel() < 0)
    return discard();
  disk::put("/simfs/bystander", "not to be touched");
  G.files.push_back({"/simfs/bystander", "not to be touched"});
  uint32_t rounds = range(1, thorough() ? 24 : 12);
  for (uint32_t r = 0; r < rounds; ++r) {
    auto live = w.liveSlots();
    if (live.empty() || (live.size() < 3 && chance(1, 6))) {
      w.addModel();
      live = w.liveSlots();
      if (live.empty())
        break;
    }
    int i = pick(live);
    switch (choose(12)) {
    case 0: G.clone(i); break;
    case 1:
    case 2: G.copyTx(i); break;
    case 3:
    case 4: G.modTx(i); break;
    case 5: G.helper(i); break;
    case 6: G.merge(i, pick(live)); break;
    case 7: G.batch(i); break;
    case 8: G.builder(); break;
    case 9: G.load(); break;
    case 10: chance(1, 3) ? G.solver() : G.text(i); break;
    default: G.save(i);
    }
    G.retire();
    w.checkAll("oom:other-model-changed", "after a step");
    live = w.liveSlots();
    if (live.size() > 4)
      w.dropSlot(pick(live));
  }
  w.finish();
  summary(strf("%llu operations, in %llu of them an allocation failed",
               (unsigned long long)nAttempts, (unsigned long long)nFired));
  if (!nFired)
    discard();
}
Reg r19("C19", "at least one allocation failed inside an operation", c19);
} // namespace
