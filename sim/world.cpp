#include "world.h"
#include <algorithm>

using namespace sim;
namespace world {
using vf::Feature;
using vf::FeatureModel;
using vf::Relationship;

void setupHeap() {
  uint32_t m = choose(heap::NModes);
  uint32_t s = choose(1 << 16);
  static const char *N[] = {"heap.sequential", "heap.random", "heap.reverse",
                            "heap.reuse"};
  count(N[m]);
  logf("heap mode %u seed %u", m, s);
  heap::setup((heap::Mode)m, s);
}

RModel adoptRef(const RModel &m, const FeatureModel &FM) {
  RModel x = extract(FM);
  for (auto &kv : x.f) {
    auto it = m.f.find(kv.first);
    kv.second.uid = it != m.f.end() && it->second.uid ? it->second.uid : freshUid();
  }
  for (auto &kv : x.g) {
    auto it = m.g.find(kv.first);
    kv.second.uid = it != m.g.end() && it->second.uid ? it->second.uid : freshUid();
  }
  return x;
}

void World::refresh(Slot &s) {
  s.p.clear();
  s.gp.clear();
  for (auto &kv : s.ref.f)
    if (auto *F = s.fm->getFeature(kv.first))
      s.p[kv.second.uid] = F;
  for (auto &r : std::as_const(*s.fm).relationships())
    if (auto *P = llvm::dyn_cast_or_null<Feature>(r->getParent())) {
      auto it = s.ref.g.find(P->getName().str());
      if (it != s.ref.g.end())
        s.gp[it->second.uid] = r.get();
    }
}

int World::addModel(const RModel *given) {
  RModel m = given ? *given : gen(g);
  auto fm = build(m);
  if (!fm)
    return -1;
  auto s = std::make_unique<Slot>();
  s->ref = adoptRef(m, *fm);
  s->fm = std::move(fm);
  s->born = "built";
  refresh(*s);
  slots.push_back(std::move(s));
  logf("model %zu built: %zu features", slots.size() - 1,
       slots.back()->ref.f.size());
  return (int)slots.size() - 1;
}

int World::adopt(std::unique_ptr<FeatureModel> fm, const RModel &want,
                 const char *born) {
  auto s = std::make_unique<Slot>();
  s->fm = std::move(fm);
  s->ref = want;
  s->born = born;
  for (auto &kv : s->ref.f)
    kv.second.uid = freshUid();
  for (auto &kv : s->ref.g)
    kv.second.uid = freshUid();
  std::string d = diff(s->ref, extract(*s->fm));
  if (!d.empty())
    violate(strf("%s:differs", born).c_str(),
            "the %s model is not what it should be:%s", born, d.c_str());
  checkSound(*s->fm, born);
  refresh(*s);
  slots.push_back(std::move(s));
  return (int)slots.size() - 1;
}

void World::checkSlot(Slot &s, const char *cls, const char *when) {
  std::string d = diff(s.ref, extract(*s.fm));
  if (!d.empty())
    violate(cls, "%s: a model (%s) is not as it should be:%s", when,
            s.born.c_str(), d.c_str());
  if (soundAlways)
    checkSound(*s.fm, when);
  state(shapeHash(s.ref));
}
void World::checkAll(const char *cls, const char *when) {
  for (auto &s : slots)
    if (s)
      checkSlot(*s, cls, when);
}

std::vector<int> World::liveSlots() const {
  std::vector<int> v;
  for (size_t i = 0; i < slots.size(); ++i)
    if (slots[i])
      v.push_back((int)i);
  return v;
}
std::vector<int> World::openTxs() const {
  std::vector<int> v;
  for (size_t i = 0; i < txs.size(); ++i)
    if (txs[i] && !txs[i]->done)
      v.push_back((int)i);
  return v;
}
bool World::slotBusy(int slot) const {
  for (auto &t : txs)
    if (t && !t->copy && t->slot == slot)
      return true;
  return false;
}

// ---- edits -------------------------------------------------------------------
static std::vector<std::string> allNames(const RModel &P) {
  std::vector<std::string> v;
  for (auto &kv : P.f)
    v.push_back(kv.first);
  return v;
}

Op World::genOp(const RModel &P, const Slot *src, const Tx *tx) {
  auto ns = allNames(P);
  auto ptrOk = [&](uint64_t uid) {
    if (!oc.ptrs)
      return false;
    if (tx && tx->copy)
      return tx->cp.count(uid) > 0 || (src && src->p.count(uid) > 0);
    return src && src->p.count(uid) > 0;
  };
  auto ref = [&](const std::string &n) {
    Ref r;
    r.name = n;
    r.uid = P.f.at(n).uid;
    if (ptrOk(r.uid) && chance(1, 2))
      r.byName = false;
    return r;
  };
  Op op;
  uint32_t k = choose(24);
  op.newUid = 0;
  if (k < 6) {
    op.k = OpK::AddFeature;
    std::set<std::string> also;
    op.feat = genFeat(g, freshName(P));
    if (chance(3, 5)) {
      auto n = pick(ns);
      Ref r;
      r.name = n;
      r.uid = P.f.at(n).uid;
      r.byName = false;
      if (src && ptrOk(r.uid)) {
        op.hasParent = true;
        op.a = r;
      }
    }
  } else if (k < 9) {
    op.k = OpK::RemoveFeature;
    auto n = pick(ns);
    if (n == P.root)
      n = pick(ns);
    op.a = ref(n);
    op.recursive = chance(1, 3);
  } else if (k < 11) {
    op.k = oc.rel ? OpK::AddRel : OpK::SetName;
    op.a = ref(pick(ns));
    op.rk = chance(1, 2) ? RK::RK_OR : RK::RK_ALTERNATIVE;
    op.newUid = freshUid();
    op.s = "renamed";
  } else if (k == 11) {
    op.k = oc.rel ? OpK::RemoveRel : OpK::SetName;
    std::vector<std::string> gs;
    for (auto &kv : P.g)
      gs.push_back(kv.first);
    op.a = ref(!gs.empty() ? pick(gs) : pick(ns));
    op.s = "renamed2";
  } else if (k < 14) {
    op.k = oc.loc ? OpK::AddLoc : OpK::SetPath;
    op.a = ref(pick(ns));
    op.loc = genLoc(g);
    if (op.a.name.size() && P.f.count(op.a.name) && !P.f.at(op.a.name).locs.empty() &&
        chance(1, 3))
      op.loc = nearLoc(pick(P.f.at(op.a.name).locs));
    op.s = "p/q";
  } else if (k == 14) {
    op.k = oc.loc ? OpK::RemoveLoc : OpK::SetPath;
    std::vector<std::string> has;
    for (auto &kv : P.f)
      if (!kv.second.locs.empty())
        has.push_back(kv.first);
    auto n = has.empty() || chance(1, 6) ? pick(ns) : pick(has);
    op.a = ref(n);
    auto &L = P.f.at(n).locs;
    op.loc = L.empty() || chance(1, 8) ? genLoc(g) : chance(1, 4) ? nearLoc(pick(L)) : pick(L);
    op.s = "p/q/r";
  } else if (k < 18) {
    op.k = oc.con ? OpK::AddCon : OpK::SetCommit;
    op.con = genCon(g, P);
    op.s = "c0ffee";
  } else if (k == 18) {
    static const std::vector<std::string> Nm = {"n1", "another name", ""};
    op.k = OpK::SetName;
    op.s = pick(Nm);
  } else if (k == 19) {
    static const std::vector<std::string> Cm = {"aaa", "bbb", "", "./a//b/../c/"};
    op.k = chance(1, 2) ? OpK::SetCommit : OpK::SetPath;
    op.s = pick(Cm);
  } else if (k == 20 && oc.setRoot) {
    op.k = OpK::SetRoot;
    op.s = chance(1, 4) ? P.root : freshName(P);
    op.newUid = freshUid();
  } else {
    op.k = OpK::AddChild;
    op.b = ref(pick(ns));
    std::vector<std::string> gs;
    for (auto &kv : P.g)
      if (oc.ptrs && src && src->gp.count(kv.second.uid))
        gs.push_back(kv.first);
    if (!gs.empty() && chance(1, 3)) {
      op.a.byName = false;
      op.a.group = true;
      op.a.name = pick(gs);
      op.a.uid = P.g.at(op.a.name).uid;
    } else
      op.a = ref(pick(ns));
    if (!gs.empty() && chance(1, 4)) { // moves a group
      op.b = Ref();
      op.b.byName = false;
      op.b.group = true;
      op.b.name = pick(gs);
      op.b.uid = P.g.at(op.b.name).uid;
    }
  }
  return op;
}

// An edit that has to be refused.
bool World::genBad(Op &op, const RModel &P) {
  auto ns = allNames(P);
  std::string missing = chance(1, 4) ? "" : "no_such";
  auto nm = [&](const std::string &n) {
    Ref r;
    r.name = n;
    return r;
  };
  op = Op();
  op.newUid = freshUid();
  switch (choose(14)) {
  case 0:
    op.k = OpK::AddFeature;
    op.feat = genFeat(g, pick(ns));
    break;
  case 12: // another root
    op.k = OpK::AddFeature;
    op.feat = genFeat(g, freshName(P));
    op.feat.kind = FK::FK_ROOT;
    op.feat.opt = false;
    op.feat.locs.clear();
    op.feat.out.clear();
    break;
  case 1:
    op.k = OpK::RemoveFeature;
    op.a = nm(missing);
    op.recursive = chance(1, 2);
    break;
  case 2:
    op.k = OpK::RemoveFeature;
    op.a = nm(P.root);
    op.recursive = chance(1, 2);
    break;
  case 3: {
    std::vector<std::string> in;
    for (auto &n : ns)
      if (!P.children(n).empty())
        in.push_back(n);
    if (in.empty())
      return false;
    op.k = OpK::RemoveFeature;
    op.a = nm(pick(in));
    break;
  }
  case 4:
    if (!oc.rel)
      return false;
    op.k = OpK::AddRel;
    op.a = nm(missing);
    break;
  case 5: {
    if (P.g.empty() || !oc.rel)
      return false;
    std::vector<std::string> gs;
    for (auto &kv : P.g)
      gs.push_back(kv.first);
    op.k = OpK::AddRel;
    op.a = nm(pick(gs));
    break;
  }
  case 6:
    if (!oc.rel)
      return false;
    op.k = OpK::RemoveRel;
    op.a = nm(missing);
    break;
  case 7: {
    std::vector<std::string> no;
    for (auto &n : ns)
      if (!P.g.count(n))
        no.push_back(n);
    if (no.empty() || !oc.rel)
      return false;
    op.k = OpK::RemoveRel;
    op.a = nm(pick(no));
    break;
  }
  case 8:
    if (!oc.loc)
      return false;
    op.k = chance(1, 2) ? OpK::AddLoc : OpK::RemoveLoc;
    op.a = nm(missing);
    op.loc = genLoc(g);
    break;
  case 9:
    if (!oc.con)
      return false;
    op.k = OpK::AddCon;
    op.con = genCon(g, P, {"no_such", "ghost"});
    {
      std::vector<std::string> v;
      names(op.con.e, v);
      bool bad = false;
      for (auto &n : v)
        bad |= !P.f.count(n);
      if (!bad)
        op.con = {0, 0, 0, mkB(chance(1, 2) ? CK::CK_IMPLIES : CK::CK_EXCLUDES,
                               mkF(chance(1, 2) ? pick(ns) : "ghost"),
                               mkF("no_such"))};
    }
    break;
  case 10: {
    std::vector<std::string> o;
    for (auto &n : ns)
      if (n != P.root)
        o.push_back(n);
    if (o.empty() || !oc.setRoot)
      return false;
    op.k = OpK::SetRoot;
    op.s = pick(o);
    break;
  }
  case 11:
    op.k = OpK::AddChild;
    op.a = nm(chance(1, 2) ? pick(ns) : missing);
    op.b = nm(P.f.count(op.a.name) ? missing : pick(ns));
    break;
  default: { // a cycle
    auto b = pick(ns);
    std::vector<std::string> sub;
    for (auto &n : ns)
      if (P.below(b, n))
        sub.push_back(n);
    op.k = OpK::AddChild;
    op.b = nm(b);
    op.a = nm(pick(sub));
  }
  }
  return true;
}

// A feature that exists in the original, but no longer in the copy.
bool World::genGone(Op &op, const Tx &t, const Slot &src) {
  std::vector<std::pair<std::string, uint64_t>> gone;
  for (auto &kv : src.ref.f)
    if (!t.cref.f.count(kv.first) && !t.cref.byUid(kv.second.uid) &&
        src.p.count(kv.second.uid))
      gone.push_back({kv.first, kv.second.uid});
  if (gone.empty())
    return false;
  auto x = pick(gone);
  Ref r, o;
  r.name = x.first;
  r.uid = x.second;
  r.byName = false;
  auto ns = allNames(t.cref);
  o.name = pick(ns);
  op = Op();
  op.newUid = freshUid();
  op.a = r;
  switch (choose(7)) {
  case 0:
  case 1:
    op.k = OpK::AddFeature;
    op.feat = genFeat(g, freshName(t.cref));
    op.hasParent = true;
    break;
  case 2:
    op.k = OpK::RemoveFeature;
    op.recursive = chance(1, 2);
    break;
  case 3:
    op.k = OpK::AddRel;
    op.rk = chance(1, 2) ? RK::RK_OR : RK::RK_ALTERNATIVE;
    break;
  case 4:
    op.k = OpK::RemoveRel;
    break;
  case 5:
    op.k = chance(1, 2) ? OpK::AddLoc : OpK::RemoveLoc;
    op.loc = genLoc(g);
    break;
  default:
    op.k = OpK::AddChild;
    op.b = o;
    if (chance(1, 2))
      std::swap(op.a, op.b);
  }
  count("edit.gone_feature");
  return true;
}

int World::open(int slot, bool copy) {
  auto t = std::make_unique<Tx>();
  Slot &s = *slots[slot];
  t->copy = copy;
  t->slot = slot;
  if (copy) {
    phase("openTransaction(copy)");
    t->c = std::make_unique<CopyTx>(CopyTx::openTransaction(*s.fm));
    t->cref = s.ref;
    count("tx.copy_opened");
  } else {
    phase("openTransaction(modify)");
    t->m = std::make_unique<ModTx>(ModTx::openTransaction(*s.fm));
    t->pred = s.ref;
    count("tx.modify_opened");
  }
  logf("open %s tx %zu on model %d", copy ? "copy" : "modify", txs.size(), slot);
  txs.push_back(std::move(t));
  step();
  return (int)txs.size() - 1;
}

void World::request(Tx &t) {
  RModel &P = t.copy ? t.cref : t.pred;
  const Slot *src = t.slot >= 0 ? slots[t.slot].get() : nullptr;
  Op op;
  bool bad = oc.bad && chance(oc.bad, 100);
  if (bad && t.copy && src && chance(1, 3) && genGone(op, t, *src)) {
    // as it is
  } else if (bad && genBad(op, P)) {
    // taken as it is
  } else {
    for (int i = 0;; ++i) {
      op = genOp(P, src, &t);
      if (oc.bad && chance(1, 10))
        break;
      RModel x = P;
      if (apply(x, op) == Eff::Ok)
        break;
      if (i == 6) {
        op = Op();
        op.k = OpK::SetName;
        op.s = "fallback";
        break;
      }
    }
  }
  requestOp(t, std::move(op));
}

void World::requestOp(Tx &t, Op op) {
  Slot *src = t.slot >= 0 ? slots[t.slot].get() : nullptr;
  step();
  logf("tx: %s", op.str().c_str());
  phase(op.str().c_str());
  const RModel pre = t.copy ? t.cref : RModel(); // before the edit
  auto fptr = [&](const Ref &r) -> Feature * {
    if (t.copy) {
      auto it = t.cp.find(r.uid);
      if (it != t.cp.end() && pre.byUid(r.uid))
        return it->second;
    }
    return src->p.at(r.uid);
  };
  auto fv = [&](const Ref &r) -> vf::detail::FeatureVariantTy {
    if (r.byName)
      return r.name;
    return fptr(r);
  };
  auto nv = [&](const Ref &r) -> vf::detail::FeatureTreeNodeVariantTy {
    if (r.byName)
      return r.name;
    if (r.group)
      return static_cast<vf::FeatureTreeNode *>(src->gp.at(r.uid));
    return static_cast<vf::FeatureTreeNode *>(fptr(r));
  };
  auto loc = op.loc;
  if (!t.copy) {
    RModel x = t.pred;
    if (apply(x, op) == Eff::Ok)
      t.pred = x;
    auto &T = *t.m;
    switch (op.k) {
    case OpK::AddFeature: {
      auto F = realFeat(op.feat);
      src->p[op.feat.uid] = F.get();
      t.cp[op.feat.uid] = F.get();
      T.addFeature(std::move(F), op.hasParent ? fptr(op.a) : nullptr);
      break;
    }
    case OpK::RemoveFeature: {
      auto v = fv(op.a);
      T.removeFeature(v, op.recursive);
      break;
    }
    case OpK::AddRel: T.addRelationship(op.rk, fv(op.a)); break;
    case OpK::RemoveRel: T.removeRelationship(fv(op.a)); break;
    case OpK::AddLoc: T.addLocation(fv(op.a), loc.real()); break;
    case OpK::RemoveLoc: {
      auto v = fv(op.a);
      T.removeLocation(v, loc.real());
      break;
    }
    case OpK::AddCon: addConTo(T, op.con); break;
    case OpK::SetName: T.setName(op.s); break;
    case OpK::SetCommit: T.setCommit(op.s); break;
    case OpK::SetPath: T.setPath(op.s); break;
    case OpK::SetRoot: T.setRoot(std::make_unique<vf::RootFeature>(op.s)); break;
    case OpK::AddChild: T.addChild(nv(op.a), nv(op.b)); break;
    default: break;
    }
    t.ops.push_back(std::move(op));
    count("edit.requested");
    return;
  }
  // copy: identity is by name
  auto norm = [&](Ref r) {
    if (r.byName)
      return r;
    Ref o;
    if (r.group) {
      std::string pn = src->ref.groupByUid(r.uid);
      if (pn.empty()) {
        o.name = "no_such_group";
        return o;
      }
      auto it = t.cref.g.find(pn);
      if (it == t.cref.g.end()) {
        o.name = "no_such_group";
        return o;
      }
      o.byName = false;
      o.group = true;
      o.uid = it->second.uid;
      o.name = pn;
      return o;
    }
    if (auto *F = t.cref.byUid(r.uid))
      if (t.cp.count(r.uid)) {
        o.name = F->name;
        return o;
      }
    auto *F = src ? src->ref.byUid(r.uid) : nullptr;
    o.name = F ? F->name : "no_such";
    return o;
  };
  Op n = op;
  n.a = norm(op.a);
  n.b = norm(op.b);
  if (n.k == OpK::AddFeature && op.hasParent && !t.cref.f.count(n.a.name))
    n.hasParent = true; // refused below
  RModel before = t.cref;
  Eff e = apply(t.cref, n);
  if (n.k == OpK::AddFeature && op.hasParent && !before.f.count(n.a.name)) {
    t.cref = before;
    e = Eff::Error;
  }
  if ((n.a.name == "no_such_group" || n.b.name == "no_such_group") &&
      n.k == OpK::AddChild) {
    t.cref = before;
    e = Eff::Error;
  }
  if (e == Eff::Undefined) { // cannot happen by construction
    t.cref = before;
    return;
  }
  auto &T = *t.c;
  auto verdict = [&](bool ok, const std::string &err) {
    if (ok != (e == Eff::Ok))
      violate("copy-edit-result",
              "copy transaction: %s was %s, expected %s (%s)", op.str().c_str(),
              ok ? "accepted" : "refused", ok ? "a refusal" : "success",
              err.c_str());
  };
  switch (op.k) {
  case OpK::AddFeature: {
    auto F = realFeat(op.feat);
    auto *raw = F.get();
    auto R = T.addFeature(std::move(F), op.hasParent ? fptr(op.a) : nullptr);
    verdict(R, "");
    if (R) {
      if (*R != raw || (*R)->getName() != op.feat.name)
        violate("copy-edit-result", "addFeature returned another feature");
      t.cp[op.feat.uid] = raw;
    }
    break;
  }
  case OpK::RemoveFeature: {
    auto v = fv(op.a);
    T.removeFeature(v, op.recursive);
    break;
  }
  case OpK::AddRel: {
    auto R = T.addRelationship(op.rk, fv(op.a));
    verdict(R, "");
    break;
  }
  case OpK::RemoveRel: T.removeRelationship(fv(op.a)); break;
  case OpK::AddLoc: T.addLocation(fv(op.a), loc.real()); break;
  case OpK::RemoveLoc: {
    auto v = fv(op.a);
    T.removeLocation(v, loc.real());
    break;
  }
  case OpK::AddCon: {
    bool ok;
    if (op.con.cls == 0)
      ok = T.addConstraint(
          std::make_unique<FeatureModel::BooleanConstraint>(realExpr(op.con.e)));
    else if (op.con.cls == 1)
      ok = T.addConstraint(std::make_unique<FeatureModel::NonBooleanConstraint>(
          realExpr(op.con.e)));
    else
      ok = T.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
          realExpr(op.con.e),
          op.con.req ? FeatureModel::MixedConstraint::Req::NONE
                     : FeatureModel::MixedConstraint::Req::ALL,
          op.con.neg ? FeatureModel::MixedConstraint::ExprKind::NEG
                     : FeatureModel::MixedConstraint::ExprKind::POS));
    verdict(ok, "");
    break;
  }
  case OpK::SetName: T.setName(op.s); break;
  case OpK::SetCommit: T.setCommit(op.s); break;
  case OpK::SetPath: T.setPath(op.s); break;
  case OpK::SetRoot: {
    auto R = T.setRoot(std::make_unique<vf::RootFeature>(op.s));
    verdict(R, "");
    if (R && (*R)->getName() != t.cref.root)
      violate("copy-edit-result", "setRoot returned another root");
    break;
  }
  case OpK::AddChild: T.addChild(nv(op.a), nv(op.b)); break;
  default: break;
  }
  if (e == Eff::Error)
    count("edit.refused");
  else
    count("edit.applied");
}

void World::commit(int ti) {
  Tx &t = *txs[ti];
  step();
  if (t.copy) {
    logf("commit copy tx %d", ti);
    phase("commit(copy)");
    auto R = t.c->commit();
    if (!R)
      violate("copy-commit-failed",
              "committing a copy transaction with valid content failed");
    auto fm = R.extractValue();
    if (!fm)
      violate("copy-commit-null", "a successful commit returned no model");
    if (chance(1, 6)) {
      auto R2 = t.c->commit();
      if (R2)
        violate("double-commit", "a second commit yields another model");
    }
    t.done = true;
    t.c.reset();
    adopt(std::move(fm), t.cref, "copied");
    count("tx.copy_committed");
    return;
  }
  Slot &s = *slots[t.slot];
  // what has to happen
  RModel want = s.ref;
  size_t i = 0;
  Eff e = Eff::Ok;
  for (; i < t.ops.size(); ++i)
    if ((e = apply(want, t.ops[i])) != Eff::Ok)
      break;
  if (e == Eff::Undefined || (e == Eff::Error && !failing)) {
    abort(ti);
    return;
  }
  bool viaDtor = chance(1, 10) && e == Eff::Ok;
  logf("commit modify tx %d%s: %zu edits, expect %s", ti,
       viaDtor ? " by destruction" : "", t.ops.size(),
       e == Eff::Ok ? "success" : "failure");
  phase(viaDtor ? "commit(modify) by destruction" : "commit(modify)");
  bool ok = true;
  if (viaDtor)
    t.m.reset();
  else
    ok = t.m->commit();
  if (e == Eff::Ok && !ok)
    violate("commit-refused", "commit failed although every edit applies");
  if (e == Eff::Error && ok)
    violate("error-not-reported",
            "commit reports success although '%s' cannot be applied",
            t.ops[i].str().c_str());
  if (!ok) {
    count("tx.modify_failed");
    RModel got = extract(*s.fm);
    if (!diff(s.ref, got).empty()) {
      std::string d = diff(want, got);
      if (!d.empty())
        violate("failed-commit-state",
                "after a commit that failed at edit %zu ('%s') the model is "
                "neither as before nor the result of the edits before that "
                "one:%s",
                i + 1, t.ops[i].str().c_str(), d.c_str());
      if (!knownFinding("failed-commit-keeps-earlier-edits"))
        violate("failed-commit-keeps-earlier-edits",
                "after a commit that failed at edit %zu ('%s') the %zu earlier "
                "edits are still in the model",
                i + 1, t.ops[i].str().c_str(), i);
      finding("failed-commit-keeps-earlier-edits");
      s.ref = want;
    }
    checkSound(*s.fm, "after a failed commit");
  } else {
    count("tx.modify_committed");
    s.ref = want;
    std::string d = diff(s.ref, extract(*s.fm));
    if (!d.empty())
      violate("commit-result", "after the commit the model differs:%s",
              d.c_str());
    checkSound(*s.fm, "after a commit");
  }
  if (t.m && chance(1, 6)) {
    phase("second commit");
    if (t.m->commit())
      violate("double-commit", "a second commit reports success");
    std::string d = diff(s.ref, extract(*s.fm));
    if (!d.empty())
      violate("double-commit", "a second commit changed the model:%s", d.c_str());
  }
  refresh(s);
  // features still owned by other open transactions keep their addresses
  for (auto &o : txs)
    if (o && !o->copy && o->slot == t.slot && o.get() != &t && !o->done) {
      o->pred = s.ref;
      for (auto &op : o->ops)
        apply(o->pred, op);
      for (auto &kv : o->cp)
        s.p.insert(kv);
    }
  t.done = true;
  // pointers to features that live in the transaction die with it
  t.m.reset();
}

void World::abort(int ti) {
  Tx &t = *txs[ti];
  logf("abort tx %d", ti);
  phase("abort");
  step();
  if (t.copy) {
    t.c->abort();
    if (chance(1, 4) && t.c->commit())
      violate("abort-yields-model", "commit after abort yields a model");
    t.c.reset();
    count("tx.copy_aborted");
  } else {
    t.m->abort();
    if (chance(1, 4) && t.m->commit())
      violate("abort-then-commit", "commit after abort reports success");
    t.m.reset();
    count("tx.modify_aborted");
  }
  t.done = true;
}

void World::moveTx(int ti) {
  Tx &t = *txs[ti];
  step();
  logf("move tx %d", ti);
  phase("move transaction");
  count("tx.moved");
  if (t.copy) {
    auto n = std::make_unique<CopyTx>(std::move(*t.c));
    t.c = std::move(n);
  } else {
    auto n = std::make_unique<ModTx>(std::move(*t.m));
    t.m = std::move(n); // destroys the moved-from transaction
  }
}

void World::cloneSlot(int i) {
  step();
  logf("clone model %d", i);
  phase("clone");
  Slot &s = *slots[i];
  auto c = s.fm->clone();
  if (!c)
    violate("clone-null", "clone() of a valid model gives nothing");
  RModel want = s.ref;
  adopt(std::move(c), want, "cloned");
  count("op.clone");
}

void World::dropSlot(int i) {
  step();
  logf("destroy model %d", i);
  phase("destroy model");
  slots[i].reset();
  for (auto &t : txs)
    if (t && t->slot == i)
      t->slot = -1;
  count("op.destroy");
}

// The free helper functions: one-edit transactions.
void World::helper(int i) {
  Slot &s = *slots[i];
  step();
  Op op;
  bool bad = oc.bad && chance(oc.bad, 100) && genBad(op, s.ref);
  if (!bad)
    for (int k = 0; k < 8; ++k) {
      op = genOp(s.ref, &s, nullptr);
      RModel x = s.ref;
      if (apply(x, op) == Eff::Ok)
        break;
    }
  RModel want = s.ref;
  Eff e = apply(want, op);
  if (e == Eff::Undefined || (e == Eff::Error && !failing))
    return;
  if (op.k == OpK::AddCon || op.k == OpK::SetName || op.k == OpK::SetPath ||
      op.k == OpK::SetRoot || op.k == OpK::AddChild || op.k == OpK::AddLoc ||
      op.k == OpK::RemoveLoc)
    return; // no helper
  logf("helper on model %d: %s", i, op.str().c_str());
  phase(op.str().c_str());
  count("op.helper");
  auto fv = [&](const Ref &r) -> vf::detail::FeatureVariantTy {
    if (r.byName)
      return r.name;
    return s.p.at(r.uid);
  };
  switch (op.k) {
  case OpK::AddFeature:
    if (chance(1, 3)) {
      std::vector<std::pair<std::unique_ptr<Feature>, Feature *>> v;
      v.emplace_back(realFeat(op.feat), op.hasParent ? s.p.at(op.a.uid) : nullptr);
      if (e == Eff::Ok && chance(1, 2)) {
        Op o2;
        o2.k = OpK::AddFeature;
        o2.feat = genFeat(g, freshName(want));
        o2.hasParent = true;
        o2.a.byName = false;
        o2.a.uid = op.feat.uid;
        v.emplace_back(realFeat(o2.feat), v[0].first.get());
        apply(want, o2);
      }
      vf::addFeatures(*s.fm, std::move(v));
    } else
      vf::addFeature(*s.fm, realFeat(op.feat),
                     op.hasParent ? s.p.at(op.a.uid) : nullptr);
    break;
  case OpK::RemoveFeature:
    vf::removeFeature(*s.fm, fv(op.a), op.recursive);
    break;
  case OpK::AddRel: vf::addRelationship(*s.fm, fv(op.a), op.rk); break;
  case OpK::RemoveRel: vf::removeRelationship(*s.fm, fv(op.a)); break;
  case OpK::SetCommit: vf::setCommit(*s.fm, op.s); break;
  default: break;
  }
  if (e == Eff::Ok)
    s.ref = want;
  std::string d = diff(s.ref, extract(*s.fm));
  if (!d.empty())
    violate("helper-result", "after %s the model differs:%s", op.str().c_str(),
            d.c_str());
  checkSound(*s.fm, "after a helper");
  refresh(s);
}

void World::destroyTx(int ti) { txs[ti].reset(); }

void World::finish() {
  phase("finish");
  for (int ti : openTxs()) {
    if (chance(3, 4))
      commit(ti);
    else
      abort(ti);
  }
  checkAll("final-state", "at the end");
  for (auto &s : slots)
    if (s)
      checkSound(*s->fm, "at the end");
}
} // namespace world
