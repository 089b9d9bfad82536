// C17: several builders used alternately, declarations in any order, conflicts.
#include "world.h"

using namespace sim;
using namespace rm;

namespace {
struct Decl {
  char k;
  std::string a, b; // names: parent, child
  size_t i = 0;     // constraint
  std::string str() const {
    return strf("%c %s %s", k, a.c_str(), b.c_str());
  }
};
struct Build {
  std::unique_ptr<vf::FeatureModelBuilder> B;
  RModel m;
  std::vector<Decl> todo; // in reverse
  std::map<std::string, std::string> parents;
  std::string conflict;
  bool gone = false;
};
const char *WrongName = "no_such_feature";

std::vector<Decl> declarations(const RModel &m, bool dup) {
  std::vector<Decl> d;
  if (m.root != "root" || choose(2))
    d.push_back({'R', m.root, ""});
  for (auto &kv : m.f)
    if (kv.first != m.root)
      d.push_back({'F', "", kv.first});
  for (auto &kv : m.f)
    if (kv.first != m.root && (kv.second.parent != m.root || choose(2)))
      for (uint32_t n = dup && choose(6) == 5 ? 2 : 1; n--;)
        d.push_back({'E', kv.second.parent, kv.first});
  for (auto &kv : m.g)
    d.push_back({'G', kv.first, ""});
  for (size_t i = 0; i < m.cons.size(); ++i)
    d.push_back({'C', "", "", i});
  if (!m.name.empty())
    d.push_back({'N', "", ""});
  if (!m.path.empty())
    d.push_back({'P', "", ""});
  if (!m.commit.empty())
    d.push_back({'K', "", ""});
  return d;
}
// Adds a declaration that conflicts with the others, in whatever order.
std::string spoil(const RModel &m, std::vector<Decl> &d) {
  std::vector<std::string> ns, inner;
  for (auto &kv : m.f) {
    if (kv.first != m.root)
      ns.push_back(kv.first);
  }
  switch (choose(10)) {
  case 8:
    d.push_back({'X', "", "another_root"});
    return "second root";
  case 0:
    if (ns.empty())
      break;
    d.push_back({'F', "", pick(ns)});
    return "duplicate feature";
  case 1:
    d.push_back({'F', "", m.root});
    return "feature named like the root";
  case 2:
    d.push_back({'E', pick(ns.empty() ? std::vector<std::string>{m.root} : ns),
                 WrongName});
    return "edge to an undeclared feature";
  case 3: {
    if (ns.empty())
      break;
    auto n = pick(ns);
    if (m.f.at(n).parent != m.root)
      break;
    for (size_t i = 0; i < d.size();) // its only edge
      if (d[i].k == 'E' && d[i].b == n)
        d.erase(d.begin() + i);
      else
        ++i;
    d.push_back({'E', WrongName, n});
    return "edge from an undeclared feature";
  }
  case 4: {
    for (auto &n : ns)
      if (m.f.at(n).parent == m.root)
        for (auto &k : ns)
          if (k != n && m.below(n, k))
            inner.push_back(n + "|" + k);
    if (inner.empty())
      break;
    auto p = pick(inner);
    auto n = p.substr(0, p.find('|')), k = p.substr(p.find('|') + 1);
    for (size_t i = 0; i < d.size();)
      if (d[i].k == 'E' && d[i].b == n)
        d.erase(d.begin() + i);
      else
        ++i;
    d.push_back({'E', k, n});
    return "cyclic edges";
  }
  case 5: {
    if (ns.empty())
      break;
    auto n = pick(ns);
    d.push_back({'E', n, n});
    return "self edge";
  }
  case 6:
    if (ns.empty())
      break;
    d.push_back({'E', pick(ns), m.root});
    return "edge to the root";
  case 7:
    if (choose(2) && !m.g.empty()) {
      std::vector<std::string> gs;
      for (auto &kv : m.g)
        gs.push_back(kv.first);
      d.push_back({'G', pick(gs), ""});
      return "second group";
    }
    d.push_back({'G', WrongName, ""});
    return "group below an undeclared feature";
  default:
    d.push_back({'W', ns.empty() ? m.root : pick(ns), ""});
    return "constraint over an undeclared feature";
  }
  return "";
}
void declare(Build &b, const Decl &d) {
  auto &B = *b.B;
  const RModel &m = b.m;
  switch (d.k) {
  case 'R':
    B.makeRoot(d.a);
    break;
  case 'F': {
    Feat F;
    auto it = m.f.find(d.b);
    if (it != m.f.end())
      F = it->second;
    if (d.b == m.root)
      F.kind = FK::FK_BINARY;
    F.name = d.b;
    std::vector<vf::FeatureSourceRange> L;
    for (auto &l : F.locs)
      L.push_back(l.real());
    if (F.kind == FK::FK_UNKNOWN)
      B.makeFeature<vf::Feature>(F.name);
    else if (F.kind == FK::FK_BINARY)
      B.makeFeature<vf::BinaryFeature>(F.name, F.opt, std::move(L), F.out);
    else {
      vf::NumericFeature::ValuesVariantType V;
      if (F.isRange)
        V = std::make_pair(F.lo, F.hi);
      else
        V = F.vals;
      B.makeFeature<vf::NumericFeature>(F.name, V, F.opt, std::move(L), F.out,
                                        F.hasStep ? F.step.real() : nullptr);
    }
    break;
  }
  case 'X':
    B.makeFeature<vf::RootFeature>(d.b);
    break;
  case 'E':
    B.addEdge(d.a, d.b);
    b.parents[d.b] = d.a;
    break;
  case 'G': {
    auto it = m.g.find(d.a);
    B.emplaceRelationship(it == m.g.end() ? RK::RK_OR : it->second.kind, d.a);
    break;
  }
  case 'C':
    addConTo(B, m.cons[d.i]);
    break;
  case 'W': {
    Con c;
    c.cls = (int)choose(3);
    auto x = mkF(d.a), y = mkF(WrongName);
    if (choose(2))
      std::swap(x, y);
    if (c.cls == 0)
      c.e = mkB(choose(2) ? CK::CK_IMPLIES : CK::CK_OR, x, y);
    else
      c.e = mkB(CK::CK_EQUAL, x, choose(2) ? y : mkB(CK::CK_ADDITION, y, mkI(1)));
    addConTo(B, c);
    break;
  }
  case 'N':
    B.setVmName(m.name);
    break;
  case 'P':
    B.setPath(m.path);
    break;
  case 'K':
    B.setCommit(m.commit);
    break;
  }
}
void checkParents(Build &b) {
  std::vector<std::string> ns{WrongName};
  for (auto &kv : b.m.f)
    ns.push_back(kv.first);
  auto n = pick(ns);
  auto p = b.B->getParentName(n);
  auto it = b.parents.find(n);
  if (p.has_value() != (it != b.parents.end()) || (p && *p != it->second))
    violate("build:parent-name", "the builder says that the parent of %s is %s, "
            "declared was %s", n.c_str(), p ? p->c_str() : "-",
            it == b.parents.end() ? "-" : it->second.c_str());
}
RModel blank(const RModel &m) { // what is not declared has its default
  RModel r = m;
  vf::FeatureModel D;
  if (m.name.empty())
    r.name = D.getName().str();
  if (m.path.empty())
    r.path = D.getPath().string();
  if (m.commit.empty())
    r.commit = D.getCommit().str();
  return r;
}

void c17() {
  world::setupHeap();
  world::World w; // finished models, to be left alone
  w.g.maxF = thorough() ? 12 : 8;
  w.g.groupMixed = false;
  w.g.unknown = true;
  w.g.xmlRoot = chance(1, 2);
  Gen g = w.g;
  std::vector<std::unique_ptr<Build>> bs;
  std::vector<std::pair<RModel, std::vector<Decl>>> known; // for further orders
  uint32_t left = range(1, thorough() ? 8 : 5);
  uint64_t built = 0, refused = 0;
  auto start = [&] {
    --left;
    auto b = std::make_unique<Build>();
    b->B = std::make_unique<vf::FeatureModelBuilder>();
    std::vector<Decl> d;
    if (!known.empty() && chance(1, 2)) {
      auto &k = pick(known);
      b->m = k.first;
      d = k.second;
      for (auto &kv : b->m.f)
        kv.second.uid = freshUid();
    } else {
      b->m = gen(g);
      b->m.f.at(b->m.root).locs.clear();
      d = declarations(b->m, true);
      known.push_back({b->m, d});
    }
    if (chance(2, 5))
      b->conflict = spoil(b->m, d);
    if (!chance(1, 4)) {
      shuffle(d);
      // the order of constraints is part of the model
      size_t i = 0;
      for (auto &x : d)
        if (x.k == 'C')
          x.i = i++;
    }
    std::string s;
    for (auto &x : d)
      s += " [" + x.str() + "]";
    logf("builder %zu%s%s:%s", bs.size(), b->conflict.empty() ? "" : ", with ",
         b->conflict.c_str(), s.c_str());
    b->todo.assign(d.rbegin(), d.rend());
    bs.push_back(std::move(b));
  };
  start();
  for (;;) {
    std::vector<size_t> open;
    for (size_t i = 0; i < bs.size(); ++i)
      if (!bs[i]->gone)
        open.push_back(i);
    uint32_t k = choose(24);
    if (open.empty() || (k == 23 && left)) {
      if (!left)
        break;
      start();
      continue;
    }
    size_t bi = pick(open);
    Build &b = *bs[bi];
    step();
    if (k < 17 && !b.todo.empty()) {
      phase("declare");
      auto d = b.todo.back();
      b.todo.pop_back();
      declare(b, d);
      checkParents(b);
    } else if (k == 17) { // moved
      phase("move a builder");
      logf("move builder %zu", bi);
      if (choose(2)) {
        b.B = std::make_unique<vf::FeatureModelBuilder>(std::move(*b.B));
      } else {
        auto N = std::make_unique<vf::FeatureModelBuilder>();
        for (uint32_t n = choose(3); n--;) // thrown away by the assignment
          N->makeFeature<vf::BinaryFeature>(strf("junk%u", n));
        if (choose(2))
          N->setVmName("junk");
        *N = std::move(*b.B);
        b.B = std::move(N);
      }
      count("builder.moved");
    } else if (k == 18 && chance(1, 3)) {
      phase("abandon a builder");
      logf("abandon builder %zu", bi);
      b.B.reset();
      b.gone = true;
      count("builder.abandoned");
    } else if (k == 19 && !w.liveSlots().empty()) {
      w.helper(pick(w.liveSlots()));
    } else if (b.todo.empty()) {
      phase("build");
      auto FM = b.B->buildFeatureModel();
      if (chance(1, 2))
        b.B.reset(); // the model does not need its builder
      b.gone = true;
      logf("builder %zu gives %s", bi, FM ? "a model" : "nothing");
      if (!b.conflict.empty()) {
        if (FM)
          violate("build:conflict-accepted",
                  "declarations with a conflict (%s) give a model:%s",
                  b.conflict.c_str(), dump(extract(*FM)).c_str());
        count("builder.refused");
        refused++;
      } else {
        if (!FM)
          violate("build:refused", "sound declarations give no model:%s",
                  dump(b.m).c_str());
        RModel want = blank(b.m);
        checkSound(*FM, "built");
        auto d = diff(want, extract(*FM));
        if (!d.empty())
          violate("build:differs",
                  "the built model differs from the declarations:%s", d.c_str());
        count("builder.built");
        built++;
        state(shapeHash(want));
        w.adopt(std::move(FM), want, "built");
      }
    }
    if (k % 4 == 0)
      w.checkAll("build:other-model-changed", "after a step of a builder");
  }
  bs.clear();
  w.checkAll("build:other-model-changed", "after all builders are gone");
  w.finish();
  summary(strf("%zu builders, %llu built, %llu refused", bs.size(),
               (unsigned long long)built, (unsigned long long)refused));
  if (known.empty() || known[0].first.f.size() < 2)
    discard();
}
Reg r17("C17", "the first declared model has at least two features", c17);
} // namespace
