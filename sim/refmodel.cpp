#include "refmodel.h"
#include "vara/Feature/OrderedFeatureVector.h"
#include "llvm/Support/GraphWriter.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>

namespace rm {
using namespace sim;
using vf::FeatureModel;

static uint64_t UidCounter = 1;
uint64_t freshUid() { return ++UidCounter; }

static std::string lower(std::string s) {
  for (auto &c : s)
    if (c >= 'A' && c <= 'Z')
      c += 'a' - 'A';
  return s;
}

// ---- locations ----------------------------------------------------------------
std::string Loc::str() const {
  std::string s = path + "|";
  s += hasStart ? strf("%u:%u", sl, sc) : "-";
  s += "|";
  s += hasEnd ? strf("%u:%u", el, ec) : "-";
  s += cat ? "|inessential" : "|necessary";
  s += "|mo=" + (hasMO ? mo : std::string("-"));
  s += "|rev=" + (hasRev ? intro + ".." + (hasRemoved ? removed : "") : "-");
  return s;
}
bool Loc::same(const Loc &o) const {
  Loc a = *this, b = o;
  a.hasRev = b.hasRev = false;
  return a.str() == b.str();
}
vf::FeatureSourceRange Loc::real() const {
  using S = vf::FeatureSourceRange;
  std::optional<S::FeatureSourceLocation> s, e;
  if (hasStart)
    s.emplace(sl, sc);
  if (hasEnd)
    e.emplace(el, ec);
  std::optional<S::FeatureMemberOffset> m;
  if (hasMO)
    m = S::FeatureMemberOffset::createFeatureMemberOffset(mo);
  std::optional<S::FeatureRevisionRange> r;
  if (hasRev) {
    if (hasRemoved)
      r.emplace(intro, removed);
    else
      r.emplace(intro);
  }
  return S(fs::path(path), s, e,
           cat ? S::Category::inessential : S::Category::necessary, m, r);
}
Loc locOf(vf::FeatureSourceRange &L) {
  Loc r;
  r.path = L.getPath().string();
  if ((r.hasStart = L.hasStart())) {
    r.sl = L.getStart()->getLineNumber();
    r.sc = L.getStart()->getColumnOffset();
  }
  if ((r.hasEnd = L.hasEnd())) {
    r.el = L.getEnd()->getLineNumber();
    r.ec = L.getEnd()->getColumnOffset();
  }
  r.cat = L.getCategory() == vf::FeatureSourceRange::Category::inessential;
  if ((r.hasMO = L.hasMemberOffset())) {
    // The name as its parts give it; toString() must spell the same one.
    auto &M = *L.getMemberOffset();
    for (size_t i = M.nestingDepth(); i > 0; --i)
      r.mo += M.className(i - 1) + (i > 1 ? "::" : "");
    r.mo += "::" + M.memberName();
    if (r.mo != M.toString())
      r.mo += " spelt " + M.toString();
  }
  if ((r.hasRev = L.hasRevisionRange())) {
    r.intro = L.revisionRange()->introducingCommit().str();
    if ((r.hasRemoved = L.revisionRange()->hasRemovingCommit()))
      r.removed = L.revisionRange()->removingCommit().str();
  }
  return r;
}

// ---- step functions --------------------------------------------------------------
double Step::next(double v) const {
  double a = varFirst ? v : c, b = varFirst ? c : v;
  return op == 0 ? a + b : op == 1 ? a * b : std::pow(a, b);
}
template <class F> static std::string probeWith(F f) {
  return strf("%.17g,%.17g,%.17g", f(1.0), f(2.0), f(3.5));
}
std::string Step::probe() const {
  return probeWith([this](double v) { return next(v); });
}
std::string Step::text() const {
  const char *o = op == 0 ? "+" : op == 1 ? "*" : "^";
  std::string cs = strf("%.17g", c);
  if (c == (double)(long long)c)
    cs = strf("%lld", (long long)c);
  else {
    for (int p = 1; p < 60; ++p) {
      cs = strf("%.*f", p, c); // the step language has no exponents
      if (strtod(cs.c_str(), nullptr) == c)
        break;
    }
  }
  return varFirst ? strf("x %s %s", o, cs.c_str())
                  : strf("%s %s x", cs.c_str(), o);
}
std::unique_ptr<vf::StepFunction> Step::real() const {
  using O = vf::StepFunction::StepOperation;
  O o = op == 0 ? O::ADDITION : op == 1 ? O::MULTIPLICATION : O::EXPONENTIATION;
  if (varFirst)
    return std::make_unique<vf::StepFunction>(o, c);
  return std::make_unique<vf::StepFunction>(c, o);
}

// ---- expressions --------------------------------------------------------------------
ExprP mkF(const std::string &n) {
  auto e = std::make_shared<Expr>();
  e->k = CK::CK_FEATURE;
  e->name = n;
  return e;
}
ExprP mkI(int64_t v) {
  auto e = std::make_shared<Expr>();
  e->k = CK::CK_INTEGER;
  e->val = v;
  return e;
}
ExprP mkU(CK k, ExprP a) {
  auto e = std::make_shared<Expr>();
  e->k = k;
  e->l = std::move(a);
  return e;
}
ExprP mkB(CK k, ExprP a, ExprP b) {
  auto e = std::make_shared<Expr>();
  e->k = k;
  e->l = std::move(a);
  e->r = std::move(b);
  return e;
}
static const char *opName(CK k) {
  switch (k) {
  case CK::CK_ADDITION: return "+";
  case CK::CK_AND: return "&";
  case CK::CK_DIVISION: return "/";
  case CK::CK_EQUAL: return "=";
  case CK::CK_EQUIVALENCE: return "<=>";
  case CK::CK_EXCLUDES: return "excludes";
  case CK::CK_GREATER: return ">";
  case CK::CK_GREATER_EQUAL: return ">=";
  case CK::CK_IMPLIES: return "=>";
  case CK::CK_LESS: return "<";
  case CK::CK_LESS_EQUAL: return "<=";
  case CK::CK_MULTIPLICATION: return "*";
  case CK::CK_NEG: return "~";
  case CK::CK_NOT: return "!";
  case CK::CK_NOT_EQUAL: return "!=";
  case CK::CK_OR: return "|";
  case CK::CK_SUBTRACTION: return "-";
  case CK::CK_XOR: return "^";
  default: return "?";
  }
}
static std::string render(const ExprP &e, bool lang) {
  if (e->k == CK::CK_FEATURE)
    return e->name;
  if (e->k == CK::CK_INTEGER)
    return strf("%lld", (long long)e->val);
  if (!e->r) {
    std::string in = render(e->l, lang);
    if (e->l->k == CK::CK_FEATURE || e->l->k == CK::CK_INTEGER || e->l->r)
      return opName(e->k) + in;
    return std::string(opName(e->k)) + (lang ? in : "(" + in + ")");
  }
  if (lang && e->k == CK::CK_EXCLUDES)
    return "(" + render(e->l, lang) + " => !" + render(e->r, lang) + ")";
  return "(" + render(e->l, lang) + " " + opName(e->k) + " " +
         render(e->r, lang) + ")";
}
std::string str(const ExprP &e) { return render(e, false); }
std::string text(const ExprP &e) { return render(e, true); }
void names(const ExprP &e, std::vector<std::string> &out) {
  if (e->k == CK::CK_FEATURE)
    out.push_back(e->name);
  if (e->l)
    names(e->l, out);
  if (e->r)
    names(e->r, out);
}
bool mentions(const ExprP &e, const std::string &n) {
  return (e->k == CK::CK_FEATURE && e->name == n) ||
         (e->l && mentions(e->l, n)) || (e->r && mentions(e->r, n));
}
ExprP renameIn(const ExprP &e, const std::string &from, const std::string &to) {
  if (!mentions(e, from))
    return e;
  auto n = std::make_shared<Expr>(*e);
  if (n->k == CK::CK_FEATURE && n->name == from)
    n->name = to;
  if (n->l)
    n->l = renameIn(n->l, from, to);
  if (n->r)
    n->r = renameIn(n->r, from, to);
  return n;
}
bool isPlain(const ExprP &e, CK k) {
  return e->k == k && e->l->k == CK::CK_FEATURE && e->r->k == CK::CK_FEATURE;
}
std::unique_ptr<vf::Constraint> realExpr(const ExprP &e) {
  using namespace vf;
#define BIN(K, T)                                                              \
  case CK::K:                                                                  \
    return std::make_unique<T>(realExpr(e->l), realExpr(e->r));
  switch (e->k) {
    BIN(CK_ADDITION, AdditionConstraint)
    BIN(CK_AND, AndConstraint)
    BIN(CK_DIVISION, DivisionConstraint)
    BIN(CK_EQUAL, EqualConstraint)
    BIN(CK_EQUIVALENCE, EquivalenceConstraint)
    BIN(CK_EXCLUDES, ExcludesConstraint)
    BIN(CK_GREATER, GreaterConstraint)
    BIN(CK_GREATER_EQUAL, GreaterEqualConstraint)
    BIN(CK_IMPLIES, ImpliesConstraint)
    BIN(CK_LESS, LessConstraint)
    BIN(CK_LESS_EQUAL, LessEqualConstraint)
    BIN(CK_MULTIPLICATION, MultiplicationConstraint)
    BIN(CK_NOT_EQUAL, NotEqualConstraint)
    BIN(CK_OR, OrConstraint)
    BIN(CK_SUBTRACTION, SubtractionConstraint)
    BIN(CK_XOR, XorConstraint)
  case CK::CK_NEG:
    return std::make_unique<NegConstraint>(realExpr(e->l));
  case CK::CK_NOT:
    return std::make_unique<NotConstraint>(realExpr(e->l));
  case CK::CK_INTEGER:
    return std::make_unique<PrimaryIntegerConstraint>(e->val);
  default:
    return std::make_unique<PrimaryFeatureConstraint>(
        std::make_unique<Feature>(e->name));
  }
#undef BIN
}
ExprP exprOf(vf::Constraint *c) {
  if (!c)
    violate("null-constraint", "a constraint tree contains a null operand");
  auto e = std::make_shared<Expr>();
  e->k = c->getKind();
  if (auto *i = llvm::dyn_cast<vf::PrimaryIntegerConstraint>(c)) {
    e->val = i->getValue();
    return e;
  }
  if (auto *p = llvm::dyn_cast<vf::PrimaryFeatureConstraint>(c)) {
    if (!p->getFeature())
      violate("null-feature", "a constraint refers to no feature");
    e->name = p->getFeature()->getName().str();
    return e;
  }
  if (e->k == CK::CK_NEG || e->k == CK::CK_NOT) {
    e->l = exprOf(static_cast<vf::UnaryConstraint *>(c)->getOperand());
    return e;
  }
  auto *b = static_cast<vf::BinaryConstraint *>(c);
  e->l = exprOf(b->getLeftOperand());
  e->r = exprOf(b->getRightOperand());
  return e;
}
std::string Con::str() const {
  std::string s = cls == 0 ? "bool " : cls == 1 ? "num " : "mixed ";
  if (cls == 2)
    s += strf("%s,%s ", req ? "none" : "all", neg ? "neg" : "pos");
  return s + rm::str(e);
}

// ---- model queries -----------------------------------------------------------------------
std::vector<std::string> RModel::children(const std::string &p) const {
  std::vector<std::string> r;
  for (auto &kv : f)
    if (kv.first != root && kv.second.parent == p)
      r.push_back(kv.first);
  return r;
}
std::vector<std::string> RModel::direct(const std::string &p) const {
  std::vector<std::string> r;
  for (auto &n : children(p))
    if (!f.at(n).inGroup)
      r.push_back(n);
  return r;
}
std::vector<std::string> RModel::grouped(const std::string &p) const {
  std::vector<std::string> r;
  for (auto &n : children(p))
    if (f.at(n).inGroup)
      r.push_back(n);
  return r;
}
bool RModel::below(const std::string &anc, const std::string &n) const {
  std::string c = n;
  for (size_t i = 0; i <= f.size(); ++i) {
    if (c == anc)
      return true;
    if (c == root || !f.count(c))
      return false;
    c = f.at(c).parent;
  }
  return false;
}
std::vector<std::string> RModel::dfs() const {
  std::vector<std::string> out;
  std::function<void(const std::string &)> go = [&](const std::string &n) {
    out.push_back(n);
    auto c = children(n);
    std::stable_sort(c.begin(), c.end(),
                     [](const std::string &a, const std::string &b) {
                       return lower(a) < lower(b);
                     });
    for (auto &x : c)
      go(x);
  };
  go(root);
  return out;
}
const Feat *RModel::byUid(uint64_t uid) const {
  for (auto &kv : f)
    if (kv.second.uid == uid)
      return &kv.second;
  return nullptr;
}
std::string RModel::groupByUid(uint64_t uid) const {
  for (auto &kv : g)
    if (kv.second.uid == uid)
      return kv.first;
  return "";
}

std::vector<std::string> lines(const RModel &m, const Cmp &c) {
  std::vector<std::string> v;
  v.push_back("name: " + m.name);
  v.push_back("path: " + m.path);
  v.push_back("commit: " + m.commit);
  v.push_back("root: " + m.root);
  for (auto &kv : m.f) {
    const Feat &F = kv.second;
    std::string s = "feature " + kv.first;
    if (F.name != kv.first)
      s += " (named " + F.name + ")";
    s += F.kind == FK::FK_ROOT      ? " root"
         : F.kind == FK::FK_BINARY  ? " binary"
         : F.kind == FK::FK_NUMERIC ? " numeric"
                                    : " unknown";
    s += F.opt ? " optional" : " mandatory";
    s += " out='" + F.out + "'";
    if (kv.first != m.root)
      s += " parent=" + F.parent + (F.inGroup ? " (in group)" : "");
    if (F.kind == FK::FK_NUMERIC) {
      if (F.isRange)
        s += strf(" range [%lld,%lld]", (long long)F.lo, (long long)F.hi);
      else {
        s += " values {";
        for (auto x : F.vals)
          s += strf("%lld;", (long long)x);
        s += "}";
      }
      s += " step=" +
           (F.hasStep ? (F.probe.empty() ? F.step.probe() : F.probe) : "-");
    }
    v.push_back(s);
    std::vector<std::string> L;
    for (auto &l : F.locs)
      L.push_back("  location of " + kv.first + ": " + l.str());
    if (!c.locOrder)
      std::sort(L.begin(), L.end());
    v.insert(v.end(), L.begin(), L.end());
  }
  for (auto &kv : m.g)
    v.push_back("group of " + kv.first +
                (kv.second.kind == RK::RK_OR ? " OR" : " ALTERNATIVE"));
  for (int cls = 0; cls < 3; ++cls) {
    std::vector<std::string> C;
    for (auto &x : m.cons)
      if (x.cls == cls)
        C.push_back("constraint " + x.str());
    if (!c.conOrder) {
      std::sort(C.begin(), C.end());
      if (c.conDedup)
        C.erase(std::unique(C.begin(), C.end()), C.end());
    }
    v.insert(v.end(), C.begin(), C.end());
  }
  return v;
}
std::string diff(const RModel &want, const RModel &got, const Cmp &c) {
  auto a = lines(want, c), b = lines(got, c);
  if (a == b)
    return "";
  std::string r;
  std::multiset<std::string> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  int n = 0;
  for (auto &x : a)
    if (sb.count(x) < sa.count(x) && n++ < 6)
      r += "\n  expected: " + x;
  n = 0;
  for (auto &x : b)
    if (sa.count(x) < sb.count(x) && n++ < 6)
      r += "\n  found:    " + x;
  if (r.empty()) {
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i] != b[i]) {
        r = "\n  order differs: expected '" + a[i] + "' found '" + b[i] + "'";
        break;
      }
  }
  return r;
}
std::string dump(const RModel &m) {
  std::string s;
  for (auto &l : lines(m))
    s += "\n    " + l;
  return s;
}
uint64_t shapeHash(const RModel &m) {
  uint64_t h = 7;
  auto d = m.dfs();
  std::map<std::string, int> idx;
  for (size_t i = 0; i < d.size(); ++i)
    idx[d[i]] = (int)i;
  for (auto &n : d) {
    const Feat &F = m.f.at(n);
    h = mix(h, (n == m.root ? 0 : idx[F.parent] + 1) * 64 + (int)F.kind * 8 +
                   F.opt * 4 + F.inGroup * 2 + F.isRange);
    h = mix(h, F.locs.size() * 8 + F.hasStep);
    auto g = m.g.find(n);
    h = mix(h, g == m.g.end() ? 0 : 1 + (int)g->second.kind);
  }
  for (auto &c : m.cons) {
    std::vector<std::string> ns;
    names(c.e, ns);
    h = mix(h, c.cls * 100 + (int)c.e->k);
    for (auto &n : ns)
      h = mix(h, idx.count(n) ? idx[n] : 99);
  }
  return h;
}

// ---- observation -----------------------------------------------------------------------
RModel extract(const FeatureModel &FM) {
  RModel m;
  m.name = FM.getName().str();
  m.path = FM.getPath().string();
  m.commit = FM.getCommit().str();
  m.root = FM.getRoot() ? FM.getRoot()->getName().str() : "<none>";
  for (auto *F : FM.unorderedFeatures()) {
    Feat x;
    x.name = F->getName().str();
    x.kind = F->getKind();
    x.opt = F->isOptional();
    x.out = F->getOutputString().str();
    for (auto &L : F->getLocations())
      x.locs.push_back(locOf(L));
    if (auto *N = llvm::dyn_cast<vf::NumericFeature>(F)) {
      auto V = N->getValues();
      if (std::holds_alternative<vf::NumericFeature::ValueRangeType>(V)) {
        auto P = std::get<vf::NumericFeature::ValueRangeType>(V);
        x.lo = P.first;
        x.hi = P.second;
      } else {
        x.isRange = false;
        x.vals = std::get<vf::NumericFeature::ValueListType>(V);
      }
      if (auto *S = N->getStepFunction()) {
        x.hasStep = true;
        x.probe = probeWith([S](double v) { return S->next(v); });
      }
    }
    if (auto *P = F->getParentFeature()) {
      x.parent = P->getName().str();
      x.inGroup =
          F->getParent()->getKind() != vf::FeatureTreeNode::NodeKind::NK_FEATURE;
    } else if (x.name != m.root)
      x.parent = "<none>";
    m.f[x.name] = x;
  }
  for (auto &r : FM.relationships()) {
    auto *P = llvm::dyn_cast_or_null<vf::Feature>(r->getParent());
    std::string pn = P ? P->getName().str() : "<none>";
    if (m.g.count(pn))
      pn += "<second>";
    m.g[pn].kind = r->getKind();
  }
  for (const auto &c : FM.booleanConstraints())
    m.cons.push_back({0, 0, 0, exprOf(c->constraint())});
  for (const auto &c : FM.nonBooleanConstraints())
    m.cons.push_back({1, 0, 0, exprOf(c->constraint())});
  for (const auto &c : FM.mixedConstraints())
    m.cons.push_back({2, c->req() == FeatureModel::MixedConstraint::Req::NONE,
                      c->exprKind() ==
                          FeatureModel::MixedConstraint::ExprKind::NEG,
                      exprOf(c->constraint())});
  return m;
}

static void walkCon(const FeatureModel &FM, vf::Constraint *root,
                    vf::Constraint *c, vf::Constraint *parent, const char *w,
                    std::map<vf::Feature *, std::multiset<void *>> &leafs,
                    std::map<vf::Feature *, std::multiset<void *>> &imp,
                    std::map<vf::Feature *, std::multiset<void *>> &exc) {
  if (c->getParent() != parent)
    violate("sound:constraint-parent",
            "%s: operand of constraint '%s' has a wrong parent pointer", w,
            root->toString().c_str());
  if (auto *p = llvm::dyn_cast<vf::PrimaryFeatureConstraint>(c)) {
    auto *F = p->getFeature();
    if (!F || FM.getFeature(F->getName()) != F)
      violate("sound:constraint-feature",
              "%s: constraint '%s' refers to a feature '%s' that is not the "
              "model's own feature of that name",
              w, root->toString().c_str(),
              F ? F->getName().str().c_str() : "null");
    leafs[F].insert(static_cast<vf::Constraint *>(p));
    if (root->getKind() == CK::CK_IMPLIES)
      imp[F].insert(root);
    if (root->getKind() == CK::CK_EXCLUDES)
      exc[F].insert(root);
  } else if (c->getKind() == CK::CK_NOT || c->getKind() == CK::CK_NEG) {
    walkCon(FM, root, static_cast<vf::UnaryConstraint *>(c)->getOperand(), c, w,
            leafs, imp, exc);
  } else if (c->getKind() != CK::CK_INTEGER) {
    auto *b = static_cast<vf::BinaryConstraint *>(c);
    walkCon(FM, root, b->getLeftOperand(), c, w, leafs, imp, exc);
    walkCon(FM, root, b->getRightOperand(), c, w, leafs, imp, exc);
  }
}

void checkSound(const FeatureModel &FM, const char *w) {
  auto *Root = FM.getRoot();
  if (!Root)
    violate("sound:no-root", "%s: the model has no root", w);
  if (Root->getParent())
    violate("sound:root-parent", "%s: the root has a parent", w);
  std::set<const vf::FeatureTreeNode *> all;
  size_t roots = 0, n = 0;
  for (auto *F : FM.unorderedFeatures()) {
    ++n;
    all.insert(F);
    if (FM.getFeature(F->getName()) != F)
      violate("sound:key", "%s: looking up '%s' does not give that feature", w,
              F->getName().str().c_str());
    roots += F->getKind() == FK::FK_ROOT;
  }
  if (n != FM.size())
    violate("sound:size", "%s: size() is %u but there are %zu features", w,
            FM.size(), n);
  if (!all.count(Root))
    violate("sound:root-foreign", "%s: the root is not among the features", w);
  if (roots != 1)
    violate("sound:roots", "%s: %zu root features", w, roots);
  std::set<const vf::FeatureTreeNode *> rels;
  for (auto &r : FM.relationships())
    rels.insert(r.get());
  // tree
  std::set<vf::FeatureTreeNode *> seen{Root};
  std::vector<vf::FeatureTreeNode *> todo{Root};
  while (!todo.empty()) {
    auto *N = todo.back();
    todo.pop_back();
    for (auto *C : N->children()) {
      bool isF = all.count(C), isR = rels.count(C);
      if (!isF && !isR)
        violate("sound:foreign-child",
                "%s: a child edge leads to a node that is not in the model", w);
      std::string cn = isF ? static_cast<vf::Feature *>(C)->getName().str()
                           : std::string("group");
      if (!seen.insert(C).second)
        violate("sound:two-parents", "%s: '%s' is listed as a child twice", w,
                cn.c_str());
      if (C->getParent() != N)
        violate("sound:parent-mismatch",
                "%s: '%s' is listed as a child of a node that is not its parent",
                w, cn.c_str());
      if (!N->hasEdgeTo(*C) || !C->hasEdgeFrom(*N))
        violate("sound:edge", "%s: hasEdgeTo/hasEdgeFrom deny the edge to '%s'",
                w, cn.c_str());
      if (isR && rels.count(N))
        violate("sound:nested-group", "%s: a group hangs below a group", w);
      todo.push_back(C);
    }
  }
  for (auto *F : FM.unorderedFeatures())
    if (!seen.count(F))
      violate("sound:unreachable", "%s: '%s' is not reachable from the root", w,
              F->getName().str().c_str());
  for (auto &r : FM.relationships())
    if (!seen.count(r.get()))
      violate("sound:group-unreachable",
              "%s: a group is not reachable from the root", w);
  // traversal
  std::vector<std::string> want, got;
  std::set<std::string> lows;
  {
    std::function<void(vf::Feature *)> go = [&](vf::Feature *F) {
      want.push_back(F->getName().str());
      lows.insert(lower(want.back()));
      std::vector<vf::Feature *> kids;
      for (auto *C : F->children()) {
        if (all.count(C))
          kids.push_back(static_cast<vf::Feature *>(C));
        else
          for (auto *D : C->children())
            kids.push_back(static_cast<vf::Feature *>(D));
      }
      std::sort(kids.begin(), kids.end(), [](vf::Feature *a, vf::Feature *b) {
        auto x = lower(a->getName().str()), y = lower(b->getName().str());
        return x != y ? x < y : a->getName() < b->getName();
      });
      for (auto *k : kids)
        go(k);
    };
    go(Root);
  }
  std::vector<vf::Feature *> seq;
  for (auto *F : FM.features()) {
    if (!F || seq.size() > all.size() + 2)
      violate("sound:traversal", "%s: traversal visits too much", w);
    seq.push_back(F);
    got.push_back(F->getName().str());
  }
  if (lows.size() == want.size()) { // the order is only defined then
    if (want != got) {
      std::string a, b;
      for (auto &x : want)
        a += x + " ";
      for (auto &x : got)
        b += x + " ";
      violate("sound:traversal", "%s: traversal order: expected %s; found %s",
              w, a.c_str(), b.c_str());
    }
    for (size_t i = 0; i < seq.size(); ++i)
      for (size_t j = 0; j < seq.size(); ++j) {
        if ((*seq[i] < *seq[j]) != (i < j) || (*seq[i] > *seq[j]) != (i > j))
          violate("sound:compare",
                  "%s: comparing '%s' and '%s' disagrees with the traversal "
                  "order",
                  w, got[i].c_str(), got[j].c_str());
      }
    // An ordered vector filled and thinned out in any order keeps it.
    if (seq.size() > 1 && chance(1, 4)) {
      auto pool = seq;
      shuffle(pool);
      vf::deprecated::OrderedFeatureVector V;
      std::set<vf::Feature *> in;
      size_t most = range(1, 12);
      for (auto *F : pool) {
        if (in.size() == most)
          break;
        V.insert(F);
        in.insert(F);
        if (chance(1, 5)) {
          auto *G = *std::next(in.begin(), choose(in.size()));
          V.remove(G);
          in.erase(G);
        }
      }
      std::vector<vf::Feature *> sorted;
      for (auto *F : seq)
        if (in.count(F))
          sorted.push_back(F);
      if (std::vector<vf::Feature *>(V.begin(), V.end()) != sorted ||
          V.size() != sorted.size() || V.empty() != sorted.empty())
        violate("sound:ordered-vector", "%s: an ordered vector of %zu features "
                "does not have the traversal order", w, sorted.size());
    }
  } else if (seq.size() != want.size())
    violate("sound:traversal", "%s: traversal visits %zu of %zu features", w,
            seq.size(), want.size());
  // queries
  for (auto *F : FM.unorderedFeatures()) {
    auto n = F->getName().str();
    vf::FeatureTreeNode *P = F->getParent();
    if (P && rels.count(P))
      P = P->getParent();
    if (F->getParentFeature() != P)
      violate("sound:parent-feature", "%s: '%s' has a wrong parent feature", w, n.c_str());
    std::set<vf::Feature *> direct, any;
    std::set<vf::Relationship *> groups;
    size_t below = 0;
    for (auto *C : F->children()) {
      ++below;
      if (all.count(C)) {
        direct.insert(static_cast<vf::Feature *>(C));
        any.insert(static_cast<vf::Feature *>(C));
        continue;
      }
      groups.insert(static_cast<vf::Relationship *>(C));
      for (auto *D : C->children())
        any.insert(static_cast<vf::Feature *>(D));
    }
    auto same = [](const auto &a, const auto &b) {
      if (a.size() != b.size())
        return false;
      for (auto *x : a)
        if (!b.count(x))
          return false;
      return true;
    };
    if (F->isLeaf() != (below == 0) || F->getChildren().size() != below ||
        !same(F->getChildren<vf::Feature>(1), direct) ||
        !same(F->getChildren<vf::Feature>(), any) ||
        !same(F->getChildren<vf::Feature>(2), any) ||
        !same(F->getChildren<vf::Relationship>(1), groups))
      violate("sound:children", "%s: queries for the children of '%s' disagree "
              "with its edges", w, n.c_str());
  }
  // constraints
  std::map<vf::Feature *, std::multiset<void *>> leafs, imp, exc;
  auto each = [&](vf::Constraint *c) {
    if (!c)
      violate("null-constraint", "%s: empty constraint", w);
    walkCon(FM, c, c, nullptr, w, leafs, imp, exc);
  };
  for (const auto &c : FM.booleanConstraints())
    each(c->constraint());
  for (const auto &c : FM.nonBooleanConstraints())
    each(c->constraint());
  for (const auto &c : FM.mixedConstraints())
    each(c->constraint());
  for (auto *F : FM.unorderedFeatures()) {
    std::multiset<void *> a, b, c;
    for (auto *x : F->constraints())
      a.insert(x);
    for (auto *x : F->implications())
      b.insert(static_cast<vf::Constraint *>(x));
    for (auto *x : F->excludes())
      c.insert(static_cast<vf::Constraint *>(x));
    if (a != leafs[F])
      violate("sound:constraint-list",
              "%s: '%s' lists %zu constraint occurrences, %zu exist (or others)",
              w, F->getName().str().c_str(), a.size(), leafs[F].size());
    if (b != imp[F])
      violate("sound:implication-list",
              "%s: '%s' lists %zu implications, %zu exist (or others)", w,
              F->getName().str().c_str(), b.size(), imp[F].size());
    if (c != exc[F])
      violate("sound:exclude-list",
              "%s: '%s' lists %zu excludes, %zu exist (or others)", w,
              F->getName().str().c_str(), c.size(), exc[F].size());
  }
}

std::string fullDump(const FeatureModel &FM) {
  std::string s;
  for (auto *F : FM.features())
    s += F->toString() + "\n";
  for (const auto &c : FM.booleanConstraints())
    s += c->toString() + "#" + c->toHTML() + "\n";
  for (const auto &c : FM.nonBooleanConstraints())
    s += c->toString() + "#" + c->toHTML() + "\n";
  for (const auto &c : FM.mixedConstraints())
    s += c->toString() + "#" + c->toHTML() + "\n";
  return s;
}

// ---- generation -------------------------------------------------------------------------
static const std::vector<std::string> &pool() {
  static const std::vector<std::string> P = {
      "a",    "B",     "aB",     "c1",  "C2",   "ab_c", "Zeta", "alpha",
      "y_1",  "num",   "Num2",   "foo", "fooB", "Foo_", "z",    "Q",
      "beta", "GAMMA", "d10",    "d9",  "e",    "F",    "or1",  "x",
      "M",    "n_",    "Option", "opt", "K9",   "k",    "T_t",  "zz"};
  return P;
}
std::string freshName(const RModel &m, const std::set<std::string> &also) {
  std::set<std::string> used;
  for (auto &kv : m.f)
    used.insert(lower(kv.first));
  for (auto &s : also)
    used.insert(lower(s));
  std::vector<std::string> fr;
  for (auto &n : pool())
    if (!used.count(lower(n)))
      fr.push_back(n);
  if (!fr.empty())
    return pick(fr);
  for (int i = 0;; ++i) {
    auto n = strf("g%d", i);
    if (!used.count(n))
      return n;
  }
}
Loc genLoc(const Gen &g) {
  static const std::vector<std::string> Paths = {
      "src/a.cpp", "b.h", "src/dir/long name.cpp", "x.cc", "./s//t/../u.c",
      "/d/"};
  Loc l;
  l.path = pick(Paths);
  l.hasStart = l.hasEnd = true;
  if (g.partialLocs && chance(1, 4)) {
    l.hasStart = chance(1, 2);
    l.hasEnd = chance(1, 3);
  }
  if (l.hasStart) {
    l.sl = range(1, 20);
    l.sc = range(0, 9);
  }
  if (l.hasEnd) {
    l.el = range(1, 30);
    l.ec = range(0, 9);
  }
  l.cat = chance(1, 3);
  if (chance(1, 4)) {
    static const std::vector<std::string> MO = {"cls::m", "ns::C::mem", "A::b",
                                                "a::b::c::Dd::m_e"};
    l.hasMO = true;
    l.mo = pick(MO);
  }
  if (chance(1, 4)) {
    static const std::vector<std::string> Rev = {"94fe792df46", "1234abcd",
                                                 "fe7"};
    l.hasRev = true;
    l.intro = pick(Rev);
    if (chance(1, 2)) {
      l.hasRemoved = true;
      l.removed = pick(Rev);
    }
  }
  return l;
}
// Differs from l in one detail, if at all.
Loc nearLoc(const Loc &l) {
  Loc r = l;
  static const std::vector<std::string> MO = {"cls::m", "cls::n", "a::cls::m"};
  switch (choose(10)) {
  case 8: // the same member of another class
    if (r.hasMO)
      r.mo = chance(1, 2) ? "q::" + r.mo : "k" + r.mo;
    break;
  case 0: r.path += "p"; break;
  case 1: if (r.hasStart) r.sl += 1; break;
  case 2: if (r.hasStart) r.sc += 1; break;
  case 3: if (r.hasEnd) r.el += 1; break;
  case 4: if (r.hasEnd) r.ec += 1; break;
  case 5:
    r.hasMO = true;
    r.mo = pick(MO);
    break;
  case 6: r.hasMO = false; r.mo.clear(); break;
  case 7: r.cat = !r.cat; break;
  default:
    break;
  }
  return r;
}
Feat genFeat(const Gen &g, const std::string &name) {
  Feat F;
  F.uid = freshUid();
  F.name = name;
  if (g.unknown && chance(1, 10)) {
    F.kind = FK::FK_UNKNOWN;
    return F;
  }
  F.opt = chance(1, 2);
  if (g.numeric && chance(1, 4)) {
    F.kind = FK::FK_NUMERIC;
    if (chance(1, 2)) {
      F.isRange = false;
      uint32_t n = range(1, 4);
      static const std::vector<int64_t> V = {
          0, 1, 2, 3, 5, 8, 10, 100, -1, -7, 4096, 5000000000ll, -6000000000ll};
      std::set<int64_t> used;
      for (uint32_t i = 0; i < n; ++i) {
        auto v = pick(V);
        if (used.insert(v).second)
          F.vals.push_back(v);
      }
      if (chance(1, 10))
        F.vals.push_back(pick(F.vals)); // listed twice
      if (g.steps && chance(1, 8)) { // without a meaning, but kept
        F.hasStep = true;
        F.step.op = choose(3);
        F.step.varFirst = chance(1, 2);
        F.step.c = 2;
      }
    } else {
      F.lo = (int64_t)range(0, 6) - 2;
      F.hi = F.lo + range(0, 5);
      if (chance(1, 10))
        F.hi = 5000000000ll;
      else if (chance(1, 20))
        F.hi = F.lo - range(1, 3); // empty
      if (g.steps && (!g.rangeNoStep || chance(2, 3))) {
        F.hasStep = true;
        F.step.op = chance(1, 3) ? range(1, 2) : 0;
        F.step.varFirst = !chance(1, 3);
        static const std::vector<double> Cs = {2, 1, 3, 0.5, 1.25, 10, 0.001};
        F.step.c = pick(Cs);
      }
    }
  }
  if (g.outs && chance(1, 3)) {
    static const std::vector<std::string> Os = {"-flag", "--name", "-x ",
                                                "--opt="};
    F.out = pick(Os);
  }
  if (g.locs && chance(1, 3)) {
    uint32_t n = range(1, 3);
    for (uint32_t i = 0; i < n; ++i)
      F.locs.push_back(i && chance(1, 3) ? nearLoc(F.locs.back()) : genLoc(g));
  }
  return F;
}

static ExprP genBool(const std::vector<std::string> &bs, int depth, int lang) {
  uint32_t k = depth <= 0 ? 0 : choose(7);
  auto sub = [&] { return genBool(bs, depth - 1, lang); };
  switch (k) {
  case 1: { auto a = sub(); return mkU(CK::CK_NOT, a); }
  case 2: { auto a = sub(), b = sub(); return mkB(CK::CK_AND, a, b); }
  case 3: { auto a = sub(), b = sub(); return mkB(CK::CK_OR, a, b); }
  case 4: { auto a = sub(), b = sub(); return mkB(CK::CK_IMPLIES, a, b); }
  case 5: { auto a = sub(), b = sub(); return mkB(CK::CK_EQUIVALENCE, a, b); }
  case 6: {
    auto a = sub(), b = sub();
    return mkB((lang & 1) ? CK::CK_OR : chance(1, 2) ? CK::CK_XOR : CK::CK_EXCLUDES, a,
               b);
  }
  default: return mkF(pick(bs));
  }
}
static ExprP genNum(const std::vector<std::string> &ns,
                    const std::vector<std::string> &bs, int depth, int lang) {
  uint32_t k = depth <= 0 ? choose(2) : choose(6);
  auto sub = [&] { return genNum(ns, bs, depth - 1, lang); };
  if (k == 4 && !lang && chance(1, 2)) {
    auto a = sub(), b = sub();
    return mkB(CK::CK_DIVISION, a, b);
  }
  switch (k) {
  case 1: {
    static const std::vector<int64_t> V = {1, 0, 2, 5, 10, 3};
    static const std::vector<int64_t> X = {
        -1, -7, 3000000000ll, -2147483649ll, INT64_MAX, INT64_MIN, 1ll << 53,
        (1ll << 53) + 1, 65536, -100};
    if (lang == 3 && chance(1, 3))
      return mkI(pick(X));
    return mkI(pick(V));
  }
  case 2: { auto a = sub(), b = sub(); return mkB(CK::CK_ADDITION, a, b); }
  case 3: { auto a = sub(), b = sub(); return mkB(CK::CK_SUBTRACTION, a, b); }
  case 4: { auto a = sub(), b = sub(); return mkB(CK::CK_MULTIPLICATION, a, b); }
  case 5: {
    auto a = sub();
    if (lang == 1)
      return a;
    return mkU(CK::CK_NEG, a);
  }
  default:
    if (!bs.empty() && chance(1, 2))
      return mkF(pick(bs));
    return mkF(pick(ns));
  }
}
static ExprP genCmp(const std::vector<std::string> &ns,
                    const std::vector<std::string> &bs, int depth, int lang) {
  static const std::vector<CK> Ks = {CK::CK_EQUAL,        CK::CK_NOT_EQUAL,
                                     CK::CK_LESS,         CK::CK_GREATER,
                                     CK::CK_LESS_EQUAL,   CK::CK_GREATER_EQUAL};
  auto k = pick(Ks);
  auto a = genNum(ns, bs, depth - 1, lang), b = genNum(ns, bs, depth - 1, lang);
  auto e = mkB(k, a, b);
  if (depth > 1 && chance(1, 5)) {
    auto o = genCmp(ns, bs, 1, lang);
    e = mkB(chance(1, 2) ? CK::CK_AND : CK::CK_OR, e, o);
  }
  return e;
}
// Comparisons below connectives.
static ExprP genAny(const std::vector<std::string> &ns,
                    const std::vector<std::string> &bs, int depth, int lang) {
  uint32_t k = depth <= 0 ? choose(2) : choose(7);
  auto sub = [&] { return genAny(ns, bs, depth - 1, lang); };
  switch (k) {
  case 2: { auto a = sub(); return mkU(CK::CK_NOT, a); }
  case 3: { auto a = sub(), b = sub(); return mkB(CK::CK_AND, a, b); }
  case 4: { auto a = sub(), b = sub(); return mkB(CK::CK_OR, a, b); }
  case 5: { auto a = sub(), b = sub(); return mkB(CK::CK_IMPLIES, a, b); }
  case 6: { auto a = sub(), b = sub(); return mkB(CK::CK_EQUIVALENCE, a, b); }
  case 1:
    if (!bs.empty())
      return mkF(pick(bs));
    [[fallthrough]];
  default: return genCmp(ns, {}, 1, lang);
  }
}
static void split(const RModel &m, std::vector<std::string> &bs,
                  std::vector<std::string> &ns) {
  for (auto &kv : m.f)
    (kv.second.kind == FK::FK_NUMERIC ? ns : bs).push_back(kv.first);
}
static Con genConImpl(const Gen &g, const RModel &m,
                      const std::vector<std::string> &extra) {
  std::vector<std::string> bs, ns;
  split(m, bs, ns);
  for (auto &e : extra)
    bs.push_back(e);
  Con c;
  bool canNum = !ns.empty() && g.numCons, canMix = !ns.empty() && g.mixedCons;
  c.cls = choose(4) < 2 ? 0 : choose(3);
  if (c.cls == 1 && !canNum)
    c.cls = 0;
  if (c.cls == 2 && !canMix)
    c.cls = 0;
  int lang = g.extreme ? 3 : g.xmlOnly ? 1 : g.division ? 0 : 2;
  if (c.cls == 2) {
    c.req = chance(1, 2);
    c.neg = chance(1, 3);
  }
  if (g.extreme && chance(1, 30)) {
    uint32_t n = range(5, 150);
    bool left = chance(1, 2), flat = chance(1, 2);
    auto k = chance(1, 2) ? CK::CK_OR : CK::CK_AND;
    c.cls = 0;
    c.e = mkF(pick(bs));
    for (uint32_t i = 0; i < n; ++i) {
      auto f = mkF(bs[i % bs.size()]);
      if (!flat && i % 3 == 1)
        f = mkU(CK::CK_NOT, f);
      c.e = left ? mkB(k, c.e, f) : mkB(k, f, c.e);
      if (!flat && i % 4 == 3)
        c.e = mkU(CK::CK_NOT, c.e);
    }
    return c;
  }
  if (c.cls ? chance(1, 5) : canMix && chance(1, 12)) {
    if (c.cls && chance(1, 4)) {
      auto a = mkF(pick(bs)), b = mkF(pick(bs));
      c.e = mkB(chance(1, 2) && !g.xmlOnly ? CK::CK_EXCLUDES : CK::CK_IMPLIES,
                a, b);
    } else {
      c.e = genAny(ns, bs, 2, lang);
    }
  } else if (c.cls == 0) {
    if (chance(3, 5)) {
      auto a = mkF(pick(bs)), b = mkF(pick(bs));
      c.e = mkB(chance(1, 2) ? CK::CK_EXCLUDES : CK::CK_IMPLIES, a, b);
    } else {
      c.e = genBool(bs, 2, lang);
      if (c.e->k == CK::CK_FEATURE && chance(1, 2))
        c.e = mkU(CK::CK_NOT, c.e);
    }
  } else if (c.cls == 1) {
    c.e = genCmp(ns, {}, 2, lang);
  } else {
    c.e = genCmp(ns, bs, 2, lang);
  }
  return c;
}
// One that is there already, perhaps with other attributes.
static Con again(const RModel &m) {
  Con c = pick(m.cons);
  if (c.cls == 2 && chance(3, 4)) {
    c.req = chance(1, 2);
    c.neg = chance(1, 2);
  }
  return c;
}
Con genCon(const Gen &g, const RModel &m, const std::vector<std::string> &ex) {
  if (ex.empty() && !m.cons.empty() && chance(1, 8))
    return again(m);
  return genConImpl(g, m, ex);
}
ExprP genExpr(const RModel &m, int cls, int depth,
              const std::vector<std::string> &extra) {
  std::vector<std::string> bs, ns;
  split(m, bs, ns);
  for (auto &e : extra)
    bs.push_back(e);
  if (cls == 0 || ns.empty())
    return genBool(bs, depth, false);
  return genCmp(ns, cls == 2 ? bs : std::vector<std::string>{}, depth, false);
}

RModel gen(const Gen &g) {
  RModel m;
  m.name = "model";
  static const std::vector<std::string> Names = {"m", "some model", "VM_1"};
  static const std::vector<std::string> Paths = {"", "src/x", "a b/c.xml",
                                                 "../p//./q/../r/"};
  static const std::vector<std::string> Commits = {"", "94fe792df46", "abc"};
  if (g.meta) {
    m.name = pick(Names);
    m.path = pick(Paths);
    m.commit = pick(Commits);
  }
  m.root = g.xmlRoot ? (chance(1, 3) ? "base" : "root")
                     : (chance(1, 3) ? "TheRoot" : "root");
  Feat R;
  R.uid = freshUid();
  R.name = m.root;
  R.kind = FK::FK_ROOT;
  if (g.locs && chance(1, 4))
    for (uint32_t n = range(1, 3); n--;)
      R.locs.push_back(genLoc(g));
  m.f[m.root] = R;
  uint32_t n = range(g.minF, g.maxF);
  std::vector<std::string> order{m.root};
  static const std::vector<std::string> Weird = {
      "with space", "a&b",   "less<",   "gr>eater", "quo\"te",
      "apo'strophe", "tab-x", "\xc3\xa4\xc3\xb6", "1st", "semi;colon", "_u"};
  for (uint32_t i = 0; i < n; ++i) {
    std::string nm;
    if (g.weird && chance(1, 5)) {
      nm = pick(Weird);
      if (m.f.count(nm))
        nm = freshName(m);
    } else
      nm = freshName(m);
    Feat F = genFeat(g, nm);
    // favour recent parents a little, so that deep trees occur
    F.parent = chance(1, 3) ? order.back() : pick(order);
    m.f[nm] = F;
    order.push_back(nm);
  }
  if (g.groups) {
    for (auto &p : order) {
      auto ch = m.children(p);
      if (ch.empty()) {
        if (g.emptyGroups && !g.xmlOnly && chance(1, 12))
          m.g[p] = {chance(1, 2) ? RK::RK_OR : RK::RK_ALTERNATIVE, freshUid()};
        continue;
      }
      if (!chance(2, 5))
        continue;
      if (g.xmlOnly) {
        if (ch.size() < 2)
          continue;
        m.g[p] = {RK::RK_ALTERNATIVE, freshUid()};
        for (auto &c : ch) {
          m.f[c].inGroup = true;
          m.f[c].opt = false;
        }
        continue;
      }
      m.g[p] = {chance(1, 2) ? RK::RK_OR : RK::RK_ALTERNATIVE, freshUid()};
      for (auto &c : ch) {
        m.f[c].inGroup = !(g.groupMixed && chance(1, 5));
        if (m.f[c].inGroup && !g.optInGroup)
          m.f[c].opt = false;
      }
    }
  }
  if (g.constraints) {
    uint32_t k = choose(g.maxCons + 1);
    RModel src = m;
    // weird names cannot be written in constraints
    for (auto it = src.f.begin(); it != src.f.end();) {
      bool ok = isalpha((unsigned char)it->first[0]);
      for (char c : it->first)
        ok &= isalnum((unsigned char)c) || c == '_';
      it = ok ? std::next(it) : src.f.erase(it);
    }
    for (uint32_t i = 0; i < k; ++i)
      m.cons.push_back(!m.cons.empty() && chance(1, 8)
                           ? again(m)
                           : genConImpl(g, src, {}));
  }
  return m;
}

void detectAlternatives(RModel &m) {
  std::set<std::pair<std::string, std::string>> ex;
  for (auto &c : m.cons)
    if (c.cls == 0 && isPlain(c.e, CK::CK_EXCLUDES))
      ex.insert({c.e->l->name, c.e->r->name});
  std::vector<std::string> ps;
  for (auto &kv : m.f)
    ps.push_back(kv.first);
  for (auto &p : ps) {
    auto ch = m.children(p);
    if (ch.size() < 2 || m.g.count(p))
      continue;
    bool alt = true;
    for (auto &a : ch) {
      alt &= !m.f[a].opt;
      for (auto &b : ch)
        alt &= a == b || ex.count({a, b});
    }
    if (!alt)
      continue;
    m.g[p] = {RK::RK_ALTERNATIVE, freshUid()};
    for (auto &a : ch)
      m.f[a].inGroup = true;
  }
}
// Only excludes between two features are listed as such; any other is written
// as the implication it stands for.
static ExprP spellExcludes(const ExprP &e) {
  if (!e || !e->l)
    return e;
  auto l = spellExcludes(e->l), r = spellExcludes(e->r);
  if (e->k == CK::CK_EXCLUDES)
    return mkB(CK::CK_IMPLIES, l, mkU(CK::CK_NOT, r));
  return e->r ? mkB(e->k, l, r) : mkU(e->k, l);
}
RModel throughXml(const RModel &m, std::set<std::string> &dev) {
  RModel o = m;
  for (auto &c : o.cons)
    if (!(c.cls == 0 && isPlain(c.e, CK::CK_EXCLUDES)))
      c.e = spellExcludes(c.e);
  for (auto &kv : m.g) {
    auto gr = m.grouped(kv.first);
    for (auto &a : gr)
      for (auto &b : gr)
        if (a != b)
          o.cons.push_back(
              {0, 0, 0, mkB(CK::CK_EXCLUDES, mkF(a), mkF(b))});
  }
  o.g.clear();
  for (auto &kv : o.f)
    kv.second.inGroup = false;
  if (m.root != "root" && m.root != "base") {
    Feat &R = o.f[m.root];
    R.kind = FK::FK_BINARY;
    R.opt = false;
    R.parent = "root";
    Feat N;
    N.name = "root";
    N.kind = FK::FK_ROOT;
    N.uid = freshUid();
    o.f["root"] = N;
    o.root = "root";
    dev.insert("root-name-not-kept");
  }
  detectAlternatives(o);
  for (auto &kv : m.g) {
    auto it = o.g.find(kv.first);
    bool same = it != o.g.end() && it->second.kind == kv.second.kind &&
                o.grouped(kv.first) == m.grouped(kv.first);
    if (!same)
      dev.insert("group-saved-as-excludes");
  }
  for (auto &kv : o.g)
    if (!m.g.count(kv.first))
      dev.insert("excluding-siblings-become-alternatives");
  return o;
}

std::vector<int64_t> domain(const Feat &F) {
  if (!F.isRange)
    return F.vals;
  std::vector<int64_t> v;
  int64_t x = F.lo;
  while (x <= F.hi && v.size() < 100000) {
    v.push_back(x);
    int64_t nx = F.hasStep ? (int64_t)F.step.next((double)x) : x + 1;
    if (nx <= x)
      break;
    x = nx;
  }
  return v;
}

// ---- building -----------------------------------------------------------------------------
std::unique_ptr<vf::Feature> realFeat(const Feat &F) {
  std::vector<vf::FeatureSourceRange> L;
  for (auto &l : F.locs)
    L.push_back(l.real());
  if (F.kind == FK::FK_ROOT)
    return std::make_unique<vf::RootFeature>(F.name);
  if (F.kind == FK::FK_UNKNOWN)
    return std::make_unique<vf::Feature>(F.name);
  if (F.kind == FK::FK_BINARY)
    return std::make_unique<vf::BinaryFeature>(F.name, F.opt, std::move(L),
                                               F.out);
  vf::NumericFeature::ValuesVariantType V;
  if (F.isRange)
    V = std::make_pair(F.lo, F.hi);
  else
    V = F.vals;
  return std::make_unique<vf::NumericFeature>(
      F.name, std::move(V), F.opt, std::move(L), F.out,
      F.hasStep ? F.step.real() : nullptr);
}

bool orderFromMain = false;
std::unique_ptr<FeatureModel> build(const RModel &m, const BuildOpts &o) {
  auto pickOne = [](uint32_t n) {
    return orderFromMain ? chooseMain(n) : choose(n);
  };
  vf::FeatureModelBuilder B;
  struct Tok {
    char k;
    std::string n;
  };
  std::vector<Tok> toks;
  toks.push_back({'R', m.root});
  for (auto &kv : m.f)
    if (kv.first != m.root)
      toks.push_back({'F', kv.first});
  for (auto &kv : m.f)
    if (kv.first != m.root && (kv.second.parent != m.root || pickOne(2)))
      toks.push_back({'E', kv.first});
  for (auto &kv : m.g)
    toks.push_back({'G', kv.first});
  for (size_t i = 0; i < m.cons.size(); ++i)
    toks.push_back({'C', ""});
  toks.push_back({'N', ""});
  toks.push_back({'P', ""});
  toks.push_back({'K', ""});
  if (o.shuffle && pickOne(3))
    for (size_t i = 0; i + 1 < toks.size(); ++i)
      std::swap(toks[i], toks[i + pickOne(toks.size() - i)]);
  size_t ci = 0;
  for (auto &t : toks) {
    switch (t.k) {
    case 'R': B.makeRoot(m.root); break;
    case 'F': {
      const Feat &F = m.f.at(t.n);
      std::vector<vf::FeatureSourceRange> L;
      for (auto &l : F.locs)
        L.push_back(l.real());
      if (F.kind == FK::FK_UNKNOWN)
        B.makeFeature<vf::Feature>(F.name);
      else if (F.kind == FK::FK_BINARY)
        B.makeFeature<vf::BinaryFeature>(F.name, F.opt, std::move(L), F.out);
      else {
        vf::NumericFeature::ValuesVariantType V;
        if (F.isRange)
          V = std::make_pair(F.lo, F.hi);
        else
          V = F.vals;
        B.makeFeature<vf::NumericFeature>(F.name, V, F.opt, std::move(L), F.out,
                                          F.hasStep ? F.step.real() : nullptr);
      }
      break;
    }
    case 'E': B.addEdge(m.f.at(t.n).parent, t.n); break;
    case 'G': B.emplaceRelationship(m.g.at(t.n).kind, t.n); break;
    case 'C': addConTo(B, m.cons[ci++]); break;
    case 'N': B.setVmName(m.name); break;
    case 'P': B.setPath(m.path); break;
    case 'K': B.setCommit(m.commit); break;
    }
  }
  auto FM = B.buildFeatureModel();
  if (!FM)
    return FM;
  bool fix = !m.f.at(m.root).locs.empty();
  for (auto &kv : m.g)
    fix |= !m.direct(kv.first).empty();
  if (fix) {
    auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
    for (auto &kv : m.g)
      for (auto &c : m.direct(kv.first))
        T.addChild(kv.first, c);
    for (auto &l : m.f.at(m.root).locs)
      T.addLocation(m.root, l.real());
    if (!T.commit())
      return nullptr;
  }
  return FM;
}

// ---- edits -----------------------------------------------------------------------------
std::string Ref::str() const {
  return byName ? "'" + name + "'" : (group ? "group of " : "&") + name;
}
std::string Op::str() const {
  switch (k) {
  case OpK::AddFeature:
    return "addFeature " + feat.name +
           (feat.kind == FK::FK_NUMERIC ? " (numeric)" : "") +
           (hasParent ? " below " + a.str() : "");
  case OpK::RemoveFeature:
    return "removeFeature " + a.str() + (recursive ? " recursive" : "");
  case OpK::AddRel:
    return std::string("addRelationship ") +
           (rk == RK::RK_OR ? "OR " : "ALTERNATIVE ") + a.str();
  case OpK::RemoveRel: return "removeRelationship " + a.str();
  case OpK::AddLoc: return "addLocation " + a.str() + " " + loc.str();
  case OpK::RemoveLoc: return "removeLocation " + a.str() + " " + loc.str();
  case OpK::AddCon: return "addConstraint " + con.str();
  case OpK::SetName: return "setName " + s;
  case OpK::SetCommit: return "setCommit " + s;
  case OpK::SetPath: return "setPath " + s;
  case OpK::SetRoot: return "setRoot " + s;
  case OpK::AddChild: return "addChild " + a.str() + " <- " + b.str();
  default: return "?";
  }
}

Eff apply(RModel &m, const Op &op) {
  // resolves a feature reference: 0 missing, 1 found, 2 dead pointer
  auto res = [&](const Ref &r, std::string &n) {
    if (r.byName) {
      n = r.name;
      return m.f.count(n) ? 1 : 0;
    }
    if (r.group) {
      n = m.groupByUid(r.uid);
      return n.empty() ? 2 : 1;
    }
    auto *F = m.byUid(r.uid);
    if (!F)
      return 2;
    n = F->name;
    return 1;
  };
  std::string a, b;
  switch (op.k) {
  case OpK::AddFeature: {
    if (m.f.count(op.feat.name) || op.feat.kind == FK::FK_ROOT)
      return Eff::Error;
    std::string p = m.root;
    if (op.hasParent && res(op.a, p) == 2)
      return Eff::Undefined;
    Feat F = op.feat;
    F.parent = p;
    F.inGroup = false;
    m.f[F.name] = F;
    return Eff::Ok;
  }
  case OpK::RemoveFeature: {
    int r = res(op.a, a);
    if (r != 1)
      return r == 2 ? Eff::Undefined : Eff::Error;
    if (a == m.root)
      return Eff::Error;
    if (!op.recursive && !m.children(a).empty())
      return Eff::Error;
    std::vector<std::string> dead;
    for (auto &kv : m.f)
      if (m.below(a, kv.first))
        dead.push_back(kv.first);
    for (auto &d : dead) {
      m.f.erase(d);
      m.g.erase(d);
      m.cons.erase(std::remove_if(m.cons.begin(), m.cons.end(),
                                  [&](const Con &c) {
                                    return mentions(c.e, d);
                                  }),
                   m.cons.end());
    }
    return Eff::Ok;
  }
  case OpK::AddRel: {
    int r = res(op.a, a);
    if (r != 1)
      return r == 2 ? Eff::Undefined : Eff::Error;
    if (m.g.count(a))
      return Eff::Error;
    m.g[a] = {op.rk, op.newUid};
    for (auto &c : m.children(a))
      m.f[c].inGroup = true;
    return Eff::Ok;
  }
  case OpK::RemoveRel: {
    int r = res(op.a, a);
    if (r != 1)
      return r == 2 ? Eff::Undefined : Eff::Error;
    if (!m.g.count(a))
      return Eff::Error;
    m.g.erase(a);
    for (auto &c : m.children(a))
      m.f[c].inGroup = false;
    return Eff::Ok;
  }
  case OpK::AddLoc:
  case OpK::RemoveLoc: {
    int r = res(op.a, a);
    if (r != 1)
      return r == 2 ? Eff::Undefined : Eff::Error;
    auto &L = m.f[a].locs;
    if (op.k == OpK::AddLoc)
      L.push_back(op.loc);
    else
      for (size_t i = 0; i < L.size(); ++i)
        if (L[i].same(op.loc)) {
          L.erase(L.begin() + i);
          break;
        }
    return Eff::Ok;
  }
  case OpK::AddCon: {
    std::vector<std::string> ns;
    names(op.con.e, ns);
    for (auto &n : ns)
      if (!m.f.count(n))
        return Eff::Error;
    m.cons.push_back(op.con);
    return Eff::Ok;
  }
  case OpK::SetName: m.name = op.s; return Eff::Ok;
  case OpK::SetCommit: m.commit = op.s; return Eff::Ok;
  case OpK::SetPath: m.path = op.s; return Eff::Ok;
  case OpK::SetRoot: {
    if (op.s == m.root)
      return Eff::Ok;
    if (m.f.count(op.s))
      return Eff::Error;
    Feat R;
    R.uid = op.newUid;
    R.name = op.s;
    R.kind = FK::FK_ROOT;
    for (auto &c : m.children(m.root))
      m.f[c].parent = op.s;
    if (m.g.count(m.root)) {
      m.g[op.s] = m.g[m.root];
      m.g.erase(m.root);
    }
    for (auto &c : m.cons)
      c.e = renameIn(c.e, m.root, op.s);
    m.f.erase(m.root);
    m.f[op.s] = R;
    m.root = op.s;
    return Eff::Ok;
  }
  case OpK::AddChild: {
    int rb = res(op.b, b), ra = res(op.a, a);
    if (rb == 2 || ra == 2)
      return Eff::Undefined;
    if (rb == 0 || ra == 0)
      return Eff::Error;
    if (op.b.group) { // moves the group of b, with all of its members
      if (op.a.group)
        return Eff::Error;
      for (auto &c : m.children(b))
        if (m.f.at(c).inGroup && m.below(c, a))
          return Eff::Error;
      if (a == b)
        return Eff::Ok;
      if (m.g.count(a))
        return Eff::Error;
      for (auto &c : m.children(b))
        if (m.f.at(c).inGroup)
          m.f.at(c).parent = a;
      m.g[a] = m.g.at(b);
      m.g.erase(b);
      return Eff::Ok;
    }
    if (m.below(b, a))
      return Eff::Error;
    m.f[b].parent = a;
    m.f[b].inGroup = op.a.group;
    return Eff::Ok;
  }
  default: return Eff::Error;
  }
}

// ---- brute force enumeration ---------------------------------------------------------------
namespace {
struct Asg {
  std::map<std::string, int64_t> v; // bools as 0/1
};
__int128 ev(const ExprP &e, const Asg &s) {
  __int128 a = 0, b = 0;
  if (e->l)
    a = ev(e->l, s);
  if (e->r)
    b = ev(e->r, s);
  switch (e->k) {
  case CK::CK_FEATURE: return s.v.at(e->name);
  case CK::CK_INTEGER: return e->val;
  case CK::CK_ADDITION: return a + b;
  case CK::CK_SUBTRACTION: return a - b;
  case CK::CK_MULTIPLICATION: return a * b;
  case CK::CK_NEG: return -a;
  case CK::CK_NOT: return !a;
  case CK::CK_AND: return a && b;
  case CK::CK_OR: return a || b;
  case CK::CK_XOR: return (!!a) != (!!b);
  case CK::CK_EXCLUDES: return !(a && b);
  case CK::CK_IMPLIES: return !a || b;
  case CK::CK_EQUIVALENCE: return (!!a) == (!!b);
  case CK::CK_EQUAL: return a == b;
  case CK::CK_NOT_EQUAL: return a != b;
  case CK::CK_LESS: return a < b;
  case CK::CK_GREATER: return a > b;
  case CK::CK_LESS_EQUAL: return a <= b;
  case CK::CK_GREATER_EQUAL: return a >= b;
  default: return 0;
  }
}
} // namespace
bool holds(const Con &c, const std::map<std::string, int64_t> &vals,
           const std::function<bool(const std::string &)> &isBool) {
  Asg s{vals};
  bool v = ev(c.e, s) != 0;
  if (c.cls == 2) {
    if (c.neg)
      v = !v;
    if (!c.req) {
      std::vector<std::string> ns;
      names(c.e, ns);
      for (auto &n : ns)
        if (isBool(n) && !s.v.at(n))
          v = true;
    }
  }
  return v;
}
bool enumerate(const RModel &m, std::set<Config> &out, uint64_t limit) {
  out.clear();
  auto order = m.dfs();
  std::vector<std::vector<int64_t>> dom;
  unsigned __int128 total = 1;
  for (auto &n : order) {
    const Feat &F = m.f.at(n);
    if (F.kind == FK::FK_NUMERIC)
      dom.push_back(domain(F));
    else if (n == m.root)
      dom.push_back({1});
    else
      dom.push_back({0, 1});
    // If a domain is empty the others are listed nevertheless.
    total *= std::max<size_t>(1, dom.back().size());
    if (total > limit)
      return false;
  }
  Asg s;
  std::function<void(size_t)> go = [&](size_t i) {
    if (i < order.size()) {
      const Feat &F = m.f.at(order[i]);
      for (auto v : dom[i]) {
        if (F.kind == FK::FK_BINARY) { // parents come first: prune
          bool par = s.v.at(F.parent);
          if (v && !par)
            continue;
          if (!v && par && !F.opt && !F.inGroup)
            continue;
        }
        s.v[order[i]] = v;
        go(i + 1);
      }
      s.v.erase(order[i]);
      return;
    }
    for (auto &kv : m.g) {
      auto ch = m.grouped(kv.first);
      if (!s.v.at(kv.first) || ch.empty())
        continue;
      int64_t n = 0;
      for (auto &c : ch)
        n += s.v.at(c) != 0;
      if (n == 0 || (kv.second.kind == RK::RK_ALTERNATIVE && n != 1))
        return;
    }
    for (auto &c : m.cons)
      if (!holds(c, s.v, [&](const std::string &n) {
            return m.f.at(n).kind != FK::FK_NUMERIC;
          }))
        return;
    Config cfg;
    for (auto &kv : s.v)
      cfg[kv.first] = m.f.at(kv.first).kind == FK::FK_NUMERIC
                          ? strf("%lld", (long long)kv.second)
                          : (kv.second ? "true" : "false");
    out.insert(cfg);
  };
  go(0);
  return true;
}
std::string configStr(const Config &c) {
  std::string s;
  for (auto &kv : c)
    s += kv.first + "=" + kv.second + " ";
  return s;
}
} // namespace rm
