// C21: constraints assembled call by call, several builders alternately.
#include "world.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"
#include <new>

using namespace sim;
using namespace rm;

namespace {
struct Call {
  char k = 0; // F feature, I integer, U unary, B binary, ( ) and G: operator()()
  CK op = CK::CK_FEATURE;
  std::string name;
  int val = 0;
};
int precOf(CK k) {
  switch (k) {
  case CK::CK_MULTIPLICATION:
  case CK::CK_DIVISION: return 1;
  case CK::CK_ADDITION:
  case CK::CK_SUBTRACTION: return 2;
  case CK::CK_GREATER:
  case CK::CK_GREATER_EQUAL:
  case CK::CK_LESS:
  case CK::CK_LESS_EQUAL: return 3;
  case CK::CK_EQUAL:
  case CK::CK_NOT_EQUAL: return 4;
  case CK::CK_AND: return 5;
  case CK::CK_OR:
  case CK::CK_XOR: return 6;
  case CK::CK_IMPLIES:
  case CK::CK_EXCLUDES: return 7;
  case CK::CK_EQUIVALENCE: return 8;
  default: return 0;
  }
}
const std::vector<CK> Bin = {
    CK::CK_AND,   CK::CK_OR,       CK::CK_IMPLIES,    CK::CK_EQUIVALENCE,
    CK::CK_XOR,   CK::CK_EXCLUDES, CK::CK_EQUAL,      CK::CK_NOT_EQUAL,
    CK::CK_LESS,  CK::CK_GREATER,  CK::CK_LESS_EQUAL, CK::CK_GREATER_EQUAL,
    CK::CK_ADDITION, CK::CK_SUBTRACTION, CK::CK_MULTIPLICATION, CK::CK_DIVISION};
const char *spelling(CK k) {
  switch (k) {
  case CK::CK_AND: return "&";
  case CK::CK_OR: return "|";
  case CK::CK_IMPLIES: return "=>";
  case CK::CK_EQUIVALENCE: return "<=>";
  case CK::CK_EQUAL: return "=";
  case CK::CK_NOT_EQUAL: return "!=";
  case CK::CK_LESS: return "<";
  case CK::CK_GREATER: return ">";
  case CK::CK_LESS_EQUAL: return "<=";
  case CK::CK_GREATER_EQUAL: return ">=";
  case CK::CK_ADDITION: return "+";
  case CK::CK_SUBTRACTION: return "-";
  case CK::CK_MULTIPLICATION: return "*";
  case CK::CK_NOT: return "!";
  case CK::CK_NEG: return "~";
  default: return nullptr; // no text for it
  }
}

// What the calls so far mean.
struct Frame {
  std::vector<ExprP> operands;
  std::vector<CK> ops;
  std::vector<CK> unary; // waiting for the next operand
};
struct Ref {
  std::vector<Frame> fs{Frame{}};
  bool bad = false;
  bool full() const { // an operand is complete
    return !fs.back().operands.empty() &&
           fs.back().operands.size() == fs.back().ops.size() + 1;
  }
  static ExprP fold(Frame f) {
    for (int p = 1; p <= 8; ++p)
      for (size_t i = 0; i < f.ops.size();)
        if (precOf(f.ops[i]) == p) {
          f.operands[i] = mkB(f.ops[i], f.operands[i], f.operands[i + 1]);
          f.operands.erase(f.operands.begin() + i + 1);
          f.ops.erase(f.ops.begin() + i);
        } else
          ++i;
    return f.operands[0];
  }
  void operand(ExprP e) {
    Frame &f = fs.back();
    for (; !f.unary.empty(); f.unary.pop_back())
      e = mkU(f.unary.back(), e);
    f.operands.push_back(e);
  }
  void take(const Call &c) {
    if (bad)
      return;
    bool atom = c.k == 'F' || c.k == 'I' || c.k == 'U' || c.k == '(';
    if (atom == full()) {
      bad = true;
      return;
    }
    switch (c.k) {
    case 'F': operand(mkF(c.name)); break;
    case 'I': operand(mkI(c.val)); break;
    case 'U': fs.back().unary.push_back(c.op); break;
    case '(': fs.emplace_back(); break;
    case 'B': fs.back().ops.push_back(c.op); break;
    case ')': {
      if (fs.size() < 2) {
        bad = true;
        return;
      }
      auto e = fold(fs.back());
      fs.pop_back();
      operand(e);
      break;
    }
    default: { // G
      if (fs.size() > 1) {
        bad = true;
        return;
      }
      auto e = fold(fs.back());
      fs.back() = Frame{};
      fs.back().operands.push_back(e);
    }
    }
  }
  ExprP result() const {
    if (bad || fs.size() != 1 || !full())
      return nullptr;
    return fold(fs.back());
  }
};

void make(vf::ConstraintBuilder &B, const Call &c) {
  switch (c.k) {
  case 'F': B.feature(c.name); return;
  case 'I': B.constant(c.val); return;
  case 'U': c.op == CK::CK_NOT ? B.lNot() : B.neg(); return;
  case '(': B.openPar(); return;
  case ')': B.closePar(); return;
  case 'G': B(); return;
  default: break;
  }
  switch (c.op) {
  case CK::CK_AND: B.lAnd(); break;
  case CK::CK_OR: B.lOr(); break;
  case CK::CK_XOR: B.lXor(); break;
  case CK::CK_IMPLIES: B.implies(); break;
  case CK::CK_EXCLUDES: B.excludes(); break;
  case CK::CK_EQUIVALENCE: B.equivalent(); break;
  case CK::CK_EQUAL: B.equal(); break;
  case CK::CK_NOT_EQUAL: B.notEqual(); break;
  case CK::CK_LESS: B.less(); break;
  case CK::CK_GREATER: B.greater(); break;
  case CK::CK_LESS_EQUAL: B.lessEqual(); break;
  case CK::CK_GREATER_EQUAL: B.greaterEqual(); break;
  case CK::CK_ADDITION: B.add(); break;
  case CK::CK_SUBTRACTION: B.subtract(); break;
  case CK::CK_MULTIPLICATION: B.multiply(); break;
  default: B.divide(); break;
  }
}
std::string show(const Call &c) {
  switch (c.k) {
  case 'F': return c.name;
  case 'I': return strf("%d", c.val);
  case 'U':
  case 'B':
    return spelling(c.op) ? spelling(c.op)
                          : c.op == CK::CK_XOR ? "^" : c.op == CK::CK_DIVISION ? "/"
                                                                        : "excludes";
  case 'G': return "()";
  default: return std::string(1, c.k);
  }
}
// The same steps in the constraint language, if it has them.
bool written(const std::vector<Call> &cs, std::string &s) {
  for (auto &c : cs) {
    if (c.k == 'F')
      s += c.name;
    else if (c.k == 'I') {
      if (c.val < 0)
        return false;
      s += strf("%d", c.val);
    } else if (c.k == 'G')
      s = "(" + s + ")";
    else if (c.k == '(' || c.k == ')')
      s += c.k;
    else if (auto *t = spelling(c.op))
      s += t;
    else
      return false;
    if (chance(1, 3))
      s += ' ';
  }
  return true;
}

const std::vector<std::string> Fs = {"a", "B", "foo_1", "e2", "Opt", "n1", "num"};
Call genCall(const Ref &r, size_t left, bool wrong) {
  Call c;
  bool want = r.full(); // an operator
  if (wrong)
    want = chance(1, 2);
  if (!want) {
    uint32_t k = choose(left ? 8 : 4);
    if (k < 3) {
      c.k = 'F';
      c.name = pick(Fs);
    } else if (k == 3) {
      static const std::vector<int> V = {0, 1, 7, 42, -1, -5, 2147483647, -2147483647 - 1};
      c.k = 'I';
      c.val = pick(V);
    } else if (k < 6) {
      c.k = 'U';
      c.op = chance(1, 2) ? CK::CK_NEG : CK::CK_NOT;
    } else
      c.k = '(';
  } else {
    uint32_t k = choose(10);
    bool open = r.fs.size() > 1;
    if (open && (!left || k > 6))
      c.k = ')';
    else if (k == 9 && (!open || wrong))
      c.k = open || chance(1, 2) ? ')' : 'G';
    else {
      c.k = 'B';
      c.op = pick(Bin);
    }
    if (c.k == ')' && !open && !wrong)
      c.k = 'G';
  }
  return c;
}

void links(const std::string &what, vf::Constraint *c, vf::Constraint *parent,
           vf::Constraint *root) {
  if (c->getParent() != parent || c->getRoot() != root)
    violate("expr:links", "%s: %s has a wrong parent or root", what.c_str(),
            c->toString().c_str());
  auto k = c->getKind();
  if (k == CK::CK_NEG || k == CK::CK_NOT)
    links(what, static_cast<vf::UnaryConstraint *>(c)->getOperand(), c, root);
  else if (k != CK::CK_FEATURE && k != CK::CK_INTEGER) {
    auto *b = static_cast<vf::BinaryConstraint *>(c);
    links(what, b->getLeftOperand(), c, root);
    links(what, b->getRightOperand(), c, root);
  }
}
struct Kept {
  std::unique_ptr<vf::Constraint> c;
  ExprP want;
};
void checkKept(const Kept &k, const char *what) {
  auto got = exprOf(k.c.get());
  if (rm::str(got) != rm::str(k.want))
    violate("expr:differs", "%s: %s instead of %s", what, rm::str(got).c_str(),
            rm::str(k.want).c_str());
  auto t = k.c->toString();
  if (t != rm::text(k.want))
    violate("expr:text", "%s: printed as %s instead of %s", what, t.c_str(),
            rm::text(k.want).c_str());
  links(what, k.c.get(), nullptr, k.c.get());
}
// As part of a model it refers to the features of the model.
void intoModel(Kept &k) {
  std::vector<std::string> ns;
  rm::names(k.want, ns);
  bool knows = true;
  vf::FeatureModelBuilder FB;
  std::set<std::string> all(ns.begin(), ns.end());
  if (!all.empty() && chance(1, 6)) {
    all.erase(all.begin());
    knows = false;
  }
  for (auto &n : all)
    if (n[0] == 'n')
      FB.makeFeature<vf::NumericFeature>(n, std::make_pair<int64_t, int64_t>(0, 9));
    else
      FB.makeFeature<vf::BinaryFeature>(n, true);
  uint32_t cls = choose(3);
  if (cls == 0)
    FB.addConstraint(
        std::make_unique<vf::FeatureModel::BooleanConstraint>(k.c->clone()));
  else if (cls == 1)
    FB.addConstraint(
        std::make_unique<vf::FeatureModel::NonBooleanConstraint>(k.c->clone()));
  else
    FB.addConstraint(std::make_unique<vf::FeatureModel::MixedConstraint>(
        k.c->clone(), vf::FeatureModel::MixedConstraint::Req::ALL,
        vf::FeatureModel::MixedConstraint::ExprKind::POS));
  auto FM = FB.buildFeatureModel();
  logf("as %s constraint of a model%s", cls == 0 ? "boolean" : cls == 1 ? "numeric" : "mixed",
       knows ? "" : " without one of its features");
  count("expr.in_model");
  if (!knows) {
    if (FM)
      violate("expr:unknown-feature", "a model is built although %s names an "
              "unknown feature", rm::str(k.want).c_str());
    return;
  }
  if (!FM)
    violate("expr:no-model", "no model for %s", rm::str(k.want).c_str());
  checkSound(*FM, "with a built constraint");
  auto m = extract(*FM);
  if (m.cons.size() != 1 || rm::str(m.cons[0].e) != rm::str(k.want))
    violate("expr:in-model", "the model has %s instead of %s",
            m.cons.empty() ? "nothing" : rm::str(m.cons[0].e).c_str(),
            rm::str(k.want).c_str());
}

struct Work {
  std::unique_ptr<vf::ConstraintBuilder> B;
  Ref ref;
  std::vector<Call> calls;
  size_t target = 0;
  bool gone = false;
};

void c21() {
  world::setupHeap();
  std::vector<std::unique_ptr<Work>> ws;
  std::vector<Kept> kept;
  uint32_t left = range(1, thorough() ? 8 : 5), errors = choose(3);
  uint64_t built = 0, refused = 0, longest = 0;
  for (;;) {
    std::vector<size_t> open;
    for (size_t i = 0; i < ws.size(); ++i)
      if (!ws[i]->gone)
        open.push_back(i);
    uint32_t k = choose(40);
    if (open.empty() || (k == 39 && left)) {
      if (!left)
        break;
      --left;
      ws.push_back(std::make_unique<Work>());
      ws.back()->B = std::make_unique<vf::ConstraintBuilder>();
      ws.back()->target = range(1, chance(1, 4) ? (thorough() ? 80 : 40) : 12);
      continue;
    }
    size_t wi = pick(open);
    Work &w = *ws[wi];
    step();
    if (k == 38 && chance(1, 4)) {
      logf("builder %zu abandoned", wi);
      count("builder.abandoned");
      w.B.reset();
      w.gone = true;
      continue;
    }
    if (k == 37 && !kept.empty()) {
      size_t i = choose(kept.size());
      switch (choose(3)) {
      case 0: {
        phase("clone");
        Kept n{kept[i].c->clone(), kept[i].want};
        logf("clone constraint %zu%s", i, "");
        if (chance(1, 2))
          kept[i].c = std::move(n.c);
        else
          kept.push_back(std::move(n));
        checkKept(chance(1, 2) ? kept.back() : kept[i], "clone");
        break;
      }
      case 1:
        phase("use in a model");
        intoModel(kept[i]);
        break;
      default:
        kept.erase(kept.begin() + i);
      }
      continue;
    }
    bool early = k == 36 && chance(1, 4);
    bool done = w.calls.size() >= w.target && w.ref.full() && w.ref.fs.size() == 1;
    done |= w.ref.bad && w.calls.size() >= w.target + 3;
    if (early || done) {
      phase("build");
      auto want = w.ref.result();
      std::string s;
      for (auto &c : w.calls)
        s += " " + show(c);
      logf("builder %zu gives %s for%s", wi, want ? rm::str(want).c_str() : "nothing",
           s.c_str());
      int64_t at = chance(1, 10) ? (int64_t)choose(1u << choose(7)) : -1;
      std::unique_ptr<vf::Constraint> c;
      bool oom = false;
      if (at >= 0)
        heap::failAfter(at);
      try {
        c = w.B->build();
      } catch (const std::bad_alloc &) {
        oom = true;
      }
      bool fired = at >= 0 && heap::failed();
      heap::failAfter(-1);
      if (fired)
        count("fault.alloc");
      if (oom && !fired)
        violate("expr:oom", "out of memory, but no allocation failed");
      if (chance(1, 2))
        w.B.reset();
      w.gone = true;
      if (oom)
        continue;
      if (!want) {
        if (c)
          violate("expr:accepted", "the calls%s are not an expression, but give %s",
                  s.c_str(), c->toString().c_str());
        refused++;
        count("expr.refused");
        continue;
      }
      if (!c)
        violate("expr:refused", "nothing is built for%s", s.c_str());
      built++;
      longest = std::max<uint64_t>(longest, w.calls.size());
      count("expr.built");
      state(hashStr(rm::str(want)));
      kept.push_back({std::move(c), want});
      checkKept(kept.back(), "built");
      std::string t;
      if (written(w.calls, t)) {
        auto p = vf::ConstraintParser(t).buildConstraint();
        if (!p)
          violate("expr:parser-refused", "'%s' is not parsed", t.c_str());
        if (rm::str(exprOf(p.get())) != rm::str(want))
          violate("expr:parsed", "'%s' is parsed as %s instead of %s", t.c_str(),
                  rm::str(exprOf(p.get())).c_str(), rm::str(want).c_str());
        count("expr.parsed");
      }
      continue;
    }
    phase("call");
    bool wrong = errors && chance(1, 25);
    size_t room = w.target > w.calls.size() ? w.target - w.calls.size() : 0;
    Call c = genCall(w.ref, room, wrong || w.ref.bad);
    Ref before = w.ref;
    w.ref.take(c);
    if (w.ref.bad && !before.bad) {
      --errors;
      count("expr.wrong_call");
    }
    w.calls.push_back(c);
    bool oom = false;
    int64_t at = chance(1, 120) ? (int64_t)choose(4) : -1;
    if (at >= 0)
      heap::failAfter(at);
    try {
      make(*w.B, c);
    } catch (const std::bad_alloc &) {
      oom = true;
    }
    bool fired = at >= 0 && heap::failed();
    heap::failAfter(-1);
    if (fired)
      count("fault.alloc");
    if (oom && !fired)
      violate("expr:oom", "out of memory, but no allocation failed");
    if (oom) {
      logf("builder %zu: out of memory", wi);
      w.B.reset();
      w.gone = true;
    }
  }
  ws.clear();
  for (auto &k : kept)
    checkKept(k, "at the end");
  summary(strf("%zu built, %zu refused, up to %zu calls", (size_t)built,
               (size_t)refused, (size_t)longest));
  if (longest < 3 && !refused)
    discard();
}
Reg r21("C21", "a constraint of three calls or more, or a malformed history", c21);
} // namespace
