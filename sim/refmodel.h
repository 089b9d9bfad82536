// Reference model of a feature model: plain data, value semantics, the
// meaning of every edit written down independently of the library.
#ifndef REFMODEL_H
#define REFMODEL_H
#include "sim.h"
#include "vara/Feature/Feature.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace rm {
namespace vf = vara::feature;
using CK = vf::Constraint::ConstraintKind;
using RK = vf::Relationship::RelationshipKind;
using FK = vf::Feature::FeatureKind;

struct Loc {
  std::string path;
  bool hasStart = false, hasEnd = false;
  unsigned sl = 0, sc = 0, el = 0, ec = 0;
  int cat = 0;
  bool hasMO = false;
  std::string mo;
  bool hasRev = false, hasRemoved = false;
  std::string intro, removed;
  std::string str() const;
  // equality as the library sees it (the revision range does not take part)
  bool same(const Loc &o) const;
  vf::FeatureSourceRange real() const;
};
Loc locOf(vf::FeatureSourceRange &L);

struct Step {
  int op = 0; // 0 +, 1 *, 2 ^
  bool varFirst = true;
  double c = 1;
  std::string probe() const;
  double next(double v) const;
  std::string text() const;
  std::unique_ptr<vf::StepFunction> real() const;
};

struct Expr;
using ExprP = std::shared_ptr<const Expr>;
struct Expr {
  CK k = CK::CK_FEATURE;
  std::string name;
  int64_t val = 0;
  ExprP l, r;
};
ExprP mkF(const std::string &n);
ExprP mkI(int64_t v);
ExprP mkU(CK k, ExprP a);
ExprP mkB(CK k, ExprP a, ExprP b);
std::string str(const ExprP &e);  // canonical structure
std::string text(const ExprP &e); // constraint language
void names(const ExprP &e, std::vector<std::string> &out); // per occurrence
bool mentions(const ExprP &e, const std::string &n);
ExprP renameIn(const ExprP &e, const std::string &from, const std::string &to);
// FM given: some leaves use the model's own features
std::unique_ptr<vf::Constraint> realExpr(const ExprP &e);
ExprP exprOf(vf::Constraint *c);
bool isPlain(const ExprP &e, CK k); // plain implies/excludes of two features

struct Feat {
  uint64_t uid = 0;
  std::string name;
  FK kind = FK::FK_BINARY;
  bool opt = false;
  std::string out;
  std::vector<Loc> locs;
  bool isRange = true;
  int64_t lo = 0, hi = 0;
  std::vector<int64_t> vals;
  bool hasStep = false;
  Step step;
  std::string probe; // step function as observed
  std::string parent;
  bool inGroup = false;
};
struct Group {
  RK kind = RK::RK_ALTERNATIVE;
  uint64_t uid = 0;
};
struct Con {
  int cls = 0;            // 0 boolean, 1 non-boolean, 2 mixed
  int req = 0, neg = 0;   // mixed: req 0 ALL 1 NONE
  ExprP e;
  std::string str() const;
};

struct RModel {
  std::string name, path, commit, root;
  std::map<std::string, Feat> f;
  std::map<std::string, Group> g; // by parent feature
  std::vector<Con> cons;

  std::vector<std::string> children(const std::string &p) const; // all
  std::vector<std::string> direct(const std::string &p) const;
  std::vector<std::string> grouped(const std::string &p) const;
  bool below(const std::string &anc, const std::string &n) const; // n in subtree
  std::vector<std::string> dfs() const; // expected traversal order
  const Feat *byUid(uint64_t uid) const;
  std::string groupByUid(uint64_t uid) const; // parent name or ""
};

struct Cmp {
  bool conOrder = true;   // constraint order within a class matters
  bool locOrder = true;
  bool conDedup = true;   // without conOrder: repeated constraints count once
};
std::vector<std::string> lines(const RModel &m, const Cmp &c = {});
std::string diff(const RModel &want, const RModel &got, const Cmp &c = {});
std::string dump(const RModel &m);
uint64_t shapeHash(const RModel &m);

// ---- observation of the real thing ------------------------------------------
RModel extract(const vf::FeatureModel &FM);
// structural soundness; violates with class "sound:<what>"
void checkSound(const vf::FeatureModel &FM, const char *where);
// everything a user can print
std::string fullDump(const vf::FeatureModel &FM);

// ---- generation ---------------------------------------------------------------
struct Gen {
  uint32_t minF = 0, maxF = 8;
  bool numeric = true, groups = true, constraints = true, locs = true,
       outs = true, steps = true, meta = true;
  bool xmlRoot = false;     // root named root/base
  bool partialLocs = true;  // locations without start/end
  bool mixedCons = true, numCons = true, boolCons = true;
  bool groupMixed = true;   // direct children next to a group
  bool emptyGroups = true;
  bool optInGroup = true;
  bool xmlOnly = false;     // only what the XML format can express
  bool rangeNoStep = true;
  bool weird = false;       // names that need escaping
  bool division = true;     // the solver does not have it
  bool extreme = false;     // large constants, negation, long constraints
  bool unknown = false;     // features of no particular kind
  uint32_t maxCons = 4;
};
RModel gen(const Gen &g);
Feat genFeat(const Gen &g, const std::string &name);
Loc genLoc(const Gen &g);
Loc nearLoc(const Loc &l);
ExprP genExpr(const RModel &m, int cls, int depth,
              const std::vector<std::string> &extra = {});
Con genCon(const Gen &g, const RModel &m,
           const std::vector<std::string> &extra = {});
std::string freshName(const RModel &m, const std::set<std::string> &also = {});
std::vector<int64_t> domain(const Feat &f); // numeric values

// ---- building the real thing ----------------------------------------------------
std::unique_ptr<vf::Feature> realFeat(const Feat &f);
template <class T> std::unique_ptr<T> realCon(const Con &c);
struct BuildOpts {
  bool shuffle = true; // declaration order from the choice source
};
// Declaration orders come from the common stream of choices, whatever tape the
// thread uses.
extern bool orderFromMain;
// FeatureModelBuilder plus a transaction for children beside groups and for
// locations of the root.  nullptr if the library refused.
std::unique_ptr<vf::FeatureModel> build(const RModel &m,
                                        const BuildOpts &o = {});
template <class TX> void addConTo(TX &t, const Con &c) {
  if (c.cls == 0)
    t.addConstraint(
        std::make_unique<vf::FeatureModel::BooleanConstraint>(realExpr(c.e)));
  else if (c.cls == 1)
    t.addConstraint(
        std::make_unique<vf::FeatureModel::NonBooleanConstraint>(realExpr(c.e)));
  else
    t.addConstraint(std::make_unique<vf::FeatureModel::MixedConstraint>(
        realExpr(c.e),
        c.req ? vf::FeatureModel::MixedConstraint::Req::NONE
              : vf::FeatureModel::MixedConstraint::Req::ALL,
        c.neg ? vf::FeatureModel::MixedConstraint::ExprKind::NEG
              : vf::FeatureModel::MixedConstraint::ExprKind::POS));
}
uint64_t freshUid();

// ---- edits ------------------------------------------------------------------------
enum class OpK {
  AddFeature,
  RemoveFeature,
  AddRel,
  RemoveRel,
  AddLoc,
  RemoveLoc,
  AddCon,
  SetName,
  SetCommit,
  SetPath,
  SetRoot,
  AddChild,
  N
};
// A reference to a node: by name, or by identity (what a pointer denotes).
struct Ref {
  bool byName = true;
  bool group = false; // identity of a group
  std::string name;   // byName; or the name at the time (for logs)
  uint64_t uid = 0;
  std::string str() const;
};
struct Op {
  OpK k = OpK::SetName;
  Feat feat;            // AddFeature
  bool hasParent = false;
  Ref a, b;             // operands (parent / child)
  bool recursive = false;
  RK rk = RK::RK_ALTERNATIVE;
  Loc loc;
  Con con;
  std::string s;
  uint64_t newUid = 0;  // group created / new root
  std::string str() const;
};
enum class Eff { Ok, Error, Undefined }; // Undefined: a pointer to a dead node
// Applies op; on Error or Undefined the model is unchanged.
Eff apply(RModel &m, const Op &op);

// What the XML format makes of mandatory siblings that exclude each other.
void detectAlternatives(RModel &m);
// The model that loading a saved model gives; deviations from the saved model
// other than explicit excludes of alternatives are named in dev.
RModel throughXml(const RModel &m, std::set<std::string> &dev);

// The set of configurations by brute force: map name -> value string.
using Config = std::map<std::string, std::string>;
// returns false if the space is too large
bool enumerate(const RModel &m, std::set<Config> &out, uint64_t limit);
std::string configStr(const Config &c);
bool holds(const Con &c, const std::map<std::string, int64_t> &vals,
           const std::function<bool(const std::string &)> &isBool);
} // namespace rm
#endif
