// A small world of feature models and open transactions, driven by the
// simulator: every step picks an actor and an action, performs it on the real
// objects and on the reference model, and compares.
#ifndef WORLD_H
#define WORLD_H
#include "refmodel.h"

namespace world {
using namespace rm;
using CopyTx = vf::FeatureModelCopyTransaction;
using ModTx = vf::FeatureModelModifyTransaction;

struct Slot {
  std::unique_ptr<vf::FeatureModel> fm;
  RModel ref;
  std::map<uint64_t, vf::Feature *> p;
  std::map<uint64_t, vf::Relationship *> gp;
  std::string born; // how it came to be
};

struct Tx {
  bool copy = false;
  int slot = -1;
  std::unique_ptr<CopyTx> c;
  std::unique_ptr<ModTx> m;
  std::vector<Op> ops;  // modify: requested edits
  RModel pred;          // modify: guess of the state after them
  RModel cref;          // copy: the copy as it should be
  std::map<uint64_t, vf::Feature *> cp; // copy: pointers into the copy
  bool doomed = false;  // an edit refers to something dead: abort only
  bool done = false;
};

struct OpCfg {
  bool ptrs = true;
  uint32_t bad = 0; // probability (1/100) of a deliberately refused edit
  bool setRoot = true;
  bool con = true, rel = true, loc = true;
};

struct World {
  Gen g;
  OpCfg oc;
  std::vector<std::unique_ptr<Slot>> slots;
  std::vector<std::unique_ptr<Tx>> txs;
  bool failing = false;   // failing commits are part of the game
  bool soundAlways = false;

  int addModel(const RModel *m = nullptr); // generates one if null; -1: refused
  int adopt(std::unique_ptr<vf::FeatureModel> fm, const RModel &want,
            const char *born);
  void refresh(Slot &s);
  void checkSlot(Slot &s, const char *cls, const char *when);
  void checkAll(const char *cls, const char *when);

  Op genOp(const RModel &P, const Slot *src, const Tx *tx);
  bool genBad(Op &op, const RModel &P);
  bool genGone(Op &op, const Tx &t, const Slot &src);
  int open(int slot, bool copy);
  void request(Tx &t);
  void requestOp(Tx &t, Op op);
  void commit(int ti);
  void abort(int ti);
  void destroyTx(int ti);
  void moveTx(int ti);
  void helper(int slot);
  void cloneSlot(int slot);
  void dropSlot(int slot);
  bool slotBusy(int slot) const; // open modifying transactions
  std::vector<int> liveSlots() const;
  std::vector<int> openTxs() const;
  void finish(); // close transactions, final checks
};
void setupHeap();
// copies name-independent identity from "m" into what was really built
RModel adoptRef(const RModel &m, const vf::FeatureModel &FM);
} // namespace world
#endif
