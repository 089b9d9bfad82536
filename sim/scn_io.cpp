// C01-C04: loading, saving, crashes during a save, damaged files.
#include "iogen.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "world.h"
#include <algorithm>
#include <filesystem>

using namespace sim;
using namespace rm;

namespace io {
// ---- helpers of all four scenarios ---------------------------------------------
static const std::vector<std::string> Paths = {
    "/simfs/model.xml", "/simfs/d/m 1.xml", "/simfs/\xc3\xa4.xml"};

disk::Faults softFaults() {
  disk::Faults f;
  switch (choose(4)) {
  case 0:
    break;
  case 1:
    f.shortRead = 300;
    f.eintrRead = 100;
    f.eintrOpen = 60;
    f.shortWrite = 300;
    f.eintrWrite = 100;
    break;
  case 2:
    f.shortRead = 950;
    f.shortWrite = 950;
    break;
  default:
    f.eintrRead = 500;
    f.eintrWrite = 500;
    f.eintrOpen = 300;
    f.shortRead = 200;
    f.shortWrite = 200;
  }
  return f;
}
disk::Faults hardWriteFaults() {
  disk::Faults f = softFaults();
  switch (choose(7)) {
  case 0:
    f.enospc = 150;
    break;
  case 1:
    f.eioWrite = 150;
    break;
  case 2:
    f.capacity = range(0, 4000);
    break;
  case 3:
    f.openFail = 400;
    break;
  case 4:
    f.closeFail = 400;
    break;
  case 5:
    f.failAtOp = choose(12);
    break;
  default:
    f.enospc = 20;
    f.eioWrite = 20;
    f.openFail = 20;
    f.closeFail = 60;
    f.syncFail = 60;
    f.renameFail = 60;
    f.statFail = 20;
  }
  return f;
}
disk::Faults hardReadFaults() {
  disk::Faults f = softFaults();
  switch (choose(4)) {
  case 0:
    f.eioRead = 300;
    break;
  case 1:
    f.openFail = 500;
    break;
  case 2:
    f.statFail = 500;
    break;
  default:
    f.failAtOp = choose(8);
  }
  return f;
}

std::string firstDiff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i])
    ++i;
  size_t s = i > 40 ? i - 40 : 0;
  return strf("sizes %zu and %zu, first difference at %zu: '%s' against '%s'",
              a.size(), b.size(), i, a.substr(s, 80).c_str(),
              b.substr(s, 80).c_str());
}

// ---- C01 ---------------------------------------------------------------------------
static void c01xml() {
  Gen g;
  g.maxF = thorough() ? 16 : 9;
  g.minF = 0;
  g.xmlRoot = true;
  g.xmlOnly = true;
  g.partialLocs = false;
  g.weird = true;
  g.extreme = chance(1, 2);
  g.groups = false;
  RModel m = gen(g);
  vary(m);
  std::string text = encode(xmlDoc(m)); // may add alternatives to m
  detectAlternatives(m);
  logf("document of %zu bytes, hash %016llx", text.size(),
       (unsigned long long)hashStr(text));
  auto path = pick(Paths);
  disk::reset();
  disk::put(path, text);
  uint32_t loads = range(1, 2);
  for (uint32_t i = 0; i < loads; ++i) {
    std::unique_ptr<vf::FeatureModel> FM;
    bool viaFile = !chance(1, 4), ver;
    if (viaFile) {
      disk::setFaults(softFaults());
      phase("load");
      FM = vf::loadFeatureModel(path);
      disk::setFaults(softFaults());
      ver = vf::verifyFeatureModel(path);
      disk::clearFaults();
    } else {
      phase("parse");
      vf::FeatureModelXmlParser P(text);
      FM = P.buildFeatureModel();
      vf::FeatureModelXmlParser V(text);
      ver = V.verifyFeatureModel();
    }
    step();
    if (!FM)
      violate("load:refused", "a valid file is refused (%s):\n%s",
              viaFile ? "file" : "string", text.c_str());
    if (!ver)
      violate("load:verify", "a valid file does not verify:\n%s", text.c_str());
    checkSound(*FM, "loaded");
    Cmp c;
    c.conOrder = false;
    c.conDedup = false;
    auto d = diff(m, extract(*FM), c);
    if (!d.empty())
      violate("load:differs", "the loaded model differs from the file:%s\n%s",
              d.c_str(), text.c_str());
    if (disk::openHandles())
      violate("load:leak", "%llu files left open by a load",
              (unsigned long long)disk::openHandles());
  }
  state(shapeHash(m));
  summary(strf("xml file: %zu features, %zu constraints, %zu bytes", m.f.size(),
               m.cons.size(), text.size()));
  if (m.f.size() < 2)
    discard();
}
static void c01sxfm() {
  RModel m;
  std::string text = encode(sxfmDoc(m, thorough() ? 16 : 9));
  logf("sxfm of %zu bytes, hash %016llx", text.size(),
       (unsigned long long)hashStr(text));
  phase("parse sxfm");
  vf::FeatureModelSxfmParser P(text);
  auto FM = P.buildFeatureModel();
  bool ver = bool(vf::FeatureModelSxfmParser(text).verifyFeatureModel());
  step();
  if (!FM || !ver)
    violate("load:sxfm-refused", "a valid file is refused:\n%s", text.c_str());
  checkSound(*FM, "loaded");
  RModel got = extract(*FM);
  got.path = m.path; // the format has none
  Cmp c;
  c.conOrder = false;
  c.conDedup = false;
  for (auto *x : {&m, &got})
    for (auto &k : x->cons)
      k.e = flattenOr(k.e);
  auto d = diff(m, got, c);
  if (!d.empty())
    violate("load:sxfm-differs", "the loaded model differs from the file:%s\n%s",
            d.c_str(), text.c_str());
  state(shapeHash(m));
  summary(strf("sxfm file: %zu features, %zu groups, %zu constraints",
               m.f.size(), m.g.size(), m.cons.size()));
  if (m.f.size() < 2)
    discard();
}
static void c01() {
  world::setupHeap();
  if (chance(1, 4))
    c01sxfm();
  else
    c01xml();
}
static Reg r01("C01", "the described model has at least two features", c01);

// ---- C02 ---------------------------------------------------------------------------
static void c02() {
  world::setupHeap();
  Gen g;
  g.maxF = thorough() ? 16 : 9;
  g.weird = true;
  bool in = !chance(1, 3); // inside what the format can express
  if (in) {
    g.xmlRoot = true;
    g.xmlOnly = true;
    g.partialLocs = false;
    g.extreme = chance(1, 2);
  }
  RModel m = gen(g);
  if (in)
    vary(m);
  auto FM = build(m);
  if (!FM)
    return discard();
  RModel ref = extract(*FM);
  checkSound(*FM, "built");
  if (chance(1, 3)) // edits before the save
    for (uint32_t n = range(1, 3); n--;) {
      auto c = genCon(g, ref);
      if (c.cls == 0 && isPlain(c.e, CK::CK_IMPLIES)) {
        auto T = vf::FeatureModelModifyTransaction::openTransaction(*FM);
        addConTo(T, c);
        if (bool(T.commit()))
          ref.cons.push_back(c);
      }
    }
  ref = extract(*FM);
  std::set<std::string> dev;
  RModel want = throughXml(ref, dev);
  bool canWrite = true, odd = false; // may be refused
  for (auto &kv : ref.f)
    for (auto &l : kv.second.locs)
      canWrite &= l.hasStart && l.hasEnd;
  for (auto &c : ref.cons)
    odd |= !readable(c);
  for (auto &kv : ref.f)
    odd |= kv.second.kind == FK::FK_NUMERIC && !kv.second.isRange &&
           kv.second.vals.empty();
  disk::reset();
  auto path = pick(Paths);
  uint32_t rounds = range(1, 3);
  bool sawFault = false;
  for (uint32_t r = 0; r < rounds; ++r) {
    bool hard = chance(1, 2);
    if (chance(1, 3)) // something was there before
      disk::put(path, chance(1, 2) ? std::string(range(1, 3000), 'x') : "<vm/>");
    disk::setFaults(hard ? hardWriteFaults() : softFaults());
    phase("save");
    int rc;
    {
      vf::FeatureModelXmlWriter W(*FM);
      rc = W.writeFeatureModel(path);
    }
    uint64_t nHard = disk::writeHardFaults();
    step(1000);
    disk::clearFaults();
    logf("save: %d, %llu hard faults", rc, (unsigned long long)nHard);
    sawFault |= nHard > 0 || disk::softFaults() > 0;
    if (disk::openHandles())
      violate("save:leak", "%llu files left open by a save",
              (unsigned long long)disk::openHandles());
    auto d0 = diff(ref, extract(*FM));
    if (!d0.empty())
      violate("save:changed-model", "saving changed the model:%s", d0.c_str());
    if (rc < 0) {
      count("save.refused");
      if (!nHard && canWrite && !odd)
        violate("save:refused", "saving failed without any fault:%s",
                dump(ref).c_str());
      continue;
    }
    count("save.reported-success");
    std::string file = disk::get(path);
    if (nHard)
      violate("save:hidden-failure",
              "the save reports success although %llu operations failed for "
              "good; the file has %zu bytes",
              (unsigned long long)nHard, file.size());
    phase("save to a string");
    auto S = vf::FeatureModelXmlWriter(*FM).writeFeatureModel();
    if (!S)
      violate("save:string", "saving to a string fails, to a file it does not");
    if (*S != file)
      violate("save:string-differs", "file and string differ: %s",
              firstDiff(file, *S).c_str());
    disk::setFaults(softFaults());
    phase("reload");
    auto L = vf::loadFeatureModel(path);
    disk::clearFaults();
    if (!L)
      violate("save:unreadable", "a saved model cannot be loaded:\n%s",
              file.c_str());
    checkSound(*L, "reloaded");
    Cmp c;
    c.conOrder = false;
    auto d = diff(want, extract(*L), c);
    if (!d.empty())
      violate("save:lossy", "the reloaded model differs:%s\n%s", d.c_str(),
              file.c_str());
    for (auto &k : dev) {
      if (k == "excluding-siblings-become-alternatives")
        continue; // not expressible in the format
      if (!knownFinding(k.c_str()))
        violate("save:lossy", "the reloaded model differs (%s):%s\n%s",
                k.c_str(), diff(ref, extract(*L), c).c_str(), file.c_str());
      finding(k.c_str());
    }
    if (dev.empty() && chance(1, 2)) { // and once more
      auto S2 = vf::FeatureModelXmlWriter(*L).writeFeatureModel();
      if (!S2)
        violate("save:again", "the reloaded model cannot be saved");
      vf::FeatureModelXmlParser P(*S2);
      auto L2 = P.buildFeatureModel();
      if (!L2)
        violate("save:again", "the model saved twice cannot be loaded");
      auto d2 = diff(want, extract(*L2), c);
      if (!d2.empty())
        violate("save:again", "saved and loaded twice:%s", d2.c_str());
    }
  }
  state(shapeHash(ref));
  summary(strf("save: %zu features, %zu groups, %zu constraints, %u saves",
               ref.f.size(), ref.g.size(), ref.cons.size(), rounds));
  if (ref.f.size() < 2 && !sawFault)
    discard();
}
static Reg r02("C02", "the model has at least two features or a fault occurred",
               c02);

// ---- C03 ---------------------------------------------------------------------------
static void c03() {
  world::setupHeap();
  Gen g;
  g.maxF = thorough() ? 12 : 7;
  g.xmlRoot = true;
  g.xmlOnly = true;
  g.partialLocs = false;
  disk::reset();
  auto path = pick(Paths);
  Cmp c;
  c.conOrder = false;
  std::vector<RModel> may; // what may be read after a crash
  uint32_t rounds = range(1, 4);
  uint64_t crashes = 0;
  for (uint32_t r = 0; r < rounds; ++r) {
    RModel m = gen(g);
    m.name = strf("v%u", r);
    auto FM = build(m);
    if (!FM)
      return discard();
    std::set<std::string> dev;
    RModel want = throughXml(extract(*FM), dev);
    bool crash = !chance(1, 3), saved = false, died = false;
    auto f = softFaults();
    if (chance(1, 6))
      f = hardWriteFaults();
    may.push_back(want);
    if (crash) {
      f.crashAtOp = choose(14);
      f.crashMid = choose(2) * range(1, 1000);
      disk::setFaults(f);
      phase("save with a crash");
      died = disk::runUntilCrash([&] {
        vf::FeatureModelXmlWriter W(*FM);
        (void)W.writeFeatureModel(path);
      });
    } else {
      disk::setFaults(f);
      phase("save");
      saved = vf::FeatureModelXmlWriter(*FM).writeFeatureModel(path) >= 0;
    }
    disk::clearFaults();
    step(2000);
    crashes += died;
    logf("round %u: %s", r, died ? "died" : saved ? "saved" : "-");
    phase("reload");
    disk::setFaults(softFaults());
    auto L = disk::exists(path) ? vf::loadFeatureModel(path) : nullptr;
    disk::clearFaults();
    state(mix(shapeHash(want),
              hashStr(disk::exists(path) ? disk::get(path) : "")));
    if (!L) {
      count("reload.none");
      if (saved)
        violate("crash:lost-completed-save",
                "a completed save without a crash cannot be loaded");
      if (died)
        may.clear();
      continue;
    }
    checkSound(*L, "reloaded after a crash");
    RModel got = extract(*L);
    size_t i = may.size();
    while (i-- > 0)
      if (diff(may[i], got, c).empty())
        break;
    if (i >= may.size() || (saved && i + 1 != may.size()))
      violate("crash:third-model",
              "%s a model is loaded that was never saved:%s\n%s",
              died ? "after the crash" : "after the save",
              diff(may.back(), got, c).c_str(), disk::get(path).c_str());
    count(i + 1 == may.size() ? "reload.new" : "reload.previous");
    if (died) { // what was read after the restart is durable
      auto keep = may[i];
      may = {keep};
    }
  }
  // a completed save is fully effective
  RModel m = gen(g);
  m.name = "last";
  auto FM = build(m);
  if (!FM)
    return discard();
  std::set<std::string> dev;
  RModel want = throughXml(extract(*FM), dev);
  phase("last save");
  if (vf::FeatureModelXmlWriter(*FM).writeFeatureModel(path) < 0)
    violate("crash:later-save", "a save after the crashes fails");
  auto L = vf::loadFeatureModel(path);
  if (!L)
    violate("crash:later-save", "a save after the crashes cannot be loaded:\n%s",
            disk::get(path).c_str());
  auto d = diff(want, extract(*L), c);
  if (!d.empty())
    violate("crash:later-save", "a save after the crashes is not effective:%s",
            d.c_str());
  summary(strf("%u saves, %llu crashes", rounds, (unsigned long long)crashes));
  if (!crashes)
    discard();
}
static Reg r03("C03", "at least one save was cut by a crash", c03);

// ---- C04 ---------------------------------------------------------------------------
static void useModel(vf::FeatureModel &FM) {
  checkSound(FM, "loaded from a damaged file");
  auto s = fullDump(FM);
  logf("sound model, %zu bytes of dump", s.size());
  auto C = FM.clone();
  if (C)
    checkSound(*C, "clone of a model from a damaged file");
  (void)vf::FeatureModelXmlWriter(FM).writeFeatureModel();
}
static void c04() {
  world::setupHeap();
  disk::reset();
  bool sx = chance(1, 3);
  RModel m;
  std::string text;
  if (sx)
    text = sxfmDoc(m, 7);
  else {
    Gen g;
    g.maxF = 7;
    g.xmlRoot = true;
    g.xmlOnly = true;
    g.partialLocs = false;
    g.weird = true;
    g.groups = false;
    m = gen(g);
    vary(m);
    text = xmlDoc(m);
  }
  std::string what;
  uint32_t mode = choose(8);
  bool mustRefuse = false;
  bool readErr = false;
  if (mode < 4)
    text = encode(text);
  if (mode == 0) {
    readErr = true;
    what = "read errors";
  } else if (mode <= 3) {
    std::string other;
    RModel m2;
    other = sx ? sxfmDoc(m2, 5) : text;
    for (uint32_t n = range(1, 4); n--;)
      what += damageBytes(text, other) + " ";
  } else {
    for (uint32_t n = mode == 4 ? 1 : range(1, 3); n--;) {
      bool must = false;
      what += sx ? damageSxfm(text, must) : damageXml(text, m, must);
      what += " ";
      mustRefuse |= must && n == 0 && mode == 4;
    }
  }
  if (text.size() > 16384)
    text.resize(16384);
  logf("%s: %s, %zu bytes, hash %016llx", sx ? "sxfm" : "xml", what.c_str(),
       text.size(), (unsigned long long)hashStr(text));
  std::unique_ptr<vf::FeatureModel> FM;
  bool ver;
  if (sx && !readErr) {
    phase("parse sxfm");
    vf::FeatureModelSxfmParser P(text);
    FM = P.buildFeatureModel();
    ver = bool(vf::FeatureModelSxfmParser(text).verifyFeatureModel());
  } else {
    if (sx) {
      sx = false;
      Gen g;
      g.xmlRoot = g.xmlOnly = true;
      m = gen(g);
      text = xmlDoc(m);
    }
    disk::put(Paths[0], text);
    disk::setFaults(readErr ? hardReadFaults() : softFaults());
    phase("verify");
    ver = vf::verifyFeatureModel(Paths[0]);
    if (readErr && disk::hardFaults() && ver)
      violate("damaged:read-error", "verify succeeds although a read failed");
    if (readErr)
      disk::setFaults(hardReadFaults());
    phase("load");
    FM = vf::loadFeatureModel(Paths[0]);
    uint64_t h = disk::hardFaults();
    disk::clearFaults();
    if (readErr && h && FM)
      violate("damaged:read-error",
              "a model is loaded although %llu operations failed for good",
              (unsigned long long)h);
    if (readErr && !h && !FM)
      violate("damaged:refused", "an intact file is refused:\n%s", text.c_str());
    if (disk::openHandles())
      violate("damaged:leak", "files left open");
    if (readErr && !h)
      discard();
  }
  step();
  count(FM ? "damaged.still-a-model" : "damaged.rejected");
  if (FM && !ver && !readErr)
    violate("damaged:verify", "a model is loaded from a file that does not "
                              "verify:\n%s",
            text.c_str());
  if (FM && mustRefuse)
    violate("damaged:accepted", "an inconsistent file (%s) gives a model:\n%s",
            what.c_str(), text.c_str());
  phase("use");
  if (FM)
    useModel(*FM);
  state(hashStr(what));
  summary(strf("%s with %s", sx ? "sxfm" : "xml", what.c_str()));
}
static Reg r04("C04", "the file was damaged or a read failed", c04);
} // namespace io
