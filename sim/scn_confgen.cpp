// C20: the configuration generator, run as a program: real loading, solving and
// writing on the simulated disk, under a solver that answers as the simulator
// likes.
#include "iogen.h"
#include "program.h"
#include "world.h"
#include <algorithm>

using namespace sim;
using namespace rm;
namespace io {
disk::Faults softFaults();
disk::Faults hardWriteFaults();
disk::Faults hardReadFaults();
} // namespace io
namespace solv {
void tame(RModel &m);
RModel observed(const vf::FeatureModel &FM, const RModel &old);
void z3setup(bool giveUps);
} // namespace solv

namespace sset {
std::string flags(const RModel &m, const Config &c) {
  std::string s;
  for (auto &n : m.dfs()) {
    const Feat &F = m.f.at(n);
    auto it = c.find(n);
    if (F.out.empty() || it == c.end() || it->second == "false")
      continue;
    s += (s.empty() ? "\"" : ", \"") + F.out +
         (F.kind == FK::FK_NUMERIC ? it->second : "") + "\"";
  }
  return "[" + s + "]";
}
static std::string scalar(const std::string &t, size_t &p, std::string &err) {
  std::string r;
  if (p < t.size() && t[p] == '\'') {
    for (++p; p < t.size(); ++p) {
      if (t[p] == '\'') {
        if (p + 1 < t.size() && t[p + 1] == '\'')
          ++p;
        else {
          ++p;
          return r;
        }
      }
      r += t[p];
    }
    err = "open quote";
  } else if (p < t.size() && t[p] == '"') {
    for (++p; p < t.size(); ++p) {
      if (t[p] == '"') {
        ++p;
        return r;
      }
      if (t[p] == '\\' && p + 1 < t.size())
        ++p;
      r += t[p];
    }
    err = "open quote";
  } else {
    while (p < t.size() && t[p] != ':' && t[p] != ' ')
      r += t[p++];
    if (r.empty())
      err = "scalar expected";
  }
  return r;
}
// A mapping of numbers to texts; what is wrong with it, or "".
std::string readYaml(const std::string &t, std::map<std::string, std::string> &got) {
  bool ended = false, started = false;
  for (size_t p = 0; p < t.size();) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos)
      return "the last line is cut";
    std::string l = t.substr(p, e - p);
    p = e + 1;
    if (l.empty())
      continue;
    if (l == "---" && !started) {
      started = true;
      continue;
    }
    if (l == "...") {
      ended = true;
      continue;
    }
    if (!started || ended)
      return "unexpected line: " + l;
    size_t q = 0;
    std::string err, k = scalar(l, q, err);
    if (!err.empty() || q >= l.size() || l[q] != ':')
      return "no key: " + l;
    for (++q; q < l.size() && l[q] == ' ';)
      ++q;
    std::string v = scalar(l, q, err);
    if (!err.empty() || q != l.size())
      return "no value: " + l;
    if (!got.emplace(k, v).second)
      return "key twice: " + l;
  }
  if (!ended)
    return "the document is not closed";
  for (size_t i = 0; i < got.size(); ++i)
    if (!got.count(std::to_string(i)))
      return "no number " + std::to_string(i);
  return "";
}
} // namespace sset

namespace {
using Lines = std::multiset<std::string>;
using sset::flags;
std::string differ(const Lines &w, const Lines &g) {
  std::vector<std::string> a, b;
  std::set_difference(w.begin(), w.end(), g.begin(), g.end(), std::back_inserter(a));
  std::set_difference(g.begin(), g.end(), w.begin(), w.end(), std::back_inserter(b));
  std::string s;
  for (auto &x : a)
    s += "\n  missing: " + x;
  for (auto &x : b)
    s += "\n  not wanted: " + x;
  return s;
}

void c20() {
  if (!config_generator_main)
    violate("harness:config-generator", "the tool is missing");
  world::setupHeap();
  disk::reset();
  std::string in = chance(1, 2) ? "/simfs/model.xml" : "/simfs/d/in.xml";
  std::string out = chance(1, 3) ? "/simfs/d/set.yml" : "/simfs/set.yml";
  std::unique_ptr<vf::FeatureModel> FM;
  RModel m;
  std::set<Config> want;
  uint32_t again = choose(8) ? 3 : 0;
  for (uint32_t size = thorough() ? 9 : 6;;) {
    Gen g;
    g.maxF = size;
    g.emptyGroups = g.locs = g.meta = false;
    g.xmlRoot = g.xmlOnly = true;
    RModel w = gen(g);
    solv::tame(w);
    std::string text = io::xmlDoc(w);
    disk::put(in, text);
    FM = vf::loadFeatureModel(in);
    if (!FM)
      return discard();
    m = solv::observed(*FM, w);
    // Mutually exclusive siblings are an alternative group once they are loaded.
    bool odd = false;
    for (auto &kv : m.f)
      odd = odd || (kv.second.kind == FK::FK_NUMERIC && kv.second.inGroup);
    want.clear();
    if (!odd && enumerate(m, want, thorough() ? 300 : 24) && (want.size() > 1 || !again))
      break;
    if (again)
      --again;
    size = size > 1 ? size - 1 : 1;
  }
  FM.reset();
  Lines all;
  for (auto &c : want)
    all.insert(flags(m, c));
  if (chance(1, 3))
    disk::put(out, std::string(range(1, 9000), '\n') + "---\nold: set\n...\n");
  uint64_t faults = 0, gave = 0;
  uint32_t rounds = range(1, 3);
  for (uint32_t r = 0; r < rounds; ++r) {
    // 0-2: writing fails, 3: reading, 4: the solver, 5: the arguments,
    // 6: a sample, 7 -
    uint32_t kind = choose(8);
    std::string file = in, target = out, why;
    disk::Faults f = kind < 3    ? io::hardWriteFaults()
                     : kind == 3 ? io::hardReadFaults()
                                 : io::softFaults();
    std::vector<std::string> a{"config-generator"}, more;
    Lines need = all;
    bool bad = want.empty();
    if (bad)
      why = "there is no configuration";
    if (kind == 5) {
      bad = true;
      switch (choose(6)) {
      case 0:
        file = "/simfs/none.xml";
        why = "no input";
        break;
      case 1:
        target = "/simfs/nodir/set.yml";
        why = "no such directory";
        break;
      case 2:
        file = "/simfs/d";
        why = "input is a directory";
        break;
      case 3:
        more.push_back("--type=sampling");
        why = "sampling strategies are not implemented";
        break;
      case 4:
        more.push_back("--type=sample");
        why = "no sample given";
        break;
      default: {
        file = "/simfs/damaged.xml";
        std::string t = disk::get(in);
        bool must = false;
        why = io::damageXml(t, m, must);
        if (!must)
          t.resize(t.size() / 2), why = "truncated";
        disk::put(file, t);
      }
      }
    } else if (kind == 6 && !want.empty()) {
      need.clear();
      std::vector<const Config *> cs;
      for (auto &c : want)
        cs.push_back(&c);
      std::vector<std::string> cols;
      for (auto &n : m.dfs())
        if (choose(6))
          cols.push_back(n);
      if (cols.empty())
        cols.push_back(m.root);
      for (size_t i = cols.size(); i > 1; --i)
        std::swap(cols[i - 1], cols[choose((uint32_t)i)]);
      std::string csv;
      for (size_t i = 0; i < cols.size(); ++i)
        csv += (i ? ";" : "") + cols[i];
      csv += "\n";
      for (uint32_t k = range(1, 12); k--;) {
        const Config &c = *cs[choose((uint32_t)cs.size())];
        Config sub;
        for (size_t i = 0; i < cols.size(); ++i) {
          std::string v = c.at(cols[i]);
          sub[cols[i]] = v;
          csv += (i ? ";" : "") + (v == "true" ? "1" : v == "false" ? "0" : v);
        }
        csv += "\n";
        need.insert(flags(m, sub));
      }
      disk::put("/simfs/sample.csv", csv);
      more.push_back("--type=sample");
      more.push_back("--csv=/simfs/sample.csv");
      f = chance(1, 2) ? io::softFaults() : disk::Faults();
    } else if (chance(1, 4))
      more.push_back("--type=All");
    more.push_back("--out=" + target);
    if (chance(1, 2))
      more.push_back(file);
    else
      more.insert(more.begin(), file);
    a.insert(a.end(), more.begin(), more.end());
    solv::z3setup(kind == 4);
    disk::setFaults(f);
    phase("config-generator");
    int rc = prog::run(config_generator_main, "csv", a);
    uint64_t hard = disk::hardFaults(), stat = disk::statFaults(), soft = disk::softFaults();
    uint64_t gu = z3s::gaveUp();
    disk::clearFaults();
    faults += hard + soft;
    gave += gu;
    step(1000);
    if (rc != 0) {
      count("confgen.failure");
      if (!bad && !hard && !gu)
        violate("confgen:refuses", "exit status %d without any fault", rc);
      continue;
    }
    count("confgen.success");
    if (bad)
      violate("confgen:accepts", "exit status 0 although: %s", why.c_str());
    // A size that cannot be asked for need not matter.
    if (hard > stat)
      violate("confgen:hidden-failure",
              "exit status 0 although %llu operations failed for good",
              (unsigned long long)(hard - stat));
    if (gu)
      violate("confgen:gave-up-hidden", "exit status 0 although the solver gave up");
    std::string y = disk::get(target);
    std::map<std::string, std::string> set;
    Lines got;
    auto e = sset::readYaml(y, set);
    for (auto &kv : set)
      got.insert(kv.second);
    if (!e.empty())
      violate("confgen:incomplete", "exit status 0, but the sample set is not "
              "complete: %s\n%s", e.c_str(), y.c_str());
    auto d = differ(need, got);
    if (!d.empty())
      violate("confgen:differs", "the sample set differs from the configurations "
              "of the model:%s\n%s\n%s", d.c_str(), y.c_str(), dump(m).c_str());
  }
  state(mix(shapeHash(m), want.size()));
  summary(strf("config-generator: %zu features, %zu configurations, %u runs, %llu "
               "faults, gave up %llu times", m.f.size(), want.size(), rounds,
               (unsigned long long)faults, (unsigned long long)gave));
  if (m.f.size() < 2)
    discard();
}
Reg r20("C20", "the model has at least two features", c20);
} // namespace
