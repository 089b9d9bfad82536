// C18: the command-line tools, run as programs on the simulated disk.
#include "iogen.h"
#include "program.h"
#include "llvm/Support/CommandLine.h"
#include "world.h"
#include <regex>

using namespace sim;
using namespace rm;

namespace io {
disk::Faults softFaults();
disk::Faults hardWriteFaults();
disk::Faults hardReadFaults();
} // namespace io

namespace prog {
int run(int (*tool)(int, char **), const char *option,
        std::vector<std::string> args, const std::string &out) {
  std::string s;
  for (auto &a : args)
    s += " " + a;
  logf("run%s", s.c_str());
  int rc = disk::runProgram([&] {
    // Several tools are linked into this program: leave only its own
    // positional arguments.
    auto &top = *llvm::cl::TopLevelSubCommand;
    auto it = top.OptionsMap.find(option);
    if (it != top.OptionsMap.end() && !it->second->Categories.empty()) {
      auto *cat = it->second->Categories[0];
      auto &pos = top.PositionalOpts;
      pos.erase(std::remove_if(pos.begin(), pos.end(),
                               [&](llvm::cl::Option *o) {
                                 return !llvm::is_contained(o->Categories, cat);
                               }),
                pos.end());
    }
    std::vector<char *> v;
    for (auto &a : args)
      v.push_back(a.data());
    v.push_back(nullptr);
    return tool((int)args.size(), v.data());
  }, out);
  logf("exit status %d", rc);
  return rc;
}
} // namespace prog

namespace {
// ---- what the graph has to contain -------------------------------------------
using Edges = std::multiset<std::string>;
// Text of a label, or false if it is not HTML.
bool unHtml(const std::string &s, std::string &r) {
  static const std::map<std::string, std::string> E = {
      {"lt", "<"},   {"gt", ">"},  {"quot", "\""},
      {"apos", "'"}, {"#39", "'"}, {"amp", "&"}};
  r.clear();
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '<' || s[i] == '>')
      return false;
    if (s[i] != '&') {
      r += s[i];
      continue;
    }
    size_t e = s.find(';', i);
    auto it = e == std::string::npos ? E.end() : E.find(s.substr(i + 1, e - i - 1));
    if (it == E.end())
      return false;
    r += it->second;
    i = e;
  }
  return true;
}
std::string unDot(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) { // escapes of the DOT language
    if (s[i] == '\\' && i + 1 < s.size() && ispunct((unsigned char)s[i + 1]))
      ++i;
    r += s[i];
  }
  return r;
}
std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(" \t\n\r"), b = s.find_last_not_of(" \t\n\r");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
struct Graph {
  std::string title;
  std::map<std::string, std::multiset<std::string>> rows; // per feature
  std::multiset<std::string> groups;                      // kind below feature
  Edges edges;
};
std::string lineOf(const std::string &k, const std::string &v) {
  return k + ": " + v;
}
std::string locText(const Loc &l) {
  std::string s = l.path;
  if (l.hasStart)
    s += strf(":%u:%u", l.sl, l.sc);
  if (l.hasEnd)
    s += strf("\xe2\x80\x93%u:%u", l.el, l.ec);
  if (l.hasMO)
    s += " MemberOffset: " + l.mo;
  return s;
}
Graph wanted(const RModel &m) {
  Graph g;
  g.title = m.name;
  for (auto &kv : m.f) {
    const Feat &F = kv.second;
    auto &r = g.rows[F.name];
    r.insert(F.name + " (Flag: " + trim(F.out) + ")");
    for (auto &c : m.cons) {
      std::vector<std::string> ns;
      names(c.e, ns);
      for (auto n = std::count(ns.begin(), ns.end(), F.name); n > 0; --n)
        r.insert(rm::text(c.e));
    }
    for (auto &l : F.locs)
      r.insert(locText(l));
    if (F.name == m.root)
      continue;
    std::string from = F.parent;
    if (F.inGroup)
      from = std::string(m.g.at(F.parent).kind == RK::RK_OR ? "OR" : "ALTERNATIVE") +
             " below " + F.parent;
    g.edges.insert(from + " -> " + F.name + (F.opt ? " odot" : " dot"));
  }
  for (auto &kv : m.g) {
    std::string n = std::string(kv.second.kind == RK::RK_OR ? "OR" : "ALTERNATIVE") +
                    " below " + kv.first;
    g.groups.insert(n);
    g.edges.insert(kv.first + " -> " + n + " none");
  }
  return g;
}
// Reads the graph back; what is wrong with it, or "".
std::string readGraph(const std::string &t, Graph &g) {
  static const std::regex Node(
      R"(^\s*(node_\w+) \[.*?shape=(\w+).*label=(.*)\];\s*$)"),
      Edge(R"(^\s*(node_\w+) -> (node_\w+)(?: \[(.*)\])?;\s*$)"),
      Row(R"(<tr><td>(?:<b>)?(.*?)(?:</b>)?</td></tr>)"),
      Arrow(R"(arrowhead=(\w+))"),
      Title(R"re(^\s*graph \[.*label="Feature model for (.*)"\];\s*$)re");
  std::map<std::string, std::string> name, groupKind, parent;
  struct E {
    std::string a, b, arrow;
  };
  std::vector<E> es;
  int depth = 0;
  bool started = false, ended = false;
  for (size_t p = 0; p < t.size();) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos)
      return "the last line is cut: " + t.substr(p, 80);
    std::string l = t.substr(p, e - p);
    p = e + 1;
    if (trim(l).empty())
      continue;
    if (ended)
      return "text after the end: " + l.substr(0, 80);
    std::smatch x;
    if (std::regex_match(l, x, Node)) {
      std::string id = x[1], label = x[3];
      if (name.count(id) || groupKind.count(id))
        return "node twice: " + l.substr(0, 200);
      if (x[2] == "ellipse") {
        groupKind[id] = label;
        continue;
      }
      std::vector<std::string> rows;
      for (std::sregex_iterator i(label.begin(), label.end(), Row), z; i != z; ++i)
        if (std::string x = (*i)[1], y; unHtml(x, y))
          rows.push_back(y);
        else
          return "label that is not HTML: " + x;
      if (rows.empty())
        return "node without rows: " + l.substr(0, 200);
      std::string n = rows[0].substr(0, rows[0].rfind(" (Flag: "));
      if (g.rows.count(n))
        return "feature twice: " + n;
      name[id] = n;
      g.rows[n].insert(rows.begin(), rows.end());
    } else if (std::regex_match(l, x, Edge)) {
      std::string at = x[3];
      std::smatch y;
      es.push_back({x[1], x[2],
                    std::regex_search(at, y, Arrow) ? std::string(y[1]) : "-"});
      parent[x[2]] = x[1];
    } else if (std::regex_match(l, x, Title)) {
      g.title = unDot(x[1]);
    } else if (l.find("->") != std::string::npos)
      return "unexpected line: " + l.substr(0, 200);
    bool quoted = false;
    for (char c : l) {
      if (c == '"')
        quoted = !quoted;
      if (quoted)
        continue;
      if (c == '{')
        ++depth, started = true;
      if (c == '}')
        --depth;
    }
    if (depth < 0)
      return "unbalanced braces";
    if (started && depth == 0)
      ended = true;
  }
  if (!ended)
    return "the graph is not closed";
  auto nm = [&](const std::string &id) -> std::string {
    if (name.count(id))
      return name[id];
    if (groupKind.count(id))
      return groupKind[id] + " below " +
             (parent.count(id) && name.count(parent[id]) ? name[parent[id]] : "?");
    return "undeclared node";
  };
  for (auto &k : groupKind)
    g.groups.insert(nm(k.first));
  for (auto &e : es)
    g.edges.insert(nm(e.a) + " -> " + nm(e.b) + " " + e.arrow);
  return "";
}
std::string setDiff(const std::multiset<std::string> &w,
                    const std::multiset<std::string> &g) {
  std::vector<std::string> a, b;
  std::set_difference(w.begin(), w.end(), g.begin(), g.end(), std::back_inserter(a));
  std::set_difference(g.begin(), g.end(), w.begin(), w.end(), std::back_inserter(b));
  std::string s;
  for (auto &x : a)
    s += "\n  missing: " + x;
  for (auto &x : b)
    s += "\n  not wanted: " + x;
  return s;
}
std::string graphDiff(const Graph &w, const Graph &g) {
  std::string s;
  if (w.title != g.title)
    s += "\n  title: " + g.title + " instead of " + w.title;
  for (auto &kv : w.rows) {
    auto it = g.rows.find(kv.first);
    s += it == g.rows.end() ? "\n  missing feature " + kv.first
                            : setDiff(kv.second, it->second);
  }
  for (auto &kv : g.rows)
    if (!w.rows.count(kv.first))
      s += "\n  unknown feature " + kv.first;
  return s + setDiff(w.groups, g.groups) + setDiff(w.edges, g.edges);
}

// The text of one feature in a dump.
std::string block(const RModel &m, const Feat &F) {
  std::string s = "{\n  name: \"" + F.name + "\",\n  optional: " +
                  (F.opt ? "true" : "false") + ",\n  ";
  if (!F.locs.empty()) {
    s += "locations: ";
    for (auto &l : F.locs)
      s += "[" + locText(l) + "]";
    s += ",\n  ";
  }
  if (!F.parent.empty())
    s += "parent: " + F.parent + ",\n  ";
  std::map<std::string, std::string> ch;
  for (auto &kv : m.f)
    if (kv.second.parent == F.name && !kv.second.inGroup && kv.first != m.root)
      ch[llvm::StringRef(kv.first).lower()] = kv.first;
  s += "children: [";
  for (auto &c : ch)
    s += c.second + ",";
  s += "]";
  if (F.kind == FK::FK_NUMERIC && F.isRange)
    s += strf(",\n  minValue: %lld,\n  maxValue: %lld", (long long)F.lo,
              (long long)F.hi);
  else if (F.kind == FK::FK_NUMERIC) {
    s += ",\n  values: [";
    for (auto v : F.vals)
      s += strf("%lld,", (long long)v);
    s += "]";
  }
  return s + "\n}\n";
}
// The features may come in any order.
std::string dumpDiff(const RModel &m, const std::string &t) {
  std::multiset<std::string> want;
  for (auto &kv : m.f)
    want.insert(block(m, kv.second));
  size_t p = 0;
  while (!want.empty()) {
    auto best = want.end();
    for (auto i = want.begin(); i != want.end(); ++i)
      if (t.compare(p, i->size(), *i) == 0 &&
          (best == want.end() || i->size() > best->size()))
        best = i;
    if (best == want.end()) {
      std::string s = strf("at byte %zu none of these follows:\n", p);
      for (auto &w : want)
        s += w;
      return s;
    }
    p += best->size();
    want.erase(best);
  }
  return t.substr(p) == "\n" ? "" : strf("more follows after byte %zu", p);
}

void c18() {
  world::setupHeap();
  disk::reset();
  Gen g;
  g.maxF = thorough() ? 40 : 14;
  if (chance(1, 4))
    g.minF = g.maxF / 2;
  g.xmlRoot = g.xmlOnly = true;
  g.partialLocs = false;
  g.weird = chance(1, 2);
  RModel m = gen(g);
  if (chance(1, 3))
    io::vary(m);
  std::string text = io::xmlDoc(m);
  std::string in = chance(1, 2) ? "/simfs/model.xml" : "/simfs/d/in.xml";
  std::string out = chance(1, 3) ? "/simfs/d/graph.dot" : "/simfs/graph.dot";
  disk::put(in, text);
  auto FM = vf::loadFeatureModel(in);
  if (!FM)
    return discard();
  m = extract(*FM);
  Graph want = wanted(m);
  if (chance(1, 3))
    disk::put(out, std::string(range(1, 20000), '\n') + "digraph old {}\n");
  uint32_t rounds = range(1, 3);
  uint64_t faults = 0;
  for (uint32_t r = 0; r < rounds; ++r) {
    uint32_t kind = choose(8); // 0-3: writing fails, 4: reading, 5: input, 6,7 -
    std::string file = in, target = out, why;
    bool verify = chance(1, 3);
    disk::Faults f = kind < 4    ? io::hardWriteFaults()
                     : kind == 4 ? io::hardReadFaults()
                                 : io::softFaults();
    bool bad = false; // the input
    if (kind == 5) {
      switch (choose(4)) {
      case 0:
        file = "/simfs/none.xml";
        bad = true;
        why = "no input";
        break;
      case 1:
        target = "/simfs/nodir/graph.dot";
        why = "no such directory";
        bad = true;
        break;
      case 2:
        file = "/simfs/d";
        bad = true;
        why = "input is a directory";
        break;
      default: {
        file = "/simfs/damaged.xml";
        std::string t = text;
        bool must = false;
        RModel x = m;
        why = io::damageXml(t, x, must);
        if (!must)
          t.resize(t.size() / 2), why = "truncated";
        disk::put(file, t);
        bad = true;
      }
      }
    }
    enum { Write, Show, Dump } mode = Write;
    if (why != "no such directory" && chance(1, 3))
      mode = chance(1, 2) ? Show : Dump;
    std::vector<std::string> a{"fm-viewer"};
    if (verify)
      a.push_back(chance(1, 2) ? "--verify" : "-verify");
    if (chance(1, 4))
      a.push_back("--xml");
    if (mode == Dump) {
      a.insert(a.begin() + (chance(1, 2) ? 1 : (long)a.size()), "--dump");
      a.push_back(file);
      if (chance(1, 4))
        a.push_back("-o=/simfs/d/unused");
      target = "/simfs/stdout";
    } else if (mode == Show) {
      a.push_back(chance(1, 2) ? "--viewer=/bin/true" : "--viewer=true");
      a.push_back(file);
      setenv("TMPDIR", chance(1, 2) ? "/simfs" : "/simfs/d", 1);
      disk::remove("/simfs/.started");
    } else if (chance(1, 2)) {
      a.push_back(file);
      a.push_back("-o");
      a.push_back(target);
    } else {
      a.push_back("-o=" + target);
      a.push_back(file);
    }
    disk::setFaults(f);
    phase("fm-viewer");
    int rc = prog::run(fm_viewer_main, "viewer", a, mode == Dump ? target : "");
    // A size that cannot be asked for need not matter.
    uint64_t hard = disk::hardFaults(), stat = disk::statFaults(), soft = disk::softFaults();
    disk::clearFaults();
    faults += hard + soft;
    step(1000);
    if (bad) {
      count("viewer.bad_input");
      if (rc == 0)
        violate("viewer:accepts", "exit status 0 although: %s", why.c_str());
      continue;
    }
    if (rc == 0) {
      count("viewer.success");
      // Another temporary file will do if one cannot be created.
      if (hard > stat && !(mode == Show && f.openFail))
        violate("viewer:hidden-failure",
                "exit status 0 although %llu operations failed for good",
                (unsigned long long)(hard - stat));
      if (mode == Dump) {
        count("viewer.dump");
        auto d = dumpDiff(m, disk::get(target));
        if (!d.empty())
          violate("viewer:dump", "exit status 0, but the output is not the text "
                  "of the model: %s\noutput:\n%s", d.c_str(),
                  disk::get(target).c_str());
        continue;
      }
      std::string dot = disk::get(target);
      if (mode == Show) { // what the viewer got to see
        count("viewer.show");
        dot = disk::get("/simfs/.started");
        for (int i = 0; i < 2; ++i)
          dot.erase(0, dot.find('\n') == dot.npos ? dot.npos : dot.find('\n') + 1);
      }
      Graph got;
      auto e = readGraph(dot, got);
      if (!e.empty())
        violate("viewer:incomplete", "exit status 0, but the graph is not "
                "complete: %s\n%s", e.c_str(), dot.c_str());
      auto d = graphDiff(want, got);
      if (!d.empty())
        violate("viewer:differs", "the graph differs from the model:%s\n%s",
                d.c_str(), dot.c_str());
    } else {
      count("viewer.failure");
      if (!hard)
        violate("viewer:refuses", "exit status %d without any fault", rc);
    }
  }
  state(shapeHash(m));
  summary(strf("fm-viewer: %zu features, %u runs, %llu faults", m.f.size(), rounds,
               (unsigned long long)faults));
  if (m.f.size() < 2)
    discard();
}
Reg r18("C18", "the model has at least two features", c18);
} // namespace
