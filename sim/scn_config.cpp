// C32: configurations set, queried, converted to text and back, in any order,
// with damaged texts and failing allocations.
#include "world.h"
#include "vara/Configuration/Configuration.h"
#include "vara/Sampling/SampleSetWriter.h"
#include <climits>
#include <new>

using namespace sim;
using namespace rm;
namespace sset {
std::string flags(const RModel &m, const Config &c);
std::string readYaml(const std::string &t, std::map<std::string, std::string> &got);
} // namespace sset

namespace {
using Conf = vf::Configuration;
using Opt = vf::ConfigurationOption;
using Map = std::map<std::string, std::string>; // the values as they are shown

// ---- what a value is ---------------------------------------------------------
enum Kind { B, I, S };
Kind kindOf(const std::string &v, int64_t &n) {
  std::string l = v;
  for (auto &c : l)
    if (c >= 'A' && c <= 'Z')
      c += 32;
  if (l == "true" || l == "false") {
    n = l == "true";
    return B;
  }
  size_t p = v[0] == '-';
  if (v.size() == p || v.size() > p + 19)
    return S;
  __int128 x = 0;
  for (size_t i = p; i < v.size(); ++i) {
    if (v[i] < '0' || v[i] > '9')
      return S;
    x = x * 10 + (v[i] - '0');
  }
  if (p)
    x = -x;
  if (x > INT64_MAX || x < INT64_MIN)
    return S;
  n = (int64_t)x;
  return I;
}
std::string shown(const std::string &v) {
  int64_t n = 0;
  switch (kindOf(v, n)) {
  case B: return n ? "true" : "false";
  case I: return std::to_string(n);
  default: return v;
  }
}
const std::vector<std::string> Words = {
    "", "a", "value", "1.5", "1e3", "+5", "-", "--1", " 1", "1 ", "tru", "true ",
    "falsee", "yes", "null", "{}", "[\"x\"]", "a\"b", "back\\slash", "/", "line\nbreak",
    "\t", std::string("n\0l", 3), "\x01\x1f\x7f", "\xc3\xa4\xc3\x96", "\xe2\x82\xac",
    "\xf0\x9f\x98\x80", "\\u0041", "'", "a:b", "9223372036854775808",
    "-9223372036854775809", "99999999999999999999999"};
const std::vector<std::string> Numbers = {
    "0", "1", "-1", "7", "42", "255", "-2147483648", "2147483647", "2147483648",
    "4294967296", "9223372036854775807", "-9223372036854775808", "1000000007"};
const std::vector<std::string> Bools = {"true", "false", "True", "FALSE", "tRuE", "False"};
std::string genValue() {
  switch (choose(4)) {
  case 0: return Bools[choose(chance(1, 2) ? Bools.size() : 2)];
  case 1: return pick(Numbers);
  case 2: return pick(Words);
  default: {
    if (chance(1, 12))
      return std::string(range(1, 3000), 'x');
    std::string s;
    for (uint32_t n = range(1, 10); n--;)
      s += pick(Words);
    return s;
  }
  }
}
std::string genName() {
  static const std::vector<std::string> N = {
      "foo", "bar", "Foo", "a", "opt_1", "", "with space", " a", "a ", "FOO", "q\"uote", "\xc3\xa4",
      "baz", "b\\s", "long_option_name_beyond_small_string_storage", "true", "1",
      std::string("z\0z", 3), "new\nline"};
  if (chance(1, 3))
    return strf("o%u", choose(60));
  return pick(N);
}
std::string inQuotes(const std::string &s) { // for the log
  std::string r = "'";
  for (unsigned char c : s.substr(0, 60))
    r += c < 32 || c == 127 ? strf("\\x%02x", c) : std::string(1, (char)c);
  return r + (s.size() > 60 ? strf("'.. (%zu)", s.size()) : "'");
}

// ---- JSON --------------------------------------------------------------------
std::string unicode(uint32_t c) {
  std::string r;
  if (c < 0x80)
    r += (char)c;
  else if (c < 0x800) {
    r += (char)(0xc0 | c >> 6);
    r += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    r += (char)(0xe0 | c >> 12);
    r += (char)(0x80 | ((c >> 6) & 63));
    r += (char)(0x80 | (c & 63));
  } else {
    r += (char)(0xf0 | c >> 18);
    r += (char)(0x80 | ((c >> 12) & 63));
    r += (char)(0x80 | ((c >> 6) & 63));
    r += (char)(0x80 | (c & 63));
  }
  return r;
}
// Reads an object of strings, strictly; what is wrong, or "".
std::string readJson(const std::string &t, Map &m) {
  size_t p = 0;
  auto ws = [&] {
    while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p])
      ++p;
  };
  std::string err;
  auto hex = [&]() -> uint32_t {
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i, ++p) {
      if (p >= t.size() || !isxdigit((unsigned char)t[p])) {
        err = "bad \\u";
        return 0;
      }
      v = v * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10);
    }
    return v;
  };
  auto str = [&]() -> std::string {
    std::string r;
    if (p >= t.size() || t[p] != '"') {
      err = strf("no string at %zu", p);
      return r;
    }
    for (++p; p < t.size() && t[p] != '"';) {
      if ((unsigned char)t[p] < 32)
        err = "control character in a string";
      if (t[p] != '\\') {
        r += t[p++];
        continue;
      }
      char c = ++p < t.size() ? t[p++] : 0;
      const char *from = "\"\\/bfnrt", *to = "\"\\/\b\f\n\r\t", *f;
      if (c && (f = strchr(from, c)))
        r += to[f - from];
      else if (c == 'u') {
        uint32_t u = hex();
        if (u >= 0xd800 && u < 0xdc00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') {
          p += 2;
          u = 0x10000 + ((u - 0xd800) << 10) + (hex() - 0xdc00);
        }
        r += unicode(u);
      } else
        err = "bad escape";
    }
    if (p >= t.size())
      err = "open string";
    ++p;
    return r;
  };
  ws();
  if (p >= t.size() || t[p++] != '{')
    return "no object";
  ws();
  if (p < t.size() && t[p] == '}')
    ++p;
  else
    for (;;) {
      ws();
      std::string k = str();
      ws();
      if (p >= t.size() || t[p++] != ':')
        return "no colon";
      ws();
      std::string v = str();
      if (!err.empty())
        return err;
      if (!m.emplace(k, v).second)
        return "twice: " + k;
      ws();
      char c = p < t.size() ? t[p++] : 0;
      if (c == '}')
        break;
      if (c != ',')
        return "no comma";
    }
  ws();
  return p == t.size() ? "" : "something follows";
}
std::string space() {
  static const std::vector<std::string> W = {"", "", "", " ", "\n", "\t ", "\r\n  "};
  return pick(W);
}
std::string jsonString(const std::string &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t u = n == 1 ? c : c & (0x7f >> n);
    for (size_t k = 1; k < n; ++k)
      u = u << 6 | ((unsigned char)s[i + k] & 63);
    bool must = c < 32 || c == '"' || c == '\\';
    const char *from = "\"\\/\b\f\n\r\t", *to = "\"\\/bfnrt", *f = c ? strchr(from, c) : nullptr;
    if (n == 1 && f && (must || chance(1, 3)) && choose(4))
      r += std::string("\\") + to[f - from];
    else if (must || chance(1, 30)) {
      if (u >= 0x10000)
        r += strf("\\u%04x\\u%04X", 0xd800 + ((u - 0x10000) >> 10),
                  0xdc00 + ((u - 0x10000) & 0x3ff));
      else
        r += strf(chance(1, 2) ? "\\u%04x" : "\\u%04X", u);
    } else
      r += s.substr(i, n);
    i += n;
  }
  return r + "\"";
}
std::string jsonText(const Map &m) {
  std::vector<std::string> ks;
  for (auto &kv : m)
    ks.push_back(kv.first);
  shuffle(ks);
  std::string t = space() + "{" + space();
  for (size_t i = 0; i < ks.size(); ++i)
    t += (i ? "," + space() : "") + jsonString(ks[i]) + space() + ":" + space() +
         jsonString(m.at(ks[i])) + space();
  return t + "}" + space();
}
// Not an object of strings any more, whatever m is.
std::string damaged(const Map &m, std::string &why) {
  static const std::vector<std::string> Other = {
      "1", "true", "null", "-3.5", "[]", "{}", "[\"1\"]", "{\"x\":\"y\"}"};
  std::string t = jsonText(m);
  size_t open = t.find('{'), close = t.rfind('}');
  switch (choose(m.empty() ? 7 : 11)) {
  case 0:
    why = "cut off";
    return t.substr(0, choose((uint32_t)close + 1));
  case 1:
    why = "something follows";
    return t + (chance(1, 2) ? "x" : "{}");
  case 2: {
    why = "not an object";
    auto o = pick(Other);
    return o == "{}" || o[0] == '{' ? "[" + t + "]" : o;
  }
  case 3:
    why = "a value that is no string";
    return t.substr(0, close) + (m.empty() ? "" : ",") + jsonString("another option") +
           ":" + pick(Other) + t.substr(close);
  case 4:
    why = "no value";
    return t.substr(0, close) + (m.empty() ? "" : ",") + "\"another option\"" + t.substr(close);
  case 5:
    why = "a name without quotes";
    return t.substr(0, open + 1) + "name:\"1\"" + (m.empty() ? "" : ",") + t.substr(open + 1);
  case 6:
    why = "no opening brace";
    return t.substr(open + 1);
  case 7:
    why = "a surplus comma";
    return t.substr(0, close) + "," + t.substr(close);
  case 8:
    why = "a missing comma";
    return t.substr(0, close) + "\"another option\":\"1\"" + t.substr(close);
  case 9: {
    why = "an unknown escape";
    return t.substr(0, close) + ",\"another option\":\"\\q\"" + t.substr(close);
  }
  default:
    why = "a value that is no string, first";
    return t.substr(0, open + 1) + "\"another option\":" + pick(Other) + "," + t.substr(open + 1);
  }
}

// ---- the options -------------------------------------------------------------
void checkOption(const Opt &o, const std::string &name, const std::string &value,
                 const char *when) {
  int64_t n = 0;
  Kind k = kindOf(value, n);
  auto bad = [&](const char *what) {
    violate("config:option", "%s: option %s of value %s has %s", when,
            inQuotes(name).c_str(), inQuotes(value).c_str(), what);
  };
  if (o.name() != name)
    bad("another name");
  if (o.isBool() != (k == B) || o.isInt() != (k == I) || o.isString() != (k == S))
    bad("a wrong type");
  if (o.boolValue().has_value() != (k == B) || o.intValue().has_value() != (k == I) ||
      o.stringValue().has_value() != (k == S))
    bad("a value of a wrong type");
  if (k == B && *o.boolValue() != (n != 0))
    bad("a wrong boolean value");
  if (k == I && *o.intValue() != n)
    bad("a wrong number");
  if (k == S && *o.stringValue() != value)
    bad("a wrong string");
  if (o.asString() != shown(value))
    bad("a wrong value");
  if (o.toString() != name + ": " + shown(value))
    bad("a wrong text");
}
struct Obj {
  std::unique_ptr<Conf> c;
  Map want; // as given
};
Map shownMap(const Map &m) {
  Map r;
  for (auto &kv : m)
    r[kv.first] = shown(kv.second);
  return r;
}
std::string mapDiff(const Map &w, const Map &g) {
  std::string s;
  for (auto &kv : w) {
    auto it = g.find(kv.first);
    if (it == g.end())
      s += " no " + inQuotes(kv.first);
    else if (it->second != kv.second)
      s += " " + inQuotes(kv.first) + " is " + inQuotes(it->second) + " instead of " +
           inQuotes(kv.second);
  }
  for (auto &kv : g)
    if (!w.count(kv.first))
      s += " surplus " + inQuotes(kv.first);
  return s;
}
void checkObj(Obj &o, const char *when) {
  size_t n = 0;
  std::set<std::string> names;
  auto one = [&](llvm::StringRef key, const Opt *p) {
    ++n;
    auto it = o.want.find(key.str());
    if (it == o.want.end() || !names.insert(key.str()).second)
      violate("config:surplus", "%s: there is an option %s", when, inQuotes(key.str()).c_str());
    if (!p)
      violate("config:null", "%s: option %s is missing", when, inQuotes(key.str()).c_str());
    checkOption(*p, it->first, it->second, when);
  };
  if (chance(1, 2))
    for (auto &e : *o.c)
      one(e.first(), e.second.get());
  else
    for (auto &e : static_cast<const Conf &>(*o.c))
      one(e.first(), e.second.get());
  if (n != o.want.size())
    violate("config:lost", "%s: %zu options instead of %zu", when, n, o.want.size());
  for (auto &kv : o.want) {
    auto v = o.c->configurationOptionValue(kv.first);
    if (!v || *v != shown(kv.second))
      violate("config:query", "%s: %s is %s instead of %s", when, inQuotes(kv.first).c_str(),
              v ? inQuotes(*v).c_str() : "unknown", inQuotes(shown(kv.second)).c_str());
  }
}
std::string dumped(Obj &o) {
  std::string t = o.c->dumpToString();
  Map got;
  auto e = readJson(t, got);
  if (!e.empty())
    violate("config:text", "no JSON object of strings (%s): %s", e.c_str(), t.c_str());
  auto d = mapDiff(shownMap(o.want), got);
  if (!d.empty())
    violate("config:dump", "the text differs:%s\n%s", d.c_str(), t.c_str());
  return t;
}
// True if f came to its end.
template <class F> bool attempt(bool fail, F f) {
  int64_t at = fail ? (int64_t)choose(1u << choose(5)) : -1;
  bool oom = false;
  if (at >= 0)
    heap::failAfter(at);
  try {
    f();
  } catch (const std::bad_alloc &) {
    oom = true;
  }
  bool fired = at >= 0 && heap::failed();
  heap::failAfter(-1);
  if (fired)
    count("fault.alloc");
  if (oom && !fired)
    violate("config:oom", "out of memory, but no allocation failed");
  return !oom;
}

void c32() {
  world::setupHeap();
  std::vector<Obj> os;
  struct Text {
    std::string t;
    Map want;
  };
  std::vector<Text> texts;
  struct Single {
    std::unique_ptr<Opt> o;
    std::string name, value;
  };
  std::vector<Single> singles;
  std::unique_ptr<vf::FeatureModel> FM;
  RModel m;
  uint64_t sets = 0, loads = 0, refused = 0;
  uint32_t steps = range(3, thorough() ? 120 : 50);
  bool faults = chance(1, 3), many = chance(1, 8);
  auto load = [&](const Text &t, const char *what) {
    std::unique_ptr<Conf> c;
    if (!attempt(faults && chance(1, 4), [&] { c = Conf::createConfigurationFromString(t.t); }))
      return;
    if (!c)
      violate("config:refused", "%s is refused: %s", what, t.t.c_str());
    loads++;
    count("config.loaded");
    Obj n{std::move(c), t.want};
    checkObj(n, what);
    if (!os.empty() && chance(1, 2))
      os[choose(os.size())] = std::move(n);
    else if (os.size() < 4)
      os.push_back(std::move(n));
  };
  while (steps--) {
    step();
    uint32_t k = os.empty() ? choose(2) * 7 : choose(16);
    if (k == 0 || (k == 1 && os.size() < 3 && chance(1, 2))) {
      if (os.size() < 4) {
        logf("%s", "new configuration");
        os.push_back({std::make_unique<Conf>(), {}});
      }
      continue;
    }
    switch (k) {
    case 1:
    case 2:
    case 3:
    case 4: { // an option
      phase("set");
      size_t i = choose(os.size());
      Obj &o = os[i];
      for (uint32_t n = many ? range(1, 80) : 1; n--;) {
        std::string name = !o.want.empty() && chance(1, 3)
                               ? std::next(o.want.begin(), choose(o.want.size()))->first
                               : genName();
        if (many && chance(1, 2))
          name = strf("option%u", choose(400));
        std::string v = genValue();
        bool add = chance(1, 3);
        logf("%zu: %s %s = %s", i, add ? "add" : "set", inQuotes(name).c_str(),
             inQuotes(v).c_str());
        const Opt *own = nullptr; // the name is that of the option itself
        if (o.want.count(name) && chance(1, 3))
          for (auto &e : *o.c)
            if (e.first() == name)
              own = e.second.get();
        bool done = attempt(faults && chance(1, 4), [&] {
          if (own && add) {
            o.c->addConfigurationOption(std::make_unique<Opt>(own->name(), v));
            return;
          }
          if (own) {
            if (own->isString() && chance(1, 2)) {
              v = *own->stringValue();
              o.c->setConfigurationOption(own->name(), *own->stringValue());
            } else
              o.c->setConfigurationOption(own->name(), v);
            return;
          }
          // The caller's strings do not outlive the call.
          std::string a = name, b = v;
          if (add)
            o.c->addConfigurationOption(std::make_unique<Opt>(a, b));
          else
            o.c->setConfigurationOption(a, b);
          a.assign(a.size(), '#');
          b.assign(b.size(), '#');
        });
        if (done) {
          o.want[name] = v;
          ++sets;
          count("config.set");
        } else {
          // As it was, or changed (and without an option that is nothing).
          auto now = o.c->configurationOptionValue(name);
          auto old = o.want.find(name);
          if (now && (old == o.want.end() || *now != shown(old->second))) {
            if (*now != shown(v))
              violate("config:oom-value", "after memory ran out, %s is %s",
                      inQuotes(name).c_str(), inQuotes(*now).c_str());
            o.want[name] = v;
          }
          checkObj(o, "after memory ran out");
        }
      }
      break;
    }
    case 5: {
      phase("query");
      Obj &o = os[choose(os.size())];
      std::string n = genName();
      auto v = o.c->configurationOptionValue(n);
      auto it = o.want.find(n);
      count("config.query");
      if (v.has_value() != (it != o.want.end()) || (v && *v != shown(it->second)))
        violate("config:query", "%s is %s", inQuotes(n).c_str(),
                v ? inQuotes(*v).c_str() : "unknown");
      break;
    }
    case 6: {
      phase("dump");
      size_t i = choose(os.size());
      Obj &o = os[i];
      // (LLVM's JSON writer cannot be unwound, so that no allocation fails here.)
      logf("%zu: dump", i);
      count("config.dumped");
      texts.push_back({dumped(o), shownMap(o.want)});
      if (texts.size() > 4)
        texts.erase(texts.begin() + choose(texts.size()));
      break;
    }
    case 7: {
      phase("load");
      if (!texts.empty() && chance(1, 2)) {
        logf("%s", "load a dumped text");
        load(texts[choose(texts.size())], "a dumped text");
        break;
      }
      Text t;
      for (uint32_t n = choose(many ? 100 : 6); n--;)
        t.want[genName()] = genValue();
      t.t = jsonText(t.want);
      logf("load %s", inQuotes(t.t).c_str());
      load(t, "a text");
      break;
    }
    case 8: {
      phase("load a damaged text");
      Map w;
      for (uint32_t n = choose(5); n--;)
        w[genName()] = genValue();
      std::string why, t = damaged(w, why);
      logf("load a damaged text: %s", why.c_str());
      std::unique_ptr<Conf> c;
      if (!attempt(faults && chance(1, 4), [&] { c = Conf::createConfigurationFromString(t); }))
        break;
      if (c)
        violate("config:accepted", "%s: %s", why.c_str(), t.c_str());
      ++refused;
      count("config.refused");
      break;
    }
    case 9:
      if (chance(1, 3)) {
        size_t i = choose(os.size());
        logf("%zu: destroyed", i);
        os.erase(os.begin() + i);
      }
      break;
    case 10: { // an option of its own
      phase("option");
      if (singles.size() > 5)
        singles.erase(singles.begin() + choose(singles.size()));
      Single s;
      s.name = genName();
      s.value = genValue();
      if (!attempt(faults && chance(1, 4), [&] {
            std::string a = s.name, b = s.value;
            s.o = std::make_unique<Opt>(a, b);
            a.assign(a.size(), '#');
            b.assign(b.size(), '#');
          }))
        break;
      logf("option %s = %s", inQuotes(s.name).c_str(), inQuotes(s.value).c_str());
      checkOption(*s.o, s.name, s.value, "at once");
      singles.push_back(std::move(s));
      break;
    }
    case 11: { // one that was checked before
      if (singles.empty())
        break;
      size_t i = choose(singles.size());
      Single s = std::move(singles[i]);
      singles.erase(singles.begin() + i);
      checkOption(*s.o, s.name, s.value, "later");
      Obj &o = os[choose(os.size())];
      if (!attempt(faults && chance(1, 4),
                   [&] { o.c->addConfigurationOption(std::move(s.o)); })) {
        if (auto now = o.c->configurationOptionValue(s.name);
            now && *now == shown(s.value))
          o.want[s.name] = s.value;
        checkObj(o, "after memory ran out");
        break;
      }
      o.want[s.name] = s.value;
      checkObj(o, "with another option");
      break;
    }
    case 12: { // a sample set of them
      phase("sample set");
      if (!FM || chance(1, 4)) {
        Gen g;
        g.constraints = false;
        g.maxF = 7;
        FM.reset();
        RModel w = gen(g);
        FM = rm::build(w);
        if (!FM)
          break;
        m = extract(*FM);
      }
      std::vector<std::unique_ptr<Conf>> cs;
      std::vector<std::string> want;
      for (uint32_t n = choose(many ? 15 : 4); n--;) {
        if (chance(1, 2) && !os.empty()) { // any configuration whatsoever
          size_t i = choose(os.size());
          bool plain = true;
          int64_t scratch = 0;
          for (auto &f : m.dfs()) {
            auto it = os[i].want.find(f);
            plain = plain && (it == os[i].want.end() || m.f.at(f).kind != FK::FK_NUMERIC ||
                              kindOf(it->second, scratch) == I);
          }
          if (plain) {
            want.push_back(sset::flags(m, shownMap(os[i].want)));
            cs.push_back(std::move(os[i].c));
            Obj n{std::make_unique<Conf>(), {}};
            os[i] = std::move(n);
            continue;
          }
        }
        Map c;
        auto p = std::make_unique<Conf>();
        for (auto &f : m.dfs())
          if (choose(6)) {
            c[f] = m.f.at(f).kind == FK::FK_NUMERIC ? pick(Numbers)
                   : chance(1, 8)                   ? "yes"
                                                    : pick(Bools);
            p->setConfigurationOption(f, c[f]);
          }
        want.push_back(sset::flags(m, shownMap(c)));
        cs.push_back(std::move(p));
      }
      std::string y;
      logf("a sample set of %zu configurations", cs.size());
      if (!attempt(faults && chance(1, 4), [&] {
            y = vara::sampling::SampleSetWriter::writeConfigurations(*FM, cs);
          }))
        break;
      Map got;
      auto e = sset::readYaml(y, got);
      if (cs.empty())
        break; // written as {}
      if (!e.empty() || got.size() != want.size())
        violate("config:sample-set", "%zu configurations, but %s\n%s", want.size(),
                e.c_str(), y.c_str());
      for (size_t i = 0; i < want.size(); ++i)
        if (got[std::to_string(i)] != want[i])
          violate("config:sample", "configuration %zu is written as %s instead of %s\n%s", i,
                  got[std::to_string(i)].c_str(), want[i].c_str(), dump(m).c_str());
      count("config.sample_set");
      break;
    }
    default: {
      if (os.empty())
        break;
      phase("check");
      checkObj(os[choose(os.size())], "later");
    }
    }
  }
  phase("at the end");
  uint64_t h = 0;
  for (auto &o : os) {
    checkObj(o, "at the end");
    dumped(o);
    for (auto &kv : o.want)
      h = mix(h, hashStr(kv.first + "=" + kv.second));
  }
  for (auto &s : singles)
    checkOption(*s.o, s.name, s.value, "at the end");
  state(h);
  summary(strf("%zu options set, %zu texts read, %zu refused", (size_t)sets, (size_t)loads,
               (size_t)refused));
  if (sets + loads < 2)
    discard();
}
Reg r32("C32", "at least two options set or texts read", c32);
} // namespace
