#include "iogen.h"
#include <algorithm>
#include <functional>
#include <climits>
using namespace sim;

namespace io {
ExprP flattenOr(const ExprP &e) {
  if (!e || !e->r)
    return e;
  if (e->k != CK::CK_OR)
    return mkB(e->k, flattenOr(e->l), flattenOr(e->r));
  std::vector<ExprP> v;
  std::function<void(const ExprP &)> go = [&](const ExprP &x) {
    if (x->k == CK::CK_OR) {
      go(x->l);
      go(x->r);
    } else
      v.push_back(flattenOr(x));
  };
  go(e);
  ExprP r = v.back();
  for (size_t i = v.size() - 1; i-- > 0;)
    r = mkB(CK::CK_OR, v[i], r);
  return r;
}

static bool readableE(const ExprP &e) {
  switch (e->k) {
  case CK::CK_EXCLUDES:
  case CK::CK_XOR:
  case CK::CK_DIVISION:
    return false;
  case CK::CK_INTEGER:
    return true;
  case CK::CK_FEATURE:
    if (!isalpha((unsigned char)e->name[0]))
      return false;
    for (char c : e->name)
      if (!isalnum((unsigned char)c) && c != '_')
        return false;
    return e->name != "or";
  default:
    return readableE(e->l) && (!e->r || readableE(e->r));
  }
}
bool readable(const Con &c) {
  if (c.cls == 0 &&
      (isPlain(c.e, CK::CK_EXCLUDES) || isPlain(c.e, CK::CK_IMPLIES)))
    return true;
  return readableE(c.e);
}

void vary(RModel &m) {
  static const std::vector<std::string> Meta = {
      "a<b", "x & y", "say \"hi\"", "it's", "\xc3\xbc-model", "p/q.cpp", "1",
      "DeadBEEF", "0123456789abcdef0123456789ABCDEF0123456789abcdef01234567"};
  if (chance(1, 4))
    m.name = pick(Meta);
  if (chance(1, 4))
    m.path = pick(Meta);
  if (chance(1, 4))
    m.commit = pick(Meta);
  for (auto &kv : m.f) {
    Feat &F = kv.second;
    if (F.kind == FK::FK_NUMERIC && chance(1, 3)) {
      if (!F.isRange) {
        static const std::vector<int64_t> V = {
            INT64_MAX, INT64_MIN + 1, 1ll << 53, -(1ll << 32), 2147483648ll, 7};
        F.vals.push_back(pick(V));
        std::sort(F.vals.begin(), F.vals.end());
        if (chance(1, 2))
          std::reverse(F.vals.begin(), F.vals.end());
      } else if (chance(1, 2))
        F.lo = -(int64_t)range(1, 1000000) * 1000003;
      if (F.hasStep) {
        static const std::vector<double> Cs = {0.1, 1e-7, 12345.678, 1e10,
                                               1.0 / 3, 2.5, 9, 0.95};
        F.step.c = pick(Cs);
      }
    }
    if (F.kind != FK::FK_ROOT && chance(1, 8)) {
      static const std::vector<std::string> O = {
          "-D\"x y\"", "<-&->", "--\xc3\xa9", "-a\t-b", "-t  "};
      F.out = pick(O);
    }
    for (auto &l : F.locs)
      if (chance(1, 6)) {
        l.path = "d&d/<f>\".cpp";
        if (l.hasStart) {
          l.sl = 100000 + choose(1000);
          l.sc = chance(1, 2) ? 200 + choose(100000) : 2147483647;
        }
        if (l.hasEnd) {
          l.el = chance(1, 2) ? 70000 + choose(1000) : 2147483647;
          l.ec = 70000 + choose(1000);
        }
        if (l.hasRev)
          l.intro = "a&b";
      }
  }
}

// ---- XML ------------------------------------------------------------------------
namespace {
struct Sabotage {
  std::string extraOption, parentOf, parentIs, childOf, childIs, badText;
  int where = 0; // of badText
  int dtd = 0;
  std::string cycA, cycB;
};
struct Writer {
  std::string o, entities;
  int nEnt = 0;
  Sabotage sab;
  bool spaces = true;
  std::string esc(const std::string &s, bool attr, char q = '"') {
    std::string r;
    bool refs = chance(1, 24);
    for (unsigned char c : s) {
      if (c == '&')
        r += chance(1, 4) ? "&#38;" : "&amp;";
      else if (c == '<')
        r += chance(1, 4) ? "&#x3c;" : "&lt;";
      else if (c == '>' && !chance(1, 3))
        r += "&gt;";
      else if (isalnum(c) && refs && chance(1, 8))
        r += strf(chance(1, 2) ? "&#%d;" : "&#x%X;", c);
      else if (attr && (char)c == q)
        r += q == '"' ? "&quot;" : "&apos;";
      else if (attr && (c == '\t' || c == '\n'))
        r += strf("&#%d;", c);
      else
        r += (char)c;
    }
    return r;
  }
  std::string attr(const char *n, const std::string &v) {
    char q = chance(1, 4) ? '\'' : '"';
    return strf(" %s%s=%s%c%s%c", n, chance(1, 8) ? " " : "",
                chance(1, 8) ? " " : "", q, esc(v, true, q).c_str(), q);
  }
  void ws() {
    switch (choose(12)) {
    case 0: case 1: case 2: case 3: o += "\n"; break;
    case 4: o += "\n    "; break;
    case 5: o += "<!-- a <comment> & more -->"; break;
    case 6: o += " \t\r\n "; break;
    default: break;
    }
  }
  std::string pad() {
    static const std::vector<std::string> P = {"", "", "", "", " ", "\n  ", "\t"};
    return pick(P);
  }
  // Character data, at times in several pieces.
  void text(const std::string &v) {
    size_t at = 0;
    if (v.size() > 1 && chance(1, 16)) {
      at = 1 + choose(v.size() - 1);
      while (at < v.size() && (v[at] & 0xC0) == 0x80)
        ++at;
      // the parser ignores pieces without any character
      if (v.find_first_not_of(" \t\n") >= at ||
          v.find_first_not_of(" \t\n", at) == std::string::npos)
        at = 0;
    }
    auto piece = [&](const std::string &s) {
      // An entity of the document's own; its name tells what it stands for.
      if (!s.empty() && s.find_first_of("&<%\"\r\t\n") == std::string::npos && chance(1, 120)) {
        std::string n = strf("e%d", ++nEnt);
        entities += "<!ENTITY " + n + " \"" + s + "\">\n";
        o += "&" + n + ";";
      } else if (s.find("]]>") == std::string::npos && chance(1, 12))
        o += "<![CDATA[" + s + "]]>";
      else
        o += esc(s, false);
    };
    piece(at ? v.substr(0, at) : v);
    if (at) {
      static const std::vector<std::string> Between = {
          "<!-- <x> & -->", "<?p i?>", "<![CDATA[]]>", "", "<!---->"};
      o += pick(Between);
      piece(v.substr(at));
    }
  }
  void el(const char *n, const std::string &v, bool rpad = true) {
    o += strf("<%s>", n);
    o += pad();
    text(v);
    if (rpad)
      o += pad();
    o += strf("</%s>", n);
    ws();
  }
  void open(const char *n) {
    o += strf("<%s>", n);
    ws();
  }
  void close(const char *n) {
    o += strf("</%s>", n);
    ws();
  }
};

int prec(CK k) {
  switch (k) {
  case CK::CK_MULTIPLICATION: return 1;
  case CK::CK_ADDITION:
  case CK::CK_SUBTRACTION: return 2;
  case CK::CK_GREATER:
  case CK::CK_GREATER_EQUAL:
  case CK::CK_LESS:
  case CK::CK_LESS_EQUAL: return 3;
  case CK::CK_EQUAL:
  case CK::CK_NOT_EQUAL: return 4;
  case CK::CK_AND: return 5;
  case CK::CK_OR: return 6;
  case CK::CK_IMPLIES: return 7;
  case CK::CK_EQUIVALENCE: return 8;
  default: return 0;
  }
}
std::string spell(CK k) {
  switch (k) {
  case CK::CK_ADDITION: return "+";
  case CK::CK_SUBTRACTION: return "-";
  case CK::CK_MULTIPLICATION: return "*";
  case CK::CK_AND: return "&";
  case CK::CK_OR: return chance(1, 6) ? " or " : "|";
  case CK::CK_IMPLIES: return chance(1, 2) ? "=>" : "->";
  case CK::CK_EQUIVALENCE: return chance(1, 2) ? "<=>" : "<->";
  case CK::CK_EQUAL: return "=";
  case CK::CK_NOT_EQUAL: return "!=";
  case CK::CK_LESS: return "<";
  case CK::CK_LESS_EQUAL: return "<=";
  case CK::CK_GREATER: return ">";
  case CK::CK_GREATER_EQUAL: return ">=";
  default: return "?";
  }
}
std::string sp() {
  static const std::vector<std::string> S = {" ", " ", "", "  ", "\t", "\n"};
  return pick(S);
}
// A number, at times in scientific notation.
std::string intText(int64_t v) {
  if (v < -1000000 || v > 1000000 || !chance(1, 4))
    return strf("%lld", (long long)v);
  const char *E = chance(1, 2) ? "e" : "E";
  if (chance(1, 3))
    return strf("%lld%s-%d", (long long)v * 100, E, 2);
  int k = 0;
  for (; v && v % 10 == 0 && k < 3; ++k)
    v /= 10;
  return strf("%lld%s%s%d", (long long)v, E, chance(1, 2) ? "+" : "", k);
}
// A step function: any identifier, any spelling of the constant.
std::string stepText(const Step &s) {
  if (chance(1, 3))
    return s.text();
  static const std::string Sp[] = {" ", "", "  ", "\t", "\n"},
                           First = "azAZmXx", Rest = "azAZ019_kQ";
  std::string id(1, First[choose(First.size())]);
  for (uint32_t n = choose(4); n--;)
    id += Rest[choose(Rest.size())];
  std::string t = s.text(), c;
  for (char ch : t)
    if (isdigit((unsigned char)ch) || ch == '.')
      c += ch;
  if (c.compare(0, 2, "0.") == 0 && chance(1, 3))
    c.erase(0, 1);
  else if (chance(1, 6))
    c = "0" + c;
  if (c.find('.') == std::string::npos) {
    if (chance(1, 4))
      c += chance(1, 2) ? "." : ".00";
  } else if (chance(1, 4))
    c += "0";
  std::string o(1, s.op == 0 ? '+' : s.op == 1 ? '*' : '^');
  auto z = [&] { return Sp[choose(5)]; };
  return z() + (s.varFirst ? id : c) + z() + o + z() +
         (s.varFirst ? c : id) + z();
}
std::string exprText(const ExprP &e) {
  switch (e->k) {
  case CK::CK_FEATURE: {
    return chance(1, 10) ? "( " + e->name + ")" : e->name;
  }
  case CK::CK_INTEGER:
    return intText(e->val);
  case CK::CK_NOT:
  case CK::CK_NEG: {
    bool p = e->l->r || chance(1, 6);
    auto in = exprText(e->l);
    return std::string(e->k == CK::CK_NOT ? "!" : "~") +
           (p ? "(" + in + ")" : sp() + in);
  }
  default: {
    auto side = [&](const ExprP &x) {
      auto t = exprText(x);
      bool need = x->r && prec(x->k) >= prec(e->k);
      if (need || (x->r && chance(1, 2)))
        return "(" + sp() + t + sp() + ")";
      return t;
    };
    auto l = side(e->l);
    auto o = spell(e->k);
    auto r = side(e->r);
    return l + sp() + o + sp() + r;
  }
  }
}

void option(Writer &w, const RModel &m, const Feat &F,
            const std::vector<const Con *> &imp,
            const std::vector<const Con *> &exc, int edge) {
  bool num = F.kind == FK::FK_NUMERIC;
  w.open("configurationOption");
  if (!(w.sab.dtd == 1 && w.sab.parentOf == F.name))
    w.el("name", F.name);
  if (!F.out.empty())
    w.el("outputString", F.out, false);
  if (chance(1, 10))
    w.el(chance(1, 2) ? "prefix" : "preFix", "ignored");
  if (chance(1, 10))
    w.el(chance(1, 2) ? "postfix" : "postFix", "");
  std::string par = F.parent;
  bool wp = F.kind != FK::FK_ROOT && (edge & 1);
  if (w.sab.dtd == 0 && !w.sab.parentIs.empty() && w.sab.parentOf == F.name) {
    par = w.sab.parentIs;
    wp = true;
  }
  if (wp)
    w.el("parent", par);
  else if (chance(1, 8))
    w.el("parent", "");
  auto ch = m.children(F.name);
  shuffle(ch);
  std::vector<std::string> list;
  for (auto &c : ch)
    if (m.f.at(c).uid & (1ull << 62)) // marked: declared by its parent
      list.push_back(c);
  if (w.sab.childOf == F.name)
    list.insert(list.begin() + choose(list.size() + 1), w.sab.childIs);
  if (!list.empty() || chance(1, 8)) {
    w.open("children");
    for (auto &c : list)
      w.el("options", c);
    w.close("children");
  }
  if (!imp.empty() || chance(1, 12)) {
    w.open("impliedOptions");
    for (auto *c : imp)
      w.el("options", c->e->r->name);
    if (w.sab.where == 3 && w.sab.parentOf == F.name)
      w.el("options", w.sab.badText);
    w.close("impliedOptions");
  } else if (w.sab.where == 3 && w.sab.parentOf == F.name) {
    w.open("impliedOptions");
    w.el("options", w.sab.badText);
    w.close("impliedOptions");
  }
  bool bx = w.sab.where == 4 && w.sab.parentOf == F.name;
  if (!exc.empty() || bx || chance(1, 12)) {
    w.open("excludedOptions");
    for (auto *c : exc)
      w.el("options", c->e->r->name);
    if (bx)
      w.el("options", w.sab.badText);
    w.close("excludedOptions");
  }
  if (chance(1, 10))
    w.el("defaultValue", "Selected");
  if (F.opt)
    w.el("optional", "True");
  else if (!chance(1, 3))
    w.el("optional", "False");
  if (num) {
    if (F.isRange) {
      if (!(F.lo == 0 && F.hi == 0 && chance(1, 2))) {
        w.el("minValue", strf("%lld", (long long)F.lo));
        w.el("maxValue", strf("%lld", (long long)F.hi));
      }
    } else {
      static const std::vector<std::string> Sep = {";", "; ", ", ", " ", "\n"};
      auto sep = pick(Sep);
      std::string v;
      for (auto x : F.vals)
        v += (v.empty() ? "" : sep) + strf("%lld", (long long)x);
      w.el("values", v);
    }
    if (w.sab.where == 5 && w.sab.parentOf == F.name)
      w.el("stepFunction", w.sab.badText);
    else if (F.hasStep)
      w.el("stepFunction", stepText(F.step));
  }
  if (!F.locs.empty() || chance(1, 12)) {
    w.open("locations");
    for (auto &l : F.locs) {
      w.o += "<sourceRange";
      if (l.cat || chance(1, 2))
        w.o += w.attr("category", l.cat ? "inessential" : "necessary");
      w.o += ">";
      w.ws();
      if (l.hasRev) {
        w.open("revisionRange");
        w.el("introduced", l.intro);
        if (l.hasRemoved)
          w.el("removed", l.removed);
        w.close("revisionRange");
      }
      w.el("path", l.path);
      w.open("start");
      w.el("line", strf("%u", l.sl));
      w.el("column", strf("%u", l.sc));
      w.close("start");
      w.open("end");
      w.el("line", strf("%u", l.el));
      w.el("column", strf("%u", l.ec));
      w.close("end");
      if (l.hasMO)
        w.el("memberOffset", l.mo);
      w.close("sourceRange");
    }
    w.close("locations");
  }
  if (w.sab.dtd == 2 && w.sab.parentOf == F.name)
    w.el("surprise", "element");
  w.close("configurationOption");
}

std::string xmlWith(RModel m, const Sabotage &sab) {
  Writer w;
  w.sab = sab;
  // how each edge is declared: 1 by the child, 2 by the parent, 3 both
  std::map<std::string, int> edge;
  for (auto &kv : m.f) {
    if (kv.second.kind == FK::FK_ROOT)
      continue;
    int e = range(1, 3);
    if (kv.second.parent == m.root && chance(1, 5))
      e = 0; // the default
    edge[kv.first] = e;
  }
  bool rootDeclared = !(m.root == "root" && m.f.at(m.root).locs.empty() &&
                        chance(1, 4));
  for (auto &c : m.cons)
    if (c.cls == 0 && isPlain(c.e, CK::CK_EXCLUDES) && c.e->l->name == m.root)
      rootDeclared = true;
  if (!rootDeclared)
    for (auto &kv : edge)
      if (m.f[kv.first].parent == m.root && (kv.second & 2))
        kv.second = kv.second & 1;
  constexpr uint64_t Mark = 1ull << 62;
  for (auto &kv : edge) {
    m.f[kv.first].uid &= ~Mark;
    if (kv.second & 2)
      m.f[kv.first].uid |= Mark;
  }
  std::map<std::string, std::vector<const Con *>> imp, exc;
  std::vector<const Con *> txt[3];
  for (auto &c : m.cons) {
    if (c.cls == 0 && isPlain(c.e, CK::CK_EXCLUDES))
      exc[c.e->l->name].push_back(&c);
    else if (c.cls == 0 && isPlain(c.e, CK::CK_IMPLIES) &&
             (rootDeclared || c.e->l->name != m.root) && !chance(1, 4))
      imp[c.e->l->name].push_back(&c);
    else
      txt[c.cls].push_back(&c);
  }
  if (chance(3, 4))
    w.o += chance(1, 3) ? "<?xml version='1.0'?>\n"
                        : "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  if (chance(2, 3))
    w.o += "<!DOCTYPE vm SYSTEM \"vm.dtd\">\n";
  w.o += "<vm";
  std::vector<std::string> at;
  if (sab.dtd != 3)
    at.push_back(w.attr("name", m.name));
  at.push_back(w.attr("root", m.path));
  if (!(m.commit.empty() && chance(1, 2)))
    at.push_back(w.attr("commit", m.commit));
  shuffle(at);
  for (auto &a : at)
    w.o += a;
  w.o += ">";
  w.ws();
  for (int num = 0; num < 2; ++num) {
    std::vector<std::string> ns;
    for (auto &kv : m.f)
      if ((kv.second.kind == FK::FK_NUMERIC) == (num == 1) &&
          (kv.second.kind != FK::FK_ROOT || rootDeclared))
        ns.push_back(kv.first);
    if (num && ns.empty() && chance(1, 2))
      continue;
    shuffle(ns);
    const char *tag = num ? "numericOptions" : "binaryOptions";
    w.open(tag);
    for (auto &n : ns)
      option(w, m, m.f.at(n), imp[n], exc[n], edge[n]);
    if (!num && !sab.extraOption.empty()) {
      w.open("configurationOption");
      w.el("name", sab.extraOption);
      w.close("configurationOption");
    }
    w.close(tag);
  }
  static const char *Tags[] = {"booleanConstraints", "nonBooleanConstraints",
                               "mixedConstraints"};
  for (int cls = 0; cls < 3; ++cls) {
    bool bad = !sab.badText.empty() && sab.where == cls;
    if (txt[cls].empty() && !bad && chance(1, 2))
      continue;
    w.open(Tags[cls]);
    int at = bad ? (int)choose(txt[cls].size() + 1) : -1;
    for (int i = 0; i <= (int)txt[cls].size(); ++i) {
      if (i == at)
        w.el("constraint", sab.badText);
      if (i == (int)txt[cls].size())
        break;
      auto *c = txt[cls][i];
      w.o += "<constraint";
      if (cls == 2) {
        std::string r, e;
        if (c->req || chance(1, 2))
          r = w.attr("req", c->req ? "none" : "all");
        if (c->neg || chance(1, 2))
          e = w.attr("exprKind", c->neg ? "neg" : "pos");
        w.o += chance(1, 2) ? r + e : e + r;
      }
      w.o += ">" + w.pad();
      w.text(exprText(c->e));
      w.o += w.pad() + "</constraint>";
      w.ws();
    }
    w.close(Tags[cls]);
  }
  w.o += "</vm>";
  if (chance(1, 2))
    w.o += "\n";
  if (!w.entities.empty()) {
    size_t p = w.o.find("<!DOCTYPE vm SYSTEM \"vm.dtd\">");
    if (p != std::string::npos)
      w.o.insert(p + 28, " [" + w.entities + "]");
    else
      w.o.insert(w.o.find("<vm"), "<!DOCTYPE vm [\n" + w.entities + "]>\n");
  }
  return w.o;
}
} // namespace

// The same document in another encoding.
std::string encode(const std::string &t) {
  uint32_t k = choose(24);
  if (k < 20)
    return t;
  std::string body = t, head;
  if (body.compare(0, 5, "<?xml") == 0) {
    size_t e = body.find("?>") + 2;
    head = body.substr(0, e);
    body = body.substr(e);
  }
  auto declare = [&](const char *enc) {
    return std::string("<?xml version=\"1.0\" encoding=\"") + enc + "\"?>";
  };
  if (k == 20)
    return "\xef\xbb\xbf" + head + body;
  std::vector<uint32_t> cs;
  std::string all = k == 21   ? declare(chance(1, 2) ? "ISO-8859-1" : "iso-8859-1") + body
                    : chance(1, 2) ? declare("UTF-16") + body
                                   : body;
  bool latin = true;
  for (size_t i = 0; i < all.size();) {
    unsigned char c = all[i];
    size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t u = n == 1 ? c : c & (0x7f >> n);
    for (size_t j = 1; j < n; ++j)
      u = u << 6 | ((unsigned char)all[i + j] & 63);
    cs.push_back(u);
    latin = latin && u < 256;
    i += n;
  }
  std::string r;
  if (k == 21) {
    if (!latin)
      return t;
    for (uint32_t u : cs)
      r += (char)u;
    return r;
  }
  auto put = [&](uint32_t u) {
    char hi = (char)(u >> 8), lo = (char)u;
    r += k == 22 ? lo : hi;
    r += k == 22 ? hi : lo;
  };
  put(0xfeff);
  for (uint32_t u : cs)
    if (u >= 0x10000) {
      put(0xd800 + ((u - 0x10000) >> 10));
      put(0xdc00 + ((u - 0x10000) & 0x3ff));
    } else
      put(u);
  return r;
}

std::string xmlDoc(RModel &m) {
  if (chance(1, 2)) { // alternatives, as the format expresses them
    std::vector<std::string> ps;
    for (auto &kv : m.f)
      if (m.children(kv.first).size() > 1)
        ps.push_back(kv.first);
    if (!ps.empty()) {
      auto p = pick(ps);
      auto ch = m.children(p);
      bool almost = chance(1, 4); // one pair or one member spoils it
      for (auto &a : ch)
        m.f[a].opt = false;
      std::vector<std::pair<std::string, std::string>> pairs;
      for (auto &a : ch)
        for (auto &b : ch)
          if (a != b)
            pairs.push_back({a, b});
      shuffle(pairs);
      if (almost) {
        if (chance(1, 2))
          pairs.pop_back();
        else
          m.f[pick(ch)].opt = true;
      }
      for (auto &pr : pairs)
        m.cons.push_back(
            {0, 0, 0, mkB(CK::CK_EXCLUDES, mkF(pr.first), mkF(pr.second))});
    }
  }
  return xmlWith(m, {});
}

// ---- SXFM -----------------------------------------------------------------------
std::string sxfmDoc(RModel &m, uint32_t maxF) {
  m = RModel();
  static const std::vector<std::string> Ind = {"", "", "  ", "..", "    "};
  std::string ind = pick(Ind), tab = ind.empty() ? "\t" : ind;
  uint32_t base = chance(1, 5) ? range(1, 2) : 0;
  bool noName = chance(1, 6);
  m.name = noName ? "" : "sx model";
  std::string tree;
  std::vector<std::pair<std::string, std::string>> ids; // id -> name
  uint32_t idn = 0, groupNo = 0, budget = range(0, maxF);
  auto feat = [&](const std::string &n, bool opt, const std::string &p) {
    Feat F;
    F.name = n;
    F.opt = opt;
    F.uid = freshUid();
    F.parent = p;
    m.f[n] = F;
  };
  auto line = [&](uint32_t lvl, const std::string &body) {
    for (uint32_t i = 0; i < lvl + base; ++i)
      tree += tab;
    tree += body + "\n";
    if (chance(1, 12))
      tree += chance(1, 2) ? "\n" : "  \n";
  };
  auto mkId = [&](const std::string &name) -> std::string {
    if (!chance(3, 4)) {
      if (!name.empty())
        ids.push_back({name, name});
      return "";
    }
    std::string id = strf(chance(1, 2) ? "_r_%u_" : "i%u_x", ++idn);
    return id;
  };
  std::function<void(const std::string &, uint32_t, int)> kids =
      [&](const std::string &p, uint32_t lvl, int depth) {
        uint32_t n = budget ? choose(std::min(budget, 4u) + 1) : 0;
        if (depth == 0 && budget)
          n = std::max(n, 1u);
        for (uint32_t i = 0; i < n && budget; ++i) {
          uint32_t k = choose(5);
          if (k < 3) {
            --budget;
            auto nm = freshName(m);
            auto id = mkId(nm);
            bool opt = chance(1, 2);
            feat(nm, opt, p);
            if (!id.empty())
              ids.push_back({id, nm});
            line(lvl, strf(":%c %s%s", opt ? 'o' : 'm', nm.c_str(),
                           id.empty() ? "" : ("(" + id + ")").c_str()));
            if (depth < 4)
              kids(nm, lvl + 1, depth + 1);
          } else {
            bool alt = chance(1, 2), named = chance(1, 3);
            std::string nm =
                named ? freshName(m) : strf("group_%u", ++groupNo);
            auto id = mkId(named ? nm : "");
            if (!id.empty())
              ids.push_back({id, nm});
            feat(nm, false, p);
            std::string card = alt ? "[1,1]" : "[1,*]";
            std::string idp = id.empty() ? "" : "(" + id + ")";
            std::string b = ":g ";
            if (named)
              b += chance(1, 2) ? nm + idp + " " + card : card + " " + nm + idp;
            else
              b += id.empty()         ? card
                   : chance(1, 2) ? idp + " " + card
                                  : card + (chance(1, 2) ? " " : "") + idp;
            line(lvl, b);
            m.g[nm] = {alt ? RK::RK_ALTERNATIVE : RK::RK_OR, freshUid()};
            uint32_t c = range(1, 3);
            for (uint32_t j = 0; j < c; ++j) {
              if (budget)
                --budget;
              auto cn = freshName(m);
              auto cid = mkId(cn);
              feat(cn, false, nm);
              m.f[cn].inGroup = true;
              if (!cid.empty())
                ids.push_back({cid, cn});
              line(lvl + 1, ": " + cn + (cid.empty() ? "" : "(" + cid + ")"));
              if (depth < 3 && budget && chance(1, 3))
                kids(cn, lvl + 2, depth + 2);
            }
          }
        }
      };
  std::string rn = chance(1, 3) ? "root" : freshName(m);
  if (chance(1, 8)) { // no root line: the default root
    m.root = "root";
    feat("root", false, "");
    m.f["root"].kind = FK::FK_ROOT;
    rn = freshName(m);
    bool opt = chance(1, 2);
    feat(rn, opt, "root");
    line(0, strf(":%c %s", opt ? 'o' : 'm', rn.c_str()));
  } else {
    m.root = rn;
    feat(rn, false, "");
    m.f[rn].kind = FK::FK_ROOT;
    auto id = mkId(rn);
    if (!id.empty())
      ids.push_back({id, rn});
    line(0, ":r " + rn + (id.empty() ? "" : "(" + id + ")"));
  }
  kids(rn, 1, 0);
  std::string o;
  if (chance(1, 2))
    o += "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n";
  o += noName ? "<feature_model>\n" : "<feature_model name=\"sx model\">\n";
  if (chance(1, 2))
    o += "<meta>\n<data name=\"creator\">someone &amp; me</data>\n</meta>\n";
  o += ind.empty() ? "<feature_tree>"
                   : "<feature_tree indentation_string=\"" + ind + "\">";
  o += "\n" + tree + "</feature_tree>\n";
  uint32_t nc = ids.empty() ? 0 : choose(4);
  if (nc || chance(1, 2)) {
    o += "<constraints>\n";
    for (uint32_t i = 0; i < nc; ++i) {
      if (chance(1, 4)) { // other formulas than clauses
        std::map<std::string, std::string> nameOf;
        std::function<ExprP(int)> mk = [&](int d) -> ExprP {
          uint32_t k = d ? choose(4) : 0;
          if (k == 1)
            return mkU(CK::CK_NEG, mk(d - 1));
          if (k > 1) {
            auto a = mk(d - 1), b = mk(d - 1);
            return mkB(k == 2 ? CK::CK_AND : CK::CK_OR, a, b);
          }
          auto pr = pick(ids);
          nameOf[pr.first] = pr.second;
          return mkF(pr.first);
        };
        auto e = mk(3);
        auto t = exprText(e);
        std::string u;
        for (char ch : t)
          if (ch == '&' && chance(1, 2))
            u += " and ";
          else if (ch == '\n') // one line each
            u += ' ';
          else if (ch == '&')
            u += "&amp;";
          else
            u += ch;
        std::function<ExprP(const ExprP &)> re = [&](const ExprP &x) -> ExprP {
          if (x->k == CK::CK_FEATURE)
            return mkF(nameOf[x->name]);
          return x->r ? mkB(x->k, re(x->l), re(x->r)) : mkU(x->k, re(x->l));
        };
        o += strf("c%u: %s\n", i + 1, u.c_str());
        m.cons.push_back({0, 0, 0, re(e)});
        continue;
      }
      uint32_t k = range(1, 4);
      std::vector<ExprP> lits;
      std::string t;
      for (uint32_t j = 0; j < k; ++j) {
        auto pr = pick(ids);
        bool neg = chance(1, 2);
        ExprP f = mkF(pr.second);
        lits.push_back(neg ? mkU(CK::CK_NEG, f) : f);
        t += std::string(j ? (chance(1, 4) ? " OR " : " or ") : "") +
             (neg ? "~" : "") + pr.first;
      }
      for (size_t q; (q = t.find(" OR ")) != std::string::npos;)
        t.replace(q, 4, " or ");
      o += strf("%sc%u:%s%s\n", chance(1, 4) ? "  " : "", i + 1,
                chance(1, 4) ? "" : " ", t.c_str());
      ExprP e = lits.back();
      for (size_t j = lits.size() - 1; j-- > 0;)
        e = mkB(CK::CK_OR, lits[j], e);
      m.cons.push_back({0, 0, 0, e});
    }
    o += "</constraints>\n";
  }
  o += "</feature_model>\n";
  return o;
}

// ---- damage -----------------------------------------------------------------------
std::string damageBytes(std::string &t, const std::string &other) {
  if (t.empty())
    t = "x";
  size_t p = choose(t.size());
  size_t n = 1 + choose(std::min<size_t>(t.size() - p, 40));
  switch (choose(11)) {
  case 9: { // declarations of the document's own
    size_t v = t.find("<vm"), d = t.find("<!DOCTYPE");
    if (v == std::string::npos)
      v = t.find("<feature_model");
    if (v == std::string::npos)
      return "nothing";
    std::string ent, use = "&x;";
    switch (choose(6)) {
    case 0: // every one stands for several of the one before
      ent = "<!ENTITY x0 \"lol\">";
      for (uint32_t i = 1, k = range(2, 30), w = range(2, 10); i <= k; ++i) {
        ent += strf("<!ENTITY x%u \"", i);
        for (uint32_t j = 0; j < w; ++j)
          ent += strf("&x%u;", i - 1);
        ent += "\">";
        use = strf("&x%u;", i);
      }
      break;
    case 1:
      ent = "<!ENTITY x \"&y;\"><!ENTITY y \"&x;\">";
      break;
    case 2:
      ent = "<!ENTITY x SYSTEM \"/simfs/model.xml\">";
      break;
    case 3:
      ent = "<!ENTITY % p SYSTEM \"/simfs/none.dtd\">%p;<!ENTITY x \"1\">";
      break;
    case 4:
      ent = "<!ENTITY x \"</name><name>\">";
      break;
    default:
      ent = "<!ELEMENT vm ANY><!ATTLIST vm name CDATA #FIXED \"x\" root CDATA \"y\">"
            "<!ENTITY x '" + std::string(range(1, 5000), 'x') + "'>";
      if (chance(1, 2)) // an attribute is missing
        if (size_t q = t.find(" root="); q != std::string::npos)
          t.erase(q, std::min<size_t>(t.find_first_of("\"'", q) != std::string::npos
                                          ? t.find(t[t.find_first_of("\"'", q)],
                                                   t.find_first_of("\"'", q) + 1) + 1 - q
                                          : 1,
                                      t.size() - q));
    }
    if (size_t q = t.find(chance(1, 2) ? "</name>" : "</"); q != std::string::npos)
      t.insert(q, use);
    if (d != std::string::npos && d < v)
      t.erase(d, v - d), v = d;
    t.insert(v, "<!DOCTYPE vm [" + ent + "]>");
    return "declarations";
  }
  case 0:
    t[p] ^= 1 << choose(8);
    return "bit flip";
  case 1:
    t[p] = (char)choose(256);
    return "byte";
  case 2:
    t.resize(p);
    return "truncation";
  case 3:
    t.erase(p, n);
    return "hole";
  case 4:
    t.insert(p, t.substr(p, n));
    return "duplication";
  case 5: {
    size_t q = choose(other.size() + 1);
    t = t.substr(0, p) + other.substr(q);
    return "splice";
  }
  case 6:
    for (size_t i = p; i < p + n && i < t.size(); ++i)
      t[i] = 0;
    return "zeros";
  case 7: {
    static const std::vector<std::string> Tok = {
        "<", ">", "&", "]]>", "<!--", "&lt;", "&#0;", "&x;", "\xff\xfe",
        "<![CDATA[", "(", "((((", ")", "99999999999999999999", "-", ":", "\n",
        "\t\t", "[1,1]", "~", "=>", "1e999", "x ^ x", "x / 0"};
    t.insert(p, pick(Tok));
    return "token";
  }
  case 8: {
    std::string r;
    uint32_t k = chance(1, 5) ? range(3000, 200000) : range(1, 3000);
    static const std::vector<std::string> Rep = {"(", "!", "~", "a&", "<vm>",
                                                 "\t", "-", "1"};
    auto x = pick(Rep);
    for (uint32_t i = 0; i < k; ++i)
      r += x;
    t.insert(p, r);
    return "repetition";
  }
  default: {
    size_t q = choose(t.size());
    std::swap(t[p], t[q]);
    return "swap";
  }
  }
}
std::string damageXml(std::string &t, const RModel &m, bool &must) {
  Sabotage s;
  std::vector<std::string> ns, nr, nums;
  for (auto &kv : m.f) {
    ns.push_back(kv.first);
    if (kv.second.kind != FK::FK_ROOT)
      nr.push_back(kv.first);
    if (kv.second.kind == FK::FK_NUMERIC)
      nums.push_back(kv.first);
  }
  std::string w;
  must = true;
  RModel m2 = m;
  for (auto &kv : m2.g) // groups are not written
    (void)kv;
  switch (choose(12)) {
  case 0:
    s.badText = "Ghost_1 | " + std::string("Ghost_2");
    s.where = choose(3);
    w = "unknown feature in a constraint";
    break;
  case 1: {
    static const std::vector<std::string> Bad = {"A &",   "",      "(A",  "A)",
                                                 "A B",   "& A",   "A $ B",
                                                 "1 +",   "((A)",  "!"};
    s.badText = pick(Bad);
    if (s.badText.empty())
      s.badText = " ";
    s.where = choose(3);
    w = "malformed constraint";
    break;
  }
  case 2:
    if (nr.empty())
      break;
    s.badText = "Ghost_3";
    s.where = range(3, 4);
    s.parentOf = pick(nr);
    w = "unknown implied or excluded option";
    break;
  case 3:
    if (nr.empty())
      break;
    s.childOf = pick(nr);
    s.childIs = "Ghost_4";
    w = "unknown child";
    break;
  case 4:
    if (nr.empty())
      break;
    s.parentOf = pick(nr);
    s.parentIs = "Ghost_5";
    // declared by its true parent as well or not: unknown either way
    w = "unknown parent";
    break;
  case 5: { // two parents
    std::vector<std::pair<std::string, std::string>> c;
    for (auto &x : nr)
      for (auto &y : nr)
        if (x != y && m.f.at(x).parent != y)
          c.push_back({x, y});
    if (c.empty())
      break;
    auto pr = pick(c);
    s.parentOf = pr.first;
    s.parentIs = m.f.at(pr.first).parent;
    s.childOf = pr.second;
    s.childIs = pr.first;
    w = "two parents";
    break;
  }
  case 6: // cycle
    if (nr.empty())
      break;
    {
      auto a = pick(nr);
      std::vector<std::string> below{a};
      for (auto &x : nr)
        if (m.below(a, x))
          below.push_back(x);
      auto b = pick(below);
      m2.f[a].parent = b;
      w = "cycle";
    }
    break;
  case 7:
    if (nums.empty())
      break;
    {
      static const std::vector<std::string> Bad = {"x +", "+ x", "x x",
                                                   "1 + 2", "x + y", "()"};
      s.badText = pick(Bad);
      s.where = 5;
      s.parentOf = pick(nums);
      w = "malformed step function";
    }
    break;
  case 8:
    s.dtd = range(1, 3);
    s.parentOf = pick(ns);
    if (s.dtd < 3 && s.parentOf == m.root) {
      if (nr.empty())
        break;
      s.parentOf = pick(nr);
    }
    w = "violation of the document type";
    break;
  case 9:
    if (nr.empty())
      break;
    s.extraOption = pick(nr);
    w = "the same option twice";
    break;
  case 10:
    s.extraOption = m.root == "root" ? "base" : "root";
    {
      bool declared = false;
      t = xmlWith(m2, s);
      declared = t.find("<name>" + m.root + "<") != std::string::npos;
      // refused only if both are declared
      must = declared && (m.root == "root" || m.root == "base");
      return "two roots";
    }
  default:
    must = false;
    if (!nums.empty()) {
      m2.f[pick(nums)].lo = INT64_MAX;
      w = "odd range";
    }
  }
  if (w.empty()) {
    must = false;
    t = xmlWith(m2, {});
    return "nothing";
  }
  t = xmlWith(m2, s);
  return w;
}
std::string damageSxfm(std::string &t, bool &must) {
  std::vector<std::string> L;
  for (size_t p = 0; p < t.size();) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos)
      e = t.size();
    L.push_back(t.substr(p, e - p));
    p = e + 1;
  }
  std::vector<size_t> tree;
  bool in = false;
  size_t endTree = 0, cons = 0;
  for (size_t i = 0; i < L.size(); ++i) {
    if (L[i].find("<feature_tree") != std::string::npos)
      in = true;
    else if (L[i].find("</feature_tree") != std::string::npos) {
      in = false;
      endTree = i;
    } else if (L[i].find("<constraints>") != std::string::npos)
      cons = i;
    else if (in && L[i].find(':') != std::string::npos)
      tree.push_back(i);
  }
  std::string w = "nothing";
  must = false;
  if (tree.empty())
    return w;
  size_t i = pick(tree);
  auto colon = L[i].find(':');
  switch (choose(13)) {
  case 0:
    L[i] = "\t" + L[i];
    w = "indented";
    break;
  case 1:
    if (!L[i].empty())
      L[i].erase(0, 1);
    w = "outdented";
    break;
  case 2:
    L[i].erase(colon, 1);
    w = "no colon";
    break;
  case 3:
    if (colon + 1 < L[i].size())
      L[i][colon + 1] = "rmog xz:"[choose(8)];
    w = "other type";
    break;
  case 4:
    L.erase(L.begin() + i);
    w = "line lost";
    break;
  case 5:
    L.insert(L.begin() + i, L[i]);
    must = L[i].find(":r") == std::string::npos
               ? L[i].find(":g [") == std::string::npos &&
                     L[i].find(":g (") == std::string::npos
               : false;
    w = "line twice";
    break;
  case 6: {
    auto b = L[i].find('[');
    static const std::vector<std::string> C = {"[0,1]", "[1,2]", "[", "[1",
                                               "[,]",   "[1,1", "[a,b]", "[2,*]"};
    auto c = pick(C);
    if (b != std::string::npos && L[i].find(']') != std::string::npos) {
      L[i].replace(b, L[i].find(']') - b + 1, c);
      w = "odd cardinality";
      must = c != "[1,1" ;
    } else {
      L[i] += c;
      w = "stray cardinality";
    }
    break;
  }
  case 7:
    std::swap(L[i], L[pick(tree)]);
    w = "lines swapped";
    break;
  case 8:
    L[i] = L[i].substr(0, choose(L[i].size() + 1));
    w = "line cut";
    break;
  case 9: {
    static const std::vector<std::string> C = {
        "c9: ghost_9", "c9: ~ghost_9 or ghost_8", "c9:", "c9", "c9: or",
        "c9: a or", "c9: (a", "c9: ~"};
    auto c = pick(C);
    if (cons)
      L.insert(L.begin() + cons + 1, c);
    else {
      L.insert(L.begin() + endTree + 1, "</constraints>");
      L.insert(L.begin() + endTree + 1, c);
      L.insert(L.begin() + endTree + 1, "<constraints>");
    }
    must = true;
    w = "bad constraint";
    break;
  }
  case 11: {
    // A group without its cardinality says nothing about how many of its
    // members may be selected.
    std::vector<size_t> groups;
    for (auto j : tree)
      if (L[j].find(":g") != std::string::npos &&
          L[j].find('[') != std::string::npos &&
          L[j].find(']') != std::string::npos)
        groups.push_back(j);
    if (groups.empty())
      return "nothing";
    i = pick(groups);
    auto b = L[i].find('[');
    L[i].erase(b, L[i].find(']') - b + 1);
    must = true;
    w = "cardinality lost";
    break;
  }
  case 10:
    L[i] += "(" + std::string(range(1, 30), 'q') + ")";
    w = "second id";
    break;
  default:
    L[i] += " trailing [1,1] (x)";
    w = "trailing text";
  }
  t.clear();
  for (auto &l : L)
    t += l + "\n";
  return w;
}
} // namespace io
