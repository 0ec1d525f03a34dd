// C05: a dictionary returns the latest stored translation or the source text.
#include "model.hpp"

using namespace model;

namespace pbt {
const char* const property_id = "C05";
const char* const property_rule =
  "a random sequence of additions (plain, plural, in context), plural-rule changes, PO loads, lookups and enumerations on one dictionary, "
  "run against a map model; keys from a small pool (including texts glued with EOT, prefixes, empty) and arbitrary bytes; "
  "non-trivial: at least four additions, an overriding one, and a lookup that found a translation";

namespace {

// a stored message: any of these lists is right
struct Slot { std::vector<std::vector<std::string>> any; };

std::string gen_id(Tape& t)
{
  static const std::vector<std::string> v = {"a", "b", "ab", "", "a\4b", "\4b", "a\4", "b\4a", "A", "a ", "ba", "%d", "a|b", std::string("a\0b", 3), std::string("\0", 1), "\xc3\xa4", "\xff"};
  if (t.chance(30)) return gen_text(t, Chars::bytes);
  return t.pick(v);
}

std::string gen_str(Tape& t)
{
  if (t.chance(60)) return std::string();
  if (t.chance(40)) return gen_text(t, Chars::bytes);
  return "T" + std::to_string(t.range(0, 65535));
}

int gen_n(Tape& t)
{
  static const std::vector<int> v = {0, 1, 2, 3, 4, 5, 10, 11, 12, 21, 22, 100, 101, 102, 103, 111, 1000000, 2147483647, -1, -2};
  return t.chance(200) ? t.pick(v) : static_cast<int>(t.range(0, 65535));
}

struct Machine {
  Case& c;
  tg::Dictionary d;
  std::map<Key, Slot> m;
  int rule = -1;
  unsigned adds = 0, overrides = 0, found = 0;

  std::string name(const Key& k) { return (k.first ? quote(*k.first) + "|" : std::string()) + quote(k.second); }

  void store_plain(const Key& k, const std::string& s)
  {
    Slot& slot = m[k];
    if (slot.any.empty()) { slot.any = {{s}}; return; }
    ++overrides;
    std::vector<std::vector<std::string>> next = {{s}};
    for (auto v : slot.any) { if (v.empty()) v.resize(1); v[0] = s; next.push_back(v); }
    slot.any = next;
  }

  void store_plural(const Key& k, const std::vector<std::string>& v)
  {
    Slot& slot = m[k];
    if (!slot.any.empty()) ++overrides;
    slot.any = {v};
  }

  void add_plain(const Key& k, const std::string& s)
  {
    c.log << "add " << name(k) << " " << quote(s) << "\n";
    if (k.first) d.add_translation(*k.first, k.second, s); else d.add_translation(k.second, s);
    store_plain(k, s);
    ++adds;
  }

  void add_plural(const Key& k, const std::string& p, const std::vector<std::string>& v)
  {
    c.log << "add " << name(k) << "/" << quote(p) << " " << quote(v) << "\n";
    if (k.first) d.add_translation(*k.first, k.second, p, v); else d.add_translation(k.second, p, v);
    store_plural(k, v);
    ++adds;
  }

  unsigned form(int n) { return rule < 0 ? 0 : rules()[static_cast<size_t>(rule)].f(n); }

  void lookup(const Key& k)
  {
    c.log << "lookup " << name(k) << "\n";
    std::string a = k.first ? d.translate_ctxt(*k.first, k.second) : d.translate(k.second);
    auto i = m.find(k);
    bool ok = false;
    std::string e = k.second;
    if (i == m.end()) ok = a == e;
    else for (auto& v : i->second.any) {
      e = !v.empty() && !v[0].empty() ? v[0] : k.second;
      if (a == e) { ok = true; if (!v.empty() && !v[0].empty()) ++found; break; }
    }
    c.check(ok, k.first ? "lookup-in-context" : "lookup", [&] { return name(k) + " gives " + quote(a) + ", expected " + quote(e); });
  }

  void lookup_plural(const Key& k, const std::string& p, int n)
  {
    c.log << "lookup " << name(k) << "/" << quote(p) << " n=" << n << "\n";
    std::string a = k.first ? d.translate_ctxt_plural(*k.first, k.second, p, n) : d.translate_plural(k.second, p, n);
    std::string source = n == 1 ? k.second : p, e = source;
    auto i = m.find(k);
    bool ok = false;
    unsigned f = form(n);
    if (i == m.end()) ok = a == source;
    else for (auto& v : i->second.any) {
      e = f < v.size() && !v[f].empty() ? v[f] : source;
      if (a == e) { ok = true; if (e != source) ++found; break; }
    }
    c.check(ok, k.first ? "plural-lookup-in-context" : "plural-lookup", [&] { return name(k) + " for " + std::to_string(n) + " gives " + quote(a) + ", expected " + quote(e); });
  }

  void enumerate()
  {
    c.log << "enumerate\n";
    std::map<Key, std::vector<std::string>> seen;
    bool twice = false;
    d.foreach([&](const std::string& id, const std::vector<std::string>& v) { twice |= !seen.emplace(Key(std::nullopt, id), v).second; });
    d.foreach_ctxt([&](const std::string& x, const std::string& id, const std::vector<std::string>& v) { twice |= !seen.emplace(Key(x, id), v).second; });
    c.check(!twice, "enumerated-twice");
    for (auto& x : m) {
      auto i = seen.find(x.first);
      if (i == seen.end()) {
        bool empty = false; // nothing but empty texts: may be left out
        for (auto& v : x.second.any) empty |= v.empty();
        c.check(empty, "not-enumerated", [&] { return name(x.first); });
        continue;
      }
      bool ok = false;
      for (auto& v : x.second.any) ok |= v == i->second;
      c.check(ok, "enumerated-wrong-text", [&] { return name(x.first) + " is " + quote(i->second); });
    }
    for (auto& x : seen) c.check(m.count(x.first), "enumerated-unknown", [&] { return name(x.first) + " -> " + quote(x.second); });
  }
};

Key gen_full_key(Tape& t)
{
  if (t.chance(128)) { std::string x = gen_id(t); return Key(x, gen_id(t)); }
  return Key(std::nullopt, gen_id(t));
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  static const std::vector<std::string> cs = {"UTF-8", "ISO-8859-1", "", "x"};
  const std::string& charset = t.pick(cs);
  Machine s{c, tg::Dictionary(charset), {}, -1, 0, 0, 0};
  // keys get reused: remember them
  std::vector<Key> used;
  auto key = [&] {
    if (!used.empty() && t.chance(140)) {
      Key k = t.pick(used);
      switch (t.range(0, 5)) {
        case 1: k.first = gen_id(t); break;
        case 2: k.first = std::nullopt; break;
        case 3: case 4: { // nearly the same one
          if (!t.chance(100)) break;
          std::string& s = k.first && t.chance(80) ? *k.first : k.second;
          if (t.chance(80)) s += std::string(magnitude(t, 600), '=');
          used.push_back(k);
          switch (t.range(0, 3)) {
            case 0: s += " "; break;
            case 1: s += "2"; break;
            case 2: s = " " + s; break;
            case 3: if (!s.empty()) { char& ch = s[t.range(0, s.size() - 1)]; ch = static_cast<char>(ch ^ 32); } break;
          }
          used.push_back(k);
          break;
        }
        default: break;
      }
      return k;
    }
    Key k = gen_full_key(t);
    used.push_back(k);
    return k;
  };
  size_t n = 2 + t.length(60, 16);
  if (t.chance(2)) { // many messages behind it
    size_t k = magnitude(t, 1100);
    std::string prefix = t.chance(128) ? "" : std::string(magnitude(t, 300), '.');
    for (size_t i = 0; i < k; ++i) {
      Key x(std::nullopt, prefix + std::to_string(i));
      if (i % 3 == 1) x.first = prefix; else if (i % 3 == 2) { x.first = prefix + std::to_string(i); x.second = prefix; }
      s.add_plain(x, tagged("M", static_cast<unsigned>(i)));
      if (i % 16 == 0) used.push_back(x);
    }
  }
  for (size_t i = 0; i < n; ++i) {
    switch (t.range(0, 11)) {
      case 0: case 1: case 2: { Key k = key(); s.add_plain(k, gen_str(t)); break; }
      case 3: case 4: {
        Key k = key();
        std::vector<std::string> v;
        size_t f = t.range(0, 6);
        for (size_t j = 0; j < f; ++j) v.push_back(gen_str(t));
        s.add_plural(k, t.chance(128) ? k.second + "s" : gen_id(t), v);
        break;
      }
      case 5: case 6: s.lookup(key()); break;
      case 7: case 8: { Key k = key(); std::string p = t.chance(128) ? k.second + "s" : gen_id(t); s.lookup_plural(k, p, gen_n(t)); break; }
      case 9: s.enumerate(); break;
      case 10: {
        s.rule = t.chance(60) ? -1 : static_cast<int>(t.range(0, rules().size() - 1));
        c.log << "rule " << s.rule << "\n";
        tg::PluralForms f = s.rule < 0 ? tg::PluralForms() : tg::PluralForms(rules()[static_cast<size_t>(s.rule)].n, rules()[static_cast<size_t>(s.rule)].f);
        s.d.set_plural_forms(f);
        c.check(s.d.get_plural_forms() == f, "plural-rule-not-kept");
        break;
      }
      case 11: { // the last word of a PO load counts like an addition
        Key k = key();
        if (k.first || k.second.empty() || k.second.find('\0') != std::string::npos) break;
        std::string str = "L" + std::to_string(t.range(0, 255));
        if (charset.size() < 2) break;
        Layout l(nullptr);
        std::string file;
        write_string(file, l, "msgid", k.second);
        write_string(file, l, "msgstr", str);
        c.log << "load " << quote(file) << "\n";
        load("x.po", file, s.d);
        s.store_plain(k, str);
        ++s.adds;
        break;
      }
    }
  }
  // every key in every form, twice: lookups change nothing
  for (int round = 0; round < 2; ++round) {
    for (auto& k : used) {
      s.lookup(k);
      for (int q : {0, 1, 2, 5, 11, 101}) s.lookup_plural(k, k.second + "s", q);
      s.lookup(Key(std::nullopt, k.second));
      if (k.first) s.lookup(Key(std::nullopt, *k.first + "\4" + k.second));
      s.lookup(Key(k.second, k.first.value_or("")));
    }
    s.enumerate();
  }
  c.check(s.d.get_charset() == charset, "charset-changed");
  c.feed(c.log.str());
  if (s.overrides) c.label("override");
  if (s.rule >= 0) c.label("plural rule");
  c.nontrivial = s.adds >= 4 && s.overrides > 0 && s.found > 0;
}

std::vector<Example> examples()
{
  return {
    {"empty and missing translations", [](Case& c) {
      tg::Dictionary d;
      d.set_plural_forms(tg::PluralForms(2, rules()[0].f));
      d.add_translation("a", "");
      d.add_translation("b", "bs", std::vector<std::string>{"B"});
      d.add_translation("x", "a", "as", std::vector<std::string>{"", ""});
      c.check(d.translate("a") == "a", "empty translation");
      c.check(d.translate_plural("b", "bs", 1) == "B" && d.translate_plural("b", "bs", 2) == "bs", "missing form");
      c.check(d.translate_ctxt_plural("x", "a", "as", 1) == "a" && d.translate_ctxt_plural("x", "a", "as", 0) == "as", "empty forms");
      c.check(d.translate_ctxt("x", "a") == "a" && d.translate_ctxt("", "a") == "a", "context");
    }},
    {"many messages", [](Case& c) {
      tg::Dictionary d;
      for (unsigned i = 0; i < 20000; ++i) { d.add_translation(tagged("k", i), tagged("v", i)); d.add_translation(tagged("c", i % 100), tagged("k", i), tagged("w", i)); }
      for (unsigned i = 0; i < 20000; i += 7) {
        c.check(d.translate(tagged("k", i)) == tagged("v", i), "lookup");
        c.check(d.translate_ctxt(tagged("c", i % 100), tagged("k", i)) == tagged("w", i), "lookup-in-context");
        c.check(d.translate_ctxt(tagged("c", (i + 1) % 100), tagged("k", i)) == tagged("k", i), "lookup-in-context");
      }
    }},
    {"hundreds of thousands of messages of one length", [](Case& c) {
      // more than a hash of 32 bits can tell apart
      tg::Dictionary d;
      auto key = [](unsigned i) { uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ull; char b[17]; snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(x ^ (x >> 29))); return std::string(b); };
      const unsigned n = 330000;
      for (unsigned i = 0; i < n; ++i) { d.add_translation(key(i), std::to_string(i)); if (i % 3 == 0) d.add_translation("x", key(i), "s", std::vector<std::string>{std::to_string(i), "many"}); }
      unsigned seen = 0;
      for (unsigned i = 0; i < n; ++i) {
        c.check(d.translate(key(i)) == std::to_string(i), "lookup", [&] { return key(i); });
        if (i % 3 == 0) c.check(d.translate_ctxt("x", key(i)) == std::to_string(i), "lookup-in-context", [&] { return key(i); });
      }
      d.foreach([&](const std::string&, const std::vector<std::string>&) { ++seen; });
      c.check(seen == n, "enumeration", [&] { return std::to_string(seen); });
      LogCapture::reset();
    }},
    {"every length, every number", [](Case& c) {
      tg::Dictionary d;
      d.set_plural_forms(tg::PluralForms(2, rules()[0].f));
      auto text = [](char tag, unsigned n) { std::string s(1, tag); for (unsigned i = 0; i < n; ++i) s += static_cast<char>('a' + (i * 5 + n) % 26); return s; };
      std::vector<unsigned> sizes;
      for (unsigned n = 0; n < 600; ++n) sizes.push_back(n);
      for (unsigned p = 10; p < 17; ++p) for (int k = -2; k < 3; ++k) sizes.push_back(static_cast<unsigned>((1 << p) + k));
      for (int round = 0; round < 2; ++round) {
        for (unsigned n : sizes) {
          d.add_translation(text('k', n), text('v', n + static_cast<unsigned>(round)));
          d.add_translation(text('p', n), text('q', n), std::vector<std::string>{text('r', n), text('s', n)});
          d.add_translation(text('c', n), text('k', n), text('w', n));
          d.add_translation("c", text('p', n), "q", std::vector<std::string>{text('t', n), text('u', n)});
        }
        for (unsigned n : sizes) {
          auto what = [&] { return "length " + std::to_string(n); };
          c.check(d.translate(text('k', n)) == text('v', n + static_cast<unsigned>(round)), "lookup", what);
          c.check(d.translate_plural(text('p', n), "", 1) == text('r', n) && d.translate_plural(text('p', n), "", 0) == text('s', n), "lookup", what);
          c.check(d.translate_ctxt(text('c', n), text('k', n)) == text('w', n), "lookup", what);
          c.check(d.translate_ctxt_plural("c", text('p', n), "", 1) == text('t', n) && d.translate_ctxt_plural("c", text('p', n), "", -7) == text('u', n), "lookup", what);
          if (n > 40 && n % 32) continue;
          c.check(d.translate(text('x', n)) == text('x', n) && d.translate_plural(text('x', n), text('y', n), 2) == text('y', n) && d.translate_plural(text('x', n), text('y', n), 1) == text('x', n) && d.translate_ctxt(text('x', n), text('k', n)) == text('k', n) &&
                  d.translate_ctxt_plural(text('x', n), text('p', n), text('y', n), 3) == text('y', n), "lookup", what);
        }
      }
      // counts, with all translations, without any and with the first one only
      d.add_translation("one", "ones", std::vector<std::string>{"1"});
      for (int n = -1000; n < 70000; ++n) {
        auto what = [&] { return "count " + std::to_string(n); };
        c.check(d.translate_plural("p", "", n) == (n == 1 ? "r" : "s"), "lookup", what);
        c.check(d.translate_ctxt_plural("c", "p", "", n) == (n == 1 ? "t" : "u"), "lookup", what);
        if (n % 101 < 3) {
          c.check(d.translate_plural("one", "ones", n) == (n == 1 ? "1" : "ones"), "lookup", what);
          c.check(d.translate_ctxt_plural("none", "one", "ones", n) == (n == 1 ? "one" : "ones"), "lookup", what);
        }
      }
      // the same message again and again; as many contexts; more and more messages
      tg::Dictionary r;
      std::string last;
      for (unsigned i = 0; i < 3000; ++i) {
        last = "v" + std::to_string(i % 1000);
        r.add_translation("m", last);
        r.add_translation("c", "m", "w" + last);
        r.add_translation(tagged("c", i), "m", last);
        r.add_translation("d", tagged("m", i), last);
        r.add_translation("pl", "pls", std::vector<std::string>(1 + i % 5, last));
        c.check(r.translate("m") == last && r.translate_ctxt("c", "m") == "w" + last && r.translate_ctxt(tagged("c", i), "m") == last && r.translate_ctxt("d", tagged("m", i)) == last && r.translate_plural("pl", "pls", 1) == last, "lookup", [&] { return "after " + std::to_string(i); });
        c.check(r.translate_ctxt(tagged("c", i / 2), "m") == "v" + std::to_string(i / 2 % 1000) && r.translate_ctxt("d", tagged("m", i / 3)) == "v" + std::to_string(i / 3 % 1000) && r.translate_ctxt("d", tagged("m", i + 1)) == tagged("m", i + 1), "lookup", [&] { return "after " + std::to_string(i); });
      }
      size_t forms = 0, seen = 0;
      r.foreach([&](const std::string&, const std::vector<std::string>& v) { ++seen; forms += v.size(); });
      c.check(seen == 2 && forms == 1 + 5, "enumeration");
      seen = 0;
      r.foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++seen; });
      c.check(seen == 1 + 3000 + 3000, "enumeration");
    }},
    {"every number of forms, every count", [](Case& c) {
      for (auto& rule : rules()) for (unsigned n = 0; n < 12; ++n) for (unsigned empty = 0; empty < (1u << std::min(n, 6u)); ++empty) {
        tg::Dictionary d;
        d.set_plural_forms(tg::PluralForms(rule.n, rule.f));
        std::vector<std::string> v;
        for (unsigned i = 0; i < n; ++i) v.push_back(i < 6 && (empty & (1u << i)) ? "" : "f" + std::to_string(i));
        d.add_translation("m", "ms", v);
        d.add_translation("c", "m", "ms", v);
        for (int k : {0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 12, 13, 19, 20, 21, 22, 25, 100, 101, 102, 103, 111, 112, 121, 1000, 1001, 1000000}) {
          unsigned f = rule.f(k);
          std::string e = f < v.size() && !v[f].empty() ? v[f] : k == 1 ? "m" : "ms";
          c.check(d.translate_plural("m", "ms", k) == e && d.translate_ctxt_plural("c", "m", "ms", k) == e, "lookup", [&] { return std::string(rule.header) + " count " + std::to_string(k) + " of " + quote(v); });
        }
        std::string e = v.empty() || v[0].empty() ? "m" : v[0];
        c.check(d.translate("m") == e && d.translate_ctxt("c", "m") == e, "lookup", [&] { return quote(v); });
      }
    }},
    {"a rule of one's own with very many forms", [](Case& c) {
      auto own = [](int n) -> unsigned int { return n < 0 ? 0xfffffff0u : static_cast<unsigned int>(n); };
      for (unsigned k : {0u, 1u, 2u, 255u, 256u, 257u, 65535u, 65536u, 70000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
        tg::PluralForms rule(k, own);
        c.check(rule.get_nplural() == k && rule && rule == tg::PluralForms(k, own) && rule != tg::PluralForms(k ^ 1, own) && rule != tg::PluralForms(k ^ 0x10000, own), "plural rule", [&] { return std::to_string(k) + " forms became " + std::to_string(rule.get_nplural()); });
        tg::Dictionary d;
        d.set_plural_forms(rule);
        c.check(d.get_plural_forms() == rule && d.get_plural_forms().get_nplural() == k, "plural rule", [&] { return std::to_string(k) + " forms"; });
      }
      tg::Dictionary d;
      d.set_plural_forms(tg::PluralForms(70000, own));
      std::vector<std::string> v, w;
      for (unsigned i = 0; i < 70000; ++i) { v.push_back("f" + std::to_string(i)); w.push_back("g" + std::to_string(i)); }
      d.add_translation("m", "ms", v);
      d.add_translation("c", "m", "ms", w);
      auto look = [&](int k) {
        bool has = k >= 0 && k < 70000;
        std::string e = has ? v[static_cast<size_t>(k)] : "ms", f = has ? w[static_cast<size_t>(k)] : "ms";
        std::string a = d.translate_plural("m", "ms", k), b = d.translate_ctxt_plural("c", "m", "ms", k);
        c.check(a == e && b == f, "lookup", [&] { return "count " + std::to_string(k) + " gave " + quote(a) + " and " + quote(b); });
      };
      for (int k = 0; k < 1200; ++k) look(k);
      for (int k = 1200; k < 71000; k += 37) look(k);
      for (int k : {32767, 32768, 65534, 65535, 65536, 65537, 65792, 69999, 70000, 70001, 131072, 16777216, 0x7fffffff, -1, -2, -256, -65536}) look(k);
    }},
  };
}
} // namespace pbt
