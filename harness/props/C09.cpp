// C09: language specifications resolve correctly and round-trip.
#include "langnames.hpp"
#include "langs.hpp"
#include "model.hpp"

#include <unordered_map>
#include <unordered_set>

using namespace model;
using tinygettext::Language;

namespace pbt {
const char* const property_id = "C09";
const char* const property_rule =
  "environment-style strings built from known and unknown languages, countries, codesets and modifiers, well-known names in random letter case, "
  "and arbitrary strings; resolved by from_env, from_name and from_spec and compared with an own splitter and the list of supported languages; "
  "non-trivial: the string has at least two parts or is a name in other than lower case, and its language is known";

namespace {

struct Alias { const char* name; const char* language; const char* country; };
const std::vector<Alias>& aliases()
{
  static const std::vector<Alias> v = {
    {"bokmal", "nb", "NO"}, {"bokm\xc3\xa5l", "nb", "NO"}, {"catalan", "ca", "ES"}, {"croatian", "hr", "HR"}, {"czech", "cs", "CZ"}, {"danish", "da", "DK"}, {"dansk", "da", "DK"},
    {"deutsch", "de", "DE"}, {"dutch", "nl", "NL"}, {"eesti", "et", "EE"}, {"estonian", "et", "EE"}, {"finnish", "fi", "FI"}, {"fran\xc3\xa7" "ais", "fr", "FR"}, {"french", "fr", "FR"},
    {"galego", "gl", "ES"}, {"galician", "gl", "ES"}, {"german", "de", "DE"}, {"greek", "el", "GR"}, {"hebrew", "he", "IL"}, {"hrvatski", "hr", "HR"}, {"hungarian", "hu", "HU"},
    {"icelandic", "is", "IS"}, {"italian", "it", "IT"}, {"japanese", "ja", "JP"}, {"japanese.euc", "ja", "JP"}, {"japanese.sjis", "ja", "JP"}, {"korean", "ko", "KR"}, {"korean.euc", "ko", "KR"},
    {"lithuanian", "lt", "LT"}, {"norwegian", "nb", "NO"}, {"nynorsk", "nn", "NO"}, {"polish", "pl", "PL"}, {"portuguese", "pt", "PT"}, {"romanian", "ro", "RO"}, {"russian", "ru", "RU"},
    {"slovak", "sk", "SK"}, {"slovene", "sl", "SI"}, {"slovenian", "sl", "SI"}, {"spanish", "es", "ES"}, {"swedish", "sv", "SE"}, {"thai", "th", "TH"}, {"turkish", "tr", "TR"},
  };
  return v;
}

bool is_name(const std::string& s)
{
  std::string low;
  for (char ch : s) low += ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
  for (auto& a : aliases()) if (low == a.name) return true;
  return false;
}

bool known_code(const std::string& s)
{
  for (auto& x : specs()) if (s == x.language) return true;
  return false;
}

std::string describe(const Language& l)
{
  return "[" + quote(l.get_language()) + " " + quote(l.get_country()) + " " + quote(l.get_modifier()) + " str " + quote(l.str()) + "]";
}

bool has(const Language& l, const Spec& s)
{
  return l && l.get_language() == s.language && l.get_country() == s.country && l.get_modifier() == s.modifier;
}

const Names* names_of(const std::string& str)
{
  static const std::unordered_map<std::string, const Names*> m = [] {
    std::unordered_map<std::string, const Names*> r;
    for (auto& n : language_names()) r[std::string(n.language) + (*n.country ? "_" : "") + n.country + (*n.modifier ? "@" : "") + n.modifier] = &n;
    return r;
  }();
  auto i = m.find(str);
  return i == m.end() ? nullptr : i->second;
}

// what must hold for any language object
void sane(Case& c, const Language& l)
{
  if (!l) {
    c.check(l.get_language().empty() && l.get_country().empty() && l.get_modifier().empty() && l.get_name().empty() && l.get_localized_name().empty() && l.str().empty(), "undefined-not-empty", [&] { return describe(l); });
    c.check(l == Language() && !(l != Language()), "undefined-not-equal");
    return;
  }
  c.check(!l.get_language().empty() && !l.get_name().empty() && !l.get_localized_name().empty(), "defined-but-empty", [&] { return describe(l); });
  std::string s = l.get_language();
  if (!l.get_country().empty()) s += "_" + l.get_country();
  if (!l.get_modifier().empty()) s += "@" + l.get_modifier();
  c.check(l.str() == s, "printed-form", [&] { return describe(l); });
  if (const Names* n = names_of(s)) { // a language that is new in the library is not in our copy
    std::string own = *n->localized ? n->localized : n->name;
    c.check(l.get_name() == n->name, "english-name", [&] { return s + ": " + quote(l.get_name()) + " instead of " + quote(n->name); });
    c.check(l.get_localized_name() == own, "own-name", [&] { return s + ": " + quote(l.get_localized_name()) + " instead of " + quote(own); });
  }
  c.check(Language::from_env(s) == l, "printed-form-not-read-back-by-from_env", [&] { return s + " -> " + describe(Language::from_env(s)); });
  c.check(Language::from_name(s) == l, "printed-form-not-read-back-by-from_name", [&] { return s + " -> " + describe(Language::from_name(s)); });
  c.check(Language::from_spec(l.get_language(), l.get_country(), l.get_modifier()) == l, "parts-not-read-back", [&] { return s; });
  c.check(l != Language(), "defined-equals-undefined");
}

void compare(Case& c, const Language& a, const Language& b)
{
  bool same = static_cast<bool>(a) == static_cast<bool>(b) && a.get_language() == b.get_language() && a.get_country() == b.get_country() && a.get_modifier() == b.get_modifier();
  auto what = [&] { return describe(a) + " " + describe(b); };
  c.check((a == b) == same && (a != b) == !same, "equality", what);
  c.check((!(a < b) && !(b < a)) == same, "ordering", what);
  c.check(!(a < b && b < a), "ordering-asymmetric", what);
  if (same) c.check(tg::Language_hash()(a) == tg::Language_hash()(b), "hash", what);
}

std::string random_case(Tape& t, const std::string& s)
{
  std::string r = s;
  unsigned mode = static_cast<unsigned>(t.range(0, 3));
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i] < 'a' || r[i] > 'z') continue;
    if (mode == 0) continue;
    if (mode == 1 && i > 0) continue;
    if (mode == 3 && !t.chance(128)) continue;
    r[i] = static_cast<char>(r[i] - 32);
  }
  return r;
}

std::string word(Tape& t, const char* without)
{
  std::string s;
  size_t n = t.range(0, 6);
  for (size_t i = 0; i < n; ++i) {
    char ch = t.chance(40) ? static_cast<char>(t.byte()) : t.chance(40) ? "_.@-+ /"[t.range(0, 6)] : static_cast<char>("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[t.range(0, 61)]);
    if (!std::string(without).empty() && std::string(without).find(ch) != std::string::npos) continue;
    s += ch;
  }
  return s;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  switch (t.range(0, 4)) {
    case 0: { // names
      const Alias& a = t.pick(aliases());
      std::string s = random_case(t, a.name);
      c.log << "name " << quote(s) << "\n";
      c.feed(s);
      Language l = Language::from_name(s);
      Spec e{a.language, a.country, ""};
      c.check(has(l, e), "name", [&] { return quote(s) + " -> " + describe(l); });
      sane(c, l);
      c.label("name");
      c.nontrivial = s != a.name;
      break;
    }
    case 1: { // arbitrary
      std::string s;
      size_t n = t.range(0, 24);
      for (size_t i = 0; i < n; ++i) s += t.chance(100) ? "_.@"[t.range(0, 2)] : t.chance(128) ? static_cast<char>('a' + t.range(0, 25)) : static_cast<char>(t.byte());
      if (t.chance(40)) { static const std::vector<std::string> pre = {"de", "en_US", "sr@latin", "zh_TW.Big5"}; s = t.pick(pre) + s; }
      c.log << "arbitrary " << quote(s) << "\n";
      c.feed(s);
      std::string code = s.substr(0, s.find_first_of("_.@"));
      Language l = Language::from_env(s);
      c.check(static_cast<bool>(l) == known_code(code) || (l && l.get_language() == code), "arbitrary-string", [&] { return quote(s) + " -> " + describe(l); });
      if (l) c.check(l.get_language() == code, "language-part", [&] { return quote(s) + " -> " + describe(l); });
      sane(c, l);
      sane(c, Language::from_name(s));
      sane(c, Language::from_spec(s, t.chance(128) ? s : std::string(), t.chance(128) ? s : std::string()));
      c.label("arbitrary");
      c.nontrivial = l && s != code;
      break;
    }
    default: { // parts
      const Spec& base = t.pick(specs());
      const Spec& other = t.pick(specs());
      std::string lang = t.chance(24) ? word(t, "_.@") : base.language;
      if (t.chance(16)) lang = random_case(t, t.pick(aliases()).name) + (t.chance(128) ? word(t, "_.@") : "");
      std::string country, codeset, modifier;
      bool hc = t.chance(170), hs = t.chance(128), hm = t.chance(128);
      if (hc) country = t.chance(170) ? base.country : t.chance(128) ? other.country : word(t, "_.@");
      if (hm) modifier = t.chance(150) ? base.modifier : t.chance(128) ? other.modifier : word(t, "");
      if (hc && t.chance(16)) country += "_" + word(t, "_.@"); // separators within a part
      if (hm && t.chance(16)) modifier += std::string(1, "@@._"[t.range(0, 3)]) + word(t, "");
      static const std::vector<std::string> sets = {"UTF-8", "ISO-8859-1", "utf8", "ISO_8859-15", "eucJP", "", "a.b", "_", "_DE", "x_US.y"};
      if (hs) codeset = t.chance(200) ? t.pick(sets) : word(t, "@");
      std::string s = lang + (hc ? "_" + country : "") + (hs ? "." + codeset : "") + (hm ? "@" + modifier : "");
      std::string without = lang + (hc ? "_" + country : "") + (hm ? "@" + modifier : "");
      c.log << "parts " << quote(s) << "\n";
      c.feed(s);
      Language l = Language::from_env(s), e = Language::from_spec(lang, country, modifier);
      c.check(l == e, "split", [&] { return quote(s) + " -> " + describe(l) + ", its parts -> " + describe(e); });
      c.check(Language::from_env(without) == l, "codeset-matters", [&] { return quote(s) + " / " + quote(without); });
      if (!is_name(s)) c.check(Language::from_name(s) == l, "from_name-differs", [&] { return quote(s); });
      if (!known_code(lang)) c.check(!l || l.get_language() == lang, "unknown-code", [&] { return quote(s); });
      else {
        c.check(static_cast<bool>(l) && l.get_language() == lang, "known-code", [&] { return quote(s) + " -> " + describe(l); });
        for (auto& x : specs()) if (lang == x.language && country == x.country && modifier == x.modifier) c.check(has(l, x), "supported-language", [&] { return quote(s) + " -> " + describe(l); });
      }
      sane(c, l);
      const Spec& q = t.pick(specs());
      Language m = t.chance(200) ? Language::from_spec(q.language, q.country, q.modifier) : Language::from_spec(lang, other.country, other.modifier);
      compare(c, l, m);
      compare(c, l, e);
      compare(c, l, Language());
      if (l && m && e) {
        Language n = Language::from_spec(other.language, other.country, other.modifier);
        if (l < m && m < n) c.check(l < n, "ordering-not-transitive");
        if (n < m && m < l) c.check(n < l, "ordering-not-transitive");
      }
      if (hs) c.label("codeset");
      if (hm) c.label("modifier");
      if (hc) c.label("country");
      c.nontrivial = known_code(lang) && (hc || hs || hm);
    }
  }
}

std::vector<Example> examples()
{
  return {
    {"every supported language", [](Case& c) {
      std::set<Language> ordered;
      std::unordered_set<Language, tg::Language_hash> hashed;
      for (auto& s : specs()) {
        Language l = Language::from_spec(s.language, s.country, s.modifier);
        c.check(has(l, s), "supported-language", [&] { return std::string(s.language) + " " + s.country + " " + s.modifier + " -> " + describe(l); });
        sane(c, l);
        for (const char* codeset : {".UTF-8", ".ISO_8859-1", ".", "._"}) {
          std::string e = std::string(s.language) + (*s.country ? "_" : "") + s.country + codeset + (*s.modifier ? "@" : "") + s.modifier;
          c.check(Language::from_env(e) == l, "codeset", [&] { return e + " -> " + describe(Language::from_env(e)); });
        }
        c.check(ordered.insert(l).second && hashed.insert(l).second, "not-distinct", [&] { return describe(l); });
        c.check(!ordered.insert(Language::from_env(l.str())).second && !hashed.insert(Language::from_env(l.str())).second, "not-equal", [&] { return describe(l); });
      }
      c.check(ordered.size() == specs().size() && hashed.size() == specs().size(), "count");
    }},
    {"all pairs compare consistently", [](Case& c) {
      std::vector<Language> v;
      for (auto& s : specs()) v.push_back(Language::from_spec(s.language, s.country, s.modifier));
      v.push_back(Language());
      for (auto& a : v) for (auto& b : v) compare(c, a, b);
    }},
    {"every name", [](Case& c) {
      for (auto& a : aliases()) {
        std::string lower = a.name, up, cap;
        for (char ch : lower) up += ch >= 'a' && ch <= 'z' ? static_cast<char>(ch - 32) : ch;
        cap = up.substr(0, 1) + lower.substr(1);
        for (auto& s : {lower, up, cap}) {
          Language l = Language::from_name(s);
          c.check(has(l, Spec{a.language, a.country, ""}), "name", [&] { return quote(s) + " -> " + describe(l); });
        }
      }
    }},
    {"names with something before or behind", [](Case& c) {
      for (auto& a : aliases()) for (std::string name : {std::string(a.name), std::string(1, static_cast<char>(a.name[0] - 32)) + (a.name + 1)})
        for (std::string x : {std::string(" "), std::string("_DE"), std::string(".UTF-8"), std::string(".utf8"), std::string("@euro"), std::string("s"), std::string(1, '\0'), std::string("\n"), std::string("_x"), std::string("_DE.UTF-8@euro"), std::string("-"), std::string("\xff"), std::string("."), std::string("_"), std::string("@"), name, std::string(","), std::string("_BRXX")}) {
          for (auto& s : {name + x, x + name, x + name + x}) {
            if (is_name(s)) continue;
            c.check(!Language::from_name(s) && !Language::from_env(s), "unknown-code", [&] { return quote(s) + " -> " + describe(Language::from_name(s)); });
          }
          std::string cut = name.substr(0, name.size() - 1);
          if (!is_name(cut) && !known_code(cut)) c.check(!Language::from_name(cut), "unknown-code", [&] { return quote(cut); });
        }
    }},
    {"unknown codes and odd strings", [](Case& c) {
      for (const char* s : {"", "_", ".", "@", "_.@", "@._", "._@", "xx", "qqq", "C", "POSIX", "_DE", ".UTF-8", "@latin", "d", "german ", "deutsch_DE", "\xff"}) {
        Language l = Language::from_env(s);
        c.check(!l, "unknown-code", [&] { return quote(s) + " -> " + describe(l); });
        sane(c, l);
        sane(c, Language::from_name(s));
        sane(c, Language::from_spec(s, s, s));
      }
      std::string big(1000000, 'a');
      sane(c, Language::from_env(big + "_" + big + "." + big + "@" + big));
      sane(c, Language::from_name(big));
    }},
    {"every code of up to three letters", [](Case& c) {
      std::set<std::string> codes;
      for (auto& s : specs()) codes.insert(s.language);
      std::vector<std::string> all = {""};
      for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < 3) for (char ch = 'a'; ch <= 'z'; ++ch) all.push_back(all[i] + ch);
      for (auto& s : all) {
        bool known = codes.count(s) == 1;
        auto what = [&] { return quote(s); };
        for (auto& x : {s, s + "_DE", s + "@x", s + ".UTF-8"}) {
          Language l = Language::from_env(x);
          c.check(static_cast<bool>(l) == known && l.get_language() == (known ? s : ""), "unknown-code", what);
        }
        c.check(static_cast<bool>(Language::from_spec(s)) == known && static_cast<bool>(Language::from_name(s)) == known, "unknown-code", what);
        if (known) sane(c, Language::from_env(s));
        std::string up = s;
        for (auto& ch : up) ch = static_cast<char>(ch - 32);
        c.check(!Language::from_spec(up) && !Language::from_env(up), "unknown-code", [&] { return quote(up); });
      }
    }},
    {"every single change of every specification and name", [](Case& c) {
      std::vector<std::string> all;
      for (auto& s : specs()) {
        std::string e = std::string(s.language) + (*s.country ? "_" : "") + s.country + (*s.modifier ? "@" : "") + s.modifier;
        all.push_back(e);
      }
      for (auto& a : aliases()) all.push_back(a.name);
      static const std::string bytes("\0\n !-./09:@ADEZ[_`adez{~\x7f\x80\xa0\xc3\xe4\xff", 29);
      for (auto& e : all) for (size_t i = 0; i <= e.size(); ++i) for (int how = 0; how < 3; ++how) for (char b : bytes) {
        std::string s = e;
        if (how == 0) { if (i == e.size()) continue; s[i] = b; }
        else if (how == 1) s.insert(i, 1, b);
        else { if (b || i == e.size()) continue; s.erase(i, 1); }
        // an own splitter
        std::string rest = s, modifier, country;
        size_t k = rest.find('@');
        if (k != std::string::npos) { modifier = rest.substr(k + 1); rest.erase(k); }
        k = rest.find('.');
        if (k != std::string::npos) rest.erase(k);
        k = rest.find('_');
        if (k != std::string::npos) { country = rest.substr(k + 1); rest.erase(k); }
        Language l = Language::from_env(s), want = Language::from_spec(rest, country, modifier);
        auto what = [&] { return quote(s) + " -> " + describe(l) + ", its parts -> " + describe(want); };
        c.check(l == want && l.str() == want.str(), "split", what);
        c.check(!l || l.get_language() == rest, "language-part", what);
        Language n = Language::from_name(s);
        if (is_name(s)) c.check(static_cast<bool>(n), "name", what);
        else c.check(n == l, "from_name-differs", what);
      }
    }},
    {"parts of every length", [](Case& c) {
      for (size_t n = 0; n < 1100; n += n < 300 || (n > 500 && n < 520) || n > 1015 ? 1 : 13) {
        std::string x(n, 'x'), up(n, 'X');
        auto what = [&] { return "length " + std::to_string(n); };
        Language de = Language::from_spec("de");
        c.check(Language::from_env("de." + x) == de && Language::from_env("de_DE." + x) == Language::from_spec("de", "DE") && Language::from_env("sr_RS." + x + "@latin") == Language::from_spec("sr", "RS", "latin"), "codeset-matters", what);
        c.check(Language::from_env("de_" + up) == Language::from_spec("de", up) && Language::from_env("sr@" + x) == Language::from_spec("sr", "", x) && Language::from_env("sr_" + up + ".a@" + x) == Language::from_spec("sr", up, x), "split", what);
        c.check(Language::from_env("de_" + up).get_language() == "de" && Language::from_env("sr@" + x).get_language() == "sr", "known-code", what);
        for (const char* p : {"q", "de", "german"}) for (auto& s : {p + x, x + p, x + p + x, x + "_DE", x + "@latin"}) {
          std::string code = s.substr(0, s.find_first_of("_.@"));
          if (known_code(code) || is_name(s)) continue;
          c.check(!Language::from_env(s) && !Language::from_name(s) && !Language::from_spec(s), "unknown-code", [&] { return quote(s); });
        }
      }
    }},
  };
}
} // namespace pbt
