// C10: language matching ranks candidates consistently and picks the nearest.
#include "langs.hpp"
#include "model.hpp"

using namespace model;
using tinygettext::Language;

namespace pbt {
const char* const property_id = "C10";
const char* const property_rule =
  "random (code, country, modifier) triples, known and unknown, resolved with from_spec/from_env and compared with the best score an own table "
  "gives to the supported languages; random pairs of languages matched; examples enumerate all pairs of supported languages and all codes x known "
  "countries x known modifiers; non-trivial: the triple is not itself supported and its code has several candidates";

namespace {

int score(const std::string& lc, const std::string& lm, const std::string& rc, const std::string& rm)
{
  bool c_same = lc == rc, c_wild = lc.empty() || rc.empty();
  bool m_same = lm == rm, m_wild = lm.empty() || rm.empty();
  if (c_same) return m_same ? 9 : m_wild ? 8 : 5;
  if (c_wild) return m_same ? 7 : m_wild ? 6 : 3;
  return m_same ? 4 : m_wild ? 2 : 1;
}

std::string describe(const Language& l) { return l.str(); }

// returns whether several candidates were there
bool nearest(Case& c, const std::string& code, const std::string& country, const std::string& modifier, const Language& l)
{
  int best = 0;
  unsigned candidates = 0;
  for (auto& s : specs())
    if (code == s.language) { ++candidates; best = std::max(best, score(country, modifier, s.country, s.modifier)); }
  auto what = [&] { return quote(code) + " " + quote(country) + " " + quote(modifier) + " -> " + describe(l); };
  if (!candidates) return false;
  c.check(static_cast<bool>(l) && l.get_language() == code, "not-found", what);
  int got = score(country, modifier, l.get_country(), l.get_modifier());
  c.check(got >= best, "not-the-nearest", [&] { return what() + " scores " + std::to_string(got) + " while " + std::to_string(best) + " is possible"; });
  return candidates > 1;
}

void pair(Case& c, const Language& a, const Language& b)
{
  int s = Language::match(a, b), r = Language::match(b, a);
  auto what = [&] { return describe(a) + " " + describe(b) + " score " + std::to_string(s); };
  c.check(s == r, "not-symmetric", [&] { return what() + ", reversed " + std::to_string(r); });
  if (a.get_language() != b.get_language()) { c.check(s == 0, "codes-differ", what); return; }
  int e = score(a.get_country(), a.get_modifier(), b.get_country(), b.get_modifier());
  c.check(s == e, "score", [&] { return what() + ", expected " + std::to_string(e); });
  if (a == b) c.check(s == 9, "identical", what);
}

std::string word(Tape& t)
{
  std::string s;
  size_t n = t.range(1, 5);
  for (size_t i = 0; i < n; ++i) s += t.chance(128) ? static_cast<char>('a' + t.range(0, 25)) : static_cast<char>('A' + t.range(0, 25));
  return s;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  // the codes with several variants matter most
  static const std::vector<std::string> rich = {"sr", "ca", "en", "be", "uz", "zh", "pt", "es", "de", "fr", "nb", "ar"};
  const Spec& base = t.pick(specs());
  std::string code = t.chance(128) ? t.pick(rich) : std::string(base.language);
  std::string country, modifier;
  switch (t.range(0, 3)) {
    case 1: country = base.country; break;
    case 2: country = t.pick(specs()).country; break;
    case 3: country = word(t); break;
    default: break;
  }
  static const std::vector<std::string> mods = {"latin", "Latn", "valencia", "quot", "piglatin", "ije", "cyrillic", "boldquot"};
  switch (t.range(0, 3)) {
    case 1: modifier = t.pick(mods); break;
    case 2: for (auto& s : specs()) if (code == s.language && *s.modifier && (modifier.empty() || t.chance(128))) modifier = s.modifier; break;
    case 3: modifier = word(t); break;
    default: break;
  }
  c.log << quote(code) << " " << quote(country) << " " << quote(modifier) << "\n";
  Language l = Language::from_spec(code, country, modifier);
  bool several = nearest(c, code, country, modifier, l);
  Language e = Language::from_env(code + (country.empty() ? "" : "_" + country) + (t.chance(128) ? ".UTF-8" : "") + (modifier.empty() ? "" : "@" + modifier));
  nearest(c, code, country, modifier, e);
  bool exact = l && l.get_country() == country && l.get_modifier() == modifier;
  const Spec& o = t.pick(specs());
  Language m = Language::from_spec(t.chance(200) ? code : std::string(o.language), t.chance(128) ? o.country : "", t.chance(128) ? t.pick(mods) : std::string());
  c.log << "and " << describe(m) << "\n";
  pair(c, l, m);
  pair(c, l, l);
  pair(c, m, e);
  c.feed(c.log.str());
  c.label("score " + std::to_string(Language::match(l, m)));
  if (exact) c.label("exact");
  c.nontrivial = several && !exact;
}

std::vector<Example> examples()
{
  return {
    {"all pairs of supported languages", [](Case& c) {
      std::vector<Language> v;
      for (auto& s : specs()) v.push_back(Language::from_spec(s.language, s.country, s.modifier));
      for (auto& a : v) for (auto& b : v) pair(c, a, b);
    }},
    {"all codes, countries and modifiers", [](Case& c) {
      std::set<std::string> codes, countries{"XX", "de"}, modifiers{"unknown", "LATIN"};
      for (auto& s : specs()) { codes.insert(s.language); countries.insert(s.country); modifiers.insert(s.modifier); }
      for (auto& a : codes) for (auto& b : countries) for (auto& m : modifiers) nearest(c, a, b, m, Language::from_spec(a, b, m));
    }},
    {"all codes and all countries of two letters", [](Case& c) {
      std::set<std::string> codes;
      for (auto& s : specs()) codes.insert(s.language);
      for (auto& code : codes) for (char a = 'A'; a <= 'Z'; ++a) for (char b = 'A'; b <= 'Z'; ++b) {
        std::string country{a, b};
        nearest(c, code, country, "", Language::from_spec(code, country, ""));
        if (b % 5 == 0) for (const char* m : {"latin", "x"}) nearest(c, code, country, m, Language::from_spec(code, country, m));
      }
    }},
    {"all codes with countries and modifiers of any length", [](Case& c) {
      for (const char* code : {"sr", "ca", "en", "de", "pt", "zh", "nb"}) for (size_t n = 0; n < 300; ++n) for (const char* other : {"", "RS", "GB", "latin", "quot"}) {
        std::string x(n, 'L');
        nearest(c, code, x, other, Language::from_spec(code, x, other));
        nearest(c, code, other, x, Language::from_spec(code, other, x));
      }
    }},
  };
}
} // namespace pbt
