// C14: the available languages are exactly those of the .po files found.
#include "manager.hpp"
#include "langs.hpp"
#include <algorithm>

using namespace model;
using tinygettext::Language;

namespace pbt {
const char* const property_id = "C14";
const char* const property_rule =
  "random directories of file names (supported languages spelled with upper and lower case countries, codesets, modifiers, unknown countries and "
  "languages, odd and arbitrary names); the set of languages compared with a model and under other listing orders, and the dictionary of every listed "
  "language with what the best matching file offers; non-trivial: at least two languages and one name that names none";

namespace {

std::string any_name(Tape& t)
{
  std::string s;
  size_t n = t.length(12, 4);
  static const std::string ch = "aAdeD_.@-poPO ~";
  for (size_t i = 0; i < n; ++i) s += t.chance(230) ? ch[t.range(0, ch.size() - 1)] : static_cast<char>(t.range(1, 255));
  if (t.chance(128)) s += ".po";
  return s;
}

std::string join(const std::set<Language>& v)
{
  std::string r;
  for (auto& l : v) r += " " + l.str();
  return r;
}

// the country of an arbitrary name may hold other characters than letters, where
// case conversion is not specified; codes that are not of the table name nothing anyway
bool plain(const std::string& name)
{
  std::string s = name.substr(0, name.size() - 3);
  s = s.substr(0, std::min(s.find('.'), s.find('@')));
  size_t us = s.find('_');
  if (us == std::string::npos) return true;
  for (size_t i = us + 1; i < s.size(); ++i) if (!(s[i] >= 'a' && s[i] <= 'z') && !(s[i] >= 'A' && s[i] <= 'Z')) return false;
  return true;
}

FileModel tiny(const std::string& name, const std::string& tag)
{
  FileModel f;
  f.name = name;
  f.po = is_po(name);
  f.raw = "msgid \"a\"\nmsgstr \"" + tag + "\"\n";
  return f;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  World w;
  Config cfg;
  std::vector<std::string> codes;
  size_t nc = t.range(1, 4);
  for (size_t i = 0; i < nc; ++i) codes.push_back(t.chance(200) ? t.pick(rich_codes()) : std::string(t.pick(specs()).language));
  size_t nd = t.chance(3) ? magnitude(t, 130) : t.range(0, 4);
  bool other = false;
  for (size_t i = 0; i < nd; ++i) {
    std::string d = "d" + std::to_string(i);
    std::set<std::string> seen;
    size_t n = nd > 4 ? t.range(0, 2) : t.chance(3) ? magnitude(t, 300) : t.range(0, 8);
    for (size_t k = 0; k < n; ++k) {
      unsigned kind = static_cast<unsigned>(t.range(0, 7));
      std::string name = kind < 5 ? gen_po_name(t, t.pick(codes)) : kind == 5 ? noise_name(t) : kind == 6 ? any_name(t) : gen_po_name(t, t.pick(rich_codes()));
      if (name.find('/') != std::string::npos || (is_po(name) && !plain(name)) || !seen.insert(name).second) continue;
      if (!is_po(name) || !file_language(name)) other = true;
      w.dirs[d].push_back(tiny(name, d + ":" + quote(name).substr(1, quote(name).size() - 2)));
    }
    if (!t.chance(24)) cfg.path.push_back(d);
  }
  c.log << "search path " << quote(std::vector<std::string>(cfg.path.begin(), cfg.path.end())) << "\n";
  for (auto& d : w.dirs) { std::vector<std::string> v; for (auto& f : d.second) v.push_back(f.name); c.log << d.first << ": " << quote(v) << "\n"; }
  std::set<Language> e = expected_languages(w, cfg);
  auto state = std::make_shared<WorldFileSystem::State>();
  state->world = w;
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)));
  for (auto& p : cfg.path) m.add_directory(p);
  bool before = t.chance(128);
  std::set<Language> a;
  if (before) a = m.get_languages();
  auto compare = [&](const std::set<Language>& x, const char* kind) {
    for (auto& l : x) c.check(static_cast<bool>(l), "undefined-language", std::string(kind));
    c.check(x == e, kind, [&] { return "got" + join(x) + ", expected" + join(e); });
  };
  if (before) compare(a, "languages");
  // every listed language is loadable, from the file that names it best
  for (auto& l : e) {
    tg::Dictionary& d = m.get_dictionary(l);
    std::string got = d.translate("a");
    std::set<std::string> ok;
    // earliest directory with a matching file decides
    for (auto& p : cfg.path) {
      int best = 0;
      for (auto& f : w.dirs[p]) if (is_po(f.name)) { int s = ref_score(l, file_language(f.name)); if (s > best) { best = s; ok.clear(); } if (s > 0 && s == best) ok.insert(f.raw); }
      if (best) break;
    }
    bool found = false;
    for (auto& r : ok) if (r.find("msgstr \"" + got + "\"") != std::string::npos) found = true;
    if (got.find('\\') != std::string::npos || got.find('"') != std::string::npos) found = true; // quoted name
    c.check(found && got != "a", "listed-but-not-loaded", [&] { return l.str() + " gives " + quote(got); });
  }
  a = m.get_languages();
  compare(a, "languages");
  for (auto& d : state->world.dirs) {
    for (size_t i = d.second.size(); i > 1; --i) std::swap(d.second[i - 1], d.second[t.range(0, i - 1)]);
  }
  compare(m.get_languages(), "languages-in-other-order");
  if (!cfg.path.empty() && t.chance(128)) {
    std::string p = cfg.path[t.range(0, cfg.path.size() - 1)];
    m.remove_directory(p);
    cfg.path.erase(std::find(cfg.path.begin(), cfg.path.end(), p));
    e = expected_languages(w, cfg);
    c.log << "without " << p << "\n";
    compare(m.get_languages(), "languages-after-removal");
  }
  // files come and go while the manager lives
  if (!state->world.dirs.empty() && t.chance(128)) {
    size_t changes = t.range(1, 3);
    for (size_t i = 0; i < changes; ++i) {
      auto it = state->world.dirs.begin();
      std::advance(it, static_cast<long>(t.range(0, state->world.dirs.size() - 1)));
      if (!it->second.empty() && t.chance(128)) {
        size_t k = t.range(0, it->second.size() - 1);
        c.log << "removed " << it->first << "/" << quote(it->second[k].name) << "\n";
        it->second.erase(it->second.begin() + static_cast<long>(k));
      }
      else {
        std::string name = gen_po_name(t, t.pick(codes));
        bool there = false;
        for (auto& f : it->second) there = there || f.name == name;
        if (there || name.find('/') != std::string::npos || !plain(name)) continue;
        c.log << "new " << it->first << "/" << quote(name) << "\n";
        it->second.push_back(tiny(name, "new"));
      }
    }
    e = expected_languages(state->world, cfg);
    compare(m.get_languages(), "languages-after-change-of-files");
    c.label("files changed");
  }
  // file name to language, directly
  std::string n = t.chance(128) ? gen_po_name(t, t.pick(codes)) : any_name(t) + ".po";
  if (plain(n)) {
    Language l = Language::from_env(m.convertFilename2Language(n)), x = file_language(n);
    c.check(l == x, "file-name", [&] { return quote(n) + " names " + l.str() + ", expected " + x.str(); });
  }
  m.convertFilename2Language(any_name(t)); // any name is handled safely
  c.feed(c.log.str());
  c.nontrivial = e.size() > 1 && other;
}

std::vector<Example> examples()
{
  return {
    {"every supported language is listed, in any letter case of its country", [](Case& c) {
      for (int lower = 0; lower < 3; ++lower) {
        auto files = std::make_shared<Files>();
        std::set<Language> e;
        for (auto& s : specs()) {
          std::string country = s.country;
          if (lower) for (size_t i = lower - 1u; i < country.size(); ++i) country[i] = static_cast<char>(country[i] | 32);
          std::string name = std::string(s.language) + (country.empty() ? "" : "_" + country) + (*s.modifier ? std::string("@") + s.modifier : "") + ".po";
          files->dirs["d"].emplace_back(name, "msgid \"a\"\nmsgstr \"" + name + "\"\n");
          Language l = Language::from_spec(s.language, s.country, s.modifier);
          c.check(static_cast<bool>(l), "language-missing", name);
          e.insert(l);
        }
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
        m.add_directory("d");
        std::set<Language> a = m.get_languages();
        c.check(a == e && a.size() == specs().size(), "languages", [&] { return "got" + join(a); });
        for (size_t i = 0; i < specs().size(); ++i) {
          const Spec& s = specs()[i];
          std::string got = m.get_dictionary(Language::from_spec(s.language, s.country, s.modifier)).translate("a");
          c.check(got == files->dirs["d"][i].first, "listed-but-not-loaded", [&] { return got + " for " + files->dirs["d"][i].first; });
        }
      }
    }},
    {"short names", [](Case& c) {
      auto files = std::make_shared<Files>();
      for (auto n : {"", "a", "po", ".", "..", ".po", "o", "_", "d_", "_.po", "@.po"}) files->dirs["d"].emplace_back(n, "msgid \"a\"\nmsgstr \"b\"\n");
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
      m.add_directory("d");
      c.check(m.get_languages().empty(), "languages", [&] { return join(m.get_languages()); });
      for (auto& f : files->dirs["d"]) m.convertFilename2Language(f.first);
    }},
    {"names of every length, with and without the suffix", [](Case& c) {
      std::vector<size_t> lengths;
      for (size_t n = 0; n < 700; ++n) lengths.push_back(n);
      for (size_t k : {1024, 4096, 32768, 65536, 131072}) for (size_t n = k - 6; n < k + 4; ++n) lengths.push_back(n);
      for (size_t n : lengths) {
        auto files = std::make_shared<Files>();
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
        std::set<Language> e;
        std::vector<std::string> stems = {"de_de." + std::string(n, 'x'), std::string(n, 'q'), "pt_" + std::string(n, 'a'), "fr@" + std::string(n, 'm'), "." + std::string(n, '.'), std::string(n, 'k') + "_br", "es_mx" + std::string(n, '.') + "@" + std::string(n % 7, '_')};
        for (auto& stem : stems) {
          files->dirs["d"].emplace_back(stem + ".po", "msgid \"a\"\nmsgstr \"" + stem.substr(0, 2) + "\"\n");
          files->dirs["d"].emplace_back(stem, "msgid \"a\"\nmsgstr \"wrong\"\n");
          Language l = file_language(stem + ".po");
          if (l) e.insert(l);
          auto what = [&] { return std::to_string(n) + ": " + quote(stem.substr(0, 40)); };
          std::string conv = m.convertFilename2Language(stem + ".po");
          c.check(conv == m.convertFilename2Language(stem), "suffix-matters", what);
          c.check(Language::from_env(conv) == l, "name-of-file", what);
        }
        m.add_directory("d");
        std::set<Language> a = m.get_languages();
        c.check(a == e, "languages", [&] { return std::to_string(n) + ": got" + join(a) + " instead of" + join(e); });
        for (auto& l : e) c.check(m.get_dictionary(l).translate("a") == l.get_language(), "listed-but-not-loaded", [&] { return std::to_string(n) + ": " + l.str(); });
      }
    }},
    {"every code of up to three letters", [](Case& c) {
      auto files = std::make_shared<Files>();
      std::vector<std::string> all = {""};
      for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < 3) for (char ch = 'a'; ch <= 'z'; ++ch) all.push_back(all[i] + ch);
      std::set<std::string> codes;
      for (auto& s : specs()) codes.insert(s.language);
      std::set<Language> e;
      for (auto& s : all) { files->dirs["d"].emplace_back(s + ".po", ""); files->dirs["e"].emplace_back(s, ""); files->dirs["e"].emplace_back(s + ".pox", ""); if (codes.count(s)) e.insert(Language::from_spec(s)); }
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
      m.add_directory("e");
      c.check(m.get_languages().empty(), "languages", [&] { return "got" + join(m.get_languages()); });
      m.add_directory("d");
      std::set<Language> a = m.get_languages();
      c.check(a == e && a.size() == codes.size(), "languages", [&] { return "got" + join(a); });
    }},
    {"every number of files and directories, a language at every place", [](Case& c) {
      for (unsigned n = 0; n < 300; n += n < 40 ? 1 : 23) for (unsigned k = 0; k <= n; k += n < 40 ? 1 : 11) {
        auto files = std::make_shared<Files>();
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
        auto& d = files->dirs["d0"];
        for (unsigned i = 0; i < n; ++i) d.emplace_back(i % 4 == 0 ? "README" + std::to_string(i) : i % 4 == 1 ? "x" + std::to_string(i) + ".po" : i % 4 == 2 ? "fr.po" : "fr_CA.utf8" + std::to_string(i) + ".po", "");
        d.emplace(d.begin() + static_cast<long>(k), "pt_br.po", "msgid \"a\"\nmsgstr \"b\"\n");
        std::set<Language> e = {Language::from_spec("pt", "BR")};
        if (n > 2) e.insert(Language::from_spec("fr"));
        if (n > 3) e.insert(Language::from_spec("fr", "CA"));
        m.add_directory("d0");
        auto judge = [&](const std::string& note) {
          std::set<Language> a = m.get_languages();
          c.check(a == e, "languages", [&] { return std::to_string(k) + " of " + std::to_string(n) + note + ": got" + join(a); });
        };
        judge("");
        c.check(m.get_dictionary(Language::from_spec("pt", "BR")).translate("a") == "b", "listed-but-not-loaded");
        if (k % 5) continue;
        // the same one to a directory
        files->dirs.clear();
        for (unsigned i = 1; i <= n; ++i) { files->dirs["d" + std::to_string(i)].emplace_back(i % 2 ? "fr.po" : "README", ""); m.add_directory("d" + std::to_string(i), i % 3 == 0); }
        files->dirs["d" + std::to_string(k)].emplace_back("pt_BR.po", "");
        e = {Language::from_spec("pt", "BR")};
        if (n > 0) e.insert(Language::from_spec("fr"));
        judge(" directories");
        files->dirs["d" + std::to_string(k)].clear();
        e.clear();
        if (n > 1 || (n == 1 && k != 1)) e.insert(Language::from_spec("fr"));
        judge(" directories, taken away");
      }
    }},
  };
}
} // namespace pbt
