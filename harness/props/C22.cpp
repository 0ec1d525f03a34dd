// C22: the locale of the process makes no difference.
#include "charset.hpp"
#include "langs.hpp"
#include "manager.hpp"
#include "program.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <algorithm>
#include <clocale>
#include <filesystem>
#include <fstream>
#include <locale>
#include <unistd.h>

using namespace model;

namespace pbt {
const char* const property_id = "C22";
const char* const property_rule =
  "a random program of loads (charset names in any letter case, faults on lines with large numbers), lookups that succeed and fail, resolutions of language "
  "names and specifications in any letter case, plural headers, conversions and manager requests over files with lower-case countries is run in the C locale "
  "and again while setlocale and std::locale::global put other locales (Turkish, Azeri, Latin-1, Big5, Shift-JIS ..., and C++ locales with own digit grouping, "
  "numbers, order and character classes) in place, or change the environment, before or between its steps; results and reports must be equal byte for byte; non-trivial: at least three steps, one of "
  "them with letters in other than the usual case or with a report, run in another locale";

namespace {

// --- locales -----------------------------------------------------------------------------
const std::vector<std::string>& names()
{
  static const std::vector<std::string> v = {"tr_TR.UTF-8", "tr_TR.ISO-8859-9", "az_AZ.UTF-8", "de_DE.ISO-8859-1", "fr_FR.UTF-8", "zh_TW.BIG5", "ja_JP.SHIFT_JIS", "lt_LT.ISO-8859-13", "ru_RU.KOI8-R", "hi_IN.UTF-8", "C.UTF-8"};
  return v;
}

struct Grouping : std::numpunct<char> {
  explicit Grouping(const char* g_) : g(g_) {}
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return g; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
  const char* g;
};

// other letters, spaces, digits and cases than usual
struct Classes : std::ctype<char> {
  Classes() : std::ctype<char>(table()) {}
  static const mask* table()
  {
    static mask m[table_size];
    static bool done = false;
    if (!done) {
      std::copy(classic_table(), classic_table() + table_size, m);
      m['x'] = space;
      m['i'] = punct;
      for (int i = '0'; i <= '9'; ++i) m[i] = alpha;
      m['\t'] = cntrl;
      m[0xa0] = space;
      for (int i = 0xc0; i < 0x100; ++i) m[i] = alpha | upper;
      done = true;
    }
    return m;
  }
  char do_toupper(char c) const override { return c == 'i' ? static_cast<char>(0xdd) : c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c; }
  char do_tolower(char c) const override { return c == 'I' ? static_cast<char>(0xfd) : c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
  const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
  const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};

// sorts backwards, and takes letters of any case for one
struct Collation : std::collate<char> {
  static std::string lower(const char* b, const char* e) { std::string r(b, e); for (auto& ch : r) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); return r; }
  int do_compare(const char* a, const char* b, const char* x, const char* y) const override { int r = lower(a, b).compare(lower(x, y)); return r < 0 ? 1 : r > 0 ? -1 : 0; }
  std::string do_transform(const char* a, const char* b) const override { std::string r = lower(a, b); for (auto& ch : r) ch = static_cast<char>(~ch); return r + "\xff"; }
  long do_hash(const char*, const char*) const override { return 1; }
};

// writes numbers in letters
struct Numbers : std::num_put<char> {
  template <class V> static iter_type put_value(iter_type o, V) { for (char ch : std::string("viele")) *o++ = ch; return o; }
  iter_type do_put(iter_type o, std::ios_base&, char, long v) const override { return put_value(o, v); }
  iter_type do_put(iter_type o, std::ios_base&, char, unsigned long v) const override { return put_value(o, v); }
  iter_type do_put(iter_type o, std::ios_base&, char, long long v) const override { return put_value(o, v); }
  iter_type do_put(iter_type o, std::ios_base&, char, unsigned long long v) const override { return put_value(o, v); }
  iter_type do_put(iter_type o, std::ios_base&, char, bool v) const override { return put_value(o, v); }
  iter_type do_put(iter_type o, std::ios_base&, char, double v) const override { return put_value(o, v); }
};

const std::vector<const char*>& variables()
{
  static const std::vector<const char*> v = {"LANG", "LC_ALL", "LANGUAGE", "LC_MESSAGES", "LC_CTYPE", "CHARSET", "OUTPUT_CHARSET", "LC_NUMERIC", "LC_COLLATE", "LOCALE", "TEXTDOMAINDIR", "LOCALEDIR", "POSIXLY_CORRECT"};
  return v;
}

struct Change {
  int kind = 0; // 0 none, 1 setlocale LC_ALL, 2 LC_CTYPE, 3 std::locale::global of a name, 4 of own facets, 5 back to C, 6 the environment
  std::string name;
  int facets = 0;

  std::string text() const
  {
    switch (kind) {
      case 1: return "setlocale(LC_ALL, " + name + ")";
      case 2: return "setlocale(LC_CTYPE, " + name + ")";
      case 3: return "std::locale::global(" + name + ")";
      case 4: return "std::locale::global(own facets " + std::to_string(facets) + ")";
      case 5: return "locale C";
      case 6: return std::string("environment ") + variables()[static_cast<size_t>(facets) / 2] + "=" + name + (facets & 1 ? ", setlocale(LC_ALL, \"\")" : "");
      default: return "";
    }
  }
};

void back_to_c()
{
  std::locale::global(std::locale::classic());
  setlocale(LC_ALL, "C");
  for (auto v : variables()) unsetenv(v);
}

std::locale own(int k)
{
  std::locale l = std::locale::classic();
  if (k & 1) l = std::locale(l, new Grouping(k & 4 ? "\1" : "\3"));
  if (k & 2) l = std::locale(l, new Classes());
  if (k & 8) l = std::locale(l, new Collation());
  if (k & 16) l = std::locale(l, new Numbers());
  return l;
}

// returns whether there is such a locale
bool apply(const Change& ch)
{
  switch (ch.kind) {
    case 1: return setlocale(LC_ALL, ch.name.c_str()) != nullptr;
    case 2: return setlocale(LC_CTYPE, ch.name.c_str()) != nullptr;
    case 3: try { std::locale::global(std::locale(ch.name)); return true; } catch (std::runtime_error&) { return false; }
    case 4: std::locale::global(own(ch.facets)); return true;
    case 5: back_to_c(); return true;
    case 6: setenv(variables()[static_cast<size_t>(ch.facets) / 2], ch.name.c_str(), 1); if (ch.facets & 1) setlocale(LC_ALL, ""); return true;
    default: return true;
  }
}

struct Restore { Restore() { back_to_c(); } ~Restore() { back_to_c(); } };

struct Program {
  std::vector<Step> steps;
  std::vector<std::string> charsets;
  World world;
};

std::vector<std::string> run(const Program& p, const std::vector<Change>& plan, Case& c, bool& other)
{
  Restore restore;
  Objects o;
  LogCapture::reset();
  auto state = std::make_shared<WorldFileSystem::State>();
  state->world = p.world;
  std::vector<std::string> out;
  bool changed = false;
  for (size_t i = 0; i < p.steps.size(); ++i) {
    if (i < plan.size() && plan[i].kind) {
      bool ok = apply(plan[i]);
      changed = plan[i].kind == 5 ? false : changed || ok;
      c.label(!ok ? "no such locale" : plan[i].kind == 4 ? "own facets" : plan[i].kind == 6 ? "environment" : plan[i].name.empty() ? "C" : plan[i].name);
    }
    if (i == 0) {
      for (auto& s : p.charsets) o.d.emplace_back(new tg::Dictionary(s));
      o.m.reset(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state))));
      o.m->add_directory("d0");
    }
    if (changed && p.steps[i].telling) other = true;
    std::string r = p.steps[i].run(o);
    out.push_back(r + "\n" + reports());
  }
  return out;
}

Change gen_change(Tape& t)
{
  Change ch;
  ch.kind = static_cast<int>(t.range(1, 6));
  if (ch.kind <= 3) ch.name = t.pick(names());
  if (ch.kind == 4) ch.facets = static_cast<int>(t.range(1, 31));
  if (ch.kind == 6) {
    static const std::vector<std::string> values = {"de_DE.UTF-8", "fi_FI", "it", "id_ID.ISO-8859-1", "pt_BR.UTF-8@euro", "C", "de:fi:it", "d0", "UTF-16", "big5", "1"};
    ch.facets = static_cast<int>(t.range(0, 2 * variables().size() - 1));
    ch.name = t.chance(60) ? t.pick(names()) : t.pick(values);
  }
  return ch;
}

void compare(Case& c, const Program& p, const std::vector<Change>& plan)
{
  bool other = false, none = false;
  std::vector<std::string> a = run(p, {}, c, none);
  std::vector<std::string> b = run(p, plan, c, other);
  for (size_t i = 0; i < a.size(); ++i)
    c.check(a[i] == b[i], "locale-matters", [&] { return "step " + std::to_string(i) + " (" + p.steps[i].text + ")\n in the C locale: " + a[i] + "\n in the other:    " + b[i]; });
  c.nontrivial = other && p.steps.size() >= 3;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  Program p;
  for (int i = 0; i < 2; ++i) p.charsets.push_back(scramble(t, t.pick(targets())));
  WorldOptions o;
  o.codes = {"fi", "id", "de", "it", "pt"};
  o.charsets = true;
  o.max_files = 4;
  p.world.dirs["d0"] = gen_dir(t, "d0", o);
  p.world.dirs["d1"] = gen_dir(t, "d1", o);
  size_t n = t.range(1, 10);
  std::vector<Change> plan(n);
  for (size_t i = 0; i < n; ++i) {
    if (i == 0 ? !t.chance(40) : t.chance(60)) { plan[i] = gen_change(t); if (!plan[i].text().empty()) c.log << plan[i].text() << "\n"; }
    p.steps.push_back(gen_step(t));
    c.log << p.steps[i].text << "\n";
  }
  c.log << show(p.world);
  c.feed(c.log.str());
  compare(c, p, plan);
}

std::vector<Example> examples()
{
  return {
    {"letter case in every locale", [](Case& c) {
      std::vector<Change> all;
      for (int k = 1; k <= 3; ++k) for (auto& n : names()) { Change ch; ch.kind = k; ch.name = n; all.push_back(ch); }
      for (int k = 1; k <= 31; ++k) { Change ch; ch.kind = 4; ch.facets = k; all.push_back(ch); }
      for (size_t k = 0; k < 2 * variables().size(); ++k) { Change ch; ch.kind = 6; ch.facets = static_cast<int>(k); ch.name = "de_DE.ISO-8859-1"; all.push_back(ch); }
      Program p;
      p.charsets = {"utf-8", "iso-8859-9"};
      auto load = [&](const std::string& content) {
        Step s;
        s.text = brief(content);
        s.run = [content](Objects& o) {
          std::string r;
          for (auto& d : o.d) {
            std::istringstream in(content);
            try { tg::POParser::parse("f.po", in, *d, true); } catch (std::exception& e) { r += e.what(); }
            r += show(dump(*d));
          }
          return r;
        };
        p.steps.push_back(s);
      };
      load("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=big5\\n\"\n\nmsgid \"a\"\nmsgstr \"\xa5\\\"\n");
      load("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=iso-8859-9\\n\"\n\nmsgid \"b\"\nmsgstr \"\xdd\xfd\"\n");
      load("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=windows-1254\\n\"\n\nmsgid \"c\"\nmsgstr \"\xdd\xfd\"\n");
      load("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=Iso-8859-1\\n\"\n" + std::string(1200, '\n') + "msgid \"d\"\nmsgstr \"\\i\"\n\nmsgid x\n\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"\"\nmsgstr[1] \"P\"\n\n");
      Step s;
      s.text = "names";
      s.run = [](Objects& o) {
        std::string r;
        for (auto& x : specs()) {
          std::string n = std::string(x.language) + "_" + x.country, low;
          for (char ch : n) low += ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
          r += o.m->convertFilename2Language(low + ".po") + " " + o.m->convertFilename2Language(low + ".iso-8859-1.po") + describe(tg::Language::from_name(low)) + "\n";
        }
        for (const char* n : {"Italian", "ITALIAN", "FINNISH", "icelandic", "Icelandic", "fran\xc3\xa7" "ais", "FRAN\xc3\xa7" "AIS", "Bokm\xc3\xa5l", "LITHUANIAN"}) r += describe(tg::Language::from_name(n)) + "\n";
        return r;
      };
      p.steps.push_back(s);
      s.text = "files that match equally well";
      s.run = [](Objects&) {
        struct Files : tg::FileSystem {
          std::vector<std::string> names;
          std::vector<std::string> open_directory(const std::string&) override { return names; }
          std::unique_ptr<std::istream> open_file(const std::string& n) override { return std::unique_ptr<std::istream>(new std::istringstream("msgid \"a\"\nmsgstr \"" + n + "\"\n")); }
        };
        std::string r;
        for (auto names : std::vector<std::vector<std::string>>{{"de_AT.po", "de_DE.po", "de_CH.po"}, {"de.po", "de.UTF-8.po", "de.iso-8859-1.po"}, {"de_DE.po", "de_de.po"}, {"de_DE.a.po", "de_DE.B.po", "de_DE.C.po", "de_DE._.po"}, {"pt_PT.po", "pt_BR.po"}, {"fi.\xc3\xa4.po", "fi.z.po", "fi.o.po"}}) {
          for (int turn = 0; turn < 2; ++turn) {
            Files* f = new Files;
            f->names = names;
            tg::DictionaryManager m{std::unique_ptr<tg::FileSystem>(f)};
            m.add_directory("d");
            for (const char* l : {"de", "de_LU", "de_DE", "pt", "fi"}) r += m.get_dictionary(tg::Language::from_env(l)).translate("a") + " ";
            std::set<std::string> all;
            for (auto& l : m.get_languages()) all.insert(l.str());
            for (auto& l : all) r += l + " ";
            std::reverse(names.begin(), names.end());
          }
        }
        return r;
      };
      p.steps.push_back(s);
      for (auto& ch : all) {
        c.log.str("");
        c.log << ch.text() << "\n";
        compare(c, p, {ch});
      }
    }},
    {"every byte in every place of a file, in every locale", [](Case& c) {
      std::vector<Change> all;
      for (auto& n : names()) for (int k : {1, 3}) { Change ch; ch.kind = k; ch.name = n; all.push_back(ch); }
      for (int k : {1, 2, 3, 8, 16, 31}) { Change ch; ch.kind = 4; ch.facets = k; all.push_back(ch); }
      static const std::string head = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
      static const std::vector<std::pair<std::string, std::string>> places = {
        {"msgid \"a\" ", "\nmsgstr \"b\"\n\n"}, {"msgid \"a", "\"\nmsgstr \"b\"\n\n"}, {"msgid \"a\\", "\"\nmsgstr \"b\"\n\n"}, {"msgid", "\"a\"\nmsgstr \"b\"\n\n"},
        {"msgid \"a\"\nmsgstr \"b\"\n", "\n"}, {"msgid \"a\"\n", "\"c\"\nmsgstr \"b\"\n\n"}, {"#", "\nmsgid \"a\"\nmsgstr \"b\"\n\n"}, {"#,", "fuzzy\nmsgid \"a\"\nmsgstr \"b\"\n\n"},
        {"msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[", "] \"b\"\nmsgstr[1] \"c\"\n\n"}, {"msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"b\"\nmsgstr", "[1] \"c\"\n\n"},
        {"msgid \"a\"\nmsgstr \"b\"\n#", "\n\nmsgid \"d\"\nmsgstr \"e\"\n\n"}, {"", "msgid \"a\"\nmsgstr \"b\"\n\n"}, {"msgctxt \"x\"", "\nmsgid \"a\"\nmsgstr \"b\"\n\n"},
        {"msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2;", " plural=(n > 1);\\n\"\n\n"}, {"msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=utf-", "8\\n\"\n\n"}, {"msgid x\n", "\n\nmsgid \"a\"\nmsgstr \"b\"\n\n"}};
      Program p;
      p.charsets = {"UTF-8"};
      for (auto& place : places) {
        Step s;
        s.text = brief(place.first + "?" + place.second);
        s.run = [place](Objects&) {
          std::string r;
          for (int b = 0; b < 256; ++b) {
            tg::Dictionary d("ISO-8859-1");
            std::istringstream in((place.first.compare(0, 9, "msgid \"\"") == 0 ? "" : head) + place.first + static_cast<char>(b) + place.second);
            try { tg::POParser::parse("f.po", in, d, false); } catch (std::exception& e) { r += e.what(); }
            r += std::to_string(b) + ": " + show(dump(d)) + d.translate_plural("a", "as", 0) + "\n" + reports();
          }
          return r;
        };
        p.steps.push_back(s);
      }
      for (auto& ch : all) {
        c.log.str("");
        c.log << ch.text() << "\n";
        compare(c, p, {ch});
      }
    }},
  };
}
} // namespace pbt
