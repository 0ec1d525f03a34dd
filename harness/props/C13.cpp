// C13: fuzzy entries are used exactly when fuzzy use is switched on.
#include "manager.hpp"
#include <algorithm>

using namespace model;

namespace pbt {
const char* const property_id = "C13";
const char* const property_rule =
  "random catalogues whose entries carry the fuzzy flag in many spellings, next to the word in comments, texts, keys, neighbouring entries and the header, "
  "loaded with the switch on and off (POParser) and through managers with several directories while the switch is flipped; content and lookups compared "
  "with the catalogue; non-trivial: fuzzy and non-fuzzy translated entries are present";

namespace {

// lines that say nothing about the flags
void lookalikes(std::string& out, Tape& t)
{
  static const std::vector<std::string> v = {"# fuzzy", "#. fuzzy", "#: fuzzy.cpp:12", "#| msgid \"fuzzy\"", "#| fuzzy", "#~ msgid \"fuzzy\"", "# , fuzzy", "#, c-format", "#, no-wrap",
    "#", "#fuzzy", "#~, fuzzy", "#.,fuzzy", "#:, fuzzy", "#, python-format, range: 0..3", "# msgid \"fuzzy\"", "# #, fuzzy", "##, fuzzy", "#|, fuzzy",
    "#, Fuzzy", "#, FUZZY", "#, c-format, Fuzzy", "#, fuzz", "#, f", "#, uzzy", "#, fuz zy", "#,", "#, fu-zzy", "#, fuzz\xc3\xbf", "#, c-format, no-fuz\tzy"};
  while (t.chance(80)) out += t.pick(v) + "\n";
}

void flag_line(std::string& out, Tape& t)
{
  static const std::vector<std::string> v = {"#, fuzzy", "#,fuzzy", "#, c-format, fuzzy", "#, fuzzy, c-format", "#,  fuzzy ", "#, no-wrap,fuzzy", "#, python-format, fuzzy, range: 0..3", "#,\tfuzzy"};
  out += t.pick(v) + "\n";
}

void separator(std::string& out, Tape& t)
{
  static const std::vector<std::string> v = {"", "", "", " ", "#", "# fuzzy", "# translator"};
  out += t.pick(v) + "\n";
  while (t.chance(24)) out += t.pick(v) + "\n";
}

std::string text(Tape& t, const char* tag, size_t i)
{
  static const std::vector<std::string> v = {"", "fuzzy", "#, fuzzy", "\n#, fuzzy\n", "fuzzy ", "a", "\"fuzzy\"", "\\", "\n\n#, fuzzy"};
  return t.pick(v) + tag + std::to_string(i);
}

struct File { Catalogue cat; std::string raw; };

File gen(Tape& t, const char* tag, int rule, size_t max)
{
  File f;
  f.cat.header = !t.chance(30);
  f.cat.header_fuzzy = t.chance(128);
  f.cat.rule = f.cat.header ? rule : -1;
  if (f.cat.header && t.chance(90)) f.cat.charset = "ISO-8859-1"; // only ASCII text and one 0xe4 byte
  if (t.chance(90)) f.cat.extra_header.push_back("X-Note: #, fuzzy");
  size_t n = t.length(max, 4);
  for (size_t i = 0; i < n; ++i) {
    Message m;
    if (t.chance(90)) m.ctxt = text(t, "ctx", t.range(0, 2));
    m.id = text(t, "id", i);
    m.plural = t.chance(80);
    m.id_plural = m.id + "s";
    size_t forms = m.plural ? rules()[static_cast<size_t>(rule)].n : 1;
    for (size_t k = 0; k < forms; ++k) m.str.push_back(t.chance(16) ? std::string() : text(t, tag, i) + "-" + std::to_string(k));
    m.fuzzy = t.chance(110);
    f.cat.messages.push_back(m);
  }
  std::string& out = f.raw;
  Layout l = Layout::random(t);
  l.bom = l.bom && f.cat.header;
  if (f.cat.header) {
    lookalikes(out, t);
    if (f.cat.header_fuzzy) flag_line(out, t);
    lookalikes(out, t);
    write_string(out, l, "msgid", "");
    write_string(out, l, "msgstr", header_text(f.cat));
    separator(out, t);
  }
  else if (f.cat.header_fuzzy) { flag_line(out, t); out += "\n"; } // flags with no entry
  for (auto& m : f.cat.messages) {
    if (t.chance(24)) { flag_line(out, t); out += "#~ msgid \"old\"\n#~ msgstr \"fuzzy\"\n\n"; } // an obsolete entry has flags of its own
    lookalikes(out, t);
    if (m.fuzzy) { flag_line(out, t); if (t.chance(30)) flag_line(out, t); }
    lookalikes(out, t);
    if (m.ctxt) write_string(out, l, "msgctxt", *m.ctxt);
    write_string(out, l, "msgid", m.id);
    if (m.plural) {
      write_string(out, l, "msgid_plural", m.id_plural);
      for (size_t k = 0; k < m.str.size(); ++k) write_string(out, l, "msgstr[" + std::to_string(k) + "]", m.str[k]);
    }
    else write_string(out, l, "msgstr", m.str[0]);
    separator(out, t);
  }
  if (t.chance(60)) flag_line(out, t); // nothing follows
  out = finish(out, l);
  return f;
}

Dump want(const File& f, bool use_fuzzy) { return expected(f.cat, use_fuzzy); }

void keys_of(const File& f, std::set<Key>& keys)
{
  for (auto& m : f.cat.messages) { keys.insert(Key(m.ctxt, m.id)); keys.insert(Key(std::nullopt, m.id)); }
}

bool interesting(const File& f)
{
  bool a = false, b = false;
  for (auto& m : f.cat.messages) if (m.translated()) { if (m.fuzzy) a = true; else b = true; }
  return a && b;
}

const std::vector<int>& counts() { static const std::vector<int> v = {0, 1, 2, 5, 21}; return v; }

void direct(Case& c)
{
  Tape& t = c.t;
  int rule = static_cast<int>(t.range(0, rules().size() - 1));
  File f = gen(t, "T", rule, 10);
  c.log << show(f.cat) << f.raw << "\n";
  std::set<Key> keys;
  keys_of(f, keys);
  for (int k = 0; k < 3; ++k) {
    bool on = k != 1;
    tg::Dictionary d;
    std::istringstream in(f.raw);
    if (k == 2) tg::POParser::parse("f.po", in, d); // on is the default
    else tg::POParser::parse("f.po", in, d, on);
    Dump e = want(f, on), a = dump(d);
    c.check(a == e, on ? "switched-on" : "switched-off", [&] { return diff(e, a); });
    bool has = f.cat.header;
    c.check(static_cast<bool>(d.get_plural_forms()) == has, "header-lost", [&] { return std::string("plural rule present: ") + (d.get_plural_forms() ? "yes" : "no"); });
    View v{&e, has ? rules()[static_cast<size_t>(rule)].f : nullptr, nullptr};
    std::string w = compare_lookups(d, v, keys, counts());
    c.check(w.empty(), on ? "lookup-switched-on" : "lookup-switched-off", [&] { return w; });
  }
  c.nontrivial = interesting(f);
  c.label("parser");
}

void manager(Case& c)
{
  Tape& t = c.t;
  int rule = static_cast<int>(t.range(0, rules().size() - 1));
  // two directories, a regional and a base file in each
  auto files = std::make_shared<Files>();
  static const char* const names[2][2] = {{"d0/de_AT.po", "d0/de.po"}, {"d1/de_AT.po", "d1/de.po"}};
  File f[2][2];
  bool has[2][2];
  std::set<Key> keys;
  for (int d = 0; d < 2; ++d) for (int r = 0; r < 2; ++r) {
    has[d][r] = !t.chance(60);
    f[d][r] = gen(t, names[d][r], rule, 5);
    if (!has[d][r]) continue;
    std::string n = names[d][r];
    files->dirs[n.substr(0, 2)].emplace_back(n.substr(3), f[d][r].raw);
    keys_of(f[d][r], keys);
    c.log << n << ": " << show(f[d][r].cat) << f[d][r].raw << "\n";
    if (interesting(f[d][r])) c.nontrivial = true;
  }
  // messages that are plain in one file and plural in another are not compared
  std::map<Key, int> kind;
  std::set<Key> mixed;
  for (int d = 0; d < 2; ++d) for (int r = 0; r < 2; ++r) if (has[d][r]) for (auto& m : f[d][r].cat.messages) {
    auto i = kind.emplace(Key(m.ctxt, m.id), m.plural);
    if (i.first->second != m.plural) mixed.insert(Key(m.ctxt, m.id));
  }
  for (auto& k : mixed) keys.erase(k);
  auto contents = [&](int want_r, bool on) {
    Dump e;
    for (int d = 1; d >= 0; --d) {
      int r = has[d][want_r] ? want_r : 1 - want_r;
      if (has[d][r]) overlay(e, want(f[d][r], on));
    }
    return e;
  };
  auto rule_known = [&](int want_r) {
    for (int d = 0; d < 2; ++d) { int r = has[d][want_r] ? want_r : 1 - want_r; if (has[d][r] && f[d][r].cat.header) return true; }
    return false;
  };
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
  m.add_directory("d0");
  m.add_directory("d1");
  c.check(m.get_use_fuzzy(), "default", std::string("fuzzy use is off by default"));
  bool on = true;
  tg::Language at = tg::Language::from_name("de_AT"), de = tg::Language::from_name("de");
  bool active = t.chance(128);
  if (active) m.set_language(t.chance(128) ? at : de);
  size_t n = t.range(1, 5);
  for (size_t i = 0; i < n; ++i) {
    if (i || t.chance(128)) {
      on = i == 1 ? false : t.chance(128);
      m.set_use_fuzzy(on);
      c.log << "set_use_fuzzy " << on << "\n";
      c.check(m.get_use_fuzzy() == on, "switch", std::string("not set"));
    }
    tg::Language l = active ? m.get_language() : t.chance(128) ? at : de;
    tg::Dictionary& d = active ? m.get_dictionary() : m.get_dictionary(l);
    auto own = contents(l == at ? 0 : 1, on), base = contents(1, on);
    auto fn = rules()[static_cast<size_t>(rule)].f;
    View vb{&base, rule_known(1) ? fn : nullptr, nullptr}, v{&own, rule_known(l == at ? 0 : 1) ? fn : nullptr, l == at ? &vb : nullptr};
    std::string w = compare_lookups(d, v, keys, counts());
    c.check(w.empty(), on ? "manager-switched-on" : "manager-switched-off", [&] { return l.str() + ": " + w; });
    Dump a = dump(d), e = own;
    for (auto& k : mixed) { a.erase(k); e.erase(k); }
    c.check(a == e, on ? "manager-content-on" : "manager-content-off", [&] { return l.str() + ": " + diff(e, a); });
  }
  c.label("manager");
}

} // namespace

void property(Case& c)
{
  if (c.t.chance(100)) manager(c); else direct(c);
  c.feed(c.log.str());
}

std::vector<Example> examples()
{
  return {
    {"switching through the manager", [](Case& c) {
      auto files = std::make_shared<Files>();
      files->dirs["d"].emplace_back("de.po", "#, fuzzy\nmsgid \"a\"\nmsgstr \"A\"\n\nmsgid \"b\"\nmsgstr \"B\"\n");
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
      m.add_directory("d");
      m.set_language(tg::Language::from_name("de"));
      c.check(m.get_dictionary().translate("a") == "A", "manager-switched-on", std::string());
      m.set_use_fuzzy(false);
      c.check(m.get_dictionary().translate("a") == "a" && m.get_dictionary().translate("b") == "B", "manager-switched-off", std::string());
      m.set_use_fuzzy(true);
      c.check(m.get_dictionary().translate("a") == "A", "manager-switched-on", std::string());
    }},
    {"every place of the flag, every number of flags and comments", [](Case& c) {
      std::string f, on;
      Dump all, sober;
      auto put = [&](const std::string& comments, bool fuzzy, unsigned n, unsigned kind) {
        std::string id = std::string(fuzzy ? "f" : "s") + std::to_string(kind) + "." + std::to_string(n);
        Key k(n % 3 == 1 ? std::optional<std::string>("c") : std::nullopt, id);
        f += comments + (n % 3 == 1 ? "msgctxt \"c\"\n" : "") + "msgid \"" + id + "\"\n" + (n % 3 == 2 ? "msgid_plural \"s\"\nmsgstr[0] \"fuzzy\"\nmsgstr[1] \"b\"\n\n" : "msgstr \"#, fuzzy\"\n\n");
        std::vector<std::string> v = n % 3 == 2 ? std::vector<std::string>{"fuzzy", "b"} : std::vector<std::string>{"#, fuzzy"};
        all[k] = v;
        if (!fuzzy) sober[k] = v;
      };
      auto times = [](unsigned n, const std::string& s) { std::string r; for (unsigned i = 0; i < n; ++i) r += s; return r; };
      for (unsigned n = 0; n < 300; ++n) {
        put("#, " + times(n, "c-format, ") + "fuzzy\n", true, n, 0);
        put("#, fuzzy" + times(n, ", c-format") + "\n", true, n, 1);
        put("#, " + times(n, "c-format, ") + "no-wrap\n", false, n, 2);
        put("#, fuzzy\n" + times(n, "#: a.c:1\n"), true, n, 3);
        put(times(n, "# fuzzy\n") + "#, fuzzy\n", true, n, 4);
        put(times(n, "#. fuzzy\n#| msgid \"fuzzy\"\n#: fuzzy.c:1\n"), false, n, 5);
        put("#, fuzzy\n" + times(n, "#, c-format\n"), true, n, 6);
        put(times(n, "#, c-format\n") + "#, fuzzy\n", true, n, 7);
        put("#," + times(n, " ") + "fuzzy" + times(n, " ") + "\n", true, n, 8);
        put(times(n, "#~ msgid \"fuzzy\"\n") + "\n", false, n, 9);
        put("#. #, fuzzy\n#" + times(n, " ") + ", fuzzy no flag\n#" + times(n + 1, ".") + ", fuzzy\n", n == 0, n, 10);
        put("#, " + times(n, "x") + "-format, fuzzy\n", true, n, 11);
      }
      for (unsigned n = 0; n < 40; ++n) { // so many fuzzy ones, then another
        for (unsigned k = 0; k < n; ++k) put("#, fuzzy\n", true, 1000 * n + k, 12);
        put("", false, 1000 * n, 13);
        for (unsigned k = 0; k < n; ++k) put("", false, 1000 * n + k, 14);
      }
      for (bool use : {true, false}) {
        tg::Dictionary d;
        std::istringstream in(f);
        tg::POParser::parse("f.po", in, d, use);
        Dump a = dump(d);
        c.check(a == (use ? all : sober), use ? "switched-on" : "switched-off", [&] { return diff(use ? all : sober, a); });
      }
    }},
  };
}
} // namespace pbt
