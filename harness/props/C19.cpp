// C19: every problem is reported at its place, and nothing else is.
#include "langs.hpp"
#include "manager.hpp"

#include <algorithm>

using namespace model;

namespace pbt {
const char* const property_id = "C19";
const char* const property_rule =
  "a file of faultless entries (plain, plural, in context, fuzzy, with comments, over several lines) into which problems of known kind and place are put "
  "(malformed entries, unknown escapes, text behind strings, other spacing, wrong number of plural forms, unconvertible text, conflicting entries, header "
  "deficiencies) is loaded, then looked up; the reports are matched with the problems; or a manager loads clean files and files of unknown languages; "
  "non-trivial: at least two problems of different kinds in one file, or a clean file of at least four entries";

namespace {

struct Problem {
  std::string kind;
  size_t first = 0, last = 0;  // lines where it may be reported
  std::string tag;             // or the text that names it
  bool error = false;          // costs an entry or text: reported as an error
  bool tolerated = false;      // may be reported or not
};

struct Report {
  std::string text;
  bool error;
  size_t line = 0;             // 0: names no place
};

const char* const file_name = "some dir/file:name.po";

std::vector<Report> reports(Case& c)
{
  std::vector<Report> v;
  for (size_t i = 0; i < LogCapture::texts.size(); ++i) {
    Report r;
    r.text = LogCapture::texts[i];
    r.error = LogCapture::kinds[i] == 'e';
    size_t p = r.text.find(std::string(file_name) + ":");
    if (p != std::string::npos) {
      size_t b = p + std::string(file_name).size() + 1, e = b;
      while (e < r.text.size() && r.text[e] >= '0' && r.text[e] <= '9') ++e;
      c.check(e > b && e < r.text.size() && r.text[e] == ':', "no-line-number", [&] { return quote(r.text); });
      r.line = std::stoul(r.text.substr(b, e - b));
    }
    v.push_back(r);
  }
  return v;
}

bool mentions(const std::string& s, const std::string& tag)
{
  for (size_t p = s.find(tag); p != std::string::npos; p = s.find(tag, p + 1)) {
    char next = p + tag.size() < s.size() ? s[p + tag.size()] : ' ';
    if (next < '0' || next > '9') return true;
  }
  return false;
}

bool fits(const Problem& p, const Report& r)
{
  return (r.line && r.line >= p.first && r.line <= p.last) || (!p.tag.empty() && mentions(r.text, p.tag));
}

void match(Case& c, const std::vector<Problem>& problems, const std::string& file)
{
  std::vector<Report> v = reports(c);
  auto all = [&] {
    std::string s;
    for (auto& r : v) s += std::string(r.error ? "error: " : "warning: ") + quote(r.text) + "\n";
    return s + "file: " + quote(file);
  };
  for (auto& p : problems) {
    if (p.tolerated) continue;
    bool found = false, wrong = false;
    for (auto& r : v) if (fits(p, r)) { if (r.error == p.error) found = true; else wrong = true; }
    c.check(found, wrong ? "wrong-severity" : "not-reported", [&] { return p.kind + " in line " + std::to_string(p.first) + ".." + std::to_string(p.last) + " " + p.tag + "; reports:\n" + all(); });
  }
  for (auto& r : v) {
    bool due = false;
    for (auto& p : problems) if (fits(p, r)) due = due || p.error || p.tolerated || !r.error;
    c.check(due, "unfounded-report", [&] { return quote(r.text) + "; reports:\n" + all(); });
  }
}

struct Writer {
  std::string out;
  size_t line = 1;
  void add(const std::string& s) { out += s + "\n"; ++line; }
};

void add_malformed(Tape& t, Writer& w, const std::string& tag)
{
  switch (t.range(0, 9)) {
    case 0: w.add("msgid \"" + tag); w.add("msgstr \"a\""); break;
    case 1: w.add("msgid \"" + tag + "\""); break;
    case 2: w.add("msgid \"" + tag + "\""); w.add("msgstr a\""); break;
    case 3: w.add("msgstr \"a\""); break;
    case 4: w.add("msgdi \"" + tag + "\""); w.add("msgstr \"a\""); break;
    case 5: w.add("msgid \"" + tag + "\""); w.add("msgstr \"a\""); w.add("junk"); break;
    case 6: w.add("msgid \"" + tag + "\""); w.add("msgid_plural \"x\""); w.add("msgstr[0] \"a\""); w.add("msgstr[1"); break;
    case 7: w.add("msgid \"" + tag + "\""); w.add("msgid_plural \"x\""); break;
    case 8: w.add("msgid \"" + tag + "\""); w.add("msgstr \"a\""); w.add("msgid \"x\""); w.add("msgstr \"b\""); break;
    default: w.add("msgid \"" + tag + "\""); w.add("msgtsr \"a\""); break;
  }
}

void parsing(Case& c)
{
  Tape& t = c.t;
  bool latin = t.chance(90), use_fuzzy = !t.chance(80), pedantic = !t.chance(60);
  tg::POParser::pedantic = pedantic;
  tg::Dictionary d(latin ? "ISO-8859-1" : "UTF-8");
  std::vector<Problem> problems;
  std::set<std::string> kinds;
  auto problem = [&](const std::string& kind, size_t first, size_t last, const std::string& tag = "", bool error = false, bool tolerated = false) {
    Problem p;
    p.kind = kind; p.first = first; p.last = last; p.tag = tag; p.error = error; p.tolerated = tolerated;
    problems.push_back(p);
    if (!tolerated) { kinds.insert(kind); c.label(kind); c.log << kind << " in line " << first << ".." << last << " " << tag << "\n"; }
  };
  int preset = t.chance(60) ? static_cast<int>(t.range(0, rules().size() - 1)) : -1, rule = preset;
  if (preset >= 0) d.set_plural_forms(tg::PluralForms::from_string(std::string("Plural-Forms: ") + rules()[static_cast<size_t>(preset)].header));
  Writer w;
  if (t.chance(24)) { // the very first lines
    size_t first = w.line;
    add_malformed(t, w, "first");
    problem("malformed", first, w.line, "", true);
    w.add("");
  }
  if (t.chance(40)) w.add("# comment");
  auto gap = [&] {
    if (!t.chance(1)) return;
    size_t k = magnitude(t, t.chance(64) ? 100000 : 5000);
    const char* line = t.chance(128) ? "" : "#";
    for (size_t i = 0; i < k; ++i) w.add(line);
  };
  gap();
  { // header
    size_t first = w.line;
    unsigned k = static_cast<unsigned>(t.range(0, 15));
    w.add("msgid \"\"");
    w.add("msgstr \"\"");
    if (t.chance(128)) w.add("\"Project-Id-Version: x\\n\"");
    std::string what;
    if (k == 1) what = "no charset";
    else if (k == 2) { what = "charset placeholder"; w.add("\"Content-Type: text/plain; charset=CHARSET\\n\""); }
    else if (k == 3) { what = "malformed Content-Type"; w.add("\"Content-Type: text/html; charset=UTF-8\\n\""); }
    else w.add(t.chance(128) ? "\"Content-Type: text/plain; charset=UTF-8\\n\"" : "\"Content-Type: text/plain; charset=utf-8\\n\"");
    if (k == 4) { what = "unknown plural rule"; w.add("\"Plural-Forms: nplurals=2; plural=(n @ 7);\\n\""); }
    else if (t.chance(170)) {
      int r = preset >= 0 && !t.chance(80) ? preset : static_cast<int>(t.range(0, rules().size() - 1));
      w.add(std::string("\"Plural-Forms: ") + rules()[static_cast<size_t>(r)].header + "\\n\"");
      if (preset < 0) rule = r;
      else if (r != preset) what = "other plural rule";
    }
    if (t.chance(128)) w.add("\"X-Generator: y\\n\"");
    if (!what.empty()) problem(what, first, w.line);
    w.add("");
  }
  struct Stored { std::optional<std::string> ctxt; std::string id; bool plural; };
  std::vector<Stored> stored;
  size_t n = t.chance(2) ? magnitude(t, 300) : t.range(0, 8);
  unsigned clean = 0;
  std::string last_entry, last_id;
  bool malformed_before = false;
  for (size_t i = 0; i < n; ++i) {
    std::string tag = "id" + std::to_string(i), text = t.chance(60) ? "t\xc3\xa4xt" : "text";
    if (t.chance(2)) tag += std::string(magnitude(t, t.chance(40) ? 70000 : 9000), 'l');
    if (t.chance(2)) text += std::string(magnitude(t, t.chance(40) ? 70000 : 9000), 'l');
    gap();
    while (t.chance(70)) {
      static const std::vector<std::string> between = {"", "", " \t", "# remark", "#", "#. for translators", "\f"};
      w.add(t.pick(between));
    }
    if (t.chance(60)) w.add("#: src/x.c:" + std::to_string(i));
    bool fuzzy = false, plural = false, ctxt = t.chance(70);
    size_t first = w.line;
    auto context = [&] { if (ctxt) w.add("msgctxt \"in " + tag + "\""); };
    auto done = [&](bool ok) {
      w.add("");
      if (ok) ++clean;
    };
    if (t.chance(30) && !last_entry.empty()) { // the same once more: no problem
      std::string s = last_entry;
      for (size_t b = 0; b < s.size();) { size_t e = s.find('\n', b); w.add(s.substr(b, e - b)); b = e + 1; }
      done(true);
      c.label("repeated");
      continue;
    }
    size_t begin = w.out.size();
    unsigned k = static_cast<unsigned>(t.range(0, 15));
    switch (k) {
      default: { // faultless
        fuzzy = t.chance(50);
        plural = rule >= 0 && t.chance(90);
        if (fuzzy) w.add("#, fuzzy");
        context();
        bool empty = t.chance(20);
        if (t.chance(60)) { w.add("msgid \"\""); w.add("\"" + tag + "\""); } else w.add("msgid \"" + tag + "\"");
        if (plural) {
          w.add("msgid_plural \"" + tag + " s\"");
          for (unsigned f = 0; f < rules()[static_cast<size_t>(rule)].n; ++f) w.add("msgstr[" + std::to_string(f) + "] \"" + (empty ? "" : text + std::to_string(f)) + "\"");
        }
        else {
          w.add("msgstr \"" + (empty ? "" : text) + (empty ? "" : t.chance(40) ? "\\n\\t\\\"\\\\" : "") + "\"");
          if (!empty && t.chance(40)) w.add("\"more\"");
        }
        if (!empty && (!fuzzy || use_fuzzy)) stored.push_back({ctxt ? std::optional<std::string>("in " + tag) : std::nullopt, tag, plural});
        if (!empty && !fuzzy) last_entry = w.out.substr(begin); // may be repeated
        done(true);
        break;
      }
      case 8: { // unknown escape
        context();
        static const std::vector<std::string> esc = {"\\q", "\\x41", "\\0", "\\e", "\\'", "\\%"};
        std::string e = t.pick(esc);
        bool in_id = t.chance(60);
        if (in_id) { problem("escape", w.line, w.line); w.add("msgid \"" + tag + e + "\""); w.add("msgstr \"a\""); }
        else { w.add("msgid \"" + tag + "\""); if (t.chance(100)) w.add("msgstr \"\""); else w.add("msgstr \"a\""), 0; 
          bool cont = w.out.compare(w.out.size() - 3, 3, "\"\"\n") == 0;
          if (cont) { w.add("\"x\""); problem("escape", w.line, w.line); w.add("\"" + e + "\""); }
          else { problem("escape", w.line, w.line); w.add("\"b" + e + "\""); } }
        done(false);
        break;
      }
      case 9: { // something behind a string
        context();
        static const std::vector<std::string> junk = {"x", " junk", "\"", " \"", "\t;", "\\n"};
        std::string j = t.pick(junk);
        if (t.chance(128)) { problem("garbage", w.line, w.line); w.add("msgid \"" + tag + "\"" + j); w.add("msgstr \"a\""); }
        else { w.add("msgid \"" + tag + "\""); problem("garbage", w.line, w.line); w.add("msgstr \"a\"" + j); }
        done(false);
        break;
      }
      case 10: { // spacing: a matter for pedants
        static const std::vector<std::string> sep = {"", "  ", "\t", " \t"};
        context();
        w.add("msgid \"" + tag + "\"");
        if (t.chance(128)) {
          if (pedantic) problem("spacing", w.line, w.line);
          w.add("msgstr" + t.pick(sep) + "\"a\"");
        }
        else {
          w.add("msgstr \"\"");
          bool one = t.chance(170);
          if (pedantic) problem("indentation", w.line, w.line, "", false, !one);
          w.add(std::string(one ? " " : "  ") + "\"a\"");
        }
        done(!pedantic);
        break;
      }
      case 11: { // number of plural forms
        context();
        size_t forms = rule < 0 ? t.range(1, 3) : rules()[static_cast<size_t>(rule)].n;
        if (rule >= 0) { if (forms == 1 || t.chance(128)) ++forms; else --forms; }
        w.add("msgid \"" + tag + "\"");
        w.add("msgid_plural \"" + tag + " s\"");
        for (size_t f = 0; f < forms; ++f) w.add("msgstr[" + std::to_string(f) + "] \"a\"");
        problem(rule < 0 ? "plural without rule" : "number of forms", first, w.line);
        done(false);
        break;
      }
      case 12: { // conflict with an earlier entry
        auto apart = [&] { if (ctxt) w.add("msgctxt \"elsewhere\""); }; // the context alone doesn't name the message
        apart();
        bool p = rule >= 0 && t.chance(128);
        for (int k2 = 0; k2 < 2; ++k2) {
          std::string x = k2 ? "new" : "old";
          if (k2) { w.add(""); apart(); }
          w.add("msgid \"" + tag + "\"");
          if (p) { w.add("msgid_plural \"s\""); for (unsigned f = 0; f < rules()[static_cast<size_t>(rule)].n; ++f) w.add("msgstr[" + std::to_string(f) + "] \"" + (f + 1 == rules()[static_cast<size_t>(rule)].n ? x : "same") + "\""); }
          else w.add("msgstr \"" + x + "\"");
        }
        problem("conflict", first, w.line, tag);
        done(false);
        break;
      }
      case 13: { // not in the dictionary's charset
        if (!latin) { w.add("msgid \"" + tag + "\""); w.add("msgstr \"\xd0\x96\""); done(true); break; }
        context();
        w.add("msgid \"" + tag + "\"");
        w.add("msgstr \"\xd0\x96 " + tag + "\"");
        problem("unconvertible", first, w.line, tag, true);
        done(false);
        break;
      }
      case 14: case 15: { // malformed
        context();
        malformed_before = true;
        add_malformed(t, w, tag);
        problem("malformed", first, w.line, "", true);
        done(false);
        break;
      }
    }
  }
  if (t.chance(60)) w.add("#~ msgid \"obsolete\"");
  if (t.chance(60)) w.out.pop_back();
  (void)malformed_before;
  c.log << "latin " << latin << " fuzzy " << use_fuzzy << " pedantic " << pedantic << " preset " << preset << " file: " << quote(w.out) << "\n";
  c.feed(w.out); c.feed(std::to_string(latin * 4 + use_fuzzy * 2 + pedantic) + std::to_string(preset));
  LogCapture::reset();
  std::istringstream in(w.out);
  tg::POParser::parse(file_name, in, d, use_fuzzy);
  match(c, problems, w.out);
  c.nontrivial = kinds.size() >= 2 || (problems.empty() && clean >= 4);
  if (problems.empty()) c.label("clean");

  // lookups
  auto silent = [&](const std::string& what) {
    c.check(!LogCapture::info && LogCapture::texts.empty(), "report-for-successful-lookup", [&] { return what + ": " + quote(LogCapture::texts) + quote(LogCapture::infos); });
  };
  for (auto& s : stored) {
    LogCapture::reset();
    std::string r = s.ctxt ? d.translate_ctxt(*s.ctxt, s.id) : d.translate(s.id);
    c.check(!mentions(r, s.id) || r != s.id, "not-translated", [&] { return s.id; });
    if (s.plural) for (int k : {0, 1, 2, 5, 21}) { if (s.ctxt) d.translate_ctxt_plural(*s.ctxt, s.id, "p", k); else d.translate_plural(s.id, "p", k); }
    silent(s.id);
    // missing ones
    for (unsigned kind = 0; kind < 4; ++kind) {
      LogCapture::reset();
      std::string id = "no " + s.id;
      static const std::vector<std::string> cx = {"elsewhere", "in id0", "in id1"};
      std::string x = cx[(kind + s.id.size()) % 3];
      switch (kind) {
        case 0: d.translate(id); break;
        case 1: d.translate_plural(id, "p", 3); break;
        case 2: d.translate_ctxt(x, id); break;
        case 3: d.translate_ctxt_plural(x, id, "p", 1); break;
      }
      bool named = false;
      for (auto& e : LogCapture::infos) named = named || e.find(id) != std::string::npos;
      c.check(named, "failed-lookup-not-reported", [&] { return "kind " + std::to_string(kind) + " of " + quote(id) + ": " + quote(LogCapture::infos); });
      c.check(LogCapture::texts.empty(), "failed-lookup-is-no-error", [&] { return quote(LogCapture::texts); });
    }
    if (!s.plural && rule >= 0 && rules()[static_cast<size_t>(rule)].f(5) > 0) { // form missing
      LogCapture::reset();
      if (s.ctxt) d.translate_ctxt_plural(*s.ctxt, s.id, "p", 5); else d.translate_plural(s.id, "p", 5);
      bool named = false;
      for (auto& e : LogCapture::texts) named = named || mentions(e, s.id);
      c.check(named, "missing-form-not-reported", [&] { return s.id + ": " + quote(LogCapture::texts); });
    }
  }
  c.label("parsing");
}

void managing(Case& c)
{
  Tape& t = c.t;
  WorldOptions o;
  o.codes = {t.pick(rich_codes()), "de"};
  o.fuzzy = true;
  auto state = std::make_shared<WorldFileSystem::State>();
  World& w = state->world;
  std::set<std::string> unknown;
  for (auto dir : {"d0", "d1"}) {
    w.dirs[dir] = gen_dir(t, dir, o);
    for (auto& f : w.dirs[dir]) {
      auto& ms = f.cat.messages;
      if (f.cat.rule < 0) ms.erase(std::remove_if(ms.begin(), ms.end(), [](const Message& x) { return x.plural; }), ms.end());
      set_fault(f, Fault::none);
    }
    for (auto& f : w.dirs[dir]) if (is_po(f.name) && !file_language(f.name)) unknown.insert(f.name);
  }
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)));
  Config cfg;
  cfg.fuzzy = !t.chance(80);
  if (!cfg.fuzzy) m.set_use_fuzzy(false);
  m.add_directory("d0");
  tg::Language l = gen_language(t, o.codes);
  c.log << "manager " << l.str() << "\n" << show(w);
  c.feed(c.log.str());
  if (t.chance(80)) { // with its own directory only there are no conflicts
    m.remove_directory("d0");
    m.add_directory("d1");
    unknown.clear();
    for (auto& f : w.dirs["d1"]) if (is_po(f.name) && !file_language(f.name)) unknown.insert(f.name);
  }
  else {
    unknown.clear();
    for (auto& f : w.dirs["d0"]) if (is_po(f.name) && !file_language(f.name)) unknown.insert(f.name);
  }
  LogCapture::reset();
  m.get_languages();
  m.get_dictionary(l);
  auto all = [&] { return quote(LogCapture::texts); };
  for (auto& u : unknown) {
    bool named = false;
    for (auto& s : LogCapture::texts) named = named || s.find(u) != std::string::npos;
    c.check(named, "unknown-language-not-reported", [&] { return u + ": " + all(); });
  }
  for (auto& s : LogCapture::texts) {
    bool due = false;
    for (auto& u : unknown) due = due || s.find(u) != std::string::npos;
    c.check(due, "unfounded-report", [&] { return all(); });
  }
  c.check(!LogCapture::error, "unfounded-error", all);
  unsigned long before = LogCapture::texts.size();
  m.get_dictionary(l);
  c.check(LogCapture::texts.size() == before, "reported-again-from-the-cache", all);
  c.label("manager");
  c.nontrivial = !unknown.empty();
}

} // namespace

void property(Case& c)
{
  if (c.t.chance(50)) managing(c); else parsing(c);
}

std::vector<Example> examples()
{
  auto load_at = [](Case& c, const std::string& file, const std::vector<Problem>& p) {
    LogCapture::reset();
    tg::Dictionary d;
    std::istringstream in(file);
    tg::POParser::parse(file_name, in, d);
    match(c, p, file);
  };
  return {
    {"clean files are silent", [=](Case& c) {
      for (auto& r : rules()) {
        std::string f = std::string("msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: ") + r.header + "\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\n";
        for (unsigned i = 0; i < r.n; ++i) f += "msgstr[" + std::to_string(i) + "] \"x\"\n";
        load_at(c, f + "\nmsgctxt \"y\"\nmsgid \"a\"\nmsgstr \"z\"", {});
      }
      load_at(c, "", {});
      load_at(c, "\n\n# c\n", {});
    }},
    {"thousands of problems", [=](Case& c) {
      struct Kind { const char* entry; unsigned line; bool error; };
      const std::vector<Kind> kinds = {{"msgid \"a\x01\"\njunk\n\n", 1, true}, {"msgid \"a\x01\"\nmsgstr \"\\q\"\n\n", 1, false}, {"msgid \"a\x01\" x\nmsgstr \"b\"\n\n", 0, false}, {"msgid \"a\x01\"\nmsgstr b\n\n", 1, true}, {"msgid\"a\x01\"\nmsgstr \"b\"\n\n", 0, false}};
      tg::POParser::pedantic = true;
      for (size_t mixed = 0; mixed <= kinds.size(); ++mixed) {
        std::string f = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
        std::map<size_t, bool> want;
        size_t line = 4;
        for (unsigned i = 0; i < 4000; ++i) {
          const Kind& k = kinds[mixed < kinds.size() ? mixed : i % kinds.size()];
          want[line + k.line] = k.error;
          for (const char* p = k.entry; *p; ++p) { if (*p == 1) f += std::to_string(i); else f += *p; if (*p == '\n') ++line; }
        }
        LogCapture::reset();
        LogCapture::limit = 20000;
        tg::Dictionary d;
        std::istringstream in(f);
        tg::POParser::parse(file_name, in, d);
        LogCapture::limit = 1000;
        std::set<size_t> seen;
        for (auto& r : reports(c)) {
          // the line of the problem or the one behind it
          auto i = want.lower_bound(r.line);
          if (i == want.end() || i->first > r.line) { c.check(i != want.begin(), "unfounded-report", [&] { return quote(r.text); }); --i; }
          c.check(r.line - i->first <= 1, "unfounded-report", [&] { return quote(r.text); });
          c.check(!r.error || i->second, "wrong-severity", [&] { return quote(r.text); });
          if (r.error == i->second) seen.insert(i->first);
        }
        for (auto& w : want) c.check(seen.count(w.first), "not-reported", [&] { return "line " + std::to_string(w.first) + ", kind " + std::to_string(mixed) + ", " + std::to_string(seen.size()) + " of " + std::to_string(want.size()); });
      }
    }},
    {"problems in long lines and texts", [=](Case& c) {
      for (size_t n : {100, 255, 256, 500, 1000, 1024, 4000, 4096, 5000, 8192, 20000, 65536, 100000})
        for (unsigned k = 0; k < 6; ++k) {
          std::string x(n, k % 2 ? 'x' : ' ');
          tg::POParser::pedantic = true;
          std::string f = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
          Problem p;
          p.first = p.last = 5;
          switch (k) {
            case 0: case 1: f += "msgid \"a\"\nmsgstr \"" + x + "\\q\"\n"; break;
            case 2: case 3: f += "msgid \"a\"\nmsgstr \"b\" " + x + "y\n"; break;
            case 4: f += "msgid \"a\"\nmsgstr" + x + "\"b\"\n"; break;
            default: f += "msgid \"a\"\nmsgstr " + x + "\n"; p.error = true;
          }
          p.kind = "kind " + std::to_string(k) + " of " + std::to_string(n);
          load_at(c, f, {p});
        }
    }},
    {"far down", [=](Case& c) {
      std::string f = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
      for (int i = 0; i < 50000; ++i) f += "#: x\n\n";
      Problem p;
      p.kind = "malformed"; p.first = 100004; p.last = 100006; p.error = true;
      load_at(c, f + "msgid \"a\"\njunk\n\nmsgid \"b\"\nmsgstr \"c\"\n", {p});
    }},
    {"a problem after every number of faultless things", [=](Case& c) {
      tg::POParser::pedantic = true;
      const std::string head = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
      auto count = [](const std::string& x) { return static_cast<size_t>(std::count(x.begin(), x.end(), '\n')); };
      struct Kind { const char* text; size_t first, last; bool error; };
      const std::vector<Kind> kinds = {{"msgid \"a\"\njunk\n", 1, 3, true}, {"msgid \"a\"\nmsgstr \"\\q\"\n", 1, 1, false}, {"msgid \"a\" x\nmsgstr \"b\"\n", 0, 0, false}, {"msgid\"a\"\nmsgstr \"b\"\n", 0, 0, false},
        {"msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"x\"\n", 0, 3, false}, {"msgid \"a\"\n \"b\"\nmsgstr \"c\"\n", 1, 1, false}};
      for (size_t n = 0; n <= 530; n += n < 40 ? 1 : n % 128 < 3 || n % 128 > 124 ? 1 : 7)
        for (unsigned what = 0; what < 8; ++what) {
          std::string f = head;
          for (size_t k = 0; k < n; ++k)
            switch (what) {
              case 0: f += "msgid \"m" + std::to_string(k) + "\"\nmsgstr \"x\"\n\n"; break;
              case 1: f += "\n"; break;
              case 2: f += "# remark\n"; break;
              case 3: f += "#: x.c:" + std::to_string(k) + "\n#, c-format\n"; break;
              case 4: f += std::string(k ? "" : "msgid \"long\"\nmsgstr \"\"\n") + "\"part\"\n" + (k + 1 == n ? "\n" : ""); break;
              case 5: f += "msgctxt \"x\"\nmsgid \"m" + std::to_string(k) + "\"\nmsgid_plural \"s\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n\n"; break;
              case 6: f += "#~ msgid \"old\"\n\n"; break;
              default: f += "#, fuzzy\nmsgid \"m" + std::to_string(k) + "\"\nmsgstr \"\"\n\n"; break;
            }
          const Kind& k = kinds[(n + what) % kinds.size()];
          Problem p;
          p.kind = std::to_string(n) + " of " + std::to_string(what);
          p.first = 1 + count(f) + k.first; p.last = 1 + count(f) + k.last; p.error = k.error;
          f += std::string(k.text) + "\nmsgid \"z\"\nmsgstr \"last\"\n";
          load_at(c, f, {p});
          // and nothing without it
          if (n % 5 == 0) load_at(c, f.substr(0, f.rfind(k.text)), {});
        }
    }},
    {"every number of problems", [=](Case& c) {
      tg::POParser::pedantic = true;
      const std::string head = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
      const std::vector<std::string> kinds = {"msgid \"a#\"\njunk\n\n", "msgid \"a#\"\nmsgstr \"\\q\"\n\n", "msgid \"a#\" x\nmsgstr \"b\"\n\n", "msgid\"a#\"\nmsgstr \"b\"\n\n", "msgid \"a#\"\nmsgid_plural \"c\"\nmsgstr[0] \"d\"\n\n"};
      for (size_t n = 1; n <= 130; ++n)
        for (unsigned kind = 0; kind < kinds.size(); ++kind) {
          std::string f = head;
          std::vector<Problem> ps;
          for (size_t k = 0; k < n; ++k) {
            Problem p;
            p.kind = "number " + std::to_string(k) + " of " + std::to_string(n) + ", kind " + std::to_string(kind);
            p.first = 1 + static_cast<size_t>(std::count(f.begin(), f.end(), '\n'));
            p.last = p.first + (kind == 0 ? 2 : kind == 1 ? 1 : kind == 4 ? 3 : 0);
            p.error = kind == 0;
            ps.push_back(p);
            std::string e = kinds[kind];
            e.replace(e.find('#'), 1, std::to_string(k));
            f += e;
          }
          load_at(c, f, ps);
        }
    }},
    {"every escape there is not, everywhere", [=](Case& c) {
      // those of C that some tools read, and everything else that is no escape here, in each string of an entry
      for (unsigned x = 32; x < 127; ++x) {
        char ch = static_cast<char>(x);
        if (std::string("nrt\"\\").find(ch) != std::string::npos) continue;
        for (unsigned place = 0; place < 4; ++place) {
          tg::POParser::pedantic = place % 2;
          std::string e[4] = {"x", "a", "as", "t"};
          if (std::string("bfva").find(ch) != std::string::npos) continue; // whether these are escapes is decided elsewhere
          e[place] += std::string("\\") + ch + "z";
          std::string f = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgctxt \"" + e[0] + "\"\nmsgid \"" + e[1] + "\"\nmsgid_plural \"" + e[2] + "\"\nmsgstr[0] \"" + e[3] + "\"\nmsgstr[1] \"u\"\n";
          Problem p;
          p.kind = std::string("escape ") + ch; p.first = p.last = 4 + place;
          load_at(c, f, {p});
        }
      }
    }},
    {"every short line that belongs to no entry", [=](Case& c) {
      tg::POParser::pedantic = true;
      auto blank = [](char ch) { return std::string(" \t\r\n\v\f").find(ch) != std::string::npos; };
      std::vector<std::string> junk = {"ms", "msg", "msgi", "msgct", "msgst", "msgstr", "msgstr[", "msgstr[0", "msgstr[0]", "mgsid \"a\"", "domain \"a\"", "x y z", "- #", "  x", "\tx #", "a b c d e f"};
      for (unsigned x = 0; x < 256; ++x) {
        char ch = static_cast<char>(x);
        if (ch == '\n' || blank(ch)) continue;
        for (auto& l : {std::string(1, ch), std::string(2, ch), std::string(1, ch) + " ", std::string(1, ch) + "\t", std::string(1, ch) + "#", std::string(1, ch) + "x", " " + std::string(1, ch), std::string(1, ch) + " x", std::string(1, ch) + "\r"})
          if (l[0] != '#') junk.push_back(l);
      }
      static const std::string head = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n";
      for (auto& l : junk) {
        bool string = l[l.find_first_not_of(" \t")] == '"';
        Problem p;
        p.kind = "line " + quote(l);
        p.error = true;
        p.first = p.last = 7;
        load_at(c, head + "msgid \"a\"\nmsgstr \"b\"\n\n" + l + "\n\nmsgid \"c\"\nmsgstr \"d\"\n", {p});
        p.last = 9;
        load_at(c, head + "msgid \"a\"\nmsgstr \"b\"\n\n" + l + "\nmsgid \"c\"\nmsgstr \"d\"\n\nmsgid \"e\"\nmsgstr \"f\"\n", {p});
        if (string) continue; // a further piece
        p.first = 4; p.last = 6;
        load_at(c, head + "msgid \"a\"\nmsgstr \"b\"\n" + l + "\n\nmsgid \"c\"\nmsgstr \"d\"\n", {p});
        load_at(c, head + "msgid \"a\"\n" + l + "\nmsgstr \"b\"\n\nmsgid \"c\"\nmsgstr \"d\"\n", {p});
        p.last = 8;
        load_at(c, head + "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"b\"\n" + l + "\n\nmsgid \"c\"\nmsgstr \"d\"\n", {p});
      }
    }},
    {"every byte behind a string", [=](Case& c) {
      for (unsigned x = 1; x < 256; ++x) {
        char ch = static_cast<char>(x);
        if (std::string(" \t\r\n\v\f").find(ch) != std::string::npos) continue;
        for (unsigned place = 0; place < 4; ++place)
          for (auto& pad : {"", " "}) {
            tg::POParser::pedantic = x % 2;
            std::string j = std::string(pad) + ch;
            std::string e[4];
            e[place] = j;
            std::string f = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgid \"a\"" + e[0] + "\nmsgid_plural \"as\"" + e[1] + "\nmsgstr[0] \"t\"" + e[2] + "\nmsgstr[1] \"u\"" + e[3] + "\n";
            Problem p;
            p.kind = "byte " + std::to_string(x); p.first = p.last = 4 + place;
            load_at(c, f, {p});
          }
      }
    }},
    {"failed lookups of every length", [=](Case& c) {
      tg::Dictionary d;
      d.add_translation("there", "x");
      for (size_t n = 1; n <= 3000; n += n < 300 ? 1 : 37) {
        std::string id(n, 'k');
        for (unsigned kind = 0; kind < 4; ++kind) {
          LogCapture::reset();
          switch (kind) {
            case 0: d.translate(id); break;
            case 1: d.translate_plural(id, "p", 3); break;
            case 2: d.translate_ctxt("x", id); break;
            default: d.translate_ctxt_plural("x", id, "p", 1); break;
          }
          bool named = false;
          for (auto& e : LogCapture::infos) named = named || e.find(id) != std::string::npos;
          c.check(named && LogCapture::texts.empty(), "failed-lookup-not-reported", [&] { return "kind " + std::to_string(kind) + " of a message of " + std::to_string(n); });
        }
        LogCapture::reset();
        d.translate("there");
        c.check(!LogCapture::info && LogCapture::texts.empty(), "report-for-successful-lookup");
      }
      // each time anew
      for (int i = 0; i < 5000; ++i) {
        LogCapture::reset();
        d.translate("gone");
        c.check(LogCapture::info > 0, "failed-lookup-not-reported", [&] { return "time " + std::to_string(i); });
      }
    }},
  };
}
} // namespace pbt
