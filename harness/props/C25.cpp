// C25: what a file contributes is the sum of its entries.
#include "charset.hpp"
#include "langs.hpp"
#include "manager.hpp"

#include <algorithm>

using namespace model;

namespace pbt {
const char* const property_id = "C25";
const char* const property_rule =
  "blocks (entries in random layout, entries damaged by random edits, soups of tokens, comments, repetitions of and conflicts with earlier ones) separated by blank "
  "lines under one header; what each block contributes is found out by loading it alone; then the whole file, the file taken apart into several, the blocks in "
  "other orders, any selection of them, the same again and the parts in several directories of a manager must give the sum of these contributions, and taking "
  "apart the same reports at the corresponding lines; non-trivial: at least three blocks that contribute something";

namespace {

struct Setup {
  std::string header;     // with the blank line behind it
  std::string charset = "UTF-8"; // of the dictionary
  bool fuzzy = true;
  int preset = -1;        // rule of the dictionary
  Dump before;            // what it holds
  size_t header_lines = 0;
};

struct Block {
  std::string text;       // ends with a blank line
  size_t lines = 0;
  Dump gives;             // alone
};

size_t newlines(const std::string& s) { return static_cast<size_t>(std::count(s.begin(), s.end(), '\n')); }

void store(tg::Dictionary& d, const Dump& m)
{
  for (auto& e : m) {
    if (e.first.first) { if (e.second.size() == 1) d.add_translation(*e.first.first, e.first.second, e.second[0]); else d.add_translation(*e.first.first, e.first.second, "p", e.second); }
    else { if (e.second.size() == 1) d.add_translation(e.first.second, e.second[0]); else d.add_translation(e.first.second, "p", e.second); }
  }
}

std::unique_ptr<tg::Dictionary> fresh(const Setup& s, bool filled)
{
  std::unique_ptr<tg::Dictionary> d(new tg::Dictionary(s.charset));
  if (s.preset >= 0) d->set_plural_forms(tg::PluralForms::from_string(std::string("Plural-Forms: ") + rules()[static_cast<size_t>(s.preset)].header));
  if (filled) store(*d, s.before);
  return d;
}

const char* const file_name = "sum.po";

struct Report {
  std::string text;       // without the line number
  long line = 0;          // 0: none
  char kind = 'w';
};

void load_file(const Setup& s, const std::string& text, tg::Dictionary& d)
{
  LogCapture::reset();
  std::istringstream in(text);
  tg::POParser::parse(file_name, in, d, s.fuzzy);
}

std::vector<Report> reports()
{
  std::vector<Report> v;
  const std::string mark = std::string(file_name) + ":";
  for (size_t i = 0; i < LogCapture::texts.size(); ++i) {
    Report r;
    r.text = LogCapture::texts[i];
    r.kind = LogCapture::kinds[i];
    if (r.text.compare(0, mark.size(), mark) == 0) {
      size_t e = mark.size();
      while (e < r.text.size() && r.text[e] >= '0' && r.text[e] <= '9' && e < mark.size() + 9) ++e;
      if (e > mark.size()) { r.line = std::stol(r.text.substr(mark.size(), e - mark.size())); r.text.erase(mark.size(), e - mark.size()); }
    }
    v.push_back(r);
  }
  return v;
}

// keys the order of whose kinds matters: plain in one place, several forms in another
std::set<Key> mixed(const Setup& s, const std::vector<const Block*>& v)
{
  std::map<Key, size_t> size;
  std::set<Key> r;
  auto add = [&](const Dump& d) { for (auto& e : d) { auto i = size.insert({e.first, e.second.size()}); if (i.first->second != e.second.size()) r.insert(e.first); } };
  add(s.before);
  for (auto b : v) add(b->gives);
  return r;
}

void without(Dump& d, const std::set<Key>& keys) { for (auto& k : keys) d.erase(k); }

Dump sum(const Dump& before, const std::vector<const Block*>& v)
{
  Dump r = before;
  for (auto b : v) for (auto& e : b->gives) r[e.first] = e.second;
  return r;
}

std::string whole(const Setup& s, const std::vector<const Block*>& v, size_t from = 0, size_t to = std::string::npos)
{
  std::string r = s.header;
  for (size_t i = from; i < v.size() && i < to; ++i) r += v[i]->text;
  return r;
}

void alone(const Setup& s, Block& b)
{
  std::unique_ptr<tg::Dictionary> d = fresh(s, false);
  load_file(s, s.header + b.text, *d);
  b.gives = dump(*d);
  b.lines = newlines(b.text);
}

std::string brief(const std::string& s) { return s.size() < 6000 ? quote(s) : quote(s.substr(0, 3000)) + " ... " + quote(s.substr(s.size() - 2000)); }

// loads the blocks in this order and compares with the sum
void check_sum(Case& c, const Setup& s, const std::vector<const Block*>& v, const char* what, std::unique_ptr<tg::Dictionary>* keep = nullptr)
{
  std::unique_ptr<tg::Dictionary> d = fresh(s, true);
  std::string text = whole(s, v);
  load_file(s, text, *d);
  Dump a = dump(*d), e = sum(s.before, v);
  std::set<Key> m = mixed(s, v);
  without(a, m);
  without(e, m);
  c.check(a == e, std::string("not-the-sum-") + what, [&] { return diff(e, a) + "\nfile: " + brief(text); });
  if (keep) *keep = std::move(d);
}

// the same reports, taken apart at these block numbers
void check_parts(Case& c, const Setup& s, const std::vector<const Block*>& v, const std::vector<size_t>& cuts, tg::Dictionary& all, const std::vector<Report>& whole_reports)
{
  std::unique_ptr<tg::Dictionary> h = fresh(s, false);
  load_file(s, s.header, *h);
  size_t header_reports = reports().size();
  std::unique_ptr<tg::Dictionary> d = fresh(s, true);
  std::vector<Report> collected;
  bool complete = whole_reports.size() < LogCapture::limit;
  size_t from = 0, lines = 0;
  for (size_t k = 0; k <= cuts.size(); ++k) {
    size_t to = k < cuts.size() ? cuts[k] : v.size();
    load_file(s, whole(s, v, from, to), *d);
    std::vector<Report> r = reports();
    if (r.size() >= LogCapture::limit) complete = false;
    c.check(r.size() >= header_reports, "fewer-reports", [&] { return "part " + std::to_string(k) + ": " + brief(whole(s, v, from, to)); });
    for (size_t i = k ? header_reports : 0; i < r.size(); ++i) {
      if (r[i].line > static_cast<long>(s.header_lines)) r[i].line += static_cast<long>(lines);
      collected.push_back(r[i]);
    }
    for (; from < to; ++from) lines += v[from]->lines;
  }
  Dump a = dump(*d), e = dump(all);
  auto where = [&] { std::string r = "taken apart before the blocks"; for (auto x : cuts) r += " " + std::to_string(x); return r + "\nfile: " + brief(whole(s, v)); };
  c.check(a == e, "parts-differ-from-the-whole", [&] { return diff(e, a) + "\n" + where(); });
  c.check(d->get_plural_forms() == all.get_plural_forms(), "plural-rule", where);
  if (!complete) return;
  for (size_t i = 0; i < std::max(collected.size(), whole_reports.size()); ++i) {
    bool same = i < collected.size() && i < whole_reports.size() && collected[i].text == whole_reports[i].text && collected[i].line == whole_reports[i].line && collected[i].kind == whole_reports[i].kind;
    auto tell = [&](const std::vector<Report>& x) { return i < x.size() ? quote(x[i].text) + " in line " + std::to_string(x[i].line) : std::string("nothing"); };
    c.check(same, "reports-differ", [&] { return "whole: " + tell(whole_reports) + ", parts: " + tell(collected) + "\n" + where(); });
  }
}

// --- generated blocks --------------------------------------------------------------------------
std::string token(Tape& t)
{
  static const std::vector<std::string> v = {"msgid ", "msgstr ", "msgctxt ", "msgid_plural ", "msgstr[0] ", "msgstr[1] ", "msgstr[", "\"a\"", "\"b c\"", "\"", "\\", "\\n", "x", " ", "\n", "\n", "\n\n", "#", "#, fuzzy\n", "# c\n", "#~ ", "\"x\\q\"", "\t", "\xa5", "\xff", "\r\n", "]", "fuzzy", "\xa5\\"};
  return t.pick(v);
}

// no block but the header may be one
std::string no_header(std::string s)
{
  for (size_t p = 0; (p = s.find("\"\"", p)) != std::string::npos;) s.insert(p + 1, ".");
  return s;
}

Message gen_message(Tape& t, Chars chars)
{
  Message m;
  if (t.chance(70)) m.ctxt = t.chance(24) ? std::string() : gen_key(t);
  m.id = t.chance(128) ? gen_key(t) : gen_nonempty(t, chars);
  if (m.id.empty()) m.id = "i";
  // mostly the same kind for the same key
  m.plural = t.chance(30) ? t.chance(128) : (m.id.size() + (m.ctxt ? 1 : 0)) % 3 == 0;
  if (m.plural) {
    m.id_plural = gen_text(t, chars);
    size_t n = t.chance(60) ? t.range(1, 6) : 2;
    for (size_t i = 0; i < n; ++i) m.str.push_back(gen_text(t, chars));
  }
  else m.str.push_back(gen_text(t, chars));
  m.fuzzy = t.chance(60);
  return m;
}

Block gen_block(Tape& t, std::vector<Block>& earlier)
{
  Block b;
  unsigned k = static_cast<unsigned>(t.range(0, 15));
  Chars chars = t.chance(100) ? Chars::bytes : t.chance(128) ? Chars::utf8 : Chars::ascii;
  auto entry = [&] { std::string s; Layout l = Layout::random(t); if (t.chance(60)) write_comments(s, l); write_message(s, l, gen_message(t, chars)); return s; };
  switch (k) {
    default: b.text = entry(); break;
    case 9: case 10: { // edited
      std::string s = entry();
      size_t n = 1 + t.length(4, 1);
      for (size_t i = 0; i < n && !s.empty(); ++i) {
        size_t p = t.range(0, s.size() - 1);
        switch (t.range(0, 4)) {
          case 0: s.erase(p, t.chance(128) ? 1 : t.range(1, 20)); break;
          case 1: s.insert(p, token(t)); break;
          case 2: s[p] = static_cast<char>(t.byte()); break;
          case 3: s.insert(p, s.substr(t.range(0, s.size() - 1), t.range(1, 30))); break;
          default: s.resize(p); break;
        }
      }
      b.text = no_header(s);
      break;
    }
    case 11: { std::string s; size_t n = t.range(1, 14); for (size_t i = 0; i < n; ++i) s += token(t); b.text = no_header(s); break; }
    case 12: { static const std::vector<std::string> v = {"#, fuzzy", "# x", "#~ msgid \"old\"\n#~ msgstr \"x\"", "#, c-format, fuzzy", "", " \t", "#| msgid \"a\"", "#: a.c:1\n#, fuzzy\n# y", "msgctxt \"x\"", "msgid \"a\"", "msgstr \"a\"", "msgid_plural \"x\""}; b.text = t.pick(v); break; }
    case 13: case 14: if (earlier.empty()) b.text = entry(); else { b.text = earlier[t.range(0, earlier.size() - 1)].text; if (t.chance(60)) b.text = "#, fuzzy\n" + b.text; } break;
    case 15: if (t.chance(16)) { std::string l(magnitude(t, 6000), t.chance(128) ? 'l' : ' '); b.text = "msgid \"big\"\nmsgstr \"" + l + "\""; if (t.chance(100)) b.text = no_header(b.text.substr(t.range(0, 20))); } else b.text = entry();
  }
  while (!b.text.empty() && b.text.back() == '\n') b.text.pop_back();
  b.text += "\n\n";
  return b;
}

Setup gen_setup(Tape& t)
{
  Setup s;
  static const std::vector<std::string> file = {"UTF-8", "ISO-8859-1", "BIG5", "ISO-8859-15", "big5", "koi8-r"}, dict = {"UTF-8", "ISO-8859-1", "UTF-16LE", "BIG5", "ISO-2022-JP"};
  unsigned k = static_cast<unsigned>(t.range(0, 7));
  if (k == 7) s.header = "# no header\n\n";
  else {
    Catalogue cat;
    cat.charset = k < 6 ? file[k] : "";
    cat.header_fuzzy = t.chance(40);
    if (t.chance(170)) cat.rule = static_cast<int>(t.range(0, rules().size() - 1));
    Layout l = Layout::random(t);
    write_header(s.header, l, cat);
    while (!s.header.empty() && s.header.back() == '\n') s.header.pop_back();
    s.header += "\n\n";
  }
  s.header_lines = newlines(s.header);
  s.charset = t.chance(128) ? "UTF-8" : t.pick(dict);
  s.fuzzy = !t.chance(90);
  if (t.chance(60)) s.preset = static_cast<int>(t.range(0, rules().size() - 1));
  if (t.chance(80)) {
    size_t n = t.range(1, 5);
    for (size_t i = 0; i < n; ++i) {
      Message m = gen_message(t, Chars::ascii);
      for (auto& x : m.str) if (x.empty()) x = "held";
      s.before[Key(m.ctxt, m.id)] = m.str;
    }
  }
  return s;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  Setup s = gen_setup(t);
  size_t n = t.chance(3) ? magnitude(t, 250) : t.length(20, 7) + 1;
  std::vector<Block> blocks;
  for (size_t i = 0; i < n; ++i) blocks.push_back(gen_block(t, blocks));
  std::string file = s.header;
  for (auto& b : blocks) file += b.text;
  c.log << "dictionary " << s.charset << " fuzzy " << s.fuzzy << " rule " << s.preset << " holds " << show(s.before) << "\nfile " << brief(file) << "\n";
  size_t giving = 0;
  for (auto& b : blocks) { alone(s, b); if (!b.gives.empty()) ++giving; }
  std::vector<const Block*> v;
  for (auto& b : blocks) v.push_back(&b);

  std::unique_ptr<tg::Dictionary> all;
  check_sum(c, s, v, "whole", &all);
  std::vector<Report> whole_reports = reports();
  { // taken apart
    std::vector<size_t> cuts;
    unsigned p = t.chance(60) ? 255 : 60;
    for (size_t i = 1; i < v.size(); ++i) if (t.chance(p)) cuts.push_back(i);
    check_parts(c, s, v, cuts, *all, whole_reports);
    if (s.before.empty() && s.preset < 0 && cuts.size() < 12) { // in several directories, the first of which wins
      auto files = std::make_shared<Files>();
      std::unique_ptr<tg::DictionaryManager> m(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)), s.charset));
      if (!s.fuzzy) m->set_use_fuzzy(false);
      std::vector<const Block*> order;
      for (size_t k = cuts.size() + 1; k-- > 0;) {
        size_t from = k ? cuts[k - 1] : 0, to = k < cuts.size() ? cuts[k] : v.size();
        std::string d = "d" + std::to_string(k);
        files->dirs[d] = {{"de.po", whole(s, v, from, to)}};
        m->add_directory(d); // the last part wins
      }
      std::set<Key> mix = mixed(s, v);
      Dump a = dump(m->get_dictionary(tg::Language::from_name("de"))), e = sum(s.before, v);
      without(a, mix);
      without(e, mix);
      c.check(a == e, "directories-are-not-the-sum", [&] { return diff(e, a); });
      c.label("manager");
    }
  }
  { // the same again
    load_file(s, file, *all);
    Dump a = dump(*all), e = sum(s.before, v);
    std::set<Key> mix = mixed(s, v);
    without(a, mix);
    without(e, mix);
    c.check(a == e, "not-the-same-again", [&] { return diff(e, a); });
  }
  { // in another order
    std::vector<const Block*> w = v;
    for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[t.range(0, i - 1)]);
    check_sum(c, s, w, "in-another-order");
    std::reverse(w.begin(), w.end());
    check_sum(c, s, w, "in-another-order");
  }
  { // some of them
    std::vector<const Block*> w;
    for (auto b : v) if (t.chance(128)) w.push_back(b);
    check_sum(c, s, w, "of-a-selection");
    w = v;
    w.erase(w.begin() + static_cast<long>(t.range(0, w.size() - 1)));
    check_sum(c, s, w, "without-one");
    // and some more than once
    w.clear();
    for (auto b : v) for (size_t k = t.length(3, 1); k > 0; --k) w.push_back(b);
    check_sum(c, s, w, "with-repetitions");
  }
  LogCapture::reset();
  c.feed(c.log.str());
  c.nontrivial = giving > 2;
  if (giving < n) c.label("damaged or empty blocks");
  if (!mixed(s, v).empty()) c.label("plain and plural");
}

std::vector<Example> examples()
{
  static const std::vector<std::string> kinds = {
    "msgid \"a\"\nmsgstr \"one\"", "msgid \"b\"\nmsgstr \"\"", "msgid \"a\"\nmsgstr \"two\"", "msgctxt \"x\"\nmsgid \"a\"\nmsgstr \"three\"", "msgctxt \"\"\nmsgid \"a\"\nmsgstr \"four\"", "msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"",
    "msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"\"\nmsgstr[1] \"\"", "msgid \"q\"\nmsgid_plural \"qs\"\nmsgstr[0] \"0\"\nmsgstr[1] \"1\"\nmsgstr[2] \"2\"", "msgctxt \"x\"\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"c0\"\nmsgstr[1] \"c1\"",
    "#, fuzzy\nmsgid \"f\"\nmsgstr \"five\"", "#, fuzzy", "#, c-format\nmsgid \"g\"\nmsgstr \"%d\"", "# x", "#~ msgid \"o\"\n#~ msgstr \"old\"", "", " \t", "msgid \"l\"\nmsgstr \"\"\n\"long \"\n\"text\"", "msgid \"\"\n\"m\"\nmsgstr \"six\"",
    "msgid \"u\"\nmsgstr \"\xc3\xa4\xc3\xb6\"", "msgid \"u\"\nmsgstr \"\xe4\xf6\"", "msgid \"v\"\nmsgstr \"\xa5\x5c\xb3\x5c\"", "msgid \"w\"\nmsgstr \"\xd0\x96\"", "msgid \"e\"\nmsgstr \"\\n\\t\\\"\\\\\\q\"", "msgid \"t\"\nmsgstr \"x\" y", "msgid\"s\"\nmsgstr\"x\"",
    "msgid \"a", "msgid \"a\"", "msgstr \"a\"", "msgctxt \"x\"", "msgid_plural \"x\"", "msgid \"a\"\nmsgid_plural \"b\"", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c", "junk", "\"stray\"", "msgid \"d\"\nmsgstr \"d\"\nmsgid \"h\"\nmsgstr \"h\"", "msgid \"d\"\nmsgstr \"seven\"\n# c\nmsgid \"h\"\nmsgstr \"eight\"",
    "msgid \"d\"\nmsgstr \"x\"\n#, fuzzy", "msgid \"y\\\nmsgstr \"z\"", "msgctxt \"x\"\nmsgctxt \"y\"\nmsgid \"a\"\nmsgstr \"b\"", "msgid \"r\"\r\nmsgstr \"nine\"\r", "msgid \"a\"\nmsgstr[0] \"x\"", "msgid \"i\"\nmsgid_plural \"is\"\nmsgstr[1] \"1\"", "msgid \"\xa5\"\nmsgstr \"x\"", "msgid \"k\"\nmsgstr \"\xff\xff\""};
  auto setup = [](unsigned k) {
    static const char* const file[] = {"UTF-8", "ISO-8859-1", "BIG5", "UTF-8"};
    Setup s;
    s.header = k == 4 ? std::string("# none\n\n") : std::string("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=") + file[k] + "\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
    s.header_lines = newlines(s.header);
    s.charset = k == 3 ? "ISO-8859-1" : "UTF-8";
    s.fuzzy = k != 1;
    return s;
  };
  return {
    {"every two and three blocks of every kind", [=](Case& c) {
      for (unsigned k = 0; k < 5; ++k) {
        Setup s = setup(k);
        std::vector<Block> b(kinds.size());
        for (size_t i = 0; i < kinds.size(); ++i) { b[i].text = kinds[i] + "\n\n"; alone(s, b[i]); }
        for (auto& x : b) for (auto& y : b) {
          check_sum(c, s, {&x, &y, &b[0]}, "whole");
          std::unique_ptr<tg::Dictionary> all;
          check_sum(c, s, {&x, &y, &x}, "whole", &all);
          std::vector<Report> r = reports();
          check_parts(c, s, {&x, &y, &x}, {1}, *all, r);
          check_parts(c, s, {&x, &y, &x}, {1, 2}, *all, r);
        }
      }
    }},
    {"every number of blocks of every kind", [=](Case& c) {
      for (unsigned k : {0u, 2u}) {
        Setup s = setup(k);
        std::vector<Block> b(kinds.size());
        for (size_t i = 0; i < kinds.size(); ++i) { b[i].text = kinds[i] + "\n\n"; alone(s, b[i]); }
        for (size_t i = 0; i < b.size(); ++i)
          for (size_t n = 1; n <= 270; n += n < 6 || (n > 61 && n < 66) || (n > 125 && n < 130) || (n > 253 && n < 258) ? 1 : 17) {
            std::vector<const Block*> v(n, &b[i]);
            v.push_back(&b[(i + 5) % b.size()]);
            v.push_back(&b[(i * 7 + n) % b.size()]);
            std::unique_ptr<tg::Dictionary> all;
            check_sum(c, s, v, "whole", &all);
            std::vector<Report> r = reports();
            check_parts(c, s, v, {n}, *all, r);
          }
      }
    }},
  };
}
} // namespace pbt
