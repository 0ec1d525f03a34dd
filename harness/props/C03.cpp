// C03: a damaged entry costs only itself.
#include "model.hpp"

#include <algorithm>
#include <cstring>

using namespace model;

namespace pbt {
const char* const property_id = "C03";
const char* const property_rule =
  "a catalogue of healthy entries with damaged entries (disjoint keys) placed between them, all separated by blank lines, loaded; "
  "the healthy ones must be exact and damage reported; non-trivial: at least one healthy entry after a damaged one";

namespace {

std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> v;
  size_t b = 0;
  while (b < s.size()) {
    size_t e = s.find('\n', b);
    v.push_back(s.substr(b, e - b));
    if (e == std::string::npos) break;
    b = e + 1;
  }
  return v;
}

std::string join(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& l : v) if (!l.empty()) r += l + "\n";
  return r;
}

struct Block {
  std::string text; // ends with newline
  bool damaged = false;
  bool sure = false; // certainly malformed
  std::string what;
};

std::string simple_text(Tape& t)
{
  static const std::vector<std::string> v = {"x", "abc", "two words", "\\\"q\\\"", "\\n", "\\\\", "%d", "msgid", "#", "msgstr \\\"x\\\"", "\\\\\\\"", "", "fuzzy", "  "};
  std::string s;
  size_t n = t.length(6, 2);
  for (size_t i = 0; i < n; ++i) s += t.pick(v);
  return s;
}

// a serialised entry whose key starts with "bad", to be damaged
std::vector<std::string> victim(Tape& t, unsigned n, bool& plural, bool& ctxt)
{
  std::vector<std::string> v;
  static const std::vector<std::string> com = {"#: src/a.c:1", "#, fuzzy", "#, c-format", "#. note", "#| msgid \"old\""};
  while (t.chance(60)) v.push_back(t.pick(com));
  ctxt = t.chance(80);
  plural = t.chance(110);
  if (ctxt) v.push_back("msgctxt \"badc" + std::to_string(n) + simple_text(t) + "\"");
  v.push_back("msgid \"bad" + std::to_string(n) + simple_text(t) + "\"");
  if (t.chance(50)) v.push_back("\"" + simple_text(t) + "\"");
  if (plural) {
    v.push_back("msgid_plural \"bad" + simple_text(t) + "\"");
    if (t.chance(30)) v.push_back("\"" + simple_text(t) + "\"");
    size_t k = t.range(1, 4);
    for (size_t i = 0; i < k; ++i) {
      v.push_back("msgstr[" + std::to_string(i) + "] \"[bad]" + simple_text(t) + "\"");
      if (t.chance(30)) v.push_back("\"" + simple_text(t) + "\"");
    }
  }
  else {
    v.push_back("msgstr \"[bad]" + simple_text(t) + "\"");
    if (t.chance(50)) v.push_back("\"" + simple_text(t) + "\"");
  }
  return v;
}

size_t find_line(const std::vector<std::string>& v, const char* p)
{
  for (size_t i = 0; i < v.size(); ++i) if (v[i].compare(0, strlen(p), p) == 0) return i;
  return v.size();
}

Block damage(Tape& t, unsigned n)
{
  Block b;
  b.damaged = true;
  bool plural, ctxt;
  std::vector<std::string> v = victim(t, n, plural, ctxt);
  size_t id = find_line(v, "msgid "), st = find_line(v, "msgstr");
  size_t any = t.range(0, v.size() - 1);
  switch (t.range(0, 19)) {
    case 0: b.what = "no opening quote"; b.sure = true; v[id].erase(v[id].find('"'), 1); break;
    case 1: b.what = "no closing quote"; b.sure = true; v[id].pop_back(); while (!v[id].empty() && v[id].find('"', 7) != std::string::npos) v[id].pop_back(); break;
    case 2: b.what = "no msgid"; b.sure = true; v.erase(v.begin() + static_cast<long>(id), v.begin() + static_cast<long>(find_line(v, plural ? "msgid_plural" : "msgstr"))); if (plural) v.erase(v.begin() + static_cast<long>(find_line(v, "msgid_plural"))); break;
    case 3: b.what = "no msgstr"; b.sure = true; v.resize(st); break;
    case 4: b.what = "only msgctxt"; b.sure = true; v = {"msgctxt \"bad\""}; break;
    case 5: b.what = "misspelt msgid"; b.sure = true; { static const std::vector<std::string> k = {"msgd", "mgsid", "Msgid", "msgip", "msgID", "xsgid", "msgstr_id", "  msgid"}; v[id] = t.pick(k) + v[id].substr(5); } break;
    case 6: b.what = "misspelt msgstr"; b.sure = true; { static const std::vector<std::string> k = {"mgstr", "msgsrt", "Msgstr", "msgstt", "msgSTR", "xsgstr", "msgtxt", "msgdst", " msgstr"}; v[st] = t.pick(k) + v[st].substr(6); } break;
    case 7: {
      b.what = "bad plural index"; b.sure = true;
      static const std::vector<std::string> ix = {"[a]", "[10]", "[", "[]", "[-1]", "[0", "[ 0]", "[0]x", "0", "[99999999999]", "[0}"};
      v = {"msgid \"bad\"", "msgid_plural \"bads\"", "msgstr" + t.pick(ix) + " \"[bad]\""};
      if (t.chance(100)) v.insert(v.begin() + 2, "msgstr[0] \"[bad]\"");
      if (t.chance(100)) v.push_back("msgstr[1] \"[bad]\"");
      break;
    }
    case 8: b.what = "stray string"; b.sure = true; v = {"\"stray" + simple_text(t) + "\""}; break;
    case 9: b.what = "junk line first"; b.sure = true; v.insert(v.begin(), t.chance(128) ? "junk" : "domain \"x\""); break;
    case 10: b.what = "junk line last"; b.sure = true; v.push_back(t.chance(128) ? "junk" : "msgstr[0 \"[bad]\""); break;
    case 11: b.what = "lone msgstr"; b.sure = true; v = {"msgstr \"[bad]" + simple_text(t) + "\""}; break;
    case 12: b.what = "two entries without separation"; b.sure = true; { bool p, q; auto w = victim(t, n, p, q); size_t k = 0; while (w[k][0] == '#') ++k; w.erase(w.begin(), w.begin() + static_cast<long>(k)); v.insert(v.end(), w.begin(), w.end()); } break;
    case 13: b.what = "drop a line"; v.erase(v.begin() + static_cast<long>(any)); break;
    case 14: b.what = "swap lines"; std::swap(v[any], v[t.range(0, v.size() - 1)]); break;
    case 15: b.what = "duplicate a line"; { std::string l = v[any]; v.insert(v.begin() + static_cast<long>(any), l); } break;
    case 16: b.what = "cut off in the middle"; { std::string s = join(v); s.resize(t.range(1, s.size() - 1)); v = split(s); } break;
    case 17: b.what = "lost character"; { size_t k = t.range(0, v[any].size() - 1); v[any].erase(k, 1); } break;
    case 18: b.what = "changed character"; { size_t k = t.range(0, v[any].size() - 1); char ch = static_cast<char>(t.range(1, 255)); if (ch == '\n') ch = 'x'; v[any][k] = ch; } break;
    case 19: b.what = "backslash at the line end"; b.sure = true; v[id] = "msgid \"bad\\"; break;
  }
  b.text = join(v);
  // the damage must not have produced a (header) entry without a key of its own
  if (b.text.find("msgid \"\"") != std::string::npos) { b.text = "msgid bad\n"; b.sure = true; }
  if (b.text.empty()) { b.text = "junk\n"; b.sure = true; }
  return b;
}

std::string to_latin1(const std::string& u)
{
  std::string r;
  for (size_t i = 0; i < u.size(); ++i) {
    unsigned char ch = static_cast<unsigned char>(u[i]);
    if (ch >= 0xc0) { r += static_cast<char>(((ch & 3) << 6) | (static_cast<unsigned char>(u[i + 1]) & 63)); ++i; }
    else r += u[i];
  }
  return r;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  GenOptions o;
  o.id_chars = Chars::ascii;
  o.str_chars = Chars::latin1;
  o.fuzzy = true;
  o.max_messages = 8;
  Catalogue cat = gen_catalogue(t, o);
  bool latin1 = cat.header && t.chance(90);
  cat.charset = latin1 ? "ISO-8859-1" : "UTF-8";
  bool use_fuzzy = !t.chance(90);
  unsigned serial = 0;
  for (auto& m : cat.messages) {
    m.id = "ok" + std::to_string(serial++) + m.id;
    if (m.ctxt) m.ctxt = "ok" + *m.ctxt;
    if (!m.plural && !m.str[0].empty()) m.str[0] += "[ok]";
  }
  // healthy blocks
  std::vector<Block> blocks;
  if (cat.header) {
    Layout l(&t);
    Block b;
    write_header(b.text, l, cat);
    blocks.push_back(b);
  }
  bool wild = t.chance(100);
  for (auto& m : cat.messages) {
    Layout l(&t);
    l.wild = wild;
    Message f = m;
    if (latin1) for (auto& s : f.str) s = to_latin1(s);
    Block b;
    write_message(b.text, l, f);
    blocks.push_back(b);
  }
  // damaged blocks at any place
  size_t n = 1 + t.length(4, 1);
  unsigned sure = 0;
  for (size_t i = 0; i < n; ++i) {
    Block b = damage(t, static_cast<unsigned>(i));
    size_t at = t.range(0, blocks.size());
    if (t.chance(3)) { // a lot of damage in one place
      static const std::vector<std::string> line = {"junk\n", "\"\n", "msgid \"bad\"\n", "msgstr[0] \"[bad]\"\n"};
      size_t k = magnitude(t, 2100);
      std::string more = t.chance(128) ? std::string(k, 'j') + "\n" : "", l = t.pick(line);
      if (more.empty()) for (size_t j = 0; j < k; ++j) more += l;
      b.text += "junk\n" + more;
      b.sure = true;
    }
    size_t copies = t.chance(3) ? magnitude(t, t.chance(24) ? 2100 : 320) : 1; // or many damaged entries
    blocks.insert(blocks.begin() + static_cast<long>(blocks.size() - at), copies, b);
    sure += b.sure ? static_cast<unsigned>(copies) : 0;
    c.label(b.what);
  }
  Layout l(&t);
  l.crlf = t.chance(40);
  l.final_newline = !t.chance(64);
  std::string with, without;
  bool seen = false;
  for (auto& b : blocks) {
    std::string sep = t.chance(30) ? "\n \n" : "\n";
    with += b.text + sep;
    if (!b.damaged) {
      without += b.text + "\n";
      if (seen) c.nontrivial = true;
    }
    else { seen = true; c.log << "damage: " << b.what << (b.sure ? " (sure)" : "") << "\n"; }
  }
  if (t.chance(128)) while (with.size() > 1 && with[with.size() - 1] == '\n' && with[with.size() - 2] == '\n') with.pop_back();
  with = finish(with, l);
  without = finish(without, l);
  c.log << show(cat) << "use_fuzzy " << use_fuzzy << " file: " << quote(with) << "\n";
  c.feed(with);

  Dump e = expected(cat, use_fuzzy);
  unsigned long base;
  {
    std::istringstream in(without);
    tg::Dictionary d;
    LogCapture::reset();
    tg::POParser::parse("w.po", in, d, use_fuzzy);
    base = LogCapture::warning + LogCapture::error;
    Dump a = dump(d);
    c.check(a == e, "content-without-damage", [&] { return diff(e, a); });
  }
  std::istringstream in(with);
  tg::Dictionary d;
  LogCapture::reset();
  tg::POParser::parse("w.po", in, d, use_fuzzy);
  unsigned long diagnostics = LogCapture::warning + LogCapture::error;
  Dump a = dump(d);
  for (auto& x : e) {
    auto i = a.find(x.first);
    c.check(i != a.end(), "healthy-entry-lost", [&] { return quote(x.first.second); });
    c.check(i->second == x.second, "healthy-entry-changed", [&] { return quote(x.first.second) + " is " + quote(i->second) + ", expected " + quote(x.second); });
  }
  for (auto& x : a) {
    if (e.count(x.first)) continue;
    c.check(x.first.second.compare(0, 2, "ok") != 0 && !(x.first.first && x.first.first->compare(0, 2, "ok") == 0), "text-mixed-up",
            [&] { return "unexpected " + quote(x.first.second) + " -> " + quote(x.second); });
    for (auto& s : x.second)
      c.check(s.find("[ok]") == std::string::npos, "text-mixed-up", [&] { return quote(x.first.second) + " has the text of another entry: " + quote(x.second); });
  }
  if (cat.header && cat.rule >= 0)
    c.check(d.get_plural_forms().get_nplural() == rules()[static_cast<size_t>(cat.rule)].n, "plural-rule-lost");
  else c.check(!d.get_plural_forms(), "plural-rule-invented");
  c.check(diagnostics >= base + sure, "damage-not-reported", [&] {
    return std::to_string(diagnostics) + " diagnostics with the damage, " + std::to_string(base) + " without, " + std::to_string(sure) + " entries surely malformed"; });
}

std::vector<Example> examples()
{
  return {
    {"entry after an incomplete one", [](Case& c) {
      for (const char* bad : {"msgid \"a\"\n", "msgctxt \"c\"\n", "msgid \"a\"\nmsgid_plural \"as\"\n", "msgid \"a\nmsgstr \"b\"\n", "msgid a\"\nmsgstr \"b\"\n", "junk\n", "msgid \"a\"\njunk\nmsgstr \"b\"\n"}) {
        tg::Dictionary d;
        LogCapture::reset();
        load("e.po", std::string("msgid \"x\"\nmsgstr \"X\"\n\n") + bad + "\nmsgid \"y\"\nmsgstr \"Y\"\n\nmsgid \"z\"\nmsgid_plural \"zs\"\nmsgstr[0] \"Z\"\nmsgstr[1] \"ZS\"\n", d);
        Dump e{{Key(std::nullopt, "x"), {"X"}}, {Key(std::nullopt, "y"), {"Y"}}, {Key(std::nullopt, "z"), {"Z", "ZS"}}}, a = dump(d);
        c.check(a == e, "content", [&] { return diff(e, a) + " after " + quote(bad); });
        c.check(LogCapture::warning + LogCapture::error > 0, "damage-not-reported", [&] { return quote(bad); });
      }
    }},
    {"every byte of an entry replaced, left out or put in", [](Case& c) {
      const std::string before = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgctxt \"menu\"\nmsgid \"before\"\nmsgstr \"B\xc3\xa4\"\n\n";
      const std::string after = "\n#, fuzzy\nmsgid \"after\"\nmsgid_plural \"afters\"\nmsgstr[0] \"A\xc3\xa4\"\nmsgstr[1] \"AS\"\n\nmsgid \"end\"\nmsgstr \"E\"\n";
      const std::vector<std::string> entries = {
        "msgid \"y\"\nmsgstr \"Y\"\n", "#, fuzzy\nmsgctxt \"c\"\nmsgid \"y\\n\"\nmsgid_plural \"ys\"\nmsgstr[0] \"Y\"\nmsgstr[1] \"YS\"\n", "msgid \"\"\n\"y\"\nmsgstr \"\"\n\"Y\\\"\"\n", "#~ msgid \"y\"\nmsgid\"y\"  \nmsgstr\t\"\\q\"x\n"};
      for (auto& y : entries) for (size_t i = 0; i < y.size(); ++i) for (unsigned b = 0; b < 256; ++b) for (int how = 0; how < 3; ++how) {
        if ((how == 1) != (b == 0) && how == 1) continue;
        std::string x = y;
        if (how == 0) x[i] = static_cast<char>(b);
        else if (how == 1) x.erase(i, 1);
        else if (i % 3 == 0 || b < 64) x.insert(i, 1, static_cast<char>(b));
        else continue;
        if (x.empty() || x.back() != '\n') x += '\n'; // the blank line stays one
        tg::Dictionary d;
        LogCapture::reset();
        load("e.po", before + x + after, d);
        auto what = [&] { return quote(x); };
        c.check(d.translate_ctxt("menu", "before") == "B\xc3\xa4", "content", what);
        c.check(d.translate("end") == "E", "content", what);
        c.check(d.translate_plural("after", "afters", 1) == "A\xc3\xa4" && d.translate_plural("after", "afters", 2) == "AS", "content", what);
        c.check(d.translate("before") == "before" && d.translate_ctxt("menu", "end") == "end" && d.translate_ctxt("c", "after") == "after", "content", what);
      }
    }},
    {"every number of damaged entries, lines and bytes", [](Case& c) {
      const std::vector<std::string> bad = {"msgid \"a\n", "junk\n", "msgid \"a\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[10] \"x\"\n", "msgid \"a\"\nmsgstr b\n", "msgstr \"x\"\n", "msgctxt \"c\"\nmsgstr \"x\"\n", "msgid \"a\"\nmsgstr \"\\", "\"x\"\n"};
      auto judge = [&](const std::string& mid, const std::string& note) {
        tg::Dictionary d;
        LogCapture::reset();
        load("e.po", "msgid \"x\"\nmsgstr \"X\"\n\n" + mid + "\nmsgctxt \"c\"\nmsgid \"y\"\nmsgstr \"Y\"\n\nmsgid \"z\"\nmsgid_plural \"zs\"\nmsgstr[0] \"Z\"\nmsgstr[1] \"ZS\"\n", d);
        Dump e{{Key(std::nullopt, "x"), {"X"}}, {Key("c", "y"), {"Y"}}, {Key(std::nullopt, "z"), {"Z", "ZS"}}}, a = dump(d);
        c.check(a == e, "content", [&] { return diff(e, a) + " after " + note; });
        c.check(LogCapture::warning + LogCapture::error > 0, "damage-not-reported", note);
      };
      for (size_t k = 0; k < bad.size(); ++k) {
        std::string s, l, e = bad[k], long_one = bad[k];
        if (e.back() != '\n') e += '\n';
        for (unsigned n = 1; n <= 400; ++n) {
          s += e + "\n";
          l += "more \"junk\n";
          long_one.insert(long_one.size() - 1, 1, 'x');
          if (n % 5 && n > 70 && n < 250) continue;
          judge(s, std::to_string(n) + " times " + quote(e));
          judge(e + l, quote(e) + " and " + std::to_string(n) + " lines");
          judge(long_one + "\n", quote(bad[k]) + " with " + std::to_string(n) + " bytes more");
        }
      }
    }},
  };
}
} // namespace pbt
