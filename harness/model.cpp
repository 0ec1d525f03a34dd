#include "model.hpp"

#include <algorithm>
#include <istream>

namespace pbt {
void reset_globals()
{
  model::LogCapture::reset();
  model::LogCapture::install();
  tinygettext::POParser::pedantic = true;
}
} // namespace pbt

namespace model {

unsigned long LogCapture::info = 0, LogCapture::warning = 0, LogCapture::error = 0, LogCapture::empty = 0;
size_t LogCapture::limit = 1000;
std::vector<std::string> LogCapture::texts, LogCapture::infos;
std::vector<char> LogCapture::kinds;

std::string utf8(uint32_t cp)
{
  std::string r;
  if (cp < 0x80) r += static_cast<char>(cp);
  else if (cp < 0x800) { r += static_cast<char>(0xc0 | (cp >> 6)); r += static_cast<char>(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { r += static_cast<char>(0xe0 | (cp >> 12)); r += static_cast<char>(0x80 | ((cp >> 6) & 63)); r += static_cast<char>(0x80 | (cp & 63)); }
  else { r += static_cast<char>(0xf0 | (cp >> 18)); r += static_cast<char>(0x80 | ((cp >> 12) & 63)); r += static_cast<char>(0x80 | ((cp >> 6) & 63)); r += static_cast<char>(0x80 | (cp & 63)); }
  return r;
}

static const std::vector<std::string>& fragments()
{
  static const std::vector<std::string> v = {
    "a", "the", "Hello World", " ", "\n", "\"", "\\", "\t", "%d", "\\n", "\"\"", "#", "# ", "#, fuzzy", "fuzzy",
    "msgid", "msgid \"", "msgstr", "msgstr \"x\"", "msgstr[0] \"", "msgid_plural", "msgctxt", "\n\n", "[1]", "'",
    "\\q", "\\z ", "\\%", "\\w", "\r", "\a", "\b", "\v", ";", "charset=", "Content-Type:", "Plural-Forms:", "0", "?", "trail\\",
    "\r\n", "  ", "\\\"", "/", ":", "~", "|", ","
  };
  return v;
}

size_t magnitude(Tape& t, size_t max)
{
  static const size_t base[] = {8, 10, 16, 20, 32, 50, 64, 100, 128, 256, 300, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536, 100000};
  size_t n = 0;
  while (n < sizeof(base) / sizeof(*base) && base[n] + 3 <= max) ++n;
  if (n == 0) return max;
  size_t r = base[t.range(0, n - 1)] + t.range(0, 6) - 3;
  pbt::heft += r;
  return r;
}

std::string gen_text(Tape& t, Chars chars)
{
  std::string s;
  if (t.chance(1)) { // a long one
    size_t size = magnitude(t, t.chance(32) ? 70000 : 9000);
    std::string p = t.chance(128) ? "x" : t.pick(fragments());
    if (chars != Chars::ascii && t.chance(100)) p += utf8(static_cast<uint32_t>(t.range(0xa0, 0xff)));
    while (s.size() + p.size() <= size) s += p;
    while (s.size() < size) s += 'z';
  }
  size_t n = t.length(24, 4);
  for (size_t i = 0; i < n; ++i) {
    unsigned k = static_cast<unsigned>(t.range(0, 9));
    if (k < 3) s += static_cast<char>('a' + t.range(0, 25));
    else if (k < 6) s += t.pick(fragments());
    else if (k == 6) s += static_cast<char>(t.range(32, 126));
    else if (k == 9 && s.size() < 4000 && t.chance(24)) { // blow up
      size_t reps = t.range(2, 40);
      std::string p = s.empty() ? std::string("x") : s;
      for (size_t r = 0; r < reps && s.size() < 6000; ++r) s += p;
    }
    else switch (chars) {
      case Chars::ascii: s += static_cast<char>(t.range(32, 126)); break;
      case Chars::latin1: s += utf8(static_cast<uint32_t>(t.range(0xa0, 0xff))); break;
      case Chars::utf8: {
        static const uint32_t lo[] = {0xa0, 0x100, 0x400, 0x3041, 0x4e00, 0x10000, 0x1f300};
        static const uint32_t hi[] = {0xff, 0x17f, 0x4ff, 0x3096, 0x9fa5, 0x100ff, 0x1f5ff};
        size_t b = t.range(0, 6);
        s += utf8(static_cast<uint32_t>(t.range(lo[b], hi[b])));
        break;
      }
      case Chars::bytes: { char c = static_cast<char>(t.range(0, 255)); s += c; break; }
    }
  }
  return s;
}

std::string gen_nonempty(Tape& t, Chars chars)
{
  std::string s = gen_text(t, chars);
  return s.empty() ? std::string("x") : s;
}

std::string gen_key(Tape& t)
{
  static const std::vector<std::string> v = {"a", "b", "c", "open", "exit", "%d file", "a\n", "", "A", "ä", "a ", "long key with several words", "\"", "\\"};
  return t.pick(v);
}

std::string tagged(const char* tag, unsigned n) { return std::string(tag) + std::to_string(n); }

const std::vector<Rule>& rules()
{
  static const std::vector<Rule> v = {
    { "nplurals=2; plural=(n != 1);", 2, [](int n) { return n != 1 ? 1u : 0u; } },
    { "nplurals=1; plural=0;", 1, [](int) { return 0u; } },
    { "nplurals=2; plural=(n > 1);", 2, [](int n) { return n > 1 ? 1u : 0u; } },
    { "nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;", 3, [](int n) { return n == 1 ? 0u : n >= 2 && n <= 4 ? 1u : 2u; } },
    { "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);", 3,
      [](int n) { int d = n % 10, h = n % 100; if (d == 1 && h != 11) return 0u; return d >= 2 && d <= 4 && (h < 10 || h >= 20) ? 1u : 2u; } },
    { "nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5", 6,
      [](int n) { int h = n % 100; if (n >= 0 && n <= 2) return static_cast<unsigned>(n); return h >= 3 && h <= 10 ? 3u : h >= 11 ? 4u : 5u; } },
  };
  return v;
}

Dump dump(tg::Dictionary& d)
{
  Dump r;
  d.foreach([&](const std::string& id, const std::vector<std::string>& v) { r[Key(std::nullopt, id)] = v; });
  d.foreach_ctxt([&](const std::string& c, const std::string& id, const std::vector<std::string>& v) { r[Key(c, id)] = v; });
  return r;
}

static std::string show(const Key& k)
{
  return (k.first ? quote(*k.first) + "|" : std::string()) + quote(k.second);
}

std::string show(const Dump& d)
{
  std::string r;
  for (auto& e : d) r += "  " + show(e.first) + " -> " + quote(e.second) + "\n";
  return r;
}

std::string show(const Message& m)
{
  std::string r = "  ";
  if (m.fuzzy) r += "fuzzy ";
  if (m.ctxt) r += quote(*m.ctxt) + "|";
  r += quote(m.id);
  if (m.plural) r += "/" + quote(m.id_plural);
  return r + " -> " + quote(m.str) + "\n";
}

std::string show(const Catalogue& c)
{
  std::string r = "catalogue header=" + std::to_string(c.header) + " charset=" + c.charset + " rule=" + std::to_string(c.rule) + "\n";
  for (auto& m : c.messages) r += show(m);
  return r;
}

std::string diff(const Dump& e, const Dump& a)
{
  for (auto& x : e) {
    auto i = a.find(x.first);
    if (i == a.end()) return "missing " + show(x.first) + ", expected " + quote(x.second);
    if (i->second != x.second) return show(x.first) + " is " + quote(i->second) + ", expected " + quote(x.second);
  }
  for (auto& x : a) if (!e.count(x.first)) return "unexpected " + show(x.first) + " -> " + quote(x.second);
  return "";
}

Dump expected(const Catalogue& c, bool use_fuzzy)
{
  Dump r;
  for (auto& m : c.messages)
    if (m.translated() && (use_fuzzy || !m.fuzzy)) r[Key(m.ctxt, m.id)] = m.str;
  return r;
}

void overlay(Dump& lower, const Dump& upper)
{
  for (auto& e : upper) lower[e.first] = e.second;
}

Catalogue gen_catalogue(Tape& t, const GenOptions& o)
{
  Catalogue c;
  c.header = !t.chance(20);
  if (c.header) {
    c.header_fuzzy = t.chance(40);
    c.rule = t.chance(60) ? -1 : static_cast<int>(t.range(0, rules().size() - 1));
    static const std::vector<std::string> extra = {"Project-Id-Version: x 1.0", "PO-Revision-Date: 2009-01-30 08:39+0100", "X-Generator: \"quoted\" \\ tool",
      "Language-Team: LANGUAGE <LL@li.org>", "MIME-Version: 1.0", "Content-Transfer-Encoding: 8bit", "Language: de", ""};
    size_t n = t.length(6, 2);
    for (size_t i = 0; i < n; ++i) c.extra_header.push_back(t.pick(extra));
    if (o.big && t.chance(2)) {
      size_t k = magnitude(t, 1100);
      if (t.chance(128)) c.extra_header.push_back("X-Long: " + std::string(k, 'l'));
      else for (size_t i = 0; i < k; ++i) c.extra_header.push_back(tagged("X-Field-", static_cast<unsigned>(i)) + ": value");
    }
  }
  size_t n = t.length(o.max_messages, o.mean_messages);
  std::set<Key> seen;
  unsigned serial = 0;
  for (size_t i = 0; i < n; ++i) {
    Message m;
    unsigned kind = static_cast<unsigned>(t.range(0, 7));
    if (o.contexts && (kind & 1)) m.ctxt = o.shared_keys ? gen_key(t) : t.chance(128) ? gen_key(t) : gen_text(t, o.id_chars);
    if (o.shared_keys) m.id = gen_key(t); else m.id = t.chance(64) ? gen_key(t) : gen_nonempty(t, o.id_chars);
    if (!c.messages.empty() && !o.shared_keys && t.chance(16)) { // nearly the same as another one
      const Message& other = t.pick(c.messages);
      m.ctxt = other.ctxt;
      m.id = other.id;
      if (t.chance(80)) m.id += std::string(magnitude(t, 600), '-');
      if (o.contexts && m.ctxt && t.chance(80)) *m.ctxt += t.chance(128) ? " " : "2";
      else if (t.chance(128) && !m.id.empty() && static_cast<unsigned char>(m.id[0]) < 128) {
        if (isalpha(static_cast<unsigned char>(m.id[0]))) m.id[0] ^= 32; else m.id = "." + m.id;
      }
      else m.id += t.chance(128) ? " " : "2";
    }
    if (m.id.empty() && !m.ctxt) m.id = "k";
    if (seen.count(Key(m.ctxt, m.id))) m.id += tagged("#", ++serial);
    if (!seen.insert(Key(m.ctxt, m.id)).second) continue;
    if (o.plurals && (kind & 6) == 6) {
      m.plural = true;
      m.id_plural = t.chance(128) ? m.id + "s" : gen_text(t, o.id_chars);
      size_t forms = c.rule >= 0 && !t.chance(64) ? rules()[static_cast<size_t>(c.rule)].n : t.range(1, 10);
      for (size_t f = 0; f < forms; ++f) m.str.push_back(t.chance(40) ? std::string() : gen_nonempty(t, o.str_chars));
    }
    else m.str.push_back(t.chance(24) ? std::string() : gen_nonempty(t, o.str_chars));
    if (o.fuzzy) m.fuzzy = t.chance(96);
    c.messages.push_back(m);
  }
  if (o.big && t.chance(2)) { // a big one
    size_t count = magnitude(t, t.chance(24) ? 1100 : 320);
    std::string prefix = t.chance(128) ? "filler " : std::string(magnitude(t, 600), '=');
    size_t every = t.range(1, 5), at = t.range(0, c.messages.size());
    std::vector<Message> more;
    for (size_t i = 0; i < count; ++i) {
      Message m;
      m.id = prefix + std::to_string(i);
      if (o.contexts && i % every == 1) { m.ctxt = i % 3 ? prefix : tagged("ctx", static_cast<unsigned>(i)); if (i % 3) m.id = std::to_string(i); }
      if (!seen.insert(Key(m.ctxt, m.id)).second) continue;
      if (o.plurals && i % 7 == every) {
        m.plural = true;
        m.id_plural = m.id + "s";
        size_t forms = c.rule >= 0 ? rules()[static_cast<size_t>(c.rule)].n : 2;
        for (size_t f = 0; f < forms; ++f) m.str.push_back(tagged("F", static_cast<unsigned>(i * 10 + f)));
      }
      else m.str.push_back(tagged("f", static_cast<unsigned>(i)));
      if (o.fuzzy) m.fuzzy = i % 5 == every;
      more.push_back(m);
    }
    c.messages.insert(c.messages.begin() + static_cast<std::ptrdiff_t>(at), more.begin(), more.end());
  }
  return c;
}

Layout Layout::random(Tape& t)
{
  Layout l(&t);
  l.wild = !t.chance(40);
  if (l.wild) {
    l.crlf = t.chance(64);
    l.bom = t.chance(32);
    l.final_newline = !t.chance(64);
  }
  return l;
}

// Writes keyword + string literal lines ("\n" line ends; finish() applies the real ones)
void write_string(std::string& out, Layout& l, const std::string& keyword, const std::string& text, bool raw_only)
{
  out += keyword;
  if (!l.chance(48)) out += ' ';
  else {
    static const char* const sep[] = {"", "  ", "\t", " \t ", "    "};
    out += sep[l.range(0, 4)];
  }
  auto line_end = [&] {
    out += '"';
    if (l.chance(16)) out += l.range(0, 1) ? "  " : "\t";
    out += '\n';
  };
  auto continue_line = [&] {
    line_end();
    while (l.chance(24)) out += l.range(0, 1) ? "\"\"\n" : " \"\" \n";
    if (l.chance(16)) out += l.range(0, 1) ? " " : " \t";
    out += '"';
  };
  out += '"';
  bool multi = l.wild ? l.chance(90) : text.find('\n') < text.size() - 1 && text.find('\n') != std::string::npos;
  unsigned split = 0;
  if (multi) {
    continue_line(); // msgid ""
    split = l.wild ? static_cast<unsigned>(l.range(0, 2)) : 1; // 0: only the first, 1: after newlines, 2: anywhere
  }
  for (size_t i = 0; i < text.size(); ++i) {
    unsigned char c = static_cast<unsigned char>(text[i]);
    if (raw_only && c != '\n' && c != '"' && c != '\\') { out += text[i]; continue; }
    switch (c) {
      case '\n': out += "\\n"; break;
      case '"': out += "\\\""; break;
      case '\\': {
        // an unrecognised escape stands for itself
        static const std::string known = "abvntr\"\\";
        if (l.wild && !raw_only && i + 1 < text.size() && static_cast<unsigned char>(text[i + 1]) >= ' ' && known.find(text[i + 1]) == std::string::npos && l.chance(128)) {
          out += '\\';
          out += text[++i];
        }
        else out += "\\\\";
        break;
      }
      case '\t': if (l.chance(80)) out += '\t'; else out += "\\t"; break;
      case '\a': if (l.chance(40)) out += '\a'; else out += "\\a"; break;
      case '\b': if (l.chance(40)) out += '\b'; else out += "\\b"; break;
      case '\v': if (l.chance(40)) out += '\v'; else out += "\\v"; break;
      case '\r': if (l.chance(40)) out += '\r'; else out += "\\r"; break;
      default: out += text[i];
    }
    if (i + 1 < text.size()) {
      if (split == 1 && c == '\n') continue_line();
      else if (split == 2 && l.chance(24)) continue_line();
    }
  }
  if (multi && l.chance(16)) continue_line();
  line_end();
}

std::string header_text(const Catalogue& c)
{
  std::string h;
  // the fields stand in any order
  size_t k = c.extra_header.size(), where = k / 2, rule_where = k % 2 ? k / 4 : where;
  for (size_t i = 0; i <= k; ++i) {
    if (i == rule_where && k % 2 && c.rule >= 0) h += std::string("Plural-Forms: ") + rules()[static_cast<size_t>(c.rule)].header + "\n";
    if (i == where && !c.charset.empty()) h += "Content-Type: text/plain; charset=" + c.charset + "\n";
    if (i == rule_where && k % 2 == 0 && c.rule >= 0) h += std::string("Plural-Forms: ") + rules()[static_cast<size_t>(c.rule)].header + "\n";
    if (i < c.extra_header.size()) h += c.extra_header[i] + "\n";
  }
  return h;
}

void write_separator(std::string& out, Layout& l)
{
  if (!l.wild) { out += '\n'; return; }
  size_t n = 1 + (l.chance(48) ? l.range(1, 3) : 0);
  for (size_t i = 0; i < n; ++i) {
    static const char* const sep[] = {"\n", "\n", "\n", " \n", "\t \n", "#\n", "# translator comment\n", "#\tx\n", "\f\n", " \v\n"};
    out += sep[l.range(0, 9)];
  }
  if (l.chance(1)) { // a long gap
    size_t k = magnitude(*l.t, l.chance(16) ? 70000 : 5000);
    static const char* const gap[] = {"\n", "\n", "#\n", " \n", "# comment\n"};
    size_t g = l.range(0, 5);
    if (g == 5) out += "# " + std::string(k, 'c') + "\n";
    else for (size_t i = 0; i < k; ++i) out += gap[g];
  }
}

void write_comments(std::string& out, Layout& l)
{
  if (!l.wild) return;
  static const std::vector<std::string> v = {
    "#: src/main.cpp:12", "# comment", "#", "#. extracted", "#, c-format", "#| msgid \"previous\"", "#~ msgid \"obsolete\"", "#~ msgstr \"veraltet\"",
    "#: fuzzy.cpp:1", "#. fuzzy", "# fuzzy", "#nospace", "#, no-c-format, range: 0..9", "#: msgid \"x\"", "#~| msgctxt \"\"", "##", "#\"", "#~ \"continued\\n\""
  };
  while (l.chance(90)) out += v[l.range(0, v.size() - 1)] + "\n";
  if (l.chance(10)) { out += "\n"; while (l.chance(90)) out += v[l.range(0, v.size() - 1)] + "\n"; }
}

void write_header(std::string& out, Layout& l, const Catalogue& c)
{
  write_comments(out, l);
  if (c.header_fuzzy) out += "#, fuzzy\n";
  write_string(out, l, "msgid", "");
  write_string(out, l, "msgstr", header_text(c));
}

void write_message(std::string& out, Layout& l, const Message& m)
{
  write_comments(out, l);
  if (m.fuzzy) {
    static const char* const flag[] = {"#, fuzzy\n", "#, c-format, fuzzy\n", "#, fuzzy, c-format\n", "#,fuzzy\n", "#, fuzzy\n#, c-format\n", "#, c-format\n#, fuzzy\n#: src/a.c:1\n", "#, fuzzy\n#| msgid \"old\"\n"};
    out += flag[l.range(0, 6)];
  }
  if (m.ctxt) write_string(out, l, "msgctxt", *m.ctxt);
  write_string(out, l, "msgid", m.id);
  if (m.plural) {
    write_string(out, l, "msgid_plural", m.id_plural);
    std::vector<size_t> order;
    for (size_t i = 0; i < m.str.size(); ++i) order.push_back(i);
    if (l.chance(40)) std::reverse(order.begin(), order.end());
    else if (l.chance(20) && order.size() > 1) std::swap(order[0], order[l.range(0, order.size() - 1)]);
    for (size_t k = 0; k < order.size(); ++k) {
      size_t i = order[k];
      // an empty form may be left out when a later index fixes the number of forms
      if (m.str[i].empty() && i + 1 < m.str.size() && order.size() > 1 && l.chance(64)) continue;
      write_string(out, l, "msgstr[" + std::to_string(i) + "]", m.str[i]);
    }
  }
  else write_string(out, l, "msgstr", m.str[0]);
}

std::string finish(std::string body, Layout& l)
{
  if (!l.final_newline && !body.empty() && body.back() == '\n') body.pop_back();
  std::string r;
  if (l.bom) r = "\xef\xbb\xbf";
  if (!l.crlf) return r + body;
  for (char c : body) {
    if (c == '\n') r += '\r';
    r += c;
  }
  return r;
}

std::string serialise(const Catalogue& c, Layout& l)
{
  std::string out;
  if (l.chance(24)) out += "\n";
  if (c.header) {
    write_header(out, l, c);
    write_separator(out, l);
  }
  for (size_t i = 0; i < c.messages.size(); ++i) {
    write_message(out, l, c.messages[i]);
    if (i + 1 < c.messages.size()) write_separator(out, l);
  }
  if (l.chance(64)) { write_separator(out, l); write_comments(out, l); }
  return finish(out, l);
}

std::string serialise(const Catalogue& c)
{
  Layout l(nullptr);
  return serialise(c, l);
}

void load(const std::string& name, const std::string& content, tg::Dictionary& d)
{
  std::istringstream in(content);
  tg::POParser::parse(name, in, d);
}

std::vector<std::string> MemFileSystem::open_directory(const std::string& pathname)
{
  ++files->listed;
  std::vector<std::string> r;
  auto i = files->dirs.find(pathname);
  if (i != files->dirs.end()) for (auto& f : i->second) r.push_back(f.first);
  return r;
}

std::unique_ptr<std::istream> MemFileSystem::open_file(const std::string& filename)
{
  ++files->opened;
  std::string::size_type p = filename.rfind('/');
  if (p == std::string::npos) return nullptr;
  auto i = files->dirs.find(filename.substr(0, p));
  if (i == files->dirs.end()) return nullptr;
  for (auto& f : i->second)
    if (f.first == filename.substr(p + 1)) return std::unique_ptr<std::istream>(new std::istringstream(f.second));
  return nullptr;
}

std::string lookup(const View& v, const Key& k)
{
  auto i = v.own->find(k);
  if (i != v.own->end() && !i->second.empty() && !i->second[0].empty()) return i->second[0];
  return v.fallback ? lookup(*v.fallback, k) : k.second;
}

std::string lookup_plural(const View& v, const Key& k, const std::string& plural, int n)
{
  auto i = v.own->find(k);
  if (i != v.own->end()) {
    unsigned f = v.rule ? v.rule(n) : 0;
    if (f < i->second.size() && !i->second[f].empty()) return i->second[f];
  }
  if (v.fallback) return lookup_plural(*v.fallback, k, plural, n);
  return n == 1 ? k.second : plural;
}

std::string compare_lookups(const tg::Dictionary& d, const View& v, const std::set<Key>& keys, const std::vector<int>& counts)
{
  for (auto& k : keys) {
    std::string e = lookup(v, k);
    std::string a = k.first ? d.translate_ctxt(*k.first, k.second) : d.translate(k.second);
    if (a != e) return "lookup of " + show(k) + " gives " + quote(a) + ", expected " + quote(e);
    for (int n : counts) {
      std::string pl = k.second + "(pl)";
      e = lookup_plural(v, k, pl, n);
      a = k.first ? d.translate_ctxt_plural(*k.first, k.second, pl, n) : d.translate_plural(k.second, pl, n);
      if (a != e) return "plural lookup of " + show(k) + " for " + std::to_string(n) + " gives " + quote(a) + ", expected " + quote(e);
    }
  }
  return "";
}

} // namespace model
