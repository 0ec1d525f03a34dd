// C07: translations arrive in the requested character set.
#include "charset.hpp"
#include "model.hpp"

#include <algorithm>

using namespace model;

namespace pbt {
const char* const property_id = "C07";
const char* const property_rule =
  "a catalogue of Unicode texts written in a random ASCII-compatible charset or Big5 (declared in any letter case, or missing/placeholder for "
  "UTF-8) and loaded into a dictionary of a random charset, directly or through a manager; expected bytes from own encoders or a one-shot iconv; "
  "non-trivial: file and dictionary charset differ and at least two translations contain non-ASCII characters";

namespace {

using Text = std::vector<uint32_t>;

std::string enc_utf8(const Text& s) { std::string r; for (uint32_t c : s) r += utf8(c); return r; }

// own encoders; false if not handled
bool own_encode(const std::string& cs, uint32_t c, std::string& r, bool& possible)
{
  r.clear();
  possible = true;
  if (cs == "UTF-8") { r = utf8(c); return true; }
  if (cs == "ISO-8859-1" || cs == "ASCII") {
    possible = c < (cs == "ASCII" ? 0x80u : 0x100u);
    if (possible) r = std::string(1, static_cast<char>(c));
    return true;
  }
  if (cs == "UTF-16LE" || cs == "UTF-16BE") {
    auto unit = [&](uint32_t u) {
      char hi = static_cast<char>(u >> 8), lo = static_cast<char>(u & 255);
      if (cs == "UTF-16LE") { r += lo; r += hi; } else { r += hi; r += lo; }
    };
    if (c < 0x10000) unit(c); else { c -= 0x10000; unit(0xd800 | (c >> 10)); unit(0xdc00 | (c & 0x3ff)); }
    return true;
  }
  if (cs == "UTF-32LE" || cs == "UTF-32BE") {
    for (int i = 0; i < 4; ++i) r += static_cast<char>(c >> (cs == "UTF-32LE" ? 8 * i : 24 - 8 * i));
    return true;
  }
  return false;
}

// one character in a stateless ASCII-compatible charset or Big5; false if it has none
bool encode_char(const std::string& cs, uint32_t c, std::string& r)
{
  bool possible;
  if (own_encode(cs, c, r, possible)) return possible;
  static std::map<std::pair<std::string, uint32_t>, std::string> cache;
  auto k = std::make_pair(cs, c);
  auto i = cache.find(k);
  if (i == cache.end()) {
    std::string b, back;
    if (iconv_once(cs, "UTF-8", utf8(c), b) != Conv::ok || iconv_once("UTF-8", cs, b, back) != Conv::ok || back != utf8(c)) b.clear();
    i = cache.emplace(k, b).first;
  }
  r = i->second;
  return !r.empty();
}

const std::vector<std::string>& file_charsets()
{
  static const std::vector<std::string> v = {"UTF-8", "ISO-8859-1", "BIG5", "ISO-8859-2", "ISO-8859-5", "ISO-8859-15", "KOI8-R", "WINDOWS-1251", "WINDOWS-1252", "EUC-JP", "EUC-KR", "GB2312", "TIS-620", "ISO-8859-7", "EUC-TW", "ASCII", "BIG5"};
  return v;
}

const std::vector<std::string>& dict_charsets()
{
  static const std::vector<std::string> v = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-16", "UTF-32", "UTF-7", "EUC-JP", "SHIFT_JIS", "ISO-2022-JP", "ISO-2022-KR", "BIG5", "KOI8-R", "WINDOWS-1252", "GB18030", "ASCII", "ISO-8859-1//TRANSLIT", "GBK", "UTF-32BE", "ISO-8859-15", "ISO-8859-2", "EUC-KR", "WINDOWS-1251", "GB2312"};
  return v;
}

uint32_t gen_char(Tape& t, const std::string& cs)
{
  static const char ascii[] = "abcdefghijklmnop XYZ0123456789%\"\\\n\t#:;=[]_-/'";
  if (!t.chance(150)) return static_cast<unsigned char>(ascii[t.range(0, sizeof ascii - 2)]);
  uint32_t c = 'a';
  static const uint32_t lo[] = {0xa0, 0x100, 0x370, 0x400, 0xe01, 0x3041, 0x4e00, 0x4e00, 0xac00, 0x2010, 0x1f600};
  static const uint32_t hi[] = {0xff, 0x17f, 0x3ff, 0x4ff, 0xe5b, 0x30f6, 0x4fff, 0x9fa5, 0xd7a3, 0x2122, 0x1f64f};
  if (cs == "BIG5" && t.chance(100)) { // characters with special second bytes
    static const std::vector<uint32_t> sp = {0x529f /* a4 5c */, 0x8a31, 0x84cb, 0x95b1, 0x9910, 0x5a09, 0x73ee, 0x5695, 0x4e00, 0xff5c, 0x4e59, 0x51e1 };
    return t.pick(sp);
  }
  for (int tries = 0; tries < 6; ++tries) {
    size_t b;
    if (cs == "ISO-8859-1") b = 0;
    else if (cs == "BIG5" || cs == "EUC-JP" || cs == "GB2312" || cs == "EUC-TW") b = t.range(5, 7);
    else if (cs == "EUC-KR") b = t.range(5, 8);
    else if (cs == "TIS-620") b = 4;
    else if (cs == "KOI8-R" || cs == "WINDOWS-1251" || cs == "ISO-8859-5") b = 3;
    else if (cs == "ISO-8859-7") b = 2;
    else b = t.range(0, 10);
    c = static_cast<uint32_t>(t.range(lo[b], hi[b]));
    std::string r;
    if (encode_char(cs, c, r)) return c;
  }
  return 'q';
}

Text gen(Tape& t, const std::string& cs)
{
  Text s;
  size_t n = t.length(20, 5);
  for (size_t i = 0; i < n; ++i) {
    uint32_t c = gen_char(t, cs);
    std::string r;
    if (encode_char(cs, c, r)) s.push_back(c);
  }
  return s;
}

std::string encode(const std::string& cs, const Text& s)
{
  std::string r, b;
  for (uint32_t c : s) { encode_char(cs, c, b); r += b; }
  return r;
}

void write(std::string& out, Tape& t, const std::string& keyword, const std::string& cs, const Text& s)
{
  out += keyword + " \"";
  if (t.chance(40)) out += "\"\n\"";
  std::string b;
  for (size_t i = 0; i < s.size(); ++i) {
    uint32_t c = s[i];
    if (c == '\n') out += "\\n";
    else if (c == '\t' && t.chance(128)) out += "\\t";
    else if (c == '"') out += "\\\"";
    else if (c == '\\') out += "\\\\";
    else { encode_char(cs, c, b); out += b; }
    if (t.chance(8)) out += "\"\n\"";
  }
  out += "\"\n";
}

// what the text must be in the dictionary; false if it cannot be represented
bool deliver(const std::string& from, const std::string& to, const Text& s, std::string& r)
{
  if (from == to) { r = encode(from, s); return true; }
  r.clear();
  std::string b;
  bool possible = true, own = true;
  for (uint32_t c : s) {
    if (!own_encode(to, c, b, possible)) { own = false; break; }
    if (!possible) return false;
    r += b;
  }
  if (own && !s.empty()) return true;
  // the platform's direct converter counts (glibc's GB2312 to GBK cannot do kana)
  return iconv_once(to, from, encode(from, s), r) == Conv::ok;
}

struct Entry { bool has_ctxt = false, plural = false; Text ctxt, id, id_plural; std::vector<Text> str; };

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  std::string from = t.pick(file_charsets()), to = t.pick(dict_charsets());
  if (t.chance(16)) to = from;
  std::string declared = t.chance(80) ? mixed_case(from, t.range(0, 65535)) : from;
  bool has_charset = true;
  if (from == "UTF-8" && t.chance(60)) { static const std::vector<std::string> none = {"", "CHARSET", "charset"}; declared = t.pick(none); has_charset = !declared.empty(); c.label("no charset declared"); }
  std::string dict_charset = t.chance(60) ? mixed_case(to, t.range(0, 65535)) : to;

  std::string file;
  if (t.chance(24)) { file += "\xef\xbb\xbf"; c.label("byte order mark"); }
  if (t.chance(64)) file += "# comment\n";
  if (t.chance(3)) { // the header comes late
    size_t k = magnitude(t, t.chance(64) ? 70000 : 9000);
    if (t.chance(128)) file += "# " + std::string(k, '-') + "\n";
    else { const char* line = t.chance(128) ? "\n" : "# line\n"; for (size_t i = 0; i < k; ++i) file += line; }
  }
  if (t.chance(64)) file += "#, fuzzy\n";
  file += "msgid \"\"\nmsgstr \"\"\n";
  std::vector<std::string> fields; // in any order
  if (t.chance(100)) fields.push_back("\"Project-Id-Version: x\\n\"\n");
  if (t.chance(3)) { size_t k = magnitude(t, 2100); std::string f; for (size_t i = 0; i < k; ++i) f += "\"X-Field: value\\n\"\n"; fields.push_back(f); }
  if (has_charset) {
    bool broken = t.chance(40);
    fields.push_back("\"Content-Type: text/plain; " + std::string(broken ? "\"\n\"" : "") + "charset=" + declared + "\\n\"\n");
  }
  const Rule& rule = rules()[t.chance(60) ? t.range(0, rules().size() - 1) : 0];
  fields.push_back(std::string("\"Plural-Forms:") + rule.header + "\\n\"\n");
  if (t.chance(100)) fields.push_back("\"X-Other: charset=KOI8-R\\n\"\n");
  if (t.chance(40)) fields.push_back("\"Content-Transfer-Encoding: 8bit\\n\"\n");
  if (t.chance(128)) for (size_t i = fields.size(); i > 1; --i) std::swap(fields[i - 1], fields[t.range(0, i - 1)]);
  for (auto& f : fields) file += f;
  size_t n = 1 + (t.chance(3) ? magnitude(t, 130) : t.length(10, 4));
  std::vector<Entry> entries;
  std::set<Key> seen;
  for (size_t i = 0; i < n; ++i) {
    Entry e;
    e.id = gen(t, from);
    if (t.chance(80)) { e.has_ctxt = true; e.ctxt = gen(t, from); }
    if (e.id.empty() && !e.has_ctxt) e.id = {'e'};
    while (!seen.insert(Key(e.has_ctxt ? std::optional<std::string>(encode(from, e.ctxt)) : std::nullopt, encode(from, e.id))).second) e.id.push_back('x');
    e.plural = t.chance(70);
    if (e.plural) { e.id_plural = gen(t, from); for (unsigned k = 0; k < rule.n; ++k) e.str.push_back(gen(t, from)); }
    else e.str.push_back(gen(t, from));
    entries.push_back(e);
    file += "\n";
    if (e.has_ctxt) write(file, t, "msgctxt", from, e.ctxt);
    write(file, t, "msgid", from, e.id);
    if (e.plural) {
      write(file, t, "msgid_plural", from, e.id_plural);
      for (size_t k = 0; k < rule.n; ++k) write(file, t, "msgstr[" + std::to_string(k) + "]", from, e.str[k]);
    }
    else write(file, t, "msgstr", from, e.str[0]);
  }
  if (t.chance(64)) { std::string r; for (char ch : file) { if (ch == '\n') r += '\r'; r += ch; } file = r; c.label("crlf"); }
  c.log << declared << " -> " << dict_charset << " file: " << quote(file) << "\n";
  c.feed(file); c.feed(dict_charset);

  tg::Dictionary own(dict_charset);
  std::unique_ptr<tg::DictionaryManager> m;
  tg::Dictionary* d = &own;
  if (t.chance(80)) {
    c.label("manager");
    auto files = std::make_shared<Files>();
    files->dirs["d"].emplace_back("zh_TW.po", file);
    bool ctor = t.chance(128);
    m.reset(ctor ? new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)), dict_charset)
                 : new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files))));
    m->add_directory("d");
    if (!ctor) m->set_charset(dict_charset);
    m->set_language(tg::Language::from_spec("zh", "TW"));
    d = &m->get_dictionary();
  }
  else load("c.po", file, own);
  c.check(d->get_charset() == dict_charset, "dictionary-charset", [&] { return d->get_charset(); });

  Dump a = dump(*d);
  unsigned interesting = 0;
  std::set<Key> known;
  for (auto& e : entries) {
    Key k(e.has_ctxt ? std::optional<std::string>(encode(from, e.ctxt)) : std::nullopt, encode(from, e.id));
    known.insert(k);
    bool any = false;
    for (auto& s : e.str) any |= !s.empty();
    if (!any) { c.check(!a.count(k), "untranslated-stored", [&] { return quote(k.second); }); continue; }
    c.check(a.count(k), "key-not-found", [&] { return quote(k.second) + " among\n" + show(a); });
    const std::vector<std::string>& v = a[k];
    c.check(v.size() == e.str.size(), "number-of-forms");
    for (size_t i = 0; i < v.size(); ++i) {
      std::string x;
      if (!deliver(from, to, e.str[i], x)) {
        c.label("unrepresentable");
        std::string part, unflushed;
        if (iconv_once(to, from, encode(from, e.str[i]), part, &unflushed) == Conv::bad_input)
          c.check(v[i] == part || v[i] == unflushed, "unrepresentable-text", [&] { return from + " -> " + to + ": " + quote(enc_utf8(e.str[i])) + " (UTF-8) arrived as " + quote(v[i]) + ", expected the part " + quote(part); });
        continue;
      }
      // an empty form has no text to convert
      if (e.str[i].empty()) { c.check(v[i].empty(), "empty-form-got-text", [&] { return quote(v[i]); }); continue; }
      c.check(v[i] == x, "text", [&] { return from + " -> " + to + ": " + quote(enc_utf8(e.str[i])) + " (UTF-8) arrived as " + quote(v[i]) + ", expected " + quote(x); });
      for (uint32_t ch : e.str[i]) if (ch >= 0x80) { ++interesting; break; }
      if (x.empty()) continue; // transliterated to nothing: like untranslated
      if (i == 0) {
        std::string got = e.has_ctxt ? d->translate_ctxt(*k.first, k.second) : d->translate(k.second);
        c.check(got == x, "lookup", [&] { return quote(got); });
      }
      else {
        int count = -1;
        for (int y = 0; y < 130 && count < 0; ++y) if (rule.f(y) == i) count = y;
        if (count < 0) continue; // a form that is for fractions only
        std::string got = e.has_ctxt ? d->translate_ctxt_plural(*k.first, k.second, "p", count) : d->translate_plural(k.second, "p", count);
        c.check(got == x, "plural-lookup", [&] { return quote(got); });
      }
    }
  }
  for (auto& x : a) c.check(known.count(x.first), "unknown-key", [&] { return quote(x.first.second); });
  c.label("file " + from);
  c.label("dict " + to);
  c.nontrivial = from != to && interesting >= 2;
}

static std::string one(const std::string& charset, const std::string& dict, const std::string& text)
{
  tg::Dictionary d(dict);
  load("c.po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + charset + "\\n\"\n\nmsgid \"k\"\nmsgstr \"" + text + "\"\n\nmsgid \"l\"\nmsgstr \"L\"\n", d);
  return d.translate("l") == "L" || dict.compare(0, 3, "UTF") == 0 ? d.translate("k") : "(next entry lost)";
}

std::vector<Example> examples()
{
  return {
    {"every Big5 character", [](Case& c) {
      for (unsigned hi = 0xa1; hi <= 0xf9; ++hi) for (unsigned lo = 0x40; lo <= 0xfe; ++lo) {
        std::string b{static_cast<char>(hi), static_cast<char>(lo)}, u;
        if (iconv_once("UTF-8", "BIG5", b, u) != Conv::ok) continue;
        std::string x = one("Big5", "UTF-8", "a" + b + "\\n" + b);
        c.check(x == "a" + u + "\n" + u, "text", [&] { return quote(b) + " gives " + quote(x); });
      }
    }},
    {"every byte of ISO-8859-1", [](Case& c) {
      for (uint32_t b = 1; b < 256; ++b) {
        if (b == '\n' || b == '"' || b == '\\') continue;
        std::string x = one("iso-8859-1", "UTF-8", std::string("x") + static_cast<char>(b));
        c.check(x == "x" + utf8(b), "text", [&] { return quote(x); });
        std::string y = one("ISO-8859-1", "iso-8859-1", std::string("x") + static_cast<char>(b));
        c.check(y == std::string("x") + static_cast<char>(b), "pass-through", [&] { return quote(y); });
      }
    }},
    {"every byte of ISO-8859-1 in every plural form", [](Case& c) {
      for (auto& r : rules()) for (bool ctxt : {false, true}) {
        std::string file = std::string("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\"Plural-Forms:") + r.header + "\\n\"\n";
        for (uint32_t b = 0xa0; b < 256; ++b) for (unsigned k = 0; k < r.n; ++k) {
          if (k == 0) file += std::string("\n") + (ctxt ? "msgctxt \"c\"\n" : "") + "msgid \"" + std::to_string(b) + "\"\nmsgid_plural \"s\"\n";
          file += "msgstr[" + std::to_string(k) + "] \"" + std::string(1 + (b % 3 == 2 ? k : 0), static_cast<char>(b)) + "\"\n";
        }
        tg::Dictionary d("UTF-8");
        load("c.po", file, d);
        Dump a = dump(d);
        for (uint32_t b = 0xa0; b < 256; ++b) for (unsigned k = 0; k < r.n; ++k) {
          std::string e, &x = a[Key(ctxt ? std::optional<std::string>("c") : std::nullopt, std::to_string(b))].at(k);
          for (unsigned i = 0; i < 1 + (b % 3 == 2 ? k : 0); ++i) e += utf8(b);
          c.check(x == e, "text", [&] { return "form " + std::to_string(k) + " of " + std::to_string(r.n) + ": " + quote(x) + " instead of " + quote(e); });
        }
      }
    }},
    {"every byte under every name of a charset", [](Case& c) {
      for (const char* name : {"ASCII", "US-ASCII", "ANSI_X3.4-1968", "us", "UTF-8", "UTF8", "ISO-8859-1", "ISO8859-1", "ISO_8859-1", "ISO_8859-1:1987", "LATIN1", "L1", "8859_1", "ISO-8859-2", "LATIN2", "ISO-8859-5", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-13", "ISO-8859-15", "LATIN-9", "KOI8-R", "KOI8-U", "KOI8-T",
                               "CP1250", "CP1251", "CP1252", "CP1253", "CP1257", "WINDOWS-1252", "CP437", "CP850", "IBM850", "MACINTOSH", "TIS-620", "EUC-JP", "EUCJP", "EUC-KR", "EUC-TW", "EUC-CN", "GB2312", "BIG5", "ARMSCII-8", "GEORGIAN-PS", "VISCII", "CP866", "PT154", "LATIN10", "ISO-8859-11"})
        for (const char* declared : {"", "x"})
          for (const char* dict : {"UTF-8", "UTF-16LE", "ISO-8859-1", "ASCII//TRANSLIT", "CP1252", "UTF8", "LATIN1", "ISO8859-1"}) {
            std::string cs = *declared ? mixed_case(name, 0x5a5a) : std::string(name);
            if (!iconv_available(dict, upper(cs)) && upper(cs) != dict) continue;
            std::string f = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + cs + "\\n\"\n\n";
            Dump e, un;
            for (unsigned b = 0x80; b < 256; ++b) for (int two = 0; two < 2; ++two) {
              std::string ch = two ? std::string(2, static_cast<char>(b)) : std::string(1, static_cast<char>(b)), id = "m" + std::to_string(b) + (two ? "x" : ""), s = "x" + ch + "yz", a, u;
              f += "msgid \"" + id + "\"\nmsgstr \"" + s + "\"\n\n";
              if (upper(cs) == dict) a = u = s;
              else if (iconv_once(dict, upper(cs), s, a, &u) == Conv::ok) u = a;
              e[Key(std::nullopt, id)] = {a};
              un[Key(std::nullopt, id)] = {u};
            }
            tg::Dictionary d(dict);
            load("c.po", f, d);
            Dump got = dump(d);
            c.check(got.size() == e.size(), "text", [&] { return std::to_string(got.size()) + " messages"; });
            for (auto& m : e) c.check(got[m.first] == m.second || got[m.first] == un[m.first], "text", [&] { return cs + " -> " + dict + ", " + m.first.second + ": " + quote(got[m.first].at(0)) + " instead of " + quote(m.second[0]); });
          }
      LogCapture::reset();
    }},
    {"default charset", [](Case& c) {
      for (const char* cs : {"", "CHARSET", "charset", "utf-8"}) c.check(one(cs, "ISO-8859-1", "\xc3\xa4") == "\xe4", "text", [&] { return cs; });
    }},
    {"every length in several pairs of charsets", [](Case& c) {
      const std::vector<std::string> units = {"a", "\xc3\xa4", "x\xc3\xb6", "\xe5\x8a\x9f", "\xe8\xa8\xb1z", "\xe3\x81\x82", "\xd0\x96", "\xe2\x82\xac"};
      const std::vector<std::pair<std::string, std::string>> pairs = {{"ISO-8859-1", "UTF-8"}, {"UTF-8", "ISO-8859-1"}, {"BIG5", "UTF-8"}, {"UTF-8", "BIG5"}, {"BIG5", "BIG5"}, {"UTF-8", "UTF-16"}, {"UTF-8", "ISO-2022-JP"}, {"UTF-8", "UTF-7"}, {"EUC-JP", "SHIFT_JIS"}, {"KOI8-R", "UTF-32"}, {"UTF-8", "ASCII//TRANSLIT"}, {"UTF-8", "GB18030"}};
      for (auto& p : pairs) {
        std::vector<std::string> in;
        for (auto& u : units) { std::string s; if (iconv_once(p.first, "UTF-8", u, s) == Conv::ok && (p.first != "EUC-JP" || u.size() > 1)) in.push_back(s); }
        std::string f = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=" + p.first + "\\n\"\n\n";
        Dump e, unflushed;
        for (unsigned n = 1; n < 2050; n += n < 330 || (n > 1000 && n < 1050) || n > 2030 ? 1 : 19) for (unsigned k = 0; k < in.size(); k += n < 80 ? 1 : 3) {
          std::string s, id = "m" + std::to_string(n) + "." + std::to_string(k), a, b, ua, ub;
          for (unsigned i = 0; i < n; ++i) s += in[(k + i * (n % 3)) % in.size()];
          Conv r = p.first == p.second ? Conv::ok : iconv_once(p.second, p.first, s, a, &ua);
          Conv q = p.first == p.second ? Conv::ok : iconv_once(p.second, p.first, s + "\n" + in[k], b, &ub);
          if (p.first == p.second) { a = s; b = s + "\n" + in[k]; }
          f += "msgid \"" + id + "\"\nmsgstr \"" + s + "\"\n\n";
          f += "msgctxt \"" + s + "\"\nmsgid \"" + id + "\"\nmsgid_plural \"x\"\nmsgstr[0] \"" + s + "\"\nmsgstr[1] \"" + s + "\\n\"\n\"" + in[k] + "\"\n\n";
          e[Key(std::nullopt, id)] = {a};
          e[Key(s, id)] = {a, b};
          unflushed[Key(std::nullopt, id)] = {r == Conv::ok ? a : ua};
          unflushed[Key(s, id)] = {r == Conv::ok ? a : ua, q == Conv::ok ? b : ub};
        }
        tg::Dictionary d(p.second);
        load("c.po", f, d);
        Dump got = dump(d);
        c.check(got.size() == e.size(), "text", [&] { return std::to_string(got.size()) + " messages"; });
        for (auto& m : e) {
          auto& g = got[m.first];
          c.check(g.size() == m.second.size(), "text", [&] { return quote(m.first.second); });
          for (size_t i = 0; i < g.size(); ++i) c.check(g[i] == m.second[i] || g[i] == unflushed[m.first][i], "text", [&] { return p.first + " -> " + p.second + ", " + m.first.second + ": " + quote(g[i]) + " instead of " + quote(m.second[i]); });
        }
      }
    }},
    {"unrepresentable texts in any number at any place", [](Case& c) {
      for (unsigned n = 1; n < 300; n += n < 40 ? 1 : 17) {
        std::string f = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
        Dump e;
        for (unsigned i = 0; i < n; ++i) {
          std::string s(i, 'x'), id = "m" + std::to_string(i), good = "\xc3\xa4" + std::to_string(i);
          f += "msgid \"bad" + id + "\"\nmsgstr \"" + s + "\xe2\x82\xacrest\"\n\n";
          if (i % 3 == 0 || n % 2) { f += "msgid \"" + id + "\"\nmsgid_plural \"s\"\nmsgstr[0] \"" + good + "\"\nmsgstr[1] \"\xe2\x82\xac\"\nmsgstr[2] \"" + good + "\xc3\xbc\"\n\n"; e[Key(std::nullopt, id)] = {"\xe4" + std::to_string(i), "", "\xe4" + std::to_string(i) + "\xfc"}; }
          if (i) e[Key(std::nullopt, "bad" + id)] = {s};
        }
        tg::Dictionary d("ISO-8859-1");
        load("c.po", f, d);
        Dump a = dump(d);
        a.erase(Key(std::nullopt, "badm0"));
        c.check(a == e, "text", [&] { return diff(e, a); });
      }
    }},
  };
}
} // namespace pbt
