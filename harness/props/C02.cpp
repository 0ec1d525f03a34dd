// C02: any byte sequence as a PO file is handled without crash, hang or corruption.
#include "model.hpp"

#include <streambuf>

using namespace model;

namespace pbt {
const char* const property_id = "C02";
const char* const property_rule =
  "raw bytes, soups of PO tokens, or serialised catalogues with byte, line and block mutations, loaded twice (whole and in chunks of "
  "varying size) into dictionaries of several charsets and once more with a well-formed entry appended after a blank line; "
  "non-trivial: the input has at least 8 bytes and made the loader store a message or report a diagnostic";

namespace {

// delivers the content in pieces, with single characters and large blocks mixed
class ChunkBuf : public std::streambuf {
public:
  ChunkBuf(const std::string& s, uint64_t seed) : m_s(s), m_pos(0), m_seed(seed) {}
protected:
  int_type underflow() override
  {
    if (m_pos >= m_s.size()) return traits_type::eof();
    m_seed = m_seed * 6364136223846793005ull + 1442695040888963407ull;
    size_t n = 1 + (m_seed >> 33) % ((m_seed >> 60) < 8 ? 3 : 200);
    n = std::min(n, m_s.size() - m_pos);
    char* p = const_cast<char*>(m_s.data()) + m_pos;
    setg(p, p, p + n);
    m_pos += n;
    return traits_type::to_int_type(*p);
  }
private:
  std::string m_s;
  size_t m_pos;
  uint64_t m_seed;
};

const std::vector<std::string>& tokens()
{
  static const std::vector<std::string> v = {
    "msgid \"", "msgstr \"", "\"\n", "\n", "\"", "\\", "msgid", "msgstr", "msgctxt \"", "msgid_plural \"", "msgstr[0] \"", "msgstr[1] \"",
    "msgstr[9] \"", "msgstr[10] \"", "msgstr[4294967295] \"", "msgstr[4294967296] \"", "msgstr[2147483647] \"", "msgstr[18446744073709551615] \"", "msgstr[18446744073709551616] \"", "msgstr[-1] \"",
    "msgstr[1000000] \"", "msgstr[ 1] \"", "msgstr[00] \"", "msgstr[0x1] \"", "msgstr[+1] \"", "msgstr[] \"", "msgstr[\xb2] \"", "msgstr[0]]", "msgstr[a]", "msgstr[", "msgstr[0", "msgstr[0]", "msgctxt", "msgid_plural", "#", "#,", "#, fuzzy\n", "# c\n", "#~ ", " ", "\t", "\r", "\r\n",
    "\n\n", "msgid \"\"\n", "msgstr \"\"\n", "\"Content-Type: text/plain; charset=", "UTF-8", "BIG5", "ISO-8859-1", "big5", "EUC-JP", "UTF-16", "UTF-32", "UTF-7", "ISO-2022-JP", "nonsense",
    "\\n\"\n", "\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n", "\"Plural-Forms:", "nplurals=", "Content-Type:", "a", "bc", "\xef\xbb\xbf", "\xa4\x5c", "\x81", "\xfe", "\xff", "\xc3\xa4",
    "\\\"", "\\n", "\\t", "\\x41", "\\0", "%d", "\v", "\f", "msgid \"a\"\nmsgstr \"b\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n", "msgctxt \"x\"\nmsgid \"\"\nmsgstr \"y\"\n"
  };
  return v;
}

std::string mutate(Tape& t, std::string s)
{
  size_t n = 1 + t.length(8, 2);
  for (size_t k = 0; k < n && !s.empty(); ++k) {
    size_t at = t.range(0, s.size() - 1);
    switch (t.range(0, 10)) {
      case 10: // a run
        if (t.chance(24)) { static const std::vector<std::string> run = {"x", " ", "\xa4", "\\n", "9", "\t", "\\\"", "-"}; const std::string& r = t.pick(run); std::string all; for (size_t i = magnitude(t, t.chance(40) ? 70000 : 5000); i; --i) all += r; s.insert(at, all); }
        else s.insert(at, 1 + t.length(40, 6), static_cast<char>(t.range(32, 126)));
        break;
      case 9: { // another index
        size_t p = s.find("msgstr[", at);
        if (p == std::string::npos) p = s.find("msgstr[");
        size_t e = p == std::string::npos ? p : s.find(']', p);
        static const std::vector<std::string> idx = {"4294967295", "4294967296", "4294967294", "18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "-1", "65535", "256", "255", "10", "99", "", " 0", "0 ", "00", ":", "/", "\xb2", "1e9", "0x0"};
        if (e != std::string::npos) s.replace(p + 7, e - p - 7, t.pick(idx));
        break;
      }
      case 0: s[at] = static_cast<char>(t.byte()); break;
      case 1: s.erase(at, 1 + t.length(20, 3)); break;
      case 2: s.insert(at, t.pick(tokens())); break;
      case 3: s.resize(at); break;
      case 4: { size_t len = t.range(1, 60); s.insert(at, s.substr(t.range(0, s.size() - 1), len)); break; }
      case 5: { // drop the line
        size_t b = s.rfind('\n', at), e = s.find('\n', at);
        b = b == std::string::npos ? 0 : b + 1;
        if (e == std::string::npos) e = s.size(); else ++e;
        if (b < e) s.erase(b, e - b);
        break;
      }
      case 6: { size_t p = s.find('"', at); if (p != std::string::npos) s.erase(p, 1); break; }
      case 7: { size_t p = s.find('\n', at); if (p != std::string::npos) s.erase(p, 1); break; }
      case 8: s.insert(at, 1, static_cast<char>(t.range(0, 31))); break;
    }
  }
  return s;
}

std::string gen_content(Case& c)
{
  Tape& t = c.t;
  std::string s;
  switch (t.range(0, 3)) {
    case 0: {
      c.label("raw");
      size_t n = t.range(0, 400);
      for (size_t i = 0; i < n && !t.exhausted(); ++i) s += static_cast<char>(t.byte());
      break;
    }
    case 1: {
      c.label("soup");
      size_t n = t.length(80, 20);
      for (size_t i = 0; i < n; ++i) {
        if (t.chance(20)) s += static_cast<char>(t.byte());
        else s += t.pick(tokens());
      }
      break;
    }
    default: {
      c.label("mutated");
      GenOptions o;
      o.fuzzy = true;
      o.max_messages = 6;
      Catalogue cat = gen_catalogue(t, o);
      static const std::vector<std::string> cs = {"UTF-8", "UTF-8", "", "ISO-8859-1", "BIG5", "big5", "EUC-JP", "UTF-16", "nonsense", "ISO-2022-JP", "UTF-7", "CHARSET", "UTF-32"};
      cat.charset = t.pick(cs);
      Layout l = Layout::random(t);
      s = mutate(t, serialise(cat, l));
    }
  }
  if (t.chance(3) && s.size() < 3000) { std::string p = s; size_t reps = t.range(2, 60); for (size_t i = 0; i < reps && s.size() < 60000; ++i) s += p; c.label("repeated"); }
  if (t.chance(1) && t.chance(60)) { // very often the same
    std::string p;
    for (size_t i = t.range(1, 5); i; --i) p += t.pick(tokens());
    if (t.chance(128)) p += "\n";
    size_t reps = magnitude(t, t.chance(64) ? 100000 : 9000), at = t.range(0, s.size());
    std::string all;
    for (size_t i = 0; i < reps && all.size() < 1000000; ++i) all += p;
    s.insert(at, all);
    c.label("very long");
  }
  return s;
}

// may the content name a character set?
bool names_charset(const std::string& s)
{
  static const std::string w = "charset=";
  size_t i = 0;
  for (char ch : s) if (i < w.size() && ch == w[i]) ++i;
  return i == w.size();
}

struct Outcome {
  Dump d;
  bool threw = false;
  std::string what;
  unsigned long warning = 0, error = 0;
  bool rule = false;
  unsigned n = 0;
  bool operator==(const Outcome& o) const { return d == o.d && threw == o.threw && what == o.what && warning == o.warning && error == o.error && rule == o.rule && n == o.n; }
};

Outcome run(std::istream& in, const std::string& charset, bool use_fuzzy)
{
  Outcome o;
  LogCapture::reset();
  tg::Dictionary d(charset);
  try { tg::POParser::parse("f.po", in, d, use_fuzzy); }
  catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
  o.d = dump(d);
  o.warning = LogCapture::warning;
  o.error = LogCapture::error;
  o.rule = static_cast<bool>(d.get_plural_forms());
  o.n = d.get_plural_forms().get_nplural();
  static const int ns[] = {-1, 0, 1, 2, 7, 1000};
  for (auto& e : o.d) {
    volatile size_t sum = 0;
    for (int n : ns)
      sum = sum + (e.first.first ? d.translate_ctxt_plural(*e.first.first, e.first.second, "p", n) : d.translate_plural(e.first.second, "p", n)).size();
    sum = sum + (e.first.first ? d.translate_ctxt(*e.first.first, e.first.second) : d.translate(e.first.second)).size();
  }
  return o;
}

void verify(Case& c, const std::string& s, const std::string& charset, bool use_fuzzy, uint64_t chunk)
{
  std::istringstream whole(s);
  Outcome a = run(whole, charset, use_fuzzy);
  if (a.threw) {
    c.label("charset-exception");
    c.check(names_charset(s), "exception-without-charset", [&] { return a.what; });
    c.check(!a.what.empty(), "exception-without-text");
  }
  ChunkBuf buf(s, chunk);
  std::istream pieces(&buf);
  Outcome b = run(pieces, charset, use_fuzzy);
  c.check(a == b, "not-deterministic", [&] { return "whole:\n" + show(a.d) + a.what + "\npieces:\n" + show(b.d) + b.what + "\nfile: " + quote(s); });
  if (!a.d.empty()) c.label("stored");
  if (a.error) c.label("error-reported");
  c.nontrivial = s.size() >= 8 && (!a.d.empty() || a.warning + a.error > 0);

  // what follows after a blank line must still arrive
  if (!a.threw && s.find("resync") == std::string::npos) {
    bool named = names_charset(s);
    std::string tail = "\n\n";
    if (named) tail += "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\n";
    tail += "msgid \"resync-id\"\nmsgstr \"resync-text\"\n\nmsgctxt \"resync-c\"\nmsgid \"resync-id\"\nmsgid_plural \"p\"\nmsgstr[0] \"zero\"\nmsgstr[1] \"one\"";
    std::istringstream in(s + tail);
    tg::Dictionary d(charset == "UTF-16" ? "UTF-8" : charset);
    bool threw = false;
    try { tg::POParser::parse("f.po", in, d, use_fuzzy); } catch (const std::exception&) { threw = true; }
    if (!threw || charset != "UTF-16") {
      c.check(!threw, "exception-with-tail");
      Dump e = dump(d);
      c.check(e[Key(std::nullopt, "resync-id")] == std::vector<std::string>{"resync-text"} &&
              e[Key("resync-c", "resync-id")] == std::vector<std::string>{"zero", "one"}, "not-resynchronised",
              [&] { return "loaded:\n" + show(e) + "file: " + quote(s + tail); });
    }
  }
}

} // namespace

void property(Case& c)
{
  static const std::vector<std::string> cs = {"UTF-8", "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16", "EUC-JP"};
  std::string charset = c.t.pick(cs);
  bool fuzzy = !c.t.chance(64);
  uint64_t chunk = c.t.range(0, 255);
  std::string s = gen_content(c);
  c.log << "charset " << charset << " fuzzy " << fuzzy << " file: " << quote(s) << "\n";
  c.feed(charset); c.feed(fuzzy ? "f" : ""); c.feed(s);
  verify(c, s, charset, fuzzy, chunk);
}

std::vector<Example> examples()
{
  return {
    {"files without final newline", [](Case& c) {
      for (const char* s : {"msgid \"a\"\nmsgstr \"\"\n\"foo\"", "msgid \"a\"\nmsgstr \"b\"\n\n# c", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"b\"", "\"", "msgid", "msgid \"", "#",
                            "msgid \"a\"", "msgid \"a\"\n\"b\"", "msgctxt \"a\"", "junk", "msgid \"a\\", "msgid \"\\", "msgstr[", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0"})
        for (const char* cs : {"UTF-8", "ISO-8859-1"}) verify(c, s, cs, true, 3);
    }},
    {"a hundred thousand times the same", [](Case& c) {
      for (const char* p : {"junk\n\n", "#\n", "# x\n", "\n", "\"x\"\n", "msgid \"\"\nmsgstr \"\"\n\n", "msgid \"a\"\n\n", "msgid \"a\"\nmsgstr \"b\"\n\n", "#, fuzzy\n", "msgid \"a\n", "\\", "\"", "msgstr[0] \"a\"\n", "msgctxt \"x\"\n"}) {
        std::string s;
        for (int i = 0; i < 100000; ++i) s += p;
        verify(c, s, "UTF-8", true, 1);
        verify(c, "msgid \"start\"\nmsgstr \"s\"\n" + s, "UTF-8", true, 1);
        verify(c, "msgid \"start\"\nmsgid_plural \"x\"\nmsgstr[0] \"s\"\n" + s, "UTF-8", true, 1);
      }
    }},
    {"everything long", [](Case& c) {
      const std::vector<std::string> pieces = {"# \x01\n", "#, \x01fuzzy\n", "msgid \"\"\nmsgstr \"Project-Id-Version: \x01\\n\"\n\"X-\x01: y\\n\"\n\"Content-Type: text/plain; charset=\x01\\n\"\n\"Plural-Forms: nplurals=2; plural=\x01;\\n\"\n\n",
                                               "msgctxt \"\x01\"\n", "msgid \"\x01\"\n\"\x01\"\n", "msgid_plural \"\x01\"\n", "msgstr[0] \"\x01\"\n", "msgstr[1]\x01\"b\"\n", "msgstr\x01\n", "\x01\n"};
      for (size_t n : {100, 127, 128, 255, 256, 257, 300, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 65535, 65536, 70000})
        for (const char* fill : {"x", " ", "9", "\xa4"})
          for (size_t at = 0; at < pieces.size(); ++at) {
            std::string s;
            unsigned holes = 0, hole = 0;
            for (char ch : pieces[at]) holes += ch == 1;
            for (unsigned k = 0; k < holes; ++k) {
              s.clear();
              hole = 0;
              for (size_t i = 0; i < pieces.size(); ++i)
                for (char ch : pieces[i]) {
                  if (ch != 1) s += ch;
                  else if (i == at && hole++ == k) for (size_t j = 0; j < n; ++j) s += fill;
                  else s += i == 2 ? "UTF-8" : i == 7 ? " " : "a";
                }
              verify(c, s, "UTF-8", true, 1);
            }
          }
    }},
    {"every prefix of a file", [](Case& c) {
      std::string f = "\xef\xbb\xbf# x\nmsgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=BIG5\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n#, fuzzy\nmsgctxt \"c\"\nmsgid \"a\\\"\"\n\"b\"\nmsgid_plural \"\xa4\\\"\nmsgstr[0] \"\xa4\x5c\"\nmsgstr[1] \"\\\\\"\n\nmsgid \"z\"\nmsgstr \"\\n\"\n";
      for (size_t i = 0; i <= f.size(); ++i) verify(c, f.substr(0, i), "UTF-8", true, i);
      for (size_t i = 0; i < f.size(); ++i) { std::string g = f; g.erase(i, 1); verify(c, g, "UTF-8", true, i); }
    }},
    {"every string of up to four structural bytes", [](Case& c) {
      const std::string al("\"\\\n# m\0", 7);
      for (size_t n = 0; n <= 4; ++n) {
        size_t total = 1;
        for (size_t i = 0; i < n; ++i) total *= al.size();
        for (size_t k = 0; k < total; ++k) {
          std::string s;
          for (size_t i = 0, v = k; i < n; ++i, v /= al.size()) s += al[v % al.size()];
          verify(c, s, "UTF-8", true, 1);
          verify(c, "msgid \"a\"\nmsgstr " + s, "UTF-8", true, 1);
        }
      }
    }},
  };
}
} // namespace pbt
