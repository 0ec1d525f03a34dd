// C08: a charset converter treats every string on its own.
#include "charset.hpp"
#include "model.hpp"
#include "tinygettext/iconv.hpp"

#include <algorithm>
#include <stdexcept>

using namespace model;

namespace pbt {
const char* const property_id = "C08";
const char* const property_rule =
  "a random history of charset selections (available or not, any letter case) and conversions (valid text, truncated or invalid text, raw "
  "bytes, long text) on one converter; each conversion compared with a fresh one-shot iconv of that string alone; "
  "non-trivial: at least two selections, one conversion between different charsets after an earlier conversion or failure, with changed output";

namespace {

const std::vector<std::string>& charsets()
{
  static const std::vector<std::string> v = {
    "UTF-8", "ISO-8859-1", "ISO-8859-15", "ASCII", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-32LE", "UCS-2", "UCS-4", "UTF-7", "BIG5", "EUC-JP", "SHIFT_JIS", "ISO-2022-JP",
    "ISO-2022-KR", "EUC-KR", "GBK", "GB18030", "KOI8-R", "WINDOWS-1251", "CP1252", "ISO-2022-CN", "EUC-TW", "UTF8", "ASCII//TRANSLIT", "ISO-8859-1//TRANSLIT", "IBM930", "MAC-CYRILLIC", "TIS-620", "BIG5-HKSCS"
  };
  return v;
}

// glibc's encoder for ISO-2022-CN writes a superfluous SO when it has to be resumed after E2BIG, so
// that what it gives depends on the size of the buffer offered to it: it is only converted from.
bool usable_target(const std::string& s)
{
  return s != "ISO-2022-CN";
}

bool stateful(const std::string& s)
{
  return s.compare(0, 8, "ISO-2022") == 0 || s == "UTF-7" || s == "IBM930" || s == "UTF-16" || s == "UTF-32" || s == "UCS-2" || s == "UCS-4" || s == "BIG5-HKSCS";
}

std::string gen_input(Case& c, const std::string& from)
{
  Tape& t = c.t;
  size_t mode = t.range(0, 7);
  if (mode == 7) { // raw bytes
    c.label("raw");
    std::string s;
    size_t n = t.length(40, 8);
    for (size_t i = 0; i < n; ++i) s += static_cast<char>(t.byte());
    return s;
  }
  std::string u = gen_text(t, mode & 1 ? Chars::utf8 : mode & 2 ? Chars::latin1 : Chars::ascii), s;
  if (t.chance(6)) { std::string p = u + "x"; while (u.size() < 30000) u += p; c.label("long"); }
  if (t.chance(40)) { // typical expanding input: alternating scripts
    size_t n = t.length(30, 6);
    for (size_t i = 0; i < n; ++i) u += (i & 1) ? "a" : utf8(static_cast<uint32_t>(t.range(0x3041, 0x3096)));
  }
  if (t.chance(24)) { // characters converters have their own ideas about
    static const std::vector<std::string> special = {"\xef\xbb\xbf", std::string(1, '\0'), "\xc2\xad", "\xe2\x80\x8b", "\xcc\x88", "\xef\xbf\xbd", "\xef\xbf\xbe", "\r\n", "\x1b", "\x0e", "\x0f", "\x1a", "\x7f", "~", "\\", "+", "\xc2\x80", "\xc2\xa5", "\xe2\x80\xbe", "\xf3\xa0\x81\xa5", "\xe2\x80\xa8"};
    size_t p = t.chance(160) ? 0 : t.chance(128) ? u.size() : t.range(0, u.size());
    u.insert(p, t.pick(special));
    c.label("special character");
  }
  iconv_once(from, "UTF-8", u, s); // keeps the representable beginning
  size_t unit = from.compare(0, 6, "UTF-16") == 0 || from == "UCS-2" ? 2 : from.compare(0, 6, "UTF-32") == 0 || from == "UCS-4" ? 4 : 0;
  if (unit && s.size() % unit == 0 && t.chance(160)) { // byte order marks of either kind, or none
    size_t k = t.range(0, 3);
    if (k & 1) for (size_t i = 0; i + unit <= s.size(); i += unit) std::reverse(s.begin() + static_cast<long>(i), s.begin() + static_cast<long>(i + unit));
    if (k & 2 && s.size() >= unit) s.erase(0, unit);
    c.label("byte order");
  }
  if (mode >= 5 && !s.empty()) {
    c.label("damaged");
    if (mode == 5) s.resize(t.range(0, s.size() - 1));
    else { size_t at = t.range(0, s.size() - 1); s[at] = static_cast<char>(t.byte()); }
  }
  return s;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  std::unique_ptr<tg::IConv> conv;
  std::string from, to;
  enum { unset, good, failed } state = unset;
  std::string good_from, good_to;
  unsigned selections = 0, changed = 0, conversions = 0, trouble = 0;
  size_t n = 2 + t.length(24, 8);
  for (size_t i = 0; i < n; ++i) {
    if (i == 0 || t.chance(70)) {
      std::string f = t.pick(charsets()), o = t.pick(charsets());
      if (f.find("//") != std::string::npos) f = f.substr(0, f.find("//"));
      if (!usable_target(o)) o = "ISO-2022-JP";
      if (t.chance(40)) {
        static const std::vector<std::string> bad = {"NOPE-1", "UTF-8X", "charset", "ISO-8859-99", "??", "latin 1"};
        (t.chance(128) ? f : o) = t.pick(bad);
      }
      if (t.chance(30)) o = f; // text is left alone then, whatever the charset
      if (t.chance(30) && !from.empty()) { f = from; o = to; }
      std::string fs = t.chance(60) ? mixed_case(f, t.range(0, 65535)) : f, os = t.chance(60) ? mixed_case(o, t.range(0, 65535)) : o;
      bool same = upper(fs) == upper(os), avail = iconv_available(upper(os), upper(fs));
      bool construct = !conv || t.chance(20);
      bool threw = false;
      c.log << (construct ? "construct " : "set_charsets ") << fs << " -> " << os << (avail ? "" : " (unavailable)") << "\n";
      try {
        if (construct) { conv.reset(); if (t.chance(60)) { conv.reset(new tg::IConv()); conv->set_charsets(fs, os); } else conv.reset(new tg::IConv(fs, os)); }
        else conv->set_charsets(fs, os);
      }
      catch (const std::exception& e) { threw = true; }
      ++selections;
      from = upper(fs); to = upper(os);
      if (!same) c.check(threw == !avail, threw ? "available-charset-refused" : "unavailable-charset-accepted", [&] { return fs + " -> " + os; });
      if (threw) { state = failed; ++trouble; c.label("unavailable"); }
      else { state = good; }
      if (!conv) { conv.reset(new tg::IConv()); state = unset; }
      continue;
    }
    std::string in = gen_input(c, state == good ? from : std::string("UTF-8"));
    c.log << "convert " << (in.size() > 200 ? quote(in.substr(0, 200)) + "... " + std::to_string(in.size()) : quote(in)) << "\n";
    std::string out = conv->convert(in);
    if (state == failed) { ++conversions; continue; } // only has to survive
    if (state == unset || (from == to && !iconv_available(to, from))) {
      c.check(out == in, "not-passed-through", [&] { return quote(out); });
      continue;
    }
    std::string e, unflushed;
    Conv r = iconv_once(to, from, in, e, &unflushed);
    if (from == to) {
      c.check(out == in, "identical-charsets-changed-the-text", [&] { return quote(out); });
      continue;
    }
    bool ok = out == e || (in.empty() && out.empty()) || (r == Conv::bad_input && stateful(to) && out == unflushed);
    c.check(ok, r == Conv::ok ? "conversion" : "conversion-of-bad-input", [&] {
      size_t k = 0;
      while (k < out.size() && k < e.size() && out[k] == e[k]) ++k;
      return from + " -> " + to + ": got " + std::to_string(out.size()) + " bytes, expected " + std::to_string(e.size()) + ", differing at " + std::to_string(k) + ": " +
             quote(out.substr(k, 60)) + " / " + quote(e.substr(k, 60)); });
    if (conversions + trouble > 0 && out != in && !out.empty()) ++changed;
    ++conversions;
    if (r != Conv::ok) { ++trouble; c.label("bad input"); }
    else if (!in.empty()) c.label("good input");
  }
  c.feed(c.log.str());
  c.nontrivial = selections >= 2 && changed > 0;
}

std::vector<Example> examples()
{
  return {
    {"every pair of charsets, a plain text and a failing one", [](Case& c) {
      for (auto& f : charsets()) for (auto& o : charsets()) {
        if (f.find("//") != std::string::npos) continue;
        if (f != o && (!iconv_available(o, f) || !usable_target(o))) continue;
        tg::IConv conv(f, o);
        static const std::vector<std::string> texts = {"", "a", "Hello World\n", "\xc3\xa4", "\xe6\xbc\xa2\xe5\xad\x97", "\xe3\x81\x82\xe3\x81\x84", "\xd0\x90\xd0\xb1", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xac\x81", "\xc2\xa9" "a\xc2\xa9"};
        for (auto& u : texts) for (const std::string& tail : {std::string(), std::string("\xff"), std::string("\x1b$")}) {
          std::string in, e, un;
          iconv_once(f, "UTF-8", u, in);
          in += tail;
          std::string out = conv.convert(in);
          if (f == o) { c.check(out == in, "identical"); continue; }
          Conv r = iconv_once(o, f, in, e, &un);
          c.check(out == e || (in.empty() && out.empty()) || (r == Conv::bad_input && stateful(o) && out == un), "conversion", [&] { return f + " -> " + o + " of " + quote(in) + " gives " + quote(out) + ", expected " + quote(e); });
        }
      }
    }},
    {"long texts", [](Case& c) {
      for (const char* o : {"UTF-16", "UTF-32", "UTF-7", "ISO-2022-JP", "ISO-8859-1", "ASCII//TRANSLIT"})
        for (size_t n : {1u, 2u, 3u, 15u, 16u, 17u, 255u, 256u, 1000u, 100000u})
          for (const char* unit : {"a", "\xc3\xa4", "\xe3\x81\x82" "a"}) {
            std::string in, e, un;
            for (size_t i = 0; i < n; ++i) in += unit;
            tg::IConv conv("UTF-8", o);
            for (int k = 0; k < 2; ++k) {
              std::string out = conv.convert(in);
              Conv r = iconv_once(o, "UTF-8", in, e, &un);
              c.check(out == e || (r != Conv::ok && out == un), "conversion", [&] { return std::string(o) + " x" + std::to_string(n); });
            }
          }
    }},
    {"special characters at the beginning, inside and at the end", [](Case& c) {
      const std::vector<std::string> special = {"\xef\xbb\xbf", std::string(1, '\0'), "\xc2\xad", "\xe2\x80\x8b", "\xcc\x88", "\xef\xbf\xbd", "\xef\xbf\xbe", "\r\n", "\n", "\t", " ", "\x1b", "\x0e", "\x0f", "\x1a", "\x7f", "~", "\\", "+", "\xc2\x80", "\xc2\xa5", "\xe2\x80\xbe", "\xf3\xa0\x81\xa5", "\xe2\x80\xa8"};
      for (auto& f : charsets()) {
        if (f.find("//") != std::string::npos) continue;
        for (auto& o : charsets()) {
          if (!usable_target(o) || f == o || !iconv_available(o, f)) continue;
          tg::IConv conv(f, o);
          for (auto& x : special) for (auto& u : {x, x + "ab", "ab" + x, "a" + x + "b", x + x + "a"}) {
            std::string in, e, un;
            iconv_once(f, "UTF-8", u, in);
            for (int k = 0; k < 3; ++k) {
              if (k == 1) in = u; // its bytes
              if (k == 2) in += in;
              Conv r = iconv_once(o, f, in, e, &un);
              std::string out = conv.convert(in);
              c.check(out == e || (in.empty() && out.empty()) || (r != Conv::ok && stateful(o) && out == un), "conversion", [&] { return f + " -> " + o + ": " + quote(in) + " gives " + quote(out) + " instead of " + quote(e); });
            }
          }
        }
      }
      LogCapture::reset();
    }},
    {"very long texts", [](Case& c) {
      for (const char* o : {"UTF-16LE", "ISO-8859-1", "UTF-32"})
        for (size_t n : {1000000u, 3000000u, 9000000u}) {
          const std::string in = std::string(n, 'x') + "\xc3\xa4";
          std::string e;
          if (iconv_once(o, "UTF-8", in, e, nullptr) != Conv::ok) continue;
          tg::IConv conv("UTF-8", o);
          std::string out = conv.convert(in);
          c.check(out == e, "conversion", [&] { return std::string(o) + " " + std::to_string(n) + " bytes"; });
          c.check(conv.convert(in + "\xff").size() >= e.size() - 8, "conversion", [&] { return std::string(o) + " " + std::to_string(n) + " bytes and a bad one"; });
        }
      LogCapture::reset();
    }},
    {"failed selection", [](Case& c) {
      tg::IConv conv("UTF-8", "ISO-8859-1");
      for (int i = 0; i < 3; ++i) {
        bool threw = false;
        try { conv.set_charsets("UTF-8", "NOPE"); } catch (const std::exception& e) { threw = *e.what() != 0; }
        c.check(threw, "no exception");
        conv.convert("x");
      }
      conv.set_charsets("UTF-8", "ISO-8859-1");
      c.check(conv.convert("\xc3\xa4") == "\xe4", "conversion");
      bool threw = false;
      try { tg::IConv other("NOPE", "UTF-8"); } catch (const std::exception&) { threw = true; }
      c.check(threw, "no exception");
    }},
    {"every length of text", [](Case& c) {
      for (const char* o : {"UTF-16", "UTF-8", "ISO-8859-1", "ISO-2022-JP", "UTF-7", "GB18030", "ASCII//TRANSLIT", "UTF-32LE"}) {
        tg::IConv conv("UTF-8", o);
        for (const char* unit : {"a", "\xc3\xa4", "\xe3\x81\x82" "a", "\xf0\x9f\x98\x80"}) {
          std::string in;
          auto same = [&] {
            std::string e, un, out = conv.convert(in);
            Conv r = std::string(o) == "UTF-8" ? (e = in, Conv::ok) : iconv_once(o, "UTF-8", in, e, &un);
            c.check(out == e || (r != Conv::ok && out == un), "conversion", [&] { return std::string(o) + " of " + std::to_string(in.size()) + " bytes"; });
          };
          for (unsigned n = 0; n < 700; ++n) { in += unit; same(); }
          for (unsigned p = 12; p < 18; ++p) for (int k = -5; k < 6; ++k) { size_t n = static_cast<size_t>((1 << p) + k); std::string u = unit; in.clear(); while (in.size() < n) in += u; in.resize(n - n % u.size()); same(); in += "b"; same(); }
        }
      }
    }},
    {"every number of conversions, failures and selections", [](Case& c) {
      tg::IConv conv("UTF-8", "ISO-8859-1"), idle("UTF-8", "UTF-16BE");
      const std::vector<std::string> to = {"ISO-8859-1", "UTF-16LE", "ISO-2022-JP", "UTF-8", "BIG5", "KOI8-R"};
      for (unsigned n = 0; n < 1500; ++n) {
        unsigned k = 0;
        auto same = [&](const std::string& in) {
          std::string e, un, out = conv.convert(in);
          Conv r = to[k] == "UTF-8" ? (e = in, Conv::ok) : iconv_once(to[k], "UTF-8", in, e, &un);
          c.check(out == e || (r != Conv::ok && out == un), "conversion", [&] { return to[k] + " in round " + std::to_string(n) + " of " + quote(in) + " gives " + quote(out); });
        };
        same("\xc3\xa4" + std::to_string(n));
        same(n % 2 ? "a\xff" : "\xe2\x82\xac");
        same("\xc3\xb6");
        if (n % 3 == 0) { k = n / 3 % to.size(); conv.set_charsets("utf-8", to[k]); same("\xe3\x81\x82z"); same("\xd0\x96\xe4\xb8\x80"); }
        if (n % 5 == 0) { try { conv.set_charsets("UTF-8", "NOPE" + std::to_string(n)); c.check(false, "no exception"); } catch (const std::exception&) {} }
        if (n % 3 == 0 || n % 5 == 0) { k = 0; conv.set_charsets("UTF-8", to[0]); same("a\xc3\xa4"); }
      }
      c.check(idle.convert("a") == std::string("\0a", 2), "conversion");
    }},
    {"every byte and every pair of bytes from every charset", [](Case& c) {
      for (auto& f : charsets()) {
        if (f.find("//") != std::string::npos || f == "UTF-8" || !iconv_available("UTF-8", f)) continue;
        tg::IConv conv(f, "UTF-8");
        for (unsigned a = 0; a < 256; ++a) for (unsigned b = 0; b < 257; b += a < 0x80 && a > 0x20 ? 64 : 3) {
          std::string in(1, static_cast<char>(a)), e, un;
          if (b < 256) in += static_cast<char>(b);
          std::string out = conv.convert(in);
          Conv r = iconv_once("UTF-8", f, in, e, &un);
          c.check(out == e || (r == Conv::bad_input && out == un), "conversion", [&] { return f + " " + quote(in) + " gives " + quote(out) + ", expected " + quote(e); });
        }
      }
    }},
  };
}
} // namespace pbt
