// C23: work and memory stay in proportion to the input.
//
// Built without sanitizers; the library is compiled so that every edge of its control
// flow calls __sanitizer_cov_trace_pc_guard, and the memory functions and operator new
// are replaced here. Work is what these count: it does not depend on the machine.
#include "langs.hpp"
#include "model.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <malloc.h>
#include <new>

#include <unistd.h>

namespace {

bool counting = false;
uint64_t edges = 0, moved = 0, allocated = 0;
int64_t live = 0, peak = 0;

void* take(size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  if (counting) {
    size_t k = malloc_usable_size(p);
    allocated += k;
    live += static_cast<int64_t>(k);
    peak = std::max(peak, live);
  }
  return p;
}

void give(void* p)
{
  if (counting && p) live -= static_cast<int64_t>(malloc_usable_size(p));
  free(p);
}

} // namespace

void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++edges; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
// the engine is linked without libFuzzer here
int LLVMFuzzerRunDriver(int*, char***, int (*)(const uint8_t*, size_t)) { return 2; }
void __sanitizer_set_death_callback(void (*)(void)) {}

void* counted_memcpy(void* __restrict d, const void* __restrict s, size_t n) asm("memcpy");
void* counted_memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
  if (counting) moved += n;
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}

void* counted_memmove(void* d, const void* s, size_t n) asm("memmove");
void* counted_memmove(void* d, const void* s, size_t n)
{
  if (counting) moved += n;
  void* r = d;
  if (d <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  }
  else {
    char* a = static_cast<char*>(d);
    const char* b = static_cast<const char*>(s);
    while (n >= 8) {
      n -= 8;
      uint64_t v;
      asm volatile("movq (%1), %0" : "=r"(v) : "r"(b + n) : "memory");
      asm volatile("movq %0, (%1)" : : "r"(v), "r"(a + n) : "memory");
    }
    while (n > 0) {
      --n;
      asm volatile("movb (%0), %%al; movb %%al, (%1)" : : "r"(b + n), "r"(a + n) : "al", "memory");
    }
  }
  return r;
}

void* counted_memset(void* d, int c, size_t n) asm("memset");
void* counted_memset(void* d, int c, size_t n)
{
  if (counting) moved += n;
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

int counted_memcmp(const void* x, const void* y, size_t n) asm("memcmp");
int counted_memcmp(const void* x, const void* y, size_t n)
{
  const unsigned char* a = static_cast<const unsigned char*>(x);
  const unsigned char* b = static_cast<const unsigned char*>(y);
  size_t i = 0;
  int r = 0;
  for (; i < n; ++i) {
    asm volatile("" : : : "memory");
    if (a[i] != b[i]) { r = a[i] < b[i] ? -1 : 1; break; }
  }
  if (counting) moved += i;
  return r;
}

int counted_bcmp(const void* x, const void* y, size_t n) asm("bcmp");
int counted_bcmp(const void* x, const void* y, size_t n) { return counted_memcmp(x, y, n); }

void* counted_memchr(const void* x, int c, size_t n) asm("memchr");
void* counted_memchr(const void* x, int c, size_t n)
{
  const unsigned char* a = static_cast<const unsigned char*>(x);
  size_t i = 0;
  for (; i < n; ++i) {
    asm volatile("" : : : "memory");
    if (a[i] == static_cast<unsigned char>(c)) break;
  }
  if (counting) moved += i;
  return i < n ? const_cast<unsigned char*>(a + i) : nullptr;
}

size_t counted_strlen(const char* s) asm("strlen");
size_t counted_strlen(const char* s)
{
  size_t i = 0;
  for (; s[i]; ++i) asm volatile("" : : : "memory");
  if (counting) moved += i;
  return i;
}
}

using namespace model;
using tinygettext::Dictionary;
using tinygettext::DictionaryManager;
using tinygettext::IConv;
using tinygettext::Language;
using tinygettext::Log;
using tinygettext::PluralForms;
using tinygettext::POParser;
namespace fs = std::filesystem;

namespace pbt {
const char* const property_id = "C23";
const char* const property_rule =
  "any stretch of a generated PO file (entries, lines, pieces of texts, comments, header fields, damage), of a text to convert, of a language "
  "specification, of a plural rule, or the files of a directory, directories of a search path and messages of a dictionary are repeated n and 16 n "
  "times; work (edges run in the library, bytes moved, compared and allocated) and peak memory must not grow more than in proportion, lookups not at "
  "all; non-trivial: the repeated stretch has an effect on the work and is not given up for its many reports";

namespace {

// --- measuring -----------------------------------------------------------------------
uint64_t reports = 0, report_bytes = 0;

void on_report(const std::string& s)
{
  ++reports;
  report_bytes += s.size();
}

// without receivers nothing may be spent on reports
void receivers(bool on)
{
  Log::set_log_info_callback(on ? &on_report : nullptr);
  Log::set_log_warning_callback(on ? &on_report : nullptr);
  Log::set_log_error_callback(on ? &on_report : nullptr);
}

struct Cost {
  double work = 0;
  double memory = 0;     // peak
  double reports = 0;    // what the reports made may cost
  double bytes = 0;      // of reports
};

template<class F> Cost measure(F f)
{
  reports = report_bytes = 0;
  edges = moved = allocated = 0;
  live = peak = 0;
  counting = true;
  f();
  counting = false;
  Cost c;
  c.work = static_cast<double>(edges) + static_cast<double>(moved + allocated) / 16;
  c.memory = static_cast<double>(peak);
  c.bytes = static_cast<double>(report_bytes);
  c.reports = static_cast<double>(reports) * 400 + static_cast<double>(report_bytes) * 8;
  return c;
}

std::string show(const Cost& c)
{
  std::ostringstream o;
  o << "work " << static_cast<uint64_t>(c.work) << ", peak memory " << static_cast<uint64_t>(c.memory) << ", reports " << static_cast<uint64_t>(c.bytes) << " bytes";
  return o.str();
}

const unsigned TIMES = 16;
const bool trace = getenv("C23_TRACE") != nullptr;

// `a` for an input of size sa, `b` for one of size sb
void proportional(Case& c, const std::string& what, const Cost& a, double sa, const Cost& b, double sb)
{
  // whatever is not repeated only makes the factor smaller; a sort may cost a logarithmic factor
  double factor = TIMES;
  auto text = [&] {
    std::ostringstream o;
    o << what << ": size " << sa << ": " << show(a) << "; size " << sb << ": " << show(b) << " (" << (b.work / a.work) << " times the work, "
      << (b.memory / a.memory) << " times the memory for " << factor << " times the repetitions)";
    return o.str();
  };
  double more = std::max(0.0, b.reports - a.reports * factor);
  if (trace && (b.work - more) / (a.work * factor) > 1.35) fprintf(stderr, "%s", c.log.str().c_str());
  if (trace) fprintf(stderr, "RATIO %s work %.2f mem %.2f\n", what.c_str(), (b.work - more) / (a.work * factor), (b.memory - more) / (a.memory * factor));
  c.check(b.work <= 3.5 * factor * a.work + more, "work", text);
  c.check(b.memory <= 3 * factor * (a.memory + 500) + more, "memory", text);
}

// the same whatever the size
void constant(Case& c, const std::string& what, const Cost& a, double sa, const Cost& b, double sb)
{
  auto text = [&] {
    std::ostringstream o;
    o << what << ": among " << sa << ": " << show(a) << "; among " << sb << ": " << show(b);
    return o.str();
  };
  double more = std::max(0.0, b.reports - a.reports);
  if (trace) fprintf(stderr, "CONST %s work %.2f\n", what.c_str(), (b.work - more) / a.work);
  c.check(b.work <= 2.5 * a.work + 200 + more, "work", text);
  c.check(b.memory <= 4 * (a.memory + 500) + more, "memory", text);
}

// --- pumped texts ----------------------------------------------------------------------
// pieces in a row; the range [from, to) is repeated; "\x01" in a piece is replaced by six
// digits that differ from one repetition to the next
struct Pumped {
  std::vector<std::string> pieces;
  size_t from = 0, to = 0;

  static std::string fill(const std::string& s, size_t n)
  {
    std::string r;
    for (char ch : s)
      if (ch == '\x01') { char b[16]; snprintf(b, sizeof b, "%06zu", n % 1000000); r += b; }
      else r += ch;
    return r;
  }
  std::string make(size_t times) const
  {
    std::string r;
    for (size_t i = 0; i < from; ++i) r += fill(pieces[i], 0);
    for (size_t n = 0; n < times; ++n)
      for (size_t i = from; i < to; ++i) r += fill(pieces[i], n + 1);
    for (size_t i = to; i < pieces.size(); ++i) r += fill(pieces[i], 999999);
    return r;
  }
  size_t unit() const
  {
    size_t n = 0;
    for (size_t i = from; i < to; ++i) n += fill(pieces[i], 0).size();
    return n;
  }
  std::string show() const
  {
    std::string r;
    for (size_t i = 0; i <= pieces.size(); ++i) {
      if (i == to) r += " )* ";
      if (i == from) r += " ( ";
      if (i < pieces.size()) r += quote(pieces[i]) + " ";
    }
    return r;
  }
  void choose(Tape& t)
  {
    from = t.range(0, pieces.size() - 1);
    to = from + 1 + t.range(0, t.chance(128) ? 2 : pieces.size() - from - 1);
    to = std::min(to, pieces.size());
  }
  // repetitions of the smaller of the two sizes
  size_t times(Tape& t, size_t limit) const
  {
    static const std::vector<size_t> v = {64, 100, 32, 128, 200, 256, 16, 400};
    size_t n = t.pick(v), u = std::max<size_t>(1, unit());
    while (n * u < 1500 && n < 2000) n *= 2;
    while (n > 8 && n * u * TIMES > limit) n /= 2;
    return n;
  }
};

std::string text_piece(Tape& t)
{
  static const std::vector<std::string> v = {"x", "some text ", "\x01", "\\n", "\\\"", "\\\\", "\xc3\xa4", "\xe2\x82\xac", "\\t", "%d ", "\xa4\xa4", "\xff", "\\q", "a longer piece of text, "};
  return t.pick(v);
}

void gen_string(Tape& t, std::vector<std::string>& p)
{
  p.push_back("\"");
  size_t n = t.range(0, 3);
  for (size_t i = 0; i < n; ++i) p.push_back(text_piece(t));
  p.push_back("\"\n");
  size_t lines = t.length(3, 1);
  for (size_t l = 0; l < lines; ++l) {
    if (t.chance(40)) p.push_back(t.chance(128) ? " " : "\t");
    p.push_back("\"");
    size_t k = t.range(0, 2);
    for (size_t i = 0; i < k; ++i) p.push_back(text_piece(t));
    p.push_back("\"\n");
  }
}

void gen_damage(Tape& t, std::vector<std::string>& p)
{
  static const std::vector<std::string> v = {"garbage\n", "\"", "\n", "msgid ", "msgid \"\"\n", "msgstr \"x\"\n", "\"stray\"\n", "msgstr[1] \"x\"\n", "msgstr[7] \"x\"\n", "   \n",
                                            " ", "\\", "msgctxt \"\"\n", "msgid_plural \"p\"\n", "#", "\r\n", std::string(1, '\0'), "\xef\xbb\xbf", "\v"};
  p.push_back(t.pick(v));
}

Pumped gen_document(Tape& t)
{
  Pumped d;
  std::vector<std::string>& p = d.pieces;
  if (!t.chance(60)) {
    p.push_back("msgid \"\"\nmsgstr \"\"\n");
    if (t.chance(128)) p.push_back("\"X-Field: \x01\\n\"\n");
    static const std::vector<std::string> charsets = {"UTF-8", "ISO-8859-1", "BIG5", "utf-8", "CHARSET", "UTF-16", "none such"};
    if (!t.chance(40)) p.push_back("\"Content-Type: text/plain; charset=" + t.pick(charsets) + "\\n\"\n");
    if (t.chance(160)) {
      p.push_back("\"Plural-Forms:" + std::string(rules()[t.range(0, rules().size() - 1)].header));
      p.push_back("\\n\"\n");
    }
    if (t.chance(60)) { p.push_back("\"X-More: "); p.push_back("abc "); p.push_back("\\n"); p.push_back("\"\n"); }
    p.push_back("\n");
  }
  size_t entries = t.range(1, 3);
  for (size_t e = 0; e < entries; ++e) {
    size_t comments = t.length(3, 1);
    static const std::vector<std::string> marks = {"# comment \x01\n", "#. extracted\n", "#: file.c:\x01\n", "#, fuzzy\n", "#, c-format\n", "#| msgid \"old\"\n", "#~ msgid \"gone\"\n", "#\n"};
    for (size_t i = 0; i < comments; ++i) p.push_back(t.pick(marks));
    if (t.chance(80)) { p.push_back("msgctxt "); gen_string(t, p); }
    p.push_back("msgid ");
    if (t.chance(200)) { p.push_back("\"id \x01 "); p.push_back(text_piece(t)); p.push_back("\"\n"); }
    else gen_string(t, p);
    if (t.chance(90)) {
      p.push_back("msgid_plural ");
      gen_string(t, p);
      size_t forms = t.range(1, 3);
      for (size_t i = 0; i < forms; ++i) { p.push_back("msgstr[" + std::to_string(i) + "] "); gen_string(t, p); }
    }
    else { p.push_back("msgstr "); gen_string(t, p); }
    p.push_back("\n");
  }
  if (t.chance(100)) {
    size_t n = t.range(1, 3);
    for (size_t i = 0; i < n; ++i) {
      std::vector<std::string> x;
      gen_damage(t, x);
      p.insert(p.begin() + static_cast<long>(t.range(0, p.size())), x[0]);
    }
  }
  if (t.chance(100)) { // a whole entry or line
    std::vector<size_t> ends{0};
    bool entry = t.chance(128);
    for (size_t i = 0; i < p.size(); ++i)
      if (entry ? p[i] == "\n" : p[i].back() == '\n') ends.push_back(i + 1);
    if (ends.back() != p.size()) ends.push_back(p.size());
    size_t k = t.range(0, ends.size() - 2);
    d.from = ends[k];
    d.to = ends[k + 1];
  }
  else d.choose(t);
  return d;
}

void load_case(Case& c)
{
  Tape& t = c.t;
  Pumped d = gen_document(t);
  static const std::vector<std::string> charsets = {"UTF-8", "ISO-8859-1", "UTF-16", "ASCII"};
  std::string charset = t.pick(charsets);
  bool pedantic = t.chance(128), fuzzy = !t.chance(60);
  size_t n = d.times(t, 300000);
  c.log << "load into " << charset << (pedantic ? " pedantic" : "") << ", repeated " << n << ": " << d.show() << "\n";
  auto cost = [&](const std::string& text) {
    std::istringstream in(text);
    POParser::pedantic = pedantic;
    // the dictionary's destruction is part of it
    return measure([&] {
      Dictionary dict(charset);
      try { POParser::parse("pumped.po", in, dict, fuzzy); } catch (std::exception&) {}
    });
  };
  std::string small = d.make(n);
  Cost none = cost(d.make(0));
  Cost a = cost(small);
  if (a.bytes > 6 * static_cast<double>(small.size()) + 20000) { c.label("load: many reports"); return; }
  std::string large = d.make(n * TIMES);
  Cost b = cost(large);
  proportional(c, "load", a, static_cast<double>(small.size()), b, static_cast<double>(large.size()));
  c.nontrivial = a.work > none.work + static_cast<double>(n);
  c.label(b.bytes > a.bytes * 4 && b.bytes > 1000 ? "load: with reports" : "load");
}

// --- texts given to functions --------------------------------------------------------------
void text_case(Case& c)
{
  Tape& t = c.t;
  Pumped d;
  unsigned kind = static_cast<unsigned>(t.range(0, 4));
  size_t k = t.range(1, 5);
  static const std::vector<std::string> env = {"de", "_", "DE", ".", "UTF-8", "@", "euro", "x", "sr", "\x01"};
  static const std::vector<std::string> names = {"German", "G", " ", "deutsch", "de", "\xc3\x84", "x"};
  static const std::vector<std::string> rule = {"Plural-Forms:", " ", "nplurals=2", ";", "plural=", "n", "!=", "1", "(", ")", "?", ":", "&&", "%", "10", "\\n", "\n"};
  for (size_t i = 0; i < k; ++i)
    d.pieces.push_back(kind == 0 ? text_piece(t) : kind == 3 ? t.pick(names) : kind == 4 ? t.pick(rule) : t.pick(env));
  if (kind == 4 && t.chance(128)) {
    d.pieces.insert(d.pieces.begin(), "Plural-Forms:" + std::string(rules()[t.range(0, rules().size() - 1)].header));
    if (t.chance(128)) std::swap(d.pieces.front(), d.pieces.back());
  }
  d.choose(t);
  size_t n = d.times(t, 200000);
  static const std::vector<std::string> charsets = {"UTF-8", "ISO-8859-1", "UTF-16", "ISO-2022-JP", "BIG5", "EUC-JP", "ASCII"};
  std::string from = t.pick(charsets), to = t.pick(charsets);
  static const char* const what[] = {"convert", "from_env", "from_spec", "from_name", "plural rule"};
  c.log << what[kind] << (kind == 0 ? " " + from + " to " + to : "") << ", repeated " << n << ": " << d.show() << "\n";
  auto cost = [&](const std::string& text) {
    switch (kind) {
      case 0: {
        IConv conv(from, to);
        return measure([&] { conv.convert(text); });
      }
      case 1: return measure([&] { Language::from_env(text); });
      case 2: return measure([&] { Language::from_spec("de", text, text); Language::from_spec(text, "DE"); });
      case 3: return measure([&] { Language::from_name(text); });
      default: return measure([&] { PluralForms::from_string(text); });
    }
  };
  cost("x");
  std::string small = d.make(n), large = d.make(n * TIMES);
  Cost a = cost(small), b = cost(large);
  proportional(c, what[kind], a, static_cast<double>(small.size()), b, static_cast<double>(large.size()));
  c.nontrivial = b.work > a.work * 1.5;
  c.label(what[kind]);
}

// --- lookups ------------------------------------------------------------------------------------
std::string number(size_t n)
{
  char b[32];
  snprintf(b, sizeof b, "%07zu", n);
  return b;
}

void lookup_case(Case& c)
{
  Tape& t = c.t;
  static const std::vector<size_t> sizes = {64, 100, 200, 256, 400, 500};
  size_t n = t.pick(sizes);
  bool contexts = t.chance(100), one_context = t.chance(128), file = t.chance(80), fallback = t.chance(100), plural = t.chance(100);
  bool miss = t.chance(100), empty = t.chance(40);
  size_t pad = t.chance(60) ? t.range(1, 200) : 0;
  std::string padding(pad, 'p');
  c.log << n << " messages" << (contexts ? one_context ? " in one context" : " in many contexts" : "") << (file ? " from a file" : "") << (fallback ? ", fallback" : "")
        << (plural ? ", plural" : "") << (miss ? ", missing" : "") << (empty ? ", untranslated" : "") << ", padding " << pad << "\n";
  const tinygettext::PluralForms forms = PluralForms::from_string("Plural-Forms: nplurals=2; plural=(n != 1);");
  auto key = [&](size_t i) { return "key " + padding + number(i * 7919 % 1000003); };
  auto ctxt = [&](size_t i) { return one_context ? std::string("context") : "context " + number(i); };
  auto fill = [&](Dictionary& d, size_t count) {
    d.set_plural_forms(forms);
    std::string s;
    if (file) s = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
    for (size_t i = 0; i < count; ++i) {
      if (file) {
        if (contexts) s += "msgctxt \"" + ctxt(i) + "\"\n";
        s += "msgid \"" + key(i) + "\"\n";
        s += plural ? "msgid_plural \"s\"\nmsgstr[0] \"one\"\nmsgstr[1] \"many\"\n\n" : "msgstr \"one\"\n\n";
      }
      else {
        std::vector<std::string> v{empty ? "" : "one", empty ? "" : "many"};
        if (contexts && plural) d.add_translation(ctxt(i), key(i), "s", v);
        else if (contexts) d.add_translation(ctxt(i), key(i), v[0]);
        else if (plural) d.add_translation(key(i), "s", v);
        else d.add_translation(key(i), v[0]);
      }
    }
    if (file) load("many.po", s, d);
  };
  auto cost = [&](size_t count) {
    Dictionary d("UTF-8"), base("UTF-8");
    fill(d, count);
    if (fallback) { fill(base, count); d.addFallback(&base); }
    return measure([&] {
      for (size_t i = 0; i < 40; ++i) {
        size_t k = (i * 2654435761u) % n; // the same messages for both sizes
        // missing plurals are reported with all candidates
        std::string id = miss ? "none" + number(k) : key(k);
        if (contexts && plural) d.translate_ctxt_plural(miss && !one_context ? "no context" + number(k) : ctxt(k), miss && one_context ? key(k) : id, "s", static_cast<int>(i));
        else if (contexts) d.translate_ctxt(ctxt(k), id);
        else if (plural) d.translate_plural(miss ? key(k) : id, "s", static_cast<int>(i));
        else d.translate(id);
      }
    });
  };
  Cost a = cost(n), b = cost(n * TIMES);
  constant(c, "lookup", a, static_cast<double>(n), b, static_cast<double>(n * TIMES));
  c.nontrivial = true;
  c.label(std::string("lookup") + (miss ? " of missing" : empty ? " of untranslated" : ""));
}

// going through everything, replacing everything
void whole_case(Case& c)
{
  Tape& t = c.t;
  static const std::vector<size_t> sizes = {64, 100, 200, 256, 400};
  size_t n = t.pick(sizes);
  bool many = t.chance(128);
  unsigned kind = static_cast<unsigned>(t.range(0, 2));
  static const char* const what[] = {"add", "replace", "destroy"};
  c.log << what[kind] << " " << n << (many ? " in many contexts" : "") << "\n";
  auto add = [&](Dictionary& d, size_t count, const std::string& s) {
    for (size_t i = 0; i < count; ++i) {
      d.add_translation("key " + number(i), s);
      d.add_translation(many ? "context " + number(i) : std::string("context"), "key " + number(i), "s", std::vector<std::string>{s, s});
    }
  };
  auto cost = [&](size_t count) {
    std::unique_ptr<Dictionary> d(new Dictionary("UTF-8"));
    if (kind) add(*d, count, "one");
    return measure([&] {
      switch (kind) {
        case 0: add(*d, count, "one"); break;
        case 1: add(*d, count, "two"); break;
        default: d.reset(); break;
      }
    });
  };
  Cost a = cost(n), b = cost(n * TIMES);
  proportional(c, what[kind], a, static_cast<double>(n), b, static_cast<double>(n * TIMES));
  c.nontrivial = true;
  c.label(what[kind]);
}

// --- manager ---------------------------------------------------------------------------------------
void manager_case(Case& c)
{
  Tape& t = c.t;
  static const std::vector<size_t> sizes = {32, 64, 20, 100};
  size_t n = t.pick(sizes);
  bool dirs = t.chance(100); // many directories instead of many files
  unsigned names = static_cast<unsigned>(t.range(0, 3));
  unsigned kind = static_cast<unsigned>(t.range(0, 2));
  static const char* const what[] = {"dictionary", "languages", "dictionary again"};
  const std::vector<Spec>& v = specs();
  auto name = [&](size_t i) {
    std::string k = number(i);
    switch (names) {
      case 0: return std::string(v[i % v.size()].language) + "." + k + ".po"; // charset part
      case 1: return "unknown" + k + ".po";
      case 2: return "other" + k + ".txt";
      default: return "de_DE@" + k + ".po";
    }
  };
  std::string wanted = t.chance(128) ? "de_DE" : "de";
  c.log << what[kind] << " with " << n << (dirs ? " directories" : " files") << ", names like " << name(7) << ", for " << wanted << "\n";
  auto cost = [&](size_t count) {
    auto f = std::make_shared<Files>();
    std::string content = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n";
    DictionaryManager m(std::unique_ptr<tinygettext::FileSystem>(new MemFileSystem(f)));
    for (size_t i = 0; i < count; ++i) {
      std::string dir = dirs ? "dir" + number(i) : std::string("dir");
      f->dirs[dir].emplace_back(name(i), content);
      if (dirs) { f->dirs[dir].emplace_back("de.po", content); m.add_directory(dir); }
    }
    if (!dirs) { f->dirs["dir"].emplace_back("de.po", content); m.add_directory("dir"); }
    Language l = Language::from_env(wanted);
    if (kind == 2) m.get_dictionary(l);
    return measure([&] {
      switch (kind) {
        case 0: m.get_dictionary(l); break;
        case 1: m.get_languages(); break;
        default: m.get_dictionary(l); m.set_language(l); m.get_dictionary(); m.get_dictionary(); break;
      }
    });
  };
  cost(1); // tables are built once
  Cost a = cost(n), b = cost(n * TIMES);
  if (kind == 2) constant(c, what[kind], a, static_cast<double>(n), b, static_cast<double>(n * TIMES));
  else proportional(c, what[kind], a, static_cast<double>(n), b, static_cast<double>(n * TIMES));
  c.nontrivial = true;
  c.label(std::string("manager: ") + what[kind]);
}

struct Scratch {
  std::string dir;
  Scratch()
  {
    char name[] = "/tmp/tgt-c23-XXXXXX";
    if (!mkdtemp(name)) abort();
    dir = name;
  }
  ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
};

} // namespace

void property(Case& c)
{
  bool on = c.t.chance(100);
  receivers(on);
  if (!on) c.log << "without receivers: ";
  unsigned k = static_cast<unsigned>(c.t.range(0, 15));
  if (k < 9) load_case(c);
  else if (k < 12) text_case(c);
  else if (k < 14) lookup_case(c);
  else if (k < 15) whole_case(c);
  else manager_case(c);
  c.feed(c.log.str());
}

std::vector<Example> examples()
{
  return {
    {"the counters count", [](Case& c) {
      Cost a = measure([] { Language::from_name("German"); });
      c.check(a.work > 20, "no-edges", show(a));
      std::string s(10000, 'x');
      IConv same;
      Cost b = measure([&] { std::string r = same.convert(s); });
      c.check(b.work > 600 && b.memory >= 10000, "no-bytes", show(b));
      // a dictionary full of messages, counted through the C++ library
      Cost d = measure([] { Dictionary x("UTF-8"); for (int i = 0; i < 100; ++i) x.add_translation("k" + number(static_cast<size_t>(i)), "v"); });
      c.check(d.memory > 5000, "no-memory", show(d));
    }},
    {"built-in file system", [](Case& c) {
      receivers(true);
      Scratch s;
      tinygettext::UnixFileSystem ufs;
      auto cost = [&](size_t n) {
        std::string d = s.dir + "/" + std::to_string(n);
        fs::create_directory(d);
        for (size_t i = 0; i < n; ++i) std::ofstream(d + "/file" + number(i) + ".po") << "x";
        return measure([&] { ufs.open_directory(d); });
      };
      Cost a = cost(60), b = cost(60 * TIMES);
      proportional(c, "open_directory", a, 60, b, 60 * TIMES);
    }},
  };
}
} // namespace pbt
