// C16: logging never changes results and goes only to the installed receivers.
#include "manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/log_stream.hpp"

#include <algorithm>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

using namespace model;
using tinygettext::Log;

namespace pbt {
const char* const property_id = "C16";
const char* const property_rule =
  "a random program of loads of damaged and healthy PO texts, colliding additions, lookups, conversions and manager requests is run with recording "
  "receivers and then again with receivers installed, replaced (also from inside a receiver, which may also write messages itself), removed or reset to the default before any step, pedantic "
  "checking on and off; results must be the same, every message must reach exactly the receiver in place, and the standard streams are captured; "
  "non-trivial: the program makes messages of two severities and a receiver differs from the recording ones";

namespace {

enum { INFO, WARNING, ERROR, SEVERITIES };
enum Receiver { REC0, REC1, NONE, DEFAULT };

struct Recorder {
  Receiver installed[SEVERITIES] = {REC0, REC0, REC0};
  bool handover[SEVERITIES] = {false, false, false};
  std::vector<std::string> got[SEVERITIES];
  std::string wrong; // first misdelivery
  // a receiver may write messages itself
  bool chatty[SEVERITIES] = {false, false, false};
  unsigned depth = 0;
  std::vector<std::string> sent[SEVERITIES], extra[SEVERITIES];
  bool sent_to_default = false;
};
Recorder* g_rec = nullptr;

void install(int sev, Receiver r);

void chat(int from)
{
  using namespace tinygettext;
  int to = (from + 1) % SEVERITIES;
  std::string s = "a receiver's own #" + std::to_string(g_rec->sent[to].size());
  if (g_rec->installed[to] <= REC1) g_rec->sent[to].push_back(s);
  else if (g_rec->installed[to] == DEFAULT) g_rec->sent_to_default = true;
  ++g_rec->depth;
  if (to == INFO) log_info << s;
  else if (to == WARNING) log_warning << s;
  else log_error << s;
  --g_rec->depth;
}

template<int SEV, int SLOT> void receiver(const std::string& s)
{
  if (!g_rec) return;
  (g_rec->depth ? g_rec->extra : g_rec->got)[SEV].push_back(s);
  if (g_rec->installed[SEV] != static_cast<Receiver>(SLOT) && g_rec->wrong.empty())
    g_rec->wrong = "severity " + std::to_string(SEV) + " receiver " + std::to_string(SLOT) + " got a message but is not installed: " + quote(s);
  if (s.empty() && g_rec->wrong.empty()) g_rec->wrong = "empty message";
  if (g_rec->handover[SEV]) install(SEV, SLOT ? REC0 : REC1);
  if (g_rec->chatty[SEV] && !g_rec->depth && g_rec->sent[(SEV + 1) % SEVERITIES].size() < 50) chat(SEV);
}

void install(int sev, Receiver r)
{
  static const Log::log_callback_t f[SEVERITIES][2] = {{&receiver<0, 0>, &receiver<0, 1>}, {&receiver<1, 0>, &receiver<1, 1>}, {&receiver<2, 0>, &receiver<2, 1>}};
  Log::log_callback_t cb = r == NONE ? nullptr : r == DEFAULT ? &Log::default_log_callback : f[sev][r];
  if (g_rec) g_rec->installed[sev] = r;
  if (sev == INFO) Log::set_log_info_callback(cb);
  else if (sev == WARNING) Log::set_log_warning_callback(cb);
  else Log::set_log_error_callback(cb);
}

// Captures file descriptors 1 and 2
class Capture {
public:
  Capture()
  {
    fflush(stdout); fflush(stderr);
    for (int i = 0; i < 2; ++i) {
      m_mem[i] = memfd_create("capture", 0);
      m_old[i] = dup(i + 1);
      dup2(m_mem[i], i + 1);
    }
  }
  ~Capture() { restore(); }
  void restore()
  {
    if (m_done) return;
    m_done = true;
    fflush(stdout); fflush(stderr);
    std::cout.flush(); std::cerr.flush();
    for (int i = 0; i < 2; ++i) {
      dup2(m_old[i], i + 1);
      close(m_old[i]);
      off_t n = lseek(m_mem[i], 0, SEEK_END);
      text[i].resize(static_cast<size_t>(n));
      if (n > 0 && pread(m_mem[i], &text[i][0], text[i].size(), 0) != n) abort();
      close(m_mem[i]);
    }
  }
  std::string text[2];
private:
  int m_mem[2], m_old[2];
  bool m_done = false;
};

struct Step {
  unsigned kind;
  size_t dict;
  std::string a, b;
  Key key;
  std::vector<std::string> v;
  int n;
  bool flag;
  tg::Language lang;
};

struct Program {
  std::vector<Step> steps;
  std::vector<std::string> charsets;
  World world;
};

struct StepLog { std::string result; std::vector<std::string> msgs[SEVERITIES]; };

struct Settings { Receiver r[SEVERITIES]; bool handover[SEVERITIES], chatty[SEVERITIES]; bool pedantic; };

// runs the program; `before` may change receivers before each step
std::vector<StepLog> run(const Program& p, Recorder& rec, std::function<void(size_t)> before, std::function<void(size_t)> after)
{
  std::vector<StepLog> out;
  std::vector<std::unique_ptr<tg::Dictionary>> d;
  for (auto& s : p.charsets) d.emplace_back(new tg::Dictionary(s));
  auto state = std::make_shared<WorldFileSystem::State>();
  state->world = p.world;
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)));
  std::unique_ptr<tg::IConv> conv(new tg::IConv());
  for (size_t i = 0; i < p.steps.size(); ++i) {
    const Step& s = p.steps[i];
    for (auto& g : rec.got) g.clear();
    StepLog l;
    std::ostringstream r;
    before(i);
    try {
      tg::Dictionary& x = *d[s.dict];
      switch (s.kind) {
        case 0: { std::istringstream in(s.a); tg::POParser::parse("f.po", in, x, s.flag); r << show(dump(x)) << static_cast<bool>(x.get_plural_forms()); break; }
        case 1: if (s.key.first) x.add_translation(*s.key.first, s.key.second, s.a); else x.add_translation(s.key.second, s.a); r << show(dump(x)); break;
        case 2: if (s.key.first) x.add_translation(*s.key.first, s.key.second, "pl", s.v); else x.add_translation(s.key.second, "pl", s.v); r << show(dump(x)); break;
        case 3: r << quote(s.key.first ? x.translate_ctxt(*s.key.first, s.key.second) : x.translate(s.key.second)); break;
        case 4: r << quote(s.key.first ? x.translate_ctxt_plural(*s.key.first, s.key.second, "pl", s.n) : x.translate_plural(s.key.second, "pl", s.n)); break;
        case 5: conv->set_charsets(s.a, s.b); break;
        case 6: r << quote(conv->convert(s.a)); break;
        case 7: r << fingerprint(m.get_dictionary(s.lang)); break;
        case 8: for (auto& lang : m.get_languages()) r << lang.str() << " "; break;
        case 9: if (s.flag) m.remove_directory(s.a); else m.add_directory(s.a); break;
        case 10: { // a client's own message
          using namespace tinygettext;
          if (s.n == INFO) log_info << s.a << s.n << s.b;
          else if (s.n == WARNING) log_warning << s.a << s.n << s.b;
          else log_error << s.a << s.n << s.b;
          break;
        }
        default: break;
      }
    }
    catch (Failure&) { throw; }
    catch (std::exception& e) { r << "exception " << e.what(); }
    after(i);
    l.result = r.str();
    for (int k = 0; k < SEVERITIES; ++k) l.msgs[k] = rec.got[k];
    out.push_back(l);
  }
  return out;
}

std::string soup(Tape& t)
{
  static const std::vector<std::string> v = {
    "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=9; plural=n*n;\\n\"\n",
    "msgid \"\"\nmsgstr \"Content-Type: text/html\\n\"\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NO-SUCH\\n\"\n",
    "msgid \"a\"\nmsgstr \"A\\q\"\n", "msgid \"a\"\nmsgstr \"A2\" junk\n", "msgid   \"b\"\nmsgstr\t\"B\"\n", "msgid \"b\"\nmsgstr \"\"\n \"B\"\n", "msgid \"c\"\nmsgstr \"C\n", "msgstr \"lost\"\n", "msgid \"d\"\n",
    "msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"P\"\n", "msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"P\"\nmsgstr[1] \"PS\"\nmsgstr[2] \"PSS\"\n", "msgctxt \"x\"\nmsgid \"a\"\nmsgstr \"XA\"\n", "junk\n",
    "#, fuzzy\nmsgid \"a\"\nmsgstr \"fuzzy\"\n", "msgctxt \"x\"\nmsgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[0] \"XP\"\nmsgstr[1] \"XPS\"\n", "msgid \"a\"\nmsgstr \"\xe4\xf6 latin\"\n", "msgid \"a\"\nmsgstr \"\xc3\xa4 utf8 \xe2\x82\xac\"\n",
    "msgid \"p\"\nmsgid_plural \"ps\"\nmsgstr[x] \"P\"\n", "msgid\"a\"\nmsgstr\"nospace\"\n", "msgid \"e\nmsgstr \"E\"\n", "msgid x\n", std::string("ju\0nk\n", 6)};
  std::string s;
  size_t n = t.range(1, 6);
  for (size_t i = 0; i < n; ++i) { s += t.pick(v); if (!t.chance(24)) s += "\n"; }
  if (t.chance(6)) { // long diagnostics, or many
    size_t k = magnitude(t, t.chance(32) ? 70000 : 9000);
    switch (t.range(0, 3)) {
      case 0: s += "\nmsgid \"a\"\nmsgstr \"" + std::string(k, 'x') + "\n\n"; break;
      case 1: s += "\nmsgid \"" + std::string(k, 'y') + "\"\nmsgstr \"1\"\n\nmsgid \"" + std::string(k, 'y') + "\"\nmsgstr \"2\"\n\n"; break;
      case 2: s += "\n" + std::string(k, 'z') + "\n\n"; break;
      case 3: for (size_t i = 0; i < k / 50; ++i) s += "\njunk\n\nmsgid  \"a\"\nmsgstr \"\\q\"\n"; s += "\n"; break;
    }
  }
  return s;
}

Program gen(Tape& t)
{
  Program p;
  static const std::vector<std::string> cs = {"UTF-8", "ISO-8859-1", "ASCII", "UTF-8", "NO-SUCH"};
  for (int i = 0; i < 2; ++i) p.charsets.push_back(t.pick(cs));
  WorldOptions o;
  o.codes = {"de", "pt"};
  o.max_files = 4;
  p.world.dirs["d0"] = gen_dir(t, "d0", o);
  p.world.dirs["d1"] = gen_dir(t, "d1", o);
  if (t.chance(60)) p.world.unlistable.insert("d1");
  for (auto& d : p.world.dirs) for (auto& f : d.second) if (f.po && t.chance(60)) {
    static const std::vector<Fault> v = {Fault::open_null, Fault::open_throw, Fault::bad_charset, Fault::read};
    set_fault(f, t.pick(v), t.range(0, f.raw.size()));
  }
  static const std::vector<std::string> ids = {"a", "b", "p", "zz"};
  size_t n = t.range(1, 14);
  for (size_t i = 0; i < n; ++i) {
    Step s;
    static const std::vector<unsigned> kinds = {0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10, 10};
    s.kind = t.pick(kinds);
    s.dict = t.range(0, 1);
    s.flag = s.kind == 9 ? t.chance(60) : !t.chance(60);
    s.n = static_cast<int>(t.range(0, 3));
    if (t.chance(80)) s.key.first = "x";
    s.key.second = t.pick(ids);
    switch (s.kind) {
      case 0: s.a = soup(t); break;
      case 1: s.a = "S" + std::to_string(t.range(0, 3)); break;
      case 2: s.v = {"S" + std::to_string(t.range(0, 3)), "P" + std::to_string(t.range(0, 3))}; break;
      case 5: s.a = t.pick(cs); s.b = t.pick(cs); break;
      case 6: { static const std::vector<std::string> v = {"plain", "\xc3\xa4", "\xff\xfe", "\xe4", "\xe2\x82\xac", "a\xc3"}; s.a = t.pick(v); if (t.chance(8)) s.a = std::string(magnitude(t, 9000), 'a') + s.a; break; }
      case 7: s.lang = gen_language(t, o.codes); break;
      case 9: s.a = t.chance(128) ? "d0" : "d1"; break;
      case 10:
        s.n = static_cast<int>(t.range(0, SEVERITIES - 1));
        for (std::string* x : {&s.a, &s.b}) {
          size_t k = t.chance(8) ? magnitude(t, 70000) : t.range(0, 6);
          static const std::string bytes("a \0\n%\xff\xc3\"\\\r", 10);
          for (size_t j = 0; j < k; ++j) *x += j < 40 ? bytes[t.range(0, bytes.size() - 1)] : 'b';
        }
        break;
      default: break;
    }
    p.steps.push_back(s);
  }
  return p;
}

std::string show(const Program& p)
{
  static const char* const names[] = {"load", "add", "add plural", "lookup", "plural lookup", "set_charsets", "convert", "request", "list", "directory", "message"};
  std::string r;
  for (auto& s : p.steps)
    r += std::string(names[s.kind]) + " #" + std::to_string(s.dict) + " " + (s.key.first ? *s.key.first + "|" : "") + s.key.second + " " + quote(s.a) + " " + quote(s.b) + " " + std::to_string(s.flag) + " " + s.lang.str() + "\n";
  return r + "charsets " + quote(p.charsets) + "\n" + model::show(p.world);
}

struct Guard { ~Guard() { g_rec = nullptr; reset_globals(); } };

std::vector<StepLog> baseline(const Program& p, bool pedantic, Recorder& rec)
{
  g_rec = &rec;
  for (int k = 0; k < SEVERITIES; ++k) install(k, REC0);
  tg::POParser::pedantic = pedantic;
  return run(p, rec, [](size_t) {}, [](size_t) {});
}

// the severity a message states itself
int stated(const std::string& s)
{
  size_t e = s.find("error:"), w = s.find("warning:");
  if (e == std::string::npos && w == std::string::npos) return -1;
  return e < w ? ERROR : WARNING;
}

void compare(Case& c, const Program& p)
{
  Tape& t = c.t;
  Guard guard;
  Recorder rec;
  std::vector<StepLog> base[2];
  for (int k = 0; k < 2; ++k) {
    base[k] = baseline(p, k == 1, rec);
    c.check(rec.wrong.empty(), "misdelivered", [&] { return rec.wrong; });
  }
  unsigned total[SEVERITIES] = {0, 0, 0};
  for (size_t i = 0; i < p.steps.size(); ++i) {
    c.check(base[0][i].result == base[1][i].result, "pedantic-changes-results", [&] { return "step " + std::to_string(i) + ": " + base[0][i].result + " and " + base[1][i].result; });
    if (p.steps[i].kind == 10) for (int k = 0; k < SEVERITIES; ++k) {
      std::vector<std::string> e;
      if (k == p.steps[i].n) e.push_back(p.steps[i].a + std::to_string(p.steps[i].n) + p.steps[i].b);
      c.check(base[1][i].msgs[k] == e, "message-altered", [&] { return "step " + std::to_string(i) + " severity " + std::to_string(k) + ": " + quote(base[1][i].msgs[k]) + " instead of " + quote(e); });
    }
    else for (int k = 0; k < SEVERITIES; ++k) for (auto& s : base[1][i].msgs[k]) {
      ++total[k];
      int st = stated(s);
      c.check(st < 0 || st == k, "wrong-severity", [&] { return "message went to severity " + std::to_string(k) + ": " + quote(s); });
    }
  }
  std::vector<Settings> cfg(p.steps.size());
  Settings cur = {{REC0, REC0, REC0}, {false, false, false}, {false, false, false}, true};
  bool differs = false, captured = t.chance(128);
  for (auto& s : cfg) {
    for (int k = 0; k < SEVERITIES; ++k) if (t.chance(100)) {
      cur.r[k] = static_cast<Receiver>(t.range(0, captured ? 3 : 2));
      cur.handover[k] = t.chance(48);
      cur.chatty[k] = t.chance(40);
    }
    if (t.chance(60)) cur.pedantic = !cur.pedantic;
    s = cur;
    for (int k = 0; k < SEVERITIES; ++k) if (s.r[k] != REC0 || s.handover[k] || s.chatty[k]) differs = true;
    c.log << "receivers " << s.r[0] << s.handover[0] << s.chatty[0] << " " << s.r[1] << s.handover[1] << s.chatty[1] << " " << s.r[2] << s.handover[2] << s.chatty[2] << " pedantic " << s.pedantic << "\n";
  }
  std::vector<std::string> text[2];
  std::vector<bool> to_default;
  std::unique_ptr<Capture> cap;
  std::vector<StepLog> got = run(p, rec,
    [&](size_t i) {
      if (captured) cap.reset(new Capture);
      for (int k = 0; k < SEVERITIES; ++k) {
        rec.handover[k] = cfg[i].handover[k];
        rec.chatty[k] = cfg[i].chatty[k];
        rec.sent[k].clear();
        rec.extra[k].clear();
        install(k, cfg[i].r[k]);
      }
      rec.sent_to_default = false;
      tg::POParser::pedantic = cfg[i].pedantic;
    },
    [&](size_t i) {
      if (rec.wrong.empty())
        for (int k = 0; k < SEVERITIES; ++k)
          if (rec.sent[k] != rec.extra[k]) rec.wrong = "step " + std::to_string(i) + ": written by receivers to severity " + std::to_string(k) + " " + quote(rec.sent[k]) + ", delivered " + quote(rec.extra[k]);
      to_default.push_back(rec.sent_to_default);
      if (captured) { cap->restore(); text[0].push_back(cap->text[0]); text[1].push_back(cap->text[1]); cap.reset(); }
    });
  c.check(rec.wrong.empty(), "misdelivered", [&] { return rec.wrong; });
  for (size_t i = 0; i < p.steps.size(); ++i) {
    const StepLog& b = base[cfg[i].pedantic][i];
    auto where = [&] { return "step " + std::to_string(i) + ": "; };
    c.check(got[i].result == b.result, "results-changed", [&] { return where() + got[i].result + " instead of " + b.result; });
    bool any_default = to_default[i];
    for (int k = 0; k < SEVERITIES; ++k) {
      bool silent = cfg[i].r[k] == NONE || cfg[i].r[k] == DEFAULT;
      if (cfg[i].r[k] == DEFAULT && !b.msgs[k].empty()) any_default = true;
      if (silent) c.check(got[i].msgs[k].empty(), "delivered-to-removed-receiver", [&] { return where() + quote(got[i].msgs[k]); });
      else c.check(got[i].msgs[k] == b.msgs[k], "messages-differ", [&] { return where() + "severity " + std::to_string(k) + " got " + quote(got[i].msgs[k]) + " instead of " + quote(b.msgs[k]); });
      if (captured && cfg[i].r[k] == DEFAULT)
        for (auto& s : b.msgs[k]) c.check(text[1][i].find(s) != std::string::npos, "default-receiver", [&] { return where() + quote(s) + " is not on the error stream: " + quote(text[1][i]); });
    }
    if (captured) {
      c.check(text[0][i].empty(), "standard-output", [&] { return where() + quote(text[0][i]); });
      if (!any_default) c.check(text[1][i].empty(), "standard-error", [&] { return where() + quote(text[1][i]); });
      else c.label("default receiver");
    }
  }
  for (int k = 0; k < SEVERITIES; ++k) if (total[k]) c.label(k == INFO ? "info" : k == WARNING ? "warnings" : "errors");
  c.nontrivial = differs && (total[0] > 0) + (total[1] > 0) + (total[2] > 0) > 1;
}

} // namespace

void property(Case& c)
{
  Program p = gen(c.t);
  c.log << show(p);
  compare(c, p);
  c.feed(c.log.str());
}

std::vector<Example> examples()
{
  return {
    {"log statements reach the receiver of their severity", [](Case& c) {
      Guard guard;
      Recorder rec;
      g_rec = &rec;
      for (int mask = 0; mask < 64; ++mask) {
        for (int k = 0; k < SEVERITIES; ++k) install(k, static_cast<Receiver>((mask >> (2 * k)) & 3));
        bool has_default = false;
        for (int k = 0; k < SEVERITIES; ++k) if (rec.installed[k] == DEFAULT) has_default = true;
        for (auto& g : rec.got) g.clear();
        std::string err;
        {
          Capture cap;
          using namespace tinygettext;
          log_info << "i" << 1 << std::endl;
          log_warning << "w" << 2 << std::endl;
          log_error << "e" << 3 << std::endl;
          cap.restore();
          c.check(cap.text[0].empty(), "standard-output", cap.text[0]);
          err = cap.text[1];
        }
        static const char* const want[] = {"i1\n", "w2\n", "e3\n"};
        for (int k = 0; k < SEVERITIES; ++k) {
          bool here = rec.installed[k] <= REC1;
          std::vector<std::string> e;
          if (here) e.push_back(want[k]);
          c.check(rec.got[k] == e, "messages-differ", [&] { return quote(rec.got[k]); });
          c.check((err.find(want[k]) != std::string::npos) == (rec.installed[k] == DEFAULT), "default-receiver", [&] { return quote(err); });
        }
        if (!has_default) c.check(err.empty(), "standard-error", err);
        c.check(rec.wrong.empty(), "misdelivered", rec.wrong);
      }
    }},
    {"messages of every length, with every byte, in any number", [](Case& c) {
      Guard guard;
      Recorder rec;
      g_rec = &rec;
      using namespace tinygettext;
      std::vector<std::string> want[SEVERITIES];
      Capture cap;
      auto say = [&](const std::string& s) {
        log_info << s; log_warning << s; log_error << s << 'x';
        if (!s.empty()) { want[INFO].push_back(s); want[WARNING].push_back(s); }
        want[ERROR].push_back(s + "x");
      };
      for (int k = 0; k < SEVERITIES; ++k) install(k, REC0);
      for (unsigned n = 1; n < 1500; ++n) { std::string s; for (unsigned i = 0; i < n; ++i) s += static_cast<char>(i * 7 + n); say(s); }
      for (unsigned p = 11; p < 18; ++p) for (int k = -2; k < 3; ++k) say(std::string(static_cast<size_t>((1 << p) + k), static_cast<char>('a' + k + 2)));
      for (unsigned b = 0; b < 256; ++b) { std::string ch(1, static_cast<char>(b)); say(ch); say("a" + ch); say(ch + "b"); say("a" + ch + "\n"); say(ch + ch); }
      for (unsigned i = 0; i < 3000; ++i) {
        int k = static_cast<int>(i * 7 % 3);
        if (i % 11 == 0) install(k, rec.installed[k] == REC0 ? REC1 : REC0);
        say("number " + std::to_string(i));
        if (i % 100 == 99) { for (int s = 0; s < SEVERITIES; ++s) install(s, NONE); log_info << "lost"; log_warning << "lost"; log_error << "lost"; for (int s = 0; s < SEVERITIES; ++s) install(s, s == k ? REC1 : REC0); }
      }
      cap.restore();
      c.check(cap.text[0].empty() && cap.text[1].empty(), "standard-streams", cap.text[0] + cap.text[1]);
      for (int k = 0; k < SEVERITIES; ++k) {
        for (size_t i = 0; i < rec.got[k].size() && i < want[k].size(); ++i) c.check(rec.got[k][i] == want[k][i], "messages-differ", [&] { return quote(rec.got[k][i].substr(0, 300)) + " instead of " + quote(want[k][i].substr(0, 300)); });
        c.check(rec.got[k].size() == want[k].size(), "messages-differ", [&] { return std::to_string(rec.got[k].size()) + " of " + std::to_string(want[k].size()); });
      }
      c.check(rec.wrong.empty(), "misdelivered", rec.wrong);
    }},
    {"long lines in reports", [](Case& c) {
      for (unsigned n = 0; n < 5000; n += n < 700 || n > 4070 ? 1 : 57) {
        if (n == 4073) n = 4090;
        if (n > 4100) n += 200;
        std::string line = "msgid \"a\" " + std::string(n, 'y') + "z", file = "f" + std::string(n % 700, 'n') + ".po";
        LogCapture::reset();
        tg::Dictionary d;
        load(file, line + "\nmsgstr \"A\"\n", d);
        c.check(LogCapture::texts.size() == 1 && LogCapture::texts[0].find(line) != std::string::npos && LogCapture::texts[0].find(file + ":1:") != std::string::npos && d.translate("a") == "A", "messages-differ", [&] { return std::to_string(n) + ": " + quote(LogCapture::texts); });
      }
    }},
  };
}
} // namespace pbt
