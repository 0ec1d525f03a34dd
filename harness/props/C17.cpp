// C17: dictionaries, loads and managers do not influence one another.
#include "charset.hpp"
#include "langs.hpp"
#include "manager.hpp"
#include "tinygettext/iconv.hpp"

#include <algorithm>
#include <cerrno>
#include <streambuf>

#include <sys/wait.h>
#include <unistd.h>

using namespace model;

namespace pbt {
const char* const property_id = "C17";
const char* const property_rule =
  "two to six independent objects (dictionaries of several charsets loading files of several charsets and plural rules with fuzzy use on or off, "
  "converters, managers, and a loader of damaged input) are operated in a random interleaving, some steps running in the middle of another load (from its "
  "stream or file system); every step is compared with that object's own model; non-trivial: at least three objects made two checked steps each";

namespace {


// what happens while another load is reading
std::function<void()> g_hook;
int g_depth = 0;
void hook()
{
  if (!g_hook || g_depth > 2) return;
  ++g_depth;
  struct Back { ~Back() { --g_depth; } } back;
  g_hook();
}

class HookBuf : public std::streambuf {
public:
  HookBuf(const std::string& s, size_t piece, bool fails) : m_s(s), m_pos(0), m_piece(piece), m_fails(fails) {}
protected:
  int_type underflow() override
  {
    hook();
    if (m_pos >= m_s.size()) { if (m_fails) throw std::runtime_error("read"); return traits_type::eof(); }
    size_t n = std::min(m_piece, m_s.size() - m_pos);
    char* p = &m_s[m_pos];
    setg(p, p, p + n);
    m_pos += n;
    return traits_type::to_int_type(*p);
  }
private:
  std::string m_s;
  size_t m_pos, m_piece;
  bool m_fails;
};

class HookStream : public std::istream {
public:
  HookStream(const std::string& s, size_t piece, bool fails = false) : std::istream(nullptr), m_buf(s, piece, fails) { rdbuf(&m_buf); }
private:
  HookBuf m_buf;
};

class HookFileSystem : public tg::FileSystem {
public:
  explicit HookFileSystem(std::shared_ptr<WorldFileSystem::State> s) : inner(s) {}
  std::vector<std::string> open_directory(const std::string& p) override { hook(); return inner.open_directory(p); }
  std::unique_ptr<std::istream> open_file(const std::string& f) override
  {
    hook();
    for (auto& d : inner.state->world.dirs) for (auto& x : d.second)
      if (f == d.first + "/" + x.name && x.fault == Fault::none) return std::unique_ptr<std::istream>(new HookStream(x.raw, 64));
    return inner.open_file(f);
  }
  WorldFileSystem inner;
};

// What the library makes of a Plural-Forms line when asked for nothing else: found out in a
// process of its own. Index of the rule, -1 if not recognised, -2 if none of ours.
int rule_alone(const std::string& line)
{
  static std::map<std::string, int> known;
  auto i = known.find(line);
  if (i != known.end()) return i->second;
  int p[2], r = -2;
  if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) {
    int v = -2;
    tg::PluralForms f = tg::PluralForms::from_string(line);
    if (!f) v = -1;
    else for (size_t k = 0; k < rules().size() && v == -2; ++k) {
      bool same = f.get_nplural() == rules()[k].n;
      for (int n = 0; same && n < 300; ++n) same = f.get_plural(n) == rules()[k].f(n);
      if (same) v = static_cast<int>(k);
    }
    if (write(p[1], &v, sizeof v) != sizeof v) _exit(1);
    _exit(0);
  }
  close(p[1]);
  if (read(p[0], &r, sizeof r) != sizeof r) r = -2;
  close(p[0]);
  int status;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  return known[line] = r;
}

// lines close to known ones
std::string near_rule(Tape& t)
{
  std::string a = rules()[t.range(0, rules().size() - 1)].header, b = rules()[t.range(0, rules().size() - 1)].header;
  size_t semi = a.find(';');
  std::string l = "Plural-Forms: ";
  switch (t.range(0, 9)) {
    case 0: return l + a + "x";
    case 1: return l + a + " " + b;
    case 2: return l + a.substr(0, a.size() - 1);
    case 3: return l + a.substr(0, semi + 1) + b.substr(b.find(';') + 1);
    case 4: return l + a.substr(0, semi) + "0" + a.substr(semi);
    case 5: { std::string x = a; for (auto& ch : x) if (ch == 'n' && &ch > &x[semi + 9]) { ch = '9'; break; } return l + x; }
    case 6: { std::string x; for (char ch : a) if (ch != ' ') x += ch; return "Plural-Forms:" + x; }
    case 7: return l + a.substr(0, semi + 1);
    case 8: return l + a.substr(0, semi) + " " + a.substr(semi);
    default: return l + a;
  }
}

struct Actor {
  explicit Actor(Case& c_, const std::string& n) : c(c_), t(c_.t), name(n) {}
  virtual ~Actor() {}
  virtual void step() = 0;
  Case& c;
  Tape& t;
  std::string name;
  unsigned steps = 0;
  bool busy = false;
};

const std::vector<int>& counts() { static const std::vector<int> v = {0, 1, 2, 3, 11, 21, 103}; return v; }

struct DictActor : Actor {
  DictActor(Case& c_, const std::string& n) : Actor(c_, n)
  {
    static const std::vector<std::string> cs = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-8", "utf-8"};
    charset = t.pick(cs);
    d.reset(new tg::Dictionary(charset));
    c.log << name << " dictionary " << charset << "\n";
  }
  std::string charset;
  std::unique_ptr<tg::Dictionary> d;
  Dump m;
  int rule = -1;
  unsigned serial = 0;

  void verify(const char* when)
  {
    Dump a = dump(*d);
    c.check(a == m, "dictionary", [&] { return name + " " + when + ": " + diff(m, a); });
    c.check(d->get_charset() == charset, "charset", name);
    c.check(static_cast<bool>(d->get_plural_forms()) == (rule >= 0), "plural-rule", [&] { return name + " " + when; });
    View v{&m, rule < 0 ? nullptr : rules()[static_cast<size_t>(rule)].f, nullptr};
    std::set<Key> keys;
    for (auto& k : all_keys()) keys.insert(k);
    for (auto& e : m) keys.insert(e.first);
    std::string w = compare_lookups(*d, v, keys, counts());
    c.check(w.empty(), "lookup", [&] { return name + " " + when + ": " + w; });
  }

  void step() override
  {
    verify("before its step");
    if (t.chance(40)) { verify("again"); return; }
    Catalogue cat;
    unsigned enc = static_cast<unsigned>(t.range(0, charset == "ISO-8859-1" ? 2 : 3));
    static const char* const names[] = {"UTF-8", "ISO-8859-1", "", "BIG5"};
    cat.charset = names[enc];
    cat.header = enc || !t.chance(60);
    cat.header_fuzzy = t.chance(60);
    cat.rule = cat.header && t.chance(160) ? static_cast<int>(t.range(0, rules().size() - 1)) : -1;
    bool use_fuzzy = !t.chance(100);
    int file_rule = cat.rule;
    if (cat.header && cat.rule < 0 && t.chance(128)) {
      std::string line = near_rule(t);
      int r = rule_alone(line);
      if (r != -2) { file_rule = r; cat.extra_header.push_back(line); c.label(r < 0 ? "near rule" : "respelt rule"); }
    }
    static const std::vector<std::string> texts[2] = {{"\xc3\xa4", "\xc3\xb6", "x\xc3\xbc", "\xc3\x9f", "plain"}, {"\xe5\x8a\x9f", "\xe8\xa8\xb1", "\xe8\x93\x8bx", "plain", "\xe4\xb8\x80"}};
    std::string out;
    Layout l(nullptr);
    if (cat.header) { write_header(out, l, cat); out += "\n"; }
    static const std::vector<std::string> ids = {"a", "b", "c", "d e", "open file"};
    size_t n = t.range(0, 4);
    std::set<Key> seen;
    for (size_t i = 0; i < n; ++i) {
      Message x;
      if (t.chance(90)) x.ctxt = t.chance(128) ? "x" : "y";
      x.id = t.pick(ids);
      if (!seen.insert(Key(x.ctxt, x.id)).second) continue;
      x.plural = (x.id.size() + (x.ctxt ? 1 : 0)) % 2;
      x.id_plural = x.id + "s";
      size_t forms = x.plural ? t.range(1, 4) : 1;
      for (size_t k = 0; k < forms; ++k) {
        std::string s = name + std::to_string(serial++);
        if (cat.header) s += t.pick(texts[enc == 3]);
        x.str.push_back(s);
      }
      x.fuzzy = t.chance(80);
      // in the file
      Message f = x;
      if (enc == 1 || enc == 3) for (auto& s : f.str) { std::string r; if (iconv_once(cat.charset, "UTF-8", s, r) != Conv::ok) abort(); s = r; }
      if (f.fuzzy) out += "#, fuzzy\n";
      if (f.ctxt) write_string(out, l, "msgctxt", *f.ctxt);
      write_string(out, l, "msgid", f.id);
      if (f.plural) {
        write_string(out, l, "msgid_plural", f.id_plural);
        for (size_t k = 0; k < f.str.size(); ++k) out += "msgstr[" + std::to_string(k) + "] \"" + f.str[k] + "\"\n"; // nothing to escape
      }
      else out += "msgstr \"" + f.str[0] + "\"\n";
      out += "\n";
      cat.messages.push_back(x);
    }
    size_t piece = t.range(1, 80);
    c.log << name << " loads (fuzzy " << use_fuzzy << ")\n" << show(cat);
    ++steps;
    HookStream in(out, piece);
    tg::POParser::parse(name + ".po", in, *d, use_fuzzy);
    // all of it counts
    if (rule < 0) rule = file_rule;
    for (auto& x : cat.messages) {
      if (x.fuzzy && !use_fuzzy) continue;
      std::vector<std::string> v;
      for (auto& s : x.str) { std::string r = s; if (cat.header && upper(charset) != "UTF-8") { if (iconv_once(charset, "UTF-8", s, r) != Conv::ok) abort(); } v.push_back(r); }
      m[Key(x.ctxt, x.id)] = v;
    }
    verify("after loading");
  }
};

struct ConvActor : Actor {
  ConvActor(Case& c_, const std::string& n) : Actor(c_, n) {}
  std::unique_ptr<tg::IConv> conv{new tg::IConv};
  std::string from = "UTF-8", to = "UTF-8";
  void step() override
  {
    if (!steps || t.chance(60)) {
      static const std::vector<std::string> cs = {"ISO-8859-1", "UTF-16", "ISO-2022-JP", "BIG5", "UTF-7", "UTF-8"};
      to = t.pick(cs);
      from = "UTF-8";
      c.log << name << " set_charsets to " << to << "\n";
      conv->set_charsets(from, to);
    }
    static const std::vector<std::string> texts = {"plain", "a\xc3\xa4", "\xe5\x8a\x9f\xe4\xb8\x80", "x\xc3", "\xe6\x97\xa5\xe6\x9c\xac", "\xff", "\xc3\xa4\xc3\xb6\xc3\xbc\xc3\x9f"};
    std::string s = t.pick(texts), e, raw;
    c.log << name << " converts " << quote(s) << "\n";
    Conv r = to == from ? (e = s, Conv::ok) : iconv_once(to, from, s, e, &raw);
    std::string a = conv->convert(s);
    c.check(a == e || (r == Conv::bad_input && a == raw), "converter", [&] { return name + " to " + to + " of " + quote(s) + " gives " + quote(a) + ", expected " + quote(e); });
    ++steps;
  }
};

struct ManagerActor : Actor {
  ManagerActor(Case& c_, const std::string& n) : Actor(c_, n)
  {
    o.codes = {"de"};
    o.codes.push_back(t.pick(rich_codes()));
    o.max_files = 3;
    o.fuzzy = true;
    o.charsets = true;
    o.noise = false;
    for (auto d : {"d0", "d1"}) if (!t.chance(60)) { state->world.dirs[d] = gen_dir(t, name + d, o); }
    m.reset(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new HookFileSystem(state)), cfg.charset));
    c.log << name << " manager\n" << show(state->world);
    for (auto d : {"d0", "d1"}) if (!t.chance(60)) { m->add_directory(d); cfg.path.push_back(d); c.log << name << " add " << d << "\n"; }
  }
  std::shared_ptr<WorldFileSystem::State> state = std::make_shared<WorldFileSystem::State>();
  WorldOptions o;
  Config cfg;
  std::unique_ptr<tg::DictionaryManager> m;
  tg::Language current;
  Dump unselected; // stored by us while no language is selected

  void step() override
  {
    ++steps;
    if (!current) {
      tg::Dictionary& d = m->get_dictionary();
      Dump a = dump(d);
      for (auto& e : a) {
        auto own = unselected.find(e.first);
        c.check(own != unselected.end() && own->second == e.second, "no-language", [&] { return name + ": " + quote(e.first.second) + " is not of its own"; });
      }
      if (t.chance(128)) {
        std::string id = name + std::to_string(unselected.size());
        c.log << name << " stores " << id << " without a language\n";
        unselected[Key(std::nullopt, id)] = {"text of " + name};
        d.add_translation(id, "text of " + name);
      }
    }
    switch (t.range(0, 5)) {
      case 0: cfg.fuzzy = t.chance(128); c.log << name << " fuzzy " << cfg.fuzzy << "\n"; m->set_use_fuzzy(cfg.fuzzy); break;
      case 1: cfg.charset = t.chance(128) ? "ISO-8859-1" : "UTF-8"; c.log << name << " charset " << cfg.charset << "\n"; m->set_charset(cfg.charset); break;
      case 2: current = gen_language(t, o.codes); c.log << name << " language " << current.str() << "\n"; m->set_language(current); break;
      default: break;
    }
    c.check(m->get_use_fuzzy() == cfg.fuzzy && m->get_language() == current, "manager-settings", name);
    tg::Language l = current && t.chance(128) ? current : gen_language(t, o.codes);
    tg::Dictionary& d = l == current ? m->get_dictionary() : m->get_dictionary(l);
    std::string s = check_dictionary(*m, d, state->world, cfg, l);
    c.check(s.empty(), "manager", [&] { return name + ": " + s; });
    std::set<tg::Language> a = m->get_languages(), e = expected_languages(state->world, cfg);
    c.check(a == e, "manager-languages", name);
  }
};

// leaves loads in every unfinished state
struct PoisonActor : Actor {
  PoisonActor(Case& c_, const std::string& n) : Actor(c_, n) {}
  void step() override
  {
    static const std::vector<std::string> v = {
      "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\n\"\n\nmsgid \"a\"\nmsgstr \"\xa5\x5c\"\n", "#, fuzzy\n", "#, fuzzy\nmsgid \"a\"\nmsgstr \"x", "msgctxt \"x\"\nmsgid \"a\"\n", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c",
      "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NO-SUCH\\n\"\n", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;\\n\"\n\njunk", "\xef\xbb\xbfmsgid", "msgctxt", "msgid \"a\"\nmsgstr \"b\\"};
    std::string s = t.pick(v);
    if (t.chance(60)) s += t.pick(v);
    c.log << name << " damaged load " << quote(s) << "\n";
    tg::Dictionary d(t.chance(128) ? "UTF-8" : "ISO-8859-1");
    HookStream in(s, 16, t.chance(60));
    try { tg::POParser::parse(name, in, d, t.chance(128)); } catch (Failure&) { throw; } catch (std::exception&) {}
    static const std::vector<std::string> h = {"Plural-Forms: nplurals=2; plural=(n != 1);", "Plural-Forms: nplurals=1; plural=0;", "Plural-Forms: nplurals=5; plural=n;", "", "Plural-Forms:"};
    tg::PluralForms::from_string(t.pick(h));
    std::string line = near_rule(t);
    int r = rule_alone(line);
    tg::PluralForms f = tg::PluralForms::from_string(line);
    if (r != -2) c.check(r == -1 ? !f : f && f.get_nplural() == rules()[static_cast<size_t>(r)].n && f.get_plural(5) == rules()[static_cast<size_t>(r)].f(5), "plural-rule", [&] { return name + ": " + line; });
    tg::Language::from_env(t.chance(128) ? "xx_YY" : "de_DE.UTF-8@euro");
    try { tg::IConv x("UTF-8", t.chance(128) ? "NO-SUCH" : "UTF-16"); x.convert("\xc3"); } catch (std::exception&) {}
    ++steps;
  }
};

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  std::vector<std::unique_ptr<Actor>> actors;
  struct Clear { ~Clear() { g_hook = nullptr; g_depth = 0; } } clear;
  size_t n = t.range(2, 6);
  for (size_t i = 0; i < n; ++i) {
    std::string name(1, static_cast<char>('A' + i));
    switch (t.range(0, 5)) {
      case 3: actors.emplace_back(new ConvActor(c, name)); break;
      case 4: actors.emplace_back(new ManagerActor(c, name)); break;
      case 5: actors.emplace_back(new PoisonActor(c, name)); break;
      default: actors.emplace_back(new DictActor(c, name));
    }
  }
  auto one = [&] {
    Actor& a = *actors[t.range(0, actors.size() - 1)];
    if (a.busy) return;
    a.busy = true;
    struct Free { Actor& a; ~Free() { a.busy = false; } } free{a};
    a.step();
  };
  unsigned nested = 0;
  // Failures must not travel through the library's stream handling
  std::unique_ptr<Failure> inner;
  g_hook = [&] {
    if (nested > 12 || inner || !t.chance(40)) return;
    ++nested;
    c.log << "(while that runs)\n";
    try { one(); } catch (Failure& f) { inner.reset(new Failure(f)); }
    c.log << "(continued)\n";
  };
  size_t steps = t.length(16, 7) + 2;
  for (size_t i = 0; i < steps; ++i) {
    one();
    if (inner) throw *inner;
  }
  g_hook = nullptr;
  unsigned active = 0;
  for (auto& a : actors) {
    if (auto* d = dynamic_cast<DictActor*>(a.get())) d->verify("at the end");
    if (a->steps > 1) ++active;
  }
  c.feed(c.log.str());
  if (nested) c.label("nested");
  c.nontrivial = active > 2;
}

// files that leave a loader in every state there is
std::vector<std::string> state_files()
{
  auto head = [](const std::string& cs, const std::string& rest = "") { return "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + cs + "\\n" + rest + "\"\n\n"; };
  std::string one = "msgid \"a\"\nmsgstr \"one\"\n\n", two = "msgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"n0\"\nmsgstr[1] \"n1\"\nmsgstr[2] \"n2\"\n\n";
  std::vector<std::string> v = {
    "", "\n", one, two, one + two, "\xef\xbb\xbf" + one, "\xef\xbb\xbf", head("UTF-8") + one + "msgid \"u\"\nmsgstr \"\xc3\xa4\"\n", head("ISO-8859-1") + one + "msgid \"u\"\nmsgstr \"\xe4\"\n",
    head("BIG5") + one + "msgid \"u\"\nmsgstr \"\xa5\x5c\xb3\x5c\"\n", head("BIG5") + "msgid \"a\"\nmsgstr \"\xa5\x5c\"", head("NO-SUCH") + one, head("CHARSET") + one, head("UTF-8") + "msgid \"u\"\nmsgstr \"\xff\xc3\"\n",
    "#, fuzzy\n", "#, fuzzy\n" + one, "#, fuzzy\n\n" + one, one + "#, fuzzy", "#, c-format, fuzzy\n" + two, "#, c-format\n" + two, "#, fuzzy\n" + head("UTF-8") + one, "#, fuzzy\n" + head("BIG5") + one,
    "msgctxt \"x\"\n" + one, "msgctxt \"x\"\n", "msgctxt \"x\"\n" + two, "msgctxt \"\"\n" + one, "msgctxt", "msgid", "msgstr \"x\"\n", "msgid \"a\"\n", "msgid \"a\"\nmsgstr \"x", "msgid \"a\"\nmsgstr \"b\\", "junk\n" + one, "junk",
    "msgid \"a\"\njunk\n\n" + two, "msgid \"b\"\nmsgid_plural \"c\"\n", "msgid \"b\"\nmsgid_plural \"c\"\nmsgstr[0] \"d", "msgid \"b\"\nmsgid_plural \"c\"\nmsgstr[1] \"d\"\n", "#~ msgid \"old\"\n#~ msgstr \"x\"\n", "# comment\n" + one, "msgid \"a\"\nmsgstr \"b\" x\n", "msgid \"a\"\nmsgstr \"\\q\"\n",
    "msgid \"a\"\nmsgstr \"\"\n", "msgid \"\"\nmsgstr \"\"\n\n" + one, one + one, one + "msgid \"a\"\nmsgstr \"other\"\n", "msgid \"a\"\nmsgstr \"long " + std::string(5000, 'x') + "\"\n", std::string(3000, '\n') + one, "msgid \"a\"\r\nmsgstr \"b\"\r\n"};
  for (size_t i = 0; i < rules().size(); i += 2) v.push_back(head("UTF-8", std::string("Plural-Forms: ") + rules()[i].header + "\\n") + two);
  v.push_back(head("ISO-8859-1", std::string("Plural-Forms: ") + rules()[3].header + "\\n") + two);
  v.push_back(head("UTF-8", "Plural-Forms: nplurals=2; plural=no such;\\n") + two);
  v.push_back(head("UTF-8", "Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;\\n") + two);
  v.push_back(head("UTF-8", std::string("Plural-Forms: ") + rules()[1].header + "\\n") + "msgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"n0");
  return v;
}

// a file loaded into a dictionary of its own, reports and all
std::string load_alone(const std::string& file, unsigned settings)
{
  LogCapture::reset();
  tg::Dictionary d(settings & 2 ? "ISO-8859-1" : "UTF-8");
  std::istringstream in(file);
  std::string r;
  try { tg::POParser::parse("f.po", in, d, !(settings & 1)); } catch (std::exception& e) { r = std::string("exception ") + e.what(); }
  tg::PluralForms p = d.get_plural_forms();
  r += show(dump(d)) + std::to_string(static_cast<bool>(p)) + std::to_string(p.get_nplural()) + std::to_string(p.get_plural(1)) + std::to_string(p.get_plural(7)) + d.get_charset();
  for (auto& x : LogCapture::texts) r += quote(x);
  LogCapture::reset();
  return r;
}

// what a fresh process gives
std::string in_fresh_process(const std::function<std::string()>& f)
{
  int p[2];
  if (pipe(p)) abort();
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) {
    std::string r = f();
    for (size_t i = 0; i < r.size();) { ssize_t n = write(p[1], r.data() + i, r.size() - i); if (n <= 0) _exit(1); i += static_cast<size_t>(n); }
    _exit(0);
  }
  close(p[1]);
  std::string r;
  char buf[4096];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) r.append(buf, static_cast<size_t>(n));
  close(p[0]);
  int status;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  return r;
}

std::vector<Example> examples()
{
  return {
    {"every file after every other", [](Case& c) {
      std::vector<std::string> v = state_files();
      for (unsigned settings = 0; settings < 4; ++settings) {
        std::vector<std::string> alone;
        for (auto& b : v) alone.push_back(in_fresh_process([&] { return load_alone(b, settings); }));
        for (size_t a = 0; a < v.size(); ++a)
          for (unsigned other = 0; other < 4; ++other)
            for (size_t b = 0; b < v.size(); ++b) {
              load_alone(v[a], other);
              std::string got = load_alone(v[b], settings);
              c.check(got == alone[b], "load-depends-on-an-earlier-one", [&] { return "after " + quote(v[a].substr(0, 500)) + " (settings " + std::to_string(other) + ") the file " + quote(v[b].substr(0, 500)) + " gives\n" + got.substr(0, 2000) + "\ninstead of\n" + alone[b].substr(0, 2000); });
            }
      }
    }},
    {"every rule after every other", [](Case& c) {
      for (auto& a : rules()) for (auto& b : rules()) {
        tg::PluralForms::from_string(std::string("Plural-Forms: ") + a.header);
        tg::PluralForms::from_string("Plural-Forms: nplurals=9; plural=" + std::to_string(&a - &rules()[0]) + ";");
        tg::PluralForms f = tg::PluralForms::from_string(std::string("Plural-Forms: ") + b.header);
        c.check(f && f.get_nplural() == b.n, "plural-rule", [&] { return std::string(b.header) + " after " + a.header; });
        for (int n = 0; n < 130; ++n) c.check(f.get_plural(n) == b.f(n), "plural-rule", [&] { return std::string(b.header) + " after " + a.header + " for " + std::to_string(n); });
      }
    }},
    {"hundreds of dictionaries at once", [](Case& c) {
      static const char* const cs[] = {"UTF-8", "ISO-8859-1", "UTF-16LE", "ISO-8859-15", "utf-8"};
      const size_t N = 700;
      std::vector<std::unique_ptr<tg::Dictionary>> d;
      for (size_t i = 0; i < N; ++i) d.emplace_back(new tg::Dictionary(cs[i % 5]));
      auto text = [](size_t i, unsigned round) { return "t" + std::to_string(i) + "/" + std::to_string(round) + "\xc3\xa4"; };
      auto conv = [&](size_t i, const std::string& s) { std::string r = s; if (upper(cs[i % 5]) != "UTF-8" && iconv_once(cs[i % 5], "UTF-8", s, r) != Conv::ok) abort(); return r; };
      for (unsigned round = 0; round < 3; ++round)
        for (size_t k = 0; k < N; ++k) {
          size_t i = (k * 263) % N;
          const Rule& r = rules()[i % rules().size()];
          std::string f = std::string("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: ") + r.header + "\\n\"\n\nmsgid \"a\"\nmsgstr \"" + text(i, round) + "\"\n\nmsgid \"own " + std::to_string(i) + " " + std::to_string(round) + "\"\nmsgstr \"x\"\n";
          std::istringstream in(f);
          tg::POParser::parse("f.po", in, *d[i]);
        }
      for (size_t i = 0; i < N; ++i) {
        Dump e;
        e[Key(std::nullopt, "a")] = {conv(i, text(i, 2))};
        for (unsigned round = 0; round < 3; ++round) e[Key(std::nullopt, "own " + std::to_string(i) + " " + std::to_string(round))] = {conv(i, "x")};
        Dump a = dump(*d[i]);
        c.check(a == e, "dictionary", [&] { return "number " + std::to_string(i) + ": " + diff(e, a); });
        c.check(d[i]->get_charset() == cs[i % 5], "charset", std::to_string(i));
        const Rule& r = rules()[i % rules().size()];
        tg::PluralForms p = d[i]->get_plural_forms();
        bool same = p && p.get_nplural() == r.n;
        for (int n = 0; same && n < 120; ++n) same = p.get_plural(n) == r.f(n);
        c.check(same, "plural-rule", std::to_string(i));
      }
      // gone ones do not take others along
      for (size_t i = 0; i < N; i += 2) d[i].reset();
      for (size_t i = 1; i < N; i += 2) c.check(d[i]->translate("a") == conv(i, text(i, 2)), "dictionary", [&] { return "number " + std::to_string(i) + " after others were destroyed"; });
    }},
    {"hundreds of converters at once", [](Case& c) {
      static const char* const cs[] = {"ISO-8859-1", "UTF-16", "ISO-2022-JP", "BIG5", "UTF-7", "UTF-8", "UTF-16BE", "EUC-JP"};
      static const std::string texts[] = {"plain", "\xe4\xb8\x80", "x\xe6\x97\xa5\xe6\x9c\xac", "", "cut \xe4\xb8"};
      const size_t N = 500;
      std::vector<std::unique_ptr<tg::IConv>> v;
      for (size_t i = 0; i < N; ++i) { v.emplace_back(new tg::IConv); v.back()->set_charsets("UTF-8", cs[i % 8]); }
      for (size_t k = 0; k < 6 * N; ++k) {
        size_t i = (k * 211) % N;
        if (k % 97 == 0) { v[i].reset(new tg::IConv("UTF-8", cs[i % 8])); }
        const std::string& s = texts[(k / 3) % 5];
        std::string e, raw;
        Conv r = i % 8 == 5 ? (e = s, Conv::ok) : iconv_once(cs[i % 8], "UTF-8", s, e, &raw);
        std::string a = v[i]->convert(s);
        c.check(a == e || (r == Conv::bad_input && a == raw), "converter", [&] { return "number " + std::to_string(i) + " to " + cs[i % 8] + " of " + quote(s) + " gives " + quote(a) + ", expected " + quote(e); });
      }
    }},
    {"hundreds of managers at once", [](Case& c) {
      const size_t N = 200;
      std::vector<std::unique_ptr<tg::DictionaryManager>> v;
      static const char* const langs[] = {"de", "de_AT", "fr", "sr@latin", "pt_BR"};
      auto po = [](size_t i, const char* dir) {
        FileModel f;
        f.name = std::string(langs[i % 5]) + ".po";
        f.raw = std::string("msgid \"a\"\nmsgstr \"") + dir + " " + std::to_string(i) + "\"\n";
        return f;
      };
      for (size_t i = 0; i < N; ++i) {
        auto st = std::make_shared<WorldFileSystem::State>();
        for (auto dir : {"d0", "d1"}) st->world.dirs[dir] = {po(i, dir)};
        v.emplace_back(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(st))));
        v.back()->add_directory("d0");
        if (i % 3 == 0) v.back()->add_directory("d1");
        if (i % 4 == 0) v.back()->set_use_fuzzy(false);
        if (i % 7) v.back()->set_language(tg::Language::from_name(langs[i % 5]));
      }
      for (unsigned round = 0; round < 3; ++round)
        for (size_t k = 0; k < N; ++k) {
          size_t i = (k * 83) % N;
          tg::Language l = tg::Language::from_name(langs[i % 5]);
          bool d1 = i % 3 == 0 && round != 1;
          if (i % 3 == 0) { if (round == 1) v[i]->remove_directory("d1"); else v[i]->add_directory("d1"); }
          std::string e = std::string(d1 ? "d1" : "d0") + " " + std::to_string(i), a = v[i]->get_dictionary(l).translate("a"), b = v[i]->get_dictionary().translate("a");
          if (i % 7 == 0) c.check(b == "a" && !v[i]->get_language(), "no-language", std::to_string(i));
          else c.check(b == a && v[i]->get_language() == l, "manager-settings", std::to_string(i));
          // which of two directories wins is decided elsewhere
          c.check(a == e || (d1 && a == "d0 " + std::to_string(i)), "manager", [&] { return "number " + std::to_string(i) + " gives " + quote(a) + ", expected " + quote(e); });
          c.check(v[i]->get_use_fuzzy() == (i % 4 != 0), "manager-settings", std::to_string(i));
          c.check(v[i]->get_languages() == std::set<tg::Language>{l}, "manager-languages", std::to_string(i));
        }
    }},
    {"the same load over and over", [](Case& c) {
      std::vector<std::string> v = state_files();
      for (auto& f : v) {
        std::string first = in_fresh_process([&] { return load_alone(f, 0); });
        for (int i = 0; i < 300; ++i) { std::string a = load_alone(f, 0); c.check(a == first, "load-depends-on-an-earlier-one", [&] { return "time " + std::to_string(i) + " of " + quote(f.substr(0, 500)) + "\n" + a.substr(0, 1500); }); }
      }
      std::string first = in_fresh_process([&] { return load_alone(v[7], 0); });
      for (int i = 0; i < 70000; ++i) { std::string a = load_alone(v[7], 0); c.check(a == first, "load-depends-on-an-earlier-one", [&] { return "time " + std::to_string(i) + " of " + quote(v[7]) + "\n" + a.substr(0, 1500); }); }
    }},
  };
}
} // namespace pbt
