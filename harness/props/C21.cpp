// C21: independent objects in several threads, and shared dictionaries that are only read.
#include "charset.hpp"
#include "langs.hpp"
#include "manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <atomic>
#include <cerrno>
#include <filesystem>
#include <fstream>
#include <iconv.h>
#include <iostream>
#include <streambuf>
#include <thread>

#include <sched.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*cb)(void));

using namespace model;
namespace fs = std::filesystem;

namespace pbt {
const char* const property_id = "C21";
const char* const property_rule =
  "two to four threads, in a process of its own for every case (so that even the library's first use is concurrent), each with a random program of loads, "
  "rule, language and charset operations and managers on objects of its own, and of lookups in shared dictionaries, under ThreadSanitizer; every result is "
  "compared with that of the same program run alone afterwards; non-trivial: at least two threads with two operations each, two of them on the same part "
  "of the library";

namespace {

const std::vector<std::string>& charsets()
{
  static const std::vector<std::string> v = {"UTF-8", "ISO-8859-1", "UTF-16LE", "BIG5"};
  return v;
}

// the C library's converters come and go under a lock that is not seen from outside: keep them
void hold_converters()
{
  static bool done = false;
  if (done) return;
  done = true;
  for (auto& a : charsets()) for (auto& b : charsets()) (void)iconv_open(a.c_str(), b.c_str());
  (void)iconv_open("UTF-8", "NO-SUCH");
}

// what a thread's operations log comes to that thread, as it does when it runs alone
thread_local uint64_t logged = 0;
void on_log(const std::string& s) { for (unsigned char ch : s) logged = logged * 1099511628211u + ch + 1; }

// takes the place of the error stream, keeps nothing
struct Nowhere : std::streambuf {
  int_type overflow(int_type ch) override { return traits_type::not_eof(ch); }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

struct Local { // a thread's own objects
  std::map<std::string, std::unique_ptr<tg::Dictionary>> dicts;
  std::unique_ptr<tg::IConv> conv;
  std::unique_ptr<tg::DictionaryManager> manager;
  tg::Dictionary& dict(const std::string& charset)
  {
    auto& d = dicts[charset];
    if (!d) d.reset(new tg::Dictionary(charset));
    return *d;
  }
};

using Op = std::function<std::string(Local&)>;

std::string all_of(tg::Dictionary& d) { return show(dump(d)); }

std::string look_up(const tg::Dictionary& d, const std::string& id, int n)
{
  return d.translate(id) + "|" + d.translate_plural(id, id + "s", n) + "|" + d.translate_ctxt("x", id) + "|" + d.translate_ctxt_plural("x", id, id + "s", n) + "|" +
         d.get_charset() + (d.get_plural_forms() ? "+" : "-");
}

struct Plan {
  std::unique_ptr<tg::Dictionary> base, shared;   // read by all threads
  std::unique_ptr<tg::DictionaryManager> manager; // gave `given`
  tg::Dictionary* given = nullptr;
  std::vector<std::vector<Op>> programs;
  std::vector<std::set<std::string>> parts;
  std::string dir;
};

std::string gen_po(Tape& t)
{
  GenOptions o;
  o.fuzzy = true;
  o.shared_keys = true;
  o.max_messages = 5;
  o.id_chars = o.str_chars = Chars::ascii;
  Catalogue cat = gen_catalogue(t, o);
  cat.charset = t.chance(100) ? t.pick(charsets()) : "UTF-8";
  if (cat.charset == "UTF-16LE" || t.chance(20)) cat.charset = "NO-SUCH";
  if (!t.chance(60)) cat.rule = static_cast<int>(t.range(0, rules().size() - 1));
  std::string s = serialise(cat);
  if (t.chance(50) && !s.empty()) s.erase(t.range(0, s.size() - 1), 1 + t.length(10, 3));
  return s;
}

std::string gen_language_name(Tape& t)
{
  static const std::vector<std::string> v = {"german", "french", "bokmal", "no_such", "C", "", "polish", "deutsch", "ja_JP.ujis"};
  if (t.chance(80)) return t.pick(v);
  auto& s = specs()[t.range(0, specs().size() - 1)];
  std::string r = s.language;
  if (*s.country) r += std::string("_") + s.country;
  if (*s.modifier) r += std::string("@") + s.modifier;
  return r;
}

Op gen_op(Case& c, Plan& p, bool first_use, std::set<std::string>& parts)
{
  Tape& t = c.t;
  switch (t.range(0, first_use ? 4 : 8)) {
    default: { // load
      std::string s = gen_po(t), cs = t.pick(charsets());
      bool fuzzy = t.chance(128);
      parts.insert("load");
      c.log << "  load into " << cs << " fuzzy " << fuzzy << " " << quote(s) << "\n";
      return [=](Local& l) {
        std::istringstream in(s);
        std::string e;
        try { tg::POParser::parse("f.po", in, l.dict(cs), fuzzy); } catch (std::exception& x) { e = x.what(); }
        return all_of(l.dict(cs)) + e;
      };
    }
    case 1: { // rule
      std::string h = std::string("Plural-Forms: ") + rules()[t.range(0, rules().size() - 1)].header;
      if (t.chance(60)) h += "x";
      int n = static_cast<int>(t.range(0, 200));
      parts.insert("rule");
      c.log << "  rule " << h << " for " << n << "\n";
      return [=](Local&) { tg::PluralForms f = tg::PluralForms::from_string(h); return f ? std::to_string(f.get_nplural()) + " " + std::to_string(f.get_plural(n)) : std::string("none"); };
    }
    case 2: { // languages
      std::string a = gen_language_name(t), b = gen_language_name(t);
      parts.insert("language");
      c.log << "  languages " << quote(a) << " " << quote(b) << "\n";
      return [=](Local&) {
        tg::Language x = tg::Language::from_name(a), y = tg::Language::from_env(b);
        std::string r = (x ? x.str() + x.get_name() : "none") + "," + (y ? y.str() + y.get_name() : "none");
        if (x && y) r += std::to_string(tg::Language::match(x, y)) + (x == y ? "=" : "!");
        return r;
      };
    }
    case 3: { // converters
      std::string from = t.pick(charsets()), to = t.pick(charsets()), s = gen_text(t, Chars::utf8);
      if (t.chance(30)) to = "NO-SUCH";
      parts.insert("converter");
      c.log << "  convert " << from << " to " << to << " " << quote(s) << "\n";
      return [=](Local& l) {
        if (!l.conv) l.conv.reset(new tg::IConv);
        try { l.conv->set_charsets(from, to); return l.conv->convert(s); } catch (std::exception& x) { return std::string(x.what()); }
      };
    }
    case 4: { // own dictionary
      std::string id = gen_key(t), s = gen_text(t, Chars::ascii), cs = t.pick(charsets());
      int n = static_cast<int>(t.range(0, 30));
      bool plural = t.chance(128), ctxt = t.chance(128);
      parts.insert("own");
      c.log << "  store and look up " << quote(id) << " " << quote(s) << "\n";
      return [=](Local& l) {
        auto& d = l.dict(cs);
        if (plural && ctxt) d.add_translation("x", id, "p", std::vector<std::string>{s, s + "2"});
        else if (plural) d.add_translation(id, "p", std::vector<std::string>{s, s + "2"});
        else if (ctxt) d.add_translation("x", id, s);
        else d.add_translation(id, s);
        return look_up(d, id, n);
      };
    }
    case 5: case 6: { // shared dictionary
      std::string id = gen_key(t);
      int n = static_cast<int>(t.range(0, 30));
      bool given = p.given && t.chance(128);
      const tg::Dictionary* d = given ? p.given : p.shared.get();
      parts.insert("shared");
      c.log << "  look up in " << (given ? "the manager's" : "the shared") << " dictionary " << quote(id) << " " << n << "\n";
      return [=](Local&) { return look_up(*d, id, n); };
    }
    case 7: { // manager of its own
      auto state = std::make_shared<World>();
      WorldOptions o;
      o.codes = {"de", t.pick(rich_codes())};
      o.fuzzy = true;
      o.max_files = 2;
      for (auto d : {"d0", "d1"}) if (!t.chance(60)) state->dirs[d] = gen_dir(t, d, o);
      tg::Language l = gen_language(t, o.codes);
      std::string cs = t.chance(128) ? "UTF-8" : "ISO-8859-1";
      parts.insert("manager");
      c.log << "  manager " << l.str() << " " << cs << "\n" << show(*state);
      return [=](Local& x) {
        auto s = std::make_shared<WorldFileSystem::State>();
        s->world = *state;
        x.manager.reset(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(s)), cs));
        x.manager->add_directory("d0");
        x.manager->add_directory("d1", true);
        std::string r;
        for (auto& k : x.manager->get_languages()) r += k.str() + " ";
        x.manager->set_language(l);
        return r + fingerprint(x.manager->get_dictionary());
      };
    }
    case 8: { // manager on disk
      std::string dir = p.dir;
      tg::Language l = gen_language(t, {"de", "fr"});
      parts.insert("disk");
      c.log << "  manager on disk " << l.str() << "\n";
      return [=](Local& x) {
        x.manager.reset(new tg::DictionaryManager);
        x.manager->add_directory(dir);
        x.manager->add_directory(dir + "/missing");
        std::string r;
        for (auto& k : x.manager->get_languages()) r += k.str() + " ";
        return r + fingerprint(x.manager->get_dictionary(l));
      };
    }
  }
}

struct Scratch {
  Scratch()
  {
    char b[] = "c21-XXXXXX";
    if (!mkdtemp(b)) abort();
    dir = b;
  }
  ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
  std::string dir;
};

// Everything happens here, in the child
void in_child(Case& c, const std::string& scratch, const std::function<void()>& about_to_start)
{
  Tape& t = c.t;
  static Nowhere nowhere;
  std::cerr.rdbuf(&nowhere);
  unsigned receivers = static_cast<unsigned>(t.range(0, 7)); // mostly ours, else the default ones or none
  auto receiver = [&](unsigned other) { return receivers == other ? nullptr : receivers == 7 || receivers == other + 3 ? &tg::Log::default_log_callback : &on_log; };
  tg::Log::set_log_info_callback(receivers == 7 ? nullptr : receiver(1));
  tg::Log::set_log_warning_callback(receiver(2));
  tg::Log::set_log_error_callback(receiver(3));
  c.label(receivers ? "other receivers" : "recording receivers");
  c.log << "receivers " << receivers << "\n";
  Plan p;
  p.dir = scratch;
  bool first_use = t.chance(110);
  c.label(first_use ? "first use" : "later use");
  if (!first_use) {
    all_keys();
    p.base.reset(new tg::Dictionary);
    p.shared.reset(new tg::Dictionary);
    p.shared->addFallback(p.base.get());
    for (auto d : {p.shared.get(), p.base.get()}) {
      std::string s = gen_po(t);
      c.log << "shared: " << quote(s) << "\n";
      std::istringstream in(s);
      try { tg::POParser::parse("f.po", in, *d); } catch (std::exception&) {}
    }
    for (auto f : {"de.po", "de_AT.po", "fr.po"}) { std::ofstream o(scratch + "/" + f); o << gen_po(t); }
    if (t.chance(128)) {
      p.manager.reset(new tg::DictionaryManager);
      p.manager->add_directory(scratch);
      p.given = &p.manager->get_dictionary(tg::Language::from_name("de_AT"));
    }
  }
  size_t n = t.range(2, 4);
  bool alike = t.chance(100); // all threads run the same program
  for (size_t i = 0; i < n; ++i) {
    if (i && alike) { p.programs.push_back(p.programs[0]); p.parts.push_back(p.parts[0]); continue; }
    c.log << "thread " << i << (alike ? " and all others" : "") << ":\n";
    std::vector<Op> ops;
    std::set<std::string> parts;
    size_t k = 1 + t.length(7, 3);
    for (size_t j = 0; j < k; ++j) ops.push_back(gen_op(c, p, first_use, parts));
    p.programs.push_back(ops);
    p.parts.push_back(parts);
  }
  uint64_t yields = t.range(0, 0xffffffff);
  unsigned times = first_use ? 1 : static_cast<unsigned>(t.range(1, 4));
  std::map<std::string, unsigned> used;
  unsigned busy = 0;
  for (size_t i = 0; i < n; ++i) { for (auto& x : p.parts[i]) ++used[x]; if (p.programs[i].size() > 1) ++busy; }
  bool common = false;
  for (auto& u : used) { c.label(u.first); common = common || u.second > 1; }
  c.nontrivial = busy > 1 && common;
  c.feed(c.log.str());
  about_to_start();

  std::vector<std::vector<std::string>> got(n);
  std::atomic<unsigned> ready{0};
  auto run = [&](size_t i, bool alone) {
    std::vector<std::string> r;
    for (unsigned k = 0; k < times; ++k) {
      Local l;
      for (size_t j = 0; j < p.programs[i].size(); ++j) {
        if (!alone && (yields >> ((i * 7 + j + k) % 32)) & 1) sched_yield();
        logged = 0;
        std::string s = p.programs[i][j](l);
        r.push_back(s + " (logged " + std::to_string(logged) + ")");
      }
    }
    return r;
  };
  std::vector<std::thread> threads;
  for (size_t i = 0; i < n; ++i) threads.emplace_back([&, i] {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < n) sched_yield();
    got[i] = run(i, false);
  });
  for (auto& x : threads) x.join();
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::string> alone = run(i, true);
    for (size_t j = 0; j < alone.size(); ++j)
      c.check(got[i][j] == alone[j], "other-result", [&] { return "thread " + std::to_string(i) + ", operation " + std::to_string(j) + ": " + quote(got[i][j]) + " instead of " + quote(alone[j]); });
  }
}

void put(int fd, char tag, const std::string& s)
{
  std::string m = tag + std::to_string(s.size()) + ":" + s;
  for (size_t i = 0; i < m.size();) {
    ssize_t k = write(fd, m.data() + i, m.size() - i);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) _exit(9);
    i += static_cast<size_t>(k);
  }
}

void once(Case& c, const std::string& scratch)
{
  int fd[2];
  if (pipe(fd)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) {
    close(fd[0]);
    __sanitizer_set_death_callback(nullptr);
    signal(SIGPROF, SIG_DFL);
    struct itimerval tv = {{0, 0}, {20, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(120);
    int rc = 0;
    Tape t(c.t.bytes().data(), c.t.bytes().size());
    Case k(t);
    try {
      in_child(k, scratch, [&] {
        put(fd[1], 'L', k.log.str());
        for (auto& x : k.labels) put(fd[1], 'l', x);
        put(fd[1], 'n', k.nontrivial ? "1" : "0");
      });
    }
    catch (Failure& f) { put(fd[1], 'k', f.kind); put(fd[1], 'd', f.detail); rc = 1; }
    catch (std::exception& e) { put(fd[1], 'k', "unexpected-exception"); put(fd[1], 'd', e.what()); rc = 1; }
    put(fd[1], 'a', std::to_string(k.assertions));
    _exit(rc);
  }
  close(fd[1]);
  std::string all;
  char buf[65536];
  for (;;) {
    ssize_t k = read(fd[0], buf, sizeof buf);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
    all.append(buf, static_cast<size_t>(k));
  }
  close(fd[0]);
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  std::map<char, std::string> m;
  for (size_t i = 0; i < all.size();) {
    size_t col = all.find(':', i);
    if (col == std::string::npos) break;
    size_t len = std::stoul(all.substr(i + 1, col - i - 1));
    std::string s = all.substr(col + 1, len);
    if (all[i] == 'l') c.label(s); else m[all[i]] = s;
    i = col + 1 + len;
  }
  c.log.str("");
  c.log << m['L'];
  c.feed(m['L']);
  c.nontrivial = m['n'] == "1";
  if (!m['a'].empty()) c.assertions += std::stoul(m['a']);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
  if (!m['k'].empty()) throw Failure{m['k'], m['d']};
  if (WIFEXITED(status) && WEXITSTATUS(status) == 66) c.fail("data-race", "reported by ThreadSanitizer");
  if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGALRM)) c.fail("hang", "the threads do not finish");
  c.fail("crash", "exit status " + std::to_string(status));
}

} // namespace

void property(Case& c)
{
  hold_converters();
  Scratch scratch;
  // the case is decoded in the child, so it needs its tape beforehand
  while (c.t.bytes().size() < 8000 && !c.t.exhausted()) c.t.byte();
  // what threads do differs from run to run: a replay has several tries
  for (int i = 0; i < (replaying ? 20 : 1); ++i) once(c, scratch.dir);
}

std::vector<Example> examples() { return {}; }
} // namespace pbt
