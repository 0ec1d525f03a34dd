// C24: the library only reads, and leaves the process as it found it.
#include "program.hpp"

#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <new>
#include <sys/inotify.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>

extern char** environ;

namespace pbt {
const char* const property_id = "C24";
const char* const property_rule =
  "a random program of loads (streams of the caller with random format flags, exception masks and locales, sound and broken files, unusable charsets), lookups, "
  "resolutions of names and rules, conversions and manager requests over in-memory and scratch directories runs in a process with random settings; after each "
  "step everything the process has (locale, working directory, environment, signals, descriptors, standard streams, threads, limits, files in its directories, "
  "random numbers, rounding) and the caller's stream are compared with the state before, writing system calls are counted, and the paths asked of the file "
  "system are compared with the search path and its listings; non-trivial: at least one load, conversion or manager step among three steps";

namespace {

// --- everything about the process ------------------------------------------------------------
std::string hex(unsigned long v) { char b[40]; snprintf(b, sizeof b, "%lx", v); return b; }

void tree(std::map<std::string, std::string>& out, const std::string& dir)
{
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  struct stat st;
  if (!stat(dir.c_str(), &st)) out[dir] = "mode " + hex(st.st_mode) + " mtime " + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec) + " owner " + std::to_string(st.st_uid);
  while (struct dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n;
    if (lstat(p.c_str(), &st)) continue;
    out[p] = "mode " + hex(st.st_mode) + " size " + std::to_string(st.st_size) + " inode " + std::to_string(st.st_ino) + " mtime " + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec);
    if (S_ISDIR(st.st_mode)) tree(out, p);
  }
  closedir(d);
}

std::string grouping(const std::locale& l) { std::string g = std::use_facet<std::numpunct<char>>(l).grouping(); return g.empty() ? "none" : hex(static_cast<unsigned char>(g[0])); }

struct Punct : std::numpunct<char> { std::string do_grouping() const override { return "\3"; } };

template<class S> std::string stream_state(S& s, bool state)
{
  return "flags " + hex(static_cast<unsigned long>(s.flags())) + " width " + std::to_string(s.width()) + " precision " + std::to_string(s.precision()) + " fill " + std::to_string(static_cast<int>(s.fill())) +
         " exceptions " + hex(static_cast<unsigned long>(s.exceptions())) + " tie " + std::to_string(s.tie() != nullptr) + " buffer " + hex(reinterpret_cast<unsigned long>(s.rdbuf())) +
         " locale " + s.getloc().name() + "/" + grouping(s.getloc()) + (state ? " state " + hex(static_cast<unsigned long>(s.rdstate())) : "");
}

// the directory all scratch things of the case are in, and an open file of ours
struct Room {
  std::string dir, old;
  int fd = -1, watch = -1;
  std::map<int, std::string> watched;
  // what happened to the files on disk since the last time
  std::string events()
  {
    std::string r;
    alignas(struct inotify_event) char b[8192];
    ssize_t n;
    while (watch >= 0 && (n = read(watch, b, sizeof b)) > 0)
      for (char* p = b; p < b + n;) {
        auto* e = reinterpret_cast<struct inotify_event*>(p);
        p += sizeof(struct inotify_event) + e->len;
        std::string name = e->len ? e->name : "";
        bool dir = e->mask & IN_ISDIR;
        if (e->mask & IN_OPEN) {
          if (dir || is_po(name) || name.empty()) continue;
          r += "opened ";
        }
        else if (e->mask & IN_CLOSE_WRITE) r += "opened for writing ";
        else if (e->mask & IN_ATTRIB) r += "attributes changed of ";
        else if (e->mask & (IN_CREATE | IN_MOVED_TO)) r += "created ";
        else if (e->mask & (IN_DELETE | IN_MOVED_FROM | IN_DELETE_SELF)) r += "removed ";
        else if (e->mask & IN_MODIFY) r += "modified ";
        else continue;
        r += watched[e->wd] + "/" + name + "; ";
      }
    return r;
  }
  Room()
  {
    char buf[] = "room-XXXXXX";
    if (!mkdtemp(buf)) abort();
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) abort();
    old = cwd;
    dir = old + "/" + buf;
    for (const char* n : {"", "/tmp", "/home", "/home/.cache", "/cwd", "/po", "/empty"}) mkdir((dir + n).c_str(), 0755);
    for (const char* n : {"/po/de.po", "/po/fi_FI.po", "/po/notes.txt", "/cwd/de.po", "/home/de.po"}) std::ofstream(dir + n) << "msgid \"a\"\nmsgstr \"" << n << "\"\n";
    if (chdir((dir + "/cwd").c_str())) abort();
    fd = open("de.po", O_RDONLY);
    lseek(fd, 3, SEEK_SET);
    watch = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
    for (auto& d : {dir, dir + "/tmp", dir + "/home", dir + "/home/.cache", dir + "/cwd", dir + "/po", dir + "/empty", scratch()}) {
      int w = watch < 0 ? -1 : inotify_add_watch(watch, d.c_str(), IN_OPEN | IN_CLOSE_WRITE | IN_ATTRIB | IN_CREATE | IN_MOVE | IN_DELETE | IN_DELETE_SELF | IN_MODIFY);
      if (w >= 0) watched[w] = d;
    }
  }
  ~Room()
  {
    close(fd);
    if (watch >= 0) close(watch);
    if (chdir(old.c_str())) abort();
    std::error_code e;
    std::filesystem::remove_all(dir, e);
  }
};

using State = std::map<std::string, std::string>;

State snapshot(const Room& r)
{
  State s;
  for (int c : {LC_CTYPE, LC_NUMERIC, LC_COLLATE, LC_MESSAGES, LC_TIME, LC_MONETARY}) s["C locale " + std::to_string(c)] = setlocale(c, nullptr);
  s["thread's locale"] = uselocale(nullptr) == LC_GLOBAL_LOCALE ? "global" : "own";
  s["C++ locale"] = std::locale().name() + "/" + grouping(std::locale());
  char cwd[4096];
  s["working directory"] = getcwd(cwd, sizeof cwd) ? cwd : "?";
  std::multiset<std::string> env;
  for (char** e = environ; *e; ++e) env.insert(*e);
  for (auto& e : env) s["environment"] += e + "\n";
  mode_t m = umask(0);
  umask(m);
  s["umask"] = std::to_string(m);
  for (int i = 1; i < 32; ++i) {
    struct sigaction a;
    if (!sigaction(i, nullptr, &a)) s["signal " + std::to_string(i)] = hex(reinterpret_cast<unsigned long>(a.sa_handler)) + " " + hex(static_cast<unsigned long>(a.sa_flags));
  }
  sigset_t set;
  sigemptyset(&set);
  sigprocmask(SIG_BLOCK, nullptr, &set);
  for (int i = 1; i < 32; ++i) if (sigismember(&set, i)) s["blocked signals"] += " " + std::to_string(i);
  struct itimerval it;
  for (int k : {ITIMER_REAL, ITIMER_VIRTUAL}) { getitimer(k, &it); s["timer"] += it.it_value.tv_sec || it.it_value.tv_usec ? "on " : "off "; }
  for (int k : {RLIMIT_NOFILE, RLIMIT_CORE, RLIMIT_STACK, RLIMIT_FSIZE, RLIMIT_AS}) { struct rlimit l; getrlimit(static_cast<__rlimit_resource>(k), &l); s["limit " + std::to_string(k)] = std::to_string(l.rlim_cur) + " " + std::to_string(l.rlim_max); }
  s["priority"] = std::to_string(getpriority(PRIO_PROCESS, 0));
  s["rounding"] = std::to_string(fegetround());
  s["new handler"] = hex(reinterpret_cast<unsigned long>(std::get_new_handler()));
  s["terminate handler"] = hex(reinterpret_cast<unsigned long>(std::get_terminate()));
  s["cin"] = stream_state(std::cin, true);
  s["cout"] = stream_state(std::cout, true);
  s["cerr"] = stream_state(std::cerr, true);
  s["clog"] = stream_state(std::clog, true);
  s["C streams"] = std::to_string(fwide(stdout, 0)) + std::to_string(fwide(stderr, 0)) + std::to_string(ferror(stdout)) + std::to_string(ferror(stderr)) + std::to_string(feof(stdin));
  for (int f : {0, 1, 2, r.fd}) {
    struct stat st;
    s["descriptor " + std::to_string(f)] = fstat(f, &st) ? "closed" : "inode " + std::to_string(st.st_ino) + " device " + std::to_string(st.st_dev) + " flags " + hex(static_cast<unsigned long>(fcntl(f, F_GETFL))) + " " + hex(static_cast<unsigned long>(fcntl(f, F_GETFD)));
  }
  s["position in the caller's file"] = std::to_string(lseek(r.fd, 0, SEEK_CUR));
  size_t threads = 0;
  if (DIR* d = opendir("/proc/self/task")) { while (readdir(d)) ++threads; closedir(d); }
  s["threads"] = std::to_string(threads);
  tree(s, r.dir);
  tree(s, scratch());
  return s;
}

// system calls that write, so far
unsigned long writes()
{
  int f = open("/proc/self/io", O_RDONLY);
  if (f < 0) return 0;
  char b[600];
  ssize_t n = read(f, b, sizeof b - 1);
  close(f);
  if (n <= 0) return 0;
  b[n] = 0;
  const char* p = strstr(b, "syscw:");
  return p ? strtoul(p + 6, nullptr, 10) : 0;
}

// what the C library remembers from call to call
struct Remembered {
  char list[12];
  int a = 0;
  double d = 0;
  struct tm* time;
  explicit Remembered(unsigned seed) : list("one,two,end")
  {
    srand48(static_cast<long>(seed)); d = drand48(); srand48(static_cast<long>(seed));
    srand(seed); a = rand(); srand(seed);
    strtok(list, ",");
    time_t t = 86400 * 1000;
    time = gmtime(&t);
  }
  // what is different, used once
  std::string differs()
  {
    std::string r;
    if (rand() != a) r += "rand() ";
    if (drand48() != d) r += "drand48() ";
    const char* second = strtok(nullptr, ",");
    if (!second || strcmp(second, "two")) r += "strtok() ";
    if (time->tm_year != 72 || time->tm_mday != 27) r += "gmtime() ";
    return r;
  }
};

// the process in some other state than the usual
struct Settings {
  std::ios base{nullptr}, base_err{nullptr};
  mode_t mask;
  void (*handler)(int);
  int round;
  explicit Settings(Tape& t)
  {
    mask = umask(t.chance(128) ? 022 : 027);
    handler = signal(SIGUSR1, t.chance(128) ? SIG_IGN : SIG_DFL);
    round = fegetround();
    base.copyfmt(std::cout);
    base_err.copyfmt(std::cerr);
    std::locale punct(std::locale::classic(), new Punct);
    if (t.chance(60)) std::cerr << std::hex << std::showbase << std::boolalpha << std::left;
    if (t.chance(40)) std::cerr.fill('.');
    if (t.chance(60)) { std::cerr.imbue(punct); std::cout.imbue(punct); std::cin.imbue(punct); std::clog.imbue(punct); }
    if (t.chance(60)) std::cout << std::hex << std::boolalpha;
    if (t.chance(60)) std::cout.precision(3);
    if (t.chance(60)) setenv("TEXTDOMAIN", "x", 1);
    if (t.chance(60)) setenv("LANGUAGE", "de:fr", 1);
    if (t.chance(60)) setenv("LANG", "de_DE.UTF-8", 1);
    static const std::vector<std::string> locales = {"tr_TR.UTF-8", "de_DE.ISO-8859-1", "C.UTF-8"};
    if (t.chance(60)) setlocale(t.chance(128) ? LC_ALL : LC_CTYPE, t.pick(locales).c_str());
    if (t.chance(30)) fesetround(FE_UPWARD);
    if (t.chance(60)) std::locale::global(punct);
  }
  ~Settings()
  {
    umask(mask);
    signal(SIGUSR1, handler);
    fesetround(round);
    std::locale::global(std::locale::classic());
    std::cin.imbue(std::locale::classic());
    std::clog.imbue(std::locale::classic());
    std::cerr.copyfmt(base_err);
    std::cout.copyfmt(base);
    for (const char* v : {"TEXTDOMAIN", "LANGUAGE", "LANG"}) unsetenv(v);
    setlocale(LC_ALL, "C");
  }
};

// --- what is asked of the file system --------------------------------------------------------
struct Asked { std::vector<std::string> dirs, files; };

class AskedFileSystem : public WorldFileSystem {
public:
  AskedFileSystem(std::shared_ptr<WorldFileSystem::State> s, std::shared_ptr<Asked> a) : WorldFileSystem(s), asked(a) {}
  std::vector<std::string> open_directory(const std::string& p) override { asked->dirs.push_back(p); return WorldFileSystem::open_directory(p); }
  std::unique_ptr<std::istream> open_file(const std::string& p) override { asked->files.push_back(p); return WorldFileSystem::open_file(p); }
  std::shared_ptr<Asked> asked;
};

// a load from a stream that has been set up in some way
Step gen_stream_load(Tape& t, std::string& problem)
{
  Step s;
  std::string note, content = t.chance(230) ? gen_content(t, note) : "junk \"";
  size_t i = t.range(0, 1);
  unsigned flags = t.byte(), kind = static_cast<unsigned>(t.range(0, 3));
  int width = static_cast<int>(t.range(0, 9));
  s.text = "load from a stream with settings " + std::to_string(flags) + "/" + std::to_string(kind) + "/" + std::to_string(width) + " " + brief(content);
  s.telling = true;
  s.run = [=, &problem](Objects& o) {
    std::istringstream text(content);
    std::stringstream both(content);
    std::istream& in = kind == 3 ? static_cast<std::istream&>(both) : text;
    if (flags & 1) in >> std::noskipws;
    if (flags & 2) in >> std::hex;
    if (flags & 4) in >> std::boolalpha;
    if (flags & 8) in.exceptions(std::ios::badbit);
    if (flags & 16) in.precision(11);
    if (flags & 32) in.imbue(std::locale(std::locale::classic(), new Punct));
    if (flags & 64) in.tie(&std::cout);
    if (flags & 128) in.fill('*');
    std::string before = stream_state(in, false), r = "done";
    bool thrown = false;
    try { tg::POParser::parse("f.po", in, *o.d[i], width & 1); }
    catch (std::exception& e) { thrown = true; r = "exception " + quote(e.what()); }
    std::string after = stream_state(in, false);
    if (before != after) problem = "the stream had " + before + " and has " + after;
    else if (!thrown && !in.eof()) problem = "the stream has not been read to its end";
    else if (in.bad()) problem = "the stream is bad";
    in.clear();
    if (kind == 3) {
      both.seekg(0);
      if (both.str() != content) problem = "the text of the stream has changed";
    }
    return r;
  };
  return s;
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  Objects o;
  scratch();
  for (int i = 0; i < 2; ++i) o.d.emplace_back(new tg::Dictionary(scramble(t, t.pick(targets()))));
  auto state = std::make_shared<WorldFileSystem::State>();
  auto asked = std::make_shared<Asked>();
  WorldOptions wo;
  wo.codes = {"fi", "id", "de", "it", "pt"};
  wo.charsets = true;
  wo.fuzzy = true;
  static const std::vector<std::string> odd = {"e2", "e2/", "e2//", "./e2", "e2/.", "", "/", ".", "e 2", "e2\\", "..", "e2/../e0", "E2", "e\xc3\xa4"};
  const std::string e2 = t.pick(odd);
  for (const std::string& d : {std::string("d0"), std::string("d1"), std::string("e0"), std::string("e1"), e2}) {
    state->world.dirs[d] = gen_dir(t, d, wo);
    for (auto& f : state->world.dirs[d]) if (f.po && t.chance(16)) set_fault(f, static_cast<Fault>(t.range(1, 3)));
  }
  if (t.chance(20)) state->world.unlistable.insert("d1");
  // of the step programs' managers this one is in memory, the other on disk
  o.m.reset(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new AskedFileSystem(state, asked))));
  std::set<std::string> path = {"d0"};
  o.m->add_directory("d0");
  const std::string sdir = scratch();
  Settings settings(t);
  Room room;
  tg::DictionaryManager disk;
  disk.add_directory(room.dir + "/po");
  size_t n = t.range(1, 8);
  size_t acting = 0;
  std::string problem;
  c.log << show(state->world);
  LogCapture::reset();
  std::ostringstream err;
  struct Redirect {
    std::streambuf* old = nullptr;
    ~Redirect() { if (old) std::cerr.rdbuf(old); }
  } redirect;
  if (t.chance(60)) { // the default receivers, whose output we keep
    redirect.old = std::cerr.rdbuf(err.rdbuf());
    tg::Log::set_log_info_callback(&tg::Log::default_log_callback);
    tg::Log::set_log_warning_callback(&tg::Log::default_log_callback);
    tg::Log::set_log_error_callback(&tg::Log::default_log_callback);
    c.log << "default receivers\n";
  }
  State before = snapshot(room);
  for (size_t i = 0; i < n; ++i) {
    Step s;
    unsigned k = static_cast<unsigned>(t.range(0, 7));
    if (k < 2) s = gen_stream_load(t, problem);
    else if (k < 4) {
      static const std::vector<std::string> langs = {"fi_FI", "de", "de_AT", "sr", "fr"}, dirs = {"/po", "/cwd", "/nothing", "/po/de.po", "/home", "/empty", "/po/", "/po/../cwd", "/home/."};
      std::string l = t.pick(langs), d = room.dir + t.pick(dirs);
      unsigned what = static_cast<unsigned>(t.range(0, 3));
      s.text = "disk manager " + std::to_string(what) + " " + l + " " + d;
      s.telling = true;
      s.run = [&, l, d, what](Objects&) {
        std::string r;
        switch (what) {
          case 0: r = fingerprint(disk.get_dictionary(tg::Language::from_env(l))); break;
          case 1: for (auto& x : disk.get_languages()) r += x.str() + " "; break;
          case 2: disk.add_directory(d); break;
          default: disk.set_charset(l == "de" ? "UTF-16" : "UTF-8"); disk.set_language(tg::Language::from_env(l)); r = fingerprint(disk.get_dictionary());
        }
        return r;
      };
    }
    else if (k == 4) {
      unsigned which = static_cast<unsigned>(t.range(0, 3));
      std::string d = which == 0 ? "e0" : which == 1 ? "e1" : e2;
      bool add = !t.chance(100), front = t.chance(60);
      s.text = std::string(add ? "add " : "remove ") + quote(d);
      s.run = [&path, d, add, front](Objects& x) {
        if (add) { x.m->add_directory(d, front); path.insert(d); } else { x.m->remove_directory(d); path.erase(d); }
        return std::string();
      };
    }
    else s = gen_step(t);
    c.log << s.text << "\n";
    if (s.telling) ++acting;
    asked->dirs.clear();
    asked->files.clear();
    LogCapture::reset();
    room.events();
    Remembered library(static_cast<unsigned>(i + 5));
    unsigned long w0 = writes();
    s.run(o);
    unsigned long w1 = writes();
    std::string forgotten = library.differs();
    c.check(w0 == w1, "wrote", [&] { return s.text + ": " + std::to_string(w1 - w0) + " writing system calls"; });
    c.check(forgotten.empty(), "library-state", [&] { return s.text + ": " + forgotten; });
    c.check(problem.empty(), "stream", [&] { return s.text + ": " + problem; });
    std::string events = room.events();
    c.check(events.empty(), "files", [&] { return s.text + ": " + events; });
    State after = snapshot(room);
    if (after != before)
      for (auto& m : {&before, &after}) for (auto& e : *m)
        c.check(before.count(e.first) && after.count(e.first) && before[e.first] == after[e.first], "process-changed",
                [&] { return s.text + ": " + e.first + ": before " + (before.count(e.first) ? before[e.first] : "nothing") + ", after " + (after.count(e.first) ? after[e.first] : "nothing"); });
    ++c.assertions;
    // "manager directory" steps name what they add or remove
    for (auto& d : {std::string("d0"), std::string("d1"), sdir}) path.insert(d);
    for (auto& d : asked->dirs) c.check(path.count(d) == 1, "directory-not-in-the-search-path", [&] { return s.text + ": " + quote(d); });
    for (auto& f : asked->files) {
      bool known = false;
      for (auto& d : state->world.dirs) for (auto& x : d.second) if (f == d.first + "/" + x.name && is_po(x.name) && path.count(d.first)) known = true;
      c.check(known, "file-not-listed", [&] { return s.text + ": " + quote(f); });
    }
    if (i + 1 == n) break;
  }
  c.feed(c.log.str());
  c.nontrivial = acting > 0 && n >= 3;
  c.label(writes() ? "writes counted" : "writes not counted");
  c.label(room.watched.size() == 8 ? "files watched" : "files not watched");
}

namespace {
void same(Case& c, const State& before, const Room& room, const std::string& what)
{
  State after = snapshot(room);
  if (after != before)
    for (auto& m : {before, after}) for (auto& e : m) {
      State::const_iterator b = before.find(e.first);
      State::const_iterator a = after.find(e.first);
      c.check(b != before.end() && a != after.end() && a->second == b->second, "process-changed",
              [&] { return what + ": " + e.first + ": before " + (b != before.end() ? b->second : "nothing") + ", after " + (a != after.end() ? a->second : "nothing"); });
    }
  ++c.assertions;
}

size_t descriptors()
{
  size_t n = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); }
  return n;
}

const std::vector<std::string>& kinds_of_files()
{
  static const std::vector<std::string> v = {
    "", "\n", "msgid \"a\"\nmsgstr \"b\"\n", "msgid \"a\"\nmsgstr \"b\"", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=BIG5\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\xa5\x5c\"\nmsgstr[1] \"x\"\n",
    "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=NO-SUCH\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n", "junk", "junk\n\nmsgid \"a\"\nmsgstr \"b\"\n", "msgid \"a\"\nmsgstr \"b", "msgid \"a\"\nmsgstr \"\\q\" x\n", "\xef\xbb\xbfmsgid \"a\"\nmsgstr \"b\"\n", "#, fuzzy\nmsgid \"a\"\nmsgstr \"b\"\n",
    "msgctxt \"x\"\nmsgid \"a\"\nmsgstr \"\"\n", "msgid \"a\"\nmsgstr \"\xff\"\n", std::string("msgid \"a\0\"\nmsgstr \"b\"\n", 23), std::string(20000, '\n') + "msgid \"a\"\nmsgstr \"" + std::string(70000, 'x') + "\"\n", "#~ msgid \"a\"\n", "# x\n\n\n# y"};
  return v;
}
} // namespace

std::vector<Example> examples()
{
  return {
    {"streams set up in every way", [](Case& c) {
      Room room;
      State before = snapshot(room);
      auto all = std::locale(std::locale::classic(), new Punct);
      for (auto& content : kinds_of_files()) {
        size_t step = content.size() > 10000 ? 7 : 1;
        for (unsigned flags = 0; flags < 1024; flags += static_cast<unsigned>(step)) {
          std::stringstream in(content);
          if (flags & 1) in >> std::noskipws;
          if (flags & 2) in >> std::hex;
          if (flags & 4) in >> std::boolalpha;
          if (flags & 8) in.exceptions(std::ios::badbit);
          if (flags & 16) in.precision(11);
          if (flags & 32) in.imbue(all);
          if (flags & 64) in.tie(&std::cout);
          if (flags & 128) in.fill('*');
          if (flags & 256) in.width(5);
          bool fuzzy = flags & 512;
          std::string b = stream_state(in, false);
          tg::Dictionary d;
          bool thrown = false;
          try { tg::POParser::parse("f.po", in, d, fuzzy); } catch (std::exception&) { thrown = true; }
          std::string a = stream_state(in, false);
          auto what = [&] { return "settings " + std::to_string(flags) + " of " + brief(content) + ": the stream had " + b + " and has " + a; };
          c.check(a == b, "stream", what);
          c.check(thrown || in.eof(), "stream", [&] { return "not read to its end: " + what(); });
          c.check(!in.bad(), "stream", what);
          c.check(in.str() == content, "stream", [&] { return "text changed: " + what(); });
          LogCapture::reset();
        }
        same(c, before, room, "loading " + brief(content));
      }
    }},
    {"everything hundreds of times", [](Case& c) {
      Room room;
      tg::Dictionary d("ISO-8859-1");
      tg::IConv conv;
      tg::DictionaryManager m;
      m.add_directory(room.dir + "/po");
      std::vector<std::pair<std::string, std::function<void(int)>>> v;
      for (auto& f : kinds_of_files()) v.push_back({"loading " + brief(f), [&](int) { std::istringstream in(f); tg::Dictionary own; try { tg::POParser::parse("f.po", in, own); } catch (std::exception&) {} }});
      v.push_back({"loading into the same", [&](int i) { std::istringstream in("msgid \"" + std::to_string(i) + "\"\nmsgstr \"\xc3\xa4\"\n"); tg::POParser::parse("f.po", in, d); }});
      v.push_back({"lookups", [&](int i) { d.translate(std::to_string(i)); d.translate_ctxt("x", "y"); d.translate_plural("a", "b", i); d.translate_ctxt_plural("x", "a", "b", i); d.foreach([](const std::string&, const std::vector<std::string>&) {}); }});
      v.push_back({"languages", [&](int i) { for (auto n : {"de", "de_DE.UTF-8@euro", "german", "xx", "", "pt_BR"}) { tg::Language l = tg::Language::from_env(n); l.str(); l.get_name(); tg::Language::from_name(n); tg::Language::match(l, tg::Language::from_spec("de", i % 2 ? "AT" : "")); } }});
      v.push_back({"rules", [&](int i) { tg::PluralForms::from_string(std::string("Plural-Forms: ") + rules()[static_cast<size_t>(i) % rules().size()].header).get_plural(i); tg::PluralForms::from_string("Plural-Forms: none"); }});
      v.push_back({"conversions", [&](int i) { static const char* const to[] = {"ISO-8859-1", "UTF-16", "BIG5", "NO-SUCH", "UTF-8", "iso-2022-jp"}; try { conv.set_charsets("UTF-8", to[i % 6]); conv.convert("\xc3\xa4"); conv.convert("\xff"); } catch (std::exception&) {} }});
      v.push_back({"requests", [&](int i) { m.set_use_fuzzy(i % 2); m.get_dictionary(tg::Language::from_name(i % 3 ? "de" : "fi_FI")).translate("a"); }});
      v.push_back({"languages there are", [&](int) { m.get_languages(); }});
      v.push_back({"settings", [&](int i) { m.set_charset(i % 2 ? "UTF-16" : "UTF-8"); m.set_language(tg::Language::from_name("de")); m.get_dictionary().translate("a"); }});
      v.push_back({"directories", [&](int i) { m.add_directory(room.dir + (i % 2 ? "/cwd" : "/nothing"), i % 3); m.get_dictionary(tg::Language::from_name("de")); m.remove_directory(room.dir + "/cwd"); }});
      v.push_back({"managers", [&](int) { tg::DictionaryManager own; own.add_directory(room.dir + "/po"); own.get_dictionary(tg::Language::from_name("de")); own.get_languages(); }});
      v.push_back({"long names", [&](int i) { for (auto sep : {"", "_", ".", "@"}) { std::string n = "de" + std::string(sep) + std::string(static_cast<size_t>(i) * 20, 'x'); tg::Language::from_env(n).str(); tg::Language::from_name(n); } }});
      v.push_back({"listing", [&](int i) { static const char* const d[] = {"/empty", "/po", "/home", "/po/", "/nothing"}; try { tg::UnixFileSystem().open_directory(room.dir + d[i % 5]); } catch (std::exception&) {} }});
      v.push_back({"managers and odd directories", [&](int i) { static const char* const d[] = {"/empty", "/po/../cwd", "/home", "/po/", "/nothing"}; tg::DictionaryManager own; own.add_directory(room.dir + d[i % 5]); own.get_dictionary(tg::Language::from_name("de")); own.get_languages(); }});
      v.push_back({"files that cannot be opened", [&](int i) { tg::UnixFileSystem u; try { u.open_file(room.dir + (i % 2 ? "/po" : "/none.po")); } catch (std::exception&) {} try { u.open_directory(room.dir + (i % 2 ? "/none" : "/po/de.po")); } catch (std::exception&) {} }});
      for (auto& s : v) {
        s.second(0); // what the C library sets up at the first time
        LogCapture::reset();
        room.events();
        State before = snapshot(room);
        size_t fds = descriptors();
        Remembered library(5);
        unsigned long w0 = writes();
        int n = s.first.size() > 1000 ? 30 : 260;
        for (int i = 1; i <= n; ++i) s.second(i);
        unsigned long w1 = writes();
        std::string forgotten = library.differs();
        c.check(forgotten.empty(), "library-state", [&] { return s.first + ": " + forgotten; });
        c.check(w0 == w1, "wrote", [&] { return s.first + ": " + std::to_string(w1 - w0) + " writing system calls"; });
        c.check(descriptors() == fds, "descriptors", [&] { return s.first + ": " + std::to_string(fds) + " open before, " + std::to_string(descriptors()) + " after"; });
        std::string events = room.events();
        c.check(events.empty(), "files", [&] { return s.first + ": " + events; });
        same(c, before, room, s.first);
        LogCapture::reset();
      }
    }},
  };
}
} // namespace pbt
