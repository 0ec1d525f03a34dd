// C20: everything acquired is released again.
#include "charset.hpp"
#include "manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <filesystem>
#include <fstream>
#include <iconv.h>
#include <sanitizer/allocator_interface.h>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace model;
namespace fs = std::filesystem;

namespace pbt {
const char* const property_id = "C20";
const char* const property_rule =
  "a history of loads (healthy, damaged, with streams that fail or throw), lookups, converter selections and conversions (available and not), manager "
  "reconfigurations (with faulty directories and files) and uses of the default file system is repeated 24 times, on fresh objects or on objects living "
  "through all repetitions; memory blocks and bytes still allocated after 3, 6, 12 and 24 repetitions and open file descriptors are compared; non-trivial: "
  "at least three steps";

namespace {

// what this thread has allocated and not released while `counting`
thread_local bool counting = false;
long blocks = 0, bytes = 0;

void on_malloc(const volatile void* p, size_t n)
{
  if (!counting || !p) return;
  ++blocks;
  bytes += static_cast<long>(n);
}

void on_free(const volatile void* p)
{
  if (!counting || !p) return;
  --blocks;
  bytes -= static_cast<long>(__sanitizer_get_allocated_size(p));
}

struct Counting {
  Counting()
  {
    static bool installed = __sanitizer_install_malloc_and_free_hooks(&on_malloc, &on_free) > 0;
    if (!installed) abort();
    counting = true;
  }
  ~Counting() { counting = false; }
};

long open_files()
{
  long n = 0;
  for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) != -1) ++n;
  return n;
}

const std::vector<std::string>& charsets()
{
  static const std::vector<std::string> v = {"UTF-8", "ISO-8859-1", "BIG5", "UTF-16", "ISO-2022-JP", "EUC-JP", "ASCII"};
  return v;
}

// the C library loads its converters on demand and drops them some time after their last
// use: hold them
void hold_converters()
{
  static bool done = false;
  if (done) return;
  done = true;
  for (auto& a : charsets()) for (auto& b : charsets()) (void)iconv_open(a.c_str(), b.c_str());
}

struct ThrowingBuf : std::streambuf {
  ThrowingBuf(const std::string& s) : data(s) { setg(&data[0], &data[0], &data[0] + data.size()); }
  int_type underflow() override { throw std::runtime_error("read"); }
  std::string data;
};

std::string gen_content(Tape& t)
{
  GenOptions o;
  o.fuzzy = true;
  o.max_messages = 6;
  o.shared_keys = true;
  Catalogue cat = gen_catalogue(t, o);
  static const std::vector<std::string> cs = {"UTF-8", "UTF-8", "", "ISO-8859-1", "BIG5", "EUC-JP", "UTF-16", "NO-SUCH", "ISO-2022-JP"};
  cat.charset = t.pick(cs);
  std::string s = serialise(cat);
  size_t n = t.length(4, 1);
  for (size_t i = 0; i < n && !s.empty(); ++i) {
    size_t at = t.range(0, s.size() - 1);
    static const std::vector<std::string> tokens = {"\"", "\n", "\\", "msgid", "msgstr", "msgctxt \"x\"\n", "\n\n", "junk\n", "msgstr[7] \"x\"\n", "\xff"};
    switch (t.range(0, 3)) {
      case 0: s.insert(at, t.pick(tokens)); break;
      case 1: s.resize(at); break;
      case 2: s.erase(at, 1 + t.length(20, 3)); break;
      case 3: s[at] = static_cast<char>(t.byte()); break;
    }
  }
  return s;
}

// how a piece of content is read
void parse(const std::string& content, unsigned how, tg::Dictionary& d, bool fuzzy)
{
  try {
    if (how < 2) {
      std::istringstream in(content);
      tg::POParser::parse("f.po", in, d, fuzzy);
    }
    else {
      ThrowingBuf b(content);
      std::istream in(&b);
      if (how == 3) in.exceptions(std::ios::badbit);
      tg::POParser::parse("f.po", in, d, fuzzy);
    }
  } catch (std::exception&) {}
}

void look_up(const tg::Dictionary& d, const std::string& id, int n)
{
  d.translate(id);
  d.translate_plural(id, id + "s", n);
  d.translate_ctxt("x", id);
  d.translate_ctxt_plural(id, id, id + "s", n);
}

// A step works on the objects of a repetition
struct Objects {
  std::unique_ptr<tg::Dictionary> dict, base;
  std::unique_ptr<tg::IConv> conv;
  std::unique_ptr<tg::DictionaryManager> manager;
  std::unique_ptr<tg::UnixFileSystem> files;
};

struct Scratch {
  Scratch()
  {
    char b[] = "c20-XXXXXX";
    if (!mkdtemp(b)) abort();
    dir = b;
  }
  ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
  std::string dir;
};

using Step = std::function<void(Objects&, int)>;

void repeat(Case& c, bool living, const std::function<void(Objects&)>& make, const std::vector<Step>& steps)
{
  static const int marks[] = {3, 6, 12, 24};
  long b[4], y[4];
  long f[4];
  blocks = bytes = 0;
  int m = 0;
  {
    Objects alive;
    Counting on;
    if (living) make(alive);
    for (int round = 1; round <= 24; ++round) {
      {
        Objects fresh;
        Objects& o = living ? alive : fresh;
        if (!living) make(o);
        for (auto& s : steps) s(o, round);
      }
      LogCapture::reset();
      LogCapture::infos.shrink_to_fit();
      if (round == marks[m]) { b[m] = blocks; y[m] = bytes; f[m] = open_files(); ++m; }
    }
  }
  auto all = [&](const char* what, auto* v) {
    std::string s = std::string(what) + " after 3, 6, 12, 24 repetitions:";
    for (int i = 0; i < 4; ++i) s += " " + std::to_string(v[i]);
    return s + (living ? " (same objects)" : " (fresh objects)");
  };
  auto grows = [](auto* v, long least) { bool g = true; for (int i = 0; i < 3; ++i) g = g && v[i + 1] - v[i] >= (least ? least * marks[i] : 1); return g; };
  c.check(!grows(b, 1), "blocks-kept", [&] { return all("allocated blocks", b) + "\n" + all("bytes", y); });
  c.check(!grows(y, 0), "bytes-kept", [&] { return all("allocated bytes", y) + "\n" + all("blocks", b); });
  // (other threads of the driver open a file now and then)
  c.check(!grows(f, 1), "files-kept-open", [&] { return all("open files", f); });
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  hold_converters();
  bool living = t.chance(128);
  std::string charset = t.chance(128) ? "UTF-8" : t.pick(charsets());
  c.log << (living ? "living" : "fresh") << " objects, charset " << charset << "\n";
  auto state = std::make_shared<WorldFileSystem::State>();
  WorldOptions o;
  o.codes = {"de", t.pick(rich_codes())};
  o.fuzzy = o.charsets = true;
  o.max_files = 3;
  std::unique_ptr<Scratch> scratch;
  std::vector<Step> steps;
  std::set<std::string> kinds;
  size_t n = 1 + t.length(7, 4);
  unsigned area = static_cast<unsigned>(t.range(0, 16)); // half of the cases use one part of the library
  bool dict = false, conv = false, manager = false, files = false;
  auto dir = [&] {
    std::string d = "d" + std::to_string(t.range(0, 3));
    if (d != "d3" && !state->world.dirs.count(d)) {
      auto& v = state->world.dirs[d] = gen_dir(t, d, o);
      for (auto& f : v) if (f.po && t.chance(60)) { static const std::vector<Fault> faults = {Fault::open_null, Fault::open_failed, Fault::open_throw, Fault::read, Fault::bad_charset}; set_fault(f, t.pick(faults), t.range(0, 200)); }
      if (t.chance(40)) state->world.unlistable.insert(d);
    }
    return d;
  };
  for (size_t i = 0; i < n; ++i) {
    unsigned k = area < 9 ? area : static_cast<unsigned>(t.range(0, 8));
    std::string what;
    switch (k) {
      default: { // loads
        dict = true;
        std::string s = gen_content(t);
        unsigned how = static_cast<unsigned>(t.range(0, 3));
        bool fuzzy = t.chance(128), base = t.chance(60);
        what = "load";
        c.log << "load " << how << " fuzzy " << fuzzy << (base ? " (base) " : " ") << quote(s) << "\n";
        steps.push_back([=](Objects& x, int) { parse(s, how, base ? *x.base : *x.dict, fuzzy); });
        if (t.chance(80)) steps.push_back([](Objects& x, int) { x.dict->addFallback(x.base.get()); });
        break;
      }
      case 1: { // lookups, also of what was never asked before
        dict = true;
        std::string id = t.chance(128) ? gen_key(t) : gen_text(t, Chars::bytes);
        bool anew = t.chance(128);
        int num = static_cast<int>(t.range(0, 30));
        what = "look up";
        c.log << "look up " << quote(id) << (anew ? " + repetition" : "") << " " << num << "\n";
        std::string content = i ? std::string() : gen_content(t);
        steps.push_back([=](Objects& x, int r) { if (!content.empty()) parse(content, 0, *x.dict, true); look_up(*x.dict, anew ? id + std::to_string(r) : id, num); });
        break;
      }
      case 2: { // stores
        dict = true;
        std::string id = gen_key(t), text = gen_text(t, Chars::bytes);
        unsigned how = static_cast<unsigned>(t.range(0, 3));
        what = "store";
        c.log << "store " << how << " " << quote(id) << "\n";
        steps.push_back([=](Objects& x, int r) {
          std::string s = text + std::to_string(r % 2);
          switch (how) {
            case 0: x.dict->add_translation(id, s); break;
            case 1: x.dict->add_translation(id, "p", std::vector<std::string>{s, text}); break;
            case 2: x.dict->add_translation("x", id, s); break;
            case 3: x.dict->add_translation("x", id, "p", std::vector<std::string>{s, text, s}); break;
          }
        });
        break;
      }
      case 3: { // converters
        conv = true;
        std::string from = t.chance(60) ? "NO-SUCH" : t.pick(charsets()), to = t.chance(60) ? "NO-SUCH" : t.pick(charsets()), text = gen_text(t, Chars::bytes);
        bool select = !t.chance(80), own = t.chance(60);
        what = select ? "select" : "convert";
        c.log << (own ? "own converter " : "") << (select ? "select " + to + " from " + from : std::string()) << " convert " << quote(text) << "\n";
        steps.push_back([=](Objects& x, int) {
          try {
            if (own) { tg::IConv y(from, to); y.convert(text); }
            else {
              if (select) x.conv->set_charsets(from, to);
              x.conv->convert(text);
            }
          } catch (std::exception&) {}
        });
        break;
      }
      case 4: case 5: { // managers
        manager = true;
        std::string d = dir();
        tg::Language l = gen_language(t, o.codes);
        unsigned how = static_cast<unsigned>(t.range(0, 8));
        std::string cs = t.pick(charsets());
        bool flag = t.chance(128);
        c.log << "manager: " << how << " " << d << " " << l.str() << " " << cs << " " << flag << "\n";
        what = "manager " + std::to_string(how);
        steps.push_back([=](Objects& x, int r) {
          auto& m = *x.manager;
          switch (how) {
            case 0: case 1: m.add_directory(d, flag); break;
            case 2: m.remove_directory(d); break;
            case 3: m.set_charset(cs); break;
            case 4: m.set_use_fuzzy(flag); break;
            case 5: m.get_languages(); break;
            case 6: m.set_language(l); m.get_dictionary().translate("x" + std::to_string(r)); break;
            default: m.add_directory(d); look_up(m.get_dictionary(l), "open", 2); break;
          }
          m.get_dictionary();
        });
        break;
      }
      case 7: { // names, rules, texts and files never seen before, on objects that go away again
        std::string text = gen_text(t, Chars::ascii), content = gen_content(t), cs = t.pick(charsets()), to = t.pick(charsets());
        unsigned how = static_cast<unsigned>(t.range(0, 5));
        what = "something new " + std::to_string(how);
        c.log << what << " " << quote(text) << " " << cs << " " << to << (how == 2 ? " " + quote(content) : std::string()) << "\n";
        steps.push_back([=](Objects&, int r) {
          std::string anew = text + std::to_string(r);
          try {
            switch (how) {
              case 0: {
                tg::Language::from_name(anew);
                tg::Language::from_env("de_" + anew + "@" + anew).str();
                tg::Language::from_spec("de", anew, anew);
                tg::Language::from_spec(anew);
                break;
              }
              case 1: {
                tg::PluralForms::from_string(anew);
                tg::PluralForms::from_string("Plural-Forms:" + std::string(rules()[static_cast<size_t>(r) % rules().size()].header) + std::string(static_cast<size_t>(r), ' '));
                tg::PluralForms::from_string("Plural-Forms: nplurals=" + std::to_string(r) + "; plural=0;");
                break;
              }
              case 2: {
                tg::Dictionary d(cs);
                std::string s = content + "\n\nmsgid \"new " + anew + "\"\nmsgstr \"" + anew + "\"\n\njunk " + anew + "\n\nmsgctxt \"" + anew + "\"\nmsgid \"x\"\nmsgstr \"y\"\n";
                std::istringstream in(s);
                tg::POParser::parse(anew + ".po", in, d, true);
                look_up(d, anew, r);
                break;
              }
              case 3: {
                tg::IConv a(cs, to);
                a.convert(anew);
                a.convert("\xe4" + anew);
                break;
              }
              case 4: tg::IConv("NO-SUCH-" + anew, cs); break;
              default: {
                auto f = std::make_shared<Files>();
                auto& v = f->dirs["new" + anew];
                v.emplace_back("de." + std::to_string(r) + ".po", content);
                v.emplace_back("unknown" + std::to_string(r) + ".po", content);
                v.emplace_back("de_AT@m" + std::to_string(r) + ".po", "garbage " + std::to_string(r) + "\n");
                tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)), cs);
                m.add_directory("new" + anew);
                m.add_directory("none" + anew);
                m.get_languages();
                look_up(m.get_dictionary(tg::Language::from_name("de_AT")), anew, r);
                m.remove_directory("new" + anew);
                break;
              }
            }
          } catch (std::exception&) {}
        });
        break;
      }
      case 6: case 8: { // the default file system
        files = true;
        if (!scratch) {
          scratch.reset(new Scratch);
          std::ofstream(scratch->dir + "/de.po") << gen_content(t);
          std::ofstream(scratch->dir + "/de_AT.po") << gen_content(t);
          mkdir((scratch->dir + "/fr.po").c_str(), 0777);
          if (symlink("nowhere", (scratch->dir + "/es.po").c_str())) abort();
        }
        static const std::vector<std::string> names = {"", "/de.po", "/de_AT.po", "/fr.po", "/es.po", "/missing", "/de.po/x"};
        std::string p = scratch->dir + t.pick(names);
        unsigned how = static_cast<unsigned>(t.range(0, 2));
        what = "files " + std::to_string(how);
        c.log << (how == 0 ? "list " : how == 1 ? "read " : "manage ") << p.substr(scratch->dir.size()) << "\n";
        std::string d = scratch->dir;
        steps.push_back([=](Objects& x, int) {
          try {
            if (how == 0) x.files->open_directory(p);
            else if (how == 1) { auto in = x.files->open_file(p); std::string s; while (in && std::getline(*in, s)) {} }
            else {
              tg::DictionaryManager m{std::unique_ptr<tg::FileSystem>(new tg::UnixFileSystem)};
              m.add_directory(d);
              m.add_directory(p);
              m.get_languages();
              m.get_dictionary(tg::Language::from_name("de_AT"));
              m.get_dictionary(tg::Language::from_name("fr"));
              m.get_dictionary(tg::Language::from_name("es"));
            }
          } catch (std::exception&) {}
        });
        break;
      }
    }
    kinds.insert(what);
  }
  if (manager) {
    c.log << show(state->world);
    steps.insert(steps.begin(), [=](Objects& x, int) { // each repetition starts alike
      for (auto d : {"d0", "d1", "d2", "d3"}) x.manager->remove_directory(d);
      x.manager->set_charset(charset);
      x.manager->set_use_fuzzy(true);
      x.manager->set_language(tg::Language());
    });
  }
  c.feed(c.log.str());
  LogCapture::reset();
  repeat(c, living, [&](Objects& x) {
    if (dict) { x.base.reset(new tg::Dictionary(charset)); x.dict.reset(new tg::Dictionary(charset)); }
    if (conv) x.conv.reset(new tg::IConv);
    if (manager) x.manager.reset(new tg::DictionaryManager(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)), charset));
    if (files) x.files.reset(new tg::UnixFileSystem);
  }, steps);
  for (auto& k : kinds) c.label(k);
  c.label(living ? "living" : "fresh");
  c.nontrivial = n >= 3;
}

std::vector<Example> examples()
{
  return {
    {"nothing", [](Case& c) { hold_converters(); repeat(c, false, [](Objects&) {}, {}); }},
    {"converters", [](Case& c) {
      hold_converters();
      for (bool living : {false, true})
        repeat(c, living, [](Objects& x) { x.conv.reset(new tg::IConv); }, {[](Objects& x, int) {
          x.conv->set_charsets("UTF-8", "UTF-16");
          x.conv->set_charsets("UTF-8", "BIG5");
          try { x.conv->set_charsets("UTF-8", "NO-SUCH"); } catch (std::exception&) {}
          try { x.conv->set_charsets("NO-SUCH", "UTF-8"); } catch (std::exception&) {}
          x.conv->set_charsets("UTF-8", "UTF-8");
          x.conv->set_charsets("UTF-8", "ISO-8859-1");
        }});
    }},
  };
}
} // namespace pbt
