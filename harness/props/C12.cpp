// C12: the manager's answers depend on its configuration, not on its history.
#include "langs.hpp"
#include "manager.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace model;

namespace pbt {
const char* const property_id = "C12";
const char* const property_rule =
  "random sequences of up to 40 operations on one manager (add/remove directories with and without precedence, set_language, set_charset, set_use_fuzzy, "
  "requests by language and of the active dictionary, listing) over a file system whose files change together with configuration changes; every answer "
  "compared with a model and with a fresh manager in the same configuration, objects with the ones handed out before; non-trivial: at least one "
  "configuration change after a dictionary was loaded and two different languages requested since";

namespace {

struct Machine {
  Case& c;
  Tape& t;
  std::shared_ptr<WorldFileSystem::State> state = std::make_shared<WorldFileSystem::State>();
  tg::DictionaryManager m;
  Config cfg;
  WorldOptions o;
  tg::Language current;
  std::vector<std::string> names;
  // dictionaries handed out since the last change
  std::map<std::string, std::pair<tg::Dictionary*, std::string>> known;
  unsigned serial = 0, changes_after_load = 0;
  size_t most_known = 0;

  explicit Machine(Case& c_) : c(c_), t(c_.t), m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state))) {}

  World& world() { return state->world; }

  // files may change when the configuration does
  void mutate()
  {
    if (!known.empty()) ++changes_after_load;
    known.clear();
    if (!t.chance(100)) return;
    size_t n = t.range(1, 2);
    for (size_t i = 0; i < n; ++i) {
      const std::string& d = t.pick(names);
      std::vector<FileModel>& v = world().dirs[d];
      unsigned k = static_cast<unsigned>(t.range(0, 3));
      std::string tag = d + "v" + std::to_string(++serial);
      if (k == 0 || v.empty()) v = gen_dir(t, tag, o);
      else if (k == 1) v.erase(v.begin() + static_cast<long>(t.range(0, v.size() - 1)));
      else {
        FileModel& f = v[t.range(0, v.size() - 1)];
        if (f.po) { tg::Language l = file_language(f.name); f = gen_file(t, f.name, l ? l.get_language() : "de", tag, o); }
      }
      c.log << "files of " << d << " change\n";
    }
    c.log << show(world());
  }

  void check_known(const char* when)
  {
    for (auto& k : known) {
      std::string f = fingerprint(*k.second.first);
      c.check(f == k.second.second, "dictionary-changed", [&] { return k.first + " changed " + when + ", was\n" + k.second.second + "now\n" + f; });
    }
  }

  void got(const tg::Language& l, tg::Dictionary& d)
  {
    std::string s = check_dictionary(m, d, world(), cfg, l);
    c.check(s.empty(), "content", [&] { return s; });
    auto i = known.find(l.str());
    if (i != known.end()) c.check(i->second.first == &d, "another-object", [&] { return l.str(); });
    else {
      std::string f = fingerprint(d);
      known[l.str()] = {&d, f};
      tg::DictionaryManager fresh(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)), cfg.charset);
      fresh.set_use_fuzzy(cfg.fuzzy);
      for (auto& p : cfg.path) fresh.add_directory(p);
      std::string g = fingerprint(fresh.get_dictionary(l));
      c.check(f == g, "differs-from-fresh-manager", [&] { return l.str() + " gives\n" + f + "and a fresh manager\n" + g; });
    }
    most_known = std::max(most_known, known.size());
    check_known("by a request");
  }

  void active()
  {
    c.log << "get_dictionary()\n";
    tg::Dictionary& d = m.get_dictionary();
    if (!current) {
      c.check(dump(d).empty(), "active-not-empty", [&] { return show(dump(d)); });
      for (auto& k : all_keys()) c.check(d.translate(k.second) == k.second && d.translate_plural(k.second, "p", 2) == "p", "active-not-empty", [&] { return k.second; });
    }
    else {
      got(current, d);
      c.check(&m.get_dictionary(current) == &d, "active-is-not-the-selected", [&] { return current.str(); });
    }
  }

  // many languages one after another; all of them stay valid
  void crowd()
  {
    size_t n = magnitude(t, specs().size() - 3), at = t.range(0, specs().size() - 1), step = 1 + t.range(0, 6) * 2;
    c.log << "request " << n << " languages\n";
    std::vector<std::pair<tg::Language, tg::Dictionary*>> v;
    for (size_t i = 0; i < n; ++i) {
      const Spec& x = specs()[(at + i * step) % specs().size()];
      tg::Language l = tg::Language::from_spec(x.language, x.country, x.modifier);
      v.emplace_back(l, &m.get_dictionary(l));
      if (i % 8 == 0) {
        std::string s = check_dictionary(m, *v.back().second, world(), cfg, l);
        c.check(s.empty(), "content", [&] { return s; });
      }
    }
    for (auto& x : v) {
      c.check(&m.get_dictionary(x.first) == x.second, "another-object", [&] { return x.first.str(); });
      if (x.second->get_charset() != cfg.charset) c.fail("dictionary-changed", x.first.str());
    }
    most_known = std::max(most_known, v.size());
    check_known("by many requests");
    if (current) active();
    c.label("many languages");
  }

  void step()
  {
    if (t.chance(1)) { crowd(); return; }
    switch (t.range(0, 11)) {
      case 0: case 1: {
        const std::string& d = t.pick(names);
        bool pre = t.chance(90);
        bool present = std::find(cfg.path.begin(), cfg.path.end(), d) != cfg.path.end();
        c.log << "add_directory " << d << (pre ? " first" : "") << (present ? " (present)" : "") << "\n";
        if (!present) { mutate(); if (pre) cfg.path.push_front(d); else cfg.path.push_back(d); }
        m.add_directory(d, pre);
        break;
      }
      case 2: {
        const std::string& d = t.pick(names);
        auto i = std::find(cfg.path.begin(), cfg.path.end(), d);
        c.log << "remove_directory " << d << (i == cfg.path.end() ? " (absent)" : "") << "\n";
        if (i != cfg.path.end()) { mutate(); cfg.path.erase(i); }
        m.remove_directory(d);
        break;
      }
      case 3: {
        static const std::vector<std::string> cs = {"UTF-8", "ISO-8859-1", "CP1252", "UTF-16LE"};
        std::string s = t.pick(cs);
        c.log << "set_charset " << s << "\n";
        if (s != cfg.charset) { mutate(); cfg.charset = s; }
        else known.clear(); // whether the dictionaries are kept then is open
        m.set_charset(s);
        break;
      }
      case 4: {
        bool f = t.chance(128);
        c.log << "set_use_fuzzy " << f << "\n";
        if (f != cfg.fuzzy) { mutate(); cfg.fuzzy = f; }
        else known.clear();
        m.set_use_fuzzy(f);
        break;
      }
      case 5: case 6: {
        tg::Language l = t.chance(40) ? tg::Language() : gen_language(t, o.codes);
        c.log << "set_language " << l.str() << "\n";
        m.set_language(l);
        current = l;
        check_known("by set_language");
        break;
      }
      case 7: {
        c.log << "get_languages\n";
        std::set<tg::Language> a = m.get_languages(), e = expected_languages(world(), cfg);
        c.check(a == e, "languages", [&] { std::string s = "got:"; for (auto& l : a) s += " " + l.str(); s += " expected:"; for (auto& l : e) s += " " + l.str(); return s; });
        check_known("by listing");
        break;
      }
      case 8: active(); break;
      default: {
        tg::Language l = gen_language(t, o.codes);
        c.log << "get_dictionary " << l.str() << "\n";
        got(l, m.get_dictionary(l));
      }
    }
    c.check(m.get_language() == current, "language", [&] { return m.get_language().str() + " instead of " + current.str(); });
    c.check(m.get_use_fuzzy() == cfg.fuzzy, "fuzzy-switch", std::string());
  }
};

} // namespace

void property(Case& c)
{
  Machine s(c);
  Tape& t = c.t;
  s.o.codes.push_back(t.pick(rich_codes()));
  if (t.chance(128)) s.o.codes.push_back(t.pick(rich_codes()));
  s.o.max_files = 4;
  s.o.fuzzy = true;
  s.o.charsets = true;
  s.o.noise = t.chance(64);
  size_t nd = t.range(1, 3);
  for (size_t i = 0; i < nd; ++i) {
    // names that are the same only to some file systems
    static const std::vector<std::string> odd = {"d0/", "./d0", "D0", "d0/.", "d0//", "d", "d00", "", "/", ".", "d0 ", " d0", "d1/", "../d0", "/d0", "d0\\", "~", "$d0"};
    std::string name = "d" + std::to_string(i);
    if (t.chance(40)) name = t.pick(odd);
    if (std::find(s.names.begin(), s.names.end(), name) != s.names.end()) continue;
    s.names.push_back(name);
    s.world().dirs[s.names.back()] = gen_dir(t, s.names.back(), s.o);
  }
  if (t.chance(64)) s.names.push_back("missing");
  c.log << show(s.world());
  if (!t.chance(32)) { s.m.add_directory(s.names[0]); s.cfg.path.push_back(s.names[0]); c.log << "add_directory " << s.names[0] << "\n"; }
  size_t n = t.length(40, 12);
  for (size_t i = 0; i < n; ++i) s.step();
  s.active();
  c.feed(c.log.str());
  c.nontrivial = s.changes_after_load > 0 && s.most_known > 1;
  c.label("changes after load: " + std::to_string(std::min(s.changes_after_load, 5u)));
}

std::vector<Example> examples()
{
  return {
    {"every language in one manager", [](Case& c) {
      auto f = std::make_shared<Files>();
      f->dirs["d"].emplace_back("de.po", "msgid \"a\"\nmsgstr \"A\"\n");
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      m.add_directory("d");
      tg::Language de = tg::Language::from_name("de");
      m.set_language(de);
      for (int round = 0; round < 3; ++round) {
        std::vector<tg::Dictionary*> v;
        tg::Dictionary& a = m.get_dictionary();
        c.check(&a == &m.get_dictionary(de) && a.translate("a") == "A", "active-is-not-the-selected");
        for (auto& s : specs()) { v.push_back(&m.get_dictionary(tg::Language::from_spec(s.language, s.country, s.modifier))); if (v.back() != &a) v.back()->add_translation("who", tagged("w", static_cast<unsigned>(v.size()))); }
        std::set<tg::Dictionary*> u(v.begin(), v.end());
        c.check(u.size() == v.size(), "dictionaries-shared");
        for (size_t i = 0; i < v.size(); ++i) {
          const Spec& s = specs()[i];
          tg::Dictionary* d = &m.get_dictionary(tg::Language::from_spec(s.language, s.country, s.modifier));
          c.check(d == v[i] && (d == &a || d->translate("who") == tagged("w", static_cast<unsigned>(i + 1))), "another-object", [&] { return std::string(s.language); });
        }
        c.check(&m.get_dictionary() == &a && a.translate("a") == "A", "active-is-not-the-selected");
        m.set_use_fuzzy(round % 2);
        f->dirs["d"].emplace_back(tagged("x", static_cast<unsigned>(round)) + ".txt", "");
      }
    }},
    {"directories whose names are nearly the same", [](Case& c) {
      auto f = std::make_shared<Files>();
      const std::vector<std::string> names = {"d", "d/", "./d", "D", "d/.", "d//", "dd", "", "/", ".", "d ", " d", "../d", "/d", "d\\", "~", "d/../d", "d\n", std::string("d\0", 2), "*", "d/*", "\xc3\xa4", "a\xcc\x88"};
      for (size_t i = 0; i < names.size(); ++i) f->dirs[names[i]].emplace_back("de.po", "msgid \"a\"\nmsgstr \"" + std::to_string(i) + "\"\n");
      tg::Language de = tg::Language::from_name("de");
      for (size_t i = 0; i < names.size(); ++i) for (size_t k = 0; k < names.size(); ++k) for (bool pre : {false, true}) {
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
        auto expect = [&](const std::string& e) {
          std::string a = m.get_dictionary(de).translate("a");
          c.check(a == e, "content", [&] { return quote(names[i]) + ", " + quote(names[k]) + (pre ? " first" : "") + ": " + a + " instead of " + e; });
          c.check(m.get_languages().size() == (e == "a" ? 0 : 1), "languages");
        };
        m.add_directory(names[i]);
        m.add_directory(names[k], pre);
        expect(std::to_string(pre ? k : i));
        m.remove_directory(names[i]);
        expect(i == k ? "a" : std::to_string(k));
        m.remove_directory(names[k]);
        expect("a");
      }
    }},
    {"on disk, from several working directories", [](Case& c) {
      char cwd[4096], room[] = "c12-XXXXXX";
      if (!getcwd(cwd, sizeof cwd) || !mkdtemp(room)) abort();
      const std::string base = std::string(cwd) + "/" + room;
      for (auto w : {"one", "two"}) for (auto d : {"po", "po/sub", "other"}) {
        std::filesystem::create_directories(base + "/" + w + "/" + d);
        std::ofstream(base + "/" + w + "/" + d + "/de.po") << "msgid \"a\"\nmsgstr \"" << w << " " << d << "\"\n";
      }
      std::error_code ec;
      std::filesystem::create_directory_symlink("po", base + "/one/link", ec);
      const std::vector<std::string> names = {"po", "./po", "po/", "po//", "po/.", "po/sub/..", "other/../po", "link", base + "/one/po", base + "/one/../one/po", "other", "po/sub"};
      auto says = [&](const std::string& w, size_t i) { return i + 1 == names.size() ? w + " po/sub" : i + 2 == names.size() ? w + " other" : i > 7 ? std::string("one po") : i == 7 && w == "two" ? std::string("a") : w + " po"; };
      tg::Language de = tg::Language::from_name("de");
      for (size_t i = 0; i < names.size(); ++i) for (size_t k = 0; k < names.size(); ++k) {
        if (chdir((base + "/one").c_str())) abort();
        tg::DictionaryManager m;
        auto expect = [&](const std::string& e) {
          std::string a = m.get_dictionary(de).translate("a");
          c.check(a == e, "content", [&] { return names[i] + ", " + names[k] + ": " + a + " instead of " + e; });
        };
        m.add_directory(names[i]);
        expect(says("one", i));
        m.add_directory(names[k]);
        expect(says("one", i));
        m.remove_directory(names[i]); // each directory is known by the name it was added under
        expect(i == k ? "a" : says("one", k));
        if (chdir((base + "/two").c_str())) abort();
        m.set_use_fuzzy(true);
        expect(i == k ? "a" : says("two", k));
        m.remove_directory(names[k]);
        expect("a");
        m.add_directory(names[i], true);
        expect(says("two", i));
      }
      if (chdir(cwd)) abort();
      std::filesystem::remove_all(base, ec);
      LogCapture::reset();
    }},
    {"many directories added and removed", [](Case& c) {
      auto f = std::make_shared<Files>();
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      tg::Language de = tg::Language::from_name("de");
      for (unsigned i = 0; i < 200; ++i) f->dirs[tagged("d", i)].emplace_back("de.po", "msgid \"a\"\nmsgstr \"" + std::to_string(i) + "\"\n");
      std::deque<unsigned> path;
      auto expect = [&] { std::string e = path.empty() ? "a" : std::to_string(path.front()), a = m.get_dictionary(de).translate("a"); c.check(a == e, "content", [&] { return a + " instead of " + e; }); };
      for (unsigned i = 0; i < 200; ++i) { bool pre = i % 3 == 0; m.add_directory(tagged("d", i), pre); if (pre) path.push_front(i); else path.push_back(i); expect(); }
      while (!path.empty()) { size_t k = (path.size() * 7) % path.size(); unsigned i = path[k]; m.remove_directory(tagged("d", i)); path.erase(path.begin() + static_cast<long>(k)); expect(); }
    }},
    {"every number of changes between two requests", [](Case& c) {
      auto f = std::make_shared<Files>();
      f->dirs["d"] = {{"de.po", "msgid \"a\"\nmsgstr \"A\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F\"\n"}};
      f->dirs["e"] = {{"de.po", "msgid \"a\"\nmsgstr \"E\"\n"}};
      tg::Language de = tg::Language::from_name("de");
      std::vector<unsigned> numbers;
      for (unsigned n = 1; n < 530; ++n) numbers.push_back(n);
      for (unsigned n : {1023u, 1024u, 4095u, 4096u, 32767u, 32768u, 65534u, 65535u, 65536u, 65537u}) numbers.push_back(n);
      for (unsigned way = 0; way < 5; ++way) {
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
        m.set_language(de);
        for (unsigned n : numbers) {
          auto what = [&] { return std::to_string(n) + " changes, way " + std::to_string(way); };
          m.add_directory("d");
          m.set_use_fuzzy(true);
          c.check(m.get_dictionary(de).translate("a") == "A" && m.get_dictionary().translate("f") == "F", "content", what);
          // n changes, the last of which counts
          for (unsigned i = 1; i < n; ++i)
            switch (way) {
              case 0: m.set_use_fuzzy(true); break;
              case 1: m.set_charset("UTF-8"); break;
              case 2: if (i % 2) m.add_directory("e"); else m.remove_directory("e"); break;
              case 3: m.set_use_fuzzy(i % 2); break;
              default: if (i % 2) m.remove_directory("d"); else m.add_directory("d");
            }
          if (way == 2 && n % 2 == 0) { m.remove_directory("e"); c.check(m.get_dictionary(de).translate("a") == "A", "content", what); for (unsigned i = 1; i < n; ++i) m.set_charset("UTF-8"); }
          if (way == 4 && n % 2 == 0) { m.add_directory("d"); c.check(m.get_dictionary().translate("a") == "A", "content", what); for (unsigned i = 1; i < n; ++i) m.set_charset("UTF-8"); }
          if (n % 3) { m.remove_directory("d"); c.check(m.get_dictionary(de).translate("a") == "a" && m.get_dictionary().translate("a") == "a", "content", what); }
          else { m.set_use_fuzzy(false); c.check(m.get_dictionary(de).translate("f") == "f" && m.get_dictionary().translate("f") == "f" && m.get_dictionary().translate("a") == "A", "content", what); }
        }
      }
      LogCapture::reset();
    }},
    {"hundreds of changes, the files changing all the time", [](Case& c) {
      auto f = std::make_shared<Files>();
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      auto write = [&](unsigned v) {
        f->dirs["d"] = {{"de.po", "msgid \"a\"\nmsgstr \"" + std::to_string(v) + "\"\n\n#, fuzzy\nmsgid \"f\"\nmsgstr \"F" + std::to_string(v) + "\"\n"}, {"fr.po", "msgid \"a\"\nmsgstr \"fr" + std::to_string(v) + "\"\n"}};
        if (v % 3) f->dirs["e"] = {{"de.po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"e\"\nmsgstr \"\xc3\xa4" + std::to_string(v) + "\"\n"}}; else f->dirs["e"].clear();
      };
      tg::Language de = tg::Language::from_name("de"), fr = tg::Language::from_name("fr");
      write(0);
      m.add_directory("d");
      bool fuzzy = true, extra = false, latin = false;
      unsigned seen = 0;
      m.set_language(de);
      m.get_dictionary(fr);
      m.get_dictionary();
      for (unsigned i = 1; i < 700; ++i) {
        auto judge = [&] {
          std::string v = std::to_string(seen);
          tg::Dictionary& d = m.get_dictionary(de);
          auto what = [&] { return "change " + std::to_string(i) + ", files of " + v + ": " + d.translate("a") + " " + d.translate("f") + " " + d.translate("e") + " " + m.get_dictionary(fr).translate("a"); };
          c.check(d.translate("a") == v && m.get_dictionary(fr).translate("a") == "fr" + v, "content", what);
          c.check(d.translate("f") == (fuzzy ? "F" + v : "f"), "content", what);
          c.check(d.translate("e") == (extra && seen % 3 ? (latin ? "\xe4" : "\xc3\xa4") + v : "e"), "content", what);
          c.check(&m.get_dictionary() == (i % 2 ? &d : &m.get_dictionary(fr)) && m.get_languages().size() == 2, "active-is-not-the-selected", what);
        };
        write(i);
        m.set_language(i % 2 ? de : fr);
        m.add_directory("d", i % 4 == 0); // there already
        m.remove_directory("nowhere");
        if (!extra) m.remove_directory("e"); else m.add_directory("e");
        judge();
        switch (i * 5 / 2 % 4) {
          case 0: fuzzy = !fuzzy; m.set_use_fuzzy(fuzzy); break;
          case 1: extra = !extra; if (extra) m.add_directory("e", i % 3 == 0); else m.remove_directory("e"); break;
          case 2: latin = !latin; m.set_charset(latin ? "ISO-8859-1" : "UTF-8"); break;
          default: if (extra) { m.remove_directory("e"); m.add_directory("e"); } else { m.add_directory("x"); m.remove_directory("x"); }
        }
        seen = i;
        judge();
        for (unsigned k = 0; k < i % 40; ++k) m.get_dictionary(k % 2 ? de : fr);
        judge();
      }
    }},
  };
}
} // namespace pbt
