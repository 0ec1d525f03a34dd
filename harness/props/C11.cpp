// C11: the manager loads the best file of each directory, earlier directories winning.
#include "langs.hpp"
#include "manager.hpp"
#include <algorithm>

using namespace model;

namespace pbt {
const char* const property_id = "C11";
const char* const property_rule =
  "managers over random in-memory directories (zero to five, added and removed in random order, with and without precedence) of random .po files for one "
  "or two languages in many variants, mixed with files that must not matter; content and all lookups of requested languages compared with a model; then "
  "the same directories listed in another order and with other noise must give the same; non-trivial: at least two directories or two files competed";

namespace {

void shuffle_dir(Tape& t, std::vector<FileModel>& v)
{
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[t.range(0, i - 1)]);
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  WorldOptions o;
  o.codes.push_back(t.pick(rich_codes()));
  if (t.chance(128)) o.codes.push_back(t.pick(rich_codes()));
  World w;
  size_t ndirs = t.range(1, 5);
  std::vector<std::string> names;
  if (t.chance(3)) { // many directories, or many files
    if (t.chance(128)) { ndirs = magnitude(t, 70); o.max_files = 2; c.label("many directories"); }
    else { o.max_files = 5 + magnitude(t, 60); ndirs = 1 + ndirs % 2; c.label("many files"); }
  }
  for (size_t i = 0; i < ndirs; ++i) {
    static const std::vector<std::string> n = {"d0", "d1", "data/locale", "/abs/po", "d0/sub"};
    names.push_back(i < n.size() ? n[i] : "dir" + std::to_string(i));
    w.dirs[names[i]] = gen_dir(t, names[i], o);
  }
  names.push_back("missing");
  Config cfg;
  auto state = std::make_shared<WorldFileSystem::State>();
  state->world = w;
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)));
  size_t ops = ndirs + t.range(0, 4);
  for (size_t i = 0; i < ops; ++i) {
    const std::string& d = i < ndirs ? names[i] : t.pick(names);
    auto at = std::find(cfg.path.begin(), cfg.path.end(), d);
    bool pre = t.chance(80);
    if (i >= ndirs && t.chance(100)) {
      m.remove_directory(d);
      if (at != cfg.path.end()) cfg.path.erase(at);
    }
    else {
      m.add_directory(d, pre);
      if (at == cfg.path.end()) { if (pre) cfg.path.push_front(d); else cfg.path.push_back(d); }
    }
  }
  c.log << show(w) << "search path " << quote(std::vector<std::string>(cfg.path.begin(), cfg.path.end())) << "\n";
  std::vector<tg::Language> req;
  size_t n = t.range(1, 5);
  for (size_t i = 0; i < n; ++i) req.push_back(gen_language(t, o.codes));
  std::vector<std::string> prints;
  for (auto& l : req) {
    c.log << "request " << l.str() << "\n";
    tg::Dictionary& d = m.get_dictionary(l);
    std::string s = check_dictionary(m, d, w, cfg, l);
    c.check(s.empty(), "content", [&] { return s; });
    prints.push_back(fingerprint(d));
    // how much competed
    unsigned dirs = 0; bool competing = false;
    for (auto& p : cfg.path) {
      unsigned k = 0;
      for (auto& f : w.dirs[p]) if (is_po(f.name) && ref_score(l, file_language(f.name)) > 0) ++k;
      if (k) ++dirs;
      if (k > 1) competing = true;
    }
    if (dirs > 1) c.label("several directories");
    if (competing) c.label("several files");
    if (expected_own(w, cfg, l).size() > 1) c.label("tie");
    if (dirs > 1 || competing) c.nontrivial = true;
  }
  // another listing order, other irrelevant files
  World w2 = w;
  std::set<std::string> wanted;
  for (auto& l : req) wanted.insert(l.get_language());
  for (auto& d : w2.dirs) {
    std::vector<FileModel> v;
    for (auto& f : d.second) {
      bool matters = is_po(f.name) && wanted.count(file_language(f.name).get_language());
      if (matters || t.chance(128)) v.push_back(f);
    }
    size_t extra = t.range(0, 3);
    for (size_t i = 0; i < extra; ++i) {
      std::string name = t.chance(128) ? noise_name(t) : gen_po_name(t, t.pick(rich_codes()));
      if (is_po(name) && wanted.count(file_language(name).get_language())) continue;
      bool dup = false;
      for (auto& f : v) if (f.name == name) dup = true;
      if (!dup) v.push_back(gen_file(t, name, "de", "OTHER", o));
    }
    shuffle_dir(t, v);
    d.second = v;
  }
  auto state2 = std::make_shared<WorldFileSystem::State>();
  state2->world = w2;
  tg::DictionaryManager m2(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state2)));
  for (auto& p : cfg.path) m2.add_directory(p);
  for (size_t i = 0; i < req.size(); ++i) {
    std::string f = fingerprint(m2.get_dictionary(req[i]));
    c.check(f == prints[i], "listing-order-or-noise", [&] { return req[i].str() + " gave\n" + prints[i] + "and with\n" + show(w2) + "it gave\n" + f; });
  }
  c.feed(c.log.str());
}

std::vector<Example> examples()
{
  return {
  {"a long search path and long file names", [](Case& c) {
    auto f = std::make_shared<Files>();
    tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
    unsigned n = 300;
    for (unsigned i = 0; i < n; ++i) {
      std::string d = (i % 2 ? std::string(i, 'd') : std::string("d")) + std::to_string(i);
      std::string both = "msgid \"common\"\nmsgstr \"" + std::to_string(i) + "\"\n\nmsgid \"m" + std::to_string(i) + "\"\nmsgstr \"" + std::to_string(i) + "\"\n";
      for (unsigned k = 0; k < 40; ++k) f->dirs[d].emplace_back(tagged("README", k), "");
      f->dirs[d].emplace_back(i % 3 ? "de.po" : "de_DE.UTF-8" + std::string(i, '8') + ".po", both);
      for (unsigned k = 0; k < 40; ++k) f->dirs[d].emplace_back(tagged("zz", k) + ".po", "");
      m.add_directory(d);
    }
    for (auto l : {"de", "de_DE", "de_AT"}) {
      tg::Dictionary& d = m.get_dictionary(tg::Language::from_name(l));
      c.check(d.translate("common") == "0", "content", [&] { return std::string(l) + " common: " + d.translate("common"); });
      for (unsigned i = 0; i < n; ++i) c.check(d.translate(tagged("m", i)) == std::to_string(i), "content", [&] { return tagged("m", i); });
    }
  }},
  {"tens of thousands of files", [](Case& c) {
    for (unsigned n : {32768u, 65534u, 65535u, 65536u, 65537u, 70000u}) for (bool first : {false, true}) {
      auto f = std::make_shared<Files>();
      auto& d = f->dirs["d"];
      for (unsigned i = 0; i < n; ++i) d.emplace_back(i % 1000 ? tagged("README", i) : tagged("x", i) + ".po", "");
      d.emplace(first ? d.begin() : d.end(), "de.po", "msgid \"a\"\nmsgstr \"A\"\n");
      d.emplace(first ? d.end() : d.begin(), "de_AT.po", "msgid \"a\"\nmsgstr \"AT\"\n");
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      m.add_directory("d");
      auto what = [&] { return std::to_string(n) + " files"; };
      c.check(m.get_dictionary(tg::Language::from_env("de")).translate("a") == "A", "content", what);
      c.check(m.get_dictionary(tg::Language::from_env("de_AT")).translate("a") == "AT", "content", what);
      c.check(m.get_languages().size() == 2, "languages", what);
      LogCapture::reset();
    }
  }},
  {"equally good files, either order", [](Case& c) {
    std::string got[2];
    for (int i = 0; i < 2; ++i) {
      auto f = std::make_shared<Files>();
      auto& d = f->dirs["d"];
      d.emplace_back("pt_BR.po", "msgid \"a\"\nmsgstr \"BR\"\n");
      d.emplace_back("pt_PT.po", "msgid \"a\"\nmsgstr \"PT\"\n");
      if (i) std::swap(d[0], d[1]);
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      m.add_directory("d");
      got[i] = m.get_dictionary(tg::Language::from_name("pt")).translate("a");
    }
    c.check(got[0] == got[1] && got[0] != "a", "listing-order-or-noise", [&] { return got[0] + " " + got[1]; });
  }},
  {"every number of directories, the message in any of them", [](Case& c) {
    for (unsigned n = 1; n < 130; n += n < 34 ? 1 : 12) for (unsigned how = 0; how < 3; ++how) {
      auto f = std::make_shared<Files>();
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      std::deque<unsigned> order;
      for (unsigned i = 0; i < n; ++i) {
        std::string po = "msgid \"common\"\nmsgstr \"" + std::to_string(i) + "\"\n\n";
        for (unsigned k = 0; k <= i; k += 1 + k / 4) po += "msgctxt \"upto\"\nmsgid \"" + std::to_string(k) + "\"\nmsgstr \"" + std::to_string(i) + "\"\n\n";
        f->dirs[tagged("d", i)].emplace_back("de.po", po + "msgid \"" + tagged("m", i) + "\"\nmsgid_plural \"s\"\nmsgstr[0] \"" + std::to_string(i) + "\"\n");
        bool front = how == 1 || (how == 2 && i % 3 == 1);
        m.add_directory(tagged("d", i), front);
        if (front) order.push_front(i); else order.push_back(i);
      }
      tg::Dictionary& d = m.get_dictionary(tg::Language::from_name("de"));
      auto what = [&] { return std::to_string(n) + " directories, way " + std::to_string(how); };
      c.check(d.translate("common") == std::to_string(order.front()), "content", what);
      for (unsigned i = 0; i < n; ++i) {
        c.check(d.translate_plural(tagged("m", i), "s", 1) == std::to_string(i), "content", what);
        // message i is in directory i and those behind it in the listing of numbers (when i is one of the steps)
        std::string got = d.translate_ctxt("upto", std::to_string(i)), want;
        for (unsigned x : order) if (x >= i) { want = std::to_string(x); break; }
        bool step = false;
        for (unsigned k = 0; k <= i; k += 1 + k / 4) step = step || k == i;
        if (step) c.check(got == want, "content", [&] { return what() + ", message " + std::to_string(i) + ": " + got + " instead of " + want; });
      }
    }
  }},
  {"the best file at every place of a listing", [](Case& c) {
    std::vector<std::string> others;
    for (auto& s : specs()) if (std::string(s.language) != "de") others.push_back(std::string(s.language) + (*s.country ? "_" : "") + s.country + (*s.modifier ? "@" : "") + s.modifier + ".po");
    for (unsigned n = 0; n < 280; n += n < 40 ? 1 : 13) for (unsigned k = 0; k <= n; k += n < 40 ? 1 : 7) {
      auto f = std::make_shared<Files>();
      auto& d = f->dirs["d"];
      for (unsigned i = 0; i < n; ++i) d.emplace_back(i < others.size() && i % 3 ? others[i] : i % 3 ? "x" + std::to_string(i) + ".po" : "de_C" + std::string(1, static_cast<char>('A' + i % 7)) + ".po" + (i % 2 ? "" : "x"), "msgid \"a\"\nmsgstr \"wrong\"\n");
      d.emplace(d.begin() + static_cast<long>(k), "de_AT.po", "msgid \"a\"\nmsgstr \"right\"\n");
      d.emplace(d.begin() + static_cast<long>((k * 7) % (n + 1)), "de.po", "msgid \"a\"\nmsgstr \"general\"\n");
      tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
      m.add_directory("d");
      auto what = [&] { return "place " + std::to_string(k) + " of " + std::to_string(n); };
      c.check(m.get_dictionary(tg::Language::from_env("de_AT")).translate("a") == "right", "content", what);
      c.check(m.get_dictionary(tg::Language::from_env("de")).translate("a") == "general", "content", what);
    }
  }},
  {"every language with every two files of its code", [](Case& c) {
    for (auto& want : specs()) for (auto& one : specs()) {
      if (std::string(want.language) != one.language) continue;
      for (auto& two : specs()) {
        if (std::string(want.language) != two.language) continue;
        auto name = [](const Spec& s) { return std::string(s.language) + (*s.country ? "_" : "") + s.country + (*s.modifier ? "@" : "") + s.modifier + ".po"; };
        auto l = [](const Spec& s) { return tg::Language::from_spec(s.language, s.country, s.modifier); };
        int a = ref_score(l(want), l(one)), b = ref_score(l(want), l(two));
        auto f = std::make_shared<Files>();
        f->dirs["d"].emplace_back(name(one), "msgid \"a\"\nmsgstr \"1\"\n");
        f->dirs["d"].emplace_back(std::string(want.language) == "fr" ? "it_CH.po" : "fr_CA.po", "msgid \"b\"\nmsgstr \"3\"\n");
        if (&one != &two) f->dirs["d"].emplace_back(name(two), "msgid \"a\"\nmsgstr \"2\"\n");
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(f)));
        m.add_directory("d");
        std::string got = m.get_dictionary(l(want)).translate("a");
        c.check(&one == &two || a > b ? got == "1" : a < b ? got == "2" : got == "1" || got == "2", "content", [&] { return l(want).str() + " of " + name(one) + " and " + name(two) + " takes " + got; });
        c.check(m.get_dictionary(l(want)).translate("b") == "b", "content", [&] { return l(want).str(); });
      }
    }
  }},
  };
}
} // namespace pbt
