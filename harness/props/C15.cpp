// C15: a failing file or directory never takes other translations with it.
#include "manager.hpp"
#include <algorithm>

using namespace model;

namespace pbt {
const char* const property_id = "C15";
const char* const property_rule =
  "random directories in which faults are placed (listing throws, open throws / gives null / gives a failed stream, reading breaks after any number of "
  "bytes with or without an exception leaving the stream, unusable file or dictionary charset), a random request sequence, then the faults move or go "
  "away with a configuration change; results compared with a model in which failing files are empty and cut ones hold their complete entries, and each "
  "fault met must be named in the log; non-trivial: a fault was met while another file of the same request was readable";

namespace {

struct Machine {
  Case& c;
  Tape& t;
  std::shared_ptr<WorldFileSystem::State> state = std::make_shared<WorldFileSystem::State>();
  tg::DictionaryManager m;
  Config cfg;
  WorldOptions o;
  std::vector<std::string> names;

  explicit Machine(Case& c_) : c(c_), t(c_.t), m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state))) {}

  void place(bool faults)
  {
    World& w = state->world;
    w.unlistable.clear();
    for (auto& d : w.dirs) {
      if (faults && t.chance(48)) w.unlistable.insert(d.first);
      for (auto& f : d.second) {
        Fault k = Fault::none;
        size_t limit = 0;
        if (faults && f.po && t.chance(100)) {
          static const std::vector<Fault> v = {Fault::read, Fault::read, Fault::read, Fault::open_null, Fault::open_failed, Fault::open_throw, Fault::bad_charset};
          k = t.pick(v);
          if (k == Fault::read) {
            // often at a line or entry boundary
            limit = t.range(0, f.raw.size());
            if (t.chance(100)) while (limit < f.raw.size() && limit > 0 && f.raw[limit - 1] != '\n') ++limit;
            if (t.chance(40)) limit = f.raw.size();
          }
        }
        set_fault(f, k, limit);
      }
    }
    c.log << show(w);
  }

  template<class F> void logged(F run)
  {
    state->hit.clear();
    LogCapture::reset();
    try { run(); }
    catch (Failure&) { throw; }
    catch (std::exception& e) { c.fail("exception", e.what()); }
    catch (...) { c.fail("exception", "unknown"); }
    for (auto& h : state->hit) {
      bool named = false;
      for (auto& s : LogCapture::texts) if (s.find(h) != std::string::npos) named = true;
      c.check(named, "not-reported", [&] { return h + " failed without a message naming it"; });
    }
    if (!state->hit.empty()) c.label("fault met");
  }

  void request(const tg::Language& l)
  {
    c.log << "request " << l.str() << "\n";
    tg::Dictionary* d = nullptr;
    if (t.chance(80)) { m.set_language(l); logged([&] { d = &m.get_dictionary(); }); }
    else logged([&] { d = &m.get_dictionary(l); });
    bool met = !state->hit.empty();
    std::string s = check_dictionary(m, *d, state->world, cfg, l);
    c.check(s.empty(), "content", [&] { return s; });
    if (met && !dump(*d).empty()) c.nontrivial = true;
    // the failure is not repeated or worsened by asking again
    c.check(&m.get_dictionary(l) == d, "another-object", [&] { return l.str(); });
  }

  void list()
  {
    c.log << "get_languages\n";
    std::set<tg::Language> a, e = expected_languages(state->world, cfg);
    logged([&] { a = m.get_languages(); });
    c.check(a == e, "languages", [&] { std::string s = "got:"; for (auto& l : a) s += " " + l.str(); s += " expected:"; for (auto& l : e) s += " " + l.str(); return s; });
  }

  void reconfigure()
  {
    switch (t.range(0, 3)) {
      case 0: cfg.fuzzy = !cfg.fuzzy; m.set_use_fuzzy(cfg.fuzzy); c.log << "fuzzy " << cfg.fuzzy << "\n"; break;
      case 1: {
        static const std::vector<std::string> v = {"UTF-8", "ISO-8859-1", "NO-SUCH-CHARSET", "UTF-16LE"};
        std::string s = t.pick(v);
        if (s == cfg.charset) s = s == "UTF-8" ? "ISO-8859-1" : "UTF-8";
        cfg.charset = s;
        m.set_charset(s);
        c.log << "charset " << s << "\n";
        break;
      }
      default: {
        std::string d = t.pick(names);
        auto i = std::find(cfg.path.begin(), cfg.path.end(), d);
        if (i != cfg.path.end()) { m.remove_directory(d); cfg.path.erase(i); c.log << "remove " << d << "\n"; if (t.chance(128)) break; }
        m.add_directory(d);
        cfg.path.push_back(d);
        c.log << "add " << d << "\n";
      }
    }
  }
};

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  Machine s(c);
  s.o.codes.push_back(t.pick(rich_codes()));
  s.o.fuzzy = t.chance(64);
  s.o.charsets = true;
  s.o.max_files = 4;
  size_t nd = t.chance(3) ? magnitude(t, 40) : t.range(1, 4);
  if (nd > 4) s.o.max_files = 2;
  for (size_t i = 0; i < nd; ++i) {
    std::string d = "dir" + std::to_string(i);
    s.names.push_back(d);
    s.state->world.dirs[d] = gen_dir(t, d, s.o);
    s.m.add_directory(d);
    s.cfg.path.push_back(d);
  }
  size_t rounds = t.range(1, 3);
  for (size_t r = 0; r < rounds; ++r) {
    bool faults = r + 1 < rounds || t.chance(192);
    if (r) s.reconfigure();
    s.place(faults);
    if (!faults && r) c.label("recovered");
    size_t n = t.range(1, 3);
    for (size_t i = 0; i < n; ++i) { if (t.chance(56)) s.list(); else s.request(gen_language(t, s.o.codes)); }
  }
  c.feed(c.log.str());
}

namespace {
std::string po(const std::string& s) { return std::string("msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"a\"\nmsgstr \"") + s + "\"\n\n"; }
}

std::vector<Example> examples()
{
  return {
    {"reading breaks at every byte of a file", [](Case& c) {
      for (int thrown = 0; thrown < 3; ++thrown) {
        std::string body = po("A") + "msgctxt \"x\"\nmsgid \"b\"\nmsgstr \"\"\n\"B1\"\n\"B2\"\n\nmsgid \"c\"\nmsgid_plural \"cs\"\nmsgstr[0] \"C\"\nmsgstr[1] \"CS\"\n\n";
        for (size_t k = static_cast<size_t>(thrown); k <= body.size(); k += 3) {
          auto st = std::make_shared<WorldFileSystem::State>();
          FileModel f;
          f.name = "de.po"; f.po = true; f.raw = body; f.fault = Fault::read; f.read_limit = k;
          st->world.dirs["d0"].push_back(f);
          FileModel g = f;
          g.fault = Fault::none; g.raw = po("other") + "msgid \"z\"\nmsgstr \"Z\"\n";
          st->world.dirs["d1"].push_back(g);
          tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(st)));
          m.add_directory("d0"); m.add_directory("d1");
          LogCapture::reset();
          tg::Dictionary& d = m.get_dictionary(tg::Language::from_name("de"));
          std::string at = "after " + std::to_string(k) + " bytes";
          c.check(d.translate("z") == "Z", "content", at);
          if (k >= po("A").size()) c.check(d.translate("a") == "A", "content", at);
          if (k < 60) c.check(d.translate("a") == "other", "content", at);
          c.check(LogCapture::error + LogCapture::warning > 0, "not-reported", at);
          if (k == body.size()) c.check(d.translate_ctxt("x", "b") == "B1B2" && dump(d)[Key(std::nullopt, "c")].size() == 2, "content", at);
        }
      }
    }},
    {"every number of failures of every kind, then none", [](Case& c) {
      for (unsigned n = 1; n < 260; n += n < 36 ? 1 : 31) for (int kind = 0; kind < 6; ++kind) {
        auto st = std::make_shared<WorldFileSystem::State>();
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(st)));
        auto fill = [&](bool failing) {
          st->world.dirs.clear();
          st->world.unlistable.clear();
          for (unsigned i = 0; i < n + 2; ++i) {
            std::string d = "d" + std::to_string(i);
            FileModel f;
            f.name = "de.po"; f.po = true;
            f.raw = (kind == 4 && i && i <= n && failing ? "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=X-NOPE\\n\"\n\n" : "") + ("msgid \"m" + std::to_string(i) + "\"\nmsgstr \"M" + std::to_string(i) + "\"\n\n") + po("V" + std::to_string(i));
            if (i && i <= n && failing) {
              static const Fault faults[] = {Fault::open_null, Fault::open_failed, Fault::open_throw, Fault::read, Fault::none, Fault::none};
              f.fault = faults[kind];
              f.read_limit = 5;
              if (kind == 5) st->world.unlistable.insert(d);
            }
            st->world.dirs[d].push_back(f);
          }
        };
        for (unsigned i = 0; i < n + 2; ++i) m.add_directory("d" + std::to_string(i), i == n + 1);
        for (int round = 0; round < 4; ++round) {
          bool failing = round % 2 == 0;
          fill(failing);
          m.set_use_fuzzy(round % 3 == 0);
          LogCapture::reset();
          tg::Dictionary& d = m.get_dictionary(tg::Language::from_name("de"));
          auto what = [&] { return std::to_string(n) + " failures of kind " + std::to_string(kind) + ", round " + std::to_string(round); };
          c.check(d.translate("a") == "V" + std::to_string(n + 1), "content", what);
          for (unsigned i = 0; i < n + 2; ++i) {
            std::string k = std::to_string(i);
            bool lost = failing && i && i <= n;
            c.check(d.translate("m" + k) == (lost ? "m" + k : "M" + k), "content", what);
          }
          c.check(failing ? LogCapture::error + LogCapture::warning >= n : LogCapture::error == 0, "not-reported", what);
          if (n % 5 == 0) c.check(m.get_languages().size() == 1, "languages", what);
        }
      }
    }},
  };
}
} // namespace pbt
