// C06: what a regional dictionary lacks comes from the base language.
#include "langs.hpp"
#include "manager.hpp"
#include <algorithm>
#include "model.hpp"

using namespace model;

namespace pbt {
const char* const property_id = "C06";
const char* const property_rule =
  "chains of one to five dictionaries with random contents and plural rules linked by addFallback (built up and extended in any order), and "
  "managers with random regional and base files in one or several directories; every kind of lookup compared with a model of the chain; "
  "non-trivial: at least one lookup was answered by a fallback";

namespace {

const std::vector<int>& counts() { static const std::vector<int> v = {0, 1, 2, 3, 5, 11, 21, 22, 101, 111}; return v; }

std::string str(Tape& t, const char* tag)
{
  if (t.chance(50)) return std::string();
  return tag + std::to_string(t.range(0, 255));
}

bool by_fallback(const View& v, const std::set<Key>& keys)
{
  for (auto& k : keys) {
    View own{v.own, v.rule, nullptr};
    if (lookup(v, k) != lookup(own, k)) return true;
    for (int n : counts()) if (lookup_plural(v, k, "p", n) != lookup_plural(own, k, "p", n)) return true;
  }
  return false;
}

void chain(Case& c)
{
  Tape& t = c.t;
  size_t n = t.chance(4) ? magnitude(t, 20) : t.range(1, 5);
  struct Level { tg::Dictionary d; Dump m; int rule = -1; };
  std::vector<std::unique_ptr<Level>> v;
  static const std::vector<std::string> ids = {"a", "b", "c", "", "d e"}, ctx = {"x", "y", ""};
  std::set<Key> keys;
  for (auto& i : ids) { keys.insert(Key(std::nullopt, i)); for (auto& x : ctx) keys.insert(Key(x, i)); }
  for (size_t i = 0; i < n; ++i) v.emplace_back(new Level);
  tg::Dictionary other;
  for (auto& k : keys) if (k.first) other.add_translation(*k.first, k.second, "other"); else other.add_translation(k.second, "other");
  // each link at any time, in any order
  std::vector<size_t> order, when;
  for (size_t i = 0; i + 1 < n; ++i) { order.insert(order.begin() + static_cast<ptrdiff_t>(t.range(0, i)), i); when.push_back(0); }
  unsigned mode = static_cast<unsigned>(t.range(0, 2));
  for (auto& w : when) w = mode == 0 ? 0 : mode == 1 ? n : t.range(0, n);
  auto link = [&](size_t now) {
    for (size_t i : order) if (when[i] == now) {
      if (t.chance(16)) { c.log << "level " << i << " has another fallback first\n"; v[i]->d.addFallback(&other); }
      c.log << "level " << i << " gets its fallback\n"; v[i]->d.addFallback(&v[i + 1]->d); }
  };
  bool upwards = t.chance(128);
  for (size_t step = 0; step < n; ++step) {
    link(step);
    size_t i = upwards ? n - 1 - step : step;
    Level& l = *v[i];
    std::string tag = "L" + std::to_string(i) + "-";
    if (t.chance(200)) {
      l.rule = static_cast<int>(t.range(0, rules().size() - 1));
      l.d.set_plural_forms(tg::PluralForms(rules()[static_cast<size_t>(l.rule)].n, rules()[static_cast<size_t>(l.rule)].f));
    }
    c.log << "level " << i << " rule " << l.rule << "\n";
    for (auto& k : keys) {
      switch (t.range(0, 3)) {
        case 2: {
          std::string s = str(t, tag.c_str());
          l.m[k] = {s};
          if (k.first) l.d.add_translation(*k.first, k.second, s); else l.d.add_translation(k.second, s);
          break;
        }
        case 3: {
          std::vector<std::string> s;
          size_t f = t.range(1, 6);
          for (size_t j = 0; j < f; ++j) s.push_back(str(t, tag.c_str()));
          l.m[k] = s;
          if (k.first) l.d.add_translation(*k.first, k.second, "pl", s); else l.d.add_translation(k.second, "pl", s);
          break;
        }
        default: break;
      }
    }
    c.log << show(l.m);
  }
  link(n);
  std::vector<View> views(n);
  for (size_t i = n; i-- > 0;)
    views[i] = View{&v[i]->m, v[i]->rule < 0 ? nullptr : rules()[static_cast<size_t>(v[i]->rule)].f, i + 1 < n ? &views[i + 1] : nullptr};
  for (size_t i = 0; i < n; ++i) {
    std::string w = compare_lookups(v[i]->d, views[i], keys, counts());
    c.check(w.empty(), "chain", [&] { return "level " + std::to_string(i) + ": " + w; });
    Dump a = dump(v[i]->d);
    c.check(a == v[i]->m, "fallback-changed-the-dictionary", [&] { return diff(v[i]->m, a); });
    if (by_fallback(views[i], keys)) c.nontrivial = true;
  }
  c.label("chain");
}

Catalogue small(Tape& t, const char* tag, int rule)
{
  static const std::vector<std::string> ids = {"a", "b", "c", "d e"}, ctx = {"x", "y"};
  Catalogue cat;
  cat.rule = rule;
  for (size_t x = 0; x <= ctx.size(); ++x) for (auto& i : ids) {
    size_t kind = t.range(0, 3);
    if (kind < 2) continue;
    Message m;
    if (x) m.ctxt = ctx[x - 1];
    m.id = i;
    m.plural = kind == 3;
    m.id_plural = i + "s";
    size_t f = m.plural ? (rule < 0 ? 2 : rules()[static_cast<size_t>(rule)].n) : 1;
    for (size_t j = 0; j < f; ++j) m.str.push_back(str(t, tag));
    cat.messages.push_back(m);
  }
  return cat;
}

// what was asked for earlier must not matter
void before(Case& c, tg::DictionaryManager& m, const std::vector<tg::Language>& langs)
{
  Tape& t = c.t;
  for (size_t n = t.length(6, 1); n; --n) {
    tg::Language l = t.pick(langs);
    bool select = t.chance(128);
    c.log << (select ? "selected before: " : "requested before: ") << l.str() << "\n";
    if (select) { m.set_language(l); if (t.chance(170)) m.get_dictionary(); }
    else m.get_dictionary(l);
  }
}

void manager(Case& c)
{
  Tape& t = c.t;
  static std::vector<Spec> regional;
  if (regional.empty()) for (auto& s : specs()) if (*s.country) regional.push_back(s);
  Spec r = t.pick(regional);
  tg::Language lang = tg::Language::from_spec(r.language, r.country, r.modifier), base = tg::Language::from_spec(r.language);
  c.check(lang && base, "language-missing", [&] { return std::string(r.language) + "_" + r.country; });
  std::string reg_file = lang.str() + ".po", base_file = base.str() + ".po";
  bool has_reg = !t.chance(40), has_base = !t.chance(40);
  int rule = static_cast<int>(t.range(0, rules().size() - 1));
  auto files = std::make_shared<Files>();
  Catalogue cr = small(t, "R", rule), cb = small(t, "B", rule);
  auto& dir = files->dirs["dir"];
  if (has_reg) dir.emplace_back(reg_file, serialise(cr));
  if (has_base) dir.emplace_back(base_file, serialise(cb));
  if (t.chance(128)) std::reverse(dir.begin(), dir.end());
  static const Dump nothing;
  Dump er = has_reg ? expected(cr) : Dump(), eb = has_base ? expected(cb) : Dump();
  // with one of the files missing the other one is the nearest
  const Dump& own = has_reg ? er : eb;
  const Dump& low = has_base ? eb : er;
  auto f = has_reg || has_base ? rules()[static_cast<size_t>(rule)].f : nullptr;
  View vb{&low, f, nullptr}, vr{&own, f, &vb};
  c.log << "manager " << lang.str() << " files: " << (has_reg ? reg_file : "") << " " << (has_base ? base_file : "") << " rule " << rule << "\n" << show(cr) << show(cb);
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
  m.add_directory("dir");
  before(c, m, {lang, base, tg::Language::from_spec("de"), tg::Language::from_spec("pt", "BR")});
  tg::Dictionary* d;
  if (t.chance(128)) { m.set_language(lang); d = &m.get_dictionary(); }
  else d = &m.get_dictionary(lang);
  std::set<Key> keys;
  for (auto& id : {"a", "b", "c", "d e", "nope"}) { keys.insert(Key(std::nullopt, id)); for (auto& x : {"x", "y", "z"}) keys.insert(Key(std::string(x), id)); }
  std::string w = compare_lookups(*d, vr, keys, counts());
  c.check(w.empty(), "regional", [&] { return w; });
  w = compare_lookups(m.get_dictionary(base), vb, keys, counts());
  c.check(w.empty(), "base", [&] { return w; });
  Dump a = dump(*d);
  c.check(a == own, "regional-content", [&] { return diff(own, a); });
  if (by_fallback(vr, keys)) c.nontrivial = true;
  c.label("manager");
}

// several directories with any files of the language
void variants(Case& c)
{
  Tape& t = c.t;
  static std::vector<Spec> regional, rich;
  if (regional.empty()) for (auto& s : specs()) if (*s.country) {
    regional.push_back(s);
    for (auto& x : specs()) if (*x.modifier && !std::string(x.language).compare(s.language)) { rich.push_back(s); break; }
  }
  Spec r = t.chance(128) && !rich.empty() ? t.pick(rich) : t.pick(regional);
  std::vector<Spec> alike;
  for (auto& x : specs()) if (!std::string(x.language).compare(r.language)) alike.push_back(x);
  Spec target = t.pick(alike);
  tg::Language lang = tg::Language::from_spec(r.language, target.country, target.modifier);
  WorldOptions o;
  o.codes = {r.language};
  o.noise = false;
  World w;
  Config cfg;
  size_t dirs = t.range(1, 3);
  for (size_t i = 0; i < dirs; ++i) {
    std::string d = "d" + std::to_string(i);
    w.dirs[d] = gen_dir(t, d, o);
    // the plain language is common
    bool plain = false;
    for (auto& f : w.dirs[d]) plain = plain || f.name == std::string(r.language) + ".po";
    if (!plain && t.chance(150)) w.dirs[d].push_back(gen_file(t, std::string(r.language) + ".po", r.language, d + ":base", o));
    cfg.path.push_back(d);
  }
  c.log << "variants " << lang.str() << "\n" << show(w);
  auto state = std::make_shared<WorldFileSystem::State>();
  state->world = w;
  tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)));
  for (auto& p : cfg.path) m.add_directory(p);
  std::vector<tg::Language> langs;
  for (auto& x : alike) langs.push_back(tg::Language::from_spec(x.language, x.country, x.modifier));
  before(c, m, langs);
  bool via = false;
  std::string e = check_dictionary(m, m.get_dictionary(lang), w, cfg, lang, &via);
  c.check(e.empty(), "variants", [&] { return e; });
  if (via) c.nontrivial = true;
  c.label("variants");
}

} // namespace

void property(Case& c)
{
  unsigned k = static_cast<unsigned>(c.t.range(0, 7));
  if (k < 3) chain(c); else if (k < 5) manager(c); else variants(c);
  c.feed(c.log.str());
}

std::vector<Example> examples()
{
  return {
    {"every regional language falls back to its base", [](Case& c) {
      for (auto& s : specs()) {
        tg::Language l = tg::Language::from_spec(s.language, s.country, s.modifier);
        c.check(static_cast<bool>(l), "language-missing", [&] { return std::string(s.language); });
        auto files = std::make_shared<Files>();
        std::string base = s.language;
        files->dirs["d"].emplace_back(base + ".po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\nmsgid \"b\"\nmsgstr \"B\"\n\nmsgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"CB\"\nmsgstr[1] \"CBS\"\n");
        if (*s.country) files->dirs["d"].emplace_back(l.str() + ".po", "msgid \"a\"\nmsgstr \"A\"\n");
        tg::DictionaryManager m(std::unique_ptr<tg::FileSystem>(new MemFileSystem(files)));
        m.add_directory("d");
        m.set_language(l);
        tg::Dictionary& d = m.get_dictionary();
        c.check(d.translate("b") == "B" && d.translate("zz") == "zz" && d.translate_ctxt("c", "b") == "CB" && d.translate_ctxt_plural("c", "b", "bs", 2) == "CBS" &&
                d.translate_ctxt_plural("c", "b", "bs", 1) == "CB" && d.translate_plural("zz", "zzs", 2) == "zzs" && d.translate_ctxt("zz", "b") == "b", "fallback", [&] { return l.str(); });
        if (*s.country) c.check(d.translate("a") == "A", "own", [&] { return l.str(); });
      }
    }},
    {"chains of every length, messages at every level", [](Case& c) {
      for (unsigned n = 1; n <= 130; n += n < 40 ? 1 : 9) {
        std::vector<std::unique_ptr<tg::Dictionary>> chain;
        for (unsigned i = 0; i < n; ++i) {
          chain.emplace_back(new tg::Dictionary);
          const Rule& r = rules()[i % rules().size()];
          if (i % 4 != 3) chain.back()->set_plural_forms(tg::PluralForms(r.n, r.f));
          tg::Dictionary& d = *chain.back();
          std::string k = std::to_string(i);
          d.add_translation("m" + k, "M" + k);
          d.add_translation("c" + k, "m" + k, "CM" + k);
          std::vector<std::string> v;
          for (unsigned f = 0; f < r.n; ++f) v.push_back("P" + k + "." + std::to_string(f));
          d.add_translation("p" + k, "ps", v);
          d.add_translation("c", "p" + k, "ps", v);
          d.add_translation("all", "A" + k);
          d.add_translation("from" + std::to_string(i / 2), "F" + k);
          if (i) { // the one before has nothing for these
            d.add_translation("hole", "H" + k);
            d.add_translation("c", "hole", "holes", std::vector<std::string>(r.n, "H" + k));
          }
          else { d.add_translation("hole", ""); d.add_translation("c", "hole", "holes", std::vector<std::string>(r.n, "")); }
        }
        for (unsigned i = n - 1; i > 0; --i) chain[i - 1]->addFallback(chain[i].get());
        for (unsigned from : {0u, n / 2}) for (unsigned i = from; i < n; ++i) {
          tg::Dictionary& d = *chain[from];
          const Rule& r = rules()[i % rules().size()];
          std::string k = std::to_string(i);
          auto what = [&] { return "level " + k + " of " + std::to_string(n) + " from " + std::to_string(from); };
          c.check(d.translate("m" + k) == "M" + k, "fallback", what);
          c.check(d.translate_ctxt("c" + k, "m" + k) == "CM" + k && d.translate_ctxt("c" + k, "m") == "m", "fallback", what);
          for (int count : {0, 1, 2, 5, 21, 101}) {
            std::string e = "P" + k + "." + std::to_string(i % 4 != 3 ? r.f(count) : 0);
            c.check(d.translate_plural("p" + k, "ps", count) == e && d.translate_ctxt_plural("c", "p" + k, "ps", count) == e, "fallback", what);
          }
          if (i / 2 * 2 >= from) c.check(d.translate("from" + std::to_string(i / 2)) == "F" + std::to_string(i / 2 * 2), "fallback", what);
        }
        tg::Dictionary& d = *chain[0];
        c.check(d.translate("all") == "A0" && d.translate("none") == "none" && d.translate_plural("none", "nones", 1) == "none" && d.translate_ctxt_plural("c", "none", "nones", 0) == "nones", "fallback");
        c.check(d.translate("hole") == (n > 1 ? "H1" : "hole") && d.translate_ctxt_plural("c", "hole", "holes", 2) == (n > 1 ? "H1" : "holes"), "fallback");
      }
    }},
    {"every number of messages on both sides", [](Case& c) {
      tg::Dictionary d, base;
      d.addFallback(&base);
      for (unsigned i = 0; i < 1500; ++i) {
        base.add_translation(tagged("b", i), tagged("B", i));
        base.add_translation("c", tagged("b", i), tagged("CB", i));
        base.add_translation(tagged("c", i), "x", "xs", std::vector<std::string>{tagged("X", i)});
        if (i % 2) d.add_translation(tagged("b", i), tagged("D", i));
        if (i % 3) d.add_translation("c", tagged("b", i), i % 3 == 1 ? "" : tagged("CD", i));
        if (i % 5) d.add_translation(tagged("c", i), "y", "Y");
        for (unsigned k : {i, i / 2, i * 2 / 3, 0u}) {
          auto what = [&] { return "message " + std::to_string(k) + " of " + std::to_string(i); };
          c.check(d.translate(tagged("b", k)) == tagged(k % 2 ? "D" : "B", k), "fallback", what);
          c.check(d.translate_plural(tagged("b", k), "bs", 1) == tagged(k % 2 ? "D" : "B", k), "fallback", what);
          c.check(d.translate_ctxt("c", tagged("b", k)) == tagged(k % 3 == 2 ? "CD" : "CB", k), "fallback", what);
          c.check(d.translate_ctxt_plural(tagged("c", k), "x", "xs", 1) == tagged("X", k) && d.translate_ctxt(tagged("c", k), "y") == (k % 5 ? "Y" : "y"), "fallback", what);
        }
        c.check(d.translate(tagged("b", i + 1)) == tagged("b", i + 1) && d.translate_plural("b", tagged("b", i + 1), 7) == tagged("b", i + 1), "fallback");
      }
    }},
  };
}
} // namespace pbt
