#include "manager.hpp"
#include "charset.hpp"
#include "langs.hpp"

#include <algorithm>
#include <istream>
#include <stdexcept>
#include <system_error>
#include <streambuf>

namespace model {

bool is_po(const std::string& n) { return n.size() >= 3 && n.compare(n.size() - 3, 3, ".po") == 0; }

int ref_score(const tg::Language& a, const tg::Language& b)
{
  if (a.get_language() != b.get_language()) return 0;
  std::string lc = a.get_country(), lm = a.get_modifier(), rc = b.get_country(), rm = b.get_modifier();
  bool c_same = lc == rc, c_wild = lc.empty() || rc.empty();
  bool m_same = lm == rm, m_wild = lm.empty() || rm.empty();
  if (c_same) return m_same ? 9 : m_wild ? 8 : 5;
  if (c_wild) return m_same ? 7 : m_wild ? 6 : 3;
  return m_same ? 4 : m_wild ? 2 : 1;
}

tg::Language file_language(const std::string& name)
{
  std::string s = name.substr(0, name.size() - 3), code, country, modifier;
  size_t at = s.find('@');
  if (at != std::string::npos) { modifier = s.substr(at + 1); s.resize(at); }
  size_t dot = s.find('.');
  if (dot != std::string::npos) s.resize(dot);
  size_t us = s.find('_');
  if (us != std::string::npos) { country = s.substr(us + 1); s.resize(us); }
  for (auto& ch : country) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
  return tg::Language::from_spec(s, country, modifier);
}

const std::vector<std::string>& rich_codes()
{
  static const std::vector<std::string> v = {"de", "pt", "en", "sr", "ca", "zh", "be", "uz", "es", "fr", "nb", "ar", "ja", "fi", "sv", "tlh"};
  return v;
}

static std::vector<const Spec*> of_code(const std::string& code)
{
  std::vector<const Spec*> v;
  for (auto& s : specs()) if (code == s.language) v.push_back(&s);
  return v;
}

tg::Language gen_language(Tape& t, const std::vector<std::string>& codes)
{
  std::vector<const Spec*> v = of_code(t.pick(codes));
  if (v.empty() || t.chance(24)) { const Spec& s = t.pick(specs()); return tg::Language::from_spec(s.language, s.country, s.modifier); }
  const Spec& s = *t.pick(v);
  return tg::Language::from_spec(s.language, s.country, s.modifier);
}

std::string gen_po_name(Tape& t, const std::string& code)
{
  std::vector<const Spec*> v = of_code(code);
  if (v.empty()) return code + ".po";
  const Spec& s = *t.pick(v);
  std::string country = s.country, modifier = s.modifier;
  unsigned k = static_cast<unsigned>(t.range(0, 15));
  if (k == 13) country = t.chance(128) ? "XX" : "QQQ";
  if (k == 14) modifier = "euro";
  std::string n = code;
  if (t.chance(72)) for (auto& ch : country) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
  if (!country.empty()) n += "_" + country;
  if (k >= 10 && k <= 12) { static const std::vector<std::string> cs = {".UTF-8", ".utf8", ".ISO-8859-1"}; n += t.pick(cs); }
  if (!modifier.empty()) n += "@" + modifier;
  return n + ".po";
}

std::string noise_name(Tape& t)
{
  static const std::vector<std::string> v = {"README", "po", ".po", "o", "a", "tinygettext.pot", "de.po~", "de.PO", "de.po.bak", "de.pox", "de.mo", "xx.po", "klingon.po", "_.po",
    "@.po", "..po", "_DE.po", "DE.po", "a.po", "de-AT.po", ".", "..", "de", "de_DE", "pt_BR.gmo", "x", "", "depo", ".de.po", "tlh_KX.po", "deutsch.po", "po.po", " de.po", "de .po", "german.po"};
  return t.pick(v);
}

int rule_of(const std::string& code)
{
  unsigned h = 0;
  for (unsigned char ch : code) h = h * 31 + ch;
  return static_cast<int>(h % rules().size());
}

namespace {

const std::vector<std::string>& ids() { static const std::vector<std::string> v = {"a", "b", "c", "d e", "open file"}; return v; }
const std::vector<std::string>& ctxs() { static const std::vector<std::string> v = {"x", "y"}; return v; }

std::string gen_str(Tape& t, const std::string& tag)
{
  if (t.chance(24)) return std::string();
  std::string s = tag + "-" + std::to_string(t.range(0, 255));
  if (t.chance(64)) s += utf8(static_cast<uint32_t>(t.range(0xa1, 0xff)));
  return s;
}

void write_file(FileModel& f)
{
  f.raw.clear();
  f.ends.clear();
  Layout l(nullptr);
  Catalogue c = f.cat;
  if (f.fault == Fault::bad_charset) c.charset = "X-NO-SUCH-CHARSET";
  std::string out;
  auto done = [&] {
    std::string piece;
    Conv r = Conv::ok;
    if (f.cat.charset == "ISO-8859-1") r = iconv_once("ISO-8859-1", "UTF-8", out, piece);
    else piece = out;
    if (r != Conv::ok) abort();
    f.raw += piece + "\n";
    f.ends.push_back(f.raw.size());
    out.clear();
  };
  if (c.header) { write_header(out, l, c); done(); }
  for (auto& m : c.messages) { write_message(out, l, m); done(); }
}

} // namespace

void set_fault(FileModel& f, Fault fault, size_t read_limit)
{
  if (fault == Fault::bad_charset && !f.cat.header) fault = Fault::open_null;
  f.fault = fault;
  f.read_limit = read_limit;
  write_file(f);
}

FileModel gen_file(Tape& t, const std::string& name, const std::string& code, const std::string& tag, const WorldOptions& o)
{
  FileModel f;
  f.name = name;
  f.po = true;
  f.cat.header = !t.chance(8);
  f.cat.rule = f.cat.header && !t.chance(24) ? rule_of(code) : -1;
  f.cat.charset = "UTF-8";
  if (f.cat.header && o.charsets && t.chance(96)) f.cat.charset = "ISO-8859-1";
  unsigned forms = rules()[static_cast<size_t>(rule_of(code))].n;
  for (size_t x = 0; x <= ctxs().size(); ++x) for (auto& i : ids()) {
    if (!t.chance(110)) continue;
    Message m;
    if (x) m.ctxt = ctxs()[x - 1];
    m.id = i;
    m.plural = (x + i.size()) % 3 == 0; // the same in all files
    m.id_plural = i + "s";
    for (unsigned k = 0; k < (m.plural ? forms : 1); ++k) m.str.push_back(gen_str(t, tag));
    m.fuzzy = o.fuzzy && t.chance(80);
    f.cat.messages.push_back(m);
  }
  // a file without header has no charset: keep it ASCII
  if (!f.cat.header) for (auto& m : f.cat.messages) for (auto& s : m.str) { std::string a; for (char ch : s) if (static_cast<unsigned char>(ch) < 128) a += ch; s = a; }
  write_file(f);
  return f;
}

std::vector<FileModel> gen_dir(Tape& t, const std::string& tag, const WorldOptions& o)
{
  std::vector<FileModel> v;
  std::set<std::string> seen;
  size_t n = t.range(0, o.max_files);
  for (size_t i = 0; i < n; ++i) {
    bool noise = o.noise && t.chance(56);
    std::string code = t.chance(24) ? std::string(t.pick(specs()).language) : t.pick(o.codes);
    std::string name = noise ? noise_name(t) : gen_po_name(t, code);
    if (!seen.insert(name).second) continue;
    if (is_po(name)) {
      tg::Language l = file_language(name);
      FileModel f = gen_file(t, name, l ? l.get_language() : code, tag + ":" + name, o);
      v.push_back(f);
    }
    else {
      FileModel f = gen_file(t, name, code, "NOISE", o);
      f.po = false;
      v.push_back(f);
    }
  }
  return v;
}

std::string show(const World& w)
{
  std::string r;
  for (auto& d : w.dirs) {
    r += "directory " + quote(d.first) + (w.unlistable.count(d.first) ? " (cannot be listed)" : "") + "\n";
    for (auto& f : d.second) {
      r += " file " + quote(f.name);
      static const char* const names[] = {"", " open gives null", " open gives failed stream", " open throws", " read fails after ", " bad charset"};
      r += names[static_cast<int>(f.fault)];
      if (f.fault == Fault::read) r += std::to_string(f.read_limit) + " of " + std::to_string(f.raw.size());
      r += f.po ? " " + show(f.cat) : "\n";
    }
  }
  return r;
}

namespace {

struct OwnError : std::exception { const char* what() const noexcept override { return "own error"; } };

// file systems throw whatever they like
[[noreturn]] void raise(const std::string& what)
{
  unsigned h = 0;
  for (unsigned char ch : what) h = h * 31 + ch;
  switch (h % 8) {
    case 0: throw std::out_of_range(what);
    case 1: throw std::bad_alloc();
    case 2: throw std::ios_base::failure(what);
    case 3: throw std::system_error(std::make_error_code(std::errc::io_error), what);
    case 4: throw OwnError();
    case 5: throw std::logic_error(what);
    default: throw std::runtime_error(what);
  }
}

// delivers the data, then fails
class FailingBuf : public std::streambuf {
public:
  FailingBuf(const std::string& data) : m_data(data) { setg(&m_data[0], &m_data[0], &m_data[0] + m_data.size()); }
protected:
  int_type underflow() override { raise("read error" + std::to_string(m_data.size())); }
private:
  std::string m_data;
};

class FailingStream : public std::istream {
public:
  FailingStream(const std::string& data, bool throwing) : std::istream(nullptr), m_buf(data)
  {
    rdbuf(&m_buf);
    if (throwing) exceptions(std::ios::badbit);
  }
private:
  FailingBuf m_buf;
};

} // namespace

std::vector<std::string> WorldFileSystem::open_directory(const std::string& pathname)
{
  auto i = state->world.dirs.find(pathname);
  if (state->world.unlistable.count(pathname)) { state->hit.insert(pathname); raise("cannot list " + pathname); }
  std::vector<std::string> r;
  if (i != state->world.dirs.end()) for (auto& f : i->second) r.push_back(f.name);
  return r;
}

std::unique_ptr<std::istream> WorldFileSystem::open_file(const std::string& filename)
{
  for (auto& d : state->world.dirs) for (auto& f : d.second) {
    if (filename != d.first + "/" + f.name) continue;
    if (f.fault != Fault::none) state->hit.insert(filename);
    switch (f.fault) {
      case Fault::none: case Fault::bad_charset: return std::unique_ptr<std::istream>(new std::istringstream(f.raw));
      case Fault::open_null: return nullptr;
      case Fault::open_throw: raise("cannot open " + filename);
      case Fault::open_failed: { std::unique_ptr<std::istream> s(new std::istringstream(f.raw)); s->setstate(std::ios::failbit); return s; }
      case Fault::read: return std::unique_ptr<std::istream>(new FailingStream(f.raw.substr(0, f.read_limit), f.read_limit % 3 == 0));
    }
  }
  return nullptr;
}

std::set<tg::Language> expected_languages(const World& w, const Config& c)
{
  std::set<tg::Language> r;
  for (auto& p : c.path) {
    auto i = w.dirs.find(p);
    if (i == w.dirs.end() || w.unlistable.count(p)) continue;
    for (auto& f : i->second) if (is_po(f.name)) { tg::Language l = file_language(f.name); if (l) r.insert(l); }
  }
  return r;
}

static bool usable(const std::string& charset)
{
  return charset == "UTF-8" || iconv_available(charset, "UTF-8");
}

static void apply(Own& o, const FileModel& f, const Config& c)
{
  o.loaded.push_back(f.name);
  size_t avail = f.raw.size();
  switch (f.fault) {
    case Fault::open_null: case Fault::open_failed: case Fault::open_throw: return;
    case Fault::bad_charset: return;
    case Fault::read: avail = f.read_limit; break;
    default: break;
  }
  size_t piece = 0;
  if (f.cat.header && !usable(c.charset)) return;
  if (f.cat.header) {
    if (f.ends[piece++] > avail) return; // (rule handled by the caller)
    if (f.cat.rule >= 0) o.rule = true;
  }
  for (auto& m : f.cat.messages) {
    size_t end = f.ends[piece++];
    Key k(m.ctxt, m.id);
    if (end > avail) { o.open.insert(k); return; }
    if (!m.translated() || (m.fuzzy && !c.fuzzy)) continue;
    std::vector<std::string> v;
    for (auto& s : m.str) {
      std::string x = s;
      if (f.cat.header && c.charset != "UTF-8") { if (iconv_once(c.charset, "UTF-8", s, x) != Conv::ok) abort(); }
      v.push_back(x);
    }
    o.dump[k] = v;
    o.open.erase(k);
  }
}

std::vector<Own> expected_own(const World& w, const Config& c, const tg::Language& lang)
{
  std::vector<Own> r(1);
  for (auto p = c.path.rbegin(); p != c.path.rend(); ++p) {
    auto i = w.dirs.find(*p);
    if (i == w.dirs.end() || w.unlistable.count(*p)) continue;
    int best = 0;
    std::vector<const FileModel*> cand;
    for (auto& f : i->second) {
      if (!is_po(f.name)) continue;
      tg::Language l = file_language(f.name);
      if (!l) continue;
      int s = ref_score(lang, l);
      if (s > best) { best = s; cand.clear(); }
      if (s == best && s > 0) cand.push_back(&f);
    }
    if (cand.empty()) continue;
    std::vector<Own> n;
    for (auto& o : r) for (auto* f : cand) {
      if (n.size() >= 256) return {};
      Own x = o;
      apply(x, *f, c);
      n.push_back(x);
      // the header was not read completely or not usable: whether its rule counts is open
      bool cut = f->cat.header && (f->fault == Fault::bad_charset || !usable(c.charset) || (f->fault == Fault::read && f->ends[0] > f->read_limit));
      if (cut && f->cat.rule >= 0 && !x.rule) { x.rule = true; n.push_back(x); }
    }
    r.swap(n);
  }
  return r;
}

const std::set<Key>& all_keys()
{
  static std::set<Key> keys;
  if (keys.empty()) {
    std::vector<std::string> i = ids(), x = ctxs();
    i.push_back("never translated");
    x.push_back("never used");
    for (auto& id : i) { keys.insert(Key(std::nullopt, id)); for (auto& ct : x) keys.insert(Key(ct, id)); }
  }
  return keys;
}

static bool fits(const Own& o, const Dump& d)
{
  if (o.open.empty()) return o.dump == d;
  Dump a = o.dump, b = d;
  for (auto& k : o.open) { a.erase(k); b.erase(k); }
  return a == b;
}

std::string check_dictionary(tg::DictionaryManager& m, tg::Dictionary& d, const World& w, const Config& c, const tg::Language& lang, bool* via_fallback)
{
  static const std::vector<int> counts = {0, 1, 2, 5, 21, 111};
  Dump a = dump(d);
  if (d.get_charset() != c.charset) return lang.str() + ": dictionary has charset " + quote(d.get_charset()) + ", expected " + quote(c.charset);
  std::vector<Own> own = expected_own(w, c, lang), base;
  if (own.empty()) return ""; // too many possibilities to tell
  Dump b;
  if (!lang.get_country().empty()) {
    tg::Language l = tg::Language::from_spec(lang.get_language());
    b = dump(m.get_dictionary(l));
    base = expected_own(w, c, l);
    if (base.empty()) return "";
  }
  std::string first;
  for (auto& o : own) {
    if (!fits(o, a)) { if (first.empty()) first = lang.str() + ": " + diff(o.dump, a) + (own.size() > 1 ? " (or another of several equally good files)" : ""); continue; }
    auto f = o.rule ? rules()[static_cast<size_t>(rule_of(lang.get_language()))].f : nullptr;
    auto keys_without = [&](const std::set<Key>& x, const std::set<Key>& y) {
      std::set<Key> k = all_keys();
      for (auto& e : x) k.erase(e);
      for (auto& e : y) k.erase(e);
      return k;
    };
    if (base.empty()) {
      View v{&a, f, nullptr};
      std::string s = compare_lookups(d, v, keys_without(o.open, {}), counts);
      if (s.empty()) return "";
      if (first.empty()) first = lang.str() + ": " + s;
      continue;
    }
    for (auto& bo : base) {
      if (!fits(bo, b)) { if (first.empty()) first = "base of " + lang.str() + ": " + diff(bo.dump, b); continue; }
      View vb{&b, bo.rule ? rules()[static_cast<size_t>(rule_of(lang.get_language()))].f : nullptr, nullptr};
      View v{&a, f, &vb};
      std::string s = compare_lookups(d, v, keys_without(o.open, bo.open), counts);
      if (s.empty()) {
        if (via_fallback) for (auto& e : b) if (!a.count(e.first)) *via_fallback = true;
        return "";
      }
      if (first.empty()) first = lang.str() + ": " + s;
    }
  }
  return first.empty() ? lang.str() + ": no expectation" : first;
}

std::string fingerprint(tg::Dictionary& d)
{
  std::string r = "charset " + d.get_charset() + "\n" + show(dump(d));
  for (auto& k : all_keys()) {
    r += k.first ? d.translate_ctxt(*k.first, k.second) : d.translate(k.second);
    for (int n : {0, 1, 2, 5, 21}) r += "," + (k.first ? d.translate_ctxt_plural(*k.first, k.second, "pl", n) : d.translate_plural(k.second, "pl", n));
    r += "\n";
  }
  return r;
}

} // namespace model
