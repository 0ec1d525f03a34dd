// Random programs of library calls, step by step (C22, C24).
#pragma once

#include "charset.hpp"
#include "langs.hpp"
#include "manager.hpp"
#include "tinygettext/iconv.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace model;

namespace pbt {
namespace {

// --- the program ---------------------------------------------------------------------------
struct Objects {
  std::vector<std::unique_ptr<tg::Dictionary>> d;
  tg::IConv conv;
  std::unique_ptr<tg::DictionaryManager> m;
};

struct Step {
  std::string text;
  std::function<std::string(Objects&)> run;
  bool telling = false; // letter case or reports matter
};

std::string scramble(Tape& t, const std::string& s)
{
  std::string r = s;
  unsigned mode = static_cast<unsigned>(t.range(0, 3));
  for (auto& ch : r) {
    bool up = mode == 1 || (mode == 2 && t.chance(128));
    bool down = mode == 3 || (mode == 2 && !up);
    if (up && ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
    else if (down && ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
  }
  return r;
}

struct Charset { const char* name; const char* text; };
const std::vector<Charset>& charsets()
{
  static const std::vector<Charset> v = {
    {"utf-8", "\xc3\xa4\xe2\x82\xac"}, {"iso-8859-1", "\xc3\xa4\xc3\x9fI"}, {"big5", "\xe5\x8a\x9f\xe8\xa8\xb1\xe8\x93\x8b\xe4\xb8\x80"}, {"iso-8859-9", "\xc4\xb0i\xc4\xb1I"}, {"windows-1252", "\xe2\x82\xac\xc3\xa9"},
    {"koi8-r", "\xd0\x96\xd0\xb6"}, {"tis-620", "\xe0\xb8\x81"}, {"ascii", "Ii"}, {"iso-8859-15", "\xe2\x82\xac"}, {"euc-jp", "\xe3\x81\x82"}, {"euc-kr", "\xea\xb0\x80"}, {"gb2312", "\xe4\xb8\x80"}};
  return v;
}

const std::vector<std::string>& targets()
{
  static const std::vector<std::string> v = {"utf-8", "utf-8", "iso-8859-1", "big5", "iso-8859-9", "utf-16", "ascii", "shift_jis", "iso-2022-jp", "windows-1251", "no-such-iI"};
  return v;
}

std::string brief(const std::string& s) { return s.size() < 3000 ? quote(s) : quote(s.substr(0, 1000)) + " ... " + quote(s.substr(s.size() - 1000)); }

std::string key(Tape& t) { static const std::vector<std::string> v = {"a", "i", "I", "Quit", "Exit", "x", "none"}; return t.pick(v); }

std::string gen_content(Tape& t, std::string& note)
{
  const Charset& cs = t.pick(charsets());
  std::string s, head;
  if (!t.chance(24)) {
    head = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=" + scramble(t, t.chance(12) ? "no-such-iI" : cs.name) + "\\n\"\n";
    if (!t.chance(60)) head += "\"Plural-Forms: " + std::string(t.pick(rules()).header) + "\\n\"\n";
    head += "\n";
  }
  size_t n = t.range(1, 6);
  for (size_t i = 0; i < n; ++i) {
    if (t.chance(40)) { size_t k = t.chance(128) ? t.range(1, 20) : magnitude(t, 5000); s += std::string(k, '\n'); }
    std::string id = key(t), str = "T" + std::to_string(t.range(0, 99)) + (t.chance(180) ? cs.text : "");
    bool ctxt = t.chance(60);
    if (t.chance(30)) s += "#, fuzzy\n";
    if (ctxt) s += "msgctxt \"menu\"\n";
    s += "msgid \"" + id + "\"\n";
    static const std::vector<std::string> odd = {"", "", "", "", "", "", "\\i", "\\q", "\"\" x", "\" \t\v\"", "\\"};
    std::string o = t.pick(odd);
    if (t.chance(70)) {
      s += "msgid_plural \"" + id + "s\"\n";
      size_t forms = t.range(1, 4);
      for (size_t k = 0; k < forms; ++k) s += "msgstr[" + std::to_string(k) + "] \"" + str + std::to_string(k) + o + "\"\n";
    }
    else {
      static const std::vector<std::string> sp = {" ", " ", " ", " ", "", "\t", "  ", "\v", " \f", "\xa0", "x"};
      s += "msgstr" + t.pick(sp) + "\"" + str + o + "\"\n";
    }
    static const std::vector<std::string> sep = {"\n", "\n", "\n", "\n", "\n", " \t\v\f\r\n", "\xa0\n\n", "junk\n\n", "", "# x\n"};
    s += t.pick(sep);
  }
  std::string out;
  if (iconv_once(cs.name, "UTF-8", s, out) != Conv::ok) out = s;
  note = cs.name;
  return head + out;
}

std::string reports()
{
  std::string r;
  for (size_t i = 0; i < LogCapture::texts.size(); ++i) r += std::string(1, LogCapture::kinds[i]) + " " + quote(LogCapture::texts[i]) + "\n";
  for (auto& s : LogCapture::infos) r += "i " + quote(s) + "\n";
  LogCapture::reset();
  return r;
}

std::string describe(const tg::Language& l) { return l ? quote(l.str()) + " " + quote(l.get_name()) : "undefined"; }

// a scratch directory, made once in each process
struct Scratch {
  std::string dir;
  Scratch()
  {
    char buf[] = "program-XXXXXX";
    if (!mkdtemp(buf)) abort();
    dir = std::filesystem::absolute(buf).string();
    for (const char* n : {"de.po", "fi_fi.po", "id_ID.po", "\xc4\xb0.po", "\xe4.po", "I i.po"}) std::ofstream(dir + "/" + n) << "msgid \"a\"\nmsgstr \"" << n << "\"\n";
  }
  ~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
};

std::string scratch() { static Scratch s; return s.dir; }

Step gen_step(Tape& t)
{
  Step s;
  switch (t.range(0, 9)) {
    case 0: case 1: case 2: {
      std::string note, content = gen_content(t, note);
      size_t i = t.range(0, 1);
      bool fuzzy = !t.chance(60);
      s.text = "load into " + std::to_string(i) + " " + brief(content);
      s.telling = true;
      s.run = [=](Objects& o) {
        std::string r;
        std::istringstream in(content);
        try { tg::POParser::parse("f.po", in, *o.d[i], fuzzy); }
        catch (std::exception& e) { r = "exception " + quote(e.what()); }
        tg::PluralForms p = o.d[i]->get_plural_forms();
        return r + show(dump(*o.d[i])) + std::to_string(static_cast<bool>(p)) + std::to_string(p.get_nplural()) + std::to_string(p.get_plural(7));
      };
      break;
    }
    case 3: {
      std::string id = key(t);
      bool ctxt = t.chance(100), plural = t.chance(100);
      int n = static_cast<int>(t.range(0, 2000));
      size_t i = t.range(0, 1);
      s.text = "look up " + id + " in " + std::to_string(i) + (ctxt ? " ctxt" : "") + (plural ? " plural " + std::to_string(n) : "");
      s.run = [=](Objects& o) {
        const tg::Dictionary& d = *o.d[i];
        return quote(ctxt ? plural ? d.translate_ctxt_plural("menu", id, id + "s", n) : d.translate_ctxt("menu", id) : plural ? d.translate_plural(id, id + "s", n) : d.translate(id));
      };
      break;
    }
    case 4: case 5: {
      static const std::vector<std::string> v = {"italian", "icelandic", "finnish", "danish", "slovenian", "fran\xc3\xa7" "ais", "bokm\xc3\xa5l", "lithuanian", "swedish", "de", "it_IT", "fi_fi", "id_ID.ISO-8859-1", "sr@ije",
        "be@latin", "en_US@piglatin", "tr_TR", "IT", "catalan", "hrvatski", "japanese.sjis"};
      std::string n = t.pick(v);
      if (!t.chance(60)) n = scramble(t, n);
      if (t.chance(16)) { static const std::vector<std::string> sep = {"", "_", ".", "@"}; n += t.pick(sep) + std::string(magnitude(t, 3000), t.chance(128) ? 'x' : 'I'); }
      s.text = "language " + quote(n);
      s.telling = true;
      s.run = [=](Objects&) {
        tg::Language a = tg::Language::from_name(n), b = tg::Language::from_env(n), c = tg::Language::from_spec(n.substr(0, 2), n.size() > 4 ? n.substr(3, 2) : std::string());
        return describe(a) + " " + describe(b) + " " + describe(c) + " " + quote(a.get_localized_name()) + std::to_string(tg::Language::match(a, b)) + std::to_string(a < b) + std::to_string(b < a);
      };
      break;
    }
    case 6: {
      std::string h = "Plural-Forms: " + std::string(t.pick(rules()).header);
      static const std::vector<std::string> sp = {" ", "\t", "\v", "\xa0", "x", "\x85"};
      if (t.chance(160)) h.insert(t.range(0, h.size()), t.pick(sp));
      std::vector<int> counts;
      for (int i = 0; i < 6; ++i) counts.push_back(static_cast<int>(t.range(0, 100000)));
      s.text = "rule " + quote(h);
      s.run = [=](Objects&) {
        tg::PluralForms p = tg::PluralForms::from_string(h);
        std::string r = std::to_string(static_cast<bool>(p)) + " " + std::to_string(p.get_nplural());
        for (int i : counts) r += " " + std::to_string(p.get_plural(i));
        return r;
      };
      break;
    }
    case 7: {
      const Charset& cs = t.pick(charsets());
      std::string from = scramble(t, t.chance(128) ? cs.name : t.pick(targets())), to = scramble(t, t.chance(128) ? cs.name : t.pick(targets())), in, text = std::string("iI ") + cs.text;
      if (iconv_once(cs.name, "UTF-8", text, in) != Conv::ok) in = text;
      s.text = "convert " + from + " -> " + to + " " + quote(in);
      s.telling = true;
      s.run = [=](Objects& o) {
        try { o.conv.set_charsets(from, to); } catch (std::exception& e) { return "exception " + quote(e.what()); }
        return quote(o.conv.convert(in));
      };
      break;
    }
    default: {
      unsigned k = static_cast<unsigned>(t.range(0, 7));
      static const std::vector<std::string> langs = {"fi_FI", "id_ID", "de", "pt_BR", "tr_TR", "it_IT", "de_AT"};
      std::string l = t.pick(langs), dir = t.chance(60) ? scratch() : t.chance(128) ? "d0" : "d1", to = scramble(t, t.pick(targets()));
      std::string name = scramble(t, l) + ".po";
      bool flag = t.chance(128);
      static const char* const what[] = {"request ", "languages ", "directory ", "name ", "charset ", "disk ", "active ", "select "};
      s.text = std::string("manager ") + what[k] + l + " " + (k == 2 || k == 5 ? "directory" : k == 4 ? to : name) + (flag ? "!" : "");
      s.telling = true;
      s.run = [=](Objects& o) {
        std::string r;
        switch (k) {
          case 0: r = fingerprint(o.m->get_dictionary(tg::Language::from_env(l))); break;
          case 1: for (auto& x : o.m->get_languages()) r += x.str() + " "; break;
          case 2: if (flag) o.m->remove_directory(dir); else o.m->add_directory(dir); break;
          case 3: r = quote(o.m->convertFilename2Language(name)); break;
          case 4: o.m->set_charset(to); break;
          case 6: r = fingerprint(o.m->get_dictionary()) + " " + describe(o.m->get_language()); break;
          case 7: o.m->set_language(flag ? tg::Language::from_env(l) : tg::Language()); break;
          case 5: {
            tg::UnixFileSystem f;
            auto v = f.open_directory(scratch());
            std::multiset<std::string> e(v.begin(), v.end());
            for (auto& x : e) {
              r += quote(x) + " ";
              if (x[0] == '.') continue;
              auto in = f.open_file(scratch() + "/" + x);
              std::string line;
              while (in && std::getline(*in, line)) r += quote(line) + " ";
            }
            break;
          }
        }
        return r;
      };
    }
  }
  return s;
}

} // namespace
} // namespace pbt
