// C18: the default file system delivers directories and files as they are on disk.
#include "manager.hpp"
#include "tinygettext/unix_file_system.hpp"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <sys/stat.h>
#include <unistd.h>

using namespace model;
namespace fs = std::filesystem;

namespace pbt {
const char* const property_id = "C18";
const char* const property_rule =
  "scratch directories with random entries (files of up to 100 kB of any bytes, hidden, non-ASCII and odd names, names of any length, subdirectories, "
  "links, dangling links) listed and read back through UnixFileSystem and compared with what was written, and managers on disk compared with a model and "
  "with a manager in memory, also with directories and dangling links in the place of files; non-trivial: at least three entries of two kinds, or a "
  "translation loaded from disk";

namespace {

struct Scratch {
  Scratch()
  {
    char b[] = "c18-XXXXXX";
    if (!mkdtemp(b)) abort();
    dir = b;
  }
  ~Scratch() { std::error_code e; fs::remove_all(dir, e); }
  std::string dir; // relative to the working directory of the check, which is scratch itself
};

std::string gen_name(Tape& t)
{
  static const std::vector<std::string> v = {"de.po", ".hidden", "..x", "...", "a b", " ", "-", "--help", "\xc3\xa4.po", "\xff\xfe", "a\nb", "*", "?", "~", "de.po~", "A", "a", "#x#", "x\\y", "\"q\"", "'", "%s", "con", ".po", "C:x"};
  if (t.chance(128)) return t.pick(v);
  std::string s;
  size_t n = t.chance(24) ? t.range(200, 255) : 1 + t.length(20, 4);
  for (size_t i = 0; i < n; ++i) { char ch = static_cast<char>(t.chance(160) ? t.range('a', 'z') : t.range(1, 255)); s += ch == '/' ? '_' : ch; }
  if (s == "." || s == "..") s += "x";
  return s;
}

std::string gen_content(Tape& t)
{
  std::string s;
  if (t.chance(2)) { // big
    size_t n = magnitude(t, 100000) * t.range(1, 60);
    unsigned x = t.byte();
    s.resize(n);
    for (size_t i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s[i] = static_cast<char>(x >> 16); }
    return s;
  }
  switch (t.range(0, 5)) {
    case 0: break;
    case 1: s = "msgid \"a\"\r\nmsgstr \"b\"\r\n"; break;
    case 2: { static const std::vector<size_t> sizes = {1, 2, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 100000}; size_t n = t.pick(sizes); unsigned x = t.byte(); for (size_t i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s += static_cast<char>(x >> 16); } break; }
    case 3: s = std::string("\x1a\0\0\xff\xfe\r\n\n\r\x04", 10); break;
    default: { size_t n = t.length(60, 12); for (size_t i = 0; i < n; ++i) s += static_cast<char>(t.byte()); }
  }
  return s;
}

void write(const std::string& path, const std::string& content)
{
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o.write(content.data(), static_cast<std::streamsize>(content.size()));
  o.close();
  if (!o) abort();
}

std::string read_all(std::istream& in, Tape& t)
{
  std::string s;
  if (t.chance(128)) return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
  char buf[701];
  while (in.read(buf, static_cast<std::streamsize>(1 + t.range(0, 699))) || in.gcount()) s.append(buf, static_cast<size_t>(in.gcount()));
  return s;
}

// another spelling of the same directory
std::string spelling(Tape& t, const std::string& d)
{
  switch (t.range(0, 5)) {
    case 1: return d + "/";
    case 2: return "./" + d;
    case 3: return fs::absolute(d).string();
    case 4: return d + "/.";
    case 5: return d + "//";
    default: return d;
  }
}

void raw(Case& c)
{
  Tape& t = c.t;
  Scratch s;
  tg::UnixFileSystem u;
  std::map<std::string, std::string> files;
  std::set<std::string> names, kinds;
  size_t n = t.length(14, 5);
  std::string target = s.dir + "-target";
  write(target, "linked");
  for (size_t i = 0; i < n; ++i) {
    std::string name = gen_name(t);
    std::string p = s.dir + "/" + name;
    if (!names.insert(name).second) continue;
    unsigned k = static_cast<unsigned>(t.range(0, 11));
    switch (k) {
      case 10: fs::create_symlink(name, p); kinds.insert("loop"); break;
      case 11: if (mkfifo(p.c_str(), 0644)) abort(); kinds.insert("pipe"); break; // listed; opening one would wait for a writer
      case 6: fs::create_directory(p); if (t.chance(128)) write(p + "/inner.po", "x"); kinds.insert("dir"); break;
      case 7: fs::create_symlink("../" + target, p); files[name] = "linked"; kinds.insert("link"); break;
      case 8: fs::create_symlink("no such file", p); kinds.insert("dangling"); break;
      case 9: fs::create_symlink(".", p); kinds.insert("dirlink"); break;
      default: { std::string b = gen_content(t); write(p, b); files[name] = b; kinds.insert("file"); }
    }
    c.log << quote(name) << " kind " << k << " size " << (files.count(name) ? files[name].size() : 0) << "\n";
  }
  // a listed directory is no more and no less
  for (int again = 0; again < 2; ++again) {
    std::string d = spelling(t, s.dir);
    std::vector<std::string> got = u.open_directory(d), want(names.begin(), names.end());
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    c.check(got == want, "listing", [&] { return d + ": " + quote(got) + " instead of " + quote(want); });
    if (again == 0 && !files.empty() && t.chance(100)) {
      // changes show up
      std::string name = files.begin()->first;
      fs::remove(s.dir + "/" + name);
      files.erase(name);
      names.erase(name);
      c.log << "removed " << quote(name) << "\n";
    }
  }
  for (auto& f : files) {
    std::string p = spelling(t, s.dir);
    p += (p.back() == '/' ? "" : "/") + f.first;
    std::unique_ptr<std::istream> in = u.open_file(p);
    c.check(in && *in, "not-opened", [&] { return quote(p); });
    std::string b = read_all(*in, t);
    c.check(b == f.second, "bytes", [&] { return quote(p) + ": " + std::to_string(b.size()) + " bytes read, " + std::to_string(f.second.size()) + " written"; });
    if (f.second.empty() || fs::is_symlink(p) || !t.chance(60)) continue;
    // written anew, often with the same size and within the same second
    std::string fresh = t.chance(60) ? gen_content(t) : f.second;
    if (fresh == f.second) fresh[t.range(0, fresh.size() - 1)] ^= static_cast<char>(1 + t.range(0, 254));
    if (t.chance(60)) fs::remove(p);
    write(p, fresh);
    in = u.open_file(p);
    c.check(in && *in, "not-opened", [&] { return quote(p); });
    b = read_all(*in, t);
    c.check(b == fresh, "bytes-of-a-rewritten-file", [&] { return quote(p) + ": " + std::to_string(b.size()) + " bytes read, " + std::to_string(fresh.size()) + " written"; });
  }
  // what is not there is not opened, or says so
  for (auto& p : {s.dir + "/nothing here", s.dir + "/nothing/here"}) {
    bool failed = false;
    try { std::unique_ptr<std::istream> in = u.open_file(p); failed = !in || !*in; } catch (std::exception&) { failed = true; }
    c.check(failed, "opened-nothing", p);
    try { std::vector<std::string> l = u.open_directory(p); c.check(l.empty(), "listed-nothing", [&] { return quote(l); }); } catch (std::exception&) {}
  }
  fs::remove(target);
  c.label("raw");
  c.nontrivial = names.size() > 2 && kinds.size() > 1;
}

void manager(Case& c)
{
  Tape& t = c.t;
  Scratch s;
  WorldOptions o;
  o.codes = {t.pick(rich_codes()), t.pick(rich_codes())};
  o.charsets = true;
  o.fuzzy = true;
  auto state = std::make_shared<WorldFileSystem::State>();
  World& w = state->world;
  Config cfg;
  size_t nd = t.range(1, 3);
  for (size_t i = 0; i < nd; ++i) {
    std::string d = s.dir + "/" + (i == 1 ? "sp ace" : i == 2 ? "\xc3\xa4" : "po");
    fs::create_directory(d);
    std::vector<FileModel> v = gen_dir(t, "d" + std::to_string(i), o), kept;
    std::string key = spelling(t, d);
    for (auto& f : v) {
      if (f.name.empty() || f.name == "." || f.name == "..") continue;
      std::string p = d + "/" + f.name;
      if (f.po && t.chance(20)) {
        set_fault(f, Fault::open_null);
        if (t.chance(128)) fs::create_directory(p); else fs::create_symlink("gone", p);
      }
      else if (t.chance(24)) { write(s.dir + "/real" + std::to_string(i) + "-" + std::to_string(kept.size()), f.raw); fs::create_symlink("../real" + std::to_string(i) + "-" + std::to_string(kept.size()), p); }
      else write(p, f.raw);
      kept.push_back(f);
    }
    w.dirs[key] = kept;
    if (!t.chance(24)) cfg.path.push_back(key);
  }
  if (t.chance(60)) cfg.path.push_back(s.dir + "/missing");
  if (t.chance(24)) { write(s.dir + "/plainfile", "x"); cfg.path.push_back(s.dir + "/plainfile"); }
  cfg.charset = t.chance(80) ? "ISO-8859-1" : "UTF-8";
  cfg.fuzzy = !t.chance(80);
  c.log << "charset " << cfg.charset << " fuzzy " << cfg.fuzzy << "\n" << show(w);
  tg::DictionaryManager disk(cfg.charset), mem(std::unique_ptr<tg::FileSystem>(new WorldFileSystem(state)), cfg.charset);
  disk.set_use_fuzzy(cfg.fuzzy);
  mem.set_use_fuzzy(cfg.fuzzy);
  for (auto& p : cfg.path) { disk.add_directory(p); mem.add_directory(p); }
  for (auto& p : cfg.path) if (!w.dirs.count(p)) w.unlistable.insert(p);
  size_t n = t.range(1, 4);
  for (size_t i = 0; i < n; ++i) {
    tg::Language l = gen_language(t, o.codes);
    c.log << "request " << l.str() << "\n";
    try {
      tg::Dictionary& d = disk.get_dictionary(l);
      std::string e = check_dictionary(disk, d, w, cfg, l);
      c.check(e.empty(), "manager-on-disk", [&] { return e; });
      std::string a = fingerprint(d), b = fingerprint(mem.get_dictionary(l));
      c.check(a == b, "disk-and-memory-differ", [&] { return a + " and in memory\n" + b; });
      if (!dump(d).empty()) c.nontrivial = true;
    }
    catch (Failure&) { throw; }
    catch (std::exception& e) { c.fail("exception", e.what()); }
  }
  std::set<tg::Language> a = disk.get_languages(), e = expected_languages(w, cfg);
  c.check(a == e, "languages", [&] { std::string r = "got:"; for (auto& l : a) r += " " + l.str(); r += " expected:"; for (auto& l : e) r += " " + l.str(); return r; });
  c.label("manager");
}

} // namespace

void property(Case& c)
{
  try { if (c.t.chance(90)) manager(c); else raw(c); }
  catch (fs::filesystem_error& e) { c.fail("exception", e.what()); }
  c.feed(c.log.str());
}

std::vector<Example> examples()
{
  return {
    {"big files", [](Case& c) {
      Scratch s;
      tg::UnixFileSystem u;
      for (size_t n : {size_t(1) << 16, (size_t(1) << 20) + 1, (size_t(1) << 24) + 3}) {
        std::string b(n, 'x');
        for (size_t i = 0; i < n; ++i) b[i] = static_cast<char>(i * 7 + i / 251);
        write(s.dir + "/big", b);
        std::unique_ptr<std::istream> in = u.open_file(s.dir + "/big");
        c.check(in && *in, "not-opened");
        std::string got{std::istreambuf_iterator<char>(*in), std::istreambuf_iterator<char>()};
        c.check(got == b, "bytes", [&] { return std::to_string(got.size()) + " bytes read of " + std::to_string(n); });
        std::string po = "msgid \"first\"\nmsgstr \"1\"\n\n";
        while (po.size() < n / 4) po += "msgid \"m" + std::to_string(po.size()) + "\"\nmsgstr \"some text to make it longer\"\n\n";
        po += "msgid \"last\"\nmsgstr \"2\"\n";
        write(s.dir + "/de.po", po);
        tg::DictionaryManager m;
        m.add_directory(s.dir);
        tg::Dictionary& d = m.get_dictionary(tg::Language::from_name("de"));
        c.check(d.translate("first") == "1" && d.translate("last") == "2", "manager-on-disk", [&] { return "file of " + std::to_string(po.size()) + " bytes"; });
      }
    }},
    {"many entries", [](Case& c) {
      Scratch s;
      tg::UnixFileSystem u;
      c.check(u.open_directory(s.dir).empty(), "listing", std::string("an empty directory"));
      std::vector<std::string> want;
      for (int i = 0; i < 9000; ++i) { want.push_back("entry number " + std::to_string(i) + ".po"); write(s.dir + "/" + want.back(), std::to_string(i)); }
      std::vector<std::string> got = u.open_directory(s.dir);
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      c.check(got == want, "listing", [&] { return std::to_string(got.size()) + " entries of 9000"; });
    }},
    {"files of every size", [](Case& c) {
      Scratch s;
      tg::UnixFileSystem u;
      std::set<size_t> sizes;
      for (size_t n = 0; n <= 1100; ++n) sizes.insert(n);
      for (size_t p = 2048; p <= 262144; p *= 2) for (size_t n = p - 3; n <= p + 3; ++n) sizes.insert(n);
      for (size_t n : {10000, 20000, 30000, 50000, 100000, 200000, 1000, 60000}) for (size_t k = n - 1; k <= n + 1; ++k) sizes.insert(k);
      for (size_t n : sizes) {
        std::string b(n, 'x');
        for (size_t i = 0; i < n; ++i) b[i] = static_cast<char>(i * 131 + i / 256 + n);
        write(s.dir + "/f", b);
        std::unique_ptr<std::istream> in = u.open_file(s.dir + "/f");
        c.check(in && *in, "not-opened", [&] { return std::to_string(n) + " bytes"; });
        std::string got{std::istreambuf_iterator<char>(*in), std::istreambuf_iterator<char>()};
        c.check(got == b, "bytes", [&] { return std::to_string(got.size()) + " bytes read of " + std::to_string(n); });
      }
    }},
    {"files starting and ending with every byte", [](Case& c) {
      Scratch s;
      tg::UnixFileSystem u;
      for (unsigned k = 0; k < 3; ++k)
        for (unsigned x = 0; x < 256; ++x)
          for (unsigned y = 0; y < 256; y += k ? 17 : 1) {
            char p = static_cast<char>(x), q = static_cast<char>(y);
            std::string b = k == 0 ? std::string{p, q} : k == 1 ? std::string{p, 'a', '\r', '\n', q} : std::string{p, p, q, q, 'x'};
            write(s.dir + "/f", b);
            std::unique_ptr<std::istream> in = u.open_file(s.dir + "/f");
            c.check(in && *in, "not-opened", [&] { return quote(b); });
            std::string got{std::istreambuf_iterator<char>(*in), std::istreambuf_iterator<char>()};
            c.check(got == b, "bytes", [&] { return quote(got) + " read of " + quote(b); });
          }
    }},
    {"directories of every size", [](Case& c) {
      Scratch s;
      tg::UnixFileSystem u;
      std::set<std::string> want;
      for (int i = 0; i < 700; ++i) {
        std::vector<std::string> got = u.open_directory(s.dir);
        c.check(got.size() == want.size() && std::set<std::string>(got.begin(), got.end()) == want, "listing", [&] { return std::to_string(got.size()) + " entries of " + std::to_string(want.size()); });
        std::string n = (i % 9 == 4 ? "." : "") + std::to_string(i) + (i % 3 ? ".po" : i % 2 ? "" : ".d");
        if (i % 6 == 0) fs::create_directory(s.dir + "/" + n); else if (i % 12 == 1) fs::create_symlink(n, s.dir + "/" + n); else if (i % 12 == 2) { if (mkfifo((s.dir + "/" + n).c_str(), 0600)) abort(); } else if (i % 6 == 3) fs::create_symlink("nowhere", s.dir + "/" + n); else write(s.dir + "/" + n, "x");
        want.insert(n);
      }
    }},
    {"names of every length and byte", [](Case& c) {
      Scratch s;
      tg::UnixFileSystem u;
      auto one = [&](const std::string& name) {
        write(s.dir + "/" + name, "content of " + name);
        std::vector<std::string> got = u.open_directory(s.dir);
        c.check(got == std::vector<std::string>{name}, "listing", [&] { return quote(got) + " instead of " + quote(name); });
        std::unique_ptr<std::istream> in = u.open_file(s.dir + "/" + name);
        c.check(in && *in, "not-opened", [&] { return quote(name); });
        std::string b{std::istreambuf_iterator<char>(*in), std::istreambuf_iterator<char>()};
        c.check(b == "content of " + name, "bytes", [&] { return quote(name); });
        fs::remove(s.dir + "/" + name);
      };
      for (size_t n = 1; n <= 255; ++n) one(std::string(n, 'n'));
      for (unsigned x = 1; x < 256; ++x) {
        char ch = static_cast<char>(x);
        if (ch == '/') continue;
        if (ch != '.') one(std::string(1, ch));
        one(std::string(1, ch) + "de.po");
        one(std::string("de") + ch + ".po");
        one(std::string("de.po") + ch);
        one(std::string(".") + ch + "x");
        one(std::string("..") + ch);
      }
      // deep ones
      std::string d = s.dir;
      for (int i = 0; i < 60; ++i) {
        d += "/" + std::string(40, static_cast<char>('a' + i % 26));
        fs::create_directory(d);
        write(d + "/f.po", std::to_string(i));
        std::vector<std::string> got = u.open_directory(d);
        c.check(got == std::vector<std::string>{"f.po"}, "listing", [&] { return quote(got) + " in a path of " + std::to_string(d.size()); });
        std::unique_ptr<std::istream> in = u.open_file(d + "/f.po");
        std::string b;
        c.check(in && *in >> b && b == std::to_string(i), "bytes", [&] { return "in a path of " + std::to_string(d.size()); });
      }
    }},
    {"managers with many catalogues and directories", [](Case& c) {
      // every language there is in one directory, and many directories for one language
      Scratch s;
      fs::create_directory(s.dir + "/all");
      std::set<tg::Language> langs;
      std::map<std::string, std::string> files;
      for (char a = 'a'; a <= 'z'; ++a) for (char b = 'a'; b <= 'z'; ++b) {
        std::string n{a, b};
        tg::Language l = tg::Language::from_name(n);
        if (!l) continue;
        langs.insert(l);
        write(s.dir + "/all/" + n + ".po", "msgid \"m\"\nmsgstr \"in " + n + "\"\n");
        files[n] = "in " + n;
      }
      tg::DictionaryManager m;
      m.add_directory(s.dir + "/all");
      c.check(langs.size() > 100 && m.get_languages() == langs, "languages", [&] { return std::to_string(m.get_languages().size()) + " of " + std::to_string(langs.size()); });
      for (int again = 0; again < 2; ++again)
        for (auto& f : files) {
          std::string a = m.get_dictionary(tg::Language::from_name(f.first)).translate("m");
          c.check(a == f.second, "manager-on-disk", [&] { return f.first + ": " + quote(a); });
        }
      tg::DictionaryManager many;
      for (int i = 0; i < 300; ++i) {
        std::string d = s.dir + "/" + std::to_string(i);
        fs::create_directory(d);
        write(d + "/de.po", "msgid \"m" + std::to_string(i) + "\"\nmsgstr \"x" + std::to_string(i) + "\"\n");
        many.add_directory(d);
        if (i % 10 && i > 20) continue;
        tg::Dictionary& g = many.get_dictionary(tg::Language::from_name("de"));
        for (int k = 0; k <= i; ++k) { std::string a = g.translate("m" + std::to_string(k)); c.check(a == "x" + std::to_string(k), "manager-on-disk", [&] { return "directory " + std::to_string(k) + " of " + std::to_string(i + 1) + ": " + quote(a); }); }
      }
    }},
  };
}
} // namespace pbt
