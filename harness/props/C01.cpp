// C01: a well-formed PO file loads exactly, whatever its layout.
#include "model.hpp"

using namespace model;

namespace pbt {
const char* const property_id = "C01";
const char* const property_rule =
  "a random catalogue (plain, plural, context messages; arbitrary bytes, escapes, long texts) written with a random layout "
  "(comments, obsolete entries, separators, spacing, splitting, escapes or raw characters, CRLF, BOM, no final newline) and loaded; "
  "non-trivial: at least two translated messages and a non-canonical layout";

static std::vector<int> counts() { return {0, 1, 2, 3, 5, 11, 21, 100, 101, 111}; }

static void verify(Case& c, const Catalogue& cat, const std::string& file, const char* which)
{
  tg::Dictionary d;
  load("test.po", file, d);
  Dump e = expected(cat), a = dump(d);
  c.check(e == a, std::string("content-") + which, [&] { return diff(e, a) + "\nfile: " + quote(file); });
  unsigned (*rule)(int) = nullptr;
  if (cat.header && cat.rule >= 0) {
    const Rule& r = rules()[static_cast<size_t>(cat.rule)];
    rule = r.f;
    c.check(static_cast<bool>(d.get_plural_forms()) && d.get_plural_forms().get_nplural() == r.n, "plural-rule", [&] { return "not taken from " + quote(file); });
  }
  else c.check(!d.get_plural_forms(), "plural-rule-invented", [&] { return quote(file); });
  View v{&e, rule, nullptr};
  std::set<Key> keys;
  for (auto& m : cat.messages) {
    keys.insert(Key(m.ctxt, m.id));
    keys.insert(Key(std::nullopt, m.id));
    keys.insert(Key(m.ctxt.value_or("") + "x", m.id));
    if (m.ctxt) keys.insert(Key(std::nullopt, *m.ctxt));
  }
  std::string w = compare_lookups(d, v, keys, counts());
  c.check(w.empty(), std::string("lookup-") + which, [&] { return w + "\nfile: " + quote(file); });
}

void property(Case& c)
{
  GenOptions o;
  Catalogue cat = gen_catalogue(c.t, o);
  static const std::vector<std::string> cs = {"UTF-8", "UTF-8", "UTF-8", "utf-8", "Utf-8", "", "CHARSET"};
  cat.charset = c.t.pick(cs);
  Layout l = Layout::random(c.t);
  std::string file = serialise(cat, l);
  c.log << show(cat) << "file: " << quote(file) << "\n";
  c.feed(file);
  unsigned translated = 0;
  for (auto& m : cat.messages) {
    if (m.translated()) ++translated; else c.label("untranslated");
    if (m.plural) c.label("plural");
    if (m.ctxt) c.label("context");
  }
  if (l.crlf) c.label("crlf");
  if (l.bom) c.label("bom");
  if (!l.final_newline) c.label("no-final-newline");
  if (!cat.header) c.label("no-header");
  c.nontrivial = translated >= 2 && l.wild;
  verify(c, cat, file, "layout");
  if (l.wild) verify(c, cat, serialise(cat), "canonical");
}

static void expect(Case& c, const std::string& file, const Dump& e)
{
  tg::Dictionary d;
  load("example.po", file, d);
  Dump a = dump(d);
  c.check(a == e, "content", [&] { return diff(e, a) + "\nfile: " + quote(file); });
}

std::vector<Example> examples()
{
  auto key = [](const char* id) { return Key(std::nullopt, id); };
  return {
    {"last line without newline", [=](Case& c) {
      expect(c, "msgid \"a\"\nmsgstr \"b\"", {{key("a"), {"b"}}});
      expect(c, "msgid \"a\"\nmsgstr \"\"\n\"b\"", {{key("a"), {"b"}}});
      expect(c, "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"b\"\nmsgstr[1] \"c\"", {{key("a"), {"b", "c"}}});
      expect(c, "msgid \"a\"\nmsgstr \"b\"\n\n# end", {{key("a"), {"b"}}});
      expect(c, "msgid \"a\"\nmsgstr \"b\"\n\n#~ msgid \"c\"", {{key("a"), {"b"}}});
    }},
    {"context entry with empty msgid is no header", [=](Case& c) {
      expect(c, "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgctxt \"c\"\nmsgid \"\"\nmsgstr \"x\"\n\nmsgid \"a\"\nmsgstr \"\xc3\xa4\"\n",
             {{Key("c", ""), {"x"}}, {key("a"), {"\xc3\xa4"}}});
    }},
    {"escapes", [=](Case& c) {
      expect(c, "msgid \"\\\"\\\\\\n\\t\"\nmsgstr \"\\a\\b\\v\\r\\q\\\\n\"\n", {{key("\"\\\n\t"), {"\a\b\v\r\\q\\n"}}});
    }},
    {"empty file", [=](Case& c) {
      expect(c, "", {}); expect(c, "\n", {}); expect(c, "\xef\xbb\xbf", {}); expect(c, "#", {}); expect(c, "\r\n", {});
    }},
    {"many lines and long texts", [=](Case& c) {
      std::string f, big(300000, 'y');
      Dump e;
      for (unsigned i = 0; i < 3000; ++i) {
        f += "#: x\nmsgid \"" + tagged("k", i) + "\"\nmsgstr \"" + tagged("v", i) + "\"\n\n";
        e[Key(std::nullopt, tagged("k", i))] = {tagged("v", i)};
      }
      f += "msgid \"big\"\nmsgstr \"" + big + "\"\n\"" + big + "\"\n";
      e[key("big")] = {big + big};
      expect(c, f, e);
    }},
    {"every length of every part", [=](Case& c) {
      // one entry of each kind for every length, in one file
      auto entry = [](unsigned n, unsigned kind, std::string& f, Dump& e) {
        std::string body;
        for (unsigned i = 0; i < n; ++i) body += static_cast<char>('a' + (i * 7 + n) % 26);
        std::string k = "k" + std::to_string(kind) + "." + std::to_string(n), id = k, str = "v" + std::to_string(n), ctxt, plural = "s";
        bool has_ctxt = false, is_plural = false;
        switch (kind) {
          case 0: id += body; break;
          case 1: str += body; break;
          case 2: ctxt = k + body; has_ctxt = true; break;
          case 3: plural = body; is_plural = true; break;
          default: str = body; is_plural = n > 0; has_ctxt = true; ctxt = "c";
        }
        if (str.empty()) str = "v";
        if (has_ctxt) f += "msgctxt \"" + ctxt + "\"\n";
        f += "msgid \"" + id + "\"\n";
        Key key(has_ctxt ? std::optional<std::string>(ctxt) : std::nullopt, id);
        if (is_plural) {
          f += "msgid_plural \"" + plural + "\"\nmsgstr[0] \"" + str + "\"\nmsgstr[1] \"" + str + "s\"\n\n";
          e[key] = {str, str + "s"};
        }
        else { f += "msgstr \"" + str + "\"\n\n"; e[key] = {str}; }
      };
      for (unsigned kind = 0; kind < 5; ++kind) {
        std::string f;
        Dump e;
        for (unsigned n = 0; n < 700; ++n) entry(n, kind, f, e);
        for (unsigned p = 10; p < 17; ++p) for (int d = -3; d < 4; ++d) entry(static_cast<unsigned>((1 << p) + d), kind, f, e);
        for (unsigned p = 1000; p < 100000; p *= 10) for (int d = -2; d < 3; ++d) entry(static_cast<unsigned>(static_cast<int>(p) + d), kind, f, e);
        expect(c, f, e);
      }
    }},
    {"every number of everything", [=](Case& c) {
      auto times = [](size_t n, const std::string& s) { std::string r; for (size_t i = 0; i < n; ++i) r += s; return r; };
      const std::string tail = "\n\nmsgctxt \"c\"\nmsgid \"z\"\nmsgstr \"Z\"\n";
      std::string all;
      Dump want;
      for (unsigned n = 0; n < 420; ++n) {
        std::string v = "v" + std::to_string(n);
        std::vector<std::string> shapes = {
          times(n, "# c\n") + "msgid \"@\"\nmsgstr \"V\"\n", times(n, "\n") + "msgid \"@\"\nmsgstr \"V\"\n", times(n, "#. c\n\n") + "msgid \"@\"\nmsgstr \"V\"\n", times(n, "#~ msgid \"@\"\n#~ msgstr \"old\"\n\n") + "msgid \"@\"\nmsgstr \"V\"\n",
          "msgid \"\"\n" + times(n, "\"\"\n") + "\"@\"\nmsgstr \"V\"\n", "msgid \"@\"\n" + times(n, "\"\"\n") + "msgstr \"\"\n" + times(n, "\"\"\n") + "\"V\"\n",
          "msgid \"@\"\nmsgid_plural \"\"\n" + times(n, "\"p\"\n") + "msgstr[0] \"V\"\n" + times(n, "\"\"\n"), "msgctxt \"@\"\n" + times(n, "\"\"\n") + "msgid \"@\"\nmsgstr \"V\"\n",
          "msgid" + times(n, " ") + " \"@\"\nmsgstr" + times(n, "\t") + " \"V\"\n", "msgid \"@\"" + times(n, " ") + "\nmsgstr \"V\"" + times(n, "\t") + "\n", "msgid \"@\"\nmsgstr \"\"\n" + times(n, " ") + "\"V\"\n",
          times(n, " ") + "\n" + times(n, "\t") + "\nmsgid \"@\"\nmsgstr \"V\"\n", "#" + times(n, ":") + "\nmsgid \"@\"\nmsgstr \"V\"\n"};
        for (size_t k = 0; k < shapes.size(); ++k) {
          std::string id = "k" + std::to_string(k) + "." + std::to_string(n), s;
          for (char ch : shapes[k]) if (ch == '@') s += id; else if (ch == 'V') s += v; else s += ch;
          all += s + "\n";
          want[Key(k == 7 ? std::optional<std::string>(id) : std::nullopt, id)] = {v};
          if (n < 40 || n % 16 < 2) expect(c, s + tail, {{Key(k == 7 ? std::optional<std::string>(id) : std::nullopt, id), {v}}, {Key("c", "z"), {"Z"}}});
        }
        // split into n pieces
        std::string f = "msgid \"\"\n", t, u;
        for (unsigned i = 0; i < n; ++i) { char ch = static_cast<char>('a' + i % 26); t += ch; f += std::string("\"") + ch + "\"\n"; }
        f += "\"k\"\nmsgstr \"\"\n";
        for (unsigned i = 0; i < n; ++i) { std::string p = i % 5 ? std::string(1, static_cast<char>('a' + i % 26)) : "\n"; u += p; f += p == "\n" ? "\"\\n\"\n" : "\"" + p + "\"\n"; }
        f += "\"v\"\n";
        expect(c, f + tail, {{Key(std::nullopt, t + "k"), {u + "v"}}, {Key("c", "z"), {"Z"}}});
        // n messages, and n header fields before those that count
        f = "msgid \"\"\nmsgstr \"\"\n" + times(n, "\"X-Field: value\\n\"\n") + "\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\"Content-Type: text/plain; charset=ISO-8859-1\\n\"\n\n";
        Dump e;
        for (unsigned i = 0; i < n; ++i) { f += "msgid \"m" + std::to_string(i) + "\"\nmsgstr \"\xe4" + std::to_string(i) + "\"\n\n"; e[Key(std::nullopt, "m" + std::to_string(i))] = {"\xc3\xa4" + std::to_string(i)}; }
        f += "msgid \"last\"\nmsgstr \"\xe4\"";
        e[key("last")] = {"\xc3\xa4"};
        if (n % 3 == 0 || n < 70) expect(c, f, e);
      }
      expect(c, all, want);
    }},
    {"every byte in every place", [=](Case& c) {
      std::string f;
      Dump e;
      for (unsigned b = 0; b < 256; ++b) {
        if (b == '\n') continue;
        std::string raw(1, static_cast<char>(b)), text = raw;
        if (b == '"' || b == '\\') raw = std::string("\\") + text;
        std::string n = std::to_string(b);
        const std::string shapes[][2] = {{raw, text}, {raw + "b", text + "b"}, {"b" + raw, "b" + text}, {"b" + raw + "b", "b" + text + "b"}, {raw + raw, text + text}, {raw + "\\n", text + "\n"}, {"\\n" + raw, "\n" + text}, {"\\\\" + raw, "\\" + text}, {raw + "\\\\", text + "\\"}, {"\\\"" + raw, "\"" + text}, {raw + "\\\"", text + "\""}, {raw + "\\q", text + "\\q"}, {"\\0" + raw, "\\0" + text}};
        for (size_t k = 0; k < sizeof shapes / sizeof *shapes; ++k) {
          auto& s = shapes[k];
          f += "msgid \"m" + n + "." + std::to_string(k) + "\"\nmsgstr \"" + s[0] + "\"\n\n";
          e[Key(std::nullopt, "m" + n + "." + std::to_string(k))] = {s[1]};
          f += "msgctxt \"c" + std::to_string(k) + s[0] + "\"\nmsgid \"i" + s[0] + "\"\nmsgid_plural \"" + s[0] + "\"\nmsgstr[0] \"" + s[0] + "\"\nmsgstr[1] \"x\"\n\"" + s[0] + "\"\n\n";
          e[Key("c" + std::to_string(k) + s[1], "i" + s[1])] = {s[1], "x" + s[1]};
        }
        // behind a backslash: what it stands for
        static const std::map<char, std::string> escapes = {{'a', "\a"}, {'b', "\b"}, {'v', "\v"}, {'n', "\n"}, {'t', "\t"}, {'r', "\r"}, {'"', "\""}, {'\\', "\\"}};
        auto it = escapes.find(static_cast<char>(b));
        std::string got = it == escapes.end() ? std::string("\\") + static_cast<char>(b) : it->second;
        for (unsigned k = 0; k < 4; ++k) {
          std::string in = std::string(k & 1 ? "x" : "") + "\\" + static_cast<char>(b) + (k & 2 ? "y" : ""), out = (k & 1 ? "x" : "") + got + (k & 2 ? "y" : "");
          f += "msgid \"e" + n + "." + std::to_string(k) + in + "\"\nmsgstr \"" + in + "\"\n\n";
          e[Key(std::nullopt, "e" + n + "." + std::to_string(k) + out)] = {out};
        }
      }
      expect(c, f, e);
      std::string g;
      for (char ch : f) if (ch == '\n') g += "\r\n"; else g += ch;
      expect(c, g, e);
    }},
    {"every number of plural forms", [=](Case& c) {
      // every set of indices in every cyclic order
      std::string f;
      Dump e;
      for (unsigned set = 1; set < 1024; ++set) {
        std::vector<unsigned> idx;
        for (unsigned i = 0; i < 10; ++i) if (set & (1u << i)) idx.push_back(i);
        for (size_t r = 0; r < idx.size(); r += 1 + idx.size() / 3) {
          std::string id = "m" + std::to_string(set) + "." + std::to_string(r);
          f += "msgid \"" + id + "\"\nmsgid_plural \"s\"\n";
          std::vector<std::string> v(idx.back() + 1);
          for (size_t k = 0; k < idx.size(); ++k) { unsigned i = idx[(k + r) % idx.size()]; v[i] = "f" + std::to_string(i); f += "msgstr[" + std::to_string(i) + "] \"" + v[i] + "\"\n"; }
          f += "\n";
          e[Key(std::nullopt, id)] = v;
        }
      }
      expect(c, f, e);
    }},
  };
}
} // namespace pbt
