// C04: a recognised plural rule selects the form its formula says.
#include "model.hpp"

#include <climits>
#include <cstring>
#include <memory>

using namespace model;

namespace pbt {
const char* const property_id = "C04";
const char* const property_rule =
  "a Plural-Forms header (supported, supported with random white space, near-miss edit of a supported one, random formula, junk) and counts "
  "(small, near multiples of 10/100/1000, extreme, random, negative), judged by an independent evaluator of the header's C formula; "
  "examples enumerate every supported header with all counts 0..100000; non-trivial: the header was recognised and checked on its counts, "
  "or is a well-formed formula that differs from a supported one by an edit";

namespace {

// the rules the library documents as supported
const std::vector<std::string>& supported()
{
  static const std::vector<std::string> v = {
    "nplurals=1; plural=0;",
    "nplurals=2; plural=(n != 1);",
    "nplurals=2; plural=n != 1;",
    "nplurals=2; plural=(n > 1);",
    "nplurals=2; plural=n==1 || n%10==1 ? 0 : 1;",
    "nplurals=2; plural=(n % 10 == 1 && n % 100 != 11) ? 0 : 1;",
    "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2);",
    "nplurals=3; plural=n==1 ? 0 : n==2 ? 1 : 2;",
    "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2);",
    "nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
    "nplurals=3; plural=(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2;",
    "nplurals=3; plural=(n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2);",
    "nplurals=4; plural=(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3);",
    "nplurals=3; plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));",
    "nplurals=4; plural=(n % 1 == 0 && n == 1 ? 0 : n % 1 == 0 && n >= 2 && n <= 4 ? 1 : n % 1 != 0 ? 2: 3);",
    "nplurals=4; plural=(n == 1 && n % 1 == 0) ? 0 : (n >= 2 && n <= 4 && n % 1 == 0) ? 1: (n % 1 != 0 ) ? 2 : 3;",
    "nplurals=4; plural=(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : n%10==0 || (n%10>=5 && n%10<=9) || (n%100>=11 && n%100<=14)? 2 : 3);",
    "nplurals=4; plural=(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3;",
    "nplurals=4; plural=(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3;",
    "nplurals=4; plural=(n % 10 == 1 && (n % 100 > 19 || n % 100 < 11) ? 0 : (n % 10 >= 2 && n % 10 <=9) && (n % 100 > 19 || n % 100 < 11) ? 1 : n % 1 != 0 ? 2: 3);",
    "nplurals=4; plural=(n % 1 == 0 && n % 10 == 1 && n % 100 != 11 ? 0 : n % 1 == 0 && n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14) ? 1 : n % 1 == 0 && (n % 10 ==0 || (n % 10 >=5 && n % 10 <=9) || (n % 100 >=11 && n % 100 <=14 )) ? 2: 3);",
    "nplurals=4; plural=(n==1 ? 0 : (n%10>=2 && n%10<=4) && (n%100<12 || n%100>14) ? 1 : n!=1 && (n%10>=0 && n%10<=1) || (n%10>=5 && n%10<=9) || (n%100>=12 && n%100<=14) ? 2 : 3);",
    "nplurals=4; plural=(n == 1 && n % 1 == 0) ? 0 : (n == 2 && n % 1 == 0) ? 1: (n % 10 == 0 && n % 1 == 0 && n > 10) ? 2 : 3;",
    "nplurals=5; plural=(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4)",
    "nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
  };
  return v;
}

// --- evaluator of C expressions over n ---------------------------------------------------
struct Node {
  char op; // 'n', '#', '?', '|' (||), '&' (&&), '=' (==), '!' (!=), 'l' (<=), 'g' (>=), '<', '>', '%', '*', '/', '+', '-', '~' (unary !)
  long long value = 0;
  std::unique_ptr<Node> a, b, c;
};
using P = std::unique_ptr<Node>;

struct Bad {};

struct Parser {
  const std::string& s;
  size_t i = 0;
  int depth = 0;
  bool eat(const char* t) { size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
  static P mk(char op, P a, P b) { P p(new Node); p->op = op; p->a = std::move(a); p->b = std::move(b); return p; }
  P expr()
  {
    if (++depth > 200) throw Bad();
    P x = orr();
    if (eat("?")) {
      P p(new Node); p->op = '?';
      p->a = std::move(x);
      p->b = expr();
      if (!eat(":")) throw Bad();
      p->c = expr();
      x = std::move(p);
    }
    --depth;
    return x;
  }
  P orr() { P x = andd(); while (eat("||")) x = mk('|', std::move(x), andd()); return x; }
  P andd() { P x = eq(); while (eat("&&")) x = mk('&', std::move(x), eq()); return x; }
  P eq()
  {
    P x = rel();
    for (;;) {
      if (eat("==")) x = mk('=', std::move(x), rel());
      else if (eat("!=")) x = mk('!', std::move(x), rel());
      else return x;
    }
  }
  P rel()
  {
    P x = add();
    for (;;) {
      if (eat("<=")) x = mk('l', std::move(x), add());
      else if (eat(">=")) x = mk('g', std::move(x), add());
      else if (eat("<")) x = mk('<', std::move(x), add());
      else if (eat(">")) x = mk('>', std::move(x), add());
      else return x;
    }
  }
  P add()
  {
    P x = mul();
    for (;;) {
      if (eat("+")) x = mk('+', std::move(x), mul());
      else if (eat("-")) x = mk('-', std::move(x), mul());
      else return x;
    }
  }
  P mul()
  {
    P x = un();
    for (;;) {
      if (eat("%")) x = mk('%', std::move(x), un());
      else if (eat("*")) x = mk('*', std::move(x), un());
      else if (eat("/")) x = mk('/', std::move(x), un());
      else return x;
    }
  }
  P un()
  {
    if (++depth > 200) throw Bad();
    P r;
    if (i < s.size() && s[i] == '!' && s.compare(i, 2, "!=") != 0) { ++i; r = mk('~', un(), nullptr); }
    else if (eat("(")) { r = expr(); if (!eat(")")) throw Bad(); }
    else if (eat("n")) { r.reset(new Node); r->op = 'n'; }
    else {
      size_t b = i;
      long long v = 0;
      while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i - b < 9) v = v * 10 + (s[i++] - '0');
      if (i == b) throw Bad();
      r.reset(new Node); r->op = '#'; r->value = v;
    }
    --depth;
    return r;
  }
};

struct Zero {};
long long eval(const Node& x, long long n)
{
  switch (x.op) {
    case 'n': return n;
    case '#': return x.value;
    case '?': return eval(*x.a, n) ? eval(*x.b, n) : eval(*x.c, n);
    case '|': return eval(*x.a, n) || eval(*x.b, n);
    case '&': return eval(*x.a, n) && eval(*x.b, n);
    case '~': return !eval(*x.a, n);
    default: break;
  }
  long long a = eval(*x.a, n), b = eval(*x.b, n);
  switch (x.op) {
    case '=': return a == b;
    case '!': return a != b;
    case 'l': return a <= b;
    case 'g': return a >= b;
    case '<': return a < b;
    case '>': return a > b;
    case '+': return static_cast<long long>(static_cast<unsigned long long>(a) + static_cast<unsigned long long>(b));
    case '-': return static_cast<long long>(static_cast<unsigned long long>(a) - static_cast<unsigned long long>(b));
    case '*': return static_cast<long long>(static_cast<unsigned long long>(a) * static_cast<unsigned long long>(b));
    case '/': if (b == 0 || b == -1) throw Zero(); return a / b;
    case '%': if (b == 0 || b == -1) throw Zero(); return a % b;
  }
  throw Zero();
}

struct Formula { unsigned nplurals; P expr; };

// header without white space -> formula
bool parse_header(const std::string& h, Formula& f)
{
  Parser p{h};
  try {
    if (!p.eat("Plural-Forms:nplurals=")) return false;
    size_t b = p.i;
    unsigned v = 0;
    while (p.i < h.size() && h[p.i] >= '0' && h[p.i] <= '9' && p.i - b < 6) v = v * 10 + static_cast<unsigned>(h[p.i++] - '0');
    if (p.i == b || !p.eat(";plural=")) return false;
    f.nplurals = v;
    f.expr = p.expr();
    p.eat(";");
    return p.i == h.size();
  }
  catch (const Bad&) { return false; }
}

bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }

std::string strip(const std::string& s)
{
  std::string r;
  for (char ch : s) if (!space(ch)) r += ch;
  return r;
}

std::string spaced(Tape& t, const std::string& s)
{
  static const std::vector<std::string> sp = {" ", "  ", "\t", "\r", " \t ", "\v", "\f", "\n"};
  std::string r;
  unsigned density = static_cast<unsigned>(t.range(0, 120));
  for (char ch : s) {
    if (t.chance(density)) r += t.pick(sp);
    r += ch;
  }
  if (t.chance(60)) r += t.pick(sp);
  return r;
}

std::string near_miss(Tape& t, std::string s)
{
  static const std::vector<std::string> tok = {"0", "1", "2", "3", "9", "10", "11", "12", "19", "20", "100", "n", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "?", ":", "(", ")", "%", ";", "!", "+", "-", "*", "/"};
  size_t n = 1 + t.length(3, 1);
  for (size_t k = 0; k < n && !s.empty(); ++k) {
    size_t at = t.range(0, s.size() - 1);
    switch (t.range(0, 6)) {
      case 0: s.erase(at, 1); break;
      case 1: s.insert(at, t.pick(tok)); break;
      case 2: s.replace(at, 1, t.pick(tok)); break;
      case 3: { // another number of forms
        size_t p = s.find("nplurals=");
        if (p != std::string::npos && p + 9 < s.size()) s[p + 9] = static_cast<char>('0' + t.range(0, 9));
        break;
      }
      case 4: { size_t p = s.find_first_of("0123456789", at); if (p != std::string::npos) s[p] = static_cast<char>('0' + t.range(0, 9)); break; }
      case 5: { // glue the formula of another rule to this nplurals
        const std::string& o = t.pick(supported());
        size_t p = s.find("plural=("), q = o.find("plural=(");
        if (p == std::string::npos) p = s.find("plural=");
        if (q == std::string::npos) q = o.find(" plural=") + 1;
        if (p != std::string::npos) s = s.substr(0, p) + o.substr(q);
        break;
      }
      case 6: if (s.back() == ';') s.pop_back(); else s += ';'; break;
    }
  }
  return s;
}

std::string random_expr(Tape& t, int depth)
{
  if (depth <= 0) return t.chance(128) ? std::string("n") : t.chance(128) ? "n%" + std::to_string(t.chance(128) ? 10 : 100) : std::to_string(t.range(0, 20));
  switch (t.range(0, 4)) {
    case 0: return random_expr(t, depth - 1);
    case 1: { static const std::vector<std::string> op = {"==", "!=", "<", ">", "<=", ">=", "&&", "||"}; std::string a = random_expr(t, depth - 1); return a + t.pick(op) + random_expr(t, depth - 1); }
    case 2: return "(" + random_expr(t, depth - 1) + ")";
    default: { std::string a = random_expr(t, depth - 1), b = std::to_string(t.range(0, 5)); return a + "?" + b + ":" + random_expr(t, depth - 1); }
  }
}

int gen_count(Tape& t)
{
  switch (t.range(0, 6)) {
    case 0: return static_cast<int>(t.range(0, 30));
    case 1: return static_cast<int>(t.range(0, 255));
    case 2: return static_cast<int>(t.range(0, 21000) * 100 + t.range(0, 21));
    case 3: return static_cast<int>(t.range(0, INT_MAX));
    case 4: return static_cast<int>(INT_MAX - t.range(0, 255));
    case 5: return static_cast<int>(-static_cast<long long>(t.range(0, 300)));
    default: return static_cast<int>(static_cast<long long>(INT_MIN) + static_cast<long long>(t.range(0, INT_MAX)));
  }
}

void check_counts(Case& c, const std::string& header, const tg::PluralForms& f, const Formula* g, int n)
{
  unsigned v = f.get_plural(n);
  c.check(v < f.get_nplural(), "form-out-of-range", [&] { return quote(header) + " gives form " + std::to_string(v) + " of " + std::to_string(f.get_nplural()) + " for " + std::to_string(n); });
  if (g && n >= 0) {
    long long e;
    try { e = eval(*g->expr, n); } catch (const Zero&) { return; }
    c.check(e == static_cast<long long>(v), "form-not-the-formula", [&] { return quote(header) + " gives form " + std::to_string(v) + " for " + std::to_string(n) + ", its formula " + std::to_string(e); });
  }
}

// returns whether the header was recognised
bool judge(Case& c, const std::string& header, bool must, const std::vector<int>& counts)
{
  tg::PluralForms f = tg::PluralForms::from_string(header);
  Formula g;
  bool ok = parse_header(strip(header), g);
  if (must) c.check(static_cast<bool>(f), "supported-header-not-recognised", [&] { return quote(header); });
  if (!f) {
    c.check(f.get_plural(5) == 0, "unrecognised-header-has-a-rule", [&] { return quote(header); });
    return false;
  }
  c.check(ok, "malformed-header-recognised", [&] { return quote(header); });
  c.check(f.get_nplural() == g.nplurals, "wrong-number-of-forms", [&] { return quote(header) + " has " + std::to_string(f.get_nplural()); });
  for (int n : counts) check_counts(c, header, f, &g, n);
  c.check(f == tg::PluralForms::from_string(header) && !(f != tg::PluralForms::from_string(header)) && f != tg::PluralForms(), "comparison", [&] { return quote(header); });
  return true;
}

// the same through a PO file
void end_to_end(Case& c, const std::string& header, const std::vector<int>& counts)
{
  if (header.find('\n') != std::string::npos || header.compare(0, 13, "Plural-Forms:") != 0) return;
  Formula g;
  if (!parse_header(strip(header), g) || g.nplurals > 10) return;
  std::string file = "msgid \"\"\nmsgstr \"\"\n\"Content-Type: text/plain; charset=UTF-8\\n\"\n\"" + header + "\\n\"\n\nmsgid \"one\"\nmsgid_plural \"many\"\n";
  for (unsigned i = 0; i < g.nplurals; ++i) file += "msgstr[" + std::to_string(i) + "] \"form" + std::to_string(i) + "\"\n";
  tg::Dictionary d;
  load("p.po", file, d);
  for (int n : counts) {
    if (n < 0) continue;
    long long e;
    try { e = eval(*g.expr, n); } catch (const Zero&) { continue; }
    std::string a = d.translate_plural("one", "many", n);
    c.check(a == "form" + std::to_string(e), "lookup-not-the-formula", [&] { return quote(header) + " for " + std::to_string(n) + " looks up " + quote(a) + ", formula " + std::to_string(e); });
  }
}

} // namespace

void property(Case& c)
{
  Tape& t = c.t;
  std::string header;
  bool must = false;
  size_t mode = t.range(0, 5);
  std::string base = t.pick(supported());
  switch (mode) {
    case 0: header = "Plural-Forms: " + base; must = true; c.label("supported"); break;
    case 1: case 2: header = "Plural-Forms:" + spaced(t, strip(base)); must = true; c.label("spaced"); break;
    case 3: header = "Plural-Forms: " + near_miss(t, base); c.label("near-miss"); break;
    case 4: {
      std::string e = random_expr(t, static_cast<int>(t.range(1, 4)));
      header = "Plural-Forms: nplurals=" + std::to_string(t.range(0, 7)) + "; plural=" + (t.chance(100) ? "(" + e + ")" : e) + (t.chance(200) ? ";" : "");
      c.label("random");
      break;
    }
    default: {
      static const std::vector<std::string> pre = {"", "Plural-Forms", "plural-forms: ", "Plural-Forms: ", "X-Plural-Forms: ", "Plural-Forms: nplurals=", "nplurals=2; plural=(n != 1);"};
      header = t.pick(pre);
      size_t n = t.range(0, 30);
      for (size_t i = 0; i < n && !t.exhausted(); ++i) header += static_cast<char>(t.byte());
      if (t.chance(64)) header += base;
      c.label("junk");
    }
  }
  std::vector<int> counts;
  size_t n = 4 + t.length(20, 8);
  for (size_t i = 0; i < n; ++i) counts.push_back(gen_count(t));
  c.log << quote(header) << " counts";
  for (int k : counts) c.log << " " << k;
  c.log << "\n";
  c.feed(header);
  for (int k : counts) c.feed(std::to_string(k));
  bool rec = judge(c, header, must, counts);
  if (rec) { c.label("recognised"); end_to_end(c, header, counts); }
  Formula g;
  c.nontrivial = rec || (mode == 3 && parse_header(strip(header), g));
}

std::vector<Example> examples()
{
  return {
    {"every supported header, all counts up to 100000 and near the limits", [](Case& c) {
      for (auto& s : supported()) {
        std::string h = "Plural-Forms: " + s;
        Formula g;
        c.check(parse_header(strip(h), g), "harness", [&] { return "cannot parse " + h; });
        std::vector<int> few;
        for (int i = 0; i <= 220; ++i) few.push_back(i);
        judge(c, h, true, few);
        judge(c, strip(h), true, few);
        end_to_end(c, h, few);
        tg::PluralForms f = tg::PluralForms::from_string(h);
        for (int i = 0; i <= 100000; ++i) check_counts(c, h, f, &g, i);
        for (int i = 0; i < 2000; ++i) { check_counts(c, h, f, &g, INT_MAX - i); check_counts(c, h, f, &g, INT_MIN + i); check_counts(c, h, f, &g, -i); }
        std::set<unsigned> used;
        for (int i = 0; i <= 1000; ++i) used.insert(f.get_plural(i));
      }
    }},
    {"every supported formula with every other number of forms is not given that number", [](Case& c) {
      for (auto& s : supported())
        for (unsigned k = 0; k <= 12; ++k) {
          std::string h = "Plural-Forms: nplurals=" + std::to_string(k) + s.substr(s.find(';'));
          judge(c, h, false, {0, 1, 2, 3, 4, 5, 11, 20, 100, 101, 102});
        }
    }},
    {"all pairs of rules compare", [](Case& c) {
      for (auto& a : supported()) for (auto& b : supported()) {
        tg::PluralForms f = tg::PluralForms::from_string("Plural-Forms: " + a), g = tg::PluralForms::from_string("Plural-Forms: " + b);
        bool same = f.get_nplural() == g.get_nplural();
        for (int n = 0; same && n < 500; ++n) same = f.get_plural(n) == g.get_plural(n);
        // equal functions may well be called equal or not, but for the same header they are
        if (!same) c.check(f != g && !(f == g), "comparison", [&] { return a + " / " + b; });
        if (&a == &b) c.check(f == g && !(f != g), "comparison", [&] { return a; });
      }
    }},
    {"no rule", [](Case& c) {
      for (const char* h : {"", "Plural-Forms:", "Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;", "nplurals=2; plural=(n != 1);", "plural-forms: nplurals=2; plural=(n != 1);"})
        c.check(!judge(c, h, false, {0, 1, 2}), "recognised", [&] { return quote(h); });
      tg::PluralForms f;
      c.check(!f && f.get_nplural() == 0 && f.get_plural(7) == 0, "default");
    }},
  };
}
} // namespace pbt
