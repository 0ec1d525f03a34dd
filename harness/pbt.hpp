// Property-based testing engine used by all checks.
//
// A case is decoded from a tape of bytes: every choice a generator makes is a
// read from the tape. Random runs record a tape, libFuzzer mutates tapes,
// replay and shrinking edit tapes; reads past the end of a tape give 0, which
// every generator treats as its simplest choice.
#pragma once

#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string kind;   // short stable name of the violated clause
  std::string detail; // the case, written out
};

class Tape {
public:
  // replaying tape
  Tape(const uint8_t* data, size_t size) : m_buf(data, data + size), m_pos(0), m_random(false), m_state(0) {}
  // random tape
  explicit Tape(uint64_t seed) : m_buf(), m_pos(0), m_random(true), m_state(seed) {}

  uint8_t byte()
  {
    if (m_pos == m_buf.size()) {
      if (!m_random || m_buf.size() >= MAX) return 0;
      m_buf.push_back(static_cast<uint8_t>(next() >> 56));
    }
    return m_buf[m_pos++];
  }

  // uniform-ish integer in [lo, hi]
  uint64_t range(uint64_t lo, uint64_t hi)
  {
    uint64_t span = hi - lo;
    uint64_t v = 0;
    for (uint64_t s = span; s != 0; s >>= 8) v = (v << 8) | byte();
    if (span != UINT64_MAX) v %= span + 1;
    return lo + v;
  }
  // true with probability num/256; 0 on the tape is false
  bool chance(unsigned num) { return byte() >= 256u - num; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[range(0, v.size() - 1)]; }
  // geometric length, mean about `mean`, at most max
  size_t length(size_t max, unsigned mean)
  {
    size_t n = 0;
    unsigned p = 256u * mean / (mean + 1);
    while (n < max && byte() >= 256u - p) ++n;
    return n;
  }
  bool exhausted() const { return !m_random && m_pos >= m_buf.size(); }
  const std::vector<uint8_t>& bytes() const { return m_buf; }

private:
  static constexpr size_t MAX = 1 << 16;
  uint64_t next()
  { // splitmix64
    uint64_t z = (m_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  std::vector<uint8_t> m_buf;
  size_t m_pos;
  bool m_random;
  uint64_t m_state;
};

// What a property tells about the case it ran
struct Case {
  explicit Case(Tape& t_) : t(t_) {}
  Tape& t;
  std::ostringstream log;           // the case written out (samples, failure reports)
  bool nontrivial = false;
  uint64_t hash = 1469598103934665603ull;
  std::set<std::string> labels;
  uint64_t assertions = 0;

  void label(const std::string& s) { labels.insert(s); }
  // feed the decoded case, for counting distinct cases
  void feed(const std::string& s)
  {
    for (unsigned char c : s) { hash ^= c; hash *= 1099511628211ull; }
    hash ^= 0xff; hash *= 1099511628211ull;
  }
  [[noreturn]] void fail(const std::string& kind, const std::string& detail)
  {
    throw Failure{kind, detail + "\n--- case ---\n" + log.str()};
  }
  void check(bool ok, const std::string& kind, const std::string& detail = std::string())
  {
    ++assertions;
    if (!ok) fail(kind, detail);
  }
  template<class F> void check(bool ok, const std::string& kind, F detail)
  {
    ++assertions;
    if (!ok) fail(kind, detail());
  }
};

// Printable form of arbitrary bytes
std::string quote(const std::string& s);
std::string quote(const std::vector<std::string>& v);

// --- to be provided by each property file ------------------------------------------
extern const char* const property_id;
extern const char* const property_rule;   // how cases are made and which are non-trivial
void property(Case& c);                   // one generated case; throws Failure
// fixed examples, run before any generated case (regressions of repaired defects,
// exhaustive enumerations); throws Failure
struct Example { const char* name; std::function<void(Case&)> run; };
std::vector<Example> examples();
// a saved case is being run again
extern bool replaying;
// what the big sizes drawn for the current case come to
extern uint64_t heft;
// called at the top of every case to put the library's global state to its defaults
void reset_globals();

} // namespace pbt
