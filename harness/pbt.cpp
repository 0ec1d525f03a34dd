// Drivers: examples, random run, libFuzzer run, replay, shrink.
#include "pbt.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));

namespace pbt {

bool replaying = false;
uint64_t heft = 0;

std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
    else r += static_cast<char>(ch);
  }
  return r + "\"";
}

std::string quote(const std::vector<std::string>& v)
{
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ", "; r += quote(v[i]); }
  return r + "]";
}

namespace {

struct Stats {
  uint64_t evaluations = 0, nontrivial = 0, assertions = 0, examples = 0, bytes = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
} stats;

std::string out_path, fail_path;
std::string phase = "generated"; // or "example NAME"
Tape* current_tape = nullptr;
volatile long current_case = -1;
int cpu_limit = 20;

std::string json(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += static_cast<char>(ch);
  }
  return r + "\"";
}

void write_stats()
{
  if (out_path.empty()) return;
  std::ofstream o(out_path + ".tmp");
  o << "{\"evaluations\": " << stats.evaluations << ", \"nontrivial\": " << stats.nontrivial
    << ", \"assertions\": " << stats.assertions << ", \"examples\": " << stats.examples
    << ", \"tape_bytes\": " << stats.bytes << ",\n \"labels\": {";
  bool first = true;
  for (auto& l : stats.labels) { o << (first ? "" : ", ") << json(l.first) << ": " << l.second; first = false; }
  o << "},\n \"samples\": [";
  first = true;
  for (auto& s : stats.samples) { o << (first ? "" : ",\n  ") << json(s); first = false; }
  o << "],\n \"rule\": " << json(property_rule) << "}\n";
  o.close();
  std::ofstream h(out_path + ".hashes", std::ios::binary);
  for (uint64_t x : stats.distinct) h.write(reinterpret_cast<const char*>(&x), sizeof x);
  h.close();
  rename((out_path + ".tmp").c_str(), out_path.c_str());
}

// async-signal/death safe enough: plain write() of what is already in memory
void save_failure(const char* kind, const std::string* detail)
{
  if (fail_path.empty()) return;
  int fd = open(fail_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  char head[64];
  snprintf(head, sizeof head, "case %ld\n", current_case);
  ssize_t ignore = write(fd, head, strlen(head));
  std::string p = "phase " + phase + "\nkind " + kind + "\n";
  ignore = write(fd, p.data(), p.size());
  if (detail) ignore = write(fd, detail->data(), detail->size());
  (void)ignore;
  close(fd);
  if (current_tape) {
    fd = open((fail_path + ".tape").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      ignore = write(fd, current_tape->bytes().data(), current_tape->bytes().size());
      close(fd);
    }
  }
}

bool failure_saved = false;

void on_death()
{
  if (!failure_saved) { failure_saved = true; save_failure("crash", nullptr); }
}

void on_timer(int)
{
  failure_saved = true;
  save_failure("hang", nullptr);
  static const char msg[] = "pbt: case exceeded its CPU time limit\n";
  ssize_t ignore = write(2, msg, sizeof msg - 1); (void)ignore;
  _exit(3);
}

void arm(int seconds)
{
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// Runs one case; returns true if it held
bool run_one(Tape& tape, const std::function<void(Case&)>& body, bool count, Failure* f)
{
  Case c(tape);
  reset_globals();
  current_tape = &tape;
  bool ok = true;
  try {
    body(c);
  }
  catch (const Failure& e) { *f = e; ok = false; }
  catch (const std::exception& e) { *f = Failure{"unexpected-exception", std::string(e.what()) + "\n--- case ---\n" + c.log.str()}; ok = false; }
  catch (...) { *f = Failure{"unexpected-exception", "not a std::exception\n--- case ---\n" + c.log.str()}; ok = false; }
  reset_globals();
  if (count) {
    ++stats.evaluations;
    stats.assertions += c.assertions;
    stats.bytes += tape.bytes().size();
    for (auto& l : c.labels) ++stats.labels[l];
    if (c.nontrivial) {
      ++stats.nontrivial;
      bool fresh = stats.distinct.insert(c.hash).second;
      std::string s = c.log.str();
      if (fresh && !s.empty() && stats.samples.size() < 4 && s.size() < 2000 && (stats.nontrivial % 7 == 1))
        stats.samples.push_back(s);
    }
  }
  return ok;
}

std::vector<uint8_t> read_file(const char* path)
{
  std::ifstream in(path, std::ios::binary);
  return std::vector<uint8_t>((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

void write_file(const std::string& path, const std::vector<uint8_t>& v)
{
  std::ofstream o(path, std::ios::binary);
  o.write(reinterpret_cast<const char*>(v.data()), static_cast<std::streamsize>(v.size()));
}

int run_examples()
{
  long i = 0;
  for (auto& e : examples()) {
    phase = std::string("example ") + e.name;
    current_case = i++;
    Tape t(nullptr, 0);
    Failure f;
    arm(10 * cpu_limit);
    Stats saved;
    Case c(t);
    bool ok = run_one(t, e.run, false, &f);
    arm(0);
    ++stats.examples;
    if (!ok) {
      failure_saved = true;
      std::string d = f.detail + "\n";
      save_failure(f.kind.c_str(), &d);
      std::cerr << "FAIL " << e.name << ": " << f.kind << ": " << f.detail << std::endl;
      return 1;
    }
  }
  return 0;
}

uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

int run_random(uint64_t seed, uint64_t shard, long cases, const std::string& corpus, double budget)
{
  phase = "generated";
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (long i = 0; i < cases; ++i) {
    if (budget > 0 && (i & 15) == 0) {
      struct timespec t1;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (static_cast<double>(t1.tv_sec - t0.tv_sec) > budget) break;
    }
    current_case = i;
    Tape t(mix(mix(seed, shard + 1), static_cast<uint64_t>(i)));
    Failure f;
    arm(cpu_limit);
    bool ok = run_one(t, property, true, &f);
    arm(0);
    if (!ok) {
      failure_saved = true;
      std::string d = f.detail + "\n";
      save_failure(f.kind.c_str(), &d);
      std::cerr << "FAIL case " << i << ": " << f.kind << ": " << f.detail << std::endl;
      write_stats();
      return 1;
    }
    if (!corpus.empty() && i < 150)
      write_file(corpus + "/s" + std::to_string(shard) + "_" + std::to_string(i), t.bytes());
  }
  write_stats();
  return 0;
}

int fuzz_one(const uint8_t* data, size_t size)
{
  Tape t(data, size);
  Failure f;
  ++current_case;
  arm(cpu_limit);
  heft = 0;
  bool ok = run_one(t, property, true, &f);
  arm(0);
  if (!ok) {
    failure_saved = true;
    std::string d = f.detail + "\n";
    save_failure(f.kind.c_str(), &d);
    std::cerr << "FAIL fuzz: " << f.kind << ": " << f.detail << std::endl;
    write_stats();
    _exit(1);
  }
  return heft > 600 ? -1 : 0; // run big cases, but don't breed them
}

int replay(const char* path, bool verbose)
{
  std::vector<uint8_t> b = read_file(path);
  Tape t(b.data(), b.size());
  Failure f;
  current_case = 0;
  arm(cpu_limit);
  bool ok = run_one(t, property, false, &f);
  arm(0);
  if (!ok) {
    failure_saved = true;
    std::string d = f.detail + "\n";
    save_failure(f.kind.c_str(), &d);
    if (verbose) std::cout << "FAIL " << f.kind << ": " << f.detail << std::endl;
    return 1;
  }
  if (verbose) std::cout << "OK" << std::endl;
  return 0;
}

// Evaluates a tape in a child; returns the failure kind or "" if it held
std::string probe(const std::vector<uint8_t>& b)
{
  int p[2];
  if (pipe(p) != 0) return "";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    fail_path.clear();
    cpu_limit = 5;
    Tape t(b.data(), b.size());
    Failure f;
    signal(SIGPROF, SIG_DFL);
    arm(cpu_limit);
    bool ok = run_one(t, property, false, &f);
    arm(0);
    if (!ok) { ssize_t ignore = write(p[1], f.kind.data(), f.kind.size()); (void)ignore; }
    _exit(ok ? 0 : 1);
  }
  close(p[1]);
  std::string kind;
  char buf[256];
  ssize_t n;
  while ((n = read(p[0], buf, sizeof buf)) > 0) kind.append(buf, static_cast<size_t>(n));
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (!kind.empty()) return kind;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) return "hang";
  return "crash";
}

int shrink(const char* in, const char* out, int seconds)
{
  std::vector<uint8_t> best = read_file(in);
  std::string kind = probe(best);
  if (kind.empty()) { write_file(out, best); return 2; }
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  auto late = [&] { struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1); return t1.tv_sec - t0.tv_sec > seconds; };
  auto attempt = [&](const std::vector<uint8_t>& cand) {
    if (late()) return false;
    if (probe(cand) == kind) { best = cand; return true; }
    return false;
  };
  bool progress = true;
  while (progress && !late()) {
    progress = false;
    // drop the tail
    for (size_t cut = best.size() / 2; cut > 0; cut /= 2)
      while (best.size() > cut && !late()) {
        std::vector<uint8_t> c(best.begin(), best.end() - static_cast<long>(cut));
        if (attempt(c)) progress = true; else break;
      }
    // delete chunks
    for (size_t len = std::max<size_t>(1, best.size() / 4); len > 0 && !late(); len /= 2)
      for (size_t i = 0; i + len <= best.size() && !late();) {
        std::vector<uint8_t> c = best;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
        if (attempt(c)) progress = true; else i += len;
      }
    // zero chunks, then lower bytes
    for (size_t len = 8; len > 0 && !late(); len /= 2)
      for (size_t i = 0; i + len <= best.size() && !late(); i += len) {
        std::vector<uint8_t> c = best;
        bool any = false;
        for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; }
        if (any && attempt(c)) progress = true;
      }
    for (size_t i = 0; i < best.size() && !late(); ++i) {
      uint8_t lo = 0, hi = best[i];
      while (lo < hi && !late()) {
        std::vector<uint8_t> c = best;
        uint8_t mid = static_cast<uint8_t>((lo + hi) / 2);
        c[i] = mid;
        if (attempt(c)) { hi = mid; progress = true; } else lo = static_cast<uint8_t>(mid + 1);
      }
    }
  }
  write_file(out, best);
  return 0;
}

const char* opt(int argc, char** argv, const char* name, const char* def)
{
  for (int i = 2; i + 1 < argc; ++i)
    if (strcmp(argv[i], name) == 0) return argv[i + 1];
  return def;
}

} // namespace
} // namespace pbt

int main(int argc, char** argv)
{
  using namespace pbt;
  if (argc < 2) return 2;
  std::string mode = argv[1];
  signal(SIGPROF, on_timer);
  replaying = mode == "replay" || mode == "shrink";
  __sanitizer_set_death_callback(on_death);
  if (mode == "examples" || mode == "random" || mode == "replay") {
    out_path = opt(argc, argv, "--out", "");
    fail_path = opt(argc, argv, "--fail", "");
    cpu_limit = atoi(opt(argc, argv, "--cpu-limit", "20"));
  }
  if (mode == "examples") {
    int rc = run_examples();
    write_stats();
    return rc;
  }
  if (mode == "random") {
    return run_random(strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10),
                      strtoull(opt(argc, argv, "--shard", "0"), nullptr, 10),
                      atol(opt(argc, argv, "--cases", "1000")), opt(argc, argv, "--corpus", ""),
                      atof(opt(argc, argv, "--budget", "0")));
  }
  if (mode == "replay") {
    return replay(argv[2], true);
  }
  if (mode == "shrink") {
    return shrink(argv[2], argv[3], argc > 4 ? atoi(argv[4]) : 60);
  }
  if (mode == "fuzz") { // fuzz OUT FAIL libfuzzer-args...
    out_path = argv[2];
    fail_path = argv[3];
    std::vector<char*> args;
    args.push_back(argv[0]);
    for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
    args.push_back(nullptr);
    int n = static_cast<int>(args.size()) - 1;
    char** a = args.data();
    atexit([] { write_stats(); });
    return LLVMFuzzerRunDriver(&n, &a, fuzz_one);
  }
  return 2;
}
