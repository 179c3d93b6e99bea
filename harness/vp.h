// Common harness runtime: seeded cases, failure reporting, evidence counters, watchdog.
// A harness enumerates cases; every case is a pure function of a 64-bit case id, so
// "--case ID" replays it exactly.  Verdict lines go to stdout:
//   FAIL <key> case=<id> <detail>     the monitor observed a violation
//   KNOWN? is never decided here: the driver matches keys against known_findings.txt
//   STATS {json}                      what was observed
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <exception>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace vp {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  // uniform in [0,n)
  uint32_t operator()(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 11) % n) : 0; }
  // uniform in [a,b]
  int range(int a, int b) { return a + static_cast<int>((*this)(static_cast<uint32_t>(b - a + 1))); }
  bool chance(int num, int den) { return static_cast<int>((*this)(den)) < num; }
  template<typename T> const T& pick(const std::vector<T>& v) { return v[(*this)(static_cast<uint32_t>(v.size()))]; }
};

inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (size_t i = 0; i < s.size(); ++i) { h ^= static_cast<unsigned char>(s[i]); h *= 1099511628211ULL; }
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
  return h;
}

inline std::string esc(const std::string& s, size_t max = 400) {
  std::string r;
  char b[8];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c == '\n') r += "\\n";
    else if (c == '\\') r += "\\\\";
    else if (c == '"') r += "\\\"";
    else if (c >= 32 && c < 127) r += c;
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  if (s.size() > max) { r += "...("; r += std::to_string(s.size()); r += " bytes)"; }
  return r;
}

inline std::string json_str(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c >= 32 && c < 127) r += c;
    else { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
  }
  return r + "\"";
}

struct Ctx {
  uint64_t seed = 1;
  uint64_t shard = 0, cases = 100, start = 0;
  bool single = false;
  uint64_t single_case = 0;
  bool verbose = false;
  std::string hashfile, workdir = ".";
  std::map<std::string, std::string> opt;
  uint64_t evaluations = 0;         // executions compared with the oracle
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t fails = 0;
  std::map<std::string, int> fails_by_key;
  uint64_t cur_case = 0;
  volatile uint64_t *progress = nullptr;
  volatile int hang_limit = 60;     // CPU seconds per case
  std::string note;                 // description of the running case, for crash reports

  void count(const char *k, uint64_t n = 1) { counters[k] += n; }
  void nontrivial(uint64_t h) { distinct.insert(h); }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
  void set_note(const std::string& s) {
    note = s;
    if (progress) {
      char *p = reinterpret_cast<char*>(const_cast<uint64_t*>(progress)) + 16;
      size_t n = s.size() < 3900 ? s.size() : 3900;
      memcpy(p, s.data(), n);
      p[n] = 0;
    }
  }
  void fail(const std::string& key, const std::string& detail) {
    ++fails;
    int n = ++fails_by_key[key];
    if (n <= 3) {
      printf("FAIL %s case=%llu %s\n", key.c_str(), static_cast<unsigned long long>(cur_case), detail.c_str());
      fflush(stdout);
    }
  }
};

inline Ctx& ctx() { static Ctx c; return c; }

// thrown to give up a case after a failure has been reported
struct Abandon {};

// set while a reference engine runs that may itself take exponential time
inline volatile bool& in_oracle() { static volatile bool b = false; return b; }

inline void hang_handler(int) {
  if (in_oracle()) _exit(96);
  const char m[] = "\nHANG\n";
  ssize_t r = write(1, m, sizeof m - 1); (void)r;
  _exit(97);
}

inline void arm(int seconds) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline uint64_t case_id(uint64_t seed, uint64_t shard, uint64_t index) {
  Rng r(seed * 0x9E3779B97F4A7C15ULL + shard * 0xD1B54A32D192ED03ULL + index * 0x2545F4914F6CDD1DULL);
  return r.next();
}

inline std::string json_counters(const Ctx& c) {
  std::string s = "{\"evaluations\":" + std::to_string(c.evaluations) + ",\"counters\":{";
  bool first = true;
  for (auto& k : c.counters) {
    if (!first) s += ",";
    first = false;
    s += json_str(k.first) + ":" + std::to_string(k.second);
  }
  s += "},\"fails\":" + std::to_string(c.fails) + ",\"samples\":[";
  for (size_t i = 0; i < c.samples.size(); ++i) { if (i) s += ","; s += json_str(c.samples[i]); }
  return s + "]}";
}

inline void finish() {
  Ctx& c = ctx();
  if (!c.hashfile.empty()) {
    FILE *f = fopen(c.hashfile.c_str(), "ab");
    if (f) {
      for (uint64_t h : c.distinct) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  printf("STATS %s\n", json_counters(c).c_str());
  fflush(stdout);
}

// body(rng, case_id): runs one case
inline int run(int argc, char **argv, const std::function<void(Rng&, uint64_t)>& body,
               const std::function<void()>& fixed = nullptr) {
  Ctx& c = ctx();
  std::string progfile;
  bool nofixed = false;
  time_t deadline = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 0);
    else if (a == "--shard") c.shard = strtoull(val().c_str(), 0, 0);
    else if (a == "--cases") c.cases = strtoull(val().c_str(), 0, 0);
    else if (a == "--start") c.start = strtoull(val().c_str(), 0, 0);
    else if (a == "--case") { c.single = true; c.single_case = strtoull(val().c_str(), 0, 0); }
    else if (a == "--progress") progfile = val();
    else if (a == "--hashes") c.hashfile = val();
    else if (a == "--workdir") c.workdir = val();
    else if (a == "--hang") c.hang_limit = atoi(val().c_str());
    else if (a == "--nofixed") nofixed = true;
    else if (a == "--deadline") deadline = time(nullptr) + atoi(val().c_str());
    else if (a == "-v") c.verbose = true;
    else if (a.size() > 2 && a[0] == '-' && a[1] == '-') { std::string v = val(); c.opt[a.substr(2)] = v; }
  }
  if (!progfile.empty()) {
    int fd = open(progfile.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) c.progress = static_cast<volatile uint64_t*>(p);
      close(fd);
    }
  }
  signal(SIGPROF, hang_handler);
  signal(SIGPIPE, SIG_IGN);
  auto guarded = [&](const std::function<void()>& f) {
    try { f(); }
    catch (const Abandon&) { }
    catch (const std::exception& e) { c.fail("uncaught-exception", std::string(e.what()) + " note=" + esc(c.note, 1500)); }
    catch (...) { c.fail("uncaught-exception", "unknown note=" + esc(c.note, 1500)); }
  };
  // deterministic cases first, in shard 0 only
  if (fixed && !nofixed && (c.single ? c.single_case == 0 : (c.shard == 0 && c.start == 0))) {
    c.cur_case = 0;
    if (c.progress) { c.progress[0] = 0; c.progress[1] = 0; }
    arm(c.hang_limit * 4);
    guarded(fixed);
  }
  if (c.single) {
    if (c.single_case != 0) {
      c.cur_case = c.single_case;
      Rng r(c.single_case);
      arm(c.hang_limit);
      guarded([&]() { body(r, c.single_case); });
    }
  } else {
    for (uint64_t i = c.start; i < c.cases; ++i) {
      uint64_t id = case_id(c.seed, c.shard, i);
      c.cur_case = id;
      if (c.progress) { c.progress[0] = id; c.progress[1] = i + 1; }
      Rng r(id);
      arm(c.hang_limit);
      guarded([&]() { body(r, id); });
      if (c.fails > 200) break;
      if (deadline && time(nullptr) >= deadline) { c.count("stopped_by_deadline"); break; }
    }
  }
  arm(0);
  finish();
  return c.fails ? 1 : 0;
}

} // namespace vp
#endif
