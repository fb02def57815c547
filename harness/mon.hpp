// Small monitoring framework shared by all harnesses of /verif.
//
// A harness is a set of sections. A section runs a bounded number of cases;
// every random choice of a case derives from (seed, section, case), so a case
// can be replayed alone. Oracles call CHECK/violation(); nothing is decided by
// wall-clock time (a CPU-time watchdog only turns a case that never returns
// into a "hang" report which the runner re-runs alone before believing it).
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <typeinfo>
#include <exception>

namespace mon {

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

inline uint64_t hashBytes(const void *p, std::size_t n,
                          uint64_t h = 0xcbf29ce484222325ULL) {
  auto c = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 0x100000001b3ULL;
  }
  return h;
}
inline uint64_t hashStr(const std::string &s) {
  return hashBytes(s.data(), s.size());
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b)); }

// The harness's own PRNG; never rapidcheck's.
class Rng {
public:
  explicit Rng(uint64_t s) : m_s(s) {}
  uint64_t next() {
    m_s += 0x9E3779B97F4A7C15ULL;
    return mix64(m_s);
  }
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  int64_t range(int64_t lo, int64_t hi) { // inclusive
    const uint64_t w = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
    return static_cast<int64_t>(static_cast<uint64_t>(lo) +
                                (w == ~0ULL ? next() : below(w + 1)));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename C>
  auto pick(const C &c) -> decltype(c[0]) {
    return c[below(c.size())];
  }
  Rng fork() { return Rng(next()); }

private:
  uint64_t m_s;
};

struct Violation {
  std::string key, msg, section;
  uint64_t caseIdx;
};

struct State {
  std::string prop;
  uint64_t seed = 1;
  bool thorough = false;
  std::string section;
  uint64_t caseIdx = 0;
  uint64_t cases = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  bool trace = false;
  int *hangArm = nullptr;
};
State &st();

inline void count(const char *name, uint64_t n = 1) { st().counters[name] += n; }
inline void distinct(uint64_t h) {
  if (st().distinct.size() < 400000)
    st().distinct.insert(comb(h, hashStr(st().section)));
}
inline void distinctStr(const std::string &s) { distinct(hashStr(s)); }
inline void sample(const std::string &s) {
  if (st().samples.size() < 3)
    st().samples.push_back(s.size() > 400 ? s.substr(0, 400) + "..." : s);
}
void violation(const std::string &key, const std::string &msg);
inline bool tracing() { return st().trace; }

using SectionFn = std::function<void(Rng &)>;
struct Section {
  std::string name;
  uint64_t quick, thorough;
  SectionFn fn;
};
std::vector<Section> &sections();
struct Reg {
  Reg(const char *name, uint64_t q, uint64_t t, SectionFn fn) {
    sections().push_back(Section{name, q, t, std::move(fn)});
  }
};

// A harness may run itself as a child process: `exe --child args...`.
std::function<int(const std::vector<std::string> &)> &childHook();
// Runs a shell command (in which "$EXE" names this harness), returns its exit
// code and captures stdout and stderr.
int runShell(const std::string &cmd, std::string &out, std::string &err);

template <typename T>
std::string str(const T &x) {
  std::ostringstream os;
  os << x;
  return os.str();
}
inline std::string hex(const std::vector<uint8_t> &v) {
  std::string s;
  char b[4];
  for (auto x : v) {
    std::snprintf(b, sizeof b, "%02x", x);
    s += b;
  }
  return s;
}

} // namespace mon

#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
// SECTION(name, cases at quick tier, cases at thorough tier)
#define SECTION(NAME, Q, T)                                                    \
  static void MON_CAT(sec_, __LINE__)(mon::Rng & rng);                         \
  static mon::Reg MON_CAT(reg_, __LINE__)(NAME, Q, T,                          \
                                          &MON_CAT(sec_, __LINE__));           \
  static void MON_CAT(sec_, __LINE__)(mon::Rng & rng)

// CHECK(cond, key, stream-expression)
#define CHECK(COND, KEY, MSG)                                                  \
  do {                                                                         \
    mon::count("oracle_evaluations");                                          \
    if (!(COND)) {                                                             \
      std::ostringstream mon_os;                                               \
      mon_os << MSG;                                                           \
      mon::violation(KEY, mon_os.str());                                       \
    }                                                                          \
  } while (0)
// As CHECK but leaves the case.
#define REQUIRE_(COND, KEY, MSG)                                               \
  do {                                                                         \
    mon::count("oracle_evaluations");                                          \
    if (!(COND)) {                                                             \
      std::ostringstream mon_os;                                               \
      mon_os << MSG;                                                           \
      mon::violation(KEY, mon_os.str());                                       \
      return;                                                                  \
    }                                                                          \
  } while (0)
// As REQUIRE_ inside a tree visitor: ends the walk.
#define REQUIRE_RET(COND, KEY, MSG)                                            \
  do {                                                                         \
    mon::count("oracle_evaluations");                                          \
    if (!(COND)) {                                                             \
      std::ostringstream mon_os;                                               \
      mon_os << MSG;                                                           \
      mon::violation(KEY, mon_os.str());                                       \
      return false;                                                            \
    }                                                                          \
  } while (0)
