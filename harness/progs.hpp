// Random deterministic properties ("programs") over library generators, plus a
// recording listener. Shared by C01, C02, C03, C05, C20.
#pragma once
#include "mon.hpp"
#include <rapidcheck.h>
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/Results.h"
#include "rapidcheck/detail/TestListener.h"
#include <map>
#include <set>

namespace progs {

using namespace rc;
using rc::detail::CaseDescription;
using rc::detail::CaseResult;
using rc::detail::Property;
using rc::detail::TestMetadata;
using rc::detail::TestParams;
using rc::detail::TestResult;

struct Spec {
  int family = 0;
  uint64_t h = 0;
  int failMode = 0;       // 0 threshold, 1 hash, 2 never, 3 threshold+hash, 4 throw on threshold
  int64_t threshold = 0;
  unsigned failMod = 10;  // 1 in failMod for hash failures
  unsigned discardPm = 0; // per mille of values discarded
  int tagMode = 0;
};
static const int kFamilies = 12;

inline std::string describe(const Spec &s) {
  std::ostringstream os;
  os << "family=" << s.family << " h=" << s.h << " failMode=" << s.failMode
     << " thr=" << s.threshold << " mod=" << s.failMod << " discard=" << s.discardPm
     << " tags=" << s.tagMode;
  return os.str();
}

struct BodyLog;
inline BodyLog *&bodyLog() {
  static BodyLog *l = nullptr;
  return l;
}
struct BodyLog {
  std::vector<std::string> runs; // arguments and picks of every execution
  BodyLog() = default;
  BodyLog(const BodyLog &) = delete;
  ~BodyLog() {
    if (bodyLog() == this)
      bodyLog() = nullptr;
  }
};

inline int64_t mag(int64_t x) { return x < 0 ? -(x + 1) : x; }

Property make(const Spec &s);

inline Spec randomSpec(mon::Rng &r, bool failing) {
  Spec s;
  s.family = r.below(kFamilies);
  s.h = r.next();
  static const int modes[] = {0, 0, 1, 3, 4};
  s.failMode = failing ? modes[r.below(5)] : (r.chance(1, 3) ? 2 : modes[r.below(5)]);
  static const int64_t scale[kFamilies] = {1000000000, 60, 60, 40, 300, 500000000, 12, 100, 60, 60, 60, 40};
  s.threshold = 1 + r.below(r.chance(1, 2) ? scale[s.family] : scale[s.family] / 6 + 1);
  s.failMod = 2 + r.below(30);
  static const unsigned dp[] = {0, 0, 50, 300, 700};
  s.discardPm = dp[r.below(5)];
  s.tagMode = r.below(3);
  return s;
}

struct Event {
  char kind; // 'C' case, 'S' shrink rejected, 'A' shrink accepted, 'F' finished
  int type;
  std::string desc;
  std::vector<std::string> tags;
  rc::detail::Example example;
};
inline bool operator==(const Event &a, const Event &b) {
  return a.kind == b.kind && a.type == b.type && a.desc == b.desc && a.tags == b.tags && a.example == b.example;
}

struct Recorder : rc::detail::TestListener {
  std::vector<Event> ev;
  std::vector<TestResult> finished;
  std::vector<TestMetadata> finishedMeta;
  bool withExamples = false;
  void add(char k, const CaseDescription &d) {
    Event e{k, (int)d.result.type, d.result.description, d.tags, {}};
    if (withExamples && d.example)
      e.example = d.example();
    ev.push_back(e);
    mon::count("listener_events");
  }
  void onTestCaseFinished(const CaseDescription &d) override { add('C', d); }
  void onShrinkTried(const CaseDescription &d, bool acc) override { add(acc ? 'A' : 'S', d); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    finished.push_back(r);
    finishedMeta.push_back(m);
    ev.push_back(Event{'F', 0, m.id, {}, {}});
  }
};

inline TestParams randomParams(mon::Rng &r) {
  TestParams p;
  p.seed = r.chance(1, 5) ? r.below(3) : r.next();
  p.maxSuccess = r.chance(1, 8) ? r.below(3) : 1 + r.below(60);
  p.maxSize = r.chance(1, 8) ? r.below(3) : r.below(60);
  p.maxDiscardRatio = r.below(12);
  p.disableShrinking = r.chance(1, 8);
  return p;
}

using ReproMap = std::unordered_map<std::string, rc::detail::Reproduce>;

inline TestResult runCheck(const Property &p, const TestParams &prm, rc::detail::TestListener &l,
                           const TestMetadata &meta = TestMetadata(), const ReproMap &rm = ReproMap()) {
  return rc::detail::checkProperty(p, meta, prm, l, rm);
}

inline std::string showResult(const TestResult &r) {
  std::ostringstream os;
  os << r;
  return os.str();
}

} // namespace progs
