// C23: the test framework integrations report the property's verdict.
//
// The harness runs itself as a child process that is a real test program of
// the framework: its properties do what a script in the environment says. The
// parent runs the same bodies through the library alone, which tells what is
// to be expected, and looks at the child's exit code, its output and the trace
// of everything that was executed in it.
#pragma once
#include "mon.hpp"
#include <rapidcheck.h>
#include "rapidcheck/detail/Configuration.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "src/detail/StringSerialization.h"
#include "src/detail/Testing.h"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <rapidcheck.h>
#include <unistd.h>

namespace c23 {
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using ReproMap = std::unordered_map<std::string, Reproduce>;

enum Mode { kPass, kAssert, kFail, kThrow, kThrowString, kDiscardAll, kReport, kModes };
struct Script {
  int mode = 0, t = 0, discard = 0, tags = 0;
  std::string str() const { return std::to_string(mode) + "," + std::to_string(t) + "," + std::to_string(discard) + "," + std::to_string(tags); }
  static Script parse(const char *s) {
    Script r;
    if (s) std::sscanf(s, "%d,%d,%d,%d", &r.mode, &r.t, &r.discard, &r.tags);
    return r;
  }
};
inline Script &script() { static Script s = Script::parse(std::getenv("C23_SCRIPT")); return s; }
// What happened, in order. In the child a file, in the parent a string.
inline std::string &traceText() { static std::string s; return s; }
inline void trace(const std::string &s) {
  static const char *path = std::getenv("C23_TRACE");
  if (!path) { traceText() += s + "\n"; return; }
  static std::ofstream f(path, std::ios::app);
  f << s << std::endl;
}
// Hook for results reported through the framework instead of by throwing.
inline std::function<void(int64_t, int)> &reporter() { static std::function<void(int64_t, int)> f; return f; }

inline void body(const std::string &which, int64_t measure, const std::string &values) {
  const Script &s = script();
  trace("B " + which + " " + values);
  const uint64_t h = mon::hashStr(values);
  if (s.mode == kDiscardAll && (s.t % 2 || h % 8 != 0)) RC_DISCARD("not this one");
  if (s.mode == kDiscardAll) RC_PRE(false);
  if (h % 100 < (uint64_t)s.discard) RC_DISCARD("not this one");
  if (s.tags) { RC_TAG(measure % 3); RC_CLASSIFY(h % 2 == 0, "even"); }
  RC_LOG() << "seen " << measure;
  switch (s.mode) {
  case kAssert: RC_ASSERT(measure < s.t); break;
  case kFail: if (measure >= s.t) RC_FAIL("it is too large"); break;
  case kThrow: if (measure >= s.t) throw std::runtime_error("thrown by the body"); break;
  case kThrowString: if (measure >= s.t) throw std::string("a thrown text"); break;
  case kReport: if (reporter()) reporter()(measure, s.t); break;
  default: break;
  }
}
inline void p1(int x) { body("p1", x, toString(x)); }
inline void p2(const std::vector<int> &v, const std::string &s) { body("p2", 12 * (int64_t)v.size(), toString(v) + toString(s)); }
inline void p0() {
  const int a = *gen::inRange(0, 1000).as("first pick");
  const auto v = *gen::container<std::vector<int>>(gen::inRange(0, 50));
  body("p0", a + (int)v.size(), toString(a) + toString(v));
}

struct Expected {
  TestResult res;
  std::string text;  // as printed
  std::string runs;  // trace of the bodies
  FailureResult failure;
  char verdict = '?';
};
inline void fill(Expected &e) {
  SuccessResult s; GaveUpResult g; Error er;
  e.verdict = e.res.match(s) ? 'S' : e.res.match(e.failure) ? 'F' : e.res.match(g) ? 'G' : 'E';
  std::ostringstream os;
  printResultMessage(e.res, os);
  e.text = os.str();
  e.runs = traceText();
}
template <typename F> Expected expected(F f, const Script &sc, const TestParams &p, const ReproMap &m, const std::string &id) {
  script() = sc;
  traceText().clear();
  TestMetadata md;
  md.id = id;
  TestListenerAdapter l;
  Expected e{checkProperty(toProperty(f), md, p, l, m), "", "", {}, '?'};
  fill(e);
  return e;
}

inline Script randomScript(Rng &r) {
  Script s;
  s.mode = r.below(kModes);
  s.t = r.chance(1, 8) ? 0 : 1 + (int)r.below(r.chance(1, 3) ? 400 : 30);
  s.discard = r.chance(1, 4) ? (int)r.below(60) : 0;
  s.tags = r.chance(1, 3);
  return s;
}
inline TestParams randomParams(Rng &r) {
  TestParams p;
  p.seed = r.next();
  p.maxSuccess = (int)r.below(r.chance(1, 6) ? 1 : 150);
  p.maxSize = r.chance(1, 6) ? (int)r.below(4) : 50 + (int)r.below(100);
  p.maxDiscardRatio = 1 + (int)r.below(8);
  p.disableShrinking = r.chance(1, 6);
  return p;
}
inline std::string squeeze(const std::string &s) { // frameworks indent and wrap
  std::string o;
  for (char c : s) if (!std::isspace((unsigned char)c)) o += c;
  return o;
}
inline std::string shq(const std::string &s) { // for the shell
  std::string o = "'";
  for (char c : s) { if (c == '\'') o += "'\\''"; else o += c; }
  return o + "'";
}
struct Child { int rc; std::string out, trace; };
inline Child runChild(const std::string &args, const Script &s, const TestParams &p, const ReproMap &m, Rng &rng, bool verbose = false) {
  Configuration c;
  c.testParams = p;
  c.reproduce = m;
  c.verboseProgress = c.verboseShrinking = verbose;
  char tmpl[] = "c23traceXXXXXX";
  const int fd = ::mkstemp(tmpl);
  if (fd < 0) std::abort();
  ::close(fd);
  Child r;
  std::string err;
  r.rc = mon::runShell("C23_SCRIPT=" + s.str() + " C23_TRACE=" + std::string(tmpl) + " RC_PARAMS=" + shq(configToString(c)) + " \"$EXE\" --child " + args, r.out, err);
  r.out += err;
  std::ifstream f(tmpl);
  std::ostringstream os;
  os << f.rdbuf();
  r.trace = os.str();
  ::unlink(tmpl);
  return r;
}
// Bodies of one property only.
inline std::string only(const std::string &trace, const std::string &which) {
  std::istringstream is(trace);
  std::string l, o;
  while (std::getline(is, l)) if (l.compare(0, 3 + which.size(), "B " + which + " ") == 0) o += l + "\n";
  return o;
}
// Lines of the given kinds, values left out.
inline std::string kinds(const std::string &trace) {
  std::istringstream is(trace);
  std::string l, o;
  while (std::getline(is, l)) if (!l.empty()) o += l[0];
  return o;
}
// `what` ran in the child as it did here.
inline void judge(const std::string &ctx, const Child &c, const Expected &e, const std::string &runs, bool shown = true) {
  CHECK((c.rc == 0) == (e.verdict == 'S'), "verdict", ctx << ": the test program exited with " << c.rc << " though the result is\n" << e.text << "\noutput:\n" << c.out.substr(0, 900));
  CHECK(runs == e.runs, "executions", ctx << ": other test cases were executed in the test program than by the library alone");
  const bool dist = e.verdict != 'S' || (shown && e.text.find('%') != std::string::npos);
  if (dist)
    CHECK(squeeze(c.out).find(squeeze(e.text)) != std::string::npos, "message", ctx << ": the output lacks the result\n" << e.text << "\noutput:\n" << c.out.substr(0, 1500));
  else
    CHECK(squeeze(c.out).find("Falsifiable") == std::string::npos && squeeze(c.out).find("Gaveup") == std::string::npos, "message", ctx << ": a failure is shown for a passing property: " << c.out.substr(0, 900));
  mon::st().counters[std::string("verdict_") + e.verdict]++;
  if (dist && e.verdict == 'S') mon::count("distributions_shown");
  mon::distinctStr(ctx + e.text);
  mon::sample(ctx + ": " + e.text.substr(0, 200));
}
// RC_PARAMS="reproduce=..." lines, as printed for named properties that failed.
inline bool hint(const std::string &out, ReproMap &m) {
  const auto i = out.find("RC_PARAMS=\"reproduce=");
  if (i == std::string::npos) return false;
  const auto b = i + std::strlen("RC_PARAMS=\"reproduce="), e = out.find('"', b);
  m = stringToReproduceMap(out.substr(b, e - b));
  return true;
}
inline void hints(const std::string &ctx, const Child &c, const Expected &e, const std::string &id) {
  ReproMap m;
  const bool any = hint(c.out, m);
  if (e.verdict == 'F' && !id.empty())
    CHECK(any && m.size() == 1 && m.count(id) && m[id] == e.failure.reproduce, "hint", ctx << ": the reproduction hint is " << (any ? "another" : "missing") << "\n" << c.out.substr(0, 900));
  else
    CHECK(!any, "hint", ctx << ": a reproduction hint is printed though no named property failed");
}
// Runs one property with a random script, then replays what failed.
// run(args...) starts the child for the property.
template <typename F> void oneProperty(Rng &rng, const std::string &name, const std::string &id, const std::string &args, F f, const std::string &which,
                                       const std::function<void(const std::string &, const Child &, const Expected &)> &extra = nullptr, bool wantHint = true) {
  const Script s = randomScript(rng);
  const TestParams p = randomParams(rng);
  const auto e = expected(f, s, p, {}, id);
  const std::string ctx = name + " script " + s.str();
  const auto c = runChild(args, s, p, {}, rng, rng.chance(1, 8));
  judge(ctx, c, e, only(c.trace, which));
  if (wantHint) hints(ctx, c, e, id);
  if (extra) extra(ctx, c, e);
  if (e.verdict != 'F' || !rng.chance(1, 2)) return;
  // Reproduction
  TestParams p2 = p;
  p2.seed = rng.next();
  ReproMap m;
  m.emplace(id.empty() ? "some name" : id, e.failure.reproduce);
  const int k = rng.below(4);
  if (k == 1) m.begin()->second.shrinkPath.push_back(1000000);
  if (k == 2) { ReproMap o; o.emplace("another/name", e.failure.reproduce); m = o; }
  if (k == 3) m.emplace("another/name", e.failure.reproduce);
  const auto e2 = expected(f, s, p2, m, id);
  const auto c2 = runChild(args, s, p2, m, rng);
  judge(ctx + " reproducing " + std::to_string(k), c2, e2, only(c2.trace, which));
  if (extra) extra(ctx + " reproducing", c2, e2);
  if (e2.verdict == 'F') CHECK(e2.failure.counterExample == e.failure.counterExample || p2.disableShrinking != p.disableShrinking, "reproduced", ctx << ": another counterexample");
  mon::count("reproductions");
}
} // namespace c23
