// C27: the final run of the minimal failing case is announced, happens once,
// comes last and is the one that is reported.
#include "progs.hpp"
#include <rapidcheck/state.h>
#include "rapidcheck/detail/PropertyContext.h"
#include <iostream>
using namespace progs;
using namespace rc::detail;
using mon::Rng;

// Calls of rc::beforeMinimalTestCase() are routed here by the linker (--wrap),
// as a breakpoint of a debugger would see them.
namespace {
struct Call { size_t runs, events; };
std::vector<Call> calls;
Recorder *listening = nullptr;
size_t runsNow = 0;
}
extern "C" void __real__ZN2rc21beforeMinimalTestCaseEv();
extern "C" void __wrap__ZN2rc21beforeMinimalTestCaseEv() {
  calls.push_back({bodyLog() ? bodyLog()->runs.size() : runsNow, listening ? listening->ev.size() : 0});
  __real__ZN2rc21beforeMinimalTestCaseEv();
}

namespace {
struct Watch {
  BodyLog log;
  Recorder rec;
  Watch() { calls.clear(); bodyLog() = &log; listening = &rec; }
  ~Watch() { bodyLog() = nullptr; listening = nullptr; }
};
// Exactly one announcement, then exactly one run and no more events but the end.
void announced(const Watch &w, const std::string &ctx) {
  REQUIRE_(calls.size() == 1, "announcements", calls.size() << " calls of beforeMinimalTestCase for one failing check: " << ctx);
  CHECK(w.log.runs.size() == calls[0].runs + 1, "runs-after-announcement", w.log.runs.size() - calls[0].runs << " runs follow the announcement: " << ctx);
  for (size_t i = calls[0].events; i < w.rec.ev.size(); i++)
    CHECK(w.rec.ev[i].kind == 'F', "cases-after-announcement", "a case or shrink is reported to the listener after the announcement: " << ctx);
  mon::count("final_runs_announced");
}
} // namespace

SECTION("search", 1200, 20000) {
  const Spec sp = randomSpec(rng, rng.chance(4, 5));
  TestParams p = randomParams(rng);
  const auto prop = make(sp);
  std::ostringstream ctx;
  ctx << describe(sp) << " params " << p;
  Watch w;
  ReproMap under;
  TestMetadata meta;
  meta.id = "p";
  const auto res = runCheck(prop, p, w.rec, meta);
  FailureResult f;
  if (!res.match(f)) {
    CHECK(calls.empty(), "announced-without-failure", calls.size() << " calls of beforeMinimalTestCase, but the result is " << res << ": " << ctx.str());
    mon::count("not_failing");
    return;
  }
  announced(w, ctx.str());
  if (w.log.runs.empty()) return;
  CHECK(f.description.find(w.log.runs.back()) != std::string::npos, "reported-run", "the last run saw " << w.log.runs.back() << " but the report is " << res);
  // the same values as the last failing case or adopted shrink
  std::string last;
  for (auto &e : w.rec.ev) if ((e.kind == 'C' && e.type == (int)CaseResult::Type::Failure) || e.kind == 'A') last = e.desc;
  CHECK(last == f.description, "reported-run", "the last adopted case says " << last << " but the report is " << res);
  if (p.disableShrinking) mon::count("unshrunk");
  if (!f.reproduce.shrinkPath.empty()) mon::count("shrunk");
  mon::distinctStr(w.log.runs.back());
  mon::sample(ctx.str() + " => " + std::to_string(w.log.runs.size()) + " runs, announced before the last: " + w.log.runs.back());

  // reproduction
  ReproMap m;
  m["p"] = f.reproduce;
  {
    Watch v;
    const auto again = runCheck(prop, p, v.rec, meta, m);
    FailureResult g;
    REQUIRE_(again.match(g), "replay", "not reproduced: " << again);
    if (p.disableShrinking) CHECK(calls.size() <= 1, "announcements", calls.size() << " announcements");
    announced(v, "reproduction of " + ctx.str());
    CHECK(!v.log.runs.empty() && v.log.runs.back() == w.log.runs.back(), "replayed-run", "the announced run of the reproduction saw " << (v.log.runs.empty() ? "" : v.log.runs.back()) << " instead of " << w.log.runs.back());
    mon::count("reproductions_announced");
  }
  {
    Watch v;
    TestMetadata other;
    other.id = "q";
    runCheck(prop, p, v.rec, other, m);
    CHECK(calls.empty() && v.log.runs.empty(), "announced-without-failure", "a property that is not being reproduced is announced or run");
  }
  {
    Watch v;
    auto bad = m;
    bad["p"].shrinkPath.push_back(1000000);
    TestParams q = p; // without shrinking the path does not matter
    q.disableShrinking = false;
    const auto none = runCheck(prop, q, v.rec, meta, bad);
    FailureResult g;
    CHECK(!none.match(g) && calls.empty(), "announced-without-failure", "reproduction along a missing path is announced: " << none);
  }
}

// What is reported comes from that run: a body that says which run it is.
SECTION("which-run", 800, 12000) {
  const int thr = (int)rng.below(60), kind = (int)rng.below(4);
  int runs = 0;
  auto fail = [&](bool bad, int64_t x) {
    runs++;
    runsNow = runs;
    RC_LOG() << "this is run " << runs << " of " << x;
    if (!bad) return;
    if (kind == 0) RC_FAIL("run " + std::to_string(runs) + ";");
    if (kind == 1) throw std::runtime_error("run " + std::to_string(runs) + ";");
    if (kind == 2) RC_ASSERT(runs < 0);
    rc::detail::ImplicitParam<rc::detail::param::CurrentPropertyContext>::value()->reportResult(CaseResult(CaseResult::Type::Failure, "run " + std::to_string(runs) + ";"));
  };
  TestParams p = randomParams(rng);
  p.maxSuccess = 100;
  const auto prop = rng.chance(1, 2) ? toProperty([&](const std::vector<int> &v) { fail((int)v.size() * 3 >= thr, (int64_t)v.size()); })
                                     : toProperty([&] { const int a = *gen::inRange(0, 100); const auto b = *gen::arbitrary<std::string>(); fail(a + (int)b.size() >= thr, a); });
  calls.clear();
  runsNow = 0;
  Recorder rec;
  const auto res = runCheck(prop, p, rec);
  FailureResult f;
  if (!res.match(f)) { CHECK(calls.empty(), "announced-without-failure", calls.size() << " announcements"); return; }
  REQUIRE_(calls.size() == 1, "announcements", calls.size() << " calls of beforeMinimalTestCase for one failing check");
  CHECK(runs == (int)calls[0].runs + 1, "runs-after-announcement", runs - (int)calls[0].runs << " runs follow the announcement");
  const std::string want = "run " + std::to_string(runs) + " of";
  CHECK(f.description.find("this is " + want) != std::string::npos, "reported-run", "the last run is number " << runs << " but the report has the log of another: " << f.description);
  if (kind != 2) CHECK(f.description.find("run " + std::to_string(runs) + ";") != std::string::npos, "reported-run", "the last run is number " << runs << " but the report is that of another: " << f.description);
  else CHECK(f.description.find(std::to_string(runs) + " < 0") != std::string::npos, "reported-run", "the last run is number " << runs << " but the report is that of another: " << f.description);
  mon::count("reports_of_the_last_run");
  mon::distinctStr(f.description);
}

// Checks inside checks: one announcement for each failing one.
SECTION("nested", 120, 2000) {
  size_t failures = 0, innerRuns = 0;
  const int a = 1 + (int)rng.below(7), b = (int)rng.below(9);
  const uint64_t seed = rng.next();
  TestParams p = randomParams(rng), q = randomParams(rng);
  p.maxSuccess = 15;
  q.maxSuccess = 8;
  p.maxSize = (int)rng.below(12); // every shrink of the outer check runs a whole inner one
  q.maxSize = (int)rng.below(12);
  calls.clear();
  Recorder rec;
  const auto res = runCheck(toProperty([&](const std::vector<int> &v) {
    q.seed = seed + v.size();
    Recorder in;
    FailureResult f;
    const size_t before = calls.size();
    const auto r = runCheck(toProperty([&](const std::string &s) { innerRuns++; RC_ASSERT((int)s.size() < a); }), q, in);
    const bool failed = r.match(f);
    failures += failed;
    CHECK(calls.size() == before + failed, "announcements", calls.size() - before << " announcements of an inner check that " << (failed ? "fails" : "does not fail"));
    if (failed) RC_ASSERT((int)v.size() < b);
  }), p, rec);
  FailureResult f;
  failures += res.match(f);
  CHECK(calls.size() == failures, "announcements", calls.size() << " announcements for " << failures << " failing checks");
  mon::count("nested_failures", failures);
  mon::distinct(mon::comb(seed, innerRuns));
}

// The public entry points.
SECTION("entry-points", 60, 600) {
  struct Mute {
    std::ostringstream o;
    std::streambuf *b;
    Mute() : b(std::cerr.rdbuf(o.rdbuf())) {}
    ~Mute() { std::cerr.rdbuf(b); }
  } mute;
  const int thr = (int)rng.below(30);
  const bool failing = rng.chance(2, 3);
  size_t runs = 0;
  size_t last = 0;
  auto body = [&](const std::vector<char> &v) { runs++; runsNow = runs; last = v.size(); RC_ASSERT(!failing || (int)v.size() < thr); };
  calls.clear();
  runsNow = 0;
  bool ok;
  switch (rng.below(3)) {
  case 0: ok = rc::check(body); break;
  case 1: ok = rc::check("some property", body); break;
  default: ok = rc::check([&] { const auto v = *gen::arbitrary<std::vector<char>>(); body(v); });
  }
  CHECK(calls.size() == (ok ? 0u : 1u), "announcements", calls.size() << " announcements by rc::check, which returned " << ok);
  if (!ok && calls.size() == 1) {
    CHECK(runs == calls[0].runs + 1, "runs-after-announcement", runs - calls[0].runs << " runs follow the announcement");
    CHECK((int)last == thr, "announced-run-minimal", "the announced run has " << last << " elements instead of " << thr);
    mon::count("entry_point_failures");
  }
  mon::distinct(thr * 2 + failing);
}

// A stateful property: the final run executes the minimal command sequence on a
// fresh system.
namespace {
struct Sut { std::vector<int> done; };
using Cmd = rc::state::Command<int, Sut>;
int limit;
std::vector<std::vector<int>> *sutRuns;
struct Add : Cmd {
  int x = *gen::inRange(0, 20);
  void apply(int &m) const override { m += x; }
  void run(const int &m, Sut &s) const override {
    s.done.push_back(x);
    sutRuns->back() = s.done;
    RC_ASSERT(m + x < limit);
  }
  void show(std::ostream &os) const override { os << "Add(" << x << ")"; }
};
} // namespace
SECTION("stateful", 150, 2500) {
  limit = 1 + (int)rng.below(60);
  std::vector<std::vector<int>> all;
  sutRuns = &all;
  TestParams p = randomParams(rng);
  p.maxSuccess = 60;
  p.maxSize = 20;
  calls.clear();
  Recorder rec;
  const auto res = runCheck(toProperty([&] {
    all.emplace_back();
    runsNow = all.size();
    Sut sut;
    rc::state::check(0, sut, [](const int &) { return rc::state::gen::execOneOf<Add>(0); });
  }), p, rec);
  FailureResult f;
  if (!res.match(f)) { CHECK(calls.empty(), "announced-without-failure", calls.size() << " announcements"); return; }
  REQUIRE_(calls.size() == 1, "announcements", calls.size() << " announcements for one failing check");
  CHECK(all.size() == calls[0].runs + 1, "runs-after-announcement", all.size() - calls[0].runs << " runs follow the announcement");
  std::string want;
  for (int x : all.back()) want += "Add(" + std::to_string(x) + ")\n";
  bool shown = false;
  for (auto &e : f.counterExample) shown = shown || e.second.find(want) != std::string::npos;
  CHECK(shown, "reported-run", "the last run executed\n" << want << "but the report is " << res);
  mon::count("stateful_final_runs");
  mon::distinctStr(want);
}
