// C02: a reported failure can be replayed exactly from its reproduction data.
#include "progs.hpp"
#include "rapidcheck/detail/Configuration.h"
#include "src/detail/StringSerialization.h"
#include "src/detail/ReproduceListener.h"
#include <iostream>
using namespace progs;
using namespace rc::detail;

namespace {

std::string randomName(mon::Rng &r) {
  static const char *parts[] = {"prop", " ", "sum is commutative", "ü", "\"q\"", "'", "=", "\\", "\n", "x", "\t", "$HOME", "%s", "0"};
  std::string s;
  int n = 1 + r.below(5);
  for (int i = 0; i < n; i++) s += parts[r.below(14)];
  if (r.chance(1, 6)) { s.clear(); int m = 1 + r.below(300); for (int i = 0; i < m; i++) s += (char)(1 + r.below(255)); }
  return s;
}

// Round trip as a user would do it: the string printed in RC_PARAMS.
ReproMap throughText(const ReproMap &m, mon::Rng &rng) {
  switch (rng.below(4)) {
  case 0: return stringToReproduceMap(reproduceMapToString(m));
  case 1: { Configuration c; c.reproduce = m; return configFromString(configToString(c)).reproduce; }
  case 2: { Configuration c; c.reproduce = m; return configFromString(configToMinimalString(c)).reproduce; }
  default: return configFromString("reproduce=" + reproduceMapToString(m)).reproduce;
  }
}

struct Found {
  Spec sp;
  TestParams p;
  std::string name;
  FailureResult f;
};

bool findFailure(mon::Rng &rng, Found &out) {
  for (int tries = 0; tries < 30; tries++) {
    out.sp = randomSpec(rng, true);
    out.p = randomParams(rng);
    out.p.maxSuccess = 80;
    out.p.maxSize = rng.chance(1, 6) ? 200 : out.p.maxSize;
    out.p.maxDiscardRatio = 20;
    out.p.disableShrinking = rng.chance(1, 6);
    out.name = randomName(rng);
    Recorder rec;
    TestMetadata m;
    m.id = out.name;
    const auto res = runCheck(make(out.sp), out.p, rec, m);
    if (res.match(out.f)) return true;
  }
  return false;
}

} // namespace

// The size of a case grows with consecutive discards, beyond the maximum size
// the user configured; such a failure replays at that size too.
SECTION("replay-after-discards", 8, 120) {
  const int want = 3 + (int)rng.below(rng.chance(1, 2) ? 40 : 1500);
  TestParams p;
  p.seed = rng.next();
  p.maxSize = (int)rng.below(3);
  p.maxSuccess = 1 + (int)rng.below(5);
  p.maxDiscardRatio = 20000 + 10 * want;
  const auto prop = toProperty([want] {
    const auto at = *gen::withSize([](int s) { return gen::map(gen::inRange(0, 1000), [=](int x) { return std::make_pair(s, x); }); });
    RC_PRE(at.first >= want);
    RC_ASSERT(at.second < 1);
  });
  Recorder rec;
  TestMetadata meta;
  meta.id = "grown";
  const auto res = runCheck(prop, p, rec, meta);
  FailureResult f;
  REQUIRE_(res.match(f), "no-failure-after-discards", "wanted size " << want << ": " << res);
  CHECK(f.reproduce.size >= want, "size-of-the-failing-case", f.reproduce.size << " instead of at least " << want);
  ReproMap m;
  m.emplace("grown", f.reproduce);
  const auto m2 = throughText(m, rng);
  CHECK(m2 == m, "reproduce-text-roundtrip", "size " << f.reproduce.size);
  Recorder rec2;
  TestParams other = randomParams(rng);
  other.disableShrinking = false;
  const auto again = runCheck(prop, other, rec2, meta, m2);
  FailureResult g;
  REQUIRE_(again.match(g), "replay-is-not-a-failure", "size " << f.reproduce.size << "; replay gave " << again);
  CHECK(g.counterExample == f.counterExample && g.description == f.description && g.reproduce == f.reproduce, "replay-data-differs", "size " << f.reproduce.size << "; replay gave " << again);
  mon::count("replays_after_discards");
  if (f.reproduce.size > 1000) mon::count("replays_at_sizes_above_1000");
  mon::distinct(f.reproduce.size * 7919 + want);
}

SECTION("replay-real-failures", 350, 6000) {
  Found x;
  if (!findFailure(rng, x)) return;
  std::ostringstream ctx;
  ctx << describe(x.sp) << " params " << x.p << "; " << TestResult(x.f);
  // Other names in the map do not matter.
  ReproMap m;
  m.emplace(x.name, x.f.reproduce);
  int others = rng.below(4);
  for (int i = 0; i < others; i++) {
    Reproduce r;
    r.random = Random(rng.next());
    r.size = rng.below(100);
    for (int k = rng.below(5); k > 0; k--) r.shrinkPath.push_back(rng.below(1000));
    m.emplace("other" + randomName(rng), r);
  }
  const auto m2 = throughText(m, rng);
  CHECK(m2 == m, "reproduce-text-roundtrip", ctx.str());

  // Values on the path from the failing case to the minimum.
  const auto prop = make(x.sp);
  std::set<std::string> onPath;
  {
    BodyLog bl;
    bodyLog() = &bl;
    auto cur = prop(x.f.reproduce.random, x.f.reproduce.size);
    cur.value();
    for (auto i : x.f.reproduce.shrinkPath) {
      auto s = seq::at(cur.shrinks(), i);
      REQUIRE_(bool(s), "path-not-found-in-tree", ctx.str());
      cur = *s;
      cur.value();
    }
    for (auto &r : bl.runs) onPath.insert(r);
    bodyLog() = nullptr;
  }
  // Every parameter except noshrink is irrelevant when reproducing.
  TestParams p2 = randomParams(rng);
  p2.disableShrinking = false;
  Recorder rec;
  TestMetadata meta;
  meta.id = x.name;
  meta.description = "whatever";
  BodyLog bl;
  bodyLog() = &bl;
  const auto res = runCheck(prop, p2, rec, meta, m2);
  bodyLog() = nullptr;
  FailureResult g;
  REQUIRE_(res.match(g), "replay-is-not-a-failure", ctx.str() << " ; replay gave " << res);
  CHECK(g.counterExample == x.f.counterExample, "replay-counterexample-differs", ctx.str() << " ; replay gave " << res);
  CHECK(g.description == x.f.description, "replay-description-differs", ctx.str() << " ; replay gave " << res);
  CHECK(g.reproduce == x.f.reproduce, "replay-data-differs", ctx.str() << " ; replay gave " << res);
  CHECK(g.numSuccess == 0, "replay-count-nonzero", ctx.str());
  size_t ev = 0;
  for (auto &e : rec.ev) ev += e.kind != 'F';
  CHECK(ev == 0, "replay-searched-or-shrunk", ctx.str());
  for (auto &r : bl.runs)
    CHECK(onPath.count(r), "replay-ran-another-case", ctx.str() << " ; ran " << r);
  if (!bl.runs.empty() && !x.p.disableShrinking)
    // (a message thrown as an exception ends at the first NUL)
    CHECK(x.f.description.find(bl.runs.back().c_str()) != std::string::npos, "replay-last-run-not-minimal", ctx.str() << " ; ran " << bl.runs.back());
  mon::count("failures_replayed");
  mon::count("shrink_path_steps", x.f.reproduce.shrinkPath.size());
  if (!x.f.reproduce.shrinkPath.empty()) mon::count("replays_with_nonempty_path");

  // noshrink: the unshrunk failing case.
  p2.disableShrinking = true;
  const auto res2 = runCheck(prop, p2, rec, meta, m2);
  auto root = prop(x.f.reproduce.random, x.f.reproduce.size).value();
  REQUIRE_(res2.match(g), "noshrink-replay-not-a-failure", ctx.str() << " ; " << res2);
  CHECK(g.description == root.result.description && g.counterExample == root.example() && g.reproduce.shrinkPath.empty(),
        "noshrink-replay-differs", ctx.str() << " ; " << res2);

  // A property not named is skipped.
  for (const std::string &nm : {std::string(), x.name + "x", std::string("nope"), x.name.substr(1)}) {
    if (m2.count(nm) && !nm.empty()) continue;
    TestMetadata mm;
    mm.id = nm;
    BodyLog b2;
    bodyLog() = &b2;
    TestParams p3 = p2;
    const auto r3 = runCheck(prop, p3, rec, mm, m2);
    bodyLog() = nullptr;
    SuccessResult ok;
    CHECK(r3.match(ok) && ok.numSuccess == 0 && b2.runs.empty(), "unnamed-property-not-skipped", "name '" << nm << "' gave " << r3);
    mon::count("properties_skipped");
  }

  // Paths that do not exist, or do not fail any more, are errors.
  p2.disableShrinking = false;
  {
    auto bad = m2;
    auto &path = bad[x.name].shrinkPath;
    const auto pos = rng.below(path.size() + 1);
    path.resize(pos);
    auto at = shrinkable::walkPath(prop(x.f.reproduce.random, x.f.reproduce.size), path);
    size_t n = 0;
    auto q = at->shrinks();
    while (n < 5000 && q.next()) n++;
    if (n < 5000) {
      path.push_back(n + rng.below(4) * 1000000000ULL);
      const auto r4 = runCheck(prop, p2, rec, meta, bad);
      Error e;
      CHECK(r4.match(e), "nonexistent-path-not-an-error", ctx.str() << " ; gave " << r4);
      mon::count("bad_paths_rejected");
    }
  }
  {
    Spec fixed = x.sp;
    fixed.failMode = 2;
    fixed.failMod = 1000000;
    const auto r5 = runCheck(make(fixed), p2, rec, meta, m2);
    Error e;
    CHECK(r5.match(e), "no-longer-failing-not-an-error", ctx.str() << " ; gave " << r5);
    mon::count("fixed_properties_detected");
  }
  mon::distinctStr(x.f.description + toString(x.f.reproduce.shrinkPath));
  mon::sample(ctx.str());
}

SECTION("reproduce-listener", 250, 4000) {
  // The printed hint names exactly the named properties that failed.
  std::ostringstream os;
  ReproMap want;
  {
    ReproduceListener l(os);
    int n = rng.chance(1, 10) ? 400 : rng.below(8);
    for (int i = 0; i < n; i++) {
      TestMetadata m;
      m.id = rng.chance(1, 5) ? "" : randomName(rng);
      m.description = "d";
      switch (rng.below(4)) {
      case 0: { SuccessResult s; s.numSuccess = 3; l.onTestFinished(m, s); break; }
      case 1: { GaveUpResult s; s.numSuccess = 3; l.onTestFinished(m, s); break; }
      default: {
        FailureResult f;
        f.numSuccess = 1;
        f.reproduce.random = Random(rng.next());
        for (int k = rng.below(80); k > 0; k--) { auto o = f.reproduce.random.split(); if (rng.chance(1, 2)) f.reproduce.random = o; }
        f.reproduce.size = rng.chance(1, 10) ? INT32_MAX : (int)rng.below(1000);
        for (int k = rng.below(30); k > 0; k--) f.reproduce.shrinkPath.push_back(rng.chance(1, 9) ? rng.next() : rng.below(300));
        l.onTestFinished(m, f);
        if (!m.id.empty()) want.emplace(m.id, f.reproduce);
      }
      }
    }
  }
  const auto text = os.str();
  if (want.empty()) {
    CHECK(text.empty(), "hint-without-failures", text);
    return;
  }
  const std::string mark = "RC_PARAMS=\"";
  const auto a = text.find(mark);
  REQUIRE_(a != std::string::npos, "hint-missing", text);
  const auto b = text.find('"', a + mark.size());
  REQUIRE_(b != std::string::npos, "hint-malformed", text);
  const auto params = text.substr(a + mark.size(), b - a - mark.size());
  for (char c : params)
    CHECK(c > 32 && c < 127 && c != '$' && c != '`' && c != '\\', "hint-not-shell-safe", params);
  CHECK(configFromString(params).reproduce == want, "hint-does-not-parse-back", text);
  mon::count("hints_parsed_back");
  mon::distinctStr(params);
}

// -- end to end, with real processes and environment ------------------------

namespace {

struct E2E {
  std::vector<Spec> specs;
  std::vector<std::string> names;
};
E2E e2eFor(uint64_t seed) {
  mon::Rng r(mon::mix64(seed));
  E2E e;
  for (int i = 0; i < 5; i++) {
    Spec s = randomSpec(r, r.chance(2, 3));
    s.discardPm = std::min(s.discardPm, 300u);
    e.specs.push_back(s);
    static const char *sfx[] = {"", " plus", " 'q'", " ü=1"};
    e.names.push_back("property " + std::to_string(i) + sfx[r.below(4)]);
  }
  return e;
}

int childMain(const std::vector<std::string> &args) {
  auto e = e2eFor(std::strtoull(args.at(0).c_str(), nullptr, 10));
  for (size_t i = 0; i < e.specs.size(); i++) {
    BodyLog bl;
    bodyLog() = &bl;
    std::ostringstream cap;
    auto old = std::cerr.rdbuf(cap.rdbuf());
    // rc::check with a Property-typed testable goes through checkProperty
    TestMetadata m;
    m.id = m.description = e.names[i];
    const auto res = checkProperty(make(e.specs[i]), m);
    std::cerr.rdbuf(old);
    std::cout << "@@" << i << " runs=" << bl.runs.size() << "\n";
    printResultMessage(res, std::cout);
    std::cout << "\n@@end " << i << "\n";
  }
  return 0;
}
struct InstallChild {
  InstallChild() { mon::childHook() = &childMain; }
} installChild;

std::vector<std::pair<long, std::string>> parseOut(const std::string &o) {
  std::vector<std::pair<long, std::string>> v;
  for (int i = 0;; i++) {
    const std::string h = "@@" + std::to_string(i) + " runs=", t = "\n@@end " + std::to_string(i) + "\n";
    auto a = o.find(h), b = o.find(t);
    if (a == std::string::npos || b == std::string::npos) return v;
    auto nl = o.find('\n', a);
    v.push_back({std::atol(o.c_str() + a + h.size()), o.substr(nl + 1, b - nl - 1)});
  }
}

std::string afterFirstLine(const std::string &s) {
  auto p = s.find('\n');
  return p == std::string::npos ? "" : s.substr(p);
}

} // namespace

SECTION("end-to-end", 16, 160) {
  const uint64_t seed = rng.next();
  auto e = e2eFor(seed);
  std::string out, err;
  const std::string sd = std::to_string(rng.next());
  const std::string run = "\"$EXE\" --child " + std::to_string(seed);
  int rc = mon::runShell("RC_PARAMS=\"seed=" + sd + " max_success=60 max_size=50\" " + run, out, err);
  REQUIRE_(rc == 0, "child-crashed", err.substr(0, 1500));
  auto first = parseOut(out);
  REQUIRE_(first.size() == e.specs.size(), "child-output-incomplete", out.substr(0, 500));
  const std::string mark = "RC_PARAMS=\"reproduce=";
  auto a = err.find(mark);
  bool anyFail = false;
  for (auto &f : first) anyFail |= f.second.compare(0, 11, "Falsifiable") == 0;
  CHECK(anyFail == (a != std::string::npos), "hint-iff-failure", err.substr(0, 800));
  if (!anyFail) return;
  REQUIRE_(a != std::string::npos, "hint-missing", err);
  auto b = err.find('"', a + mark.size());
  const std::string hint = err.substr(a, b + 1 - a); // exactly the text a user would paste
  std::string out2, err2;
  rc = mon::runShell(hint + " " + run, out2, err2);
  REQUIRE_(rc == 0, "replay-child-crashed", err2.substr(0, 1500));
  auto second = parseOut(out2);
  REQUIRE_(second.size() == first.size(), "replay-output-incomplete", out2.substr(0, 500));
  for (size_t i = 0; i < first.size(); i++) {
    const bool failed = first[i].second.compare(0, 11, "Falsifiable") == 0;
    if (failed) {
      CHECK(second[i].second.compare(0, 11, "Falsifiable") == 0, "e2e-replay-not-failing",
            describe(e.specs[i]) << "\nfirst:\n" << first[i].second << "\nreplay:\n" << second[i].second);
      CHECK(afterFirstLine(first[i].second) == afterFirstLine(second[i].second), "e2e-replay-differs",
            describe(e.specs[i]) << "\nfirst:\n" << first[i].second << "\nreplay:\n" << second[i].second);
      mon::count("e2e_failures_replayed");
    } else {
      CHECK(second[i].first == 0 && second[i].second.compare(0, 18, "OK, passed 0 tests") == 0, "e2e-other-property-ran",
            e.names[i] << " ran " << second[i].first << " times: " << second[i].second);
    }
  }
  mon::distinctStr(hint);
  mon::sample(hint);
}
