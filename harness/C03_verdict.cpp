// C03: verdicts and test counts are truthful.
#include "progs.hpp"
#include "src/detail/MulticastTestListener.h"
#include <climits>
using namespace progs;
using namespace rc::detail;

namespace {

struct Script {
  std::vector<int> types; // outcome of case i; last repeats
  std::vector<std::pair<Random, int>> gens;
  int evaluations = 0;
};

// A property whose i-th generated case has a scripted outcome.
Property scripted(std::shared_ptr<Script> s, bool shrinks) {
  return Gen<CaseDescription>([=](const Random &r, int size) {
    const int i = (int)s->gens.size();
    s->gens.push_back({r, size});
    const auto type = (CaseResult::Type)s->types[std::min<size_t>(i, s->types.size() - 1)];
    auto mk = [=](int depth) {
      CaseDescription d;
      d.result = CaseResult(type, "case " + std::to_string(i) + " depth " + std::to_string(depth));
      if (type == CaseResult::Type::Success && i % 2)
        d.tags = {"t" + std::to_string(i % 3)};
      d.example = [=] { return Example{{"i", std::to_string(i)}, {"depth", std::to_string(depth)}}; };
      return d;
    };
    if (!shrinks)
      return shrinkable::just(mk(0));
    return shrinkable::map(
        shrinkable::shrinkRecur(0, [](int d) { return d < 3 ? seq::just(d + 1) : Seq<int>(); }),
        [=](int d) { return mk(d); });
  });
}

struct Want {
  char verdict; // 'S', 'F', 'G'
  int succ = 0, disc = 0, cases = 0;
};

Want model(const std::vector<int> &types, const TestParams &p) {
  Want w;
  w.verdict = 'S';
  const int64_t lim = (int64_t)p.maxDiscardRatio * p.maxSuccess;
  while (w.succ < p.maxSuccess) {
    int t = types[std::min<size_t>(w.cases, types.size() - 1)];
    w.cases++;
    if (t == (int)CaseResult::Type::Failure) {
      w.verdict = 'F';
      break;
    } else if (t == (int)CaseResult::Type::Discard) {
      if (++w.disc > lim) {
        w.verdict = 'G';
        break;
      }
    } else
      w.succ++;
  }
  return w;
}

} // namespace

SECTION("scripted-outcomes", 2500, 40000) {
  auto s = std::make_shared<Script>();
  TestParams p = randomParams(rng);
  const int S = (int)CaseResult::Type::Success, F = (int)CaseResult::Type::Failure, D = (int)CaseResult::Type::Discard;
  // Outcome scripts: mixtures, bursts of discards around the limit, late failures.
  const int64_t lim = (int64_t)p.maxDiscardRatio * p.maxSuccess;
  const int mode = rng.below(6);
  int n = 1 + rng.below(200);
  for (int i = 0; i < n; i++) {
    int t = S;
    if (mode == 0) t = rng.chance(1, 3) ? D : S;
    if (mode == 1) t = rng.chance(9, 10) ? D : S;
    if (mode == 2) t = rng.chance(1, 40) ? F : rng.chance(1, 2) ? D : S;
    if (mode == 3) t = rng.chance(1, 60) ? F : S;
    s->types.push_back(t);
  }
  if (mode == 4 && lim < 3000) { // exactly around the discard limit, discards placed anywhere
    s->types.clear();
    int64_t nd = std::max<int64_t>(0, lim - 1 + rng.below(3));
    int ns = std::max(0, p.maxSuccess - 1);
    while (nd > 0 || ns > 0) {
      if (ns > 0 && (nd == 0 || rng.chance(ns, ns + nd))) { s->types.push_back(S); ns--; }
      else { s->types.push_back(D); nd--; }
    }
    s->types.push_back(rng.chance(1, 2) ? S : rng.chance(1, 2) ? D : F);
  }
  if (mode == 5) { // failure exactly at the last case, or one after
    s->types.assign(std::max(0, p.maxSuccess - (int)rng.below(2)), S);
    s->types.push_back(F);
  }
  if (rng.chance(1, 20)) { // long runs of discards, at and around the limit
    p.maxSuccess = 1 + (int)rng.below(rng.chance(1, 2) ? 8 : 3000);
    p.maxDiscardRatio = 1 + (int)rng.below(std::max(2, 6000 / p.maxSuccess));
    s->types.clear();
    int64_t nd = (int64_t)p.maxDiscardRatio * p.maxSuccess - 1 + (int64_t)rng.below(3);
    int ns = p.maxSuccess - 1;
    const int64_t burst = 1 + (int64_t)rng.below(nd + 1);
    while (nd > 0 || ns > 0) {
      for (int64_t b = std::min(nd, burst); b > 0; b--, nd--) s->types.push_back(D);
      for (int b = std::min(ns, 1 + (int)rng.below(9)); b > 0; b--, ns--) s->types.push_back(S);
    }
    s->types.push_back(rng.chance(1, 2) ? S : rng.chance(1, 2) ? D : F);
    if (burst > 500) mon::count("long_discard_bursts");
  }
  const int64_t lim2 = (int64_t)p.maxDiscardRatio * p.maxSuccess;
  if (s->types.back() == D && lim2 > 100000)
    s->types.push_back(S);
  const auto want = model(s->types, p);
  Recorder rec, second;
  std::vector<std::unique_ptr<TestListener>> ls;
  const bool multi = rng.chance(1, 3);
  struct Fwd : TestListener {
    TestListener &l;
    Fwd(TestListener &x) : l(x) {}
    void onTestCaseFinished(const CaseDescription &d) override { l.onTestCaseFinished(d); }
    void onShrinkTried(const CaseDescription &d, bool a) override { l.onShrinkTried(d, a); }
    void onTestFinished(const TestMetadata &m, const TestResult &r) override { l.onTestFinished(m, r); }
  };
  TestMetadata meta;
  meta.id = "prop" + std::to_string(rng.below(1000));
  meta.description = "descr";
  TestResult res = SuccessResult();
  const bool shr = rng.chance(1, 2);
  if (multi) {
    std::vector<std::unique_ptr<TestListener>> v;
    v.emplace_back(new Fwd(rec));
    v.emplace_back(new Fwd(second));
    MulticastTestListener m(std::move(v));
    res = runCheck(scripted(s, shr), p, m, meta);
    CHECK(rec.ev == second.ev, "multicast-listeners-differ", "two listeners saw different events");
  } else
    res = runCheck(scripted(s, shr), p, rec, meta);

  std::ostringstream ctx;
  ctx << "max_success=" << p.maxSuccess << " ratio=" << p.maxDiscardRatio << " script[" << s->types.size() << "] mode "
      << mode << "; got " << res << "; expected " << want.verdict << " succ=" << want.succ << " disc=" << want.disc;
  int cases = 0, shrinks = 0, fin = 0;
  bool order = true;
  for (auto &e : rec.ev) {
    if (e.kind == 'C') {
      order &= shrinks == 0 && fin == 0;
      const int t = s->types[std::min<size_t>(cases, s->types.size() - 1)];
      CHECK(e.type == t && e.desc == "case " + std::to_string(cases) + " depth 0", "case-event-wrong",
            ctx.str() << " event " << cases << " = " << e.desc);
      cases++;
    } else if (e.kind == 'F') {
      fin++;
    } else {
      order &= fin == 0;
      shrinks++;
    }
  }
  CHECK(order, "listener-events-out-of-order", ctx.str());
  CHECK(fin == 1 && rec.finished[0] == res && rec.finishedMeta[0] == meta, "finished-event-wrong", ctx.str());
  CHECK(cases == want.cases && (int)s->gens.size() == want.cases, "wrong-number-of-cases",
        ctx.str() << "; events " << cases << " generated " << s->gens.size() << " expected " << want.cases);
  CHECK(want.verdict == 'F' || shrinks == 0, "shrinks-without-failure", ctx.str());
  SuccessResult ok;
  FailureResult bad;
  GaveUpResult gave;
  if (want.verdict == 'S') {
    CHECK(res.match(ok) && ok.numSuccess == want.succ && ok.numSuccess == p.maxSuccess, "expected-success", ctx.str());
  } else if (want.verdict == 'F') {
    CHECK(res.match(bad) && bad.numSuccess == want.succ, "expected-failure", ctx.str());
    CHECK(p.disableShrinking == (shrinks == 0) || !shr, "noshrink-not-respected", ctx.str());
    const std::string depth = shr && !p.disableShrinking ? "3" : "0";
    CHECK(bad.description == "case " + std::to_string(cases - 1) + " depth " + depth, "failure-not-of-failing-case", ctx.str());
    CHECK((bad.counterExample == Example{{"i", std::to_string(cases - 1)}, {"depth", depth}}), "counterexample-wrong", ctx.str());
    CHECK(!s->gens.empty() && bad.reproduce.random == s->gens.back().first && bad.reproduce.size == s->gens.back().second,
          "reproduce-not-of-failing-case", ctx.str());
  } else {
    CHECK(res.match(gave) && gave.numSuccess == want.succ, "expected-gave-up", ctx.str());
    CHECK(gave.description == "case " + std::to_string(cases - 1) + " depth 0", "gave-up-description-wrong", ctx.str());
  }
  for (size_t i = 0; i < s->gens.size(); i++)
    for (size_t j = i + 1; j < std::min(s->gens.size(), i + 20); j++)
      CHECK(!(s->gens[i].first == s->gens[j].first), "random-state-reused", ctx.str());
  mon::count(std::string("verdict_") .append(1, want.verdict).c_str());
  mon::count("cases_executed", cases);
  std::string sig(1, want.verdict);
  for (int t : s->types) sig += char('0' + t);
  mon::distinctStr(sig + "/" + std::to_string(p.maxSuccess) + "/" + std::to_string(p.maxDiscardRatio));
  mon::sample(ctx.str());
}

SECTION("extreme-parameters", 300, 3000) {
  // Products of parameters beyond 32 bits must not change the verdict.
  auto s = std::make_shared<Script>();
  const int S = (int)CaseResult::Type::Success, F = (int)CaseResult::Type::Failure, D = (int)CaseResult::Type::Discard;
  TestParams p;
  p.seed = rng.next();
  static const int big[] = {INT_MAX, INT_MAX - 1, 1 << 30, 1 << 24, 1000000007, 65536, 46341, 92682};
  p.maxSuccess = rng.chance(1, 2) ? 1 + rng.below(300) : 2 + rng.below(5000);
  p.maxDiscardRatio = big[rng.below(8)];
  p.maxSize = rng.chance(1, 2) ? 100 : (int)rng.below(1000);
  int n = rng.below(400);
  for (int i = 0; i < n; i++)
    s->types.push_back(rng.chance(1, 2) ? D : S);
  s->types.push_back(rng.chance(1, 4) ? F : S);
  const auto want = model(s->types, p);
  Recorder rec;
  const auto res = runCheck(scripted(s, false), p, rec);
  std::ostringstream ctx;
  ctx << "max_success=" << p.maxSuccess << " ratio=" << p.maxDiscardRatio << "; got " << res;
  SuccessResult ok;
  FailureResult bad;
  if (want.verdict == 'S') {
    CHECK(res.match(ok) && ok.numSuccess == want.succ, "extreme-expected-success", ctx.str());
  } else
    CHECK(res.match(bad) && bad.numSuccess == want.succ, "extreme-expected-failure", ctx.str());
  CHECK((int)s->gens.size() == want.cases, "extreme-wrong-number-of-cases", ctx.str());
  mon::count("extreme_runs");
  mon::distinct(mon::comb(p.maxDiscardRatio, mon::comb(p.maxSuccess, n)));
}

SECTION("real-properties", 260, 4000) {
  // Full stack: the body's own execution log against the listener's events.
  const Spec sp = randomSpec(rng, rng.chance(2, 3));
  TestParams p = randomParams(rng);
  BodyLog bl;
  bodyLog() = &bl;
  Recorder rec;
  const auto res = runCheck(make(sp), p, rec);
  bodyLog() = nullptr;
  std::ostringstream ctx;
  ctx << describe(sp) << " params " << p << "; " << showResult(res).substr(0, 300);
  int succ = 0, disc = 0, fail = 0, cases = 0;
  std::vector<std::string> evSig;
  for (auto &e : rec.ev) {
    if (e.kind == 'C') {
      cases++;
      if (e.type == (int)CaseResult::Type::Success) succ++;
      else if (e.type == (int)CaseResult::Type::Discard) disc++;
      else fail++;
      CHECK(fail == 0 || &e == &rec.ev[cases - 1], "case-after-failure", ctx.str());
    }
  }
  SuccessResult ok;
  FailureResult bad;
  GaveUpResult gave;
  const int64_t lim = (int64_t)p.maxDiscardRatio * p.maxSuccess;
  if (res.match(ok)) {
    CHECK(fail == 0 && succ == p.maxSuccess && ok.numSuccess == succ && disc <= lim, "false-success", ctx.str());
    mon::count("verdict_S");
  } else if (res.match(bad)) {
    CHECK(fail == 1 && bad.numSuccess == succ && succ < p.maxSuccess, "false-failure", ctx.str());
    CHECK(bad.description.find(sp.failMode == 4 ? "boom " : "failed ") != std::string::npos, "failure-text-missing", ctx.str());
    mon::count("verdict_F");
  } else if (res.match(gave)) {
    CHECK(fail == 0 && disc == lim + 1 && gave.numSuccess == succ, "false-give-up", ctx.str());
    mon::count("verdict_G");
  } else
    CHECK(false, "error-result", ctx.str());
  // What the body saw, in order: cases, shrinks tried, final minimal case.
  size_t li = 0;
  std::string last;
  bool match = true;
  for (auto &e : rec.ev) {
    if (e.kind == 'F')
      continue;
    const auto pos = e.desc.find("failed ");
    const auto pos2 = e.desc.find("boom ");
    const auto pos3 = e.desc.find("discarded ");
    std::string v;
    if (e.type == (int)CaseResult::Type::Failure && pos != std::string::npos)
      v = e.desc.substr(pos + 7, e.desc.find("\n\nLog:\n") - pos - 7);
    else if (pos2 != std::string::npos && e.type == (int)CaseResult::Type::Failure)
      v = e.desc.substr(pos2 + 5);
    else if (pos3 != std::string::npos)
      v = e.desc.substr(pos3 + 10);
    else if (e.type == (int)CaseResult::Type::Success) {
      li++;
      continue;
    } else
      continue; // generation failed before the body could log
    bool found = false;
    // (shrinks of a body that picks may execute it more often)
    for (size_t k = li; k < bl.runs.size(); k++)
      if (v.find(bl.runs[k]) != std::string::npos || bl.runs[k].find(v) != std::string::npos) {
        li = k + 1;
        found = true;
        break;
      }
    match &= found;
    mon::count("executions_matched_with_events");
  }
  CHECK(match, "listener-disagrees-with-executions", ctx.str());
  mon::distinctStr(ctx.str());
}

SECTION("rc-check-return", 150, 2000) {
  // The public entry point: return value and printed verdict, global parameters.
  const Spec sp = randomSpec(rng, rng.chance(1, 2));
  std::ostringstream cap;
  auto old = std::cerr.rdbuf(cap.rdbuf());
  int runs = 0, passed = 0, failed = 0, discarded = 0;
  const int kind = rng.below(4);
  const int at = rng.below(120);
  auto body = [&](unsigned) {
    runs++;
    if (kind == 1 && runs > at) { failed++; RC_FAIL("nope"); }
    if (kind == 2 && (runs > at)) { discarded++; RC_DISCARD("skip"); }
    if (kind == 3 && runs > at) { failed++; throw 17; }
    passed++;
  };
  const bool named = rng.chance(1, 2);
  bool ret = named ? rc::check("some name", body) : rc::check(body);
  std::cerr.rdbuf(old);
  const auto text = cap.str();
  const std::string ctx = "kind " + std::to_string(kind) + " at " + std::to_string(at) + ": " + text.substr(0, 300);
  const bool expectPass = kind == 0 || at >= 100;
  CHECK(ret == expectPass, "check-return-wrong", ctx);
  CHECK((text.find("OK, passed 100 tests") != std::string::npos) == expectPass, "printed-verdict-wrong", ctx);
  if ((kind == 1 || kind == 3) && !expectPass)
    CHECK(text.find("Falsifiable after " + std::to_string(at + 1) + " tests") != std::string::npos, "printed-count-wrong", ctx);
  if (kind == 2 && !expectPass)
    CHECK(text.find("Gave up after " + std::to_string(at) + " tests") != std::string::npos && discarded >= 1001 &&
              discarded <= 1003, // the last one may be run again for its description
          "gave-up-count-wrong", ctx << " discarded " << discarded);
  if (expectPass)
    CHECK(passed == 100 && runs == 100, "max-success-not-run", ctx << " runs " << runs);
  if (named)
    CHECK(text.find("- some name") != std::string::npos, "description-not-printed", ctx);
  mon::count("public_checks");
  mon::distinct(kind * 1000 + at);
}
