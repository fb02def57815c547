// C17: stateful execution follows the model step by step.
#include "machine.hpp"
#include "tree.hpp"
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/TestListener.h"
using namespace rc;
using namespace machine;
using mon::Rng;
using rc::detail::CaseResult;

namespace {
template <typename Model> using Cmds = state::Commands<state::Command<Model, Sut>>;
std::string show(const std::vector<Cm> &l) {
  std::string s;
  for (auto &c : l) s += text(c) + " ";
  return s;
}
std::string ev(const char *what, const Cm &c, const Core &s) { return std::string(what) + " " + text(c) + " " + std::to_string(s.hash()) + " " + std::to_string(s.steps); }
std::string joined(const std::vector<std::string> &v) {
  std::string s;
  for (auto &x : v) s += x + "; ";
  return s;
}
struct Quiet : rc::detail::TestListener {
  void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
  void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
  void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
};

template <typename Model> void scripted(Rng &rng, int mode) {
  Spec sp = randomSpec(rng);
  const Core s0 = randomCore(rng);
  std::vector<Cm> l;
  Cmds<Model> cmds;
  Core s = s0;
  for (int n = (int)rng.below(12); n > 0; n--) {
    Cm c;
    for (int t = (int)rng.below(12); t >= 0; t--) {
      c.kind = (int)rng.below(kKinds);
      c.arg = (int)rng.below(12);
      if (allowed(sp, c.kind, c.arg, s)) break;
    }
    if (!allowed(sp, c.kind, c.arg, s)) { if (rng.chance(1, 2)) break; l.push_back(c); cmds.push_back(std::make_shared<Cmd<Model>>(c, sp)); break; }
    perform(c.kind, c.arg, s);
    l.push_back(c);
    cmds.push_back(std::make_shared<Cmd<Model>>(c, sp));
  }
  // commands after one that is not allowed must never be touched
  for (int n = (int)rng.below(3); n > 0 && rng.chance(1, 3); n--) {
    Cm c;
    c.kind = (int)rng.below(kKinds);
    c.arg = (int)rng.below(12);
    l.push_back(c);
    cmds.push_back(std::make_shared<Cmd<Model>>(c, sp));
  }
  const int failAt = rng.chance(1, 3) ? (int)rng.below(l.size() + 1) : -1;
  const int how = (int)rng.below(4); // failing, throwing, deviating in state, discarding from run
  // what must happen
  std::vector<std::string> want;
  int outcome = 0; // 0 passes 1 fails 2 discards 3 other exception
  Core m = s0;
  for (size_t i = 0; i < l.size(); i++) {
    want.push_back(ev("pre", l[i], m));
    if (!allowed(sp, l[i].kind, l[i].arg, m)) { outcome = 2; break; }
    want.push_back(ev("run", l[i], m));
    if ((int)i == failAt) { outcome = how == 3 ? 2 : how == 1 ? 3 : 1; break; }
    want.push_back(ev("apply", l[i], m));
    perform(l[i].kind, l[i].arg, m);
  }
  Sut sut;
  sut.c = s0;
  int at = 0;
  sut.deviate = [&](const Cm &c, const Core &, Core &sys) -> std::string {
    const bool now = at++ == failAt;
    if (now && how == 1) throw std::runtime_error("broken");
    if (now && how == 3) RC_DISCARD("not now");
    perform(c.kind, c.arg, sys);
    if (now && how == 2) sys.v += 1000;
    return now && how == 0 ? "deviates" : "";
  };
  Log lg;
  log() = &lg;
  int made = 0, got = 0;
  try {
    if (mode == 0) {
      auto mk = [&] { made++; Model x; machine::make(s0, x); return x; };
      state::runAll(cmds, mk, sut);
    } else {
      // (by value: only for copyable models)
      made = 1;
      Model x;
      machine::make(s0, x);
      state::runAll(cmds, [&] { Model y; machine::make(core(x), y); return y; }, sut);
    }
  } catch (const CaseResult &r) {
    got = r.type == CaseResult::Type::Failure ? 1 : r.type == CaseResult::Type::Discard ? 2 : 4;
  } catch (const std::runtime_error &) {
    got = 3;
  }
  log() = nullptr;
  CHECK(lg.ev == want, "steps", "running " << show(l) << "did " << joined(lg.ev) << " instead of " << joined(want));
  CHECK(got == outcome, "outcome", "running " << show(l) << "ended " << got << " instead of " << outcome);
  CHECK(made == 1, "initial-states", made << " initial states made");
  mon::count("steps_checked", want.size());
  mon::count(outcome == 0 ? "passing_runs" : outcome == 1 ? "failing_runs" : outcome == 2 ? "discarded_runs" : "throwing_runs");
  mon::distinctStr(show(l) + std::to_string(failAt * 4 + how));
}

// A bug of the system: what makes it deviate.
struct Bug {
  int kind;   // command after which it shows
  int cond;
  uint64_t h;
  std::string operator()(const Cm &c, const Core &before, Core &sys) const {
    const bool hit = bad(c, before);
    perform(c.kind, c.arg, sys);
    if (hit && h % 2) { sys.v += 100; return ""; }
    return hit ? "system deviates" : "";
  }
  bool bad(const Cm &c, const Core &b) const {
    if (c.kind != kind) return false;
    switch (cond) {
    case 0: return c.arg > 5;
    case 1: return b.stack.size() >= 2;
    case 2: return b.v > 4;
    case 3: return b.open.size() >= 2;
    case 4: return b.steps >= 3;
    default: return !b.stack.empty() && b.stack.back() > 6;
    }
  }
};

template <typename Model> void whole(Rng &rng, bool buggy) {
  Spec sp = randomSpec(rng);
  sp.stuck = 0;
  const Core s0 = rng.chance(1, 2) ? Core() : randomCore(rng);
  const Bug bug{(int)rng.below(kKinds), (int)rng.below(6), rng.next()};
  rc::detail::TestParams prm;
  prm.seed = rng.next();
  prm.maxSuccess = buggy ? 100 : 40;
  prm.maxSize = 1 + (int)rng.below(30);
  struct Run { std::vector<Cm> ran; int failed = -1; bool finished = false; };
  auto runs = std::make_shared<std::vector<Run>>();
  auto cases = std::make_shared<uint64_t>(0);
  auto body = [=] {
    ++*cases;
    runs->emplace_back();
    Sut sut;
    sut.c = s0;
    sut.deviate = [=](const Cm &c, const Core &before, Core &sys) -> std::string {
      auto &r = runs->back();
      r.ran.push_back(c);
      if (!buggy) { perform(c.kind, c.arg, sys); return ""; }
      if (bug.bad(c, before)) r.failed = (int)r.ran.size() - 1;
      return bug(c, before, sys);
    };
    auto mk = [=] { Model x; machine::make(s0, x); return x; };
    state::check(mk, sut, GenFunc<Model>{sp});
    runs->back().finished = true;
  };
  Quiet quiet;
  const auto res = rc::detail::checkProperty(rc::detail::toProperty(body), rc::detail::TestMetadata(), prm, quiet, {});
  mon::count("whole_checks");
  for (auto &r : *runs) {
    CHECK(r.failed < 0 || (size_t)r.failed + 1 == r.ran.size(), "ran-after-failure", "ran " << show(r.ran) << "although command " << r.failed << " failed");
    CHECK((r.failed < 0) == r.finished, "finished", "run of " << show(r.ran) << (r.finished ? "finished" : "did not finish"));
    mon::count("runs_monitored");
  }
  rc::detail::SuccessResult ok;
  rc::detail::GaveUpResult gu;
  rc::detail::FailureResult f;
  bool anyBad = false;
  for (auto &r : *runs) anyBad = anyBad || r.failed >= 0;
  if (res.match(f)) {
    mon::count("deviations_found");
    CHECK(buggy && anyBad, "false-alarm", describe(sp) << ": a conforming system failed: " << f.description);
    REQUIRE_(f.counterExample.size() == 1, "counterexample", f.counterExample.size() << " items");
    // The reported sequence ends with the command whose run failed.
    std::vector<std::string> lines;
    std::istringstream is(f.counterExample[0].second);
    for (std::string ln; std::getline(is, ln);) if (!ln.empty()) lines.push_back(ln);
    const Run *match = nullptr;
    for (auto &r : *runs) {
      if (r.failed < 0 || r.ran.size() != lines.size()) continue;
      bool same = true;
      for (size_t i = 0; i < lines.size(); i++) same = same && text(r.ran[i]) == lines[i];
      if (same) match = &r;
    }
    CHECK(match != nullptr, "counterexample-run", describe(sp) << ": reports " << f.counterExample[0].second << " which no failing run ended with");
    if (lines.size() > 1) mon::count("counterexamples_of_several_commands");
    mon::distinctStr(f.counterExample[0].second);
    mon::sample(f.counterExample[0].second);
  } else if (res.match(ok) || res.match(gu)) {
    CHECK(!anyBad, "missed-deviation", describe(sp) << ": a deviation was observed but the check says " << res);
    mon::count(buggy ? "bugs_not_reached" : "conforming_systems");
  } else {
    CHECK(false, "error-result", res);
  }
}
} // namespace

SECTION("run-copyable", 12000, 100000) { scripted<Core>(rng, (int)rng.below(2)); }
SECTION("run-uncopyable", 3000, 20000) { scripted<Uncopyable>(rng, (int)rng.below(2)); }
SECTION("run-by-value", 500, 8000) {
  Spec sp;
  Core s0 = randomCore(rng);
  Cmds<Core> cmds;
  Core m = s0;
  std::vector<std::string> want;
  for (int n = (int)rng.below(8); n > 0; n--) {
    Cm c;
    c.kind = 1 + 2 * (int)rng.below(2);
    c.arg = (int)rng.below(3);
    if (!allowed(sp, c.kind, c.arg, m)) break;
    want.push_back(ev("pre", c, m));
    want.push_back(ev("run", c, m));
    want.push_back(ev("apply", c, m));
    perform(c.kind, c.arg, m);
    cmds.push_back(std::make_shared<Cmd<Core>>(c, sp));
  }
  const Core before = s0;
  for (int round = 0; round < 2; round++) { // the given state is only a template
    Sut sut;
    sut.c = s0;
    Log lg;
    log() = &lg;
    state::runAll(cmds, s0, sut);
    log() = nullptr;
    CHECK(lg.ev == want, "steps", joined(lg.ev) << " instead of " << joined(want));
    CHECK(sut.c == m && s0 == before, "by-value", "the system or the given state ended in another state");
  }
  mon::count("passing_runs");
  mon::distinct(rng.next());
}
SECTION("deviating", 1200, 10000) { whole<Core>(rng, true); }
SECTION("deviating-uncopyable", 400, 3000) { whole<Uncopyable>(rng, true); }
SECTION("conforming", 300, 3000) { rng.chance(1, 2) ? whole<Core>(rng, false) : whole<Uncopyable>(rng, false); }

// What preconditions, run or apply throw ends the run there and reaches the caller.
namespace {
struct ThrowModel { int v = 0; };
struct ThrowSut { std::vector<std::string> ev; };
struct Odd { int x; };
struct ThrowCmd : state::Command<ThrowModel, ThrowSut> {
  int id, where, how;
  std::vector<std::string> *ev;
  ThrowCmd(int i, int w, int h, std::vector<std::string> *e) : id(i), where(w), how(h), ev(e) {}
  void act(int here, const ThrowModel &m) const {
    ev->push_back(std::to_string(id) + "/" + std::to_string(here) + "@" + std::to_string(m.v));
    if (here != where) return;
    switch (how) {
    case 0: RC_FAIL("failed");
    case 1: RC_DISCARD("discarded");
    case 2: RC_SUCCEED("succeeded");
    case 3: throw std::runtime_error("threw");
    case 4: throw Odd{7};
    default: throw GenerationFailure("cannot");
    }
  }
  void checkPreconditions(const ThrowModel &m) const override { act(0, m); }
  void run(const ThrowModel &m, ThrowSut &) const override { act(1, m); }
  void apply(ThrowModel &m) const override { act(2, m); m.v += id; }
};
using ThrowBase = state::Command<ThrowModel, ThrowSut>;
template <typename F> int outcomeOf(F f) {
  try { f(); return 9;
  } catch (const CaseResult &r) { return r.type == CaseResult::Type::Failure ? 0 : r.type == CaseResult::Type::Discard ? 1 : 2;
  } catch (const Odd &o) { return o.x == 7 ? 4 : 8;
  } catch (const GenerationFailure &) { return 5;
  } catch (const std::runtime_error &) { return 3; }
}
} // namespace
SECTION("throwing", 4000, 60000) {
  std::vector<std::string> ev, want;
  state::Commands<ThrowBase> cmds;
  const int n = rng.chance(1, 40) ? 300 + (int)rng.below(700) : 1 + (int)rng.below(12), at = rng.chance(1, 6) ? -1 : (int)rng.below(n), where = (int)rng.below(3), how = (int)rng.below(6);
  int v = 0;
  for (int i = 0; i < n; i++) {
    cmds.push_back(std::make_shared<ThrowCmd>(i + 1, i == at ? where : -1, how, &ev));
    for (int w = 0; w < 3 && (at < 0 || i < at || (i == at && w <= where)); w++) want.push_back(std::to_string(i + 1) + "/" + std::to_string(w) + "@" + std::to_string(v));
    v += i + 1;
  }
  ThrowSut sut;
  int got = outcomeOf([&] { state::runAll(cmds, ThrowModel(), sut); });
  CHECK(got == (at < 0 ? 9 : how), "throwing-outcome", n << " commands, number " << at << " throwing " << how << " from " << where << ": ended as " << got);
  CHECK(ev == want, "throwing-steps", joined(ev) << " instead of " << joined(want));
  // without running: preconditions and apply only
  ev.clear(); want.clear(); v = 0;
  for (int i = 0; i < n; i++) {
    for (int w = 0; w < 3; w += 2) if (at < 0 || i < at || where == 1 || (i == at && w <= where)) want.push_back(std::to_string(i + 1) + "/" + std::to_string(w) + "@" + std::to_string(v));
    v += i + 1;
  }
  ThrowModel m;
  got = outcomeOf([&] { state::applyAll(cmds, m); });
  CHECK(got == (at < 0 || where == 1 ? 9 : how), "applyAll-outcome", n << " commands, number " << at << " throwing " << how << " from " << where << ": applyAll ended as " << got);
  CHECK(ev == want, "applyAll-steps", joined(ev) << " instead of " << joined(want));
  CHECK(m.v == (got == 9 ? v : at * (at + 1) / 2), "applyAll-state", "the model ends as " << m.v);
  bool valid = false;
  got = outcomeOf([&] { valid = state::isValidSequence(cmds, ThrowModel()); });
  const bool gone = at >= 0 && where != 1 && how == 1;
  CHECK(got == (at < 0 || where == 1 || gone ? 9 : how), "valid-outcome", "isValidSequence ended as " << got << " for way " << how << " from " << where);
  if (got == 9) CHECK(valid == !gone, "valid", "isValidSequence says " << valid);
  mon::count(at < 0 ? "passing_runs" : "commands_that_threw");
  mon::distinct(mon::comb(n, mon::comb(at, where * 8 + how)));
}

// A precondition that fails, other than by discarding, is a failure of the check.
namespace {
struct StrictCmd : ThrowBase {
  int limit, how;
  mutable int *ran;
  StrictCmd(int l, int h, int *r) : limit(l), how(h), ran(r) {}
  void checkPreconditions(const ThrowModel &m) const override {
    if (m.v < limit) return;
    if (how == 0) RC_FAIL("strictly refused");
    if (how == 1) RC_DISCARD("discarded");
    if (how == 2) RC_ASSERT(m.v < limit);
    throw std::runtime_error("strictly refused");
  }
  void run(const ThrowModel &m, ThrowSut &) const override { *ran = std::max(*ran, m.v); }
  void apply(ThrowModel &m) const override { m.v++; }
};
} // namespace
SECTION("strict-preconditions", 400, 5000) {
  const int limit = (int)rng.below(30), how = (int)rng.below(4);
  int ran = -1;
  const StrictCmd one(limit, how, &ran);
  for (int at : {limit - 1, limit, limit + 1}) {
    ThrowModel m;
    m.v = at;
    bool valid = true;
    const int got = outcomeOf([&] { valid = state::isValidCommand(one, m); });
    CHECK(got == (at < limit || how == 1 ? 9 : how == 2 ? 0 : how), "isValidCommand-outcome", "preconditions ending in way " << how << " gave " << got);
    if (got == 9) CHECK(valid == (at < limit), "isValidCommand", "at " << at << " of " << limit << ": " << valid);
  }
  if (how == 1) return;
  const std::shared_ptr<const ThrowBase> c = std::make_shared<StrictCmd>(limit, how, &ran);
  rc::detail::TestParams p;
  p.seed = rng.next();
  Quiet quiet;
  const auto r = rc::detail::checkProperty(rc::detail::toProperty([&] {
    ThrowSut sut;
    state::check(ThrowModel(), sut, [&](const ThrowModel &) { return gen::just(c); });
  }), rc::detail::TestMetadata(), p, quiet, {});
  rc::detail::FailureResult f;
  REQUIRE_(r.match(f), "strict-preconditions", "preconditions failing from state " << limit << " on in way " << how << " did not make the check fail");
  CHECK(f.description.find(how == 2 ? "m.v < limit" : "strictly refused") != std::string::npos, "strict-description", f.description);
  CHECK(ran < limit, "strict-run", "a command ran in state " << ran << " where its preconditions fail");
  mon::count("failing_preconditions");
  mon::distinct(mon::comb(limit, how));
}
