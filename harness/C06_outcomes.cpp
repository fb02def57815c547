// C06: test case outcomes are classified as documented.
#include "mon.hpp"
#include <rapidcheck.h>
#include "src/detail/Testing.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include <climits>
#include <cmath>
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using Ty = CaseResult::Type;

namespace {
const char *name(Ty t) { return t == Ty::Success ? "success" : t == Ty::Failure ? "failure" : "discard"; }

// What the model knows about one execution of the body.
struct Ctx {
  Rng rng;
  explicit Ctx(uint64_t s) : rng(s) {}
  int evals = 0;
  std::vector<std::pair<Ty, std::vector<std::string>>> reported; // each with texts that have to appear
  std::string log;
  std::string script;
  bool ended = false; // by an exception
  bool inGen = false; // inside a nested generator, which has no property context
  void add(Ty t, std::vector<std::string> must) { reported.push_back({t, std::move(must)}); }
  template <typename T> const T &ev(const T &x) { ++evals; return x; }
};
PropertyContext *current() { return ImplicitParam<param::CurrentPropertyContext>::value(); }

// One assertion site: ENDS tells whether the macro has to end the test case.
#define SITE(C, TYPE, MACRO, EXPR, ENDS, SHOWN, N)                                                                     \
  {                                                                                                                    \
    (C).evals = 0;                                                                                                     \
    const bool mon_ends = (ENDS);                                                                                      \
    (C).script += #MACRO "(" #EXPR ")" + std::string(mon_ends ? "! " : " ");                                            \
    bool mon_thrown = true;                                                                                            \
    struct Guard {                                                                                                     \
      Ctx &c; bool &thrown; bool ends; int n; const char *what;                                                        \
      ~Guard() {                                                                                                       \
        CHECK(c.evals == n, "evaluations", what << " evaluated its operands " << c.evals << " times instead of " << n); \
        CHECK(thrown == ends, "assertion", what << (ends ? " did not end the test case" : " ended the test case"));    \
        mon::count("assertions_executed");                                                                             \
      }                                                                                                                \
    };                                                                                                                 \
    if (mon_ends) { (C).add(TYPE, {#EXPR, SHOWN}); (C).ended = true; }                                                  \
    {                                                                                                                  \
      Guard mon_g{(C), mon_thrown, mon_ends, (N), #MACRO "(" #EXPR ")"};                                               \
      MACRO(EXPR);                                                                                                     \
      mon_thrown = false;                                                                                              \
    }                                                                                                                  \
  }

struct Truthy { int x; explicit operator bool() const { return x != 0; } };
std::ostream &operator<<(std::ostream &os, const Truthy &t) { return os << "T" << t.x; }
struct P { int x; };
bool operator==(const P &a, const P &b) { return a.x == b.x; }
bool operator<(const P &a, const P &b) { return a.x < b.x; }
std::ostream &operator<<(std::ostream &os, const P &t) { return os << "P<" << t.x << ">"; }

int anInt(Rng &r) { switch (r.below(6)) { case 0: return INT_MAX; case 1: return INT_MIN; case 2: return 0; default: return (int)r.range(-3, 3); } }
std::string aText(Rng &r, bool printable = false) {
  std::string s;
  const size_t n = r.chance(1, 10) ? 200 + r.below(3000) : r.below(9);
  for (size_t i = 0; i < n; i++) s += printable || r.chance(2, 3) ? (char)r.range('a', 'd') : r.chance(1, 5) ? "\n%{}\"\\"[r.below(6)] : (char)r.range(1, 255);
  return s;
}
std::string m(const std::string &s) { return s; }

// Assertions; SHOWN is the expansion with the actual values.
void assertion(Ctx &c, unsigned kind, unsigned site) {
  Rng &r = c.rng;
  const int a = anInt(r), b = r.chance(1, 3) ? a : anInt(r);
  const std::string s = aText(r), t = r.chance(1, 2) ? s : aText(r);
  const double x = r.chance(1, 6) ? std::nan("") : a / 2.0, y = b / 2.0;
  const std::vector<int> v(r.below(3), a), w(r.below(3), b);
  const auto S = [](const auto &q) { return toString(q); };
#define ALL(TYPE, MACRO, WHEN)                                                                                         \
  switch (site % 22) {                                                                                                 \
  case 0: SITE(c, TYPE, MACRO, c.ev(a) == c.ev(b), (a == b) == WHEN, S(a) + " == " + S(b), 2) break;                    \
  case 1: SITE(c, TYPE, MACRO, c.ev(a) != c.ev(b), (a != b) == WHEN, S(a) + " != " + S(b), 2) break;                    \
  case 2: SITE(c, TYPE, MACRO, c.ev(a) < c.ev(b), (a < b) == WHEN, S(a) + " < " + S(b), 2) break;                       \
  case 3: SITE(c, TYPE, MACRO, c.ev(a) > c.ev(b), (a > b) == WHEN, S(a) + " > " + S(b), 2) break;                       \
  case 4: SITE(c, TYPE, MACRO, c.ev(a) <= c.ev(b), (a <= b) == WHEN, S(a) + " <= " + S(b), 2) break;                    \
  case 5: SITE(c, TYPE, MACRO, c.ev(a) >= c.ev(b), (a >= b) == WHEN, S(a) + " >= " + S(b), 2) break;                    \
  case 6: SITE(c, TYPE, MACRO, c.ev(a), (a != 0) == WHEN, S(a), 1) break;                                               \
  case 7: SITE(c, TYPE, MACRO, !c.ev(a), (a == 0) == WHEN, S(!a), 1) break;                                             \
  case 8: SITE(c, TYPE, MACRO, c.ev(s) == c.ev(t), (s == t) == WHEN, S(s) + " == " + S(t), 2) break;                    \
  case 9: SITE(c, TYPE, MACRO, c.ev(s) != c.ev(t), (s != t) == WHEN, S(s) + " != " + S(t), 2) break;                    \
  case 10: SITE(c, TYPE, MACRO, c.ev(v) == c.ev(w), (v == w) == WHEN, S(v) + " == " + S(w), 2) break;                   \
  case 11: SITE(c, TYPE, MACRO, c.ev(v) < c.ev(w), (v < w) == WHEN, S(v) + " < " + S(w), 2) break;                      \
  case 12: SITE(c, TYPE, MACRO, c.ev(x) < c.ev(y), (x < y) == WHEN, S(x) + " < " + S(y), 2) break;                      \
  case 13: SITE(c, TYPE, MACRO, c.ev(x) == c.ev(y), (x == y) == WHEN, S(x) + " == " + S(y), 2) break;                   \
  case 14: SITE(c, TYPE, MACRO, (c.ev(a) & c.ev(1)), ((a & 1) != 0) == WHEN, S(a & 1), 2) break;                        \
  case 15: SITE(c, TYPE, MACRO, c.ev(a) == 0 || c.ev(b) == 0, (a == 0 || b == 0) == WHEN, S(a) + " == 0 || ", 2) break; \
  case 16: SITE(c, TYPE, MACRO, c.ev(P{a}) == c.ev(P{b}), (a == b) == WHEN, S(P{a}) + " == " + S(P{b}), 2) break;       \
  case 17: SITE(c, TYPE, MACRO, c.ev(Truthy{a % 2}), (a % 2 != 0) == WHEN, S(Truthy{a % 2}), 1) break;                  \
  case 18: SITE(c, TYPE, MACRO, c.ev(s).size() < c.ev(t).size() + 1, (s.size() < t.size() + 1) == WHEN, S(s.size()) + " < " + S(t.size() + 1), 2) break; \
  case 19: SITE(c, TYPE, MACRO, (c.ev(a) == c.ev(b)), (a == b) == WHEN, S(a == b), 2) break;                            \
  case 20: SITE(c, TYPE, MACRO, c.ev(a % 8) * c.ev(b % 8) > 0, ((a % 8) * (b % 8) > 0) == WHEN, S(a % 8) + " * " + S(b % 8) + " > 0", 2) break; \
  default: SITE(c, TYPE, MACRO, c.ev(a % 4) + 1 - c.ev(b % 4) == 1, ((a % 4) + 1 - (b % 4) == 1) == WHEN, S(a % 4) + " + 1 - " + S(b % 4) + " == 1", 2) break; \
  }
  switch (kind) {
  case 0: ALL(Ty::Failure, RC_ASSERT, false) break;
  case 1: ALL(Ty::Failure, RC_ASSERT_FALSE, true) break;
  case 2: ALL(Ty::Success, RC_SUCCEED_IF, true) break;
  default: { // RC_PRE
    ALL(Ty::Discard, RC_PRE, false) break;
  }
  }
}
struct Base : std::runtime_error { using runtime_error::runtime_error; };
struct Derived : Base { using Base::Base; };
struct Odd { int k; };
int thrower(Ctx &c, int what) {
  ++c.evals;
  switch (what) {
  case 0: return 1;
  case 1: throw Base("b");
  case 2: throw Derived("d");
  case 3: throw std::logic_error("l");
  case 4: throw 7;
  case 5: throw std::string("s");
  case 6: throw Odd{3};
  case 7: throw "literal";
  default: throw CaseResult(Ty::Failure, "inner");
  }
}
void throwing(Ctx &c) {
  const int w = (int)c.rng.below(9);
  switch (c.rng.below(6)) {
  case 0: SITE(c, Ty::Failure, RC_ASSERT_THROWS, thrower(c, w), w == 0, "thrower(c, w)", 1) break;
#define TA(TYPE) RC_ASSERT_THROWS_AS(thrower(c, w), TYPE)
#define SITE_AS(X, OK)                                                                                                 \
  {                                                                                                                    \
    c.evals = 0;                                                                                                       \
    const bool ok = (OK);                                                                                              \
    c.script += "THROWS_AS(" #X ")" + std::to_string(w) + (ok ? " " : "! ");                                            \
    if (!ok) { c.add(Ty::Failure, {"thrower(c, w)", #X}); c.ended = true; }                                             \
    bool thrown = true;                                                                                                \
    struct Guard { Ctx &c; bool &thrown; bool ok; int w; ~Guard() {                                                    \
      CHECK(c.evals == 1, "evaluations", "RC_ASSERT_THROWS_AS evaluated its expression " << c.evals << " times");      \
      CHECK(thrown == !ok, "assertion", "RC_ASSERT_THROWS_AS(..., " #X ") with throw kind " << w << (thrown ? " failed" : " passed")); \
      mon::count("exception_assertions"); } } g{c, thrown, ok, w};                                                     \
    RC_ASSERT_THROWS_AS(thrower(c, w), X);                                                                             \
    thrown = false;                                                                                                    \
  }
  case 1: SITE_AS(Base, w == 1 || w == 2) break;
  case 2: SITE_AS(Derived, w == 2) break;
  case 3: SITE_AS(std::exception, w >= 1 && w <= 3) break;
  case 4: SITE_AS(int, w == 4) break;
  default: SITE_AS(Odd, w == 6) break;
  }
}

// One step of a body. May throw.
void step(Ctx &c, int depth);
void unconditional(Ctx &c) {
  c.ended = true;
  const std::string t = aText(c.rng);
  switch (c.rng.below(9)) {
  case 0: c.script += "FAIL! "; c.add(Ty::Failure, {m(t.c_str())}); RC_FAIL(t);
  case 1: c.script += "FAIL! "; c.add(Ty::Failure, {"no luck"}); RC_FAIL("no luck");
  case 2: c.script += "DISCARD! "; c.add(Ty::Discard, {t}); RC_DISCARD(t);
  case 3: c.script += "SUCCEED! "; c.add(Ty::Success, {t}); RC_SUCCEED(t);
  case 4: c.script += "SUCCEED! "; c.add(Ty::Success, {}); RC_SUCCEED("fine");
  case 5: c.script += "throw exception! "; c.add(Ty::Failure, {t}); throw std::runtime_error(t);
  case 6: c.script += "throw string! "; c.add(Ty::Failure, {t}); throw t;
  case 7: c.script += "throw unknown! "; c.add(Ty::Failure, {}); if (c.rng.chance(1, 2)) throw Odd{1}; throw 12;
  default: c.script += "throw GenerationFailure! "; c.add(Ty::Discard, {t}); throw GenerationFailure(t);
  }
}
uint64_t genStep(Rng &r, int depth) { static const int k[] = {0, 1, 2, 3, 4, 8, 9, 11}; return k[r.below(depth > 0 ? 8 : 7)]; }
void step(Ctx &c, int depth) {
  Rng &r = c.rng;
  switch (c.inGen ? genStep(r, depth) : r.below(depth > 0 ? 12 : 11)) {
  case 0: case 1: case 2: {
    // mostly assertions that hold, found by trying
    const unsigned kind = (unsigned)r.below(4), site = (unsigned)r.below(22);
    assertion(c, kind, site);
    break;
  }
  case 3: throwing(c); break;
  case 4: if (r.chance(1, 3)) unconditional(c); break;
  case 5: { // reported by a matcher or mock, the body goes on
    const Ty t = r.chance(1, 5) ? Ty::Discard : r.chance(1, 2) ? Ty::Failure : Ty::Success;
    const std::string d = aText(r);
    c.script += std::string("report ") + name(t) + " ";
    c.add(t, {d});
    CHECK(current()->reportResult(CaseResult(t, d)), "report.handled", "reportResult was ignored inside a property");
    mon::count("results_reported_without_throwing");
    break;
  }
  case 6: { const std::string t = aText(r); c.script += "LOG "; RC_LOG(t); c.log += t + "\n"; mon::count("log_writes"); break; }
  case 7: { const std::string t = aText(r); const int k = anInt(r); c.script += "LOG<< "; RC_LOG() << t << k << "|"; c.log += t + std::to_string(k) + "|"; mon::count("log_writes"); break; }
  case 8: { // an assertion caught by the body itself has no effect
    c.script += "caught ";
    try { RC_FAIL("caught by the body"); } catch (const CaseResult &) {}
    try { RC_ASSERT(1 == 2); } catch (...) {}
    break;
  }
  case 9: { // picks
    const int v = *gen::inRange(0, 100).as("pick");
    CHECK(v >= 0 && v < 100, "pick", "picked " << v);
    break;
  }
  case 10: { RC_TAG("t" + std::to_string(r.below(3))); break; }
  default: { // inside a nested generator
    c.script += "exec{";
    // The nested code may be run again later, so it only touches what it owns.
    const uint64_t seed = r.next();
    auto out = std::make_shared<Ctx>(seed);
    const size_t n = r.below(3);
    struct Merge { Ctx &c; Ctx &o; ~Merge() {
      c.script += o.script + "}";
      c.reported.insert(c.reported.end(), o.reported.begin(), o.reported.end());
      c.ended |= o.ended;
    } } merge{c, *out};
    const int v = *gen::exec([=] {
      *out = Ctx(seed);
      out->inGen = true;
      for (size_t i = 0; i < n; i++) step(*out, depth - 1);
      return 3;
    });
    CHECK(v == 3, "exec", "wrong value from exec");
    mon::count("nested_execs");
  }
  }
}
void body(Ctx &c) {
  const size_t n = c.rng.below(9);
  if (c.rng.chance(1, 150)) { // very many results, logs and assertions that hold
    const size_t many = 20 + c.rng.below(c.rng.chance(1, 3) ? 3000 : 300);
    for (size_t i = 0; i < many; i++) {
      const std::string d = "m" + std::to_string(i) + ".";
      switch (c.rng.below(8)) {
      case 0: RC_LOG() << d; c.log += d; break;
      case 1: RC_ASSERT(i < many); break;
      case 2: RC_PRE(i < many); break;
      case 3: current()->reportResult(CaseResult(Ty::Success, d)); c.add(Ty::Success, {d}); break;
      default: current()->reportResult(CaseResult(Ty::Failure, d)); c.add(Ty::Failure, {d}); break;
      }
    }
    c.script += "many results ";
    mon::count("bodies_with_many_results");
  }
  for (size_t i = 0; i < n; i++) step(c, 2);
}
struct Verdict { Ty type; std::vector<std::string> must; };
Verdict model(const Ctx &c) {
  bool discard = false, fail = false;
  for (auto &p : c.reported) { discard |= p.first == Ty::Discard; fail |= p.first == Ty::Failure; }
  Verdict v{discard ? Ty::Discard : fail ? Ty::Failure : Ty::Success, {}};
  bool first = true;
  for (auto &p : c.reported)
    if (p.first == v.type && (v.type == Ty::Failure || (v.type == Ty::Discard && first))) {
      for (auto &s : p.second) v.must.push_back(s);
      first = false;
    }
  if (v.type == Ty::Success && c.ended)
    for (auto &s : c.reported.back().second) v.must.push_back(s);
  if (!c.log.empty()) v.must.push_back(c.log);
  return v;
}
void compare(const Ctx &c, const CaseResult &res, const char *how) {
  const Verdict v = model(c);
  CHECK(res.type == v.type, std::string("type.") + name(v.type), "body [" << c.script << "] gave " << name(res.type) << " instead of " << name(v.type) << " (" << how << "): " << res.description);
  if (res.type != v.type) return;
  for (auto &s : v.must)
    CHECK(res.description.find(s) != std::string::npos, "description", "body [" << c.script << "] (" << how << "): description lacks '" << s << "': '" << res.description << "'");
  if (v.type == Ty::Failure) { // failure messages stay in order
    size_t at = 0;
    for (auto &p : c.reported)
      if (p.first == Ty::Failure)
        for (size_t i = 0; i < p.second.size() && i < 1; i++) {
          const size_t q = res.description.find(p.second[i], at);
          CHECK(q != std::string::npos, "description.order", "body [" << c.script << "]: failure messages out of order: '" << res.description << "'");
          if (q != std::string::npos) at = q + p.second[i].size();
        }
  }
  mon::count(v.type == Ty::Success ? "passes" : v.type == Ty::Failure ? "failures" : "discards");
  if (c.reported.size() > 1) mon::count("cases_with_several_results");
  mon::distinctStr(c.script);
}
} // namespace

// A random body executed as one test case, for every return type.
SECTION("bodies", 40000, 600000) {
  const uint64_t seed = rng.next();
  std::shared_ptr<Ctx> c;
  auto fresh = [&] { c = std::make_shared<Ctx>(seed); body(*c); };
  const Random random(rng.next());
  const int size = (int)rng.below(101);
  const int kind = (int)rng.below(4);
  const int ret = (int)rng.below(3);
  const std::string text = aText(rng);
  Property p = [&]() -> Property {
    switch (kind) {
    case 0: return toProperty([&] { fresh(); });
    case 1: return toProperty([&]() -> bool {
      fresh();
      c->script += ret ? "return true" : "return false";
      if (!ret) c->add(Ty::Failure, {});
      return ret != 0;
    });
    case 2: return toProperty([&]() -> std::string {
      fresh();
      const std::string t = ret ? text : std::string();
      c->script += "return text";
      if (!t.empty()) c->add(Ty::Failure, {t});
      return t;
    });
    default: return toProperty([&]() -> CaseResult {
      fresh();
      const Ty t = ret == 0 ? Ty::Success : ret == 1 ? Ty::Failure : Ty::Discard;
      c->script += "return result";
      c->add(t, {text});
      return CaseResult(t, text);
    });
    }
  }();
  const CaseDescription d = p(random, size).value();
  compare(*c, d.result, "one case");
  mon::count("bodies");
  if (c->reported.size() > 1) mon::sample(c->script + " => " + name(d.result.type) + ": " + d.result.description);
}

// Arguments whose generators fail or throw decide the outcome like picked
// values do, without running the body.
namespace {
uint64_t argSeed;
int argFails;       // how the first failing argument ended, 0 if none
struct Arg { int x; };
std::ostream &operator<<(std::ostream &os, const Arg &a) { return os << "arg" << a.x; }
int failing(uint64_t c) {
  const int k = (int)(c % 14);
  if (k == 0 || k > 6) return 0;
  argFails = k;
  switch (k) {
  case 1: throw GenerationFailure("no arg");
  case 2: throw Base("bad arg");
  case 3: throw std::string("text arg");
  case 4: throw Odd{4};
  case 5: RC_DISCARD("skip arg");
  default: RC_FAIL("fail arg");
  }
}
} // namespace
namespace rc {
template <> struct Arbitrary<Arg> {
  static Gen<Arg> arbitrary() {
    return gen::exec([] {
      const int x = *gen::inRange(0, 1000);
      failing(mon::comb(argSeed, x));
      return Arg{x};
    });
  }
};
} // namespace rc

SECTION("arguments", 4000, 60000) {
  argSeed = rng.next();
  int ran = 0;
  const auto p = [&]() -> Property {
    switch (rng.below(4)) {
    case 0: return toProperty([&](Arg) { ran++; });
    case 1: return toProperty([&](int, const Arg &, std::string) { ran++; return true; });
    case 2: return toProperty([&](std::vector<Arg> v, Arg) { ran++; });
    default: return toProperty([&](std::map<bool, int> m, std::pair<Arg, bool>) { ran++; return std::string(); });
    }
  }();
  TestParams params;
  params.seed = rng.next();
  params.maxSuccess = (int)rng.below(20);
  params.maxSize = (int)rng.below(20);
  params.maxDiscardRatio = (int)rng.below(5);
  struct L : TestListenerAdapter {
    int *ran, cases = 0, ok = 0;
    void onTestCaseFinished(const CaseDescription &d) override {
      cases++;
      const auto &r = d.result;
      static const char *texts[] = {"", "no arg", "bad arg", "text arg", "", "skip arg", "fail arg"};
      // A container that could not be filled is no failure of an Arg.
      const bool generation = r.type == Ty::Discard && !argFails;
      if (generation) { CHECK(*ran == 0, "arguments.body", "a discarded case ran the body"); mon::count("arguments_not_generated"); }
      else {
        const Ty want = argFails == 0 ? Ty::Success : argFails == 1 || argFails == 5 ? Ty::Discard : Ty::Failure;
        CHECK(r.type == want, "arguments.type", "argument failing with kind " << argFails << " gave " << name(r.type) << ": " << r.description);
        CHECK(r.description.find(texts[argFails]) != std::string::npos, "arguments.text", "'" << texts[argFails] << "' is not in " << r.description);
        CHECK(*ran == (argFails ? 0 : 1), "arguments.body", "body ran " << *ran << " times with failure kind " << argFails);
        if (argFails) mon::count("argument_failures");
        else mon::count("arguments_generated");
      }
      argFails = 0;
      *ran = 0;
    }
    void onShrinkTried(const CaseDescription &, bool) override { argFails = 0; *ran = 0; }
  } l;
  l.ran = &ran;
  argFails = 0;
  const TestResult res = testProperty(p, TestMetadata(), params, l);
  mon::distinctStr(mon::str(res));
}

// Through a whole check: the same body decides the verdict and its description.
SECTION("checks", 5000, 60000) {
  const uint64_t seed = rng.next();
  std::shared_ptr<Ctx> last;
  int runs = 0;
  TestParams params;
  params.seed = rng.next();
  params.maxSuccess = 1;
  params.maxDiscardRatio = 0;
  params.disableShrinking = true;
  TestMetadata md;
  TestListenerAdapter quiet;
  const auto p = toProperty([&] {
    runs++;
    last = std::make_shared<Ctx>(seed);
    body(*last);
  });
  const TestResult res = testProperty(p, md, params, quiet);
  REQUIRE_(last, "check.ran", "the body was not executed");
  const Verdict v = model(*last);
  SuccessResult s; FailureResult f; GaveUpResult g;
  if (res.match(s)) CHECK(v.type == Ty::Success, "check.verdict", "[" << last->script << "] success instead of " << name(v.type));
  else if (res.match(f)) {
    CHECK(v.type == Ty::Failure, "check.verdict", "[" << last->script << "] failure instead of " << name(v.type));
    compare(*last, CaseResult(Ty::Failure, f.description), "check");
  } else if (res.match(g)) {
    CHECK(v.type == Ty::Discard, "check.verdict", "[" << last->script << "] gave up instead of " << name(v.type));
    compare(*last, CaseResult(Ty::Discard, g.description), "check");
  } else CHECK(false, "check.verdict", "[" << last->script << "] error result");
  mon::count("whole_checks");
  (void)runs;
}

// Outside a property nothing is handled.
SECTION("outside", 50, 200) {
  CHECK(!current()->reportResult(CaseResult(Ty::Failure, "x")), "outside", "a result reported outside any property was handled");
  current()->addTag("t");
  mon::distinct(rng.next());
  try { RC_ASSERT(1 == 2); CHECK(false, "outside", "RC_ASSERT outside did not throw"); } catch (const CaseResult &r) { CHECK(r.type == Ty::Failure, "outside", "type"); }
}
