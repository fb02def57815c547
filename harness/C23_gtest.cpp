#include "C23_common.hpp"
#include <gmock/gmock.h>
#include <gtest/gtest.h>
#include <rapidcheck/gmock.h>
#include <rapidcheck/gtest.h>
using namespace c23;

RC_GTEST_PROP(Suite, p1, (int x)) { p1(x); }
RC_GTEST_PROP(Suite, p2, (const std::vector<int> &v, const std::string &s)) { p2(v, s); }
RC_GTEST_PROP(Other, p0, ()) { p0(); }
TEST(Plain, ok) { trace("B plain 0"); EXPECT_TRUE(true); }
TEST(Plain, bad) { trace("B plain 0"); EXPECT_EQ(1, 2) << "plainly wrong"; }

// Fixtures note every step; one that is used twice is told by its state.
struct Steps {
  std::string id;
  int state = 0;
  explicit Steps(const char *i) : id(i) { trace("C"); }
  void step(const char *s, int want) { trace(std::string(s) + (state == want ? "" : "!")); state = want + 1; }
  ~Steps() { trace("D"); }
};
class Fix : public ::testing::Test {
protected:
  Steps st{"f"};
  void SetUp() override { st.step("S", 0); }
  void TearDown() override { st.step("T", 2); }
  int member = 7;
};
RC_GTEST_FIXTURE_PROP(Fix, f1, (int x)) { member += 1; st.step(member == 8 ? "R" : "R!", 1); body("f1", x, toString(x)); }
RC_GTEST_FIXTURE_PROP(Fix, f0, ()) { st.step("R", 1); const int a = *gen::inRange(0, 1000).as("first pick"); body("f0", a, toString(a)); }
template <typename T> class Typed : public ::testing::Test {
protected:
  Steps st{"t"};
  void SetUp() override { st.step("S", 0); }
  void TearDown() override { st.step("T", 2); }
};
using Types = ::testing::Types<int, std::vector<char>>;
TYPED_TEST_SUITE(Typed, Types);
inline int64_t measureOf(int x) { return x; }
inline int64_t measureOf(const std::vector<char> &x) { return 12 * (int64_t)x.size(); }
RC_GTEST_TYPED_FIXTURE_PROP(Typed, t1, (const TypeParam &x)) { this->st.step("R", 1); body(sizeof(TypeParam) == sizeof(int) ? "ti" : "tv", measureOf(x), toString(x)); }

struct Iface { virtual ~Iface() = default; virtual int f(int) = 0; };
struct MockIface : Iface { MOCK_METHOD(int, f, (int), (override)); };
// Expectations: the mock is called in a way that is expected below the limit only.
RC_GTEST_PROP(Mock, called, (int x)) {
  const int t = script().t, kind = script().mode;
  trace("B mock " + toString(x));
  ::testing::StrictMock<MockIface> m;
  switch (kind) {
  case 0: EXPECT_CALL(m, f(::testing::Lt(t))).Times(::testing::AnyNumber()); m.f(x); break;            // unexpected argument
  case 1: EXPECT_CALL(m, f(::testing::_)).Times(x >= t ? 2 : 1); m.f(x); break;                           // called too rarely: found at destruction
  case 2: EXPECT_CALL(m, f(::testing::_)).Times(1); m.f(x); if (x >= t) m.f(x); break;                    // too often
  case 3: EXPECT_LT(x, t) << "nonfatal"; break;
  case 4: if (x >= t) ADD_FAILURE() << "nonfatal"; break;
  default: EXPECT_CALL(m, f(::testing::_)).WillRepeatedly(::testing::Return(4)); RC_ASSERT(m.f(x) == 4); RC_ASSERT(x < t); break;
  }
}

static int child(const std::vector<std::string> &args) {
  std::vector<std::string> a{"prog"};
  for (auto &s : args) if (s != "+gmock") a.push_back(s);
  std::vector<char *> v;
  for (auto &s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  int n = (int)v.size() - 1;
  ::testing::InitGoogleMock(&n, v.data());
  for (auto &s : args) if (s == "+gmock") rc::gmock::RapidCheckListener::install();
  return RUN_ALL_TESTS();
}
static const bool hooked = [] { mon::childHook() = child; return true; }();

static std::string filter(const std::string &s) { return shq("--gtest_filter=" + s); }
static bool fresh(std::string t, const std::string &ctx) {
  if (ctx.find("typed") != std::string::npos) { // (its own was not run, hence its tear-down is out of step)
    const auto i = t.rfind("T!");
    if (i != std::string::npos && t.find("T!") == i) t.erase(i + 1, 1);
  }
  return t.find('!') == std::string::npos;
}
static void fixtureSteps(const std::string &ctx, const Child &c, const Expected &e) {
  std::string k = kinds(c.trace);
  // TYPED_TEST has a fixture of its own around the property
  if (ctx.find("typed") != std::string::npos && k.size() >= 4 && k.compare(0, 2, "CS") == 0 && k.compare(k.size() - 2, 2, "TD") == 0) k = k.substr(2, k.size() - 4);
  const size_t n = std::count(k.begin(), k.end(), 'B');
  std::string want;
  for (size_t i = 0; i < n; i++) want += "CSRBTD";
  CHECK(k == want && fresh(c.trace, ctx), "fixture", ctx << ": the fixture's steps were " << k.substr(0, 200) << (c.trace.find('!') == std::string::npos ? "" : " with a fixture used before"));
  mon::count("fixtures_run", n);
}
SECTION("gtest", 200, 1500) {
  switch (rng.below(5)) {
  case 0: oneProperty(rng, "gtest Suite.p1", "Suite/p1", filter("Suite.p1"), &p1, "p1"); break;
  case 1: oneProperty(rng, "gtest Suite.p2", "Suite/p2", filter("Suite.p2"), &p2, "p2"); break;
  case 2: oneProperty(rng, "gtest Other.p0", "Other/p0", filter("Other.p0"), &p0, "p0"); break;
  case 3: oneProperty(rng, "gtest fixture f1", "Fix_RapidCheck/f1", filter("Fix_RapidCheck.f1"), [](int x) { body("f1", x, toString(x)); }, "f1", fixtureSteps); break;
  default: oneProperty(rng, "gtest fixture f0", "Fix_RapidCheck/f0", filter("Fix_RapidCheck.f0"), [] { const int a = *gen::inRange(0, 1000).as("first pick"); body("f0", a, toString(a)); }, "f0", fixtureSteps);
  }
}
SECTION("gtest-typed", 60, 400) {
  if (rng.chance(1, 2)) oneProperty(rng, "gtest typed int", "Typed/0/t1", filter("Typed/0.t1"), [](const int &x) { body("ti", x, toString(x)); }, "ti", fixtureSteps);
  else oneProperty(rng, "gtest typed vector", "Typed/1/t1", filter("Typed/1.t1"), [](const std::vector<char> &x) { body("tv", 12 * (int64_t)x.size(), toString(x)); }, "tv", fixtureSteps);
}
// The whole program, with tests that are no properties among them.
SECTION("gtest-program", 40, 300) {
  const Script s = randomScript(rng);
  const TestParams p = randomParams(rng);
  const bool gm = rng.chance(1, 2), bad = rng.chance(1, 2);
  const auto a = expected(&p1, s, p, {}, "Suite/p1"), b = expected(&p2, s, p, {}, "Suite/p2"), d = expected(&p0, s, p, {}, "Other/p0");
  const auto c = runChild(filter(bad ? "Suite.*:Other.*:Plain.*" : "Suite.*:Other.*:Plain.ok") + (gm ? " +gmock" : ""), s, p, {}, rng);
  const std::string ctx = "gtest program script " + s.str() + (gm ? " with gmock" : "");
  CHECK((c.rc == 0) == (!bad && a.verdict == 'S' && b.verdict == 'S' && d.verdict == 'S'), "verdict", ctx << ": exit code " << c.rc << "\n" << c.out.substr(0, 900));
  ReproMap m;
  hint(c.out, m);
  for (auto *e : {&a, &b, &d}) {
    const std::string id = e == &a ? "Suite/p1" : e == &b ? "Suite/p2" : "Other/p0", which = e == &a ? "p1" : e == &b ? "p2" : "p0";
    std::string gname = id;
    std::replace(gname.begin(), gname.end(), '/', '.');
    CHECK(only(c.trace, which) == e->runs, "executions", ctx << ": " << id << " executed other cases in the program");
    CHECK((c.out.find("[  FAILED  ] " + gname) != std::string::npos) == (e->verdict != 'S') && (c.out.find("[       OK ] " + gname) != std::string::npos) == (e->verdict == 'S'), "verdict", ctx << ": " << id << " is not reported as " << e->verdict << "\n" << c.out.substr(0, 900));
    if (e->verdict != 'S') CHECK(squeeze(c.out).find(squeeze(e->text)) != std::string::npos, "message", ctx << ": the output lacks\n" << e->text);
    CHECK(m.count(id) == (e->verdict == 'F') && (e->verdict != 'F' || m[id] == e->failure.reproduce), "hint", ctx << ": hint of " << id);
    mon::st().counters[std::string("verdict_") + e->verdict]++;
  }
  CHECK((c.out.find("plainly wrong") != std::string::npos) == bad && c.out.find("[       OK ] Plain.ok") != std::string::npos, "delegate", ctx << ": a test that is no property is not reported as without properties\n" << c.out.substr(0, 900));
  mon::distinctStr(ctx + std::to_string(p.seed));
  mon::count("whole_programs");
}
SECTION("gmock", 120, 600) {
  Script s;
  s.mode = rng.below(6);
  s.t = rng.chance(1, 6) ? 100000000 : 1 + (int)rng.below(60);
  TestParams p = randomParams(rng);
  p.maxSuccess = 20 + rng.below(100);
  p.maxSize = 100;
  p.disableShrinking = false;
  // the same decision made by the property itself
  Script as = s;
  as.mode = kAssert;
  const auto e = expected([](int x) { trace("B mock " + toString(x)); RC_ASSERT(x < script().t); }, as, p, {}, "Mock/called");
  const auto c = runChild(filter("Mock.called") + " +gmock", s, p, {}, rng);
  const std::string ctx = "gmock kind " + s.str();
  CHECK((c.rc == 0) == (e.verdict == 'S'), "verdict", ctx << ": exit code " << c.rc << " expected " << e.text << "\n" << c.out.substr(0, 900));
  CHECK(only(c.trace, "mock") == e.runs, "executions", ctx << ": test cases failed by expectations are not shrunk like test cases failed by the property\nchild " << c.trace.substr(0, 600) << "\nhere " << e.runs.substr(0, 600));
  if (e.verdict == 'F') {
    const std::string head = e.text.substr(0, e.text.rfind('\n', e.text.find("C23_gtest")));
    CHECK(squeeze(c.out).find(squeeze(head)) != std::string::npos, "message", ctx << ": the output lacks\n" << head << "\n" << c.out.substr(0, 1200));
    static const char *say[] = {"Unexpected mock function call", "Actual function call count", "more times than expected", "nonfatal", "nonfatal", "RC_ASSERT(x < t)"};
    CHECK(c.out.find(say[s.mode]) != std::string::npos, "message.framework", ctx << ": the output does not say '" << say[s.mode] << "'\n" << c.out.substr(0, 1200));
    ReproMap m;
    CHECK(hint(c.out, m) && m.count("Mock/called") && m["Mock/called"] == e.failure.reproduce, "hint", ctx);
    mon::count("expectation_failures");
  }
  mon::count("gmock_programs");
  mon::distinctStr(ctx + e.text);
}
