#include "C23_common.hpp"
#define BOOST_TEST_NO_MAIN
#include <boost/test/included/unit_test.hpp>
#include <rapidcheck/boost_test.h>
using namespace c23;

RC_BOOST_PROP(one, (int x)) { p1(x); }
RC_BOOST_PROP(two, (const std::vector<int> &v, const std::string &s)) { p2(v, s); }
BOOST_AUTO_TEST_SUITE(suite)
RC_BOOST_PROP(zero, ()) { p0(); }
BOOST_AUTO_TEST_SUITE_END()
struct Fix {
  int state = 0;
  Fix() { trace("C"); }
  ~Fix() { trace(state <= 1 ? "D" : "D!"); }
};
RC_BOOST_FIXTURE_PROP(fixture, Fix, (int x)) { trace(state++ == 0 ? "R" : "R!"); body("f1", x, toString(x)); }
BOOST_AUTO_TEST_CASE(fine) { BOOST_CHECK(true); }

static int child(const std::vector<std::string> &args) {
  std::vector<std::string> a{"prog"};
  for (auto &s : args) a.push_back(s);
  std::vector<char *> v;
  for (auto &s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  return boost::unit_test::unit_test_main(+[](int, char **) { return (boost::unit_test::test_suite *)nullptr; }, (int)v.size() - 1, v.data());
}
static const bool hooked = [] { mon::childHook() = child; return true; }();

static void steps(const std::string &ctx, const Child &c, const Expected &e) {
  const std::string k = kinds(c.trace);
  std::string want;
  for (size_t i = 0, n = std::count(k.begin(), k.end(), 'B'); i < n; i++) { want += "CRBD"; mon::count("fixtures_run"); }
  CHECK(k == want && c.trace.find('!') == std::string::npos, "fixture", ctx << ": the fixture's steps were " << k.substr(0, 200));
}
static std::string args(const std::string &n) { return "--run_test=" + n + " --log_level=message --report_level=detailed"; }
SECTION("boost", 200, 8000) {
  switch (rng.below(4)) {
  case 0: oneProperty(rng, "boost one", "one", args("one"), &p1, "p1", [](const std::string &, const Child &, const Expected &) {}); break;
  case 1: oneProperty(rng, "boost two", "two", args("two"), &p2, "p2"); break;
  case 2: oneProperty(rng, "boost suite/zero", "suite/zero", args("suite/zero"), &p0, "p0"); break;
  default: oneProperty(rng, "boost fixture", "fixture", args("fixture"), [](int x) { body("f1", x, toString(x)); }, "f1", steps);
  }
}
SECTION("boost-program", 30, 1000) {
  const Script s = randomScript(rng);
  const TestParams p = randomParams(rng);
  const auto a = expected(&p1, s, p, {}, "x"), b = expected(&p2, s, p, {}, "x"), d = expected(&p0, s, p, {}, "x");
  const auto c = runChild("--log_level=message --report_level=detailed --run_test=one,two,fine,suite", s, p, {}, rng);
  const std::string ctx = "boost program script " + s.str();
  CHECK((c.rc == 0) == (a.verdict == 'S' && b.verdict == 'S' && d.verdict == 'S'), "verdict", ctx << ": exit code " << c.rc << "\n" << c.out.substr(0, 900));
  for (auto *e : {&a, &b, &d}) {
    const std::string name = e == &a ? "one" : e == &b ? "two" : "suite/zero", which = e == &a ? "p1" : e == &b ? "p2" : "p0";
    CHECK(only(c.trace, which) == e->runs, "executions", ctx << ": " << name << " executed other cases in the program");
    CHECK((c.out.find("Test case \"" + name + "\" has failed") != std::string::npos || c.out.find("Test case \"" + name + "\" was aborted") != std::string::npos) == (e->verdict != 'S') &&
          (c.out.find("Test case \"" + name + "\" has passed") != std::string::npos) == (e->verdict == 'S'), "verdict", ctx << ": " << name << " is not reported as " << e->verdict << "\n" << c.out.substr(0, 1500));
    if (e->verdict != 'S') CHECK(squeeze(c.out).find(squeeze(e->text)) != std::string::npos, "message", ctx << ": the output lacks\n" << e->text);
    mon::st().counters[std::string("verdict_") + e->verdict]++;
  }
  mon::count("whole_programs");
  mon::distinctStr(ctx + std::to_string(p.seed));
}
