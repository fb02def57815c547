#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest/doctest.h>
#include <rapidcheck/doctest.h>
#undef CHECK
#undef REQUIRE
#undef FAIL
#undef INFO
#include "C23_common.hpp"
namespace doc = ::doctest;

namespace {
void one() { rc::doctest::check("takes a number", &c23::p1); }
void two() { rc::doctest::check("takes two", &c23::p2, true); }
void zero() { rc::doctest::check([] { c23::p0(); }); }
void ret() { rc::doctest::check([](int x) { c23::trace("B ret " + rc::toString(x)); return x < c23::script().t; }); }
void several() {
  rc::doctest::check(&c23::p1);
  rc::doctest::check("second", &c23::p2);
  c23::trace("M");
  rc::doctest::check(&c23::p0);
}
} // namespace
TEST_CASE("one") { one(); }
TEST_CASE("two") { two(); }
TEST_CASE("zero") { zero(); }
TEST_CASE("ret") { ret(); }
TEST_CASE("several") { several(); }
TEST_CASE("fine") {}

static int child(const std::vector<std::string> &args) {
  std::vector<std::string> a(args.begin(), args.end());
  std::vector<const char *> v{"prog"};
  if (!a.empty()) a[0] = "--test-case=" + a[0];
  for (auto &s : a) v.push_back(s.c_str());
  doc::Context c;
  c.applyCommandLine((int)v.size(), v.data());
  return c.run();
}
static const bool hooked = [] { mon::childHook() = child; return true; }();
using namespace c23;
#define FRAMEWORK "doctest"
#include "C23_sections.hpp"
