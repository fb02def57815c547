#include <catch2/catch_session.hpp>
#include <catch2/catch_test_macros.hpp>
#include <rapidcheck/catch.h>
#undef SECTION
#undef CHECK
#undef REQUIRE
#undef FAIL
#undef INFO
#undef SUCCEED
#include "C23_common.hpp"
using namespace c23;

namespace {
void one() { rc::prop("takes a number", &p1); }
void two() { rc::prop("takes two", &p2, true); }
void zero() { rc::prop("picks", [] { p0(); }); }
void ret() { rc::prop("returns", [](int x) { trace("B ret " + toString(x)); return x < script().t; }); }
void several() {
  rc::prop("first", &p1);
  rc::prop("second", &p2);
  trace("M");
  rc::prop("third", &p0);
}
} // namespace
TEST_CASE("one") { one(); }
TEST_CASE("two") { two(); }
TEST_CASE("zero") { zero(); }
TEST_CASE("ret") { ret(); }
TEST_CASE("several") { several(); }
TEST_CASE("fine") {}

static int child(const std::vector<std::string> &args) {
  std::vector<const char *> v{"prog"};
  for (auto &s : args) v.push_back(s.c_str());
  return Catch::Session().run((int)v.size(), v.data());
}
static const bool hooked = [] { mon::childHook() = child; return true; }();
#define FRAMEWORK "catch"
#include "C23_sections.hpp"
