// C28: the configuration without run-time type information (CMake option
// RC_ENABLE_RTTI=OFF). Compiled with -fno-rtti -DRC_DONT_USE_RTTI. Only the
// display of types and commands that have no display of their own may differ.
#include "mon.hpp"
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <stack>
#include <unordered_map>
#include <unordered_set>
#include "rapidcheck/detail/Any.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "src/detail/Testing.h"
using namespace rc;
using mon::Rng;
namespace {
struct Plain { int v; bool operator==(const Plain &o) const { return v == o.v; } };
struct Named { int v; };
struct Counted {
  static int alive;
  uint64_t tag;
  explicit Counted(uint64_t t) : tag(t) { alive++; }
  Counted(const Counted &o) : tag(o.tag) { alive++; }
  ~Counted() { alive--; tag = ~0ULL; }
};
int Counted::alive = 0;
void showValue(const Counted &c, std::ostream &os) { os << "C" << c.tag; }
void showValue(const Plain &c, std::ostream &os) { os << "P" << c.v; }
void showValue(const Named &c, std::ostream &os) { os << "N" << c.v; }
} // namespace
namespace rc {
template <> struct ShowType<Named> { static void showType(std::ostream &os) { os << "Named!"; } };
template <> struct Arbitrary<Plain> { static Gen<Plain> arbitrary() { return gen::map(gen::arbitrary<int>(), [](int v) { return Plain{v}; }); } };
template <> struct Arbitrary<Named> { static Gen<Named> arbitrary() { return gen::map(gen::arbitrary<int>(), [](int v) { return Named{v}; }); } };
template <> struct Arbitrary<Counted> { static Gen<Counted> arbitrary() { return gen::map(gen::arbitrary<uint64_t>(), [](uint64_t v) { return Counted(v); }); } };
} // namespace rc
namespace {
const std::string U = "[unknown type]";
template <typename T> std::string name() { return detail::typeToString<T>(); }
// names of composed types contain the names of their parts
template <typename T> void composed(const std::string &n) {
  CHECK(name<T>() == n, "type-name", name<T>() << " for " << n);
  CHECK(name<const T>() == "const " + n, "type-name", name<const T>());
  CHECK(name<T &>() == n + " &", "type-name", name<T &>());
  CHECK(name<T *>() == n + " *", "type-name", name<T *>());
  CHECK((name<std::vector<T>>() == "std::vector<" + n + ">"), "type-name", n);
  CHECK((name<std::deque<T>>() == "std::deque<" + n + ">"), "type-name", n);
  CHECK((name<std::list<T>>() == "std::list<" + n + ">"), "type-name", n);
  CHECK((name<std::forward_list<T>>() == "std::forward_list<" + n + ">"), "type-name", n);
  CHECK((name<std::set<T>>() == "std::set<" + n + ">"), "type-name", n);
  CHECK((name<std::multiset<T>>() == "std::multiset<" + n + ">"), "type-name", n);
  CHECK((name<std::unordered_set<T>>() == "std::unordered_set<" + n + ">"), "type-name", n);
  CHECK((name<std::map<T, std::string>>() == "std::map<" + n + ", std::string>"), "type-name", n);
  CHECK((name<std::multimap<std::string, T>>() == "std::multimap<std::string, " + n + ">"), "type-name", n);
  CHECK((name<std::unordered_map<T, T>>() == "std::unordered_map<" + n + ", " + n + ">"), "type-name", n);
  CHECK((name<std::array<T, 7>>() == "std::array<" + n + ", 7>"), "type-name", n);
  CHECK((name<std::pair<T, std::wstring>>() == "std::pair<" + n + ", std::wstring>"), "type-name", n);
  CHECK((name<std::tuple<T, std::u16string, T>>() == "std::tuple<" + n + ", std::u16string, " + n + ">"), "type-name", n);
  CHECK((name<std::unique_ptr<T>>() == "std::unique_ptr<" + n + ">"), "type-name", n);
  CHECK((name<std::shared_ptr<T>>() == "std::shared_ptr<" + n + ">"), "type-name", n);
  CHECK((name<std::stack<T>>() == "std::stack<" + n + ">"), "type-name", n);
  mon::count("type_names_checked", 22);
  mon::distinctStr(n);
}
// A value handed to Any comes back unchanged and lives as long as the Any.
template <typename T, typename Eq> void any(Rng &rng, T x, const std::string &text, const std::string &type, Eq eq) {
  auto a = detail::Any::of(x);
  CHECK(eq(a.template get<T>(), x), "any-value", text);
  detail::Any b = std::move(a);
  CHECK(static_cast<bool>(b) && !a, "any-move", text);
  if (rng.chance(1, 2)) { detail::Any c = detail::Any::of(rng.next()); c = std::move(b); b = std::move(c); }
  CHECK(eq(static_cast<const detail::Any &>(b).template get<T>(), x), "any-value", text);
  std::ostringstream v, t;
  b.showValue(v);
  b.showType(t);
  CHECK(v.str() == text, "any-show", v.str() << " for " << text);
  CHECK(t.str() == type, "any-type", t.str() << " for " << type);
  mon::count("anys_checked");
}
struct Listener : detail::TestListenerAdapter {};
struct Base : state::Command<int, int> {
  void apply(int &s) const override { s++; }
  void run(const int &, int &sut) const override { sut++; }
};
struct Bare : Base { void run(const int &s, int &sut) const override { Base::run(s, sut); RC_ASSERT(s < 2); } };
struct Shown : Base { int v = *gen::inRange(0, 1000); void show(std::ostream &os) const override { os << "Shown" << v; } };
} // namespace

SECTION("types", 20, 200) {
  composed<int>(U);
  composed<double>(U);
  composed<std::string>("std::string");
  composed<std::pair<int, std::u32string>>("std::pair<" + U + ", std::u32string>");
  composed<std::vector<std::string>>("std::vector<std::string>");
  CHECK(name<Named>() == "Named!" && name<std::vector<Named>>() == "std::vector<Named!>", "own-type-name", name<Named>());
  CHECK((name<std::map<Plain, Named>>() == "std::map<" + U + ", Named!>"), "own-type-name", "");
  mon::distinct(rng.next());
}

SECTION("any", 600, 6000) {
  const int before = Counted::alive;
  const int i = (int)rng.next();
  const auto same = [](const auto &a, const auto &b) { return a == b; };
  any(rng, i, std::to_string(i), U, same);
  any(rng, Plain{i}, "P" + std::to_string(i), U, same);
  any(rng, std::vector<int>{i, 5}, "[" + std::to_string(i) + ", 5]", "std::vector<" + U + ">", same);
  const uint64_t tag = rng.next();
  any(rng, Counted(tag), "C" + std::to_string(tag), U, [](const Counted &a, const Counted &b) { return a.tag == b.tag; });
  CHECK(Counted::alive == before, "any-leak", Counted::alive - before << " instances left");
  mon::distinct(tag);
}

// The counterexample of a failing property: values are those that failed.
SECTION("counterexamples", 300, 4000) {
  detail::TestParams p;
  p.seed = rng.next();
  p.maxSuccess = 200;
  p.maxSize = 100;
  p.disableShrinking = rng.chance(1, 3);
  const int limit = (int)rng.below(60);
  std::vector<int> last;
  uint64_t lastTag = 0;
  Listener quiet;
  const auto r = detail::checkProperty(detail::toProperty([&](const std::vector<int> &v, Plain q) {
    const Counted c = *gen::arbitrary<Counted>();
    const Named n = *gen::arbitrary<Named>();
    last = v;
    last.push_back(q.v);
    last.push_back(n.v);
    lastTag = c.tag;
    int sum = 0;
    for (int x : v) sum += x > 0;
    RC_ASSERT(sum * 3 <= limit);
  }), {}, p, quiet, {});
  detail::FailureResult f;
  if (!r.match(f)) { mon::count("not_failing"); return; }
  std::ostringstream args;
  args << "(";
  const Plain q{last[last.size() - 2]};
  show(std::make_tuple(std::vector<int>(last.begin(), last.end() - 2), q), args);
  const std::string want = args.str().substr(1);
  REQUIRE_(f.counterExample.size() == 3, "items", f.counterExample.size() << " items");
  CHECK((f.counterExample[0].first == "std::tuple<std::vector<" + U + ">, " + U + ">"), "item-type", f.counterExample[0].first);
  CHECK(f.counterExample[0].second == want, "item-value", f.counterExample[0].second << " but the last run got " << want);
  CHECK(f.counterExample[1].first == U && f.counterExample[2].first == "Named!", "item-type", f.counterExample[1].first << ", " << f.counterExample[2].first);
  CHECK(f.counterExample[1].second == "C" + std::to_string(lastTag), "item-value", f.counterExample[1].second);
  CHECK(f.counterExample[2].second == "N" + std::to_string(last.back()), "item-value", f.counterExample[2].second);
  // and it is found again from the reproduction data
  if (!p.disableShrinking) {
    const auto again = detail::reproduceProperty(detail::toProperty([&](const std::vector<int> &v, Plain) {
      const Counted c = *gen::arbitrary<Counted>();
      const Named n = *gen::arbitrary<Named>();
      (void)c; (void)n;
      int sum = 0;
      for (int x : v) sum += x > 0;
      RC_ASSERT(sum * 3 <= limit);
    }), f.reproduce);
    detail::FailureResult g;
    REQUIRE_(again.match(g), "reproduced", "the failure was not found again");
    CHECK(g.counterExample == f.counterExample, "reproduced", "other counterexample");
    mon::count("reproductions");
  }
  CHECK(Counted::alive == 0, "leak", Counted::alive << " instances left");
  mon::count("counterexamples_checked");
  mon::distinctStr(want);
}

// Commands without a display of their own are listed, but not named.
SECTION("commands", 200, 3000) {
  detail::TestParams p;
  p.seed = rng.next();
  p.disableShrinking = rng.chance(1, 2);
  Listener quiet;
  std::vector<std::string> ran;
  const auto r = detail::checkProperty(detail::toProperty([&] {
    int sut = 0;
    state::check(0, sut, state::gen::execOneOfWithArgs<Bare, Shown>());
  }), {}, p, quiet, {});
  detail::FailureResult f;
  REQUIRE_(r.match(f), "commands-fail", "no sequence of commands failed");
  REQUIRE_(f.counterExample.size() == 1, "command-items", f.counterExample.size() << " items");
  std::istringstream lines(f.counterExample[0].second);
  std::string line, end;
  size_t bare = 0, n = 0;
  while (std::getline(lines, line)) {
    if (line.empty()) continue;
    n++;
    end = line;
    if (line.find("[unknown command]") != std::string::npos) bare++;
    else CHECK(line.find("Shown") != std::string::npos, "command-display", line);
  }
  CHECK(bare >= 1, "command-display", f.counterExample[0].second);
  if (!p.disableShrinking) CHECK(n == 3 && end.find("[unknown command]") != std::string::npos, "minimal-commands", f.counterExample[0].second);
  mon::count("command_sequences");
  mon::distinctStr(f.counterExample[0].second);
}
