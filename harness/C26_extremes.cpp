// C26: extreme but legal use (see C26_robust.cpp for faults in callbacks).
#include "progs.hpp"
#include "tree.hpp"
#include <array>
#include <climits>
#include <memory>
#include <set>
#include <map>
#include <rapidcheck/state.h>
#include "src/detail/Testing.h"
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using progs::Recorder;
template <typename T> static void extremeScalar(Rng &rng, const Gen<T> &g) {
  static const int sizes[] = {0, 1, 2, 31, 32, 33, 63, 64, 65, 99, 100, 101, 1000, 1 << 20, INT_MAX / 64, INT_MAX / 64 + 1, INT_MAX - 1, INT_MAX};
  const int size = rng.chance(2, 3) ? sizes[rng.below(18)] : (int)(rng.next() >> (33 + rng.below(30)));
  const auto s = g(Random(rng.chance(1, 10) ? 0 : rng.next()), size);
  tree::walk(rng, s, [&](const T &, const T *, size_t, size_t) { return true; }, 2, 30, 100);
  mon::count("extreme_generations");
  mon::distinct(mon::comb(size, mon::hashStr(toString(s.value()))));
}
template <typename T> static void extremesOf(Rng &rng) {
  using L = std::numeric_limits<T>;
  static const T pts[] = {L::min(), (T)(L::min() + 1), (T)(L::max() / 2), 0, 1, (T)-1, (T)(L::max() - 1), L::max()};
  const T a = pts[rng.below(8)], b = pts[rng.below(8)];
  switch (rng.below(8)) {
  case 0: extremeScalar(rng, gen::arbitrary<T>()); break;
  case 1: if (a < b) extremeScalar(rng, gen::inRange<T>(a, b)); else {
      bool threw = false;
      try { gen::inRange<T>(a, b)(Random(rng.next()), 10).value(); } catch (const GenerationFailure &) { threw = true; }
      CHECK(threw, "empty-range-accepted", "inRange(" << +a << ", " << +b << ") generated a value");
      mon::count("rejections");
    }
    break;
  case 2: extremeScalar(rng, gen::nonZero<T>()); break;
  case 3: extremeScalar(rng, gen::positive<T>()); break;
  case 4: extremeScalar(rng, gen::nonNegative<T>()); break;
  case 5: extremeScalar(rng, gen::map(gen::pair(gen::arbitrary<T>(), gen::arbitrary<T>()), [](const std::pair<T, T> &p) { return p.first; })); break;
  case 6: { // shrinking by hand
    size_t n = 0;
    seq::forEach(seq::take(500, shrink::integral<T>(a)), [&](T) { n++; });
    seq::forEach(seq::take(500, shrink::towards<T>(a, b)), [&](T) { n++; });
    mon::count("extreme_shrinks", n);
    break;
  }
  default: extremeScalar(rng, gen::scale(rng.chance(1, 2) ? 1e18 : (double)rng.below(1000000000), gen::arbitrary<T>())); break;
  }
}
SECTION("extreme-scalars", 2500, 100000) {
  switch (rng.below(14)) {
  case 0: extremesOf<char>(rng); break;
  case 1: extremesOf<signed char>(rng); break;
  case 2: extremesOf<unsigned char>(rng); break;
  case 3: extremesOf<short>(rng); break;
  case 4: extremesOf<unsigned short>(rng); break;
  case 5: extremesOf<int>(rng); break;
  case 6: extremesOf<unsigned>(rng); break;
  case 7: extremesOf<long>(rng); break;
  case 8: extremesOf<unsigned long>(rng); break;
  case 9: extremesOf<long long>(rng); break;
  case 10: extremesOf<unsigned long long>(rng); break;
  case 11: extremeScalar(rng, gen::arbitrary<double>()); extremeScalar(rng, gen::arbitrary<float>()); extremeScalar(rng, gen::arbitrary<bool>()); break;
  case 12: extremeScalar(rng, gen::character<char>()); extremeScalar(rng, gen::character<wchar_t>()); extremeScalar(rng, gen::arbitrary<char16_t>()); break;
  default: // composite, yet of a size that does not depend on the size
    extremeScalar(rng, gen::suchThat(gen::arbitrary<int>(), [](int x) { return x % 5 == 0; }));
    extremeScalar(rng, gen::maybe(gen::arbitrary<int>()));
    extremeScalar(rng, gen::sizedOneOf(gen::just(1), gen::just(2), gen::just(3)));
    extremeScalar(rng, gen::sizedElementOf(std::vector<int>{1, 2, 3}));
    extremeScalar(rng, gen::container<std::array<int, 4>>(gen::arbitrary<int>()));
    extremeScalar(rng, gen::container<std::vector<int>>((size_t)rng.below(4), gen::arbitrary<int>()));
    extremeScalar(rng, gen::unique<std::vector<int>>((size_t)rng.below(4), gen::arbitrary<int>()));
    extremeScalar(rng, gen::container<std::set<int>>((size_t)rng.below(4), gen::inRange(0, 9)));
    extremeScalar(rng, gen::withSize([](int s) { return gen::just(s); }));
    extremeScalar(rng, gen::suchThat(gen::withSize([](int s) { return gen::just(s); }), [k = (int)rng.below(200)](int s) { return s % 200 != k; }));
  }
}
SECTION("extreme-sequences", 400, 10000) {
  const size_t huge[] = {0, 1, 1000, SIZE_MAX - 1, SIZE_MAX, (size_t)INT_MAX, (size_t)INT_MAX + 1};
  const size_t n = huge[rng.below(7)];
  const int len = rng.below(6);
  auto base = [&] { return seq::range(0, len); };
  auto count = [](Seq<int> s) { size_t k = 0; while (k < 5000 && s.next()) k++; return k; };
  CHECK(count(seq::take(n, base())) == std::min<size_t>(n, len), "take", n);
  CHECK(n > 100000000 || count(seq::drop(n, base())) == (n >= (size_t)len ? 0 : len - n), "drop", n);
  if (n > 5000) CHECK(count(seq::drop(n, base())) == 0, "drop", n);
  CHECK(bool(seq::at(base(), n)) == (n < (size_t)len), "at", n);
  CHECK(count(seq::range(INT_MAX - 3, INT_MAX)) == 3 && count(seq::range(INT_MIN, INT_MIN + 2)) == 2 && count(seq::range(INT_MIN, INT_MAX)) == 5000, "range", "at the ends of int");
  CHECK(count(seq::range(INT_MAX, INT_MAX)) == 0, "range", "empty at the end of int");
  { // long runs must not recurse
    const int m = 200000;
    CHECK(!seq::filter(seq::range(0, m), [](int) { return false; }).next(), "filter", "long");
    CHECK(!seq::mapMaybe(seq::range(0, m), [](int) -> Maybe<int> { return Nothing; }).next(), "mapMaybe", "long");
    CHECK(!seq::dropWhile(seq::range(0, m), [](int) { return true; }).next(), "dropWhile", "long");
    CHECK(!seq::join(seq::map(seq::range(0, m), [](int) { return Seq<int>(); })).next(), "join", "long");
    CHECK(!seq::mapcat(seq::range(0, m), [](int) { return Seq<int>(); }).next(), "mapcat", "long");
    CHECK(*seq::last(seq::range(0, m)) == m - 1, "last", "long");
    Seq<int> nested = seq::just(1);
    for (int i = 0; i < 500; i++) nested = rng.chance(1, 2) ? seq::concat(seq::just(i), std::move(nested)) : seq::map(std::move(nested), [](int x) { return x; });
    auto copy = nested;
    CHECK(count(nested) == count(copy), "nested", "500 deep");
  }
  mon::count("extreme_sequences");
  mon::distinct(mon::comb(n, len));
}
SECTION("extreme-checks", 120, 3000) {
  TestParams p;
  p.seed = rng.chance(1, 3) ? 0 : rng.chance(1, 2) ? ~0ULL : rng.next();
  const int ext[] = {0, 1, 2, 100, INT_MAX - 1, INT_MAX};
  p.maxSuccess = ext[rng.below(6)];
  p.maxSize = ext[rng.below(6)];
  p.maxDiscardRatio = ext[rng.below(6)];
  p.disableShrinking = rng.chance(1, 3);
  const int stop = (int)rng.below(2500), kind = rng.below(3);
  int n = 0;
  Recorder rec;
  const auto res = progs::runCheck(toProperty([&](int x) {
    n++;
    (void)*gen::inRange(-3, 7);
    if (n >= stop && n < stop + 50) { if (kind == 0) RC_FAIL("stop"); if (kind == 1) throw std::bad_alloc(); RC_FAIL("x"); }
    if (n > 4000) RC_FAIL("limit");
    if (kind == 2 && x % 3) RC_DISCARD("no");
    RC_TAG(x);
  }), p, rec);
  std::ostringstream os;
  printResultMessage(res, os);
  SuccessResult s;
  if (res.match(s)) CHECK(s.numSuccess == p.maxSuccess, "count", progs::showResult(res));
  CHECK(!os.str().empty(), "text", "");
  mon::count("extreme_checks");
  mon::distinctStr(os.str());
}
// Large values, long descents.
SECTION("large", 12, 300) {
  const int n = 20000 + (int)rng.below(40000);
  switch (rng.below(6)) {
  case 0: {
    const auto s = gen::container<std::vector<char>>((size_t)n, gen::arbitrary<char>())(Random(rng.next()), 100);
    CHECK((int)s.value().size() == n, "size", n);
    auto q = s.shrinks();
    for (int i = 0; i < 5; i++) q.next();
    break;
  }
  case 1: {
    const auto s = gen::resize(n, gen::string<std::string>())(Random(rng.next()), 0);
    auto q = s.shrinks();
    for (int i = 0; i < 5; i++) q.next();
    break;
  }
  case 2: {
    const auto s = gen::resize(3000, gen::container<std::set<int>>(gen::arbitrary<int>()))(Random(rng.next()), 0);
    s.value();
    auto q = s.shrinks();
    for (int i = 0; i < 3; i++) if (auto k = q.next()) k->value();
    break;
  }
  case 3: { // a chain of shrinks held by its last link only
    Shrinkable<int> cur = shrinkable::shrinkRecur(n, [](int x) { return x > 0 ? seq::just(x - 1) : Seq<int>(); });
    int steps = 0;
    while (auto k = cur.shrinks().next()) { cur = std::move(*k); steps++; }
    CHECK(steps == n, "steps", steps);
    break;
  }
  case 4: { // many picks
    TestParams p;
    p.seed = rng.next();
    p.maxSuccess = 2;
    Recorder rec;
    int evals = 0;
    const auto res = progs::runCheck(toProperty([&] {
      int s = 0;
      for (int i = 0; i < 400; i++) s += *gen::inRange(0, 3);
      if (++evals < 300) RC_ASSERT(s < 0);
    }), p, rec);
    FailureResult f;
    CHECK(res.match(f) && f.counterExample.size() == 400, "picks", "");
    break;
  }
  default: {
    using M = std::vector<int>;
    struct Sut {};
    struct Push : state::Command<M, Sut> { void apply(M &m) const override { m.push_back(1); } };
    const auto s = state::gen::commands(M(), [](const M &) { return gen::map(gen::just(0), [](int) { return std::shared_ptr<const state::Command<M, Sut>>(std::make_shared<Push>()); }); })(Random(rng.next()), 400);
    s.value();
    auto q = s.shrinks();
    for (int i = 0; i < 3; i++) if (auto k = q.next()) k->value();
  }
  }
  mon::count("large_values");
  mon::distinct(n);
}
// Arguments that are documented not to work.
SECTION("rejections", 300, 3000) {
  auto rejected = [&](auto g, const char *what) {
    bool threw = false;
    try { g(Random(rng.next()), (int)rng.below(50)).value(); } catch (const GenerationFailure &) { threw = true; }
    CHECK(threw, "not-rejected", what);
    // and in a property it is a discard
    TestParams p;
    p.maxSuccess = 2;
    Recorder rec;
    const auto res = progs::runCheck(toProperty([&] { *g; }), p, rec);
    GaveUpResult gu;
    CHECK(res.match(gu), "not-discarded", what << " gave " << progs::showResult(res));
    mon::count("rejections");
    mon::distinctStr(what + toString((int)rng.below(1000)));
  };
  rejected(gen::elementOf(std::vector<int>()), "elementOf nothing");
  rejected(gen::elementOf(std::string()), "elementOf an empty text");
  rejected(gen::sizedElementOf(std::vector<int>()), "sizedElementOf nothing");
  rejected(gen::weightedElement<int>({{0, 1}, {0, 2}}), "weights of zero");
  rejected(gen::weightedOneOf<int>({{0, gen::just(1)}}), "weights of zero");
  rejected(gen::inRange(3, 3), "an empty range");
  rejected(gen::inRange(INT_MAX, INT_MIN), "an inverted range");
  rejected(gen::unique<std::vector<bool>>(3, gen::arbitrary<bool>()), "three different bools");
  rejected(gen::container<std::set<int>>(5, gen::inRange(0, 4)), "five of four");
  rejected(gen::container<std::map<bool, int>>(3, gen::arbitrary<bool>(), gen::just(1)), "three keys of two");
  rejected(gen::suchThat(gen::arbitrary<int>(), [](int) { return false; }), "an impossible filter");
  rejected(gen::container<std::vector<int>>(3, gen::inRange(1, 0)), "elements that cannot be generated");
  rejected(gen::pair(gen::just(1), gen::inRange(1, 0)), "a component that cannot be generated");
}
// Shown in reports: null pointers of every kind.
SECTION("null-pointers", 60, 500) {
  TestParams p;
  p.seed = rng.next();
  p.maxSuccess = 5;
  Recorder rec;
  const auto res = progs::runCheck(toProperty([&] {
    *gen::just(std::shared_ptr<int>()); *gen::just((const char *)nullptr); *gen::just((int *)nullptr);
    *gen::just(std::vector<std::shared_ptr<std::string>>(2)); *gen::just(std::make_pair((const int *)nullptr, 1));
    RC_FAIL("f");
  }), p, rec);
  FailureResult f;
  CHECK(res.match(f) && f.counterExample.size() == 5, "null", progs::showResult(res));
  mon::count("null_pointers_shown", 5);
  mon::distinct(p.seed);
}
