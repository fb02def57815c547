// C07: scalar generators stay in their domain in every shrink.
#include "tree.hpp"
#include <rapidcheck/gen/Chrono.h>
#include <rapidcheck/boost.h>
#include <limits>
using namespace rc;
using mon::Rng;

namespace {
template <typename T> uint64_t mag(T v) {
  if (std::is_signed<T>::value && v < 0) return ~static_cast<uint64_t>(static_cast<int64_t>(v)) + 1;
  return static_cast<uint64_t>(v);
}
template <typename T> std::string sh(const T &v) { return std::to_string(+v); }
std::string sh(const wchar_t &v) { return std::to_string((long)v); }

int randomSize(Rng &r) {
  switch (r.below(8)) {
  case 0: return 0;
  case 1: return 100;
  case 2: return r.below(4);
  case 3: return 100 + r.below(200);
  case 4: return r.chance(1, 4) ? 100 + r.below(2147483500) : 2147483647;
  default: return r.below(101);
  }
}

template <typename T> const char *tn();
#define TN(T) template <> const char *tn<T>() { return #T; }
TN(char) TN(signed char) TN(unsigned char) TN(short) TN(unsigned short) TN(int) TN(unsigned int) TN(long)
TN(unsigned long) TN(long long) TN(unsigned long long) TN(wchar_t) TN(char16_t) TN(char32_t)

template <typename T> T extreme(Rng &r) {
  using L = std::numeric_limits<T>;
  switch (r.below(9)) {
  case 0: return L::min();
  case 1: return L::max();
  case 2: return static_cast<T>(L::min() + r.below(5));
  case 3: return static_cast<T>(L::max() - r.below(5));
  case 4: return static_cast<T>(0);
  case 5: return static_cast<T>(r.below(8));
  case 6: return static_cast<T>(0 - r.below(8));
  case 7: return static_cast<T>(r.next() >> r.below(64));
  default: return static_cast<T>(0 - (r.next() >> r.below(64)));
  }
}

// Arbitrary integers.
template <typename T> void arbitraryInt(Rng &rng) {
  const int size = randomSize(rng);
  Random rnd(rng.next());
  const auto s = gen::arbitrary<T>()(rnd, size);
  std::ostringstream ctx;
  ctx << tn<T>() << " size " << size;
  mon::distinctStr(ctx.str() + sh(s.value()));
  if (size == 0) { CHECK(s.value() == T(0), "size0-not-smallest", ctx.str() << " gave " << sh(s.value())); mon::count("size0_values"); }
  tree::walk(rng, s, [&](const T &v, const T *p, size_t, size_t) {
    if (p) {
      CHECK(mag(v) <= mag(*p), "integer-shrink-grew", ctx.str() << ": " << sh(*p) << " -> " << sh(v));
      CHECK(v != *p, "integer-shrink-same", ctx.str() << ": " << sh(*p));
      CHECK(*p < T(0) || !(v < T(0)), "integer-shrink-lost-sign", ctx.str() << ": " << sh(*p) << " -> " << sh(v));
    }
    return true;
  }, 4, 80);
}

// Shrinking functions called directly.
template <typename T> void shrinkFns(Rng &rng) {
  const T v = extreme<T>(rng), t = extreme<T>(rng);
  std::ostringstream ctx;
  ctx << tn<T>() << " value " << sh(v) << " target " << sh(t);
  mon::distinctStr(ctx.str());
  auto s = shrink::towards<T>(v, t);
  size_t n = 0;
  T prev = t;
  while (auto x = s.next()) {
    n++;
    REQUIRE_(n <= 70, "towards-does-not-end", ctx.str());
    if (n == 1) CHECK(*x == t, "towards-first-not-target", ctx.str() << " first " << sh(*x));
    const bool between = t < v ? (*x >= t && *x < v) : (*x <= t && *x > v);
    CHECK(between, "towards-leaves-interval", ctx.str() << " gave " << sh(*x));
    if (n > 1) CHECK(t < v ? *x > prev : *x < prev, "towards-not-approaching-value", ctx.str() << " gave " << sh(*x) << " after " << sh(prev));
    prev = *x;
  }
  CHECK((n == 0) == (v == t), "towards-empty", ctx.str() << " n=" << n);
  if (n) CHECK(t < v ? static_cast<T>(prev + 1) == v : static_cast<T>(prev - 1) == v, "towards-last-not-adjacent", ctx.str() << " last " << sh(prev));
  auto q = shrink::integral<T>(v);
  n = 0;
  bool zero = false, neg = false;
  while (auto x = q.next()) {
    n++;
    REQUIRE_(n <= 70, "integral-does-not-end", ctx.str());
    if (n == 1) CHECK(*x == T(0), "integral-first-not-zero", ctx.str());
    CHECK(mag(*x) <= mag(v) && *x != v, "integral-shrink-grew", ctx.str() << " gave " << sh(*x));
    if (*x == T(0)) { CHECK(!zero, "integral-zero-twice", ctx.str()); zero = true; }
    if (mag(*x) == mag(v)) neg = true;
  }
  CHECK((n == 0) == (v == T(0)), "integral-empty", ctx.str() << " n=" << n);
  if (v < T(0) && v != std::numeric_limits<T>::min()) CHECK(neg, "integral-no-negation", ctx.str());
  mon::count("direct_shrinks");
}

template <typename T> void range(Rng &rng) {
  T a = extreme<T>(rng), b = extreme<T>(rng);
  if (rng.chance(1, 3)) {
    const T w = static_cast<T>(1 + rng.below(10));
    b = a <= std::numeric_limits<T>::max() - w ? static_cast<T>(a + w) : std::numeric_limits<T>::max();
  }
  if (rng.chance(9, 10) && b < a) std::swap(a, b);
  const int size = randomSize(rng);
  std::ostringstream ctx;
  ctx << "inRange<" << tn<T>() << ">(" << sh(a) << "," << sh(b) << ") size " << size;
  mon::distinctStr(ctx.str());
  const auto g = gen::inRange<T>(a, b);
  const auto s = g(Random(rng.next()), size);
  if (b <= a) {
    bool failed = false;
    try { s.value(); } catch (const GenerationFailure &) { failed = true; }
    CHECK(failed, "invalid-range-not-rejected", ctx.str());
    CHECK(!s.shrinks().next(), "failed-generation-has-shrinks", ctx.str());
    mon::count("invalid_ranges");
    return;
  }
  if (size == 0) { CHECK(s.value() == a, "size0-not-range-min", ctx.str() << " gave " << sh(s.value())); mon::count("size0_values"); }
  // The used part of the range is proportional to the size.
  {
    const uint64_t w = uint64_t(b) - uint64_t(a) - 1;
    const uint64_t used = uint64_t(s.value()) - uint64_t(a);
    const double lim = double(w) * std::min(size, 100) / 100.0;
    CHECK(double(used) <= lim + 1 + lim * 1e-9, "range-wider-than-size", ctx.str() << " gave " << sh(s.value()));
  }
  if (size >= 100) mon::count("full_ranges");
  tree::walk(rng, s, [&](const T &v, const T *p, size_t i, size_t) {
    CHECK(v >= a && v < b, "range-left", ctx.str() << " gave " << sh(v) << (p ? " shrinking " + sh(*p) : ""));
    if (p) {
      CHECK(v < *p, "range-shrink-not-down", ctx.str() << ": " << sh(*p) << " -> " << sh(v));
      if (i == 0) CHECK(v == a, "range-first-shrink-not-min", ctx.str() << ": " << sh(*p) << " -> " << sh(v));
    }
    return true;
  }, 3, 80);
}

template <typename T> void signs(Rng &rng) {
  const int size = rng.chance(1, 3) ? rng.below(3) : randomSize(rng) % 2147483000;
  const int k = rng.below(std::is_signed<T>::value ? 4 : 3);
  const char *names[] = {"nonZero", "nonNegative", "positive", "negative"};
  Gen<T> g = k == 0 ? gen::nonZero<T>() : k == 1 ? gen::nonNegative<T>() : k == 2 ? gen::positive<T>() : gen::negative<T>();
  std::ostringstream ctx;
  ctx << names[k] << "<" << typeid(T).name() << "> size " << size;
  const auto s = g(Random(rng.next()), size);
  bool gave = false;
  try { s.value(); } catch (const GenerationFailure &) { gave = true; }
  REQUIRE_(!gave, "sign-generator-gave-up", ctx.str());
  mon::distinctStr(ctx.str() + std::to_string(s.value()));
  tree::walk(rng, s, [&](const T &v, const T *p, size_t, size_t) {
    const bool ok = k == 0 ? v != 0 : k == 1 ? v >= 0 : k == 2 ? v > 0 : v < 0;
    CHECK(ok, "sign-domain-left", ctx.str() << " gave " << std::to_string(v) << (p ? " shrinking " + std::to_string(*p) : ""));
    return true;
  }, 3, 80);
  mon::count("sign_trees");
}

template <typename T> void real(Rng &rng) {
  const int size = randomSize(rng);
  const auto s = gen::arbitrary<T>()(Random(rng.next()), size);
  std::ostringstream ctx;
  ctx << "real " << typeid(T).name() << " size " << size;
  mon::distinctStr(ctx.str() + std::to_string(s.value()));
  if (size == 0) CHECK(s.value() == T(0), "size0-not-smallest", ctx.str() << " gave " << s.value());
  // integral part has at most size% of 64 bits
  const double bits = 64.0 * std::min(size, 100) / 100.0;
  CHECK(std::abs((double)s.value()) <= std::pow(2.0, bits) + 1, "real-larger-than-size", ctx.str() << " gave " << s.value());
  tree::walk(rng, s, [&](const T &v, const T *p, size_t, size_t) {
    CHECK(std::isfinite(v), "real-not-finite", ctx.str());
    if (p) CHECK(std::abs(v) <= std::abs(*p) && v != *p, "real-shrink-grew", ctx.str() << ": " << *p << " -> " << v);
    return true;
  });
  // shrink::real directly on extreme values
  static const T xs[] = {T(0), T(-0.0), T(0.5), T(-0.5), std::numeric_limits<T>::max(), -std::numeric_limits<T>::max(),
                         std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), T(1e15), T(-3.25), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
  const T x = xs[rng.below(12)];
  auto q = shrink::real<T>(x);
  int n = 0;
  while (auto y = q.next()) {
    n++;
    REQUIRE_(n < 100, "real-does-not-end", x);
    CHECK(std::abs(*y) <= std::abs(x) && *y != x, "real-shrink-grew", x << " -> " << *y);
  }
  CHECK(x == 0 ? n == 0 : n > 0, "real-shrinks-zero", x);
}

template <typename T> void characters(Rng &rng) {
  const int size = randomSize(rng);
  const auto s = gen::character<T>()(Random(rng.next()), size);
  std::ostringstream ctx;
  ctx << "character<" << tn<T>() << ">";
  mon::distinctStr(ctx.str() + std::to_string((long)s.value()));
  auto visit = [&](const T &v, const T *p, size_t, size_t) {
    CHECK(v != T(0), "nul-character", ctx.str() << (p ? " shrinking " + std::to_string((long)*p) : std::string(" generated")));
    if (p) CHECK(v != *p, "character-shrink-same", ctx.str() << " " << (long)*p);
    if (p) CHECK((v > 0 && v < 128) , "character-shrink-not-ascii", ctx.str() << " " << (long)*p << " -> " << (long)v);
    return true;
  };
  tree::walk(rng, s, visit, 4);
  // Every non-NUL character as a start.
  const T c = static_cast<T>(rng.chance(1, 3) ? (rng.next() & 0xff) << (8 * rng.below(sizeof(T))) : rng.next());
  if (c != T(0)) {
    ctx << " from " << (long)c;
    tree::walk(rng, shrinkable::shrinkRecur(c, &shrink::character<T>), visit, 3);
  }
  mon::count("character_trees");
}

template <typename S> void strings(Rng &rng) {
  using T = typename S::value_type;
  int size = rng.below(3) ? rng.below(30) : rng.below(120);
  auto g = rng.chance(1, 2) ? gen::string<S>() : gen::arbitrary<S>();
  const auto s = g(Random(rng.next()), size);
  std::ostringstream ctx;
  ctx << "string<" << typeid(T).name() << "> size " << size;
  if (size == 0) CHECK(s.value().empty(), "size0-not-smallest", ctx.str());
  mon::distinct(mon::hashBytes(s.value().data(), s.value().size() * sizeof(T)));
  tree::walk(rng, s, [&](const S &v, const S *p, size_t, size_t) {
    CHECK(v.size() <= size_t(size), "string-longer-than-size", ctx.str() << " length " << v.size());
    if (p) CHECK(v.size() <= p->size() && v != *p, "string-shrink-grew", ctx.str());
    for (auto c : v) CHECK(c != T(0), "nul-in-string", ctx.str());
    return true;
  }, 2, 40, 20);
  mon::count("string_trees");
}

template <typename Rep, typename Period> void duration(Rng &rng) {
  using D = std::chrono::duration<Rep, Period>;
  using TP = std::chrono::time_point<std::chrono::system_clock, D>;
  const int size = rng.below(110);
  const Random rnd(rng.next());
  const auto s = gen::arbitrary<D>()(rnd, size);
  const auto t = gen::arbitrary<TP>()(rnd, size);
  if (size == 0) CHECK(s.value() == D(0) && t.value() == TP(), "size0-not-smallest", "duration");
  auto visit = [&](const D &v, const D *p, size_t, size_t) {
    if (p) CHECK((v.count() < 0 ? -(double)v.count() : (double)v.count()) <= (p->count() < 0 ? -(double)p->count() : (double)p->count()) && v != *p,
                 "duration-shrink-grew", p->count() << " -> " << v.count());
    return true;
  };
  tree::walk(rng, s, visit);
  tree::walk(rng, shrinkable::map(t, [](TP &&x) { return x.time_since_epoch(); }), visit);
  mon::count("chrono_trees");
}

// Optional values: Maybe and boost::optional.
template <typename O> void optionals(Rng &rng, const std::function<Gen<O>(Gen<int>)> &make) {
  const int size = rng.chance(1, 4) ? 0 : rng.chance(1, 20) ? 2147483647 : rng.below(150);
  const int lo = rng.range(-50, 50), hi = lo + 1 + rng.below(100);
  const auto g = make(gen::inRange(lo, hi));
  const auto s = g(Random(rng.next()), size);
  if (size == 0) CHECK(!s.value(), "size0-not-smallest", "Maybe gave a value");
  auto show = [](const O &m) { return m ? std::to_string(*m) : std::string("Nothing"); };
  mon::distinctStr(show(s.value()) + std::to_string(lo));
  tree::walk(rng, s, [&](const O &v, const O *p, size_t i, size_t) {
    if (v) CHECK(*v >= lo && *v < hi, "maybe-left-domain", show(v));
    if (p) {
      CHECK(bool(*p), "nothing-has-shrinks", show(v));
      if (*p) {
        if (i == 0) CHECK(!v, "maybe-first-shrink-not-nothing", show(*p) << " -> " << show(v));
        else CHECK(v && *v < **p, "maybe-shrink-not-down", show(*p) << " -> " << show(v));
      }
    }
    return true;
  });
  mon::count(s.value() ? "maybe_just" : "maybe_nothing");
}

enum class Color { red = 1, green = 7, blue = -3 };
void enumerated(Rng &rng) {
  const int size = randomSize(rng);
  auto g = rng.chance(1, 2) ? gen::element(Color::red, Color::green, Color::blue)
                            : gen::elementOf(std::vector<Color>{Color::red, Color::blue, Color::green});
  const auto s = rng.chance(1, 2) ? g(Random(rng.next()), size) : gen::cast<Color>(gen::element(1, 7, -3))(Random(rng.next()), size);
  mon::distinct((uint64_t)s.value());
  tree::walk(rng, s, [&](const Color &v, const Color *, size_t, size_t) {
    CHECK(v == Color::red || v == Color::green || v == Color::blue, "enum-left-set", (int)v);
    return true;
  });
  const auto b = gen::arbitrary<bool>()(Random(rng.next()), size);
  tree::walk(rng, b, [&](const bool &v, const bool *p, size_t i, size_t) {
    unsigned char raw;
    std::memcpy(&raw, &v, 1);
    CHECK(raw <= 1, "bool-representation", (int)raw);
    if (p) CHECK(*p && !v && i == 0, "bool-shrink", *p << " -> " << v);
    return true;
  });
  CHECK(bool(b.shrinks().next()) == b.value(), "bool-shrink-missing", b.value());
  mon::count("enumerated_trees");
}

#define ALL(F, r)                                                                                                       \
  switch (r.below(11)) {                                                                                               \
  case 0: F<char>(r); break;                                                                                            \
  case 1: F<signed char>(r); break;                                                                                     \
  case 2: F<unsigned char>(r); break;                                                                                   \
  case 3: F<short>(r); break;                                                                                           \
  case 4: F<unsigned short>(r); break;                                                                                  \
  case 5: F<int>(r); break;                                                                                             \
  case 6: F<unsigned int>(r); break;                                                                                    \
  case 7: F<long>(r); break;                                                                                            \
  case 8: F<unsigned long>(r); break;                                                                                   \
  case 9: F<long long>(r); break;                                                                                       \
  default: F<unsigned long long>(r); break;                                                                             \
  }
} // namespace

SECTION("arbitrary", 3000, 300000) { ALL(arbitraryInt, rng) }
SECTION("arbitrary-chars", 300, 20000) {
  switch (rng.below(3)) {
  case 0: arbitraryInt<wchar_t>(rng); break;
  case 1: arbitraryInt<char16_t>(rng); break;
  default: arbitraryInt<char32_t>(rng); break;
  }
}
SECTION("shrink-functions", 6000, 600000) { ALL(shrinkFns, rng) }
SECTION("ranges", 6000, 600000) { ALL(range, rng) }
SECTION("signs", 2000, 200000) {
  if (rng.chance(1, 6)) signs<double>(rng);
  else if (rng.chance(1, 6)) signs<float>(rng);
  else ALL(signs, rng)
}
SECTION("reals", 1200, 100000) {
  switch (rng.below(3)) {
  case 0: real<float>(rng); break;
  case 1: real<double>(rng); break;
  default: real<long double>(rng); break;
  }
}
SECTION("characters", 1500, 150000) {
  switch (rng.below(6)) {
  case 0: characters<char16_t>(rng); break;
  case 1: characters<char32_t>(rng); break;
  case 2: case 3: characters<wchar_t>(rng); break;
  default: characters<char>(rng); break;
  }
}
SECTION("strings", 500, 40000) {
  switch (rng.below(6)) {
  case 0: strings<std::u16string>(rng); break;
  case 1: strings<std::u32string>(rng); break;
  case 2: case 3: strings<std::wstring>(rng); break;
  default: strings<std::string>(rng); break;
  }
}
SECTION("chrono", 300, 30000) {
  switch (rng.below(4)) {
  case 0: duration<int, std::milli>(rng); break;
  case 1: duration<long long, std::nano>(rng); break;
  case 2: duration<short, std::ratio<3600>>(rng); break;
  default: duration<double, std::ratio<1>>(rng); break;
  }
}
SECTION("maybe", 800, 80000) { optionals<Maybe<int>>(rng, [](Gen<int> g) { return gen::maybe(std::move(g)); }); }
SECTION("boost-optional", 500, 40000) {
  optionals<boost::optional<int>>(rng, [](Gen<int> g) { return gen::boost::optional(std::move(g)); });
  // the arbitrary one, and how it is shown
  const auto s = gen::arbitrary<boost::optional<std::string>>()(Random(rng.next()), (int)rng.below(60));
  const auto m = gen::arbitrary<boost::optional<unsigned char>>()(Random(rng.next()), 0);
  CHECK(!m.value(), "size0-not-smallest", "boost::optional gave a value");
  mon::count(s.value() ? "boost_just" : "boost_none");
}
SECTION("enumerated", 400, 40000) { enumerated(rng); }
