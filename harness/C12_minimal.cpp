#include "C12_measure.hpp"

namespace {
struct Run { char verdict = '?'; Example example; int tries = 0; int shrinks = 0; };
struct Count : TestListenerAdapter {
  int tries = 0;
  void onShrinkTried(const CaseDescription &, bool) override { tries++; }
};
template <typename F> Run run(Rng &rng, F &&f, int maxSuccess = 200) {
  TestParams p;
  p.seed = rng.next();
  p.maxSuccess = maxSuccess;
  p.maxSize = (int)rng.range(20, 100);
  p.maxDiscardRatio = 100;
  Count l;
  TestMetadata md;
  const TestResult res = checkProperty(toProperty(std::forward<F>(f)), md, p, l, {});
  Run r;
  FailureResult fr; SuccessResult s;
  if (res.match(fr)) { r.verdict = 'F'; r.example = fr.counterExample; r.shrinks = fr.numSuccess; }
  else if (res.match(s)) r.verdict = 'S';
  r.tries = l.tries;
  return r;
}
std::string show(const Example &e) { std::string s; for (auto &p : e) s += p.first + " = " + p.second + "; "; return s; }
template <typename T> std::string arg(const T &x) { return toString(std::make_tuple(x)); }
void expect(const Run &r, const std::vector<std::string> &want, const std::string &what) {
  if (r.verdict != 'F') { mon::count("no_failure_found"); return; }
  mon::count("minimal_counterexamples");
  mon::count("shrinks_tried", r.tries);
  bool ok = r.example.size() == want.size();
  for (size_t i = 0; ok && i < want.size(); i++) ok = r.example[i].second == want[i];
  std::string w;
  for (auto &s : want) w += s + "; ";
  CHECK(ok, "minimal", what << " was minimised to " << show(r.example) << " instead of " << w);
  mon::distinctStr(what);
  mon::sample(what + " => " + show(r.example));
}
template <typename T> T threshold(Rng &rng) { // 1..max, log scale
  const int bits = (int)rng.range(1, sizeof(T) * 8 - (std::is_signed<T>::value ? 1 : 0));
  const uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
  const T t = (T)(rng.next() & m);
  return t < 1 ? 1 : t;
}
template <typename T> void integerThreshold(Rng &rng, const char *name) {
  const T t = threshold<T>(rng);
  const std::string d = std::string(name) + " " + std::to_string(t) + " ";
  switch (rng.below(6)) {
  case 0: expect(run(rng, [=](T x) { RC_ASSERT(!(x >= t)); }), {arg(t)}, d + "x >= t"); break;
  case 1:
    if (std::is_signed<T>::value) { const T u = (T)-t; expect(run(rng, [=](T x) { RC_ASSERT(!(x <= u)); }), {arg(u)}, d + "x <= -t"); }
    else expect(run(rng, [=](T) { return false; }), {"(0)"}, d + "always");
    break;
  case 2: // either sign: the positive one is smaller
    expect(run(rng, [=](T x) { RC_ASSERT(mag(x) < mag(t)); }), {arg(t)}, d + "|x| >= t"); break;
  case 3: { // at a type extreme
    const T e = std::numeric_limits<T>::max();
    const T w = (T)(e - (T)rng.below(3));
    expect(run(rng, [=] { const T x = *gen::inRange<T>((T)(e - 20), e); RC_ASSERT(!(x >= w)); }), {toString(w)}, d + "near max"); // may not exist
    break;
  }
  case 4: { // through map
    expect(run(rng, [=] { const auto x = *gen::map(gen::arbitrary<T>(), [](T v) { return std::make_pair(v, 1); }); RC_ASSERT(!(x.first >= t)); }), {toString(std::make_pair(t, 1))}, d + "mapped"); break;
  }
  default: // a filter that keeps everything below
    expect(run(rng, [=] { const T x = *gen::suchThat(gen::arbitrary<T>(), [](T v) { return v >= 0; }); RC_ASSERT(!(x >= t)); }), {toString(t)}, d + "filtered");
  }
}
template <typename T> void rangeThreshold(Rng &rng, const char *name) {
  T lo = (T)rng.next(), hi = (T)rng.next();
  if (rng.chance(1, 3)) lo = std::numeric_limits<T>::min();
  if (rng.chance(1, 3)) hi = std::numeric_limits<T>::max();
  if (hi < lo) std::swap(lo, hi);
  if (lo == hi) return;
  using U = std::make_unsigned_t<T>;
  const uint64_t span = (U)((U)hi - (U)lo);
  const T t = (T)((U)lo + (U)(rng.next() % span) / (U)(1 + rng.below(8)));
  expect(run(rng, [=] { const T x = *gen::inRange<T>(lo, hi); RC_ASSERT(!(x >= t)); }), {toString(t)},
         std::string("range ") + name + " " + std::to_string(lo) + ".." + std::to_string(hi) + " x >= " + std::to_string(t));
}
template <typename C, typename E> void containerLength(Rng &rng, const char *name, E zero, Gen<C> g) {
  const size_t n = rng.below(13);
  C want;
  for (size_t i = 0; i < n; i++) want.insert(want.end(), zero);
  expect(run(rng, [=] { const C c = *g; RC_ASSERT((size_t)std::distance(c.begin(), c.end()) < n); }), {toString(want)}, std::string(name) + " of length >= " + std::to_string(n));
}
template <typename C, typename E> void containerElement(Rng &rng, const char *name, E t) {
  C want;
  want.insert(want.end(), t);
  expect(run(rng, [=](const C &c) { for (auto &x : c) RC_ASSERT(x < t); }), {arg(want)}, std::string(name) + " with an element >= " + toString(t));
}
template <typename C> void lengthAndElement(Rng &rng, const char *name) {
  const size_t n = 1 + rng.below(9);
  const int t = (int)threshold<int16_t>(rng);
  TestParams p;
  p.seed = rng.next();
  Count l;
  TestMetadata md;
  C found;
  auto fails = [=](const C &c) {
    bool big = false;
    for (auto x : c) big |= x >= t;
    return c.size() >= n && big;
  };
  // the last failing execution is the reported one or an earlier failing shrink of it
  const TestResult res = checkProperty(toProperty([&, fails](const C &c) { if (fails(c)) found = c; RC_ASSERT(!fails(c)); }), md, p, l, {});
  FailureResult fr;
  if (!res.match(fr)) { mon::count("no_failure_found"); return; }
  mon::count("minimal_counterexamples");
  size_t zeros = 0, ts = 0;
  for (auto x : found) { zeros += x == 0; ts += x == t; }
  CHECK(found.size() == n && ts == 1 && zeros == n - 1, "minimal", name << " with " << n << " elements and one >= " << t << " was minimised to " << toString(found));
  CHECK(fr.counterExample.size() == 1 && fr.counterExample[0].second == arg(found), "minimal.reported", "reported " << show(fr.counterExample) << " but the last failing case was " << toString(found));
  mon::distinctStr(std::string(name) + std::to_string(n) + "/" + std::to_string(t));
}
// Containers with unique elements or keys: shrinking stops only where no single
// element can be dropped or made smaller without meeting another one.
template <typename C, typename Fails> C smallest(Rng &rng, const char *name, Gen<C> g, Fails fails, bool &found) {
  TestParams p;
  p.seed = rng.next();
  p.maxSize = (int)rng.range(20, 120);
  Count l;
  TestMetadata md;
  C last;
  const TestResult res = checkProperty(toProperty([&] { const C c = *g; if (fails(c)) { last = c; RC_FAIL("small enough"); } }), md, p, l, {});
  FailureResult fr;
  found = res.match(fr);
  if (!found) { mon::count("no_failure_found"); return last; }
  mon::count("minimal_counterexamples");
  mon::count("unique_minimised");
  CHECK(fr.counterExample.size() == 1 && fr.counterExample[0].second == toString(last), "minimal.reported", "reported " << show(fr.counterExample) << " but the last failing case was " << toString(last));
  mon::distinctStr(std::string(name) + toString(last));
  return last;
}
template <typename M> void mapMinimum(Rng &rng, const char *name, Gen<M> g) {
  const size_t n = 1 + rng.below(7);
  const int t = (int)threshold<int16_t>(rng);
  const bool multi = std::string(name).find("multi") == 0;
  auto fails = [=](const M &m) {
    bool big = false;
    for (auto &e : m) big |= e.second >= t;
    return m.size() >= n && big;
  };
  bool found;
  const M m = smallest(rng, name, g, fails, found);
  if (!found) return;
  size_t zeros = 0, ts = 0;
  for (auto &e : m) { zeros += e.second == 0; ts += e.second == t; }
  CHECK(m.size() == n && ts == 1 && zeros == n - 1, "minimal.map-values", name << " with " << n << " entries and one value >= " << t << " was minimised to " << toString(m));
  for (auto &e : m)
    seq::forEach(shrink::integral<int>(e.first), [&](int k) { CHECK(multi ? false : m.find(k) != m.end(), "minimal.map-keys", name << ": key " << e.first << " of " << toString(m) << " could have become " << k); });
}
template <typename S> void setMinimum(Rng &rng, const char *name, Gen<S> g) {
  const size_t n = 1 + rng.below(9);
  const int t = 1 + (int)rng.below(3000);
  auto fails = [=](const S &s) {
    bool big = false;
    for (auto e : s) big |= e >= t;
    return s.size() >= n && big;
  };
  bool found;
  const S s = smallest(rng, name, g, fails, found);
  if (!found) return;
  CHECK(s.size() == n, "minimal.set-size", name << " with " << n << " elements and one >= " << t << " was minimised to " << toString(s));
  for (int e : s)
    seq::forEach(shrink::integral<int>(e), [&](int x) {
      S c(s);
      c.erase(e);
      CHECK(!c.insert(x).second || !fails(c), "minimal.set-elements", name << " of >= " << n << " elements, one >= " << t << ": " << e << " in " << toString(s) << " could have become " << x);
    });
}
} // namespace

SECTION("unique", 500, 8000) {
  switch (rng.below(9)) {
  case 0: mapMinimum(rng, "map<int,int>", A<std::map<int, int>>()); break;
  case 1: mapMinimum(rng, "unordered_map<int,int>", A<std::unordered_map<int, int>>()); break;
  case 2: mapMinimum(rng, "multimap<int,int>", A<std::multimap<int, int>>()); break;
  case 3: { const size_t n = 7 + rng.below(5); mapMinimum(rng, "map of a range", gen::suchThat(gen::container<std::map<int, int>>(gen::arbitrary<int>(), gen::inRange(0, 40000)), [=](const std::map<int, int> &m) { return m.size() < 10 * n; })); break; }
  case 4: setMinimum(rng, "set<int>", A<std::set<int>>()); break;
  case 5: setMinimum(rng, "unordered_set<int>", A<std::unordered_set<int>>()); break;
  case 6: setMinimum(rng, "unique vector", gen::map(gen::unique<std::vector<int>>(A<int>()), [](const std::vector<int> &v) { return std::set<int>(v.begin(), v.end()); })); break;
  case 7: setMinimum(rng, "unique deque by", gen::map(gen::uniqueBy<std::deque<int>>(A<int>(), [](int x) { return (int64_t)x * 3; }), [](const std::deque<int> &v) { return std::set<int>(v.begin(), v.end()); })); break;
  default: mapMinimum(rng, "multimap<int,int>", gen::container<std::multimap<int, int>>(A<int>(), A<int>())); break;
  }
}
// One shrinkable element at the end of very many.
SECTION("long-elements", 6, 60) {
  const size_t n = 66000 + rng.below(5000), at = n - 1 - rng.below(3);
  std::vector<char> v(n, 'x');
  v[at] = 'y';
  auto s = shrink::eachElement(v, [](char c) { return c == 'y' ? seq::just('z', 'w') : Seq<char>(); });
  for (char c : {'z', 'w'}) {
    const auto x = s.next();
    REQUIRE_(x && x->size() == n && (*x)[at] == c, "minimal.long-container", "element " << at << " of " << n << " is not shrunk to " << c);
  }
  CHECK(!s.next(), "minimal.long-container", "more shrinks than there are");
  mon::count("long_element_shrinks");
  mon::distinct(n);
}

SECTION("integers", 700, 12000) {
  switch (rng.below(8)) {
  case 0: integerThreshold<int>(rng, "int"); break;
  case 1: integerThreshold<int64_t>(rng, "int64"); break;
  case 2: integerThreshold<uint64_t>(rng, "uint64"); break;
  case 3: integerThreshold<uint32_t>(rng, "uint32"); break;
  case 4: integerThreshold<int16_t>(rng, "int16"); break;
  case 5: integerThreshold<uint16_t>(rng, "uint16"); break;
  case 6: integerThreshold<signed char>(rng, "int8"); break;
  default: integerThreshold<unsigned char>(rng, "uint8"); break;
  }
}
SECTION("ranges", 700, 12000) {
  switch (rng.below(6)) {
  case 0: rangeThreshold<int>(rng, "int"); break;
  case 1: rangeThreshold<int64_t>(rng, "int64"); break;
  case 2: rangeThreshold<uint64_t>(rng, "uint64"); break;
  case 3: rangeThreshold<int16_t>(rng, "int16"); break;
  case 4: rangeThreshold<signed char>(rng, "int8"); break;
  default: rangeThreshold<uint32_t>(rng, "uint32"); break;
  }
}
SECTION("containers", 500, 8000) {
  const int t = (int)threshold<int16_t>(rng);
  const int lo = (int)rng.range(-50, 50);
  switch (rng.below(19)) {
  case 0: containerLength<std::vector<int>, int>(rng, "vector<int>", 0, A<std::vector<int>>()); break;
  case 1: containerLength<std::list<int64_t>, int64_t>(rng, "list<int64>", 0, A<std::list<int64_t>>()); break;
  case 2: containerLength<std::deque<std::string>, std::string>(rng, "deque<string>", std::string(), A<std::deque<std::string>>()); break;
  case 3: containerLength<std::string, char>(rng, "string", 'a', A<std::string>()); break;
  case 4: containerLength<std::vector<std::vector<int>>, std::vector<int>>(rng, "vector<vector<int>>", {}, A<std::vector<std::vector<int>>>()); break;
  case 5: containerLength<std::vector<int>, int>(rng, "vector of range", lo, gen::container<std::vector<int>>(gen::inRange(lo, lo + 100))); break;
  case 6: containerLength<std::multiset<int>, int>(rng, "multiset<int>", 0, A<std::multiset<int>>()); break;
  case 7: containerLength<std::vector<Maybe<int>>, Maybe<int>>(rng, "vector<Maybe>", Nothing, A<std::vector<Maybe<int>>>()); break;
  case 8: containerElement<std::vector<int>, int>(rng, "vector<int>", t); break;
  case 9: containerElement<std::list<int>, int>(rng, "list<int>", t); break;
  case 10: containerElement<std::deque<int64_t>, int64_t>(rng, "deque<int64>", threshold<int64_t>(rng)); break;
  case 11: containerElement<std::vector<unsigned>, unsigned>(rng, "vector<unsigned>", threshold<unsigned>(rng)); break;
  case 12: lengthAndElement<std::vector<int>>(rng, "vector<int>"); break;
  case 13: lengthAndElement<std::deque<int>>(rng, "deque<int>"); break;
  case 14: { // a single offending character
    const char k = (char)rng.range('d', 'z');
    const std::string w(1, k);
    expect(run(rng, [=](const std::string &s) { RC_ASSERT(s.find(k) == std::string::npos); }), {arg(w)}, "string with " + w);
    break;
  }
  case 15: containerLength<std::u16string, char16_t>(rng, "u16string", u'a', gen::string<std::u16string>()); break;
  case 16: containerLength<std::u32string, char32_t>(rng, "u32string", U'a', gen::string<std::u32string>()); break;
  case 17: containerLength<std::wstring, wchar_t>(rng, "wstring", L'a', gen::string<std::wstring>()); break;
  default: { // exact number of elements; the others are minimal
    const size_t n = 1 + rng.below(8), at = rng.below(n);
    std::vector<int> w(n, 0);
    w[at] = t;
    expect(run(rng, [=] { const auto v = *gen::container<std::vector<int>>(n, A<int>()); RC_ASSERT(v[at] < t); }), {toString(w)}, "fixed " + std::to_string(n) + " at " + std::to_string(at));
  }
  }
}
SECTION("several", 400, 6000) {
  const int a = (int)threshold<int>(rng), b = (int)threshold<int16_t>(rng);
  const size_t n = rng.below(8);
  switch (rng.below(7)) {
  case 5: { // many arguments, of which one or two decide
    const int k = (int)rng.below(9), k2 = rng.chance(1, 2) ? k : (int)rng.below(9);
    std::vector<int> w(9, 0);
    w[k] = w[k2] = b;
    auto fails = [=](const std::vector<int> &v) { return v[k] >= b && v[k2] >= b; };
    const auto want = toString(std::make_tuple(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8]));
    if (rng.chance(1, 2))
      expect(run(rng, [=](int p, int q, int r, int s, int t, int u, int v, int x, int y) { RC_ASSERT(!fails({p, q, r, s, t, u, v, x, y})); }), {want}, "nine arguments, " + std::to_string(k) + " and " + std::to_string(k2));
    else
      expect(run(rng, [=] {
        const auto e = gen::arbitrary<int>();
        const auto z = *gen::tuple(e, e, e, e, e, e, e, e, e);
        RC_ASSERT(!fails({std::get<0>(z), std::get<1>(z), std::get<2>(z), std::get<3>(z), std::get<4>(z), std::get<5>(z), std::get<6>(z), std::get<7>(z), std::get<8>(z)}));
      }), {want}, "tuple of nine, " + std::to_string(k) + " and " + std::to_string(k2));
    break;
  }
  case 0: expect(run(rng, [=](int x, int y) { RC_ASSERT(!(x >= a && y >= b)); }), {toString(std::make_tuple(a, b))}, "args"); break;
  case 1: expect(run(rng, [=](int x, const std::vector<int> &v) { RC_ASSERT(!(x >= a && v.size() >= n)); }), {toString(std::make_tuple(a, std::vector<int>(n, 0)))}, "int and vector"); break;
  case 2: expect(run(rng, [=] { const int x = *A<int>(); const int y = *A<int>(); RC_ASSERT(!(x >= a && y >= b)); }), {toString(a), toString(b)}, "two picks"); break;
  case 3: expect(run(rng, [=](const std::pair<int, std::string> &p) { RC_ASSERT(!(p.first >= a && p.second.size() >= n)); }), {toString(std::make_tuple(std::make_pair(a, std::string(n, 'a'))))}, "pair"); break;
  case 4: expect(run(rng, [=](std::chrono::milliseconds d) { RC_ASSERT(d.count() < a); }), {toString(std::make_tuple(std::chrono::milliseconds(a)))}, "duration"); break;
  default: expect(run(rng, [=](int x, unsigned y, int64_t z) { RC_ASSERT(!(x >= 1 && y >= (unsigned)b && z >= 0)); }), {toString(std::make_tuple(1, (unsigned)b, (int64_t)0))}, "three"); break;
  }
}

// Containers far longer than what default sizes give.
SECTION("large", 60, 900) {
  const size_t len = 100 + rng.below(300), at = rng.chance(1, 3) ? len - 1 : rng.below(len);
  const size_t n = 1 + rng.below(20);
  const int t = (int)threshold<int>(rng), fill = rng.chance(1, 2) ? 0 : t - 1;
  auto root = [=](std::vector<int> v) {
    return shrinkable::shrinkRecur(v, [](const std::vector<int> &x) {
      return seq::concat(shrink::removeChunks(x), shrink::eachElement(x, [](int e) { return shrink::integral<int>(e); }));
    });
  };
  std::vector<int> v(len, fill);
  v[at] = t;
  const Gen<std::vector<int>> g([=](const Random &, int) { return root(v); });
  const int kind = rng.below(3);
  std::vector<int> want;
  if (kind == 0) {
    want = {t};
    expect(run(rng, [=] { const auto x = *g; for (int e : x) RC_ASSERT(e < t); }, 2), {toString(want)}, "one of " + std::to_string(len) + " at " + std::to_string(at));
  } else if (kind == 1) {
    want.assign(n, 0);
    expect(run(rng, [=] { const auto x = *g; RC_ASSERT(x.size() < n); }, 2), {toString(want)}, "length " + std::to_string(n) + " from " + std::to_string(len));
  } else { // a long minimal container
    const size_t sz = len * 3 / 4 + rng.below(len / 4);
    const Gen<std::string> s([=](const Random &, int) {
      return shrinkable::shrinkRecur(std::string(len, 'a'), [](const std::string &x) { return shrink::removeChunks(x); });
    });
    expect(run(rng, [=] { const auto x = *s; RC_ASSERT(x.size() < sz); }, 2), {toString(std::string(sz, 'a'))}, "length " + std::to_string(sz) + " from " + std::to_string(len));
  }
}
