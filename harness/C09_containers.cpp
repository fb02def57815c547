// C09: containers keep their shape and uniqueness while shrinking.
#include "tree.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace rc;
using mon::Rng;

namespace {
// An element knows which call of the element generator it came from.
struct E { int64_t id; int v; int lo; };
bool operator==(const E &a, const E &b) { return a.id == b.id && a.v == b.v; }
bool operator!=(const E &a, const E &b) { return !(a == b); }
std::ostream &operator<<(std::ostream &os, const E &e) { return os << e.v << "#" << (e.id & 0xfff); }
struct ByV { bool operator()(const E &a, const E &b) const { return a.v < b.v; } };
struct EqV { bool operator()(const E &a, const E &b) const { return a.v == b.v; } };
struct HashV { size_t operator()(const E &a) const { return (size_t)a.v * 7; } };
bool operator<(const E &a, const E &b) { return a.v < b.v; }
// For maps the documented restriction is that keys compare equal with ==.
struct K { E e; };
bool operator==(const K &a, const K &b) { return a.e.v == b.e.v; }
bool operator<(const K &a, const K &b) { return a.e.v < b.e.v; }
std::ostream &operator<<(std::ostream &os, const K &k) { return os << "k" << k.e; }
struct HashK { size_t operator()(const K &a) const { return (size_t)a.e.v * 5; } };

bool same(const E &a, const E &b) { return a == b; }
bool same(const K &a, const K &b) { return a.e == b.e; }
template <typename A, typename B> bool same(const std::pair<A, B> &a, const std::pair<A, B> &b) { return same(a.first, b.first) && same(a.second, b.second); }
bool shrunk(const E &a, const E &b) { return a.id == b.id && b.v < a.v && b.v >= b.lo; }
bool shrunk(const K &a, const K &b) { return shrunk(a.e, b.e); }
template <typename A, typename B> bool shrunk(const std::pair<A, B> &a, const std::pair<A, B> &b) {
  return (shrunk(a.first, b.first) && same(a.second, b.second)) || (same(a.first, b.first) && shrunk(a.second, b.second));
}
std::string show(const E &e) { return mon::str(e); }
std::string show(const K &e) { return mon::str(e); }
template <typename A, typename B> std::string show(const std::pair<A, B> &p) { return show(p.first) + "=" + show(p.second); }
template <typename T> std::string show(const std::vector<T> &v) {
  std::string s = "[";
  for (auto &x : v) s += show(x) + " ";
  return s + "]";
}
void ids(const E &e, std::vector<int64_t> &o) { o.push_back(e.id); }
void ids(const K &e, std::vector<int64_t> &o) { o.push_back(e.e.id); }
template <typename A, typename B> void ids(const std::pair<A, B> &p, std::vector<int64_t> &o) { ids(p.first, o); ids(p.second, o); }
int keyOf(const E &e) { return e.v; }
int keyOf(const K &e) { return e.e.v; }
template <typename A, typename B> int keyOf(const std::pair<A, B> &p) { return keyOf(p.first); }

struct Rec { std::vector<int64_t> given; std::vector<int> sizes; std::vector<Random> randoms; };
Gen<E> elems(std::shared_ptr<Rec> rec, int lo, int hi) {
  return [=](const Random &r, int size) {
    Random rr(r);
    const int64_t id = (int64_t)(rr.split().next() >> 1);
    // (maps make one placeholder value from the default random state)
    if (!(r == Random())) rec->given.push_back(id);
    if (!(r == Random())) rec->sizes.push_back(size);
    rec->randoms.push_back(r);
    return shrinkable::map(gen::inRange(lo, hi)(rr, size), [=](int v) { return E{id, v, lo}; });
  };
}
Gen<K> keys(std::shared_ptr<Rec> rec, int lo, int hi) { return gen::map(elems(rec, lo, hi), [](E e) { return K{e}; }); }

template <typename C> auto flat(const C &c) {
  using T = std::decay_t<decltype(*c.begin())>;
  std::vector<T> o;
  for (auto &x : c) o.push_back(x);
  return o;
}
// drop const from map keys
template <typename A, typename B> std::vector<std::pair<A, B>> unconst(const std::vector<std::pair<const A, B>> &v) {
  std::vector<std::pair<A, B>> o;
  for (auto &p : v) o.push_back({p.first, p.second});
  return o;
}
template <typename T> std::vector<T> unconst(const std::vector<T> &v) { return v; }

enum Order { ordered, unordered };
enum Uniq { none, byValue, byThird };

template <typename C>
void check(Rng &rng, const std::string &what, const Gen<C> &g, std::shared_ptr<Rec> rec, int size, long fixed, Order ord, Uniq uniq) {
  std::ostringstream w;
  w << what << " size=" << size;
  if (fixed >= 0) w << " count=" << fixed;
  rec->given.clear(); rec->sizes.clear(); rec->randoms.clear();
  const auto s = g(Random(rng.next()), size);
  bool failed = false;
  try { s.value(); } catch (const GenerationFailure &) { failed = true; }
  if (failed) {
    mon::count("generation_failures");
    // Only unique containers may be impossible to fill.
    CHECK(uniq != none, "container-generation-failed", w.str());
    return;
  }
  const auto root = unconst(flat(s.value()));
  for (int z : rec->sizes) CHECK(z >= size && (uniq != none || z == size), "element-size", w.str() << " element generated at size " << z);
  {
    std::vector<int64_t> o;
    for (auto &e : root) ids(e, o);
    std::set<int64_t> uniqIds(o.begin(), o.end()), given(rec->given.begin(), rec->given.end());
    CHECK(uniqIds.size() == o.size(), "same-draw-used-twice", w.str() << " " << show(root));
    for (auto i : o) CHECK(given.count(i), "element-not-from-generator", w.str() << " " << show(root));
    CHECK(given.size() == rec->given.size(), "element-random-reused", w.str());
  }
  mon::distinctStr(w.str() + show(root));
  if (root.size() > 1) mon::count("multi_element_containers");
  tree::walk(rng, s, [&](const C &c, const C *pc, size_t, size_t) {
    const auto v = unconst(flat(c));
    if (fixed >= 0) CHECK(v.size() == (size_t)fixed, "fixed-count-broken", w.str() << " has " << v.size() << ": " << show(v));
    else CHECK(v.size() <= (size_t)size, "more-elements-than-size", w.str() << " has " << v.size());
    if (uniq != none) {
      std::set<int> ks;
      for (auto &e : v) ks.insert(uniq == byValue ? keyOf(e) : (keyOf(e) + 3000) / 3);
      CHECK(ks.size() == v.size(), "duplicate-key", w.str() << " " << show(v));
    }
    if (!pc) return true;
    const auto p = unconst(flat(*pc));
    if (v.size() < p.size()) {
      CHECK(fixed < 0, "fixed-count-broken", w.str());
      if (ord == ordered) {
        size_t j = 0;
        for (size_t i = 0; i < p.size() && j < v.size(); i++) if (same(p[i], v[j])) j++;
        CHECK(j == v.size(), "removal-changed-others", w.str() << " " << show(p) << " -> " << show(v));
      } else {
        auto rest = p;
        bool ok = true;
        for (auto &x : v) {
          size_t i = 0;
          while (i < rest.size() && !same(rest[i], x)) i++;
          if (i == rest.size()) { ok = false; break; }
          rest.erase(rest.begin() + i);
        }
        CHECK(ok, "removal-changed-others", w.str() << " " << show(p) << " -> " << show(v));
      }
      mon::count("removal_shrinks");
    } else {
      REQUIRE_RET(v.size() == p.size(), "shrink-added-elements", w.str() << " " << show(p) << " -> " << show(v));
      int diff = 0;
      bool ok = true;
      if (ord == ordered) {
        for (size_t i = 0; i < v.size(); i++)
          if (!same(v[i], p[i])) { diff++; ok = ok && shrunk(p[i], v[i]); }
      } else {
        auto a = p, b = v;
        for (size_t i = 0; i < a.size();) {
          size_t j = 0;
          while (j < b.size() && !same(a[i], b[j])) j++;
          if (j < b.size()) { b.erase(b.begin() + j); a.erase(a.begin() + i); } else i++;
        }
        diff = a.size();
        ok = a.size() == 1 && b.size() == 1 && shrunk(a[0], b[0]);
      }
      CHECK(diff == 1 && ok, "element-shrink-wrong", w.str() << " " << diff << " changed: " << show(p) << " -> " << show(v));
      mon::count("element_shrinks");
    }
    return true;
  }, 3, 50, 50);
  mon::count(fixed >= 0 ? "fixed_containers" : "free_containers");
}
#define CASE(I, NAME, TYPE, GENS, ORD, UNI)                                                                            \
  case I: {                                                                                                            \
    using C = TYPE;                                                                                                    \
    if (fixed >= 0) check<C>(rng, NAME, gen::container<C>((size_t)fixed, GENS), rec, size, fixed, ORD, UNI);           \
    else check<C>(rng, NAME, gen::container<C>(GENS), rec, size, fixed, ORD, UNI);                                     \
    break;                                                                                                             \
  }
#define COMMA ,

void params(Rng &rng, int &lo, int &hi, int &size, long &fixed) {
  lo = rng.range(-20, 20);
  hi = lo + 1 + rng.below(rng.chance(1, 3) ? 6 : 60);
  size = rng.chance(1, 10) ? 0 : rng.below(rng.chance(1, 6) ? 120 : 25);
  fixed = rng.chance(1, 2) ? -1 : (long)rng.below(12);
}
void sequences(Rng &rng) {
  int lo, hi, size; long fixed;
  params(rng, lo, hi, size, fixed);
  auto rec = std::make_shared<Rec>();
  const auto e = elems(rec, lo, hi);
  switch (rng.below(4)) {
    CASE(0, "vector", std::vector<E>, e, ordered, none)
    CASE(1, "deque", std::deque<E>, e, ordered, none)
    CASE(2, "list", std::list<E>, e, ordered, none)
    CASE(3, "forward_list", std::forward_list<E>, e, ordered, none)
  }
}
void sets(Rng &rng) {
  int lo, hi, size; long fixed;
  params(rng, lo, hi, size, fixed);
  auto rec = std::make_shared<Rec>();
  const auto e = elems(rec, lo, hi);
  using US = std::unordered_set<E COMMA HashV COMMA EqV>;
  using UMS = std::unordered_multiset<E COMMA HashV COMMA EqV>;
  using S = std::set<E COMMA ByV>;
  using MS = std::multiset<E COMMA ByV>;
  switch (rng.below(4)) {
    CASE(0, "set", S, e, unordered, byValue)
    CASE(1, "multiset", MS, e, unordered, none)
    CASE(2, "unordered_set", US, e, unordered, byValue)
    CASE(3, "unordered_multiset", UMS, e, unordered, none)
  }
}
void maps(Rng &rng) {
  int lo, hi, size; long fixed;
  params(rng, lo, hi, size, fixed);
  auto rec = std::make_shared<Rec>();
  const auto k = keys(rec, lo, hi);
  const auto e = elems(rec, 0, 30);
  using M = std::map<K, E>;
  using MM = std::multimap<K, E>;
  using UM = std::unordered_map<K, E, HashK>;
  using UMM = std::unordered_multimap<K, E, HashK>;
  switch (rng.below(4)) {
    CASE(0, "map", M, k COMMA e, unordered, byValue)
    CASE(1, "multimap", MM, k COMMA e, unordered, none)
    CASE(2, "unordered_map", UM, k COMMA e, unordered, byValue)
    CASE(3, "unordered_multimap", UMM, k COMMA e, unordered, none)
  }
}
void uniques(Rng &rng) {
  int lo, hi, size; long fixed;
  params(rng, lo, hi, size, fixed);
  auto rec = std::make_shared<Rec>();
  const auto e = elems(rec, lo, hi);
  auto key = [](const E &x) { return (x.v + 3000) / 3; };
  switch (rng.below(4)) {
  case 0: {
    using C = std::vector<E>;
    check<C>(rng, "unique<vector>", fixed >= 0 ? gen::unique<C>((size_t)fixed, e) : gen::unique<C>(e), rec, size, fixed, ordered, byValue);
    break;
  }
  case 1: {
    using C = std::list<E>;
    check<C>(rng, "unique<list>", fixed >= 0 ? gen::unique<C>((size_t)fixed, e) : gen::unique<C>(e), rec, size, fixed, ordered, byValue);
    break;
  }
  case 2: {
    using C = std::vector<E>;
    check<C>(rng, "uniqueBy<vector>", fixed >= 0 ? gen::uniqueBy<C>((size_t)fixed, e, key) : gen::uniqueBy<C>(e, key), rec, size, fixed, ordered, byThird);
    break;
  }
  default: {
    using C = std::deque<E>;
    check<C>(rng, "uniqueBy<deque>", fixed >= 0 ? gen::uniqueBy<C>((size_t)fixed, e, key) : gen::uniqueBy<C>(e, key), rec, size, fixed, ordered, byThird);
    break;
  }
  }
}
template <size_t N> void arrays(Rng &rng) {
  auto rec = std::make_shared<Rec>();
  const auto e = elems(rec, -5, 40);
  using C = std::array<E, N>;
  const int size = rng.below(60);
  check<C>(rng, "array", rng.chance(1, 2) ? gen::container<C>(e) : gen::container<C>(N, e), rec, size, N, ordered, none);
  size_t other = rng.below(2 * N + 2);
  if (other == N) other++;
  const auto s = gen::container<C>(other, e)(Random(rng.next()), size);
  bool failed = false;
  try { s.value(); } catch (const GenerationFailure &) { failed = true; }
  CHECK(failed, "array-wrong-count-accepted", "array of " << N << " with count " << other);
  mon::count("array_wrong_counts");
}
// Impossible requests fail; exactly fitting ones give every value.
void tight(Rng &rng) {
  auto rec = std::make_shared<Rec>();
  const int n = 1 + rng.below(6);
  const auto e = elems(rec, 0, n);
  const bool fit = rng.chance(1, 2);
  const size_t count = fit ? n : n + 1 + rng.below(5);
  using S = std::set<E, ByV>;
  using V = std::vector<E>;
  const int k = rng.below(3);
  auto run = [&](auto g, const char *nm) {
    const auto s = g(Random(rng.next()), 100);
    bool failed = false;
    size_t got = 0;
    try { auto c = s.value(); got = std::distance(c.begin(), c.end()); } catch (const GenerationFailure &) { failed = true; }
    if (!fit) { CHECK(failed, "impossible-unique-container", nm << " of " << count << " out of " << n << " values has " << got); mon::count("impossible_requests"); }
    else {
      CHECK(failed || got == count, "fixed-count-broken", nm << " " << got << " of " << count);
      // at most six values: failing to hit the last one would take luck of one in 10^8
      CHECK(!failed, "possible-unique-container", nm << " of all " << n << " values is not found");
    }
  };
  if (k == 0) run(gen::container<S>(count, e), "set");
  else if (k == 1) run(gen::unique<V>(count, e), "unique");
  else run(gen::container<std::map<K, E>>(count, keys(rec, 0, n), e), "map");
}
// All but one of many values: each is found within a few dozen tries, though
// there are hundreds of collisions in total.
void crowded(Rng &rng) {
  const int n = (int)rng.range(50, 70);
  const size_t count = n - 1;
  const int k = rng.below(4);
  int found = 0;
  for (int t = 0; t < 10; t++) {
    const Random r(rng.next());
    try {
      size_t got = 0;
      if (k == 0) got = gen::container<std::set<int>>(count, gen::inRange(0, n))(r, 100).value().size();
      else if (k == 1) got = gen::unique<std::vector<int>>(count, gen::inRange(0, n))(r, 100).value().size();
      else if (k == 2) got = gen::container<std::map<int, char>>(count, gen::inRange(0, n), gen::arbitrary<char>())(r, 100).value().size();
      else got = gen::uniqueBy<std::vector<int>>(count, gen::inRange(0, n), [](int x) { return -x; })(r, 100).value().size();
      CHECK(got == count, "fixed-count-broken", got << " of " << count);
      found++;
    } catch (const GenerationFailure &) {}
  }
  CHECK(found > 0, "possible-unique-container", "no container of " << count << " of " << n << " values found (kind " << k << ")");
  mon::count("crowded_containers", found);
  mon::distinct(n * 4 + k);
}
// A second value exists only at a size some tries away: the size grows with
// every collision.
void growing(Rng &rng) {
  const int size = (int)rng.below(100), away = 1 + (int)rng.below(85), k = rng.below(3);
  const Gen<int> g([=](const Random &, int s) { return shrinkable::just(s >= size + away ? 1 : 0); });
  size_t got = 0;
  try {
    const Random r(rng.next());
    if (k == 0) got = gen::container<std::set<int>>(2, g)(r, size).value().size();
    else if (k == 1) got = gen::unique<std::vector<int>>(2, g)(r, size).value().size();
    else got = gen::container<std::map<int, bool>>(2, g, gen::arbitrary<bool>())(r, size).value().size();
  } catch (const GenerationFailure &) {}
  CHECK(got == 2, "size-not-raised", "two different values need size " << size + away << ", from size " << size << " a container of " << got << " was found (kind " << k << ")");
  mon::count("containers_needing_growth");
  mon::distinct(mon::comb(size * 4 + k, away));
}
// Strings.
template <typename S> void strings(Rng &rng) {
  const int size = rng.below(40);
  const auto s = (rng.chance(1, 2) ? gen::arbitrary<S>() : gen::container<S>(gen::inRange<typename S::value_type>('a', 'p')))(Random(rng.next()), size);
  mon::distinct(mon::hashBytes(s.value().data(), s.value().size() * sizeof(typename S::value_type)));
  tree::walk(rng, s, [&](const S &v, const S *p, size_t, size_t) {
    CHECK(v.size() <= (size_t)size, "more-elements-than-size", "string " << v.size() << " at size " << size);
    if (!p) return true;
    if (v.size() < p->size()) {
      size_t j = 0;
      for (size_t i = 0; i < p->size() && j < v.size(); i++) if ((*p)[i] == v[j]) j++;
      CHECK(j == v.size(), "removal-changed-others", "string " << toString(*p) << " -> " << toString(v));
    } else {
      int diff = 0;
      for (size_t i = 0; i < v.size() && i < p->size(); i++) diff += v[i] != (*p)[i];
      CHECK(v.size() == p->size() && diff == 1, "element-shrink-wrong", "string " << toString(*p) << " -> " << toString(v));
    }
    return true;
  }, 3, 60, 40);
  mon::count("string_containers");
}
// Nested arbitrary containers, sizes at every level.
void nested(Rng &rng) {
  using V = std::map<std::string, std::vector<std::set<signed char>>>;
  const int size = rng.below(12);
  const auto s = gen::arbitrary<V>()(Random(rng.next()), size);
  mon::distinctStr(toString(s.value()));
  tree::walk(rng, s, [&](const V &v, const V *p, size_t, size_t) {
    bool ok = v.size() <= (size_t)size;
    for (auto &x : v) {
      // keys and values of maps may be regenerated at a grown size
      ok = ok && x.second.size() <= (size_t)size + 100;
      for (auto &y : x.second) ok = ok && y.size() <= (size_t)size + 100;
    }
    CHECK(ok, "more-elements-than-size", toString(v));
    if (p) CHECK(v != *p, "shrink-equals-parent", toString(v));
    return true;
  }, 2, 30, 30);
  mon::count("nested_containers");
}
// Tuples and pairs shrink one component at a time.
void tuples(Rng &rng) {
  using T = std::tuple<int, std::vector<int>, bool, int>;
  const int size = rng.below(60);
  const auto s = gen::tuple(gen::inRange(-10, 30), gen::container<std::vector<int>>(gen::inRange(0, 5)), gen::arbitrary<bool>(), gen::arbitrary<int>())(Random(rng.next()), size);
  mon::distinctStr(toString(s.value()));
  tree::walk(rng, s, [&](const T &v, const T *p, size_t, size_t) {
    CHECK(std::get<0>(v) >= -10 && std::get<0>(v) < 30 && std::get<1>(v).size() <= (size_t)size, "component-domain", toString(v));
    if (p) {
      const int d = (std::get<0>(v) != std::get<0>(*p)) + (std::get<1>(v) != std::get<1>(*p)) + (std::get<2>(v) != std::get<2>(*p)) + (std::get<3>(v) != std::get<3>(*p));
      CHECK(d == 1, "tuple-components-changed", d << " changed: " << toString(*p) << " -> " << toString(v));
      CHECK(std::get<0>(v) <= std::get<0>(*p) && std::get<1>(v).size() <= std::get<1>(*p).size() && std::get<2>(v) <= std::get<2>(*p), "tuple-component-grew", toString(*p) << " -> " << toString(v));
    }
    return true;
  });
  using P = std::pair<int, int>;
  const auto q = gen::pair(gen::inRange(-10, 30), gen::inRange(5, 100))(Random(rng.next()), size);
  tree::walk(rng, q, [&](const P &v, const P *p, size_t, size_t) {
    CHECK(v.first >= -10 && v.first < 30 && v.second >= 5 && v.second < 100, "component-domain", toString(v));
    if (p) CHECK((v.first < p->first && v.second == p->second) || (v.first == p->first && v.second < p->second), "tuple-components-changed", toString(*p) << " -> " << toString(v));
    return true;
  });
  mon::count("tuple_trees", 2);
}
} // namespace

SECTION("sequences", 900, 60000) { sequences(rng); }
SECTION("sets", 900, 60000) { sets(rng); }
SECTION("maps", 700, 50000) { maps(rng); }
SECTION("uniques", 900, 60000) { uniques(rng); }
SECTION("arrays", 400, 20000) {
  switch (rng.below(3)) {
  case 0: arrays<1>(rng); break;
  case 1: arrays<3>(rng); break;
  default: arrays<8>(rng); break;
  }
}
SECTION("tight", 400, 20000) { tight(rng); }
SECTION("crowded", 60, 2000) { crowded(rng); }
SECTION("growing", 300, 4000) { growing(rng); }
SECTION("strings", 300, 20000) {
  switch (rng.below(6)) {
  case 0: strings<std::u16string>(rng); break;
  case 1: strings<std::u32string>(rng); break;
  case 2: case 3: strings<std::wstring>(rng); break;
  default: strings<std::string>(rng); break;
  }
}
SECTION("nested", 80, 5000) { nested(rng); }
SECTION("tuples", 300, 20000) { tuples(rng); }
