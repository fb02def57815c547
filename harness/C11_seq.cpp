// C11: lazy sequences behave as the lists they denote.
#include "mon.hpp"
#include <rapidcheck.h>
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <unordered_set>
using namespace rc;
using mon::Rng;

namespace {
// An element whose moved-from state is visible.
struct E {
  std::vector<int> d;
  E() = default;
  explicit E(int v) : d(3, v) {}
  int v() const { return d.empty() ? -777777 : d[0]; }
  bool good() const { return d.size() == 3 && d[0] == d[1] && d[1] == d[2]; }
};
bool operator==(const E &a, const E &b) { return a.d == b.d; }
bool operator!=(const E &a, const E &b) { return !(a == b); }
bool operator<(const E &a, const E &b) { return a.d < b.d; }
std::ostream &operator<<(std::ostream &os, const E &e) { return os << e.v(); }
struct HashE { size_t operator()(const E &e) const { return (size_t)e.v() * 31; } };

// What a sequence denotes: a list, or the known prefix of an infinite one.
struct L {
  std::vector<int> x;
  bool open = false; // continues beyond x in a way the model does not follow
};
constexpr size_t LIM = 160;
L cut(L l) {
  if (l.x.size() > LIM) { l.x.resize(LIM); l.open = true; }
  return l;
}
std::string show(const L &l) {
  std::string s = "[";
  for (auto v : l.x) s += std::to_string(v) + " ";
  return s + (l.open ? "...]" : "]");
}

// Pure functors on values; some throw for some values.
struct Fn { int a, b, m, t; // v -> (v*a+b) mod m ; throws when |v| % 23 == t (t >= 0)
  bool bad(int v) const { return t >= 0 && (v < 0 ? -v : v) % 23 == t; }
  int of(int v) const { return (int)(((int64_t)v * a + b) % m); }
  int operator()(int v) const { if (bad(v)) throw std::runtime_error("mapper"); return of(v); }
  bool pred(int v) const { return ((of(v) % 5) + 5) % 5 != 0; }
};
Fn randomFn(Rng &rng, bool mayThrow = true) {
  return Fn{(int)rng.range(-7, 9), (int)rng.range(-50, 50), (int)rng.range(40, 999), mayThrow && rng.chance(1, 6) ? (int)rng.below(23) : -1};
}

struct X { Seq<E> s; L l; std::string d; };
X build(Rng &rng, int depth);

template <typename C> X ofContainer(Rng &, std::vector<int> v, const char *name, bool lvalue) {
  C c;
  for (auto i : v) c.insert(c.end(), E(i));
  L l;
  for (auto &e : c) l.x.push_back(e.v());
  X r{lvalue ? seq::fromContainer(c) : seq::fromContainer(C(c)), l, name};
  return r;
}
std::vector<int> randomInts(Rng &rng, size_t max = 12) {
  std::vector<int> v(rng.below(max + 1));
  for (auto &i : v) i = (int)rng.range(-60, 200);
  return v;
}
// A source that throws after k elements, or counts.
struct ThrowingSource {
  std::vector<int> v; size_t i = 0;
  Maybe<E> operator()() {
    if (i >= v.size()) throw std::string("source");
    return E(v[i++]);
  }
};
X leaf(Rng &rng) {
  auto v = randomInts(rng);
  switch (rng.below(16)) {
  case 0: return X{Seq<E>(), L{}, "empty"};
  case 1: return X{seq::just(E(v.size() ? v[0] : 3)), L{{v.size() ? v[0] : 3}}, "just"};
  case 2: return X{seq::just(E(4), E(-9), E(4)), L{{4, -9, 4}}, "just3"};
  case 3: return ofContainer<std::vector<E>>(rng, v, "vector", rng.chance(1, 2));
  case 4: return ofContainer<std::list<E>>(rng, v, "list", rng.chance(1, 2));
  case 5: return ofContainer<std::deque<E>>(rng, v, "deque", rng.chance(1, 2));
  case 6: return ofContainer<std::set<E>>(rng, v, "set", rng.chance(1, 2));
  case 7: return ofContainer<std::multiset<E>>(rng, v, "multiset", rng.chance(1, 2));
  case 8: return ofContainer<std::unordered_set<E, HashE>>(rng, v, "unordered_set", false);
  case 9: {
    std::list<E> es;
    for (auto i : v) es.push_back(E(i));
    auto x = X{seq::fromIteratorRange(es.begin(), es.end()), L{v}, "iterators"};
    for (auto &e : es) e = E(0);
    return x;
  }
  case 10: {
    const int a = (int)rng.range(-40, 40), b = (int)rng.range(-40, 40);
    L l;
    for (int i = a; i != b; i += a < b ? 1 : -1) l.x.push_back(i);
    return X{seq::map(seq::range(a, b), [](int i) { return E(i); }), l, "range"};
  }
  case 11: {
    const int c = (int)rng.range(-9, 99);
    return X{seq::repeat(E(c)), L{std::vector<int>(LIM, c), true}, "repeat"};
  }
  case 12: {
    Fn f = randomFn(rng, false);
    L l; l.open = true;
    int c = (int)rng.range(-9, 99), y = c;
    for (size_t i = 0; i < LIM; i++) { l.x.push_back(y); y = f.of(y); }
    return X{seq::iterate(E(c), [f](E e) { return E(f(e.v())); }), l, "iterate"};
  }
  case 13: {
    L l; l.open = true;
    for (size_t i = 0; i < LIM; i++) l.x.push_back((int)i);
    return X{seq::map(seq::index(), [](size_t i) { return E((int)i); }), l, "index"};
  }
  case 14: return X{Seq<E>(ThrowingSource{v}), L{v}, "throwing source"};
  default: {
    const size_t a = rng.below(9), b = a + rng.below(9);
    L l;
    for (size_t n = b - a; n >= 1; n--)
      for (size_t s = a; s + n <= b; s++) l.x.push_back((int)(s * 100 + s + n));
    return X{seq::map(seq::subranges(a, b), [](const std::pair<size_t, size_t> &p) { return E((int)(p.first * 100 + p.second)); }), l, "subranges"};
  }
  }
}
L truncAt(const std::vector<int> &x, bool open, Fn f, std::vector<int> &kept) {
  // elements up to the first for which f throws
  L r; r.open = open;
  for (auto v : x) {
    if (f.bad(v)) { r.open = false; break; }
    kept.push_back(v);
  }
  return r;
}
X build(Rng &rng, int depth) {
  if (depth <= 0 || rng.chance(1, 7)) return leaf(rng);
  X a = build(rng, depth - 1);
  L r;
  Fn f = randomFn(rng);
  switch (rng.below(14)) {
  case 0: { // map
    std::vector<int> k;
    r = truncAt(a.l.x, a.l.open, f, k);
    for (auto v : k) r.x.push_back(f.of(v));
    return X{seq::map(std::move(a.s), [f](E e) { return E(f(e.v())); }), cut(r), "map(" + a.d + ")"};
  }
  case 1: { // filter
    std::vector<int> k;
    r = truncAt(a.l.x, a.l.open, f, k);
    for (auto v : k) if (f.pred(v)) r.x.push_back(v);
    return X{seq::filter(std::move(a.s), [f](const E &e) { f(e.v()); return f.pred(e.v()); }), cut(r), "filter(" + a.d + ")"};
  }
  case 2: { // mapMaybe
    std::vector<int> k;
    r = truncAt(a.l.x, a.l.open, f, k);
    for (auto v : k) if (f.pred(v)) r.x.push_back(f.of(v));
    return X{seq::mapMaybe(std::move(a.s), [f](E e) { const int y = f(e.v()); return f.pred(e.v()) ? Maybe<E>(E(y)) : Maybe<E>(); }), cut(r), "mapMaybe(" + a.d + ")"};
  }
  case 3: { // take
    const size_t n = rng.chance(1, 10) ? (size_t)-1 : rng.below(14);
    r = a.l;
    if (n <= r.x.size()) { r.x.resize(n); r.open = false; }
    return X{seq::take(n, std::move(a.s)), cut(r), "take" + std::to_string(n) + "(" + a.d + ")"};
  }
  case 4: { // drop
    const size_t n = rng.below(9);
    r = a.l;
    r.x.erase(r.x.begin(), r.x.begin() + std::min(n, r.x.size()));
    return X{seq::drop(n, std::move(a.s)), cut(r), "drop" + std::to_string(n) + "(" + a.d + ")"};
  }
  case 5: { // takeWhile
    r.open = a.l.open;
    for (auto v : a.l.x) {
      if (f.bad(v) || !f.pred(v)) { r.open = false; break; }
      r.x.push_back(v);
    }
    return X{seq::takeWhile(std::move(a.s), [f](const E &e) { f(e.v()); return f.pred(e.v()); }), cut(r), "takeWhile(" + a.d + ")"};
  }
  case 6: { // dropWhile
    r.open = a.l.open;
    size_t i = 0;
    bool thrown = false;
    for (; i < a.l.x.size(); i++) {
      if (f.bad(a.l.x[i])) { thrown = true; break; }
      if (!f.pred(a.l.x[i])) break;
    }
    if (thrown) r.open = false;
    else r.x.assign(a.l.x.begin() + i, a.l.x.end());
    return X{seq::dropWhile(std::move(a.s), [f](const E &e) { f(e.v()); return f.pred(e.v()); }), cut(r), "dropWhile(" + a.d + ")"};
  }
  case 7: { // concat 2 or 3
    X b = build(rng, depth - 1);
    r = a.l;
    if (!r.open) { r.x.insert(r.x.end(), b.l.x.begin(), b.l.x.end()); r.open = b.l.open; }
    if (rng.chance(1, 2)) return X{seq::concat(std::move(a.s), std::move(b.s)), cut(r), "concat(" + a.d + "," + b.d + ")"};
    X c = build(rng, depth - 2);
    if (!r.open) { r.x.insert(r.x.end(), c.l.x.begin(), c.l.x.end()); r.open = c.l.open; }
    return X{seq::concat(std::move(a.s), std::move(b.s), std::move(c.s)), cut(r), "concat(" + a.d + "," + b.d + "," + c.d + ")"};
  }
  case 8: { // join
    std::vector<Seq<E>> parts;
    const size_t n = rng.below(5);
    std::string d;
    bool open = false;
    for (size_t i = 0; i < n; i++) {
      X b = build(rng, depth - 2);
      parts.push_back(b.s);
      d += b.d + ",";
      if (!open) { r.x.insert(r.x.end(), b.l.x.begin(), b.l.x.end()); open = b.l.open; }
    }
    r.open = open;
    return X{seq::join(seq::fromContainer(parts)), cut(r), "join(" + d + ")"};
  }
  case 9: { // mapcat: each element becomes a list of 0..3 elements
    std::vector<int> k;
    r = truncAt(a.l.x, a.l.open, f, k);
    for (auto v : k) {
      const int n = ((f.of(v) % 4) + 4) % 4;
      for (int i = 0; i < n; i++) r.x.push_back(f.of(v) + i);
    }
    return X{seq::mapcat(std::move(a.s), [f](E e) {
      const int y = f(e.v()), n = ((y % 4) + 4) % 4;
      return seq::map(seq::range(0, n), [y](int i) { return E(y + i); });
    }), cut(r), "mapcat(" + a.d + ")"};
  }
  case 10: { // zipWith
    X b = build(rng, depth - 1);
    const size_t n = std::min(a.l.x.size(), b.l.x.size());
    // both operands are asked for their next element, so an unknown one leaves the end unknown
    r.open = (a.l.x.size() == n && a.l.open) || (b.l.x.size() == n && b.l.open);
    bool thrown = false;
    for (size_t i = 0; i < n && !thrown; i++) {
      const int v = a.l.x[i] * 3 + b.l.x[i];
      if (f.bad(v)) { thrown = true; r.open = false; }
      else r.x.push_back(f.of(v));
    }
    return X{seq::zipWith([f](E x, E y) { return E(f(x.v() * 3 + y.v())); }, std::move(a.s), std::move(b.s)), cut(r), "zip(" + a.d + "," + b.d + ")"};
  }
  case 11: { // cycle of something finite and not empty
    if (a.l.open || a.l.x.empty()) return a;
    r.open = true;
    while (r.x.size() < LIM) r.x.insert(r.x.end(), a.l.x.begin(), a.l.x.end());
    return X{seq::cycle(std::move(a.s)), cut(r), "cycle(" + a.d + ")"};
  }
  case 12: { // cast there and back
    for (auto v : a.l.x) r.x.push_back((int)(int8_t)v);
    r.open = a.l.open;
    auto ints = seq::map(std::move(a.s), [](E e) { return e.v(); });
    return X{seq::map(seq::cast<int8_t>(std::move(ints)), [](int8_t c) { return E(c); }), cut(r), "cast(" + a.d + ")"};
  }
  default: { // partly consumed before being used
    size_t n = rng.below(4);
    for (size_t i = 0; i < n; i++) {
      if (a.l.x.empty() && a.l.open) break;
      auto e = a.s.next();
      CHECK(!e == a.l.x.empty(), "element", a.d << ": element " << i << " while pre-consuming");
      if (!e) break;
      CHECK(e->v() == a.l.x[0], "element", a.d << ": gave " << e->v() << " for " << a.l.x[0]);
      a.l.x.erase(a.l.x.begin());
    }
    a.d = "rest(" + a.d + ")";
    return a;
  }
  }
}
} // namespace

// Random expressions, consumed through a pool of copies.
SECTION("expressions", 6000, 90000) {
  X x = build(rng, (int)rng.range(1, 7));
  mon::count("expressions");
  mon::distinctStr(x.d + show(x.l));
  if (x.l.x.size() > 3) mon::sample(x.d + " = " + show(x.l));
  struct C { Seq<E> s; size_t pos; bool ended; };
  std::vector<C> pool;
  pool.push_back(C{std::move(x.s), 0, false});
  const Seq<E> pristine = pool[0].s; // a copy must not be consumed by others
  const size_t ops = 20 + rng.below(80);
  for (size_t o = 0; o < ops; o++) {
    const size_t i = rng.below(pool.size());
    switch (rng.below(8)) {
    case 0: if (pool.size() < 6) { pool.push_back(pool[i]); mon::count("copies_taken_midway"); } break;
    case 1: { const size_t j = rng.below(pool.size()); auto &src = pool[j]; pool[i] = src; mon::count("copies_taken_midway"); break; }
    case 2: { C t = std::move(pool[i]); pool[i] = std::move(t); break; }
    case 3: if (pool.size() > 1) pool.erase(pool.begin() + i); break;
    default: {
      auto &c = pool[i];
      const size_t run = 1 + rng.below(9);
      for (size_t k = 0; k < run; k++) {
        if (c.pos >= x.l.x.size() && x.l.open) break; // beyond what the model knows
        auto e = c.s.next();
        const bool want = c.pos < x.l.x.size();
        CHECK(!!e == want, "length", x.d << " after " << c.pos << " elements " << (e ? "continues with " + std::to_string(e->v()) : std::string("ends")) << "; denotes " << show(x.l));
        if (!e || !want) { mon::count("ends_observed"); break; }
        CHECK(e->good(), "moved_from", x.d << " element " << c.pos << " was moved from");
        CHECK(e->v() == x.l.x[c.pos], "element", x.d << " element " << c.pos << " is " << e->v() << "; denotes " << show(x.l));
        c.pos++;
        mon::count("elements_compared");
      }
    }
    }
  }
  // Whole-sequence operations on copies of the untouched one.
  if (!x.l.open) {
    const auto &v = x.l.x;
    CHECK(seq::length(pristine) == v.size(), "op.length", x.d << " length " << seq::length(pristine) << " denotes " << show(x.l));
    auto last = seq::last(pristine);
    CHECK(!!last == !v.empty() && (!last || last->v() == v.back()), "op.last", x.d << " last of " << show(x.l));
    std::vector<int> each;
    seq::forEach(pristine, [&](E e) { each.push_back(e.v()); });
    CHECK(each == v, "op.forEach", x.d << " forEach");
    std::vector<int> it;
    for (auto &e : pristine) it.push_back(e.v());
    CHECK(it == v, "op.iterator", x.d << " iteration");
    { // iterator copies and post-increment
      auto a = begin(pristine);
      const auto fin = end(pristine);
      size_t k = 0;
      while (a != fin) {
        auto old = a++;
        CHECK(k < v.size() && (*old).v() == v[k], "op.iterator", x.d << " post-increment at " << k);
        if (rng.chance(1, 4)) { // old continues on its own
          auto b = old;
          ++b;
          CHECK((b == fin) == (k + 1 >= v.size()), "op.iterator", x.d << " copied iterator");
        }
        k++;
      }
    }
    CHECK(pristine == pristine, "op.equal", x.d << " not equal to itself");
    auto shorter = seq::take(v.empty() ? 0 : v.size() - 1, pristine);
    CHECK((shorter == pristine) == v.empty() && (pristine != shorter) == !v.empty(), "op.equal", x.d << " compared with a prefix");
    auto longer = seq::concat(pristine, seq::just(E(5)));
    CHECK(!(pristine == longer) && !(longer == pristine), "op.equal", x.d << " compared with an extension");
    std::vector<E> es;
    for (auto i : v) es.push_back(E(i));
    CHECK(seq::fromContainer(es) == pristine, "op.equal", x.d << " compared with its list");
    if (!es.empty()) {
      auto other = es;
      other[rng.below(other.size())] = E(-5555);
      CHECK(seq::fromContainer(other) != pristine, "op.equal", x.d << " equals a changed list");
    }
    const int probe = v.empty() ? 1 : rng.chance(1, 2) ? rng.pick(v) : (int)rng.range(-60, 200);
    const bool has = std::find(v.begin(), v.end(), probe) != v.end();
    CHECK(seq::contains(pristine, E(probe)) == has, "op.contains", x.d << " contains " << probe);
    CHECK(seq::any(pristine, [&](const E &e) { return e.v() == probe; }) == has, "op.any", x.d << " any " << probe);
    CHECK(seq::all(pristine, [&](const E &e) { return e.v() != probe; }) == !has, "op.all", x.d << " all not " << probe);
    const size_t at = rng.below(v.size() + 3);
    auto a = seq::at(pristine, at);
    CHECK(!!a == (at < v.size()) && (!a || a->v() == v[at]), "op.at", x.d << " at " << at << " of " << show(x.l));
    std::ostringstream os, want;
    os << pristine;
    want << "[";
    for (size_t i = 0; i < v.size(); i++) want << (i ? ", " : "") << v[i];
    want << "]";
    CHECK(os.str() == want.str(), "op.show", x.d << " shown as " << os.str() << " for " << want.str());
    mon::count("whole_sequence_ops");
  } else {
    for (size_t at : {size_t(0), rng.below(x.l.x.size() + 1)})
      if (at < x.l.x.size()) {
        auto a = seq::at(pristine, at);
        CHECK(a && a->v() == x.l.x[at], "op.at", x.d << " at " << at);
      }
    mon::count("infinite_sequences");
  }
}

namespace {
struct Counted { // counts the elements it hands out
  std::shared_ptr<size_t> n;
  int i = 0, end = 0;
  Maybe<E> operator()() {
    ++*n;
    if (i >= end) return Nothing;
    return E(i++);
  }
};
} // namespace

// Nothing is evaluated before it is needed.
SECTION("lazy", 3000, 40000) {
  auto pulls = std::make_shared<size_t>(0);
  const int len = (int)rng.below(60);
  // need[i]: number of source elements that have to be seen for element i.
  std::vector<std::pair<int, size_t>> m;
  for (int i = 0; i < len; i++) m.push_back({i, (size_t)i + 1});
  size_t endNeed = (size_t)len + 1;
  Seq<E> s{Counted{pulls, 0, len}};
  auto calls = std::make_shared<size_t>(0);
  std::string d = "src" + std::to_string(len);
  const int depth = (int)rng.range(1, 5);
  for (int k = 0; k < depth; k++) {
    Fn f = randomFn(rng, false);
    switch (rng.below(8)) {
    case 0: s = seq::map(std::move(s), [=](E e) { ++*calls; return E(f.of(e.v())); }); for (auto &p : m) p.first = f.of(p.first); d += " map"; break;
    case 1: {
      s = seq::filter(std::move(s), [=](const E &e) { ++*calls; return f.pred(e.v()); });
      std::vector<std::pair<int, size_t>> n;
      for (auto &p : m) if (f.pred(p.first)) n.push_back(p);
      m = n; d += " filter"; break;
    }
    case 2: { // take n: after n elements nothing more is pulled
      const size_t n = rng.below(30);
      s = seq::take(n, std::move(s));
      if (n <= m.size()) { m.resize(n); endNeed = n ? m.back().second : 0; }
      d += " take"; break;
    }
    case 3: {
      const size_t n = rng.below(10);
      s = seq::drop(n, std::move(s));
      m.erase(m.begin(), m.begin() + std::min(n, m.size()));
      d += " drop"; break;
    }
    case 4: {
      s = seq::takeWhile(std::move(s), [=](const E &e) { ++*calls; return f.pred(e.v()); });
      for (size_t i = 0; i < m.size(); i++)
        if (!f.pred(m[i].first)) { endNeed = m[i].second; m.resize(i); break; }
      d += " takeWhile"; break;
    }
    case 5: {
      s = seq::dropWhile(std::move(s), [=](const E &e) { ++*calls; return f.pred(e.v()); });
      size_t i = 0;
      while (i < m.size() && f.pred(m[i].first)) i++;
      m.erase(m.begin(), m.begin() + i);
      d += " dropWhile"; break;
    }
    case 6: {
      s = seq::mapcat(std::move(s), [=](E e) { ++*calls; return seq::map(seq::range(0, 2), [e](int i) { return E(e.v() * 2 + i); }); });
      std::vector<std::pair<int, size_t>> n;
      for (auto &p : m) { n.push_back({p.first * 2, p.second}); n.push_back({p.first * 2 + 1, p.second}); }
      m = n; d += " mapcat"; break;
    }
    default: {
      s = seq::concat(seq::just(E(-3)), std::move(s));
      m.insert(m.begin(), {-3, 0});
      d += " concat"; break;
    }
    }
  }
  CHECK(*pulls == 0 && *calls == 0, "lazy.construct", d << " evaluated " << *pulls << " elements and called functors " << *calls << " times when constructed");
  auto copy = s;
  CHECK(*pulls == 0 && *calls == 0, "lazy.copy", d << " evaluated something when copied");
  mon::distinctStr(d);
  for (size_t i = 0; i < m.size(); i++) {
    auto e = s.next();
    REQUIRE_(e && e->v() == m[i].first, "lazy.element", d << " element " << i);
    CHECK(*pulls <= m[i].second, "lazy.pulls", d << " used " << *pulls << " source elements for element " << i << " which needs " << m[i].second);
    mon::count("lazy_pulls_checked");
  }
  CHECK(!s.next(), "lazy.end", d << " does not end");
  CHECK(*pulls <= endNeed, "lazy.pulls", d << " used " << *pulls << " source elements to end, needs " << endNeed);
  // Operations stop as soon as the answer is known.
  if (!m.empty()) {
    const size_t i = rng.below(m.size());
    *pulls = 0;
    auto a = seq::at(copy, i);
    CHECK(a && a->v() == m[i].first && *pulls <= m[i].second, "lazy.at", d << " at " << i);
    *pulls = 0;
    size_t first = 0;
    while (m[first].first != m[i].first) first++;
    CHECK(seq::contains(copy, E(m[i].first)) && *pulls <= m[first].second, "lazy.contains", d << " contains");
    *pulls = 0;
    CHECK(seq::any(copy, [&](const E &e) { return e.v() == m[i].first; }) && *pulls <= m[first].second, "lazy.any", d << " any");
    *pulls = 0;
    CHECK(!seq::all(copy, [&](const E &e) { return e.v() != m[i].first; }) && *pulls <= m[first].second, "lazy.all", d << " all");
  }
}

namespace {
// Throws on the k-th call and would go on afterwards.
struct Flaky {
  std::shared_ptr<int> calls;
  int at, i = 0;
  bool useString = false;
  Maybe<E> operator()() {
    ++*calls;
    if (i++ == at) { if (useString) throw std::string("x"); throw 5; }
    return E(i);
  }
};
template <typename T> void checkRange(Rng &rng, T a, T b) {
  auto s = seq::range<T>(a, b);
  T x = a;
  size_t n = 0;
  while (x != b && n < 300) {
    auto e = s.next();
    REQUIRE_(e && *e == x, "range", "range " << +a << ".." << +b << " element " << n);
    a < b ? x++ : x--;
    n++;
    mon::count("range_elements");
  }
  if (x == b) CHECK(!s.next() && !s.next(), "range", "range " << +a << ".." << +b << " does not end after " << n);
}
template <typename T> void rangeOf(Rng &rng) {
  const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  T a = rng.chance(1, 2) ? (T)(hi - (T)rng.below(100)) : (T)(lo + (T)rng.below(100));
  T b = rng.chance(3, 4) ? (a > hi / 2 ? (T)(hi - (T)rng.below(100)) : (T)(lo + (T)rng.below(100))) : (T)rng.next();
  checkRange<T>(rng, a, b);
}
} // namespace
SECTION("throwing", 1500, 15000) {
  auto calls = std::make_shared<int>(0);
  const int at = (int)rng.below(12);
  Seq<E> s{Flaky{calls, at, 0, rng.chance(1, 2)}};
  std::vector<Seq<E>> pool{s};
  for (int i = 0; i < at; i++) {
    auto e = pool[0].next();
    REQUIRE_(e && e->v() == i + 1, "throw.prefix", "element " << i);
    if (rng.chance(1, 3)) pool.push_back(pool[0]);
  }
  CHECK(!pool[0].next(), "throw.end", "a source that throws did not end the sequence");
  const int n = *calls;
  for (int i = 0; i < 3; i++) {
    auto c = pool[0];
    CHECK(!c.next() && !pool[0].next(), "throw.end", "a sequence continued after its source threw");
  }
  CHECK(*calls == n, "throw.called_again", "the source was called again after it threw");
  // copies taken before the throw still deliver the rest, once
  for (size_t i = 1; i < pool.size(); i++) {
    size_t k = 0;
    while (pool[i].next()) k++;
    CHECK(k <= (size_t)at, "throw.copy", "copy delivered " << k);
  }
  mon::count("throwing_sources");
  mon::distinct(at * 100 + pool.size());
}
SECTION("ranges", 1500, 15000) {
  switch (rng.below(8)) {
  case 0: rangeOf<int>(rng); break;
  case 1: rangeOf<unsigned>(rng); break;
  case 2: rangeOf<int64_t>(rng); break;
  case 3: rangeOf<uint64_t>(rng); break;
  case 4: rangeOf<int8_t>(rng); break;
  case 5: rangeOf<uint8_t>(rng); break;
  case 6: rangeOf<int16_t>(rng); break;
  default: rangeOf<size_t>(rng); break;
  }
  mon::distinct(rng.next());
}

// Move-only elements pass through, and long sequences are printed shortened.
SECTION("moveonly", 300, 3000) {
  const int n = (int)rng.below(40);
  struct Src { int i, n; Maybe<std::unique_ptr<int>> operator()() { if (i >= n) return Nothing; return std::unique_ptr<int>(new int(i++)); } };
  Seq<std::unique_ptr<int>> s{Src{0, n}};
  auto t = seq::map(seq::filter(std::move(s), [](const std::unique_ptr<int> &p) { return *p % 3 != 1; }), [](std::unique_ptr<int> &&p) { return std::move(p); });
  const size_t k = rng.below(4);
  auto u = seq::takeWhile(seq::drop(k, std::move(t)), [](const std::unique_ptr<int> &p) { return *p < 30; });
  std::vector<int> want, got;
  for (int i = 0; i < n; i++) if (i % 3 != 1) want.push_back(i);
  want.erase(want.begin(), want.begin() + std::min(k, want.size()));
  std::vector<int> w2;
  for (auto v : want) { if (v >= 30) break; w2.push_back(v); }
  while (auto e = u.next()) got.push_back(*e ? **e : -1);
  CHECK(got == w2, "moveonly", "move-only elements lost: " << got.size() << " of " << w2.size());
  mon::count("moveonly_sequences");
  mon::distinct(n * 8 + k);
}

// Long sequences and counts beyond 16 and 32 bits.
SECTION("long", 60, 800) {
  static const size_t marks[] = {255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 100000};
  static const size_t huge[] = {SIZE_MAX, SIZE_MAX - 1, (size_t)1 << 32, ((size_t)1 << 32) + 3, (size_t)1 << 63, ((size_t)1 << 63) - 1, ((size_t)1 << 31) + 5, (size_t)UINT32_MAX, (size_t)1 << 40};
  const auto count = [&](size_t len) -> size_t {
    switch (rng.below(4)) {
    case 0: return huge[rng.below(9)];
    case 1: return marks[rng.below(13)] + rng.below(3);
    case 2: return rng.below(len + 1);
    default: return len > 3 ? len - rng.below(4) : len + rng.below(3);
    }
  };
  size_t len = marks[rng.below(13)] + rng.below(9000);
  std::vector<int> v(len);
  Seq<int> s;
  std::string d;
  switch (rng.below(5)) {
  case 0: for (size_t i = 0; i < len; i++) v[i] = (int)i * 3; s = seq::map(seq::index(), [](size_t i) { return (int)i * 3; }); s = seq::take(len, std::move(s)); d = "index"; break;
  case 1: for (size_t i = 0; i < len; i++) v[i] = (int)i - 40000; s = seq::range(-40000, (int)len - 40000); d = "range"; break;
  case 2: for (size_t i = 0; i < len; i++) v[i] = (int)(i * i); s = seq::fromContainer(v); d = "container"; break;
  case 3: for (size_t i = 0; i < len; i++) v[i] = (int)(i * 7); s = seq::takeWhile(seq::iterate(0, [](int x) { return x + 7; }), [=](int x) { return x < (int)(len * 7); }); d = "iterate"; break;
  default: v.assign(len, 9); s = seq::take(len, seq::repeat(9)); d = "repeat"; break;
  }
  d += std::to_string(len);
  for (int k = 0, n = (int)rng.below(5); k < n; k++) {
    switch (rng.below(8)) {
    case 0: { const size_t c = count(v.size()); s = seq::drop(c, std::move(s)); v.erase(v.begin(), v.begin() + std::min(c, v.size())); d += " drop" + std::to_string(c); mon::count("long_drops"); break; }
    case 1: { const size_t c = count(v.size()); s = seq::take(c, std::move(s)); if (c < v.size()) v.resize(c); d += " take" + std::to_string(c); mon::count("long_takes"); break; }
    case 2: { // almost everything is filtered out
      s = seq::filter(std::move(s), [](int x) { return x % 9973 == 0; });
      std::vector<int> w; for (int x : v) if (x % 9973 == 0) w.push_back(x);
      v = w; d += " filter"; break;
    }
    case 3: { const int lim = v.empty() ? 0 : v[rng.below(v.size())]; s = seq::dropWhile(std::move(s), [=](int x) { return x != lim; });
      v.erase(v.begin(), std::find(v.begin(), v.end(), lim)); d += " dropWhile!=" + std::to_string(lim); break; }
    case 4: { const int lim = v.empty() ? 0 : v[rng.below(v.size())]; s = seq::takeWhile(std::move(s), [=](int x) { return x != lim; });
      v.erase(std::find(v.begin(), v.end(), lim), v.end()); d += " takeWhile!=" + std::to_string(lim); break; }
    case 5: { // most inner sequences are empty
      s = seq::mapcat(std::move(s), [](int x) { return x % 911 == 0 ? seq::just(x, x + 1) : Seq<int>(); });
      std::vector<int> w; for (int x : v) if (x % 911 == 0) { w.push_back(x); w.push_back(x + 1); }
      v = w; d += " mapcat"; break;
    }
    case 6: { auto t = s; s = seq::concat(std::move(s), Seq<int>(), std::move(t)); const auto w = v; v.insert(v.end(), w.begin(), w.end()); d += " twice"; if (v.size() > 300000) k = n; break; }
    default: { s = seq::mapMaybe(std::move(s), [](int x) { return x & 1 ? Maybe<int>(x) : Maybe<int>(); });
      std::vector<int> w; for (int x : v) if (x & 1) w.push_back(x);
      v = w; d += " mapMaybe"; break; }
    }
  }
  mon::distinctStr(d);
  const auto copy = s;
  size_t i = 0;
  for (;; i++) {
    auto x = s.next();
    REQUIRE_(!!x == (i < v.size()), "long.length", d << " has " << i << (x ? " and more" : "") << " elements instead of " << v.size());
    if (!x) break;
    REQUIRE_(*x == v[i], "long.element", d << " element " << i << " is " << *x << " instead of " << v[i]);
  }
  mon::count("long_elements", i);
  CHECK(seq::length(copy) == v.size(), "long.op.length", d);
  auto last = seq::last(copy);
  CHECK(!!last == !v.empty() && (!last || *last == v.back()), "long.op.last", d);
  const size_t at = count(v.size());
  auto a = seq::at(copy, at);
  CHECK(!!a == (at < v.size()) && (!a || *a == v[at]), "long.op.at", d << " at " << at);
  CHECK(seq::fromContainer(v) == copy, "long.op.equal", d);
  if (!v.empty()) {
    auto w = v; w.back() ^= 1;
    CHECK(seq::fromContainer(w) != copy, "long.op.equal", d << " equals a list with another last element");
    CHECK(seq::contains(copy, v.back()), "long.op.contains", d);
    CHECK(!seq::all(copy, [&](int x) { return x != v.back(); }), "long.op.all", d);
  }
}
