// C26: extreme but legal use, and faults in every user callback. What decides
// is the sanitizers, the watchdog, counted objects and documented outcomes.
#include "progs.hpp"
#include "tree.hpp"
#include <array>
#include <climits>
#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <rapidcheck/state.h>
#include "src/detail/Testing.h"
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using progs::Recorder;

namespace {
// ---- counted objects and injected faults
long g_live = 0;
bool g_badUse = false;
struct Live {
  uint64_t canary = 0xC0FFEE;
  Live() { g_live++; }
  Live(const Live &o) { if (o.canary != 0xC0FFEE) g_badUse = true; g_live++; }
  Live &operator=(const Live &) { return *this; }
  ~Live() { if (canary != 0xC0FFEE) g_badUse = true; canary = 0; g_live--; }
};
struct Odd { int x; };
[[noreturn]] void fault(uint64_t h) {
  switch (h % 5) {
  case 0: throw std::runtime_error("a user's exception");
  case 1: throw GenerationFailure("cannot");
  case 2: throw std::string("a text");
  case 3: throw Odd{3};
  default: throw std::bad_alloc();
  }
}
long g_faults = 0;
// A pure user function that throws for some arguments (and, if `moody`, at some calls).
struct Cb {
  Live l;
  uint64_t h;
  int pm; // throws for so many arguments out of 1000
  template <typename T> uint64_t at(const T &x) const {
    const uint64_t v = mon::comb(h, mon::hashStr(toString(x)));
    if (l.canary != 0xC0FFEE) g_badUse = true;
    if ((int)(v % 1000) < pm) { g_faults++; fault(v >> 12); }
    return v >> 20;
  }
};
// An element whose copies and moves may throw.
struct Bomb {
  int v;
  Live l;
  static long countdown;
  static void tick() { if (countdown > 0 && --countdown == 0) { g_faults++; throw std::runtime_error("copying failed"); } }
  Bomb(int x = 0) : v(x) {}
  Bomb(const Bomb &o) : v(o.v), l((tick(), o.l)) {}
  Bomb &operator=(const Bomb &o) { tick(); v = o.v; return *this; }
  bool operator<(const Bomb &o) const { return v < o.v; }
  bool operator==(const Bomb &o) const { return v == o.v; }
};
long Bomb::countdown = -1;
std::ostream &operator<<(std::ostream &os, const Bomb &b) { return os << b.v; }

using V = std::vector<int>;
struct Mk {
  Rng &r;
  int pm;
  Cb cb() { return Cb{Live(), r.next(), r.chance(1, 3) ? pm : 0}; }
  Gen<int> num(int d) {
    const auto c = cb();
    if (d <= 0) switch (r.below(8)) {
      case 0: return gen::arbitrary<int>();
      case 1: return gen::inRange(INT_MIN, INT_MAX);
      case 2: return gen::just((int)r.next());
      case 3: return gen::inRange(-5, (int)r.below(10) - 5); // also empty ranges
      case 4: return gen::map(gen::character<char>(), [](char x) { return (int)x; });
      case 5: return gen::element((int)r.below(9), INT_MIN, INT_MAX);
      case 6: return gen::lazy([c] { c.at(0); return gen::inRange(0, 9); });
      default: return gen::nonNegative<int>();
      }
    switch (r.below(20)) {
    case 0: return gen::map(num(d - 1), [c](int x) { return (int)c.at(x) % 100; });
    case 1: return gen::suchThat(num(d - 1), [c](int x) { return c.at(x) % 3 != 0; });
    case 2: { const auto g = num(d - 2), h = num(d - 2); return gen::mapcat(num(d - 1), [c, g, h](int x) { return c.at(x) % 2 ? g : h; }); }
    case 3: return gen::oneOf(num(d - 1), num(d - 1), num(d - 2));
    case 4: return gen::weightedOneOf<int>({{(size_t)r.below(3), num(d - 1)}, {(size_t)(r.chance(1, 6) ? r.next() : r.below(4)), num(d - 1)}});
    case 5: return gen::elementOf(V(r.below(4), 5));
    case 6: return gen::sizedOneOf(num(d - 1), num(d - 1));
    case 7: return gen::map(vec(d - 1), [c](const V &v) { return v.empty() ? 0 : v[c.at(v) % v.size()]; });
    case 8: return gen::shrink(num(d - 1), [c](int x) { c.at(x); return x > 0 && x < 100 ? seq::just(x - 1, x / 2) : Seq<int>(); });
    case 9: return gen::noShrink(num(d - 1));
    case 10: return gen::resize((int)r.below(r.chance(1, 4) ? 5000 : 50), num(d - 1));
    case 11: return gen::scale(r.chance(1, 2) ? 0.5 : (double)r.below(4), num(d - 1));
    case 12: return gen::withSize([c, g = num(d - 1)](int s) { c.at(s); return g; });
    case 13: { const auto g = num(d - 1), h = num(d - 2); return gen::exec([c, g, h] { const int a = *g; const int b = *h; return (int)c.at(a) % 50 + b % 7; }); }
    case 14: { const auto g = num(d - 1); return gen::exec([c, g](int a) { int s = a % 10; for (uint64_t i = c.at(a) % 4; i > 0; i--) s += *g % 5; return s; }); }
    case 15: return gen::apply([c](int a, const std::string &b) { return (int)c.at(a) % 100 + (int)b.size(); }, num(d - 1), str(d - 1));
    case 16: return gen::join(gen::elementOf(std::vector<Gen<int>>{num(d - 1), num(d - 2)}));
    case 17: return gen::distinctFrom(num(d - 1), 5);
    case 18: return gen::map(gen::maybe(num(d - 1)), [](const Maybe<int> &m) { return m ? *m : -1; });
    default: return gen::map(gen::pair(num(d - 1), num(d - 1)), [c](const std::pair<int, int> &p) { return (int)c.at(p.first) % 10 + p.second % 10; });
    }
  }
  Gen<V> vec(int d) {
    const auto c = cb();
    // sizes of nested containers multiply
    auto small = [&](Gen<V> g) { return gen::resize(r.below(8), std::move(g)); };
    switch (r.below(10)) {
    case 0: return gen::container<V>(r.below(6), num(d - 1));
    case 1: return small(gen::unique<V>(num(d - 1)));
    case 2: return gen::uniqueBy<V>(r.below(4), num(d - 1), [c](int x) { return c.at(x) % 50; });
    case 3: return small(gen::suchThat(gen::container<V>(num(d - 1)), [c](const V &v) { return c.at(v) % 3 != 0; }));
    case 4: return gen::mapcat(gen::inRange(0, 6), [c, g = num(d - 1)](int n) { c.at(n); return gen::container<V>((size_t)n, g); });
    case 5: return small(gen::nonEmpty(gen::container<V>(num(d - 1))));
    case 6: return gen::map(small(gen::container<V>(num(d - 1))), [c](V v) { v.push_back((int)c.at(v) % 9); return v; });
    case 7: return gen::map(gen::resize(r.below(8), gen::container<std::set<int>>(num(d - 1))), [](const std::set<int> &s) { return V(s.begin(), s.end()); });
    case 8: return gen::map(gen::resize(r.below(8), gen::container<std::map<int, int>>(num(d - 1), num(d - 2))), [](const std::map<int, int> &s) { V v; for (auto &p : s) v.push_back(p.second); return v; });
    default: return small(gen::container<V>(num(d - 1)));
    }
  }
  Gen<std::string> str(int d) {
    const auto c = cb();
    switch (r.below(4)) {
    case 0: return gen::resize(r.below(20), gen::string<std::string>());
    case 1: return gen::map(num(d - 1), [c](int x) { return std::string(c.at(x) % 20, 'q'); });
    case 2: return gen::resize(r.below(9), gen::container<std::string>(gen::character<char>()));
    default: return gen::map(vec(d - 1), [c](const V &v) { c.at(v); return toString(v); });
    }
  }
};

template <typename T> void walkFaulty(Rng &rng, const Shrinkable<T> &root) {
  Shrinkable<T> cur = root;
  int nodes = 0;
  for (int depth = 0; depth < 15 && nodes < 120; depth++) {
    try { cur.value(); } catch (const Odd &) {} catch (const std::string &) {} catch (const std::exception &) {}
    auto s = cur.shrinks();
    Maybe<Shrinkable<T>> last;
    for (int i = 0, n = 1 + rng.below(20); i < n; i++) {
      auto k = s.next();
      if (!k) break;
      nodes++;
      try { k->value(); } catch (const Odd &) {} catch (const std::string &) {} catch (const std::exception &) {}
      last = std::move(k);
      if (rng.chance(1, 5)) { auto t = s; t.next(); }
    }
    if (!last) break;
    cur = std::move(*last);
  }
  mon::count("tree_nodes_walked", nodes);
}
void settle(long before, const std::string &what) {
  CHECK(g_live == before, "leak", what << ": " << g_live - before << " objects too many are alive afterwards");
  CHECK(!g_badUse, "dead-object-used", what);
  g_live = before;
  g_badUse = false;
}
} // namespace

// Random generator expressions in which any callback may throw.
SECTION("faulty-expressions", 900, 30000) {
  const long before = g_live, f0 = g_faults;
  const int pm = rng.chance(1, 5) ? 0 : rng.chance(1, 3) ? 500 : 20 + (int)rng.below(100);
  {
    Mk m{rng, pm};
    const int d = 1 + rng.below(4);
    const auto g = gen::tuple(m.num(d), m.vec(d), m.str(d));
    // by hand
    for (int i = 0; i < 3; i++) walkFaulty(rng, g(Random(rng.next()), (int)rng.below(rng.chance(1, 6) ? 3 : 60)));
    // in a property whose body is faulty as well
    const auto body = m.cb();
    const int t = (int)rng.below(60);
    TestParams p;
    p.seed = rng.next();
    p.maxSuccess = (int)rng.below(40);
    p.maxSize = rng.chance(1, 5) ? (int)rng.below(3) : (int)rng.below(60);
    p.maxDiscardRatio = (int)rng.below(4);
    p.disableShrinking = rng.chance(1, 8);
    int runs = 0;
    Recorder rec;
    const auto res = progs::runCheck(toProperty([&] {
      if (++runs > 3000) RC_SUCCEED("enough"); // (the descent could be long)
      const auto v = *g;
      if (std::get<1>(v).size() > 3) RC_TAG(std::get<1>(v).size());
      body.at(std::get<0>(v));
      const auto w = *g;
      RC_LOG() << toString(w);
      RC_ASSERT((int)std::get<1>(v).size() + (std::get<0>(w) & 31) < t);
    }), p, rec);
    SuccessResult s; FailureResult f; GaveUpResult gu; Error er;
    const bool okS = res.match(s), okF = res.match(f), okG = res.match(gu), okE = res.match(er);
    CHECK(okS || okF || okG || (okE && false), "result", "a check with faulty callbacks ended in " << progs::showResult(res));
    std::ostringstream os;
    printResultMessage(res, os);
    CHECK(!os.str().empty(), "result.text", "nothing printed");
    mon::st().counters[okS ? "checks_passed" : okF ? "checks_failed" : "checks_gave_up"]++;
    if (okF && runs <= 3000) {
      TestMetadata md;
      const auto again = reproduceProperty(toProperty([&] { // same property
        const auto v = *g;
        if (std::get<1>(v).size() > 3) RC_TAG(std::get<1>(v).size());
        body.at(std::get<0>(v));
        const auto w = *g;
        RC_LOG() << toString(w);
        RC_ASSERT((int)std::get<1>(v).size() + (std::get<0>(w) & 31) < t);
      }), f.reproduce);
      FailureResult f2;
      CHECK(again.match(f2) && f2.counterExample == f.counterExample, "reproduce", "a failure with faulty callbacks is not reproduced: " << progs::showResult(res) << " then " << progs::showResult(again));
      mon::count("reproduced");
    }
  }
  settle(before, "expression");
  mon::count("faults_thrown", g_faults - f0);
  mon::count("expressions");
  mon::distinct(rng.next());
}
// Values whose copies fail at any point.
template <typename C> static void bombs(Rng &rng, const Gen<C> &g, const char *what) {
  const long before = g_live, f0 = g_faults;
  {
    Bomb::countdown = rng.chance(1, 10) ? -1 : 1 + (long)rng.below(rng.chance(1, 2) ? 30 : 400);
    try {
      const auto s = g(Random(rng.next()), (int)rng.below(12));
      for (int i = 0; i < 3; i++) {
        try { walkFaulty(rng, s); } catch (const std::exception &) {}
        if (Bomb::countdown < 0 && rng.chance(1, 2)) Bomb::countdown = 1 + (long)rng.below(60);
      }
    } catch (const std::exception &) {}
    Bomb::countdown = -1;
  }
  {
    TestParams p;
    p.seed = rng.next();
    p.maxSuccess = 5;
    p.maxSize = 10;
    Recorder rec;
    int n = 0;
    const int from = 1 + (int)rng.below(4);
    Bomb::countdown = rng.chance(1, 2) ? 1 + (long)rng.below(600) : -1;
    try { progs::runCheck(toProperty([&] { const auto c = *g; if (n < 200) RC_ASSERT(++n < from); }), p, rec); } catch (const std::exception &) { mon::count("exceptions_out_of_checks"); }
    Bomb::countdown = -1;
  }
  settle(before, what);
  mon::count("copy_faults", g_faults - f0);
  mon::distinct(mon::comb(mon::hashStr(what), rng.next()));
}
SECTION("faulty-values", 900, 30000) {
  const auto b = gen::map(gen::inRange(0, 40), [](int x) { return Bomb(x); });
  const Bomb one(3);
  switch (rng.below(14)) {
  case 0: bombs(rng, gen::container<std::vector<Bomb>>(b), "vector"); break;
  case 1: bombs(rng, gen::container<std::list<Bomb>>(b), "list"); break;
  case 2: bombs(rng, gen::container<std::deque<Bomb>>(b), "deque"); break;
  case 3: bombs(rng, gen::container<std::set<Bomb>>(b), "set"); break;
  case 4: bombs(rng, gen::container<std::map<Bomb, Bomb>>(b, b), "map"); break;
  case 5: bombs(rng, gen::container<std::array<Bomb, 3>>(b), "array"); break;
  case 6: bombs(rng, gen::pair(b, b), "pair"); break;
  case 7: bombs(rng, gen::tuple(b, gen::container<std::vector<Bomb>>(2, b)), "tuple"); break;
  case 8: bombs(rng, gen::maybe(b), "maybe"); break;
  case 9: bombs(rng, gen::elementOf(std::vector<Bomb>(4)), "elementOf"); break;
  case 10: bombs(rng, gen::unique<std::vector<Bomb>>(b), "unique"); break;
  case 11: bombs(rng, gen::mapcat(b, [](const Bomb &x) { return gen::container<std::vector<Bomb>>((size_t)(x.v % 4), gen::just(x)); }), "mapcat"); break;
  case 12: bombs(rng, gen::exec([=] { const Bomb x = *b; const Bomb y = *b; return x.v < y.v ? x : y; }), "exec"); break;
  default: bombs(rng, gen::makeShared<Bomb>(gen::map(b, [](const Bomb &x) { return x.v; })), "shared"); break;
  }
  (void)one;
}

