// C08: filters and selections hold at every node of the shrink tree.
#include "tree.hpp"
#include "progs.hpp"
#include <deque>
#include <list>
#include <set>
using namespace rc;
using mon::Rng;

namespace {
struct Call { Random r; int size; };
// A generator that records how it is called.
template <typename T> Gen<T> recording(Gen<T> g, std::shared_ptr<std::vector<Call>> calls) {
  return [=](const Random &r, int size) {
    calls->push_back(Call{r, size});
    return g(r, size);
  };
}

template <typename T> bool fails(const Shrinkable<T> &s) {
  try { s.value(); } catch (const GenerationFailure &) { return true; }
  return false;
}

template <typename T> void checkFilter(Rng &rng, const std::string &what, Gen<T> base, std::function<bool(const T &)> pred,
                                       std::function<Gen<T>(Gen<T>)> wrap) {
  const int size = rng.chance(1, 6) ? 0 : rng.below(120);
  auto calls = std::make_shared<std::vector<Call>>();
  const auto g = wrap(recording(base, calls));
  const Random rnd(rng.next());
  const auto s = g(rnd, size);
  REQUIRE_(!calls->empty(), "filter-never-generated", what);
  for (size_t i = 0; i < calls->size(); i++) {
    const auto &c = (*calls)[i];
    CHECK(c.size == size + (int)i, "retry-size-not-growing", what << " try " << i << " at size " << c.size << " from " << size);
    for (size_t j = 0; j < i; j++)
      CHECK(!(c.r == (*calls)[j].r), "retry-with-same-random", what << " tries " << j << " and " << i);
    const auto v = base(c.r, c.size).value();
    const bool last = i + 1 == calls->size();
    if (!last) CHECK(!pred(v), "satisfying-value-thrown-away", what << " try " << i << " value " << toString(v));
  }
  mon::count("generation_tries", calls->size());
  if (fails(s)) {
    CHECK(!pred(base(calls->back().r, calls->back().size).value()), "satisfying-value-thrown-away", what);
    CHECK(calls->size() >= 20, "gave-up-early", what << " after " << calls->size());
    mon::count("generation_failures");
    return;
  }
  if (calls->size() > 1) mon::count("retried_generations");
  CHECK(s.value() == base(calls->back().r, calls->back().size).value(), "value-not-from-the-generator", what);
  mon::distinctStr(what + toString(s.value()));
  tree::walk(rng, s, [&](const T &v, const T *p, size_t, size_t) {
    CHECK(pred(v), "predicate-violated", what << ": " << toString(v) << (p ? " shrinking " + toString(*p) : std::string(" generated")));
    return true;
  }, 3, 50, 40);
  // Shrinks are those of the generator that satisfy the predicate.
  {
    const auto b = base(calls->back().r, calls->back().size);
    auto q = b.shrinks();
    auto f = s.shrinks();
    for (int i = 0; i < 60; i++) {
      auto x = q.next();
      if (!x) { CHECK(!f.next(), "shrinks-beyond-the-generators", what); break; }
      const auto v = x->value();
      if (!pred(v)) continue;
      auto y = f.next();
      REQUIRE_(bool(y), "satisfying-shrink-missing", what << " " << toString(v));
      CHECK(y->value() == v, "shrink-differs-from-generators", what << " " << toString(v) << " vs " << toString(y->value()));
    }
  }
  mon::count("filtered_trees");
}

uint64_t hv(const std::string &s, uint64_t salt) { return mon::comb(mon::hashStr(s), salt); }

void filterCase(Rng &rng) {
  const uint64_t salt = rng.next();
  static const unsigned mods[] = {2, 3, 10, 40, 200, 1000000};
  const unsigned mod = mods[rng.below(rng.chance(1, 4) ? 6 : 4)];
  auto pred = [=](const std::string &sv) { return hv(sv, salt) % mod == 0; };
  std::ostringstream w;
  switch (rng.below(4)) {
  case 0: {
    const int lo = rng.range(-100, 100), hi = lo + 1 + rng.below(300);
    w << "suchThat(inRange(" << lo << "," << hi << "), 1/" << mod << ")";
    auto p = [=](const int &x) { return pred(std::to_string(x)); };
    checkFilter<int>(rng, w.str(), gen::inRange(lo, hi), p, [=](Gen<int> g) { return gen::suchThat(g, p); });
    break;
  }
  case 1: {
    w << "suchThat(int, 1/" << mod << ")";
    auto p = [=](const int &x) { return pred(std::to_string(x)); };
    checkFilter<int>(rng, w.str(), gen::arbitrary<int>(), p, [=](Gen<int> g) { return gen::suchThat(g, p); });
    break;
  }
  case 2: {
    using V = std::vector<int>;
    w << "suchThat(vector, 1/" << mod << ")";
    auto p = [=](const V &x) { return pred(toString(x)); };
    checkFilter<V>(rng, w.str(), gen::container<V>(gen::inRange(0, 20)), p, [=](Gen<V> g) { return gen::suchThat(g, p); });
    break;
  }
  default: {
    // nested filters
    w << "suchThat(suchThat(inRange))";
    auto p1 = [=](const int &x) { return pred(std::to_string(x)) || x % 3 == 0; };
    auto p2 = [=](const int &x) { return x % 2 == 0; };
    auto inner = gen::suchThat(gen::inRange(0, 500), p1);
    checkFilter<int>(rng, w.str(), inner, p2, [=](Gen<int> g) { return gen::suchThat(g, p2); });
    const auto s = gen::suchThat(inner, p2)(Random(rng.next()), 50);
    if (!fails(s)) tree::walk(rng, s, [&](const int &v, const int *, size_t, size_t) { CHECK(p1(v) && p2(v), "predicate-violated", w.str() << " " << v); return true; });
  }
  }
}

void shapeFilters(Rng &rng) {
  const int k = rng.below(6);
  if (k == 0) {
    checkFilter<std::string>(rng, "nonEmpty<string>", gen::arbitrary<std::string>(), [](const std::string &x) { return !x.empty(); },
                             [](Gen<std::string> g) { return gen::nonEmpty(g); });
  } else if (k == 1) {
    using V = std::vector<bool>;
    using D = std::deque<short>;
    checkFilter<D>(rng, "nonEmpty<deque>", gen::arbitrary<D>(), [](const D &x) { return !x.empty(); }, [](Gen<D> g) { return gen::nonEmpty(g); });
  } else if (k == 2) {
    using S = std::set<int>;
    checkFilter<S>(rng, "nonEmpty<set>", gen::arbitrary<S>(), [](const S &x) { return !x.empty(); }, [](Gen<S> g) { return gen::nonEmpty(g); });
  } else if (k == 3) {
    const int v = rng.range(-3, 3);
    checkFilter<int>(rng, "distinctFrom(inRange)", gen::inRange(-3, 4), [=](const int &x) { return x != v; }, [=](Gen<int> g) { return gen::distinctFrom(g, v); });
  } else if (k == 4) {
    using V = std::vector<int>;
    const V v = rng.chance(1, 2) ? V{} : V{0};
    checkFilter<V>(rng, "distinctFrom(vector)", gen::arbitrary<V>(), [=](const V &x) { return x != v; }, [=](Gen<V> g) { return gen::distinctFrom(g, v); });
  } else {
    // Convenience forms over arbitrary<T>.
    const int size = rng.below(60);
    const int v = rng.below(3);
    const auto a = gen::distinctFrom(v)(Random(rng.next()), size);
    tree::walk(rng, a, [&](const int &x, const int *, size_t, size_t) { CHECK(x != v, "predicate-violated", "distinctFrom(v) " << x); return true; });
    const auto b = gen::nonEmpty<std::vector<int>>()(Random(rng.next()), size);
    tree::walk(rng, b, [&](const std::vector<int> &x, const std::vector<int> *, size_t, size_t) { CHECK(!x.empty(), "predicate-violated", "nonEmpty<vector>()"); return true; });
    const auto c = gen::suchThat<int>([](int x) { return x % 2 != 0; })(Random(rng.next()), size);
    if (!fails(c)) tree::walk(rng, c, [&](const int &x, const int *, size_t, size_t) { CHECK(x % 2 != 0, "predicate-violated", "suchThat<int> " << x); return true; });
    mon::count("filtered_trees", 3);
  }
}

// Inside a property a failed generation discards the case.
void discards(Rng &rng) {
  const int lim = rng.range(0, 12);
  int executed = 0, reached = 0;
  const auto prop = rc::detail::toProperty([&] {
    executed++;
    const int x = *gen::inRange(0, 12);
    const int y = *gen::suchThat(gen::inRange(0, 10), [=](int v) { return x < lim && v < 10; });
    (void)y;
    reached++;
    if (x >= lim) RC_FAIL("wrong value let through");
  });
  rc::detail::TestParams p;
  p.seed = rng.next();
  p.maxSuccess = 20;
  p.maxSize = 100;
  p.maxDiscardRatio = rng.below(20);
  progs::Recorder rec;
  const auto res = progs::runCheck(prop, p, rec);
  rc::detail::FailureResult f;
  CHECK(!res.match(f), "generation-failure-not-discard", res);
  rc::detail::GaveUpResult g;
  if (res.match(g)) {
    CHECK(g.description.find("Gave up trying to generate value") != std::string::npos, "generation-failure-not-described", g.description);
    mon::count("gave_up_checks");
  }
  for (auto &e : rec.ev)
    if (e.kind == 'C') {
      CHECK(e.type != (int)rc::detail::CaseResult::Type::Failure, "generation-failure-not-discard", e.desc);
      if (e.type == (int)rc::detail::CaseResult::Type::Discard) mon::count("discarded_by_generation");
    }
}

// ---- selections. Elements carry the identity of what they came from.
template <typename C> void elementOfCase(Rng &rng, const char *name) {
  const int n = rng.chance(1, 8) ? 0 : 1 + rng.below(rng.chance(1, 5) ? 300 : 12);
  const int base = rng.range(-1000, 1000);
  C c;
  std::vector<int> order;
  for (int i = 0; i < n; i++) c.insert(c.end(), base + i * 3);
  for (auto x : c) order.push_back(x);
  std::map<int, int> pos;
  for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
  const int size = rng.below(130);
  std::ostringstream w;
  w << name << " n=" << n << " size=" << size;
  const auto s = gen::elementOf(c)(Random(rng.next()), size);
  const auto z = gen::sizedElementOf(c)(Random(rng.next()), size);
  if (n == 0) {
    CHECK(fails(s) && fails(z), "empty-selection-not-a-failure", w.str());
    mon::count("empty_selections");
    return;
  }
  mon::distinctStr(w.str() + std::to_string(s.value()));
  tree::walk(rng, s, [&](const int &v, const int *p, size_t, size_t) {
    CHECK(pos.count(v), "not-a-given-element", w.str() << " elementOf gave " << v);
    return true;
  });
  // sizedElementOf: an initial segment growing with size, shrinking to earlier ones
  const size_t seg = size_t((n - 1) * std::min(size, 100) / 100.0 + 0.5) + 1;
  tree::walk(rng, z, [&](const int &v, const int *p, size_t i, size_t) {
    CHECK(pos.count(v), "not-a-given-element", w.str() << " sizedElementOf gave " << v);
    if (!pos.count(v)) return false;
    CHECK(size_t(pos[v]) <= seg, "beyond-initial-segment", w.str() << " index " << pos[v]);
    if (p) CHECK(pos[v] < pos[*p], "sized-element-shrinks-up", w.str() << " " << pos[*p] << " -> " << pos[v]);
    if (p && i == 0) CHECK(pos[v] == 0, "sized-element-first-shrink", w.str());
    return true;
  });
  if (size == 0) CHECK(z.value() == order[0], "size0-not-first", w.str());
  mon::count("selection_trees", 2);
}

struct Tagged { int src; int v; };
bool operator==(const Tagged &a, const Tagged &b) { return a.src == b.src && a.v == b.v; }
std::ostream &operator<<(std::ostream &os, const Tagged &t) { return os << t.src << ":" << t.v; }
Gen<Tagged> tagged(int src, std::shared_ptr<std::vector<int>> calls = nullptr) {
  auto g = gen::map(gen::inRange(src * 100, src * 100 + 50), [=](int v) { return Tagged{src, v}; });
  return [=](const Random &r, int size) {
    if (calls) calls->push_back(src);
    return g(r, size);
  };
}

void choices(Rng &rng) {
  auto calls = std::make_shared<std::vector<int>>();
  const int size = rng.below(130);
  const Random rnd(rng.next());
  const int k = rng.below(4);
  if (k == 0) {
    const auto s = gen::oneOf(tagged(0, calls), tagged(1, calls), tagged(2, calls), tagged(3, calls), tagged(4, calls))(rnd, size);
    const auto v0 = s.value();
    CHECK(calls->size() == 1 && (*calls)[0] == v0.src, "oneOf-used-several-generators", calls->size());
    tree::walk(rng, s, [&](const Tagged &v, const Tagged *, size_t, size_t) {
      CHECK(v.src == v0.src && v.v >= v.src * 100 && v.v < v.src * 100 + 50, "oneOf-shrinks-outside-selected", v0 << " -> " << v);
      return true;
    });
    mon::distinctStr("oneOf" + toString(v0.v));
  } else if (k == 1) {
    const auto s = gen::sizedOneOf(tagged(0), tagged(1), tagged(2), tagged(3))(rnd, size);
    const auto v0 = s.value();
    if (size == 0) CHECK(v0.src == 0, "size0-not-first", "sizedOneOf " << v0);
    tree::walk(rng, s, [&](const Tagged &v, const Tagged *p, size_t, size_t) {
      CHECK(v.src >= 0 && v.src < 4 && v.v >= v.src * 100 && v.v < v.src * 100 + 50, "not-a-generators-value", v);
      if (p) CHECK(v.src <= p->src, "sizedOneOf-shrinks-up", *p << " -> " << v);
      return true;
    });
    mon::distinctStr("sizedOneOf" + toString(v0.v));
  } else {
    std::vector<size_t> w(4);
    for (auto &x : w) x = rng.chance(1, 2) ? 0 : rng.chance(1, 4) ? (rng.next() >> 4) : 1 + rng.below(5);
    const bool zero = w[0] + w[1] + w[2] + w[3] == 0;
    std::ostringstream d;
    d << "weights " << w[0] << "," << w[1] << "," << w[2] << "," << w[3];
    if (k == 2) {
      const auto g = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}, {w[2], 2}, {w[3], 3}});
      for (int i = 0; i < 20; i++) {
        const auto s = g(Random(rng.next()), size);
        if (zero) { CHECK(fails(s), "all-zero-weights-not-a-failure", d.str()); mon::count("zero_weight_failures"); continue; }
        tree::walk(rng, s, [&](const int &v, const int *, size_t, size_t) {
          CHECK(v >= 0 && v < 4 && w[v] != 0, "zero-weight-selected", d.str() << " gave " << v);
          return true;
        }, 1);
      }
    } else {
      const auto g = gen::weightedOneOf<Tagged>({{w[0], tagged(0)}, {w[1], tagged(1)}, {w[2], tagged(2)}, {w[3], tagged(3)}});
      for (int i = 0; i < 10; i++) {
        const auto s = g(Random(rng.next()), size);
        if (zero) { CHECK(fails(s), "all-zero-weights-not-a-failure", d.str()); mon::count("zero_weight_failures"); continue; }
        const int src = s.value().src;
        tree::walk(rng, s, [&](const Tagged &v, const Tagged *, size_t, size_t) {
          CHECK(v.src == src && v.v >= src * 100 && v.v < src * 100 + 50 && w[v.src] != 0, "zero-weight-selected", d.str() << " gave " << v);
          return true;
        }, 1);
      }
    }
    mon::distinctStr(d.str());
    mon::count("weighted_selections");
  }
  mon::count("selection_trees");
}

// element(...)/sizedElement(...) by value, strings, duplicates, extreme weights
void fixedElements(Rng &rng) {
  const int size = rng.below(130);
  const auto a = gen::element<std::string>("x", "yy", "zzz")(Random(rng.next()), size);
  tree::walk(rng, a, [&](const std::string &v, const std::string *, size_t, size_t) { CHECK(v == "x" || v == "yy" || v == "zzz", "not-a-given-element", v); return true; });
  const auto b = gen::sizedElement<std::string>("x", "yy", "zzz")(Random(rng.next()), size);
  tree::walk(rng, b, [&](const std::string &v, const std::string *p, size_t, size_t) {
    CHECK(v == "x" || v == "yy" || v == "zzz", "not-a-given-element", v);
    if (p) CHECK(v.size() < p->size(), "sized-element-shrinks-up", *p << " -> " << v);
    return true;
  });
  const std::string text = "abcdef";
  const auto c = gen::elementOf(text)(Random(rng.next()), size);
  tree::walk(rng, c, [&](const char &v, const char *, size_t, size_t) { CHECK(v >= 'a' && v <= 'f', "not-a-given-element", v); return true; });
  const auto d = gen::elementOf(std::vector<Gen<int>>{gen::just(1), gen::just(2)})(Random(rng.next()), size).value()(Random(), 3).value();
  CHECK(d == 1 || d == 2, "not-a-given-element", d);
  // the container may go away
  Gen<int> e = gen::just(0);
  {
    std::vector<int> tmp{5, 6, 7};
    e = rng.chance(1, 2) ? gen::elementOf(tmp) : gen::sizedElementOf(tmp);
    tmp.assign(3, 99);
  }
  const int ev = e(Random(rng.next()), size).value();
  CHECK(ev >= 5 && ev <= 7, "not-a-given-element", ev);
  mon::count("selection_trees", 5);
}
} // namespace

SECTION("filters", 1500, 100000) { filterCase(rng); }
SECTION("shape-filters", 900, 60000) { shapeFilters(rng); }
SECTION("discards", 150, 8000) { discards(rng); }
SECTION("elementOf", 1500, 100000) {
  switch (rng.below(5)) {
  case 0: elementOfCase<std::vector<int>>(rng, "vector"); break;
  case 1: elementOfCase<std::list<int>>(rng, "list"); break;
  case 2: elementOfCase<std::set<int>>(rng, "set"); break;
  case 3: elementOfCase<std::deque<int>>(rng, "deque"); break;
  default: elementOfCase<std::multiset<int>>(rng, "multiset"); break;
  }
}
SECTION("choices", 2500, 200000) { choices(rng); }
SECTION("fixed-elements", 400, 30000) { fixedElements(rng); }
