// C10: generators and shrinkables are immutable values independent of lifetime.
#include "tree.hpp"
#include "genfam.hpp"
#include <list>
using namespace rc;
using mon::Rng;

namespace {
template <typename T> std::string show1(const T &v) { return rc::toString(v); }
std::string show1(const std::string &v) { return v; }

template <typename T> struct Lab {
  std::function<Gen<T>()> fresh; // builds the generator anew
  std::string what;
  struct Base { Random rnd; int size; };
  std::vector<Base> bases;
  // expected text of the value at (base, path), from a tree nobody else touches
  std::map<std::pair<int, std::vector<size_t>>, std::pair<bool, std::string>> cache;

  std::pair<bool, std::string> expect(int b, const std::vector<size_t> &path) {
    auto key = std::make_pair(b, path);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    std::pair<bool, std::string> r{false, ""};
    {
      const auto g = fresh();
      const auto s = g(bases[b].rnd, bases[b].size);
      Maybe<Shrinkable<T>> n = s;
      for (auto i : path) {
        n = seq::at(n->shrinks(), i);
        if (!n) break;
      }
      if (n) {
        try { r = {true, show1(n->value())}; } catch (const GenerationFailure &) { r = {true, "<generation failure>"}; }
      }
    }
    cache[key] = r;
    return r;
  }
};

template <typename T> struct SObj { Shrinkable<T> s; int b; std::vector<size_t> path; };
template <typename T> struct QObj { Seq<Shrinkable<T>> q; int b; std::vector<size_t> path; size_t pos; bool ended; };

template <typename T> std::string valueOf(const Shrinkable<T> &s, bool scribble) {
  try {
    T v = s.value();
    auto r = show1(v);
    if (scribble) v = T(); // the copy is ours
    return r;
  } catch (const GenerationFailure &) {
    return "<generation failure>";
  }
}

template <typename T> void script(Rng &rng, Lab<T> &lab) {
  const int nb = 1 + rng.below(3);
  for (int i = 0; i < nb; i++) lab.bases.push_back({Random(rng.next()), (int)rng.below(rng.chance(1, 4) ? 60 : 15)});
  std::list<Gen<T>> gens;
  gens.push_back(lab.fresh());
  std::vector<SObj<T>> ss;
  std::vector<QObj<T>> qs;
  int steps = 20 + rng.below(60);
  auto check = [&](const Shrinkable<T> &s, int b, const std::vector<size_t> &path, const char *op) {
    const auto e = lab.expect(b, path);
    const auto v = valueOf(s, rng.chance(1, 2));
    CHECK(e.first && e.second == v, "value-changed", lab.what << " after " << op << " at depth " << path.size() << ": expected " << e.second << " got " << v);
    mon::count("values_compared");
  };
  for (int st = 0; st < steps; st++) {
    switch (rng.below(14)) {
    case 0: { // evaluate some copy of the generator
      if (gens.empty()) gens.push_back(lab.fresh());
      auto it = gens.begin();
      std::advance(it, rng.below(gens.size()));
      const int b = rng.below(nb);
      const Random before = lab.bases[b].rnd;
      ss.push_back({(*it)(lab.bases[b].rnd, lab.bases[b].size), b, {}});
      CHECK(before == lab.bases[b].rnd, "random-argument-changed", lab.what);
      check(ss.back().s, b, {}, "evaluate");
      mon::count("evaluations");
      break;
    }
    case 1: // copy or move generators
      if (!gens.empty()) {
        if (rng.chance(1, 3)) gens.push_back(gens.front());
        else if (rng.chance(1, 2)) { gens.push_back(std::move(gens.front())); gens.pop_front(); }
        else gens.push_back(gens.back().as("named"));
      }
      break;
    case 2: // assign over / destroy a generator
      if (!gens.empty()) {
        if (rng.chance(1, 2)) gens.front() = lab.fresh();
        else if (rng.chance(1, 2)) gens.front() = gens.back();
        else gens.pop_front();
        mon::count("sources_destroyed");
      }
      break;
    case 3: case 4: // start a shrink sequence
      if (!ss.empty()) {
        auto &o = ss[rng.below(ss.size())];
        qs.push_back({o.s.shrinks(), o.b, o.path, 0, false});
        if (rng.chance(1, 3)) check(o.s, o.b, o.path, "shrinks");
      }
      break;
    case 5: case 6: case 7: case 8: // advance a sequence
      if (!qs.empty()) {
        auto &o = qs[rng.below(qs.size())];
        const int n = 1 + rng.below(5);
        for (int i = 0; i < n && !o.ended; i++) {
          auto c = o.q.next();
          auto path = o.path;
          path.push_back(o.pos);
          if (!c) {
            CHECK(!lab.expect(o.b, path).first, "sequence-ended-early", lab.what << " at " << o.pos << " depth " << o.path.size());
            o.ended = true;
          } else {
            check(*c, o.b, path, "next");
            o.pos++;
            if (path.size() < 12 && ss.size() < 40) ss.push_back({std::move(*c), o.b, path});
          }
          mon::count("sequence_steps");
        }
        if (o.ended) CHECK(!o.q.next(), "sequence-resumed", lab.what);
      }
      break;
    case 9: // copy a sequence in the middle
      if (!qs.empty() && qs.size() < 30) {
        auto c = qs[rng.below(qs.size())];
        if (rng.chance(1, 3)) { auto &t = qs[rng.below(qs.size())]; t = c; }
        qs.push_back(std::move(c));
      }
      break;
    case 10: // destroy shrinkables
      if (!ss.empty()) {
        const size_t i = rng.below(ss.size());
        std::swap(ss[i], ss.back());
        ss.pop_back();
        mon::count("sources_destroyed");
      }
      break;
    case 11: // overwrite / move shrinkables
      if (ss.size() > 1) {
        const size_t i = rng.below(ss.size()), j = rng.below(ss.size());
        if (rng.chance(1, 2)) { auto c = ss[j]; ss[i] = c; }
        else if (i != j) { ss[i] = std::move(ss[j]); std::swap(ss[j], ss.back()); ss.pop_back(); }
        mon::count("sources_destroyed");
      }
      break;
    case 12: // destroy sequences
      if (!qs.empty() && rng.chance(1, 2)) {
        const size_t i = rng.below(qs.size());
        std::swap(qs[i], qs.back());
        qs.pop_back();
      }
      break;
    default: // look again
      if (!ss.empty()) {
        auto &o = ss[rng.below(ss.size())];
        check(o.s, o.b, o.path, "look again");
      }
    }
  }
  // Kill everything except one sequence / shrinkable, in random order.
  gens.clear();
  if (!qs.empty()) {
    std::swap(qs[0], qs[rng.below(qs.size())]);
    qs.erase(qs.begin() + 1, qs.end());
  }
  if (rng.chance(1, 2)) ss.clear();
  if (!qs.empty()) {
    auto &o = qs[0];
    for (int i = 0; i < 10 && !o.ended; i++) {
      auto c = o.q.next();
      if (!c) break;
      auto path = o.path;
      path.push_back(o.pos++);
      check(*c, o.b, path, "everything else destroyed");
    }
  }
  for (auto &o : ss) check(o.s, o.b, o.path, "generators destroyed");
  mon::distinctStr(lab.what + lab.expect(0, {}).second);
}

// Whole trees: evaluated twice, from copies, breadth first vs depth first.
template <typename T> void twice(Rng &rng, Lab<T> &lab) {
  const Random r(rng.next());
  const int size = rng.below(40);
  const auto g = lab.fresh();
  const auto a = g(r, size);
  bool failed = false;
  try { a.value(); } catch (const GenerationFailure &) { failed = true; }
  const auto copy = g;
  if (failed) {
    bool again = false;
    try { copy(r, size).value(); } catch (const GenerationFailure &) { again = true; }
    CHECK(again, "generation-failure-not-repeated", lab.what);
    return;
  }
  // evaluate other things in between
  for (int i = rng.below(4); i > 0; i--) {
    auto s = g(Random(rng.next()), rng.below(100));
    try { s.value(); } catch (const GenerationFailure &) {}
    auto q = s.shrinks();
    for (int k = 0; k < 5; k++) q.next();
  }
  const auto b = copy(r, size);
  size_t budget = 40;
  auto eq = [](const T &x, const T &y) { return x == y; };
  auto sh = [](const T &x) { return show1(x); };
  auto m = tree::compare(rng, a, b, eq, sh, budget, 120);
  CHECK(m.empty(), "tree-differs-when-reevaluated", lab.what << ": " << m);
  budget = 40;
  m = tree::compare(rng, a, lab.fresh()(r, size), eq, sh, budget, 120);
  CHECK(m.empty(), "tree-differs-from-fresh-generator", lab.what << ": " << m);
  const auto d1 = [&] { std::string o; size_t bb = 80; tree::dump(a, sh, bb, o); return o; }();
  const auto d2 = [&] { std::string o; size_t bb = 80; tree::dump(a, sh, bb, o); return o; }();
  CHECK(d1 == d2, "tree-differs-when-traversed-again", lab.what);
  // A different random state or the value must not leak between evaluations
  mon::count("trees_compared", 3);
  mon::distinctStr(lab.what + d1);
}

Lab<std::string> textLab(Rng &rng) {
  const int k = rng.below(genfam::kFamilies);
  const uint64_t h = rng.next();
  Lab<std::string> l;
  l.fresh = [=] { return genfam::make(k, h); };
  l.what = std::string(genfam::name(k)) + "/" + std::to_string(h % 1000);
  return l;
}
Lab<int> intLab(Rng &rng) {
  const int k = rng.below(genfam::kIntFamilies);
  const uint64_t h = rng.next();
  Lab<int> l;
  l.fresh = [=] { return genfam::makeInt(k, h); };
  l.what = "Gen<int> " + std::string(genfam::name(k));
  return l;
}
Lab<std::vector<int>> vecLab(Rng &rng) {
  const int k = rng.below(genfam::kVecFamilies);
  const uint64_t h = rng.next();
  Lab<std::vector<int>> l;
  l.fresh = [=] { return genfam::makeVec(k, h); };
  l.what = "Gen<vector> " + std::string(genfam::name(16 + k));
  return l;
}

// Sequences of values obtained from functions that are gone.
void orphans(Rng &rng) {
  const uint64_t h = rng.next();
  const int k = rng.below(genfam::kVecFamilies);
  const Random r(rng.next());
  const int size = 1 + rng.below(30);
  std::string expected, got;
  auto fill = [&](Seq<Shrinkable<std::vector<int>>> q, std::string &o) {
    for (int i = 0; i < 40; i++) {
      auto c = q.next();
      if (!c) break;
      o += rc::toString(c->value());
      auto q2 = c->shrinks();
      c = Nothing;
      for (int j = 0; j < 3; j++)
        if (auto cc = q2.next()) o += rc::toString(cc->value());
    }
  };
  {
    const auto g = genfam::makeVec(k, h);
    const auto s = g(r, size);
    fill(s.shrinks(), expected);
  }
  Seq<Shrinkable<std::vector<int>>> q;
  {
    auto g = genfam::makeVec(k, h);
    auto s = g(r, size);
    q = s.shrinks();
    g = gen::just(std::vector<int>{1, 2, 3});
    s = shrinkable::just(std::vector<int>{9});
  }
  // dirty the heap
  { std::vector<std::string> junk; for (int i = 0; i < 50; i++) junk.push_back(std::string(20 + rng.below(200), 'z')); }
  fill(q, got);
  CHECK(expected == got, "orphaned-sequence-differs", "Gen<vector> " << genfam::name(16 + k) << ": " << expected << " vs " << got);
  mon::count("orphaned_sequences");
}
} // namespace

SECTION("script-text", 500, 40000) { auto l = textLab(rng); script(rng, l); }
SECTION("script-int", 300, 20000) { auto l = intLab(rng); script(rng, l); }
SECTION("script-vector", 300, 20000) { auto l = vecLab(rng); script(rng, l); }
SECTION("twice-text", 300, 30000) { auto l = textLab(rng); twice(rng, l); }
SECTION("twice-vector", 150, 10000) { auto l = vecLab(rng); twice(rng, l); }
SECTION("orphans", 300, 20000) { orphans(rng); }
