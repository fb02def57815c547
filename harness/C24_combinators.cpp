// C24: combinators obey their shrink-tree model.
// A random expression over the combinators is built twice: as a generator of
// the library and as a tree of an independent model, whose operands are the
// trees the leaves produce for the random states and sizes they were observed
// to be called with.
#include "genfam.hpp"
#include "tree.hpp"
#include "rapidcheck/shrinkable/Operations.h"
#include <functional>
#include <map>
#include <memory>
using namespace rc;
using mon::Rng;

namespace {
using V = int64_t;
struct MT;
using MP = std::shared_ptr<const MT>;
struct MT {
  std::function<V()> v; // may throw GenerationFailure
  std::function<std::vector<MP>()> k;
  mutable int state = 0; // of the remembered value: 1 known, 2 failed
  mutable V known = 0;
  mutable bool haveKids = false;
  mutable std::vector<MP> knownKids;
  V value() const {
    if (state == 0) try { known = v(); state = 1; } catch (const GenerationFailure &) { state = 2; }
    if (state == 2) throw GenerationFailure("model");
    return known;
  }
  const std::vector<MP> &kids() const {
    if (!haveKids) { knownKids = k(); haveKids = true; }
    return knownKids;
  }
};
MP node(std::function<V()> v, std::function<std::vector<MP>()> k) {
  auto m = std::make_shared<MT>();
  m->v = std::move(v);
  m->k = std::move(k);
  return m;
}
std::vector<MP> none() { return {}; }

// -- model combinators
using F = std::function<V(V)>;
// An operand the library has not generated (yet).
struct Missing { std::string key; };
MP mLazy(std::function<MP()> f) {
  auto m = std::make_shared<MP>();
  auto get = [=] { if (!*m) *m = f(); return *m; };
  return node([=] { return get()->value(); }, [=] { return get()->kids(); });
}
MP mMap(MP m, F f) {
  return node([=] { return f(m->value()); }, [=] {
    std::vector<MP> r;
    for (auto &k : m->kids()) r.push_back(mMap(k, f));
    return r;
  });
}
using FT = std::function<MP(V)>;
MP mMapcat(MP m, FT f) {
  auto inner = std::make_shared<MP>();
  auto in = [=] { if (!*inner) *inner = f(m->value()); return *inner; };
  return node([=] { return in()->value(); }, [=] {
    std::vector<MP> r;
    for (auto &k : m->kids()) r.push_back(mMapcat(k, f));
    for (auto &k : in()->kids()) r.push_back(k);
    return r;
  });
}
using FN = std::function<V(const std::vector<V> &)>;
MP mTuple(std::vector<MP> ms, FN f) {
  return node(
      [=] {
        std::vector<V> vs;
        std::string missing;
        for (auto &m : ms) // one that fails makes the others unnecessary
          try { vs.push_back(m->value()); } catch (const Missing &e) { missing = e.key; }
        if (!missing.empty()) throw Missing{missing};
        return f(vs);
      },
      [=] {
        std::vector<MP> r;
        for (size_t i = 0; i < ms.size(); i++)
          for (auto &k : ms[i]->kids()) {
            auto c = ms;
            c[i] = k;
            r.push_back(mTuple(c, f));
          }
        return r;
      });
}
MP mNoShrink(MP m) { return node([=] { return m->value(); }, none); }
using FS = std::function<std::vector<V>(V)>;
MP mRecur(V v, FS f) {
  return node([=] { return v; }, [=] {
    std::vector<MP> r;
    for (V k : f(v)) r.push_back(mRecur(k, f));
    return r;
  });
}
using FP = std::function<bool(V)>;
MP mFilterKids(MP m, FP p) { // m itself satisfies p
  return node([=] { return m->value(); }, [=] {
    std::vector<MP> r;
    for (auto &k : m->kids())
      if (p(k->value())) r.push_back(mFilterKids(k, p));
    return r;
  });
}

// -- leaves: explicit trees determined by a seed
V leafValue(uint64_t s) { return (V)(mon::mix64(s) % 200) - 100; }
std::vector<uint64_t> leafKids(uint64_t s, int depth) {
  std::vector<uint64_t> r;
  if (depth == 0) return r;
  for (int i = 0, n = (int)(mon::mix64(s + 1) % 4); i < n; i++) r.push_back(mon::comb(s, i));
  return r;
}
MP mLeaf(uint64_t s, int depth) {
  return node([=] { return leafValue(s); }, [=] {
    std::vector<MP> r;
    for (auto k : leafKids(s, depth)) r.push_back(mLeaf(k, depth - 1));
    return r;
  });
}
struct KidSeq;
Shrinkable<V> leafTree(uint64_t s, int depth);
struct KidSeq {
  std::vector<uint64_t> k;
  size_t i;
  int depth;
  Maybe<Shrinkable<V>> operator()() {
    if (i >= k.size()) return Nothing;
    return leafTree(k[i++], depth);
  }
};
Shrinkable<V> leafTree(uint64_t s, int depth) {
  return shrinkable::lambda([=] { return leafValue(s); }, [=] { return makeSeq<KidSeq>(KidSeq{leafKids(s, depth), 0, depth - 1}); });
}
// The model view of a tree of the library (for library generators as leaves).
MP mOf(Shrinkable<V> s) {
  return node([=] { return s.value(); }, [=] {
    std::vector<MP> r;
    auto q = s.shrinks();
    while (auto k = q.next()) r.push_back(mOf(*k));
    return r;
  });
}

// -- observation of operands
struct Obs {
  std::map<std::string, std::pair<Random, int>> seen;
  std::map<std::string, std::vector<std::pair<Random, int>>> tries;
  std::string clash;
};
Obs *g_obs = nullptr;
template <typename T> Gen<T> rec(Gen<T> g, std::string key) {
  return Gen<T>([=](const Random &r, int size) {
    auto it = g_obs->seen.find(key);
    if (it == g_obs->seen.end()) {
      g_obs->seen.emplace(key, std::make_pair(r, size));
      mon::count("operand_states_observed");
    } else {
      mon::count("operands_regenerated");
      if (it->second.first != r || it->second.second != size) g_obs->clash = "operand " + key + " was regenerated from another random state or size";
    }
    return g(r, size);
  });
}
template <typename T> Gen<T> recTries(Gen<T> g, std::string key) {
  return Gen<T>([=](const Random &r, int size) {
    g_obs->tries[key].emplace_back(r, size);
    return g(r, size);
  });
}
std::pair<Random, int> observed(const std::string &key, int size) {
  auto it = g_obs->seen.find(key);
  if (it == g_obs->seen.end()) {
    throw Missing{key};
  }
  if (it->second.second != size && g_obs->clash.empty())
    g_obs->clash = "operand " + key + " was given size " + std::to_string(it->second.second) + " instead of " + std::to_string(size);
  return it->second;
}

// -- expressions
struct S {
  V a = 1, b = 2, c = 3;
  S() = default;
  S(V x, V y) : a(x), b(y) {}
  explicit S(V x) : a(x) {}
  S(V x, V y, V z) : a(x), b(y), c(z) {}
  void setB(V x) { b = x; }
  int setBoth(V x, V y) { b = x; c = y; return 0; }
  void setRef(const V &x) { c = x; }
};
V mix2(V a, V b) { return (V)(mon::comb((uint64_t)a, (uint64_t)b) % 20000) - 10000; }
V mixS(const S &s) { return mix2(mix2(s.a, s.b), s.c); }
V mix3(V a, V b, V c) { return mix2(mix2(a, b), c); }
using U = std::unique_ptr<V>;

const int kKinds = 25;
const char *kindName(int k) {
  static const char *n[kKinds] = {"leaf", "libleaf", "just", "map", "mapcat", "join", "pair", "tuple3", "cast", "apply", "construct", "makeUnique",
                                  "makeShared", "build", "scale", "resize", "withSize", "lazy", "noShrink", "shrink", "suchThat", "mapUnique", "tuple1", "named", "buildDefault"};
  return n[k];
}
struct Node {
  int kind;
  uint64_t h;
  int depth;
};
Node nodeOf(uint64_t h, int depth) {
  const uint64_t m = mon::mix64(h);
  int kind = (int)(m % kKinds);
  if (depth == 0) kind = (int)((m >> 20) % 3);
  else if (kind < 3 && (m >> 30) % 3) kind = 3 + (int)((m >> 40) % (kKinds - 3));
  return Node{kind, m, depth};
}
F fnOf(uint64_t h) {
  switch (h % 4) {
  case 0: return [](V x) { return x; };
  case 1: return [=](V x) { return x * 3 + (V)(h % 11); };
  case 2: return [=](V x) { return x & ~(V)3; };
  default: return [=](V x) { return (V)(mon::comb(h, (uint64_t)x) % 1000); };
  }
}
FS shrinkOf(uint64_t h) {
  return [=](V x) {
    std::vector<V> r;
    if (x > 4 && x < 100000) { r.push_back(x / 4); if (h & 1) r.push_back(x - 3); if (h & 2) r.push_back(0); }
    if (x < 0 && x > -100000) { r.push_back(-x); }
    return r;
  };
}
FP predOf(uint64_t h) {
  switch (h % 3) {
  case 0: return [](V x) { return x % 2 == 0; };
  case 1: return [](V x) { return x > -40; };
  default: return [=](V x) { return mon::comb(h, (uint64_t)x) % 3 != 0; };
  }
}
int newSize(uint64_t s) { return (int)(s % 11 == 0 ? (s >> 8) % 3000000 : s % 150); }
const double kScales[] = {0, 0.1, 0.5, 1, 1.5, 2, 0.99, 3.25};
uint64_t sub(uint64_t h, int i) { return mon::comb(h, 100 + i); }
bool leafFails(const Random &r, int size, uint64_t h) { return mon::comb(Random(r).next(), mon::comb(h, size)) % 60 == 0; }
uint64_t leafSeed(const Random &r, int size, uint64_t h) { return mon::comb(Random(r).next(), mon::comb(h, size)) * 2 + 1; }
Gen<V> rawLeaf(uint64_t h, int depth) {
  return Gen<V>([=](const Random &r, int size) -> Shrinkable<V> {
    if (leafFails(r, size, h)) throw GenerationFailure("leaf");
    return leafTree(leafSeed(r, size, h), depth);
  });
}
MP mRawLeaf(const Random &r, int size, uint64_t h, int depth) {
  if (leafFails(r, size, h)) return node([]() -> V { throw GenerationFailure("leaf"); }, none);
  return mLeaf(leafSeed(r, size, h), depth);
}
Gen<V> libLeaf(uint64_t h) {
  switch (h % 5) {
  case 0: return gen::inRange<V>(-(V)(h % 30), 1 + (V)(h % 50));
  case 1: return gen::map(gen::arbitrary<int8_t>(), [](int8_t x) { return (V)x; });
  case 2: return gen::map(gen::arbitrary<bool>(), [](bool x) { return (V)x; });
  case 3: return gen::elementOf(std::vector<V>{1, 5, 9});
  default: return gen::sizedElementOf(std::vector<V>{2, 4, 6, 8, 10, 12});
  }
}

bool wide(uint64_t s) { return (s >> 8) % 3 == 0; }

Gen<V> build(uint64_t h, int depth, const std::string &key) {
  const Node n = nodeOf(h, depth);
  const uint64_t s = n.h;
  auto op = [&](int i) { return build(sub(s, i), depth - 1, key + "." + std::to_string(i)); };
  const int d = depth - 1;
  switch (n.kind) {
  case 0: return rec(rawLeaf(s, 1 + (int)(s % 3)), key);
  case 1: return rec(libLeaf(s), key);
  case 2: return gen::just((V)(s % 50));
  case 3: return gen::map(op(0), fnOf(s));
  case 4: return gen::mapcat(op(0), [=](V x) { return rec(build(mon::comb(s, (uint64_t)x), d, key + ".in@" + std::to_string(x)), key + ".in"); });
  case 5: return gen::join(gen::map(op(0), [=](V x) { return rec(build(mon::comb(s, (uint64_t)x), d, key + ".in@" + std::to_string(x)), key + ".in"); }));
  case 6: return gen::map(gen::pair(op(0), op(1)), [](const std::pair<V, V> &p) { return mix2(p.first, p.second); });
  case 7:
    if (wide(s)) return gen::map(gen::tuple(op(0), op(1), op(2), op(3), op(4), op(5), op(6), op(7), op(8)), [](std::tuple<V, V, V, V, V, V, V, V, V> &&t) {
      return mix3(mix3(std::get<0>(t), std::get<1>(t), std::get<2>(t)), mix3(std::get<3>(t), std::get<4>(t), std::get<5>(t)), mix3(std::get<6>(t), std::get<7>(t), std::get<8>(t)));
    });
    return gen::map(gen::tuple(op(0), op(1), op(2)), [](std::tuple<V, V, V> &&t) { return mix3(std::get<0>(t), std::get<1>(t), std::get<2>(t)); });
  case 8: return s % 2 ? gen::cast<V>(gen::cast<int16_t>(op(0))) : gen::cast<V>(gen::cast<double>(op(0)));
  case 9: return s % 2 ? gen::apply([](V a, V b) { return mix2(a, b); }, op(0), op(1)) : gen::apply([=](V a, V b, V c) { return mix3(c, a, b) + (V)(s % 3); }, op(0), op(1), op(2));
  case 10: return s % 2 ? gen::map(gen::construct<S>(op(0), op(1)), &mixS) : gen::map(gen::construct<S>(op(0), op(1), op(2)), &mixS);
  case 11: return gen::map(gen::makeUnique<S>(op(0), op(1)), [](std::unique_ptr<S> &&p) { return mixS(*p); });
  case 12: return gen::map(gen::makeShared<S>(op(0), op(1), op(2)), [](const std::shared_ptr<S> &p) { return mixS(*p); });
  case 13:
    return gen::map(gen::build(gen::construct<S>(op(0)), gen::set(&S::a, op(1)), gen::set(&S::setB, op(2))), &mixS);
  case 24:
    if (s % 2) return gen::map(gen::build<S>(gen::set(&S::setBoth, gen::tuple(op(0), op(1))), gen::set(&S::a, op(2))), &mixS);
    return gen::map(gen::build(gen::makeUnique<S>(op(0), op(1)), gen::set(&S::setRef, op(2))), [](std::unique_ptr<S> &&p) { return mixS(*p); });
  case 14: return gen::scale(kScales[s % 8], op(0));
  case 15: return gen::resize(newSize(s), op(0));
  case 16: return gen::withSize([=](int size) { return build(mon::comb(s, size), d, key + ".sz@" + std::to_string(size)); });
  case 17: { const uint64_t c = sub(s, 0); return gen::lazy([=] { return build(c, d, key + ".0"); }); }
  case 18: return gen::noShrink(op(0));
  case 19: { const auto f = shrinkOf(s); return gen::shrink(op(0), [=](V x) { return seq::fromContainer(f(x)); }); }
  case 20: return gen::suchThat(recTries(rawLeaf(s, 3), key), predOf(s));
  case 21: return gen::map(gen::mapcat(gen::map(op(0), [](V x) { return U(new V(x)); }), [=](U &&x) { const V y = *x; return gen::map(gen::just(y), [](V z) { return U(new V(z + 1)); }); }), [](U &&x) { return *x; });
  case 22: return gen::map(gen::tuple(op(0)), [](const std::tuple<V> &t) { return std::get<0>(t); });
  default: return op(0).as("some name");
  }
}
MP model(uint64_t h, int depth, const std::string &key, int size) {
  const Node n = nodeOf(h, depth);
  const uint64_t s = n.h;
  mon::count((std::string("node_") + kindName(n.kind)).c_str());
  auto opS = [&](int i, int sz) { return model(sub(s, i), depth - 1, key + "." + std::to_string(i), sz); };
  auto op = [&](int i) { return opS(i, size); };
  const int d = depth - 1;
  switch (n.kind) {
  case 0: return mLazy([=] { const auto o = observed(key, size); return mRawLeaf(o.first, o.second, s, 1 + (int)(s % 3)); });
  case 1: return mLazy([=] { const auto o = observed(key, size); return mOf(libLeaf(s)(o.first, o.second)); });
  case 2: { const V v = (V)(s % 50); return node([=] { return v; }, none); }
  case 3: return mMap(op(0), fnOf(s));
  case 4: case 5:
    return mMapcat(op(0), [=](V x) { observed(key + ".in", size); return model(mon::comb(s, (uint64_t)x), d, key + ".in@" + std::to_string(x), size); });
  case 6: return mTuple({op(0), op(1)}, [](const std::vector<V> &v) { return mix2(v[0], v[1]); });
  case 7:
    if (wide(s)) return mTuple({op(0), op(1), op(2), op(3), op(4), op(5), op(6), op(7), op(8)}, [](const std::vector<V> &v) { return mix3(mix3(v[0], v[1], v[2]), mix3(v[3], v[4], v[5]), mix3(v[6], v[7], v[8])); });
    return mTuple({op(0), op(1), op(2)}, [](const std::vector<V> &v) { return mix3(v[0], v[1], v[2]); });
  case 8: return mMap(op(0), s % 2 ? F([](V x) { return (V)(int16_t)x; }) : F([](V x) { return (V)(double)x; }));
  case 9:
    if (s % 2) return mTuple({op(0), op(1)}, [](const std::vector<V> &v) { return mix2(v[0], v[1]); });
    return mTuple({op(0), op(1), op(2)}, [=](const std::vector<V> &v) { return mix3(v[2], v[0], v[1]) + (V)(s % 3); });
  case 10:
    if (s % 2) return mTuple({op(0), op(1)}, [](const std::vector<V> &v) { return mixS(S(v[0], v[1])); });
    // fallthrough
  case 12: return mTuple({op(0), op(1), op(2)}, [](const std::vector<V> &v) { return mixS(S(v[0], v[1], v[2])); });
  case 11: return mTuple({op(0), op(1)}, [](const std::vector<V> &v) { return mixS(S(v[0], v[1])); });
  case 13: return mTuple({op(0), op(1), op(2)}, [](const std::vector<V> &v) { S x; x.a = v[1]; x.b = v[2]; return mixS(x); });
  case 24:
    if (s % 2) return mTuple({op(0), op(1), op(2)}, [](const std::vector<V> &v) { return mixS(S(v[2], v[0], v[1])); });
    return mTuple({op(0), op(1), op(2)}, [](const std::vector<V> &v) { return mixS(S(v[0], v[1], v[2])); });
  case 14: return opS(0, (int)(size * kScales[s % 8]));
  case 15: return opS(0, newSize(s));
  case 16: return model(mon::comb(s, size), d, key + ".sz@" + std::to_string(size), size);
  case 17: case 23: case 22: return op(0);
  case 18: return mNoShrink(op(0));
  case 19: { const auto f = shrinkOf(s); return mMapcat(op(0), [=](V x) { return mRecur(x, f); }); }
  case 20: return mLazy([=] {
    const auto p = predOf(s);
    auto &t = g_obs->tries[key];
    if (t.empty()) throw Missing{key};
    if (!t.empty() && t[0].second != size && g_obs->clash.empty()) g_obs->clash = "operand " + key + " of suchThat was given size " + std::to_string(t[0].second) + " instead of " + std::to_string(size);
    for (auto &o : t) {
      const MP m = mRawLeaf(o.first, o.second, s, 3);
      if (leafFails(o.first, o.second, s)) return m; // a failing operand fails the whole
      if (p(m->value())) return mFilterKids(m, p);
    }
    return node([]() -> V { throw GenerationFailure("gave up"); }, none);
  });
  case 21: return mMap(op(0), [](V x) { return x + 1; });
  default: return op(0);
  }
}
std::string describe(uint64_t h, int depth) {
  const Node n = nodeOf(h, depth);
  std::string s = kindName(n.kind);
  static const int arity[kKinds] = {0, 0, 0, 1, 1, 1, 2, 3, 1, 2, 2, 2, 3, 3, 1, 1, 0, 1, 1, 1, 0, 1, 1, 1, 3};
  if (arity[n.kind]) {
    s += "(";
    for (int i = 0; i < arity[n.kind]; i++) s += (i ? "," : "") + describe(sub(n.h, i), depth - 1);
    s += ")";
  }
  return s;
}

struct Val { bool ok; V v; };
Val valueOf(const Shrinkable<V> &s) {
  try { return {true, s.value()}; } catch (const GenerationFailure &) { return {false, 0}; }
}
Val valueOf(const MP &m) {
  try { return {true, m->value()}; } catch (const GenerationFailure &) { return {false, 0}; } catch (const Missing &e) {
    if (g_obs->clash.empty()) g_obs->clash = "operand " + e.key + " was never generated";
    return {false, 0};
  }
}
std::string show(const Val &v) { return v.ok ? std::to_string(v.v) : "failure"; }
// Lockstep; the library is always evaluated before the model.
std::string lockstep(Rng &rng, const Shrinkable<V> &a, const std::function<MP()> &mf, size_t &budget, int depth) {
  const Val va = valueOf(a);
  const MP m = mf();
  const Val vm = valueOf(m);
  mon::count("tree_nodes_compared");
  if (!g_obs->clash.empty()) return g_obs->clash;
  if (va.ok != vm.ok || va.v != vm.v) return "value " + show(va) + " instead of " + show(vm) + " at depth " + std::to_string(depth);
  if (!va.ok) { mon::count("failing_nodes"); return ""; }
  if (budget == 0 || depth > 40) return "";
  budget--;
  std::vector<Shrinkable<V>> kids;
  auto q = a.shrinks();
  while (kids.size() < 3000) {
    auto k = q.next();
    if (!k) break;
    valueOf(*k);
    kids.push_back(*k);
  }
  const auto mk = m->kids();
  if (!g_obs->clash.empty()) return g_obs->clash;
  if (kids.size() != mk.size()) return "value " + show(va) + " has " + std::to_string(kids.size()) + " shrinks instead of " + std::to_string(mk.size()) + " at depth " + std::to_string(depth);
  for (size_t i = 0; i < kids.size(); i++) {
    const Val x = valueOf(kids[i]), y = valueOf(mk[i]);
    mon::count("tree_nodes_compared");
    if (!g_obs->clash.empty()) return g_obs->clash;
    if (x.ok != y.ok || x.v != y.v) return "shrink " + std::to_string(i) + " of " + show(va) + " is " + show(x) + " instead of " + show(y) + " at depth " + std::to_string(depth);
  }
  std::vector<size_t> order(kids.size());
  for (size_t i = 0; i < order.size(); i++) order[i] = i;
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rng.below(i)]);
  for (size_t i : order) {
    if (budget == 0) break;
    const auto e = lockstep(rng, kids[i], [&] { return mk[i]; }, budget, depth + 1);
    if (!e.empty()) return e;
  }
  return "";
}
// Operands of one evaluation must not share random states; alternatives
// (marked @value) may.
std::string shared() {
  std::map<std::string, std::string> by;
  std::vector<std::pair<std::string, Random>> v;
  for (auto &e : g_obs->seen) {
    if (e.first.size() > 3 && e.first.compare(e.first.size() - 3, 3, ".in") == 0) continue; // a wrapper
    v.emplace_back(e.first, e.second.first);
  }
  if (v.size() > 40) v.resize(40);
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = 0; j < i; j++) {
      if (!(v[i].second == v[j].second)) continue;
      const std::string &x = v[i].first, &y = v[j].first;
      size_t p = 0;
      while (p < x.size() && p < y.size() && x[p] == y[p]) p++;
      // the first difference lies within an @value?
      const size_t at = x.rfind('@', p);
      const size_t dot = x.rfind('.', p == x.size() ? p - 1 : p);
      const bool alternative = at != std::string::npos && at <= p && (dot == std::string::npos || dot < at || dot == p);
      if (alternative && x.substr(at, x.find('.', at) - at) != y.substr(at, y.find('.', at) - at)) continue;
      return x + " and " + y;
    }
  return "";
}
} // namespace

SECTION("expressions", 16000, 500000) {
  Obs obs;
  g_obs = &obs;
  const uint64_t h = rng.next();
  const int depth = 1 + (int)rng.below(4);
  const int size = rng.chance(1, 4) ? (int)rng.below(3) : rng.chance(1, 10) ? 1000 + (int)rng.below(100000) : (int)rng.below(120);
  Random random(rng.next());
  for (int i = 0, n = (int)rng.below(3); i < n; i++) random.split();
  const auto g = build(h, depth, "e");
  const auto tree = g(random, size);
  size_t budget = 40;
  const auto e = lockstep(rng, tree, [&] { return model(h, depth, "e", size); }, budget, 0);
  g_obs = &obs;
  CHECK(e.empty(), std::string("tree.") + kindName(nodeOf(h, depth).kind), describe(h, depth) << " at size " << size << ": " << e);
  const auto sh = shared();
  CHECK(sh.empty(), "operands.shared", describe(h, depth) << ": operands " << sh << " were given the same random state");
  mon::count("expressions_checked");
  mon::distinctStr(describe(h, depth) + std::to_string(size));
  if (depth > 2) mon::sample(describe(h, depth) + " size " + std::to_string(size) + ": " + show(valueOf(tree)));
  g_obs = nullptr;
}

// -- shrinkable combinators on explicit trees
namespace {
struct Both { Shrinkable<V> a; MP m; };
Both shr(Rng &r, int depth) {
  const uint64_t h = r.next();
  const int k = depth == 0 ? (int)r.below(4) : (int)r.below(12);
  switch (k) {
  case 0: case 1: case 2: { const int d = 1 + (int)r.below(4); return {leafTree(h, d), mLeaf(h, d)}; }
  case 3: { const V v = (V)(h % 90); return {shrinkable::just(v), node([=] { return v; }, none)}; }
  case 4: { const Both o = shr(r, depth - 1); const F f = fnOf(h); return {shrinkable::map(o.a, f), mMap(o.m, f)}; }
  case 5: {
    const Both o = shr(r, depth - 1);
    auto inner = [=](V x) { Rng q(mon::comb(h, (uint64_t)x)); return shr(q, depth - 1); };
    return {shrinkable::mapcat(o.a, [=](V x) { return inner(x).a; }), mMapcat(o.m, [=](V x) { return inner(x).m; })};
  }
  case 6: {
    const Both o = shr(r, depth - 1), p = shr(r, depth - 1);
    return {shrinkable::map(shrinkable::pair(o.a, p.a), [](const std::pair<V, V> &x) { return mix2(x.first, x.second); }), mTuple({o.m, p.m}, [](const std::vector<V> &v) { return mix2(v[0], v[1]); })};
  }
  case 7: {
    const Both o = shr(r, depth - 1);
    const FP p = predOf(h);
    auto f = shrinkable::filter(o.a, p);
    CHECK(bool(f) == p(o.m->value()), "filter.root", "filter " << (f ? "kept" : "dropped") << " a root with value " << o.m->value());
    if (!f) return o;
    return {*f, mFilterKids(o.m, p)};
  }
  case 8: { const Both o = shr(r, depth - 1); const FS f = shrinkOf(h); return {shrinkable::postShrink(o.a, [=](V x) { return seq::fromContainer(f(x)); }), mMapcat(o.m, [=](V x) { return mRecur(x, f); })}; }
  case 9: { const V v = (V)(h % 3000) - 500; const FS f = shrinkOf(h); return {shrinkable::shrinkRecur(v, [=](V x) { return seq::fromContainer(f(x)); }), mRecur(v, f)}; }
  case 10: {
    const Both o = shr(r, depth - 1);
    const size_t n = r.below(4);
    return {shrinkable::mapShrinks(o.a, [=](Seq<Shrinkable<V>> &&s) { return seq::take(n, std::move(s)); }),
            node([=] { return o.m->value(); }, [=] { auto k = o.m->kids(); if (k.size() > n) k.resize(n); return k; })};
  }
  default: {
    const Both o = shr(r, depth - 1), p = shr(r, depth - 1);
    const V v = (V)(h % 77);
    if (h % 2) return {shrinkable::just(v, seq::just(o.a, p.a)), node([=] { return v; }, [=] { return std::vector<MP>{o.m, p.m}; })};
    return {shrinkable::shrink([=] { return v; }, [=](V x) { return x == v ? seq::just(p.a, o.a) : seq::just(o.a); }), node([=] { return v; }, [=] { return std::vector<MP>{p.m, o.m}; })};
  }
  }
}
std::vector<std::vector<size_t>> randomPaths(Rng &r, const MP &m) {
  std::vector<std::vector<size_t>> ps;
  for (int i = 0; i < 6; i++) {
    std::vector<size_t> p;
    MP cur = m;
    for (int d = (int)r.below(5); d > 0; d--) {
      const auto k = cur->kids();
      if (r.chance(1, 12)) { p.push_back(k.size() + r.below(3)); break; }
      if (k.empty()) break;
      p.push_back(r.below(k.size()));
      cur = k[p.back()];
    }
    ps.push_back(p);
  }
  return ps;
}
MP walkModel(MP m, const std::vector<size_t> &p) {
  for (size_t i : p) {
    const auto k = m->kids();
    if (i >= k.size()) return nullptr;
    m = k[i];
  }
  return m;
}
bool allModel(const MP &m, const FP &p, size_t &budget) {
  if (budget == 0) return true;
  budget--;
  if (!p(m->value())) return false;
  for (auto &k : m->kids()) if (!allModel(k, p, budget)) return false;
  return true;
}
size_t sizeModel(const MP &m, size_t cap) {
  size_t n = 1;
  for (auto &k : m->kids()) { if (n > cap) break; n += sizeModel(k, cap - std::min(cap, n)); }
  return n;
}
} // namespace

SECTION("shrinkables", 12000, 300000) {
  Obs obs;
  g_obs = &obs;
  const Both b = shr(rng, 1 + (int)rng.below(3));
  size_t budget = 40;
  const auto e = lockstep(rng, b.a, [&] { return b.m; }, budget, 0);
  CHECK(e.empty(), "shrinkable.tree", e);
  mon::count("shrinkable_expressions");
  // operations
  for (auto &p : randomPaths(rng, b.m)) {
    const auto m = walkModel(b.m, p);
    const auto w = shrinkable::walkPath(b.a, p);
    CHECK(bool(w) == bool(m), "walkPath", "path " << toString(p) << (w ? " exists" : " does not exist"));
    if (w && m) CHECK(w->value() == m->value(), "walkPath", "path " << toString(p) << " leads to " << w->value() << " instead of " << m->value());
    mon::count("paths_walked");
  }
  {
    auto im = shrinkable::immediateShrinks(b.a);
    const auto k = b.m->kids();
    for (auto &x : k) { auto v = im.next(); CHECK(v && *v == x->value(), "immediateShrinks", "differs from the direct shrinks"); }
    CHECK(!im.next(), "immediateShrinks", "too many");
  }
  {
    const FP p = predOf(rng.next());
    std::vector<V> asked;
    const auto r = shrinkable::findLocalMin(b.a, [&](V x) { asked.push_back(x); return p(x); });
    V best = b.m->value();
    size_t steps = 0;
    auto k = b.m->kids();
    for (size_t i = 0; i < k.size();) {
      const V v = k[i]->value();
      if (p(v)) { best = v; steps++; k = std::vector<MP>(k[i]->kids()); i = 0; } else i++;
    }
    CHECK(r.first == best && r.second == steps, "findLocalMin", "found " << r.first << " after " << r.second << " steps instead of " << best << " after " << steps);
  }
  if (sizeModel(b.m, 400) < 400) {
    const FP p = rng.chance(1, 2) ? FP([](V) { return true; }) : FP([=](V x) { return x % 13 != 5; });
    size_t bud = 100000;
    const bool want = allModel(b.m, p, bud);
    CHECK(shrinkable::all(b.a, [=](const Shrinkable<V> &s) { return p(s.value()); }) == want, "all", "shrinkable::all does not give " << want);
    mon::count(want ? "all_true" : "all_false");
  }
  mon::distinct(rng.next());
  g_obs = nullptr;
}

// -- identities on whole trees
SECTION("identities", 2500, 50000) {
  Obs obs;
  g_obs = &obs;
  const uint64_t h = rng.next();
  auto same = [&](const Shrinkable<V> &a, const Shrinkable<V> &b, const char *law) {
    const auto e = tree::compareShown(rng, a, b, 25);
    CHECK(e.empty(), std::string("law.") + law, law << ": " << e);
    mon::count("laws_compared");
  };
  const Shrinkable<V> s = leafTree(h | 1, 4);
  const F f = fnOf(rng.next()), g = fnOf(rng.next());
  const uint64_t hf = rng.next(), hg = rng.next();
  auto kf = [=](V x) { return leafTree(mon::comb(hf, (uint64_t)x), 2); };
  auto kg = [=](V x) { return leafTree(mon::comb(hg, (uint64_t)x), 2); };
  auto ret = [](V x) { return shrinkable::just(x); };
  same(shrinkable::map(s, [](V x) { return x; }), s, "map identity");
  same(shrinkable::map(shrinkable::map(s, f), g), shrinkable::map(s, [=](V x) { return g(f(x)); }), "map composition");
  same(shrinkable::mapcat(s, ret), s, "mapcat right identity");
  same(shrinkable::mapcat(shrinkable::just((V)5), kf), kf(5), "mapcat left identity");
  same(shrinkable::mapcat(shrinkable::mapcat(s, kf), kg), shrinkable::mapcat(s, [=](V x) { return shrinkable::mapcat(kf(x), kg); }), "mapcat associativity");
  same(shrinkable::mapcat(s, [=](V x) { return shrinkable::just(f(x)); }), shrinkable::map(s, f), "map by mapcat");
  // generators with the same random state and size
  const Random random(rng.next());
  const int size = (int)rng.below(rng.chance(1, 4) ? 100 : 30);
  const int fam = (int)rng.below(genfam::kFamilies);
  const auto G = genfam::make(fam, h);
  auto sameS = [&](const Gen<std::string> &a, const Gen<std::string> &b, const char *law) {
    if (!rng.chance(1, 3)) return;
    std::string e;
    try {
      auto x = a(random, size), y = b(random, size);
      bool fx = false, fy = false;
      try { x.value(); } catch (const GenerationFailure &) { fx = true; }
      try { y.value(); } catch (const GenerationFailure &) { fy = true; }
      CHECK(fx == fy, std::string("law.") + law, law << " for " << genfam::name(fam) << ": only one side fails");
      if (fx || fy) return;
      size_t budget = 5;
      e = tree::compare(rng, x, y, [](const std::string &p, const std::string &q) { return p == q; }, [](const std::string &p) { return p; }, budget, 25);
    } catch (const GenerationFailure &) { return; }
    CHECK(e.empty(), std::string("law.") + law, law << " for " << genfam::name(fam) << " size " << size << ": " << e);
    mon::count("generator_laws_compared");
  };
  using St = std::string;
  sameS(gen::map(G, [](const St &x) { return x; }), G, "map identity");
  sameS(gen::cast<St>(G), G, "cast to itself");
  sameS(gen::resize(size, G), G, "resize to the same size");
  sameS(gen::scale(1.0, G), G, "scale by 1");
  sameS(gen::lazy([=] { return G; }), G, "lazy");
  sameS(gen::withSize([=](int n) { return gen::resize(n, G); }), G, "withSize");
  sameS(gen::suchThat(gen::just(St("x")), [](const St &) { return true; }), gen::just(St("x")), "suchThat true");
  sameS(gen::noShrink(gen::noShrink(G)), gen::noShrink(G), "noShrink twice");
  sameS(gen::shrink(G, [](const St &) { return Seq<St>(); }), G, "shrink by nothing");
  sameS(gen::map(gen::map(G, [](const St &x) { return x + "a"; }), [](const St &x) { return x + "b"; }), gen::map(G, [](const St &x) { return x + "ab"; }), "map composition");
  sameS(gen::scale(0.5, gen::scale(0.5, gen::resize(40, G))), gen::resize(40, G), "inner resize wins");
  {
    bool none = true;
    auto x = gen::noShrink(G)(random, size);
    try { x.value(); none = !x.shrinks().next(); } catch (const GenerationFailure &) {}
    CHECK(none, "law.noShrink", genfam::name(fam) << " under noShrink has shrinks");
  }
  mon::distinct(mon::comb(fam, h));
  g_obs = nullptr;
}
