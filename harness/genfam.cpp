#include "genfam.hpp"
#include <array>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_set>

namespace genfam {
namespace {
// State on the heap, poisoned when the holder dies.
struct Heap {
  std::vector<uint64_t> v;
  std::string s;
  explicit Heap(uint64_t h) : v{h, h ^ 0x55, 3}, s("a string that is too long to be stored inline " + std::to_string(h)) {}
  uint64_t get() const { return v[0] + (s.size() > 40 ? 0 : 1); }
};
struct ModPred {
  Heap st;
  unsigned mod;
  template <typename T> bool operator()(const T &x) const { return mon::comb(mon::hashStr(rc::toString(x)), st.get()) % mod != 0; }
};
struct KeyBy {
  Heap st;
  int operator()(int x) const { return (x + 100000) / (2 + (int)(st.get() % 3)); }
};
struct AddK {
  Heap st;
  int operator()(int x) const { return (int)((unsigned)x + (unsigned)(st.get() % 1000)); }
};
struct VecOf {
  Heap st;
  Gen<std::vector<int>> operator()(int n) const {
    return gen::container<std::vector<int>>((std::size_t)(n % 6), gen::inRange(0, 10 + (int)(st.get() % 50)));
  }
};
struct RangeOf {
  Heap st;
  Gen<int> operator()(int n) const { return gen::inRange(n, n + 5 + (int)(st.get() % 10)); }
};
struct HalfShrink {
  Heap st;
  Seq<int> operator()(int x) const {
    std::vector<int> v;
    if (x > 1) v.push_back(x / 2);
    if (x > 0) v.push_back(x - 1);
    if (x > 10 && st.get() % 2) v.push_back(7);
    return seq::fromContainer(v);
  }
};
struct Point {
  int x = 0, y = 0;
  std::string n;
  Point() = default;
  Point(int a, int b) : x(a), y(b) {}
  void setBoth(int a, std::string s) { y = a; n = std::move(s); }
};
std::ostream &operator<<(std::ostream &os, const Point &p) { return os << "P(" << p.x << "," << p.y << "," << rc::toString(p.n) << ")"; }

using Model = std::vector<int>;
struct SutX {};
using Cmd = state::Command<Model, SutX>;
struct Push : Cmd {
  int v = *gen::inRange(0, 20);
  void apply(Model &m) const override { m.push_back(v); }
  void show(std::ostream &os) const override { os << "push" << v; }
};
struct Pop : Cmd {
  void checkPreconditions(const Model &m) const override { RC_PRE(!m.empty()); }
  void apply(Model &m) const override { m.pop_back(); }
  void show(std::ostream &os) const override { os << "pop"; }
};
struct Need : Cmd {
  int i;
  explicit Need(const Model &m) : i(m.empty() ? 0 : *gen::inRange<int>(0, m.size())) {}
  void checkPreconditions(const Model &m) const override { RC_PRE(i < (int)m.size()); }
  void apply(Model &m) const override { m[i]++; }
  void show(std::ostream &os) const override { os << "need" << i; }
};

template <typename T> Gen<std::string> txt(Gen<T> g) {
  return gen::map(std::move(g), [](const T &x) { return rc::toString(x); });
}
} // namespace

Gen<int> makeInt(int k, uint64_t h) {
  const int a = (int)(h % 37) - 10, w = 1 + (int)((h >> 8) % 200);
  switch (k) {
  case 0: return gen::arbitrary<int>();
  case 1: return gen::inRange(a, a + w);
  case 2: return gen::suchThat(gen::inRange(a, a + w + 20), ModPred{Heap(h), 3});
  case 3: return gen::map(gen::inRange(0, w), AddK{Heap(h)});
  case 4: return gen::mapcat(gen::inRange(0, 20), RangeOf{Heap(h)});
  case 5: return gen::join(gen::elementOf(std::vector<Gen<int>>{gen::inRange(0, 10), gen::inRange(5, 60), gen::just(3)}));
  case 6: return gen::oneOf(gen::inRange(0, w), gen::inRange(100, 100 + w), gen::just(a));
  case 7: return gen::sizedElementOf(std::vector<int>{a, 5, 9, 1, 12, 77, 4});
  case 8: return gen::weightedOneOf<int>({{1, gen::just(a)}, {3, gen::inRange(0, w)}, {0, gen::just(-99)}});
  case 9: return gen::shrink(gen::inRange(0, w), HalfShrink{Heap(h)});
  case 10: return gen::exec([=] {
      const int n = *gen::inRange(0, 8);
      int s = 0;
      for (int i = 0; i < n; i++) s += *gen::inRange(0, w);
      return s;
    });
  case 11: return gen::lazy([=] { return gen::inRange(a, a + w); });
  case 12: return gen::withSize([=](int sz) { return gen::inRange(0, sz + 1); });
  case 13: return gen::apply([=](int x, bool b) { return b ? x + a : x; }, gen::inRange(0, w), gen::arbitrary<bool>());
  case 14: return gen::sizedOneOf(gen::just(0), gen::inRange(1, 10), gen::inRange(10, 10 + w));
  default: return gen::noShrink(gen::arbitrary<int>());
  }
}

Gen<std::vector<int>> makeVec(int k, uint64_t h) {
  using V = std::vector<int>;
  const auto e = makeInt((h >> 20) % 4, h);
  switch (k) {
  case 0: return gen::container<V>(e);
  case 1: return gen::container<V>((std::size_t)(h % 7), e);
  case 2: return gen::unique<V>(gen::inRange(0, 300));
  case 3: return gen::uniqueBy<V>(gen::inRange(0, 600), KeyBy{Heap(h)});
  case 4: return gen::uniqueBy<V>((std::size_t)(h % 5), gen::inRange(0, 600), KeyBy{Heap(h)});
  case 5: return gen::suchThat(gen::container<V>(e), ModPred{Heap(h), 4});
  case 6: return gen::mapcat(gen::inRange(0, 20), VecOf{Heap(h)});
  case 7: return gen::nonEmpty(gen::container<V>(e));
  case 8: return gen::exec([=] {
      V v;
      const int n = *gen::inRange(0, 5);
      for (int i = 0; i < n; i++) v.push_back(*e);
      return v;
    });
  default: return gen::scale(0.5, gen::container<V>(e));
  }
}

const char *name(int k) {
  static const char *names[] = {
      "int0", "int1", "int2", "int3", "int4", "int5", "int6", "int7", "int8", "int9", "int10", "int11", "int12", "int13", "int14", "int15",
      "vec0", "vec1", "vec2", "vec3", "vec4", "vec5", "vec6", "vec7", "vec8", "vec9",
      "set", "map", "unordered_set", "string", "maybe", "tuple", "pair", "build", "construct", "shared", "array", "chrono", "nested", "commands", "exec", "mapcat3"};
  return names[k];
}

Gen<std::string> make(int k, uint64_t h) {
  using V = std::vector<int>;
  const int w = 1 + (int)((h >> 8) % 100);
  if (k < 16) return txt(makeInt(k, h));
  if (k < 26) return txt(makeVec(k - 16, h));
  switch (k) {
  case 26: return txt(gen::container<std::set<int>>(gen::inRange(0, 100 + w)));
  case 27: return txt(gen::container<std::map<int, std::string>>(gen::inRange(0, 100 + w), gen::arbitrary<std::string>()));
  case 28: return gen::map(gen::container<std::unordered_set<int>>(gen::inRange(0, 100 + w)), [](const std::unordered_set<int> &s) { return rc::toString(std::set<int>(s.begin(), s.end())); });
  case 29: return txt(gen::arbitrary<std::string>());
  case 30: return txt(gen::maybe(gen::maybe(gen::inRange(0, w))));
  case 31: return txt(gen::tuple(gen::inRange(0, w), makeVec(3, h), gen::arbitrary<bool>()));
  case 32: return txt(gen::pair(makeInt(2, h), makeInt(4, h)));
  case 33: return gen::map(gen::build<Point>(gen::set(&Point::x, gen::inRange(0, w)), gen::set(&Point::setBoth, gen::tuple(gen::inRange(0, 5), gen::arbitrary<std::string>()))),
                           [](const Point &p) { return mon::str(p); });
  case 34: return gen::map(gen::construct<Point>(gen::inRange(0, w), gen::arbitrary<int>()), [](const Point &p) { return mon::str(p); });
  case 35: return gen::map(gen::makeShared<V>(gen::inRange<std::size_t>(0, 5), gen::inRange(0, w)), [](const std::shared_ptr<V> &p) { return rc::toString(*p); });
  case 36: return txt(gen::container<std::array<int, 4>>(gen::inRange(0, w)));
  case 37: return gen::map(gen::arbitrary<std::chrono::milliseconds>(), [](std::chrono::milliseconds m) { return std::to_string(m.count()); });
  case 38: return txt(gen::container<std::vector<std::set<int>>>(gen::scale(0.3, gen::container<std::set<int>>(gen::inRange(0, 100)))));
  case 39: return gen::map(state::gen::commands(Model(), state::gen::execOneOfWithArgs<Push, Pop, Need>()), [](const state::Commands<Cmd> &cs) {
      std::ostringstream os;
      for (auto &c : cs) { c->show(os); os << ";"; }
      return os.str();
    });
  case 40: return gen::exec([=](const std::vector<int> &v, bool b) {
      std::string s = rc::toString(v);
      if (b) s += *make(31, h);
      for (std::size_t i = 0; i < v.size() && i < 3; i++) s += rc::toString(*gen::inRange(0, w));
      return s + rc::toString(*gen::exec([] { return *gen::inRange(0, 9) + *gen::inRange(0, 9); }));
    });
  default:
    return gen::mapcat(gen::inRange(0, 6), [=](int n) { return gen::mapcat(makeVec(n, h), [=](const V &v) { return txt(gen::inRange<int>(0, (int)v.size() + 2)); }); });
  }
}
} // namespace genfam
