#include "progs.hpp"

namespace progs {

// Called at the end of each body with everything that was picked.
inline void outcome(const Spec &s, const std::string &values, int64_t measure) {
  if (bodyLog())
    bodyLog()->runs.push_back(values);
  const uint64_t h = mon::comb(mon::hashStr(values), s.h);
  if (h % 1000 < s.discardPm)
    RC_DISCARD("discarded " + values);
  if (s.tagMode == 1)
    RC_TAG(measure % 3);
  else if (s.tagMode == 2) {
    RC_CLASSIFY(h % 2 == 0);
    RC_CLASSIFY(h % 3 == 0, "third", measure % 2);
  }
  bool fail = false;
  const bool t = measure >= s.threshold;
  const bool hf = (h >> 20) % s.failMod == 0;
  switch (s.failMode) {
  case 0: fail = t; break;
  case 1: fail = hf; break;
  case 3: fail = t && (h & 1); break;
  case 4:
    if (t)
      throw std::runtime_error("boom " + values);
    break;
  default: break;
  }
  if (fail) {
    RC_LOG() << "logged " << values;
    RC_FAIL("failed " + values);
  }
}

template <typename... Ts>
std::string vals(const Ts &... xs) {
  std::string r;
  int dummy[] = {0, ((r += rc::toString(xs), r += '|'), 0)...};
  (void)dummy;
  return r;
}

struct Tree { int v; std::vector<Tree> kids; };
inline std::ostream &operator<<(std::ostream &os, const Tree &t) {
  os << t.v << "(";
  for (auto &k : t.kids)
    os << k;
  return os << ")";
}
inline int64_t weight(const Tree &t) {
  int64_t w = 1;
  for (auto &k : t.kids)
    w += weight(k);
  return w;
}
inline Gen<Tree> treeGen(int depth) {
  return gen::exec([=] {
    Tree t;
    t.v = *gen::inRange(0, 50);
    int n = depth <= 0 ? 0 : *gen::inRange(0, 4);
    for (int i = 0; i < n; i++)
      t.kids.push_back(*treeGen(depth - 1));
    return t;
  });
}

Property make(const Spec &s) {
  switch (s.family) {
  case 0:
    return rc::detail::toProperty([=](int a, int b) {
      outcome(s, vals(a, b), (mag(a) + mag(b)) / 2);
    });
  case 1:
    return rc::detail::toProperty([=](const std::vector<int> &v, const std::string &t) {
      outcome(s, vals(v, t), (int64_t)(v.size() + t.size()));
    });
  case 2:
    return rc::detail::toProperty([=] { // data-dependent control flow
      std::string all;
      int64_t m = 0;
      const auto n = *gen::inRange<int>(0, 8);
      all += vals(n);
      for (int i = 0; i < n; i++) {
        const auto k = *gen::inRange<int>(0, 3).as("kind");
        if (k == 0) {
          const auto x = *gen::arbitrary<int8_t>();
          all += vals((int)x);
          m += mag(x);
        } else if (k == 1) {
          const auto x = *gen::string<std::string>();
          all += vals(x);
          m += x.size();
        } else {
          const auto x = *gen::container<std::vector<int16_t>>(gen::arbitrary<int16_t>());
          all += vals(x);
          m += 2 * x.size();
        }
      }
      outcome(s, all, m);
    });
  case 3:
    return rc::detail::toProperty([=](const std::map<int, std::string> &a, const std::set<int8_t> &b) {
      outcome(s, vals(a, b), (int64_t)(a.size() + b.size()));
    });
  case 4:
    return rc::detail::toProperty([=](const std::tuple<bool, uint16_t, std::pair<char, int>> &t) {
      outcome(s, vals(t), std::get<1>(t) / 64);
    });
  case 5:
    return rc::detail::toProperty([=] {
      const auto x = *gen::suchThat(gen::arbitrary<int>(), [](int v) { return v % 3 != 0; });
      const auto y = *gen::elementOf(std::vector<std::string>{"a", "bb", "ccc", "dddd"});
      const auto z = *gen::oneOf(gen::just(7), gen::inRange(-100, 100), gen::nonNegative<int>());
      outcome(s, vals(x, y, z), (mag(x) + mag(z)) / 2 + (int64_t)y.size());
    });
  case 6:
    return rc::detail::toProperty([=] {
      const auto t = *treeGen(3);
      outcome(s, vals(t), weight(t));
    });
  case 7:
    return rc::detail::toProperty([=](double d, float f, Maybe<int> mi) {
      outcome(s, vals(d, f, mi), (int64_t)(std::min(1e15, std::abs(d)) + std::min(1e15f, std::abs(f))));
    });
  case 8:
    return rc::detail::toProperty([=] {
      const auto v = *gen::unique<std::vector<int>>(gen::inRange(0, 500));
      const auto w = *gen::container<std::vector<int>>(5, gen::inRange(-20, 20));
      int64_t m = v.size();
      for (int x : w)
        m += mag(x);
      outcome(s, vals(v, w), m);
    });
  case 9:
    return rc::detail::toProperty([=](std::array<int16_t, 3> a) {
      const auto v = *gen::mapcat(gen::inRange(1, 10), [](int n) {
        return gen::container<std::vector<int>>(n, gen::inRange(0, n * 10));
      });
      const auto q = *gen::weightedOneOf<int>({{3, gen::just(1)}, {1, gen::resize(10, gen::arbitrary<int>())}});
      outcome(s, vals(std::vector<int16_t>(a.begin(), a.end()), v, q), (int64_t)v.size() * 7 + mag(q));
    });
  case 10:
    return rc::detail::toProperty([=](const std::vector<std::vector<uint8_t>> &vv) {
      int64_t m = 0;
      for (auto &v : vv)
        m += v.size() + 1;
      outcome(s, vals(vv), m);
    });
  default:
    return rc::detail::toProperty([=] { // generation may fail -> discard
      const auto x = *gen::suchThat(gen::inRange(0, 40), [=](int v) { return v % 37 == 1 || s.h % 5; });
      const auto y = *gen::scale(0.5, gen::arbitrary<std::vector<char>>());
      const auto z = *gen::noShrink(gen::arbitrary<int>());
      outcome(s, vals(x, std::string(y.begin(), y.end()), z), x + (int64_t)y.size());
    });
  }
}

} // namespace progs
