// C10: what a generator, sequence or shrinkable is built from stays as it was.
#include "tree.hpp"
#include <deque>
#include <list>
#include <set>
#include <rapidcheck/state.h>
using namespace rc;
using mon::Rng;

namespace {
struct Tok { // empty once moved from
  std::unique_ptr<int> p;
  explicit Tok(int x) : p(new int(x)) {}
  Tok(const Tok &o) : p(o.p ? new int(*o.p) : nullptr) {}
  Tok(Tok &&o) noexcept : p(std::move(o.p)) {}
  Tok &operator=(Tok o) { p = std::move(o.p); return *this; }
};
long g_hollow = 0;
template <typename S> struct Fn;
template <typename R, typename... As> struct Fn<R(As...)> {
  Tok t;
  std::function<R(As...)> f;
  template <typename F> explicit Fn(int k, F x) : t(k), f(x) {}
  R operator()(As... as) const {
    if (!t.p) g_hollow++;
    return f(std::move(as)...);
  }
  bool whole() const { return t.p && f; }
};
template <typename T> std::string textOf(const Gen<T> &g, uint64_t seed, int size) {
  std::string o;
  try {
    const auto s = g(Random(seed), size);
    o = toString(s.value());
    auto q = s.shrinks();
    for (int i = 0; i < 8; i++) {
      auto c = q.next();
      if (!c) break;
      o += "," + toString(c->value());
    }
  } catch (const GenerationFailure &) { o = "failure"; }
  return o;
}
template <typename T> std::string textOf(Seq<T> s, uint64_t, int) {
  std::string o;
  for (int i = 0; i < 12; i++) {
    auto x = s.next();
    if (!x) break;
    o += toString(*x) + ",";
  }
  return o;
}
template <typename T> std::string textOf(const Shrinkable<T> &s, uint64_t, int) {
  return toString(s.value()) + ":" + textOf(seq::map(s.shrinks(), [](const Shrinkable<T> &x) { return x.value(); }), 0, 0);
}
template <typename T> std::string textOf(const Maybe<Shrinkable<T>> &s, uint64_t, int) { return s ? textOf(*s, 0, 0) : "nothing"; }

// make(arg) for an lvalue, twice, and for a temporary copy.
template <typename A, typename Whole, typename Make> void lvalue(Rng &rng, const char *what, const A &proto, Whole whole, Make make) {
  const uint64_t seed = rng.next();
  const int size = (int)rng.below(60);
  const std::string want = textOf(make(A(proto)), seed, size);
  A a(proto);
  const std::string one = textOf(make(a), seed, size);
  CHECK(whole(a), "argument-changed", what << " changed the object it was given");
  if (!whole(a)) return;
  auto first = make(a);
  { auto second = make(a); CHECK(whole(a), "argument-changed", what << " changed the object it was given"); textOf(second, rng.next(), 5); }
  const A &c = a;
  auto third = make(c);
  CHECK(one == want && textOf(first, seed, size) == want && textOf(third, seed, size) == want, "built-from-lvalue", what << ": " << want << " from a temporary, " << one << " from an lvalue");
  CHECK(whole(a), "argument-changed", what << " changed the object it was given when used");
  CHECK(g_hollow == 0, "hollow-callable", what << " called a callable that was moved from");
  g_hollow = 0;
  mon::count("lvalue_arguments");
  mon::distinct(mon::comb(mon::hashStr(what), mon::hashStr(want)));
}
struct M { int v = 0; };
struct Sut { int v = 0; };
struct Inc : state::Command<M, Sut> {
  int by;
  explicit Inc(int b) : by(b) {}
  void apply(M &m) const override { m.v += by; }
  void show(std::ostream &os) const override { os << "inc " << by; }
};
using Cmd = state::Command<M, Sut>;
} // namespace

SECTION("arguments", 600, 30000) {
  const int k = 1 + (int)rng.below(50);
  auto whole = [](const auto &f) { return f.whole(); };
  const auto ints = gen::inRange(0, 100);
  auto isSame = [](auto proto) { return [proto](const auto &x) { return x == proto; }; };
  const Fn<int(int)> f(k, [k](int x) { return x * k + 1; });
  const Fn<bool(int)> pred(k, [k](int x) { return x % (k + 1) != 0; });
  const Fn<Gen<int>(int)> toGen(k, [k](int x) { return gen::inRange(0, x + k); });
  const Fn<Seq<int>(int)> toSeq(k, [](int x) { return seq::range(0, x % 3); });
  const Fn<int()> produce(k, [k] { return k; });
  const std::vector<int> v{k, 2, 3, 5};
  const std::vector<std::string> vs{"some rather long text " + std::to_string(k), "another rather long text", "c"};
  const std::string text = "a text that does not fit into the object " + std::to_string(k);
  switch (rng.below(8)) {
  case 0:
    lvalue(rng, "gen::map", f, whole, [&](auto &&x) { return gen::map(ints, std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::map<T>", f, whole, [&](auto &&x) { return gen::map<int>(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::mapcat", toGen, whole, [&](auto &&x) { return gen::mapcat(ints, std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::suchThat", pred, whole, [&](auto &&x) { return gen::suchThat(ints, std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::suchThat<T>", pred, whole, [&](auto &&x) { return gen::suchThat<int>(std::forward<decltype(x)>(x)); });
    break;
  case 1:
    lvalue(rng, "gen::uniqueBy", f, whole, [&](auto &&x) { return gen::uniqueBy<std::vector<int>>(ints, std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::uniqueBy of a count", f, whole, [&](auto &&x) { return gen::uniqueBy<std::vector<int>>((size_t)(k % 8), ints, std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::withSize", toGen, whole, [&](auto &&x) { return gen::withSize(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::lazy", Fn<Gen<int>()>(k, [=] { return ints; }), whole, [&](auto &&x) { return gen::lazy(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::apply", Fn<int(int, int)>(k, [](int a, int b) { return a - b; }), whole, [&](auto &&x) { return gen::apply(std::forward<decltype(x)>(x), ints, ints); });
    lvalue(rng, "gen::shrink", Fn<Seq<int>(int)>(k, [](int x) { return seq::just(x / 2, x / 3); }), whole, [&](auto &&x) { return gen::shrink(ints, std::forward<decltype(x)>(x)); });
    break;
  case 2:
    lvalue(rng, "gen::exec", Fn<int()>(k, [=] { return *ints + *ints; }), whole, [&](auto &&x) { return gen::exec(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::exec with arguments", Fn<int(int)>(k, [=](int a) { return a + *ints; }), whole, [&](auto &&x) { return gen::exec(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::just", text, isSame(text), [&](auto &&x) { return gen::just(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::distinctFrom", vs[0], isSame(vs[0]), [&](auto &&x) { return gen::distinctFrom(gen::elementOf(vs), std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::element", text, isSame(text), [&](auto &&x) { return gen::element(std::forward<decltype(x)>(x), std::string("other")); });
    lvalue(rng, "gen::element (second)", text, isSame(text), [&](auto &&x) { return gen::element(std::string("other"), std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::sizedElement", text, isSame(text), [&](auto &&x) { return gen::sizedElement(std::forward<decltype(x)>(x), std::string("other")); });
    break;
  case 3:
    lvalue(rng, "gen::elementOf", vs, isSame(vs), [&](auto &&x) { return gen::elementOf(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::sizedElementOf", vs, isSame(vs), [&](auto &&x) { return gen::sizedElementOf(std::forward<decltype(x)>(x)); });
    lvalue(rng, "gen::elementOf a text", text, isSame(text), [&](auto &&x) { return gen::elementOf(std::forward<decltype(x)>(x)); });
    { const std::set<std::string> s(vs.begin(), vs.end()); lvalue(rng, "gen::elementOf a set", s, isSame(s), [&](auto &&x) { return gen::elementOf(std::forward<decltype(x)>(x)); });
      const std::list<std::string> l(vs.begin(), vs.end()); lvalue(rng, "gen::sizedElementOf a list", l, isSame(l), [&](auto &&x) { return gen::sizedElementOf(std::forward<decltype(x)>(x)); }); }
    break;
  case 4:
    lvalue(rng, "seq::map", f, whole, [&](auto &&x) { return seq::map(seq::range(0, 5), std::forward<decltype(x)>(x)); });
    lvalue(rng, "seq::filter", pred, whole, [&](auto &&x) { return seq::filter(seq::range(0, 30), std::forward<decltype(x)>(x)); });
    lvalue(rng, "seq::takeWhile", pred, whole, [&](auto &&x) { return seq::takeWhile(seq::range(0, 30), std::forward<decltype(x)>(x)); });
    lvalue(rng, "seq::dropWhile", pred, whole, [&](auto &&x) { return seq::dropWhile(seq::range(0, 30), std::forward<decltype(x)>(x)); });
    lvalue(rng, "seq::mapcat", toSeq, whole, [&](auto &&x) { return seq::mapcat(seq::range(0, 5), std::forward<decltype(x)>(x)); });
    lvalue(rng, "seq::mapMaybe", Fn<Maybe<int>(int)>(k, [](int x) { return x % 2 ? Maybe<int>(x) : Maybe<int>(); }), whole, [&](auto &&x) { return seq::mapMaybe(seq::range(0, 9), std::forward<decltype(x)>(x)); });
    lvalue(rng, "seq::zipWith", Fn<int(int, int)>(k, [](int a, int b) { return a - 2 * b; }), whole, [&](auto &&x) { return seq::zipWith(std::forward<decltype(x)>(x), seq::range(0, 5), seq::range(3, 9)); });
    lvalue(rng, "seq::iterate", f, whole, [&](auto &&x) { return seq::take(5, seq::iterate(0, std::forward<decltype(x)>(x))); });
    break;
  case 5:
    lvalue(rng, "seq::iterate (start)", text, isSame(text), [&](auto &&x) { return seq::take(3, seq::iterate(std::forward<decltype(x)>(x), [](const std::string &s) { return s + "x"; })); });
    lvalue(rng, "seq::repeat", text, isSame(text), [&](auto &&x) { return seq::take(3, seq::repeat(std::forward<decltype(x)>(x))); });
    lvalue(rng, "seq::just", text, isSame(text), [&](auto &&x) { return seq::just(std::forward<decltype(x)>(x), std::string("o")); });
    lvalue(rng, "seq::fromContainer", vs, isSame(vs), [&](auto &&x) { return seq::fromContainer(std::forward<decltype(x)>(x)); });
    { const std::deque<std::string> d(vs.begin(), vs.end()); lvalue(rng, "seq::fromContainer of a deque", d, isSame(d), [&](auto &&x) { return seq::fromContainer(std::forward<decltype(x)>(x)); }); }
    lvalue(rng, "shrink::removeChunks", vs, isSame(vs), [&](auto &&x) { return shrink::removeChunks(std::forward<decltype(x)>(x)); });
    lvalue(rng, "shrink::eachElement", vs, isSame(vs), [&](auto &&x) { return shrink::eachElement(std::forward<decltype(x)>(x), [](const std::string &s) { return seq::just(s.substr(1)); }); });
    lvalue(rng, "shrink::eachElement (callable)", Fn<Seq<int>(int)>(k, [](int x) { return seq::just(x / 2, x / 3); }), whole, [&](auto &&x) { return shrink::eachElement(v, std::forward<decltype(x)>(x)); });
    break;
  case 6:
    lvalue(rng, "shrinkable::just", text, isSame(text), [&](auto &&x) { return shrinkable::just(std::forward<decltype(x)>(x)); });
    lvalue(rng, "shrinkable::lambda", produce, whole, [&](auto &&x) { return shrinkable::lambda(std::forward<decltype(x)>(x)); });
    lvalue(rng, "shrinkable::shrink", produce, whole, [&](auto &&x) { return shrinkable::shrink(std::forward<decltype(x)>(x), [](int i) { return seq::just(shrinkable::just(i / 2)); }); });
    lvalue(rng, "shrinkable::shrinkRecur", text, isSame(text), [&](auto &&x) { return shrinkable::shrinkRecur(std::forward<decltype(x)>(x), [](const std::string &s) { return s.size() > 30 ? seq::just(s.substr(1)) : Seq<std::string>(); }); });
    { const auto base = shrinkable::shrinkRecur(k, [](int x) { return shrink::towards(x, 0); });
      lvalue(rng, "shrinkable::map", f, whole, [&](auto &&x) { return shrinkable::map(base, std::forward<decltype(x)>(x)); });
      lvalue(rng, "shrinkable::filter", pred, whole, [&](auto &&x) { return shrinkable::filter(base, std::forward<decltype(x)>(x)); });
      lvalue(rng, "shrinkable::mapcat", Fn<Shrinkable<int>(int)>(k, [](int x) { return shrinkable::just(x + 1); }), whole, [&](auto &&x) { return shrinkable::mapcat(base, std::forward<decltype(x)>(x)); });
      lvalue(rng, "shrinkable::mapShrinks", Fn<Seq<Shrinkable<int>>(Seq<Shrinkable<int>>)>(k, [](Seq<Shrinkable<int>> s) { return seq::take(2, s); }), whole, [&](auto &&x) { return shrinkable::mapShrinks(base, std::forward<decltype(x)>(x)); });
      lvalue(rng, "shrinkable::postShrink", Fn<Seq<int>(int)>(k, [](int i) { return i > 0 ? seq::just(i / 2) : Seq<int>(); }), whole, [&](auto &&x) { return shrinkable::postShrink(base, std::forward<decltype(x)>(x)); }); }
    lvalue(rng, "fn::constant", text, isSame(text), [&](auto &&x) { return seq::map(seq::range(0, 2), fn::constant(std::forward<decltype(x)>(x))); });
    break;
  default: {
    const Fn<Gen<std::shared_ptr<const Cmd>>(M)> g(k, [](const M &m) { return gen::map(gen::inRange(0, m.v + 3), [](int i) { return std::shared_ptr<const Cmd>(std::make_shared<Inc>(i)); }); });
    lvalue(rng, "state::gen::commands", g, whole, [&](auto &&x) { return state::gen::commands(M(), std::forward<decltype(x)>(x)); });
    lvalue(rng, "state::gen::commands (initial)", Fn<M()>(k, [] { return M(); }), whole, [&](auto &&x) { return state::gen::commands(std::forward<decltype(x)>(x), g); });
    // the property of a check
    const Fn<void(int)> body(k, [](int x) { RC_ASSERT(x < 5); });
    Fn<void(int)> lv(body);
    auto p1 = detail::toProperty(lv);
    CHECK(lv.whole(), "argument-changed", "a property was built from an lvalue");
    auto p2 = detail::toProperty(lv);
    for (int s = 0; s < 20; s++) CHECK(p1(Random(s), s).value().result.type == p2(Random(s), s).value().result.type, "built-from-lvalue", "property");
    CHECK(g_hollow == 0 && lv.whole(), "hollow-callable", "a property called a callable that was moved from");
    g_hollow = 0;
  }
  }
}
