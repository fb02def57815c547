// C21: value-holding types construct and destroy each object exactly once.
#include "mon.hpp"
#include <rapidcheck.h>
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/Any.h"
#include "rapidcheck/detail/TestListener.h"
#include "rapidcheck/detail/Results.h"
#include "rapidcheck/detail/Variant.h"
#include "rapidcheck/seq/Operations.h"
#include <memory>
#include <optional>
#include <unordered_map>
using namespace rc;
using rc::detail::Any;
using rc::detail::Variant;
using mon::Rng;

namespace {
struct Boom {};
struct Registry {
  std::unordered_map<const void *, int> live; // address -> tag
  uint64_t made = 0, killed = 0;
  int throwIn = -1; // the n-th copy from now throws
};
Registry &reg() {
  static Registry r;
  return r;
}
template <int Tag> struct Obj {
  int v;
  void birth() {
    reg().made++;
    CHECK(reg().live.emplace(this, Tag).second, "constructed-over-live-object", "tag " << Tag << " value " << v);
  }
  bool alive() const {
    auto it = reg().live.find(this);
    return it != reg().live.end() && it->second == Tag;
  }
  static void maybeThrow() {
    if (reg().throwIn > 0 && --reg().throwIn == 0) {
      reg().throwIn = -1;
      mon::count("copies_that_threw");
      throw Boom();
    }
  }
  explicit Obj(int x) : v(x) { birth(); }
  Obj(const Obj &o) : v(o.v) {
    CHECK(o.alive(), "copied-from-dead-object", "tag " << Tag);
    maybeThrow();
    birth();
  }
  Obj(Obj &&o) noexcept : v(o.v) {
    CHECK(o.alive(), "moved-from-dead-object", "tag " << Tag);
    o.v = -1;
    birth();
  }
  Obj &operator=(const Obj &o) {
    CHECK(alive(), "assigned-to-dead-object", "tag " << Tag);
    CHECK(o.alive(), "assigned-from-dead-object", "tag " << Tag);
    maybeThrow();
    v = o.v;
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept {
    CHECK(alive() && o.alive(), "moved-with-dead-object", "tag " << Tag);
    if (this != &o) {
      v = o.v;
      o.v = -1;
    }
    return *this;
  }
  ~Obj() {
    reg().killed++;
    auto it = reg().live.find(this);
    CHECK(it != reg().live.end() && it->second == Tag, "destroyed-dead-object", "tag " << Tag);
    if (it != reg().live.end()) reg().live.erase(it);
    v = -7777;
  }
};
template <int T> bool operator==(const Obj<T> &a, const Obj<T> &b) { return a.v == b.v; }
template <int T> bool operator!=(const Obj<T> &a, const Obj<T> &b) { return a.v != b.v; }
template <int T> bool operator<(const Obj<T> &a, const Obj<T> &b) { return a.v < b.v; }
template <int T> std::ostream &operator<<(std::ostream &os, const Obj<T> &o) { return os << 'o' << T << ':' << o.v; }
using A = Obj<0>;
using B = Obj<1>;
using C = Obj<2>;

void allDead(const char *what, size_t before) {
  CHECK(reg().live.size() == before, "objects-leaked", what << ": " << reg().live.size() - before << " objects still alive");
  reg().live.clear();
  mon::count("objects_tracked", reg().made);
  reg().made = 0;
}
void armThrow(Rng &rng, bool allow) { reg().throwIn = allow && rng.chance(1, 4) ? 1 + (int)rng.below(3) : -1; }

// ---------------------------------------------------------------- Maybe
void maybeScript(Rng &rng) {
  const size_t before = reg().live.size();
  const bool throws = rng.chance(1, 2);
  std::string trace;
  {
    const int N = 4;
    std::vector<std::unique_ptr<Maybe<A>>> m;
    std::vector<std::optional<int>> model(N);
    std::vector<bool> unknown(N, false); // value moved from: only safe to assign/destroy/copy
    for (int i = 0; i < N; i++) m.emplace_back(new Maybe<A>());
    auto cmp = [&](int i) {
      if (unknown[i]) return;
      CHECK(bool(*m[i]) == bool(model[i]), "maybe-state", trace << " slot " << i << (*m[i] ? " has a value" : " is empty"));
      if (*m[i] && model[i]) {
        CHECK((**m[i]).v == *model[i] && (*m[i])->v == *model[i], "maybe-value", trace << " slot " << i << ": " << (**m[i]).v << " expected " << *model[i]);
        CHECK((**m[i]).alive(), "maybe-holds-dead-object", trace);
      }
    };
    for (int st = 0; st < 30; st++) {
      const int i = rng.below(N), j = rng.below(N), x = rng.below(1000);
      const int op = rng.below(15);
      trace += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
      A val(x);
      armThrow(rng, throws);
      try {
        switch (op) {
        case 0: *m[i] = val; model[i] = x; unknown[i] = false; break;
        case 1: *m[i] = std::move(val); model[i] = x; unknown[i] = false; break;
        case 2: *m[i] = Nothing; model[i].reset(); unknown[i] = false; break;
        case 3: m[i]->reset(); model[i].reset(); unknown[i] = false; break;
        case 4: m[i]->init(x); model[i] = x; unknown[i] = false; break;
        case 5: *m[i] = *m[j]; model[i] = model[j]; unknown[i] = unknown[j]; break; // incl. self
        case 6:
          *m[i] = std::move(*m[j]);
          if (i != j) { model[i] = model[j]; unknown[i] = unknown[j]; unknown[j] = true; }
          break;
        case 7: { std::unique_ptr<Maybe<A>> n(new Maybe<A>(*m[j])); m[i] = std::move(n); model[i] = model[j]; unknown[i] = unknown[j]; break; }
        case 8: { std::unique_ptr<Maybe<A>> n(new Maybe<A>(std::move(*m[j]))); auto mv = model[j]; bool u = unknown[j]; unknown[j] = true; m[i] = std::move(n); model[i] = mv; unknown[i] = u; break; }
        case 9: { std::unique_ptr<Maybe<A>> n(new Maybe<A>(val)); m[i] = std::move(n); model[i] = x; unknown[i] = false; break; }
        case 10: { std::unique_ptr<Maybe<A>> n(rng.chance(1, 2) ? new Maybe<A>(Nothing) : new Maybe<A>()); m[i] = std::move(n); model[i].reset(); unknown[i] = false; break; }
        case 11: reg().throwIn = -1; std::swap(*m[i], *m[j]); std::swap(model[i], model[j]); { bool t = unknown[i]; unknown[i] = unknown[j]; unknown[j] = t; } break;
        case 12: if (!unknown[i] && model[i]) { A y = **m[i]; CHECK(y.v == *model[i], "maybe-value", trace); } break;
        case 13: if (!unknown[i] && model[i]) { *m[i] = **m[i]; } break; // a part of itself
        default: if (!unknown[i] && model[i]) { A y = *std::move(*m[i]); CHECK(y.v == *model[i], "maybe-value", trace); unknown[i] = true; } break;
        }
      } catch (const Boom &) {
        // strong or basic guarantee: a copy that threw leaves a usable value
        if (op == 0 || op == 5) { /* value kept or still empty */ }
        mon::count("operations_that_threw");
      }
      reg().throwIn = -1;
      for (int q = 0; q < N; q++) cmp(q);
      if (!unknown[i] && !unknown[j]) CHECK((*m[i] == *m[j]) == (model[i] == model[j]) && (*m[i] != *m[j]) == (model[i] != model[j]), "maybe-equality", trace);
      mon::count("operations");
    }
  }
  mon::distinctStr(trace);
  allDead("Maybe", before);
}

// A recursive value: assignment from a part of itself.
struct Node {
  A a;
  std::vector<Node> kids;
  std::unique_ptr<Maybe<Node>> m;
  explicit Node(int v) : a(v) {}
  Node(const Node &o) : a(o.a), kids(o.kids), m(o.m ? new Maybe<Node>(*o.m) : nullptr) {}
  Node(Node &&o) noexcept = default;
  Node &operator=(Node o) noexcept { std::swap(a, o.a); std::swap(kids, o.kids); std::swap(m, o.m); return *this; }
};
void maybePart(Rng &rng) {
  const size_t before = reg().live.size();
  {
    Maybe<Node> n = Node(1);
    n->m.reset(new Maybe<Node>(rng.chance(3, 4) ? Maybe<Node>(Node(2)) : Maybe<Node>()));
    const bool has = bool(*n->m);
    if (has) (*n->m)->m.reset(new Maybe<Node>(Node(3)));
    if (rng.chance(1, 2)) n = *n->m;
    else n = std::move(*n->m);
    CHECK(bool(n) == has, "maybe-part-assign", "");
    if (n) CHECK(n->a.v == 2 && n->m && (**n->m).a.v == 3, "maybe-part-assign", n->a.v);
    if (n && rng.chance(1, 2)) { n = **n->m; CHECK(n && n->a.v == 3, "maybe-part-assign", n->a.v); }
  }
  mon::count("part_assignments");
  allDead("Maybe from a part of itself", before);
}

// ---------------------------------------------------------------- Variant
using Var = Variant<A, B, C>;
int idx(const Var &v) { return v.is<A>() ? 0 : v.is<B>() ? 1 : v.is<C>() ? 2 : -1; }
int val(const Var &v) { return v.is<A>() ? v.get<A>().v : v.is<B>() ? v.get<B>().v : v.get<C>().v; }
void variantScript(Rng &rng) {
  const size_t before = reg().live.size();
  const bool throws = rng.chance(1, 2);
  std::string trace;
  {
    const int N = 4;
    std::vector<std::unique_ptr<Var>> m;
    std::vector<std::pair<int, int>> model; // type, value (-2: moved from)
    auto make = [&](int t, int x) { return t == 0 ? new Var(A(x)) : t == 1 ? new Var(B(x)) : new Var(C(x)); };
    for (int i = 0; i < N; i++) { m.emplace_back(make(i % 3, i)); model.push_back({i % 3, i}); }
    for (int st = 0; st < 30; st++) {
      const int i = rng.below(N), j = rng.below(N), x = rng.below(1000), t = rng.below(3);
      const int op = rng.below(10);
      trace += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(t) + ") ";
      const A a(x); const B b(x); const C c(x);
      armThrow(rng, throws && op != 5);
      try {
        switch (op) {
        case 0: if (t == 0) *m[i] = a; else if (t == 1) *m[i] = b; else *m[i] = c; model[i] = {t, x}; break;
        case 1: if (t == 0) *m[i] = A(x); else if (t == 1) *m[i] = B(x); else *m[i] = C(x); model[i] = {t, x}; break;
        case 2: case 3: *m[i] = *m[j]; model[i] = model[j]; break;
        case 4: *m[i] = std::move(*m[j]); if (i != j) { model[i] = model[j]; model[j].second = -2; } break;
        case 5: std::swap(*m[i], *m[j]); std::swap(model[i], model[j]); break;
        case 6: { std::unique_ptr<Var> n(new Var(*m[j])); m[i] = std::move(n); model[i] = model[j]; break; }
        case 7: { std::unique_ptr<Var> n(new Var(std::move(*m[j]))); auto mv = model[j]; model[j].second = -2; m[i] = std::move(n); model[i] = mv; break; }
        case 8: { // match copies out, only for the right type
          A out(-50);
          const bool ok = m[i]->match(out);
          CHECK(ok == (model[i].first == 0), "variant-match", trace);
          if (ok && model[i].second != -2) CHECK(out.v == model[i].second, "variant-value", trace);
          if (!ok) CHECK(out.v == -50, "variant-match-touched", trace);
          break;
        }
        default: { std::unique_ptr<Var> n(make(t, x)); m[i] = std::move(n); model[i] = {t, x}; }
        }
      } catch (const Boom &) {
        mon::count("operations_that_threw");
      }
      reg().throwIn = -1;
      for (int q = 0; q < N; q++) {
        CHECK(idx(*m[q]) == model[q].first, "variant-type", trace << " slot " << q << " holds " << idx(*m[q]) << " expected " << model[q].first);
        if (idx(*m[q]) == model[q].first && model[q].second != -2)
          CHECK(val(*m[q]) == model[q].second, "variant-value", trace << " slot " << q << " " << val(*m[q]) << " expected " << model[q].second);
      }
      if (model[i].second != -2 && model[j].second != -2) {
        CHECK((*m[i] == *m[j]) == (model[i] == model[j]) && (*m[i] != *m[j]) == (model[i] != model[j]), "variant-equality", trace);
        std::ostringstream os;
        os << *m[i];
        CHECK(os.str() == "o" + std::to_string(model[i].first) + ":" + std::to_string(model[i].second), "variant-print", os.str());
      }
      mon::count("operations");
    }
  }
  mon::distinctStr(trace);
  allDead("Variant", before);
}

// ---------------------------------------------------------------- Any
struct Holder {
  A a;
  Any inner;
  explicit Holder(int v) : a(v) {}
  Holder(Holder &&) = default;
};
std::ostream &operator<<(std::ostream &os, const Holder &h) { return os << h.a; }
void anyScript(Rng &rng) {
  const size_t before = reg().live.size();
  std::string trace;
  {
    const int N = 4;
    std::vector<Any> m(N);
    std::vector<std::pair<int, int>> model(N, {-1, 0});
    for (int st = 0; st < 30; st++) {
      const int i = rng.below(N), j = rng.below(N), x = rng.below(1000);
      const int op = rng.below(8);
      trace += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
      switch (op) {
      case 0: m[i] = Any::of(A(x)); model[i] = {0, x}; break;
      case 1: { B b(x); m[i] = Any::of(b); model[i] = {1, x}; break; }
      case 2: { const C c(x); m[i] = Any::of(c); model[i] = {2, x}; break; }
      case 3: m[i].reset(); model[i] = {-1, 0}; break;
      case 4: if (i != j) { m[i] = std::move(m[j]); model[i] = model[j]; model[j] = {-1, 0}; } break;
      case 5: { Any t(std::move(m[j])); auto md = model[j]; model[j] = {-1, 0}; m[i] = std::move(t); model[i] = md; break; }
      case 6: if (i != j) { std::swap(m[i], m[j]); std::swap(model[i], model[j]); } break;
      default: if (model[i].first == 0) { m[i].get<A>().v = x; model[i].second = x; }
      }
      for (int q = 0; q < N; q++) {
        CHECK(bool(m[q]) == (model[q].first >= 0), "any-state", trace);
        if (!m[q]) continue;
        const Any &cm = m[q];
        const int v = model[q].first == 0 ? cm.get<A>().v : model[q].first == 1 ? cm.get<B>().v : cm.get<C>().v;
        CHECK(v == model[q].second, "any-value", trace << v << " expected " << model[q].second);
        std::ostringstream os;
        cm.showValue(os);
        CHECK(os.str() == "o" + std::to_string(model[q].first) + ":" + std::to_string(v), "any-show", os.str());
      }
      mon::count("operations");
    }
    // assignment from a part of itself
    Any outer = Any::of(Holder(1));
    outer.get<Holder>().inner = Any::of(Holder(2));
    outer = std::move(outer.get<Holder>().inner);
    CHECK(outer.get<Holder>().a.v == 2, "any-part-assign", outer.get<Holder>().a.v);
    mon::count("part_assignments");
  }
  mon::distinctStr(trace);
  allDead("Any", before);
}

// ---------------------------------------------------------------- Seq
Seq<A> makeSeq(Rng &rng, std::vector<int> &expected) {
  std::vector<A> src;
  const int n = rng.below(6);
  for (int i = 0; i < n; i++) { const int v = rng.below(1000); src.push_back(A(v)); expected.push_back(v); }
  auto fc = seq::fromContainer(src);
  switch (rng.below(7)) {
  case 0: return fc;
  case 1: return seq::map(fc, [k = A(1)](A &&a) { return A(a.v * 2 + k.v - 1); }), [&] { for (auto &e : expected) e *= 2; return seq::map(fc, [k = A(0)](A &&a) { return A(a.v * 2 + k.v); }); }();
  case 2: { std::vector<int> o; for (int e : expected) if (e % 2) o.push_back(e); expected = o; return seq::filter(fc, [k = A(1)](const A &a) { return a.v % 2 == k.v; }); }
  case 3: { auto o = expected; expected.insert(expected.end(), o.begin(), o.end()); return seq::concat(fc, fc); }
  case 4: { const size_t k = rng.below(5); if (expected.size() > k) expected.resize(k); return seq::take(k, fc); }
  case 5: { std::vector<int> o; for (int e : expected) { o.push_back(e); o.push_back(e + 1); } expected = o; return seq::mapcat(fc, [](A &&a) { return seq::just(A(a.v), A(a.v + 1)); }); }
  default: expected.clear(); return rng.chance(1, 2) ? Seq<A>() : Seq<A>(Nothing);
  }
}
void seqScript(Rng &rng) {
  const size_t before = reg().live.size();
  const bool throws = rng.chance(1, 3);
  std::string trace;
  {
    const int N = 4;
    std::vector<std::unique_ptr<Seq<A>>> m;
    struct M { std::vector<int> v; size_t pos = 0; bool unknown = false; };
    std::vector<M> model(N);
    for (int i = 0; i < N; i++) m.emplace_back(new Seq<A>());
    for (int st = 0; st < 30; st++) {
      const int i = rng.below(N), j = rng.below(N);
      const int op = rng.below(9);
      trace += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
      try {
        switch (op) {
        case 0: case 1: { M x; auto s = makeSeq(rng, x.v); *m[i] = rng.chance(1, 2) ? s : Seq<A>(std::move(s)); model[i] = x; break; }
        case 2: *m[i] = *m[j]; model[i] = model[j]; break;
        case 3: *m[i] = std::move(*m[j]); if (i != j) { model[i] = model[j]; model[j] = M(); model[j].unknown = true; } break;
        case 4: { std::unique_ptr<Seq<A>> n(new Seq<A>(*m[j])); m[i] = std::move(n); model[i] = model[j]; break; }
        case 5: std::swap(*m[i], *m[j]); std::swap(model[i], model[j]); break;
        default: {
          if (model[i].unknown) break;
          armThrow(rng, throws);
          const bool armed = reg().throwIn > 0;
          auto x = m[i]->next();
          const bool fired = armed && reg().throwIn < 0;
          reg().throwIn = -1;
          if (fired) { // a source that throws ends the sequence
            CHECK(!x, "throwing-sequence-gave-value", trace);
            CHECK(!m[i]->next(), "throwing-sequence-continues", trace);
            model[i] = M();
            mon::count("operations_that_threw");
            break;
          }
          if (model[i].pos < model[i].v.size()) {
            CHECK(x && x->v == model[i].v[model[i].pos], "seq-value", trace << " at " << model[i].pos);
            model[i].pos++;
          } else CHECK(!x, "seq-not-ended", trace);
        }
        }
      } catch (const Boom &) { mon::count("operations_that_threw"); }
      mon::count("operations");
    }
    // copies of what is left continue alike
    for (int i = 0; i < N; i++) {
      if (model[i].unknown) { Seq<A> c(*m[i]); Seq<A> d; d = *m[i]; c.next(); d.next(); continue; }
      Seq<A> c(*m[i]);
      for (size_t k = model[i].pos; k < model[i].v.size(); k++) { auto x = c.next(); CHECK(x && x->v == model[i].v[k], "seq-value", trace); }
      CHECK(!c.next(), "seq-not-ended", trace);
      c = Seq<A>();
      CHECK(!c.next(), "seq-assigned-empty", trace);
    }
    // from a part of itself
    auto inner = std::make_shared<Seq<A>>(seq::just(A(5), A(6)));
    Seq<A> *raw = inner.get();
    Seq<A> s([inner]() -> Maybe<A> { return inner->next(); });
    inner.reset();
    if (rng.chance(1, 2)) s = *raw; else s = std::move(*raw);
    auto x = s.next();
    CHECK(x && x->v == 5, "seq-part-assign", "");
    mon::count("part_assignments");
  }
  mon::distinctStr(trace);
  allDead("Seq", before);
}

// ---------------------------------------------------------------- Gen and Shrinkable
template <typename T> struct Ops;
Shrinkable<A> mkS(int v, Rng &rng) {
  switch (rng.below(4)) {
  case 0: return shrinkable::just(A(v));
  case 1: return shrinkable::lambda([a = A(v)] { return A(a.v); });
  case 2: return shrinkable::shrinkRecur(A(v), [k = A(1)](const A &a) { return a.v > 0 ? seq::just(A(a.v / 2), A(a.v - k.v)) : Seq<A>(); });
  default: return shrinkable::map(shrinkable::just(A(v)), [k = A(0)](A &&a) { return A(a.v + k.v); });
  }
}
void shrinkableScript(Rng &rng) {
  const size_t before = reg().live.size();
  std::string trace;
  {
    const int N = 4;
    std::vector<std::unique_ptr<Shrinkable<A>>> m;
    std::vector<int> model; // -1 = moved from
    for (int i = 0; i < N; i++) { const int v = rng.below(50); m.emplace_back(new Shrinkable<A>(mkS(v, rng))); model.push_back(v); }
    for (int st = 0; st < 30; st++) {
      const int i = rng.below(N), j = rng.below(N), op = rng.below(9);
      trace += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
      switch (op) {
      case 0: { const int v = rng.below(50); *m[i] = mkS(v, rng); model[i] = v; break; }
      case 1: *m[i] = *m[j]; model[i] = model[j]; break; // incl. self and moved-from
      case 2: *m[i] = std::move(*m[j]); if (i != j) { model[i] = model[j]; model[j] = -1; } else model[i] = model[i]; break;
      case 3: { std::unique_ptr<Shrinkable<A>> n(new Shrinkable<A>(*m[j])); m[i] = std::move(n); model[i] = model[j]; break; }
      case 4: { std::unique_ptr<Shrinkable<A>> n(new Shrinkable<A>(std::move(*m[j]))); const int v = model[j]; model[j] = -1; m[i] = std::move(n); model[i] = v; break; }
      case 5: std::swap(*m[i], *m[j]); std::swap(model[i], model[j]); break;
      case 6: if (model[i] >= 0) { // descend
          auto q = m[i]->shrinks();
          if (auto c = q.next()) { const int v = c->value().v; CHECK(v < model[i], "shrinkable-value", trace); *m[i] = std::move(*c); model[i] = v; }
          break;
        }
      default: if (model[i] >= 0) CHECK(m[i]->value().v == model[i], "shrinkable-value", trace << m[i]->value().v << " expected " << model[i]);
      }
      if (op == 2 && i == j && model[i] >= 0) { *m[i] = mkS(model[i], rng); } // self-move: only destroy and assign
      for (int q = 0; q < N; q++) if (model[q] >= 0) CHECK(m[q]->value().v == model[q], "shrinkable-value", trace);
      mon::count("operations");
    }
    auto inner = std::make_shared<Shrinkable<A>>(shrinkable::just(A(77)));
    auto *raw = inner.get();
    Shrinkable<A> s = shrinkable::lambda([inner] { return A(inner->value().v + 1); });
    inner.reset();
    if (rng.chance(1, 2)) s = *raw; else s = std::move(*raw);
    CHECK(s.value().v == 77, "shrinkable-part-assign", s.value().v);
    mon::count("part_assignments");
  }
  mon::distinctStr(trace);
  allDead("Shrinkable", before);
}
Gen<A> mkG(int v, Rng &rng) {
  switch (rng.below(4)) {
  case 0: return gen::just(A(v));
  case 1: return gen::map(gen::just(A(v)), [k = A(0)](A &&a) { return A(a.v + k.v); });
  case 2: return gen::elementOf(std::vector<A>{A(v), A(v)});
  default: return gen::lazy([k = A(v)] { return gen::just(A(k.v)); });
  }
}
void genScript(Rng &rng) {
  const size_t before = reg().live.size();
  std::string trace;
  {
    const int N = 4;
    std::vector<std::unique_ptr<Gen<A>>> m;
    std::vector<std::pair<int, std::string>> model;
    for (int i = 0; i < N; i++) { const int v = rng.below(50); m.emplace_back(new Gen<A>(mkG(v, rng))); model.push_back({v, ""}); }
    for (int st = 0; st < 30; st++) {
      const int i = rng.below(N), j = rng.below(N), op = rng.below(9);
      trace += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ") ";
      switch (op) {
      case 0: { const int v = rng.below(50); *m[i] = mkG(v, rng); model[i] = {v, ""}; break; }
      case 1: *m[i] = *m[j]; model[i] = model[j]; break;
      case 2: if (i != j) { *m[i] = std::move(*m[j]); model[i] = model[j]; model[j].first = -1; } else { *m[i] = std::move(*m[j]); *m[i] = mkG(5, rng); model[i] = {5, ""}; } break;
      case 3: { std::unique_ptr<Gen<A>> n(new Gen<A>(*m[j])); m[i] = std::move(n); model[i] = model[j]; break; }
      case 4: { std::unique_ptr<Gen<A>> n(new Gen<A>(std::move(*m[j]))); auto v = model[j]; model[j].first = -1; m[i] = std::move(n); model[i] = v; break; }
      case 5: std::swap(*m[i], *m[j]); std::swap(model[i], model[j]); break;
      case 6: if (model[i].first >= 0) { const std::string nm = "a rather long generator name " + std::to_string(rng.below(100)); *m[i] = m[i]->as(nm); model[i].second = nm; } break;
      default: break;
      }
      for (int q = 0; q < N; q++) if (model[q].first >= 0) {
        CHECK((*m[q])(Random(rng.next()), rng.below(100)).value().v == model[q].first, "gen-value", trace);
        CHECK(m[q]->name() == model[q].second, "gen-name", trace << " '" << m[q]->name() << "' expected '" << model[q].second << "'");
      }
      mon::count("operations");
    }
    auto inner = std::make_shared<Gen<A>>(gen::just(A(77)).as("a name that is long enough to be on the heap"));
    auto *raw = inner.get();
    Gen<A> g = gen::lazy([inner] { return *inner; });
    inner.reset();
    if (rng.chance(1, 2)) g = *raw; else g = std::move(*raw);
    CHECK(g(Random(), 0).value().v == 77 && g.name() == "a name that is long enough to be on the heap", "gen-part-assign", g.name());
    mon::count("part_assignments");
  }
  mon::distinctStr(trace);
  allDead("Gen", before);
}

// Whole generators of tracked objects, shrinking included, leave nothing behind,
// also when copies throw.
void pipelines(Rng &rng) {
  const size_t before = reg().live.size();
  {
    auto e = gen::map(gen::inRange(0, 30), [](int v) { return A(v); });
    const int k = rng.below(8);
    const Random r(rng.next());
    const int size = rng.below(20);
    auto drive = [&](auto g) {
      const bool arm = rng.chance(1, 2);
      try {
        auto s = g(r, size);
        for (int d = 0; d < 6; d++) {
          if (arm) reg().throwIn = 1 + rng.below(40);
          { auto v = s.value(); (void)v; }
          auto q = s.shrinks();
          auto c = q.next();
          for (int i = rng.below(4); c && i > 0; i--) { auto q2 = q; auto n = q2.next(); if (!n) break; c = n; q = q2; }
          if (!c) break;
          s = *c;
        }
      } catch (const Boom &) { mon::count("operations_that_threw"); } catch (const GenerationFailure &) {}
      reg().throwIn = -1;
    };
    using V = std::vector<A>;
    switch (k) {
    case 0: drive(gen::container<V>(e)); break;
    case 1: drive(gen::container<std::set<A>>(e)); break;
    case 2: drive(gen::unique<V>(e)); break;
    case 3: drive(gen::tuple(e, gen::container<V>(e), gen::maybe(e))); break;
    case 4: drive(gen::suchThat(e, [](const A &a) { return a.v % 2 == 0; })); break;
    case 5: drive(gen::exec([=] { const A a = *e; return A(a.v + (a.v > 3 ? (*e).v : 0)); })); break;
    case 6: drive(gen::mapcat(e, [=](A &&a) { return gen::container<V>((size_t)a.v % 4, e); })); break;
    default: drive(gen::pair(gen::maybe(e), gen::oneOf(e, gen::just(A(4))))); break;
    }
    mon::distinct(rng.next());
    mon::count("pipelines");
  }
  allDead("generator pipeline", before);
}
// A check whose arguments are tracked objects.
} // namespace
namespace rc { template <> struct Arbitrary<A> { static Gen<A> arbitrary() { return gen::map(gen::inRange(0, 100), [](int v) { return A(v); }); } }; }
namespace {
void checks(Rng &rng) {
  const size_t before0 = reg().live.size();
  (void)before0;
  gen::arbitrary<A>(); gen::arbitrary<std::vector<A>>();
  const size_t before = reg().live.size();
  {
    rc::detail::TestParams p;
    p.seed = rng.next();
    p.maxSuccess = 15;
    p.maxSize = 15;
    struct L : rc::detail::TestListener {
      void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
      void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
      void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
    } l;
    const int lim = rng.below(100);
    auto prop = rc::detail::toProperty([=](const A &a, const std::vector<A> &v) {
      const A b = *gen::arbitrary<A>();
      if (a.v > 90) throw Boom();
      RC_PRE(b.v != 3);
      RC_ASSERT(a.v + (int)v.size() + b.v < 2 * lim + 20);
    });
    rc::detail::checkProperty(prop, rc::detail::TestMetadata(), p, l, {});
  }
  mon::count("checks_run");
  allDead("checkProperty", before);
}
} // namespace

SECTION("maybe", 800, 80000) { maybeScript(rng); }
SECTION("maybe-part", 100, 5000) { maybePart(rng); }
SECTION("variant", 800, 80000) { variantScript(rng); }
SECTION("any", 400, 40000) { anyScript(rng); }
SECTION("seq", 800, 80000) { seqScript(rng); }
SECTION("shrinkable", 500, 50000) { shrinkableScript(rng); }
SECTION("gen", 500, 50000) { genScript(rng); }
SECTION("pipelines", 500, 50000) { pipelines(rng); }
SECTION("checks", 60, 4000) { checks(rng); }
