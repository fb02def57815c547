// C25: generation and property contexts are strictly scoped.
// A random script of picks, logs, tags, reports, nested generators, nested
// checks, lazily run shrinks and exceptions runs in the real library; next to
// each operation the monitor notes for which context it has to count, using
// its own stack of contexts that follows the C++ scopes.
#include "mon.hpp"
#include <rapidcheck.h>
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "src/detail/Testing.h"
#include <iostream>
#include <memory>
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using Ty = CaseResult::Type;

namespace {
struct Ctx {
  bool prop = false;
  std::vector<std::string> items; // names of picks, "!" for one that threw
  std::vector<std::string> tags;
  std::string log;
  bool discard = false, fail = false;
  uint64_t id = 0;
};
struct MyEx { int k; };
struct Mon {
  std::vector<Ctx *> stack;
  Ctx last; // the property body that ended last
  std::string err; // expected on stderr
  int ops = 0, depthSeen = 0;
  // Shrinks iterated by hand within a body run their functors as part of that
  // body, so there the functors do nothing.
  int nested = 0;
  bool over = false; // scripts that take too long are cut short and not judged
  uint64_t ids = 0;
};
Mon *g = nullptr;
struct Frame {
  Ctx c;
  explicit Frame(bool prop) {
    c.prop = prop;
    c.id = ++g->ids;
    g->stack.push_back(&c);
    g->depthSeen = std::max(g->depthSeen, (int)g->stack.size());
  }
  ~Frame() {
    CHECK(!g->stack.empty() && g->stack.back() == &c, "monitor", "bodies are not nested");
    g->stack.pop_back();
    if (c.prop) g->last = c;
  }
};
struct Nested {
  Nested() { g->nested++; }
  ~Nested() { g->nested--; }
};
PropertyContext *context() { return ImplicitParam<rc::detail::param::CurrentPropertyContext>::value(); }
gen::detail::GenerationHandler *handler() { return ImplicitParam<rc::gen::detail::param::CurrentHandler>::value(); }

void run(uint64_t h, int depth, bool pure);
int runGen(uint64_t h, int depth, bool pure) {
  Frame f(false);
  run(h, depth, pure);
  return (int)(h % 100) + (int)f.c.items.size();
}
Gen<int> execGen(uint64_t h, int depth, bool pure) {
  return gen::exec([=] { return runGen(h, depth, pure); });
}
void runProp(uint64_t h, int depth) {
  Frame f(true);
  try {
    run(h, depth, false);
  } catch (const CaseResult &r) {
    f.c.discard |= r.type == Ty::Discard;
    f.c.fail |= r.type == Ty::Failure;
    throw;
  } catch (const GenerationFailure &) {
    f.c.discard = true;
    throw;
  } catch (...) {
    f.c.fail = true;
    throw;
  }
}
std::string names(const std::vector<std::string> &v) { return toString(v); }
void checkCase(const CaseDescription &d, const char *where) {
  if (g->over) return;
  const Ctx c = g->last;
  const Ty want = c.discard ? Ty::Discard : c.fail ? Ty::Failure : Ty::Success;
  CHECK(d.result.type == want, "case.result", where << ": the case ended as " << d.result.type << " instead of " << want << ": " << d.result.description);
  CHECK(d.tags == c.tags, "case.tags", where << ": the case has tags " << toString(d.tags) << " instead of " << toString(c.tags));
  const std::string &t = d.result.description;
  const std::string suffix = c.log.empty() ? "" : "\n\nLog:\n" + c.log;
  CHECK(t.size() >= suffix.size() && t.substr(t.size() - suffix.size()) == suffix, "case.log", where << ": the description does not end with the log '" << c.log << "': " << t);
  if (c.log.empty()) CHECK(t.find("Log:") == std::string::npos, "case.log", where << ": a log of another context is in the description: " << t);
  mon::count("cases_checked");
  if (!c.log.empty()) mon::count("cases_with_log");
  if (!c.tags.empty()) mon::count("cases_with_tags");
  const auto ex = d.example();
  bool same = ex.size() == c.items.size();
  for (size_t i = 0; same && i < ex.size(); i++) same = c.items[i] == "!" || c.items[i] == ex[i].first;
  if (!same) {
    std::vector<std::string> got;
    for (auto &e : ex) got.push_back(e.first);
    CHECK(false, "case.items", where << ": the picks listed are " << names(got) << " instead of " << names(c.items));
  }
  mon::count("items_checked", ex.size());
}
struct L : TestListenerAdapter {
  const char *where;
  int throwAt = -1, seen = 0;
  explicit L(const char *w) : where(w) {}
  void onTestCaseFinished(const CaseDescription &d) override { on(d); }
  void onShrinkTried(const CaseDescription &d, bool) override { on(d); }
  void on(const CaseDescription &d) {
    checkCase(d, where);
    if (seen++ == throwAt) throw MyEx{77};
  }
};
template <typename T> T pick(const Gen<T> &gn, const std::string &name) {
  Ctx *c = g->stack.back();
  c->items.push_back("!");
  const size_t at = c->items.size() - 1;
  T v = *gn.as(name);
  CHECK(g->stack.back() == c, "monitor", "another body is current after a pick");
  c->items[at] = name;
  mon::count("picks");
  return v;
}
void op(Rng &r, uint64_t h, int depth, bool pure, int i) {
  Ctx *c = g->stack.back();
  const std::string mark = std::to_string(h % 100000) + "." + std::to_string(i);
  switch (r.below(depth > 0 ? 18 : 10)) {
  case 0: case 1: {
    const int v = pick(gen::inRange(0, 5), "p" + mark);
    CHECK(v >= 0 && v < 5, "pick", "picked " << v);
    break;
  }
  case 2: {
    if (pure) break;
    RC_LOG("L" + mark);
    (c->prop ? c->log : g->err) += "L" + mark + "\n";
    mon::count("logs");
    break;
  }
  case 3: {
    if (pure) break;
    RC_LOG() << "M" << mark << ";";
    (c->prop ? c->log : g->err) += "M" + mark + ";";
    mon::count("logs");
    break;
  }
  case 4: {
    if (pure) break;
    RC_TAG(i, h % 7);
    if (c->prop) { c->tags.push_back(std::to_string(i)); c->tags.push_back(std::to_string(h % 7)); }
    RC_CLASSIFY(h % 2 == 0);
    if (c->prop && h % 2 == 0) c->tags.push_back("h % 2 == 0");
    mon::count("tags");
    break;
  }
  case 5: {
    if (pure) break;
    const Ty t = r.chance(1, 6) ? Ty::Discard : r.chance(1, 3) ? Ty::Failure : Ty::Success;
    const bool handled = context()->reportResult(CaseResult(t, "R" + mark));
    CHECK(handled == c->prop, "report", (c->prop ? "a property ignored" : "a generator body handled") << " a reported result");
    if (c->prop) { c->discard |= t == Ty::Discard; c->fail |= t == Ty::Failure; }
    mon::count("reports");
    break;
  }
  case 6: { // functors within a generator are in no context
    const bool log = !pure && r.chance(1, 2);
    const int v = pick(gen::map(gen::inRange(0, 3), [=](int) {
                         if (g->nested) return 100;
                         if (log) { RC_LOG("F" + mark); g->err += "F" + mark + "\n"; }
                         RC_TAG("functor");
                         try { *gen::just(1); } catch (const std::runtime_error &) { return 100; }
                         return 0;
                       }), "f" + mark);
    CHECK(v == 100, "pick.functor", "picking inside the functor of gen::map did not report an error");
    mon::count("picks_in_functors");
    break;
  }
  case 7: { // predicates of filters as well
    const int v = pick(gen::suchThat(gen::inRange(0, 30), [=](int x) {
                         if (g->nested) return x % 2 == 0;
                         RC_TAG("predicate");
                         try { *gen::just(1); } catch (const std::runtime_error &) { return x % 2 == 0; }
                         return false;
                       }), "s" + mark);
    CHECK(v % 2 == 0, "pick.predicate", "picked " << v);
    break;
  }
  case 8: {
    if (!r.chance(1, 5)) break;
    mon::count("throws");
    switch (r.below(8)) {
    case 0: throw MyEx{i};
    case 1: RC_DISCARD("D" + mark);
    case 2: RC_FAIL("X" + mark);
    case 3: throw std::runtime_error("E" + mark);
    case 4: throw GenerationFailure("G" + mark);
    case 5: pick(gen::suchThat(gen::just(1), [](int) { return false; }), "never"); break;
    case 6: pick(Gen<int>([](const Random &, int) -> Shrinkable<int> { throw MyEx{5}; }), "thrower"); break;
    default: RC_ASSERT(h == 0); break;
    }
    break;
  }
  case 9: { // by an assertion that holds, nothing changes
    RC_ASSERT(i >= 0);
    RC_PRE(true);
    break;
  }
  case 10: case 11: case 12: {
    pick(execGen(mon::comb(h, i), depth - 1, pure), "x" + mark);
    CHECK(g->stack.back() == c, "monitor", "stack");
    mon::count("nested_generators");
    break;
  }
  case 13: { // nested generator inside others
    const uint64_t s = mon::comb(h, i);
    if (r.chance(1, 2)) pick(gen::pair(execGen(s, depth - 1, pure), execGen(s + 1, depth - 1, pure)), "y" + mark);
    else pick(gen::container<std::vector<int>>(2, gen::map(execGen(s, depth - 1, pure), [](int x) { return x + 1; })), "z" + mark);
    mon::count("nested_generators", 2);
    break;
  }
  case 14: {
    if (pure) break;
    // A nested check. Its listener may throw.
    const uint64_t s = mon::comb(h, i + 1000);
    TestParams p;
    p.seed = s;
    p.maxSuccess = 1 + (int)r.below(3);
    p.maxSize = (int)r.below(4);
    p.maxDiscardRatio = (int)r.below(3);
    p.disableShrinking = r.chance(1, 2);
    L l("nested check");
    if (r.chance(1, 4)) l.throwAt = (int)r.below(4);
    const int d = depth - 1;
    const bool args = r.chance(1, 3);
    const Property prop = args ? toProperty([=](int, bool) {
      // The arguments are the first item.
      Frame f(true);
      f.c.items.push_back("std::tuple<int, bool>");
      try { run(s, d, false); } catch (const CaseResult &x) { f.c.discard |= x.type == Ty::Discard; f.c.fail |= x.type == Ty::Failure; throw; } catch (const GenerationFailure &) { f.c.discard = true; throw; } catch (...) { f.c.fail = true; throw; }
    }) : toProperty([=] { runProp(s, d); });
    mon::count("nested_checks");
    try {
      testProperty(prop, TestMetadata(), p, l);
    } catch (const MyEx &e) {
      CHECK(e.k == 77, "nested.throw", "an exception of a body escaped from a nested check");
      mon::count("nested_checks_left_by_exception");
      if (r.chance(1, 3)) throw;
    }
    CHECK(g->stack.back() == c, "monitor", "stack");
    break;
  }
  case 15: { // a generator evaluated by hand, with some shrinks
    const auto gn = execGen(mon::comb(h, i), depth - 1, true);
    const auto s = gn(Random(h), 5);
    try {
      Nested ns;
      s.value();
      auto q = s.shrinks();
      for (int k = 0; k < 3; k++) {
        auto x = q.next();
        if (!x) break;
        try { x->value(); } catch (const MyEx &) {} catch (const GenerationFailure &) {} catch (const std::runtime_error &) {} catch (const CaseResult &) {}
        mon::count("shrinks_inside_bodies");
      }
    } catch (const MyEx &) {} catch (const GenerationFailure &) {} catch (const std::runtime_error &) {} catch (const CaseResult &) {}
    break;
  }
  default: { // exceptions caught by the body itself
    try {
      run(mon::comb(h, i), depth - 1, pure);
    } catch (const MyEx &) { mon::count("caught"); } catch (const std::runtime_error &) { mon::count("caught"); } catch (const CaseResult &) { mon::count("caught"); } catch (const GenerationFailure &) { mon::count("caught"); }
    CHECK(g->stack.back() == c, "monitor", "stack");
    break;
  }
  }
}
void run(uint64_t h, int depth, bool pure) {
  Rng r(h);
  const int n = (int)r.below(7);
  for (int i = 0; i < n; i++) {
    if (++g->ops > 6000) g->over = true;
    if (g->over) return;
    op(r, h, depth, pure, i);
  }
}
struct Cerr {
  std::ostringstream os;
  std::streambuf *old;
  Cerr() : old(std::cerr.rdbuf(os.rdbuf())) {}
  ~Cerr() { std::cerr.rdbuf(old); }
};
void outside(const char *when, PropertyContext *pc, gen::detail::GenerationHandler *gh) {
  bool threw = false;
  try { *gen::just(1); } catch (const std::runtime_error &) { threw = true; }
  CHECK(threw, "outside.pick", "picking outside of any context " << when << " did not report an error");
  CHECK(context() == pc && handler() == gh, "outside.restored", "the contexts " << when << " are not the initial ones");
  CHECK(!context()->reportResult(CaseResult(Ty::Failure, "x")), "outside.report", "a result reported outside of any context was handled");
  RC_TAG("outside");
  mon::count("outside_checks");
}
} // namespace

SECTION("scripts", 20000, 400000) {
  Mon m;
  g = &m;
  Cerr cerr;
  const auto pc = context();
  const auto gh = handler();
  outside("before", pc, gh);
  const uint64_t h = rng.next();
  const int depth = (int)rng.below(5);
  switch (rng.below(3)) {
  case 0: { // one case and some of its shrinks
    const auto prop = toProperty([=] { runProp(h, depth); });
    auto s = prop(Random(rng.next()), (int)rng.below(20));
    for (int d = 0; d < 4; d++) {
      checkCase(s.value(), "case");
      outside("after a case", pc, gh);
      auto q = s.shrinks();
      Maybe<Shrinkable<CaseDescription>> keep;
      for (int k = 0; k < 5; k++) {
        auto x = q.next();
        if (!x) break;
        checkCase(x->value(), "shrink");
        mon::count("shrunk_cases");
        if (!keep || rng.chance(1, 3)) keep = *x;
      }
      if (!keep || m.over) break;
      s = std::move(*keep);
    }
    break;
  }
  case 1: { // a whole check
    TestParams p;
    p.seed = rng.next();
    p.maxSuccess = 1 + (int)rng.below(8);
    p.maxSize = (int)rng.below(20);
    p.maxDiscardRatio = (int)rng.below(3);
    L l("check");
    if (rng.chance(1, 5)) l.throwAt = (int)rng.below(6);
    try {
      testProperty(toProperty([=] { runProp(h, depth); }), TestMetadata(), p, l);
    } catch (const MyEx &e) { CHECK(e.k == 77, "throw", "an exception escaped from a check"); }
    mon::count("whole_checks");
    break;
  }
  default: { // a generator by itself
    const auto s = execGen(h, depth, false)(Random(rng.next()), (int)rng.below(20));
    try {
      s.value();
      outside("after a generator", pc, gh);
      auto q = s.shrinks();
      for (int k = 0; k < 5; k++) {
        auto x = q.next();
        if (!x) break;
        try { x->value(); } catch (const MyEx &) {} catch (const GenerationFailure &) {} catch (const std::runtime_error &) {} catch (const CaseResult &) {}
        outside("after a shrink", pc, gh);
      }
    } catch (const MyEx &) {} catch (const GenerationFailure &) {} catch (const std::runtime_error &) {} catch (const CaseResult &) {}
    mon::count("generators_alone");
  }
  }
  outside("after", pc, gh);
  CHECK(m.stack.empty(), "monitor", "stack not empty");
  if (m.over) mon::count("runs_cut_short");
  else CHECK(cerr.os.str() == m.err, "stderr", "logs without a property wrote '" << cerr.os.str().substr(0, 400) << "' instead of '" << m.err.substr(0, 400) << "'");
  if (!m.err.empty()) mon::count("runs_with_shielded_logs");
  if (m.depthSeen > 3) mon::count("runs_deeper_than_three");
  if (m.depthSeen > 1) mon::distinct(h);
  g = nullptr;
}

// -- the parameter stack itself
namespace {
template <int N> struct Param {
  using ValueType = std::string;
  static std::string defaultValue() { return "default" + std::to_string(N); }
};
struct Sc { // model: one scope
  std::map<int, std::string> own;                        // default slots made on demand
  std::vector<std::pair<int, std::string>> lets;
};
struct Model {
  std::vector<Sc> scopes;
  std::string &value(int n) {
    Sc &s = scopes.back();
    for (size_t i = s.lets.size(); i-- > 0;)
      if (s.lets[i].first == n) return s.lets[i].second;
    auto it = s.own.find(n);
    if (it == s.own.end()) it = s.own.emplace(n, "default" + std::to_string(n)).first;
    return it->second;
  }
};
template <int N> void params(Rng &r, Model &m, int depth);
template <int N> void value(Rng &r, Model &m) {
  std::string &v = ImplicitParam<Param<N>>::value();
  CHECK(v == m.value(N), "param.value", "parameter " << N << " is '" << v << "' instead of '" << m.value(N) << "'");
  if (r.chance(1, 4)) v = m.value(N) = "set" + std::to_string(r.below(1000));
  mon::count("parameter_reads");
}
template <int N> void let(Rng &r, Model &m, int depth) {
  const std::string v = "let" + std::to_string(r.below(1000));
  const size_t scope = m.scopes.size();
  struct Pop { Model &m; size_t s; ~Pop() { m.scopes[s - 1].lets.pop_back(); } };
  ImplicitParam<Param<N>> p(v);
  m.scopes.back().lets.emplace_back(N, v);
  Pop pop{m, scope};
  params<0>(r, m, depth - 1);
}
template <int> void params(Rng &r, Model &m, int depth) {
  for (int i = 0, n = (int)r.below(7); i < n; i++) {
    switch (r.below(depth > 0 ? 13 : 6)) {
    case 0: case 1: value<0>(r, m); break;
    case 2: case 3: value<1>(r, m); break;
    case 4: value<2>(r, m); break;
    case 5: if (r.chance(1, 4)) { mon::count("parameter_throws"); throw MyEx{1}; } break;
    case 6: let<0>(r, m, depth); break;
    case 7: let<1>(r, m, depth); break;
    case 8: let<2>(r, m, depth); break;
    case 9: case 10: {
      struct Pop { Model &m; ~Pop() { m.scopes.pop_back(); } };
      ImplicitScope s;
      m.scopes.emplace_back();
      Pop pop{m};
      params<0>(r, m, depth - 1);
      mon::count("parameter_scopes");
      break;
    }
    default:
      try { params<0>(r, m, depth - 1); } catch (const MyEx &) { mon::count("caught"); }
    }
  }
}
} // namespace
namespace {
void deep(Rng &r, Model &m, int levels, int wild);
template <int N> void deepLet(Rng &r, Model &m, int levels, int wild) {
  const std::string v = "deep" + std::to_string(levels);
  const size_t scope = m.scopes.size();
  struct Pop { Model &m; size_t s; ~Pop() { m.scopes[s - 1].lets.pop_back(); } };
  ImplicitParam<Param<N>> p(v);
  m.scopes.back().lets.emplace_back(N, v);
  Pop pop{m, scope};
  deep(r, m, levels - 1, wild);
}
// A long chain of scopes and bindings, values read on the way in and out.
void deep(Rng &r, Model &m, int levels, int wild) {
  if (levels == 0) {
    mon::count("deep_chains");
    if (r.chance(1, 4)) throw MyEx{2};
    params<0>(r, m, 2);
    return;
  }
  auto values = [&] {
    if ((int)r.below(10) >= wild) return;
    value<0>(r, m);
    if (r.chance(1, 2)) value<1>(r, m);
    if (r.chance(1, 3)) value<2>(r, m);
  };
  values();
  switch (r.below(12)) {
  case 0: deepLet<0>(r, m, levels, wild); break;
  case 1: deepLet<1>(r, m, levels, wild); break;
  case 2: deepLet<2>(r, m, levels, wild); break;
  case 3: try { deep(r, m, levels - 1, wild); } catch (const MyEx &) { mon::count("caught"); } break;
  default: {
    struct Pop { Model &m; ~Pop() { m.scopes.pop_back(); } };
    ImplicitScope s;
    m.scopes.emplace_back();
    Pop pop{m};
    deep(r, m, levels - 1, wild);
  }
  }
  values();
}
} // namespace
SECTION("parameters", 6000, 100000) {
  Model m;
  {
    ImplicitScope top;
    m.scopes.emplace_back();
    try {
      if (rng.chance(1, 30)) deep(rng, m, 5 + (int)rng.below(rng.chance(1, 4) ? 600 : 80), (int)rng.below(11));
      else params<0>(rng, m, 7);
    } catch (const MyEx &) {}
    value<0>(rng, m);
    value<1>(rng, m);
    value<2>(rng, m);
  }
  mon::distinct(rng.next());
}
