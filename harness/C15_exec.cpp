// C15: dependent generation replays consistently while shrinking.
// A random "program" picks values; which generator comes next, and whether the
// program goes on, depends on the values picked so far. The tree of
// gen::exec(program) (and of a property with that body) is compared with an
// independent model over the trees of the operand generators. The random
// states are not modelled but observed: pick i must get the same state in all
// runs of a tree, and no two picks may share one.
#include "genfam.hpp"
#include "tree.hpp"
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/Property.h"
#include "rapidcheck/detail/ShowType.h"
#include <map>
#include <memory>
using namespace rc;
using mon::Rng;

namespace {
struct Obs {
  std::map<std::string, std::pair<Random, int>> seen;
  std::string clash;
};
Obs *g_obs = nullptr;

void note(const std::string &key, const Random &r, int size) {
  if (!g_obs) return;
  auto it = g_obs->seen.find(key);
  if (it == g_obs->seen.end()) {
    g_obs->seen.emplace(key, std::make_pair(r, size));
    mon::count("pick_states_observed");
  } else {
    mon::count("picks_replayed");
    if (it->second.first != r || it->second.second != size) g_obs->clash = "pick " + key + " was regenerated from another random state or size";
  }
}
template <typename T> Gen<T> rec(Gen<T> g, std::string key) {
  return Gen<T>([=](const Random &r, int size) {
    note(key, r, size);
    return g(r, size);
  });
}
std::pair<Random, int> observed(const std::string &key) {
  auto it = g_obs->seen.find(key);
  if (it == g_obs->seen.end()) {
    if (g_obs->clash.empty()) g_obs->clash = "the code never picked " + key;
    return {Random(), 0};
  }
  return it->second;
}

// -- programs ---------------------------------------------------------------
struct Step {
  bool end = true;
  int kind = 0; // 0 text family, 1 int family, 2 vector family, 3 nested program, 4 small int, 5 tuple
  int fam = 0;
  uint64_t h = 0;
  std::string name;
};
struct Prog {
  uint64_t h;
  int maxLen, depth;
  Step next(const std::vector<std::string> &hist) const {
    uint64_t x = h;
    for (auto &t : hist) x = mon::comb(x, mon::hashStr(t));
    Step s;
    if ((int)hist.size() >= maxLen || (hist.size() > 0 && x % 7 == 0)) return s;
    Rng r(x);
    s.end = false;
    s.kind = (int)r.below(7);
    if (s.kind == 6) s.kind = 4;
    if (s.kind == 3 && depth == 0) s.kind = 4;
    s.fam = (int)r.below(s.kind == 0 ? genfam::kFamilies : s.kind == 1 ? genfam::kIntFamilies : genfam::kVecFamilies);
    s.h = r.next();
    if (r.chance(1, 3)) s.name = "n" + std::to_string(r.below(1000));
    return s;
  }
  Prog nested(const Step &s) const { return Prog{s.h, 1 + (int)(s.h % 4), depth - 1}; }
};
Gen<int> smallInt(uint64_t h) { return gen::inRange<int>(0, 2 + (int)(h % 12)); }
using Tup = std::tuple<int, bool>;
Gen<Tup> tupGen(uint64_t h) { return gen::tuple(smallInt(h), gen::arbitrary<bool>()); }

std::string join(const std::vector<std::string> &t) {
  std::string s;
  for (auto &x : t) s += x + ";";
  return s;
}
std::vector<std::string> runProg(const Prog &p, const std::string &key, std::vector<std::string> hist);
Gen<std::string> execGen(const Prog &p, const std::string &key) {
  return gen::exec([=] { return join(runProg(p, key, {})); });
}
template <typename T> std::string pickAs(Gen<T> g, const Step &s, const std::string &key) {
  auto r = rec(std::move(g), key);
  const T v = s.name.empty() ? *r : *r.as(s.name);
  return rc::toString(v);
}
std::vector<std::string> runProg(const Prog &p, const std::string &key, std::vector<std::string> hist) {
  mon::count("program_runs");
  for (;;) {
    const Step s = p.next(hist);
    if (s.end) return hist;
    const std::string k = key + "/" + std::to_string(hist.size());
    switch (s.kind) {
    case 0: hist.push_back(pickAs(genfam::make(s.fam, s.h), s, k)); break;
    case 1: hist.push_back(pickAs(genfam::makeInt(s.fam, s.h), s, k)); break;
    case 2: hist.push_back(pickAs(genfam::makeVec(s.fam, s.h), s, k)); break;
    case 3: hist.push_back(pickAs(execGen(p.nested(s), k), s, k)); break;
    case 4: hist.push_back(pickAs(smallInt(s.h), s, k)); break;
    default: hist.push_back(pickAs(tupGen(s.h), s, k)); break;
    }
  }
}

// -- the model --------------------------------------------------------------
struct Pick {
  std::string name;
  Shrinkable<std::string> s;
};
using Picks = std::vector<Pick>;
template <typename T> Shrinkable<std::string> shown(const Shrinkable<T> &s) {
  return shrinkable::map(s, [](const T &v) { return rc::toString(v); });
}
template <typename T> std::string nameOf(const Step &s) { return s.name.empty() ? rc::detail::typeToString<T>() : s.name; }

struct Model {
  Prog prog;
  std::string key;
  std::function<Pick()> args; // the arguments, if any, are pick 0
};
struct Ref { Model m; Picks picks; size_t fixed; };

Shrinkable<std::string> refExec(const Prog &p, const std::string &key);
Picks complete(const Model &m, Picks picks) {
  std::vector<std::string> hist;
  if (m.args && picks.empty()) picks.push_back(m.args());
  for (auto &p : picks) hist.push_back(p.s.value());
  for (;;) {
    const Step s = m.prog.next(hist);
    if (s.end) return picks;
    const std::string k = m.key + "/" + std::to_string(hist.size());
    const auto st = observed(k);
    switch (s.kind) {
    case 0: picks.push_back({nameOf<std::string>(s), shown(genfam::make(s.fam, s.h)(st.first, st.second))}); break;
    case 1: picks.push_back({nameOf<int>(s), shown(genfam::makeInt(s.fam, s.h)(st.first, st.second))}); break;
    case 2: picks.push_back({nameOf<std::vector<int>>(s), shown(genfam::makeVec(s.fam, s.h)(st.first, st.second))}); break;
    case 3: picks.push_back({nameOf<std::string>(s), shown(refExec(m.prog.nested(s), k))}); break;
    case 4: picks.push_back({nameOf<int>(s), shown(smallInt(s.h)(st.first, st.second))}); break;
    default: picks.push_back({nameOf<Tup>(s), shown(tupGen(s.h)(st.first, st.second))}); break;
    }
    hist.push_back(picks.back().s.value());
  }
}
struct RefSeq {
  Model m;
  Picks picks;
  size_t i;
  Seq<Shrinkable<std::string>> cur;
  bool open = false;
  std::function<Shrinkable<std::string>(const Model &, Picks, size_t)> mk;
  Maybe<Shrinkable<std::string>> operator()() {
    for (;;) {
      if (i >= picks.size()) return Nothing;
      if (!open) { cur = picks[i].s.shrinks(); open = true; }
      auto k = cur.next();
      if (!k) { i++; open = false; continue; }
      Picks p(picks.begin(), picks.begin() + i);
      p.push_back({picks[i].name, std::move(*k)});
      return mk(m, std::move(p), i);
    }
  }
};
using Render = std::string (*)(const Picks &);
template <Render R> Shrinkable<std::string> refTree(const Model &m, Picks prefix, size_t fixed) {
  return shrinkable::lambda([=] { return R(complete(m, prefix)); },
                            [=] {
                              RefSeq q{m, complete(m, prefix), fixed, {}, false, &refTree<R>};
                              return Seq<Shrinkable<std::string>>(std::move(q));
                            });
}
std::string joined(const Picks &p) {
  std::string s;
  for (auto &x : p) s += x.s.value() + ";";
  return s;
}
std::string listed(const Picks &p) { // what a case description must show
  std::string s = rc::toString(joined(p)); // (a tag is shown)
  for (auto &x : p) s += "|" + x.name + "=" + x.s.value();
  return s;
}
Shrinkable<std::string> refExec(const Prog &p, const std::string &key) { return refTree<joined>(Model{p, key, nullptr}, {}, 0); }

// arguments (what Arbitrary gives is made once, so the choice is made when generating)
struct ArgSpec { int fa = 0, fb = 0; uint64_t ha = 0, hb = 0; } g_args;
} // namespace
struct ArgA { std::string t; };
struct ArgB { std::string t; };
static void showValue(const ArgA &a, std::ostream &os) { os << a.t; }
static void showValue(const ArgB &a, std::ostream &os) { os << a.t; }
namespace rc {
template <> struct Arbitrary<ArgA> {
  static Gen<ArgA> arbitrary() { return rec(Gen<ArgA>([](const Random &r, int size) { return shrinkable::map(genfam::make(g_args.fa, g_args.ha)(r, size), [](std::string s) { return ArgA{std::move(s)}; }); }), "A"); }
};
template <> struct Arbitrary<ArgB> {
  static Gen<ArgB> arbitrary() { return rec(Gen<ArgB>([](const Random &r, int size) { return shrinkable::map(genfam::makeInt(g_args.fb, g_args.hb)(r, size), [](int s) { return ArgB{std::to_string(s)}; }); }), "B"); }
};
} // namespace rc
namespace {
Shrinkable<std::string> refA() { auto st = observed("A"); return genfam::make(g_args.fa, g_args.ha)(st.first, st.second); }
Shrinkable<std::string> refB() {
  auto st = observed("B");
  return shrinkable::map(genfam::makeInt(g_args.fb, g_args.hb)(st.first, st.second), [](int s) { return std::to_string(s); });
}
Shrinkable<std::string> refTuple2(Shrinkable<std::string> a, Shrinkable<std::string> b) {
  return shrinkable::lambda([=] { return "(" + a.value() + ", " + b.value() + ")"; },
                            [=] {
                              return seq::concat(seq::map(a.shrinks(), [=](Shrinkable<std::string> x) { return refTuple2(std::move(x), b); }),
                                                 seq::map(b.shrinks(), [=](Shrinkable<std::string> y) { return refTuple2(a, std::move(y)); }));
                            });
}
Pick args1() { return {rc::detail::typeToString<std::tuple<ArgA>>(), shrinkable::map(refA(), [](std::string s) { return "(" + s + ")"; })}; }
Pick args2() { return {rc::detail::typeToString<std::tuple<ArgA, ArgB>>(), refTuple2(refA(), refB())}; }

Prog randomProg(Rng &rng) { return Prog{rng.next(), 1 + (int)rng.below(6), rng.chance(1, 2) ? (int)rng.below(3) : 0}; }
ArgSpec randomArgs(Rng &rng) {
  ArgSpec a;
  a.fa = (int)rng.below(genfam::kFamilies);
  a.fb = (int)rng.below(genfam::kIntFamilies);
  a.ha = rng.next();
  a.hb = rng.next();
  return a;
}
int aSize(Rng &rng) { return rng.chance(1, 10) ? 100 : (int)rng.below(25); }

void checkObs(const Obs &o) {
  if (mon::tracing()) for (auto &kv : o.seen) fprintf(stderr, "%s: %s size %d\n", kv.first.c_str(), rc::toString(kv.second.first).c_str(), kv.second.second);
  CHECK(o.clash.empty(), "pick-state", o.clash);
  std::map<std::string, std::string> byState;
  for (auto &kv : o.seen) {
    auto r = byState.emplace(rc::toString(kv.second.first), kv.first);
    CHECK(r.second, "shared-state", "picks " << r.first->second << " and " << kv.first << " got the same random state");
  }
}
bool same(const std::string &a, const std::string &b) { return a == b; }
std::string ident(const std::string &a) { return a; }

// what a property case shows, in the form of `listed`
std::string renderCase(const rc::detail::CaseDescription &d) {
  std::string s = d.tags.empty() ? "<no tag>" : d.tags[0];
  const auto ex = d.example();
  for (auto &x : ex) s += "|" + x.first + "=" + x.second;
  mon::count("examples_checked");
  return s;
}
void finish(const std::vector<std::string> &t) {
  const std::string s = join(t);
  RC_TAG(s);
  switch (mon::hashStr(s) % 6) {
  case 0: return;
  case 1: RC_FAIL("fails");
  case 2: RC_DISCARD("discards");
  case 3: throw std::runtime_error("throws");
  case 4: RC_SUCCEED("succeeds");
  default: throw 5;
  }
}
} // namespace

SECTION("exec", 1500, 40000) {
  Obs o;
  g_obs = &o;
  g_args = randomArgs(rng);
  const Prog p = randomProg(rng);
  const int form = (int)rng.below(4);
  const int size = aSize(rng);
  const Random r(rng.next());
  Gen<std::string> g = gen::just(std::string());
  Model m{p, "", nullptr};
  switch (form) {
  case 0: g = gen::exec([=](ArgA a) { return join(runProg(p, "", {"(" + a.t + ")"})); }); m.args = args1; break;
  case 1: g = gen::exec([=](const ArgA &a, ArgB b) { return join(runProg(p, "", {"(" + a.t + ", " + b.t + ")"})); }); m.args = args2; break;
  default: g = execGen(p, ""); break;
  }
  const auto real = g(r, size);
  const auto ref = refTree<joined>(m, {}, 0);
  size_t budget = rng.chance(1, 10) ? 120 : 20;
  std::string diff;
  try {
    diff = tree::compare(rng, real, ref, same, ident, budget, 25);
  } catch (const GenerationFailure &) {
    mon::count("ungeneratable_programs"); // some filter of the catalogue gave up
    g_obs = nullptr;
    return;
  }
  checkObs(o);
  CHECK(diff.empty(), "exec-tree", "exec of program " << p.h << " form " << form << " size " << size << ": " << diff);
  for (auto &kv : o.seen)
    CHECK(kv.second.second == size || kv.first.find('/') != kv.first.rfind('/'), "pick-size", "pick " << kv.first << " at size " << kv.second.second << " instead of " << size);
  // The same tree again, and from a shared generator.
  const auto again = g(r, size);
  size_t b2 = 15;
  const auto d2 = tree::compare(rng, again, real, same, ident, b2, 20);
  CHECK(d2.empty(), "exec-again", d2);
  mon::count("exec_trees");
  if (p.depth > 0) mon::count("nested_programs");
  if (m.args) mon::count("with_arguments");
  mon::distinctStr(real.value());
  mon::sample("program " + std::to_string(p.h) + " picked " + real.value());
  g_obs = nullptr;
}

SECTION("property", 900, 25000) {
  Obs o;
  g_obs = &o;
  g_args = randomArgs(rng);
  const Prog p = randomProg(rng);
  const int form = (int)rng.below(4);
  const int size = aSize(rng);
  const Random r(rng.next());
  Model m{p, "", nullptr};
  rc::detail::Property prop = rc::detail::toProperty([] {});
  switch (form) {
  case 0: prop = rc::detail::toProperty([=](ArgA a) { finish(runProg(p, "", {"(" + a.t + ")"})); }); m.args = args1; break;
  case 1: prop = rc::detail::toProperty([=](const ArgA &a, ArgB b) { finish(runProg(p, "", {"(" + a.t + ", " + b.t + ")"})); }); m.args = args2; break;
  default: prop = rc::detail::toProperty([=] { finish(runProg(p, "", {})); }); break;
  }
  const auto raw = prop(r, size);
  const auto real = shrinkable::map(raw, [](const rc::detail::CaseDescription &d) { return renderCase(d); });
  const auto ref = refTree<listed>(m, {}, 0);
  size_t budget = rng.chance(1, 10) ? 100 : 16;
  std::string diff;
  try {
    diff = tree::compare(rng, real, ref, same, ident, budget, 25);
  } catch (const GenerationFailure &) {
    mon::count("ungeneratable_programs"); // some filter of the catalogue gave up
    g_obs = nullptr;
    return;
  }
  checkObs(o);
  CHECK(diff.empty(), "property-tree", "property of program " << p.h << " form " << form << " size " << size << ": " << diff);
  mon::count("property_trees");
  mon::distinctStr(real.value());
  g_obs = nullptr;
}

// Bodies that stop midway list what they picked until then; what fails while
// being generated is not listed as if it had been picked.
SECTION("partial", 500, 10000) {
  const Prog p{rng.next(), 1 + (int)rng.below(6), 0};
  const size_t stopAt = rng.below(6);
  const int how = (int)rng.below(4);
  const Random r(rng.next());
  const int size = aSize(rng);
  auto picked = std::make_shared<std::vector<std::string>>();
  auto prop = rc::detail::toProperty([=] {
    picked->clear();
    std::vector<std::string> hist;
    for (size_t i = 0;; i++) {
      if (i == stopAt) {
        switch (how) {
        case 0: RC_FAIL("stop");
        case 1: RC_DISCARD("stop");
        case 2: throw std::logic_error("stop");
        default: (void)*gen::suchThat(gen::arbitrary<int>(), [](int) { return false; });
        }
      }
      const Step s = p.next(hist);
      if (s.end) return;
      switch (s.kind) {
      case 1: hist.push_back(rc::toString(*genfam::makeInt(s.fam, s.h))); break;
      case 2: hist.push_back(rc::toString(*genfam::makeVec(s.fam, s.h))); break;
      default: hist.push_back(rc::toString(*smallInt(s.h))); break;
      }
      picked->push_back(hist.back());
    }
  });
  const auto tree = prop(r, size);
  tree::walk(rng, tree, [&](const rc::detail::CaseDescription &d, const rc::detail::CaseDescription *, size_t, size_t) {
    const auto want = *picked;
    const auto ex = d.example();
    // (a pick that could not be generated may be mentioned after the others)
    const bool n = ex.size() >= want.size() && ex.size() <= want.size() + (how == 3 ? 1 : 0);
    REQUIRE_RET(n, "partial-count", "lists " << ex.size() << " values of " << want.size() << " picked");
    for (size_t i = 0; i < want.size(); i++)
      CHECK(ex[i].second == want[i], "partial-value", "item " << i << " is " << ex[i].second << " instead of " << want[i]);
    mon::count("partial_runs");
    return true;
  }, 2, 20, 15);
  mon::distinct(rng.next());
}

// Whole checks: the counterexample lists the arguments and picks of the run
// that is reported, and that run is one the code really made last.
SECTION("checks", 300, 8000) {
  Obs o;
  g_obs = nullptr; // states differ between the cases of a check
  g_args = randomArgs(rng);
  const Prog p = randomProg(rng);
  const bool withArgs = rng.chance(1, 2);
  const unsigned mod = 2 + (unsigned)rng.below(12);
  auto runs = std::make_shared<std::vector<std::vector<std::string>>>();
  auto body = [=](std::vector<std::string> start) {
    auto t = runProg(p, "", std::move(start));
    runs->push_back(t);
    if (mon::hashStr(join(t)) % mod == 0 || t.size() > 3) RC_FAIL(join(t));
  };
  rc::detail::TestParams prm;
  prm.seed = rng.next();
  prm.maxSuccess = 60;
  prm.maxSize = (int)rng.below(40);
  struct Quiet : rc::detail::TestListener {
    void onTestCaseFinished(const rc::detail::CaseDescription &) override {}
    void onShrinkTried(const rc::detail::CaseDescription &, bool) override {}
    void onTestFinished(const rc::detail::TestMetadata &, const rc::detail::TestResult &) override {}
  } quiet;
  rc::detail::TestResult res = withArgs
      ? rc::detail::checkProperty(rc::detail::toProperty([=](ArgA a, ArgB b) { body({"(" + a.t + ", " + b.t + ")"}); }), rc::detail::TestMetadata(), prm, quiet, {})
      : rc::detail::checkProperty(rc::detail::toProperty([=] { body({}); }), rc::detail::TestMetadata(), prm, quiet, {});
  rc::detail::FailureResult f;
  mon::count("whole_checks");
  if (!res.match(f)) return;
  std::string vals;
  for (auto &kv : f.counterExample) vals += kv.second + ";";
  CHECK(f.description.find(vals) != std::string::npos, "counterexample-values", "lists " << vals << " but the reported run was " << f.description);
  bool ran = false;
  for (auto &t : *runs) ran = ran || join(t) == vals;
  CHECK(ran, "counterexample-run", "no run picked " << vals);
  mon::count("counterexamples");
  mon::distinctStr(vals);
}

// Very many picks: shrinks of late ones, and programs whose length is picked.
SECTION("long", 60, 900) {
  const int n = rng.chance(1, 8) ? 257 + (int)rng.below(200) : 60 + (int)rng.below(90);
  const bool dep = rng.chance(1, 2), property = rng.chance(1, 2);
  const uint64_t h = rng.next();
  // pick i is in [0, 4); with dep, later ranges depend on the sum so far
  auto width = [=](size_t i, int sum) { return 2 + (int)(mon::comb(h, mon::comb(i, dep ? sum / 8 : 0)) % 6); };
  std::vector<int> lastRun;
  auto run = [&](std::vector<int> &out) {
    int sum = 0;
    for (int i = 0; i < n; i++) { const int v = *gen::inRange(0, width(i, sum)); out.push_back(v); sum += v; }
  };
  const Random random(rng.next());
  Gen<std::vector<int>> g = gen::exec([=] { std::vector<int> v; int sum = 0; for (int i = 0; i < n; i++) { const int x = *gen::inRange(0, width(i, sum)); v.push_back(x); sum += x; } return v; });
  if (property) {
    auto slot = std::make_shared<std::vector<int>>();
    const auto prop = rc::detail::toProperty([=] { slot->clear(); int sum = 0; for (int i = 0; i < n; i++) { const int x = *gen::inRange(0, width(i, sum)); slot->push_back(x); sum += x; } });
    g = Gen<std::vector<int>>([=](const Random &r, int size) {
      return shrinkable::map(prop(r, size), [=](const rc::detail::CaseDescription &d) {
        std::vector<int> v;
        for (auto &e : d.example()) v.push_back(std::stoi(e.second));
        return v;
      });
    });
  }
  (void)run;
  Shrinkable<std::vector<int>> s = g(random, 100);
  std::vector<int> p = s.value();
  auto check = [&](const std::vector<int> &v) {
    if ((int)v.size() != n) return false;
    int sum = 0;
    for (int i = 0; i < n; i++) { if (v[i] < 0 || v[i] >= width(i, sum)) return false; sum += v[i]; }
    return true;
  };
  REQUIRE_(check(p), "long.value", n << " picks gave " << p.size());
  for (int hop = 0; hop < 2; hop++) {
    std::map<size_t, std::vector<int>> at; // pick shrunk -> values
    std::vector<Shrinkable<std::vector<int>>> kids;
    auto q = s.shrinks();
    for (size_t k = 0;; k++) {
      REQUIRE_(k < (size_t)n * 12, "long.endless", "too many shrinks of " << n << " picks");
      auto x = q.next();
      if (!x) break;
      const auto v = x->value();
      REQUIRE_(check(v), "long.value", "a shrink of " << n << " picks does not fit the program");
      const size_t i = std::mismatch(v.begin(), v.end(), p.begin()).first - v.begin();
      REQUIRE_(i < v.size() && v[i] < p[i], "long.shrunk", "shrink " << k << ": pick " << i << " of " << n << " became " << (i < v.size() ? v[i] : -1) << " from " << (i < p.size() ? p[i] : -1));
      if (!dep) REQUIRE_(std::equal(v.begin() + i + 1, v.end(), p.begin() + i + 1), "long.others", "shrinking pick " << i << " of " << n << " changed an unrelated later pick");
      at[i].push_back(v[i]);
      if (kids.size() < 2000) kids.push_back(std::move(*x));
      mon::count("long_shrinks");
    }
    for (int i = 0; i < n; i++) {
      // picks before this program's fixed part are not shrunk again after a later one was
      if (p[i] > 0 && hop == 0) CHECK(at.count(i) && at[i].size() >= 1, "long.missing", "pick " << i << " of " << n << ", with value " << p[i] << ", has no shrinks");
    }
    mon::distinct(mon::comb(h, mon::comb(hop, kids.size())));
    if (kids.empty()) break;
    s = kids[kids.size() - 1 - rng.below(std::min<size_t>(kids.size(), 40))];
    p = s.value();
  }
  if (n > 256) mon::count("programs_beyond_256_picks");
}
