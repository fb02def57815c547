// C05: shrinking is a greedy descent that ends in a local minimum.
#include "progs.hpp"
#include "rapidcheck/shrinkable/Operations.h"
using namespace progs;
using namespace rc::detail;

namespace {

const int S = (int)CaseResult::Type::Success, F = (int)CaseResult::Type::Failure, D = (int)CaseResult::Type::Discard;

struct Node {
  int type;
  std::vector<int> kids;
};
struct ETree {
  std::vector<Node> n;
  int lazyMode = 0;
};
using TP = std::shared_ptr<ETree>;

CaseDescription descOf(const TP &t, int id) {
  CaseDescription d;
  d.result = CaseResult((CaseResult::Type)t->n[id].type, "node " + std::to_string(id));
  if (id % 5 == 0) d.tags = {"tag" + std::to_string(id)};
  d.example = [id] { return Example{{"node", std::to_string(id)}}; };
  return d;
}

template <typename T, typename F2>
Shrinkable<T> toShrinkable(const TP &t, int id, const F2 &val) {
  // Three laziness styles over the same tree.
  switch (t->lazyMode) {
  case 0: {
    return shrinkable::lambda([=] { return val(id); }, [=] {
      return seq::map(seq::fromContainer(t->n[id].kids), [=](int k) { return toShrinkable<T>(t, k, val); });
    });
  }
  case 1: {
    std::vector<Shrinkable<T>> v;
    for (int k : t->n[id].kids)
      v.push_back(toShrinkable<T>(t, k, val));
    return shrinkable::just(val(id), seq::fromContainer(v));
  }
  default: {
    return shrinkable::map(shrinkable::shrinkRecur(id, [=](int i) { return seq::fromContainer(t->n[i].kids); }), val);
  }
  }
}

TP randomTree(mon::Rng &r, int maxNodes) {
  auto t = std::make_shared<ETree>();
  const int shape = r.below(5);
  int n = 1 + r.below(maxNodes);
  if (shape == 0) n = 1 + r.below(6);
  t->lazyMode = r.below(3);
  const unsigned pf = 5 + r.below(95), pd = r.below(30);
  for (int i = 0; i < n; i++) {
    Node x;
    x.type = r.chance(pf, 100) ? F : r.chance(pd, 100) ? D : S;
    t->n.push_back(x);
    if (i > 0) {
      int parent;
      if (shape == 1) parent = std::max(0, i - 1 - (int)r.below(3)); // deep
      else if (shape == 2) parent = r.below(std::min(i, 4));         // bushy
      else parent = r.below(i);
      t->n[parent].kids.push_back(i);
    }
  }
  for (auto &x : t->n) // insertion order is not the tried order
    for (size_t i = x.kids.size(); i > 1; i--)
      std::swap(x.kids[i - 1], x.kids[r.below(i)]);
  t->n[0].type = F;
  return t;
}

} // namespace

SECTION("explicit-trees", 3000, 60000) {
  TP t = randomTree(rng, rng.chance(1, 10) ? 2000 : 60);
  if (t->lazyMode == 1 && t->n.size() > 300) t->lazyMode = 0;
  TestParams p;
  p.seed = rng.next();
  p.maxSuccess = 1 + rng.below(5);
  p.disableShrinking = rng.chance(1, 10);
  const int failAt = rng.below(p.maxSuccess);
  int n = 0;
  Property prop([&](const Random &, int) {
    if (n++ < failAt) {
      CaseDescription ok;
      ok.result = CaseResult(CaseResult::Type::Success, "ok");
      return shrinkable::just(ok);
    }
    return toShrinkable<CaseDescription>(t, 0, [t](int id) { return descOf(t, id); });
  });
  Recorder rec;
  const auto res = runCheck(prop, p, rec);

  // Model.
  std::vector<std::string> want;
  std::vector<std::size_t> path;
  int cur = 0;
  if (!p.disableShrinking)
    for (bool moved = true; moved;) {
      moved = false;
      for (size_t i = 0; i < t->n[cur].kids.size(); i++) {
        const int k = t->n[cur].kids[i];
        want.push_back((t->n[k].type == F ? "A" : "S") + std::string("node ") + std::to_string(k));
        if (t->n[k].type == F) {
          path.push_back(i);
          cur = k;
          moved = true;
          break;
        }
      }
    }
  std::vector<std::string> got;
  for (auto &e : rec.ev)
    if (e.kind == 'S' || e.kind == 'A') {
      got.push_back(std::string(1, e.kind) + e.desc);
      const int id = std::atoi(e.desc.c_str() + 5);
      CHECK(e.type == t->n[id].type, "shrink-event-type-wrong", e.desc);
    }
  std::ostringstream ctx;
  ctx << "tree of " << t->n.size() << " nodes, lazy mode " << t->lazyMode << ", noshrink " << p.disableShrinking
      << "; tried " << got.size() << " expected " << want.size() << "; expected end node " << cur << " path length "
      << path.size() << "; got " << showResult(res).substr(0, 300);
  CHECK(got == want, "shrinks-tried-differ", ctx.str());
  FailureResult f;
  REQUIRE_(res.match(f), "no-failure-reported", ctx.str());
  CHECK(f.description == "node " + std::to_string(cur), "reported-case-not-the-last-adopted", ctx.str());
  CHECK((f.counterExample == Example{{"node", std::to_string(cur)}}), "counterexample-not-of-reported-case", ctx.str());
  CHECK(f.reproduce.shrinkPath == path, "path-wrong", ctx.str() << " path " << toString(f.reproduce.shrinkPath));
  CHECK(f.numSuccess == failAt, "count-wrong", ctx.str());
  mon::count("shrinks_tried", got.size());
  mon::count("shrinks_adopted", path.size());
  if (path.size() > 1) mon::count("descents_longer_than_one");
  std::string sig;
  for (auto &g : got) sig += g;
  mon::distinctStr(sig);
  mon::sample(ctx.str());
}

SECTION("deep-descent", 6, 60) {
  // Very long paths: no recursion limit, exact indices.
  const int depth = 5000 + rng.below(15000);
  const int before = rng.below(4);
  Property prop([&](const Random &, int) {
    return shrinkable::map(
        shrinkable::shrinkRecur(depth * 8,
                                [=](int x) {
                                  // `before` passing shrinks, then a failing one, then more
                                  std::vector<int> v;
                                  for (int i = 0; i < before; i++) v.push_back(x | 1);
                                  if (x % 8 == 0 && x > 0) v.push_back(x - 8);
                                  v.push_back(x | 3);
                                  return x % 8 ? Seq<int>() : seq::fromContainer(v);
                                }),
        [](int x) {
          CaseDescription d;
          d.result = CaseResult(x % 8 ? CaseResult::Type::Success : CaseResult::Type::Failure, std::to_string(x));
          d.example = [] { return Example(); };
          return d;
        });
  });
  TestParams p;
  Recorder rec;
  const auto res = runCheck(prop, p, rec);
  FailureResult f;
  REQUIRE_(res.match(f), "no-failure-reported", "deep");
  CHECK(f.description == "0" && f.reproduce.shrinkPath == std::vector<std::size_t>(depth, before), "deep-path-wrong",
        "depth " << depth << " got " << f.reproduce.shrinkPath.size() << " " << f.description);
  mon::count("shrinks_adopted", depth);
  mon::distinct(depth * 4 + before);
}

// Many shrinks at each step, the failing one (if any) anywhere among them.
SECTION("wide", 60, 1500) {
  const int levels = rng.below(5);
  std::vector<uint64_t> width, at;
  for (int i = 0; i <= levels; i++) {
    width.push_back(i < levels || rng.chance(1, 2) ? 1 + (rng.next() >> 1) % (1ULL << (1 + rng.below(rng.chance(1, 20) ? 18 : 14))) : 0);
    at.push_back(i < levels ? (rng.chance(1, 3) ? width[i] - 1 : rng.next() % width[i]) : width[i]);
  }
  const auto discards = rng.below(3);
  uint64_t tried = 0;
  struct N { int level; bool fails; uint64_t i; };
  Property prop([&](const Random &, int) {
    return shrinkable::map(shrinkable::shrinkRecur(N{0, true, 0},
                                                   [=](const N &n) {
                                                     const int l = n.level;
                                                     if (!n.fails) return Seq<N>();
                                                     return seq::map(seq::range<uint64_t>(0, width[l]), [=](uint64_t i) { return N{l + 1, i == at[l] && l < levels, i}; });
                                                   }),
                           [&](const N &n) {
                             tried++;
                             CaseDescription d;
                             d.result = CaseResult(n.fails ? CaseResult::Type::Failure : n.i % 3 < discards ? CaseResult::Type::Discard : CaseResult::Type::Success, std::to_string(n.level) + ":" + std::to_string(n.i));
                             d.example = [] { return Example(); };
                             return d;
                           });
  });
  TestParams p;
  Recorder rec;
  const auto res = runCheck(prop, p, rec);
  std::vector<std::size_t> path(at.begin(), at.end() - 1);
  uint64_t want = width[levels];
  for (auto i : path) want += i + 1;
  FailureResult f;
  REQUIRE_(res.match(f), "no-failure-reported", "wide");
  std::ostringstream ctx;
  ctx << "widths " << toString(width) << " failing at " << toString(path) << "; reported path " << toString(f.reproduce.shrinkPath) << ", " << rec.ev.size() << " events";
  CHECK(f.reproduce.shrinkPath == path, "path-wrong", ctx.str());
  CHECK(f.description == std::to_string(levels) + ":" + std::to_string(levels ? at[levels - 1] : 0), "reported-case-not-the-last-adopted", ctx.str() << " " << f.description);
  uint64_t S = 0, Ad = 0;
  for (auto &e : rec.ev) { S += e.kind == 'S'; Ad += e.kind == 'A'; }
  CHECK(Ad == path.size() && S + Ad == want, "shrinks-tried-differ", ctx.str() << " expected " << want << " tried " << S + Ad);
  mon::count("shrinks_tried", S + Ad);
  mon::count("shrinks_adopted", Ad);
  if (want > 1000) mon::count("searches_of_over_1000_shrinks");
  mon::distinctStr(toString(width) + toString(path));
}

SECTION("tree-operations", 1500, 20000) {
  // walkPath / findLocalMin / all / immediateShrinks on explicit trees.
  TP t = randomTree(rng, 50);
  auto val = [t](int id) { return id; };
  const auto s = toShrinkable<int>(t, 0, val);
  std::vector<std::size_t> path;
  int cur = 0;
  bool valid = true;
  while (rng.chance(4, 5)) {
    const size_t nk = t->n[cur].kids.size();
    size_t i = rng.below(nk + 1);
    path.push_back(i);
    if (i < nk) cur = t->n[cur].kids[i];
    else { valid = false; break; }
  }
  if (!valid && rng.chance(1, 2)) path.push_back(rng.below(3));
  const auto w = shrinkable::walkPath(s, path);
  CHECK(bool(w) == valid, "walkPath-validity", toString(path));
  if (w && valid) CHECK(w->value() == cur, "walkPath-node", toString(path) << " got " << w->value() << " want " << cur);
  // findLocalMin adopts the first matching shrink, repeatedly.
  cur = 0;
  size_t steps = 0;
  for (bool moved = true; moved;) {
    moved = false;
    for (int k : t->n[cur].kids)
      if (t->n[k].type == F) { cur = k; steps++; moved = true; break; }
  }
  const auto m = shrinkable::findLocalMin(s, [t](int id) { return t->n[id].type == F; });
  CHECK(m.first == cur && m.second == steps, "findLocalMin-wrong", "got " << m.first << "/" << m.second << " want " << cur << "/" << steps);
  std::vector<int> seen;
  std::vector<int> pre, *pp = &pre;
  std::function<void(int)> visit = [&](int id) { pp->push_back(id); for (int k : t->n[id].kids) visit(k); };
  visit(0);
  const int stopAt = rng.below(pre.size() + 3);
  const bool all = shrinkable::all(s, [&](const Shrinkable<int> &x) { seen.push_back(x.value()); return (int)seen.size() != stopAt; });
  const bool wantAll = stopAt == 0 || stopAt > (int)pre.size();
  CHECK(all == wantAll, "all-wrong", "stop " << stopAt << " of " << pre.size());
  if (!wantAll) pre.resize(stopAt);
  CHECK(seen == pre, "all-not-depth-first", "visited " << seen.size());
  std::vector<int> imm;
  auto q = shrinkable::immediateShrinks(s);
  while (auto x = q.next()) imm.push_back(*x);
  CHECK(imm == t->n[0].kids, "immediateShrinks-wrong", "");
  mon::count("tree_operations", 4);
  mon::distinct(mon::hashBytes(path.data(), path.size() * sizeof(size_t), t->n.size()));
}

SECTION("real-properties", 300, 4000) {
  // Through the whole stack: the reported case is a local minimum of its own
  // tree, its path prefixes all fail, and everything skipped passed.
  const Spec sp = randomSpec(rng, true);
  TestParams p = randomParams(rng);
  p.maxSuccess = 60;
  p.disableShrinking = rng.chance(1, 12);
  const auto prop = make(sp);
  Recorder rec;
  const auto res = runCheck(prop, p, rec);
  FailureResult f;
  if (!res.match(f)) {
    mon::count("runs_without_failure");
    return;
  }
  std::ostringstream ctx;
  ctx << describe(sp) << " params " << p << "; " << showResult(res).substr(0, 400);
  Shrinkable<CaseDescription> cur = prop(f.reproduce.random, f.reproduce.size);
  auto d = cur.value();
  CHECK(d.result.type == CaseResult::Type::Failure, "root-not-failing", ctx.str());
  size_t tried = 0;
  for (auto i : f.reproduce.shrinkPath) {
    auto q = cur.shrinks();
    for (size_t k = 0; k <= i; k++) {
      auto s = q.next();
      REQUIRE_(bool(s), "path-does-not-exist", ctx.str());
      tried++;
      const auto ty = s->value().result.type;
      if (k < i)
        CHECK(ty != CaseResult::Type::Failure, "skipped-a-failing-shrink", ctx.str());
      else {
        CHECK(ty == CaseResult::Type::Failure, "adopted-a-non-failing-shrink", ctx.str());
        cur = *s;
      }
    }
  }
  d = cur.value();
  CHECK(d.result.description == f.description, "description-not-of-minimum", ctx.str());
  CHECK(d.example() == f.counterExample, "counterexample-not-of-minimum", ctx.str());
  if (p.disableShrinking)
    CHECK(f.reproduce.shrinkPath.empty(), "shrunk-although-disabled", ctx.str());
  else {
    auto q = cur.shrinks();
    while (auto s = q.next()) {
      tried++;
      CHECK(s->value().result.type != CaseResult::Type::Failure, "not-a-local-minimum",
            ctx.str() << " ; failing shrink: " << s->value().result.description);
    }
    size_t evs = 0;
    for (auto &e : rec.ev)
      evs += e.kind == 'S' || e.kind == 'A';
    CHECK(evs == tried, "number-of-shrinks-tried-wrong", ctx.str() << " events " << evs << " tree " << tried);
  }
  mon::count("real_failures_shrunk");
  mon::count("shrinks_tried", tried);
  mon::count("shrinks_adopted", f.reproduce.shrinkPath.size());
  mon::distinctStr(f.description + toString(f.reproduce.shrinkPath));
  mon::sample(ctx.str());
}
