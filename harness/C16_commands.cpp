// C16: generated command sequences are valid for the model, in every shrink.
#include "machine.hpp"
#include "tree.hpp"
using namespace rc;
using namespace machine;
using mon::Rng;

namespace {
using List = std::vector<Cm>;
std::string show(const List &l) {
  std::string s = "[";
  for (auto &c : l) s += text(c) + (c.path.empty() ? "" : "'" + c.path) + " ";
  return s + "]";
}
// index of the first command not allowed, or size
size_t firstInvalid(const Spec &sp, Core s, const List &l) {
  for (size_t i = 0; i < l.size(); i++) {
    if (!allowed(sp, l[i].kind, l[i].arg, s)) return i;
    perform(l[i].kind, l[i].arg, s);
  }
  return l.size();
}
// Can `child` come from `kept` (the parent's commands after a removal or a
// replacement) by keeping what is allowed and regenerating or dropping the rest?
bool repaired(const Spec &sp, Core s, const List &kept, const List &child, bool &regen, bool &dropped, size_t i = 0, size_t j = 0) {
  for (; i < kept.size(); i++) {
    const Cm &e = kept[i];
    if (allowed(sp, e.kind, e.arg, s)) {
      if (j >= child.size() || !(child[j] == e)) return false;
      perform(e.kind, e.arg, s);
      j++;
      continue;
    }
    if (j < child.size() && child[j].path.empty() && child[j].genState == s.hash() && allowed(sp, child[j].kind, child[j].arg, s)) {
      Core t = s;
      perform(child[j].kind, child[j].arg, t);
      if (repaired(sp, t, kept, child, regen, dropped, i + 1, j + 1)) { regen = true; return true; }
    }
    dropped = true;
  }
  return j == child.size();
}
bool isShrinkOf(const Cm &a, const Cm &of) {
  for (auto &x : shrinksOf(of)) if (x == a) return true;
  return false;
}
// Explains an edge of the shrink tree; "" if it can be explained.
std::string explain(const Spec &sp, const Core &s0, const List &p, const List &c) {
  bool regen = false, dropped = false;
  for (size_t l = 0; l <= p.size(); l++)
    for (size_t r = l + 1; r <= p.size(); r++) {
      List kept(p.begin(), p.begin() + l);
      kept.insert(kept.end(), p.begin() + r, p.end());
      regen = dropped = false;
      if (repaired(sp, s0, kept, c, regen, dropped)) {
        mon::count("removal_edges");
        if (regen) mon::count("edges_with_regenerated_commands");
        if (dropped) mon::count("edges_with_dropped_commands");
        return "";
      }
    }
  Core s = s0;
  for (size_t i = 0; i < p.size(); i++) {
    for (auto &x : shrinksOf(p[i]))
      if (allowed(sp, x.kind, x.arg, s)) {
        List kept = p;
        kept[i] = x;
        regen = dropped = false;
        if (repaired(sp, s0, kept, c, regen, dropped)) {
          mon::count("replacement_edges");
          if (regen) mon::count("edges_with_regenerated_commands");
          if (dropped) mon::count("edges_with_dropped_commands");
          return "";
        }
      }
    perform(p[i].kind, p[i].arg, s);
  }
  return show(p) + " cannot shrink to " + show(c);
}
template <typename Model> List dataOf(const state::Commands<state::Command<Model, Sut>> &cmds) {
  List l;
  for (auto &c : cmds) l.push_back(data<Model>(c));
  return l;
}

template <typename Model> void oneTree(Rng &rng, bool callable) {
  const Spec sp = randomSpec(rng);
  const Core s0 = randomCore(rng);
  const int size = rng.chance(1, 12) ? 40 : (int)rng.below(10);
  const Random random(rng.next());
  Log lg;
  log() = &lg;
  auto mk = [=] { Model m; machine::make(s0, m); return m; };
  auto g = state::gen::commands(mk, GenFunc<Model>{sp});
  (void)callable;
  const auto root = g(random, size);
  std::string ctx = describe(sp) + " size " + std::to_string(size) + ": ";
  List first;
  try {
    first = dataOf<Model>(root.value());
  } catch (const GenerationFailure &) {
    mon::count("ungeneratable_sequences");
    CHECK(lg.sameStateRefusals >= 20, "gave-up-early", ctx << "gave up after " << lg.sameStateRefusals << " refused commands in one state");
    log() = nullptr;
    return;
  }
  if (lg.refused) mon::count("sequences_with_retries");
  mon::count("commands_refused_while_generating", lg.refused);
  log() = nullptr;
  REQUIRE_(first.size() >= 1 && first.size() <= (size_t)size + 1, "length", ctx << first.size() << " commands generated");
  {
    Core s = s0;
    for (auto &c : first) {
      CHECK(c.genState == s.hash() && c.path.empty(), "generated-for-another-state", ctx << text(c) << " in " << show(first));
      perform(c.kind, c.arg, s);
    }
  }
  mon::distinctStr(show(first));
  mon::sample(ctx + show(first));
  List parent;
  size_t nodes = 0;
  tree::walk(rng, root, [&](const state::Commands<state::Command<Model, Sut>> &v, const state::Commands<state::Command<Model, Sut>> *par, size_t, size_t) {
    const List l = dataOf<Model>(v);
    nodes++;
    const size_t bad = firstInvalid(sp, s0, l);
    REQUIRE_RET(bad == l.size(), "invalid", ctx << show(l) << ": command " << bad << " is not allowed there");
    CHECK(state::isValidSequence(v, mk), "isValidSequence", ctx << show(l) << " said to be invalid");
    if (par) {
      const List p = dataOf<Model>(*par);
      REQUIRE_RET(l.size() <= p.size(), "longer", ctx << show(p) << " shrinks to " << show(l));
      const auto why = explain(sp, s0, p, l);
      REQUIRE_RET(why.empty(), "edge", ctx << why);
    }
    return true;
  }, 2, 30, 25);
  mon::count("nodes_validated", nodes);
  mon::count("command_trees");

  // Completeness: every removal of a range, and every shrink of one command,
  // that leaves the rest allowed is offered.
  auto node = root;
  for (int hop = (int)rng.below(4); hop > 0; hop--) {
    std::vector<Shrinkable<state::Commands<state::Command<Model, Sut>>>> kids;
    auto q = node.shrinks();
    while (kids.size() < 20) { auto k = q.next(); if (!k) break; kids.push_back(std::move(*k)); }
    if (kids.empty()) break;
    node = kids[rng.below(kids.size())];
  }
  const List p = dataOf<Model>(node.value());
  if (p.size() > 9) return;
  std::vector<List> kids;
  auto q = node.shrinks();
  while (kids.size() < 3000) { auto k = q.next(); if (!k) break; kids.push_back(dataOf<Model>(k->value())); }
  auto offered = [&](const List &l) { for (auto &k : kids) if (k == l) return true; return false; };
  for (size_t l = 0; l < p.size(); l++)
    for (size_t r = l + 1; r <= p.size(); r++) {
      List rest(p.begin(), p.begin() + l);
      rest.insert(rest.end(), p.begin() + r, p.end());
      if (firstInvalid(sp, s0, rest) != rest.size()) continue;
      CHECK(offered(rest), "removal-not-offered", ctx << show(p) << " is not shrunk to " << show(rest));
      mon::count("removals_expected");
    }
  for (size_t i = 0; i < p.size(); i++)
    for (auto &x : shrinksOf(p[i])) {
      List rest = p;
      rest[i] = x;
      if (firstInvalid(sp, s0, rest) != rest.size()) continue;
      CHECK(offered(rest), "command-shrink-not-offered", ctx << show(p) << " is not shrunk to " << show(rest));
      mon::count("command_shrinks_expected");
    }
}
} // namespace

SECTION("copyable", 1200, 30000) { oneTree<Core>(rng, false); }
SECTION("uncopyable", 500, 10000) { oneTree<Uncopyable>(rng, true); }

// The initial state given as a value, judged through the same machine.
SECTION("by-value", 300, 5000) {
  const Spec sp = randomSpec(rng);
  const Core s0 = randomCore(rng);
  const int size = (int)rng.below(12);
  const auto a = state::gen::commands(s0, GenFunc<Core>{sp});
  const auto b = state::gen::commands([=] { return s0; }, GenFunc<Core>{sp});
  const Random random(rng.next());
  const auto ta = a(random, size), tb = b(random, size);
  size_t budget = 12;
  try {
    const auto d = tree::compare(
        rng, ta, tb, [](const state::Commands<state::Command<Core, Sut>> &x, const state::Commands<state::Command<Core, Sut>> &y) { return dataOf<Core>(x) == dataOf<Core>(y); },
        [](const state::Commands<state::Command<Core, Sut>> &x) { return show(dataOf<Core>(x)); }, budget, 25);
    CHECK(d.empty(), "by-value", describe(sp) << ": " << d);
    mon::count("value_trees");
  } catch (const GenerationFailure &) {
  }
  mon::distinct(rng.next());
}

// Validity of arbitrary sequences.
SECTION("isValid", 1500, 30000) {
  const Spec sp = randomSpec(rng);
  const Core s0 = randomCore(rng);
  List l;
  state::Commands<state::Command<Core, Sut>> cmds;
  Core s = s0;
  for (int n = (int)rng.below(10); n > 0; n--) {
    Cm c;
    for (int t = (int)rng.below(10); t >= 0; t--) {
      c.kind = (int)rng.below(kKinds);
      c.arg = (int)rng.below(12);
      if (allowed(sp, c.kind, c.arg, s)) break;
    }
    if (allowed(sp, c.kind, c.arg, s)) perform(c.kind, c.arg, s);
    l.push_back(c);
    cmds.push_back(std::make_shared<Cmd<Core>>(c, sp));
    const bool single = allowed(sp, c.kind, c.arg, s);
    CHECK(state::isValidCommand(*cmds.back(), s) == single, "isValidCommand", text(c));
    if (!single) { // more commands after it, never looked at
      for (int k = (int)rng.below(3); k > 0; k--) { Cm d; d.kind = (int)rng.below(kKinds); l.push_back(d); cmds.push_back(std::make_shared<Cmd<Core>>(d, sp)); }
      break;
    }
  }
  const bool want = firstInvalid(sp, s0, l) == l.size();
  CHECK(state::isValidSequence(cmds, s0) == want, "isValidSequence", describe(sp) << show(l) << " is " << (want ? "valid" : "invalid"));
  CHECK(state::isValidSequence(cmds, [=] { return s0; }) == want, "isValidSequence", describe(sp) << show(l));
  mon::count(want ? "valid_sequences_judged" : "invalid_sequences_judged");
  if (want) {
    Core m = s0, w = s0;
    state::applyAll(cmds, m);
    for (auto &c : l) perform(c.kind, c.arg, w);
    CHECK(m == w, "applyAll", show(l));
    if (!l.empty()) {
      Core before = s0;
      const Core after = cmds[0]->nextState(before);
      Core w1 = s0;
      perform(l[0].kind, l[0].arg, w1);
      CHECK(after == w1 && before == s0, "nextState", text(l[0]));
    }
  }
  mon::distinctStr(show(l));
}

// Commands made by their constructors.
namespace {
struct Reg { // registers 0..3, values >= 0
  std::vector<int> r = {0, 0, 0, 0};
  bool locked = false;
  bool operator==(const Reg &o) const { return r == o.r && locked == o.locked; }
};
struct RSut {};
using RCmd = state::Command<Reg, RSut>;
struct Base : RCmd {
  virtual bool ok(const Reg &) const = 0;
  virtual void go(Reg &) const = 0;
  void checkPreconditions(const Reg &s) const override { RC_PRE(ok(s)); }
  void apply(Reg &s) const override { go(s); }
};
struct Inc : Base {
  int i = *gen::inRange(0, 4), by = *gen::inRange(1, 10);
  bool ok(const Reg &s) const override { return !s.locked && s.r[i] + by < 30; }
  void go(Reg &s) const override { s.r[i] += by; }
  void show(std::ostream &os) const override { os << "Inc(" << i << "," << by << ")"; }
};
struct Dec : Base { // picks from the state
  int i, by;
  explicit Dec(const Reg &s) {
    RC_PRE(!s.locked);
    i = *gen::distinctFrom(gen::inRange(0, 4), 3);
    RC_PRE(s.r[i] > 0);
    by = *gen::inRange(1, s.r[i] + 1);
  }
  bool ok(const Reg &s) const override { return !s.locked && s.r[i] >= by; }
  void go(Reg &s) const override { s.r[i] -= by; }
  void show(std::ostream &os) const override { os << "Dec(" << i << "," << by << ")"; }
};
struct Lock : Base {
  bool ok(const Reg &s) const override { return !s.locked; }
  void go(Reg &s) const override { s.locked = true; }
  void show(std::ostream &os) const override { os << "Lock"; }
};
struct Unlock : Base {
  bool ok(const Reg &s) const override { return s.locked; }
  void go(Reg &s) const override { s.locked = false; }
  void show(std::ostream &os) const override { os << "Unlock"; }
};
struct Move : Base {
  int a, b;
  Move(const Reg &s) {
    a = *gen::inRange(0, 4);
    const int from = a;
    const auto regs = s.r;
    b = *gen::suchThat(gen::inRange(0, 4), [=](int x) { return x != from && regs[x] == 0; });
  }
  bool ok(const Reg &s) const override { return !s.locked && s.r[a] > 0 && s.r[b] == 0; }
  void go(Reg &s) const override { std::swap(s.r[a], s.r[b]); }
  void show(std::ostream &os) const override { os << "Move(" << a << "," << b << ")"; }
};
using RCmds = state::Commands<RCmd>;
bool validR(const RCmds &c) {
  Reg s;
  for (auto &p : c) {
    auto &b = static_cast<const Base &>(*p);
    if (!b.ok(s)) return false;
    b.go(s);
  }
  return true;
}
std::string showR(const RCmds &c) {
  std::ostringstream os;
  for (auto &p : c) { p->show(os); os << ' '; }
  return os.str();
}
} // namespace
SECTION("execOneOf", 700, 12000) {
  const int size = (int)rng.below(14);
  const Random random(rng.next());
  const auto f = state::gen::execOneOfWithArgs<Inc, Dec, Lock, Unlock, Move>();
  const auto g = rng.chance(1, 2) ? state::gen::commands(Reg(), f) : state::gen::commands([] { return Reg(); }, [=](const Reg &r) { return f(r); });
  const auto root = g(random, size);
  const auto v0 = root.value();
  REQUIRE_(v0.size() >= 1 && v0.size() <= (size_t)size + 1, "length", v0.size() << " commands at size " << size);
  for (auto &p : v0) {
    if (dynamic_cast<const Inc *>(p.get())) mon::count("made_Inc");
    if (dynamic_cast<const Dec *>(p.get())) mon::count("made_Dec");
    if (dynamic_cast<const Lock *>(p.get())) mon::count("made_Lock");
    if (dynamic_cast<const Unlock *>(p.get())) mon::count("made_Unlock");
    if (dynamic_cast<const Move *>(p.get())) mon::count("made_Move");
  }
  tree::walk(rng, root, [&](const RCmds &v, const RCmds *par, size_t, size_t) {
    REQUIRE_RET(validR(v), "invalid", showR(v) << "is not valid" << (par ? ", shrunk from " + showR(*par) : std::string()));
    if (par) CHECK(v.size() <= par->size(), "longer", showR(*par) << "shrinks to " << showR(v));
    return true;
  }, 2, 30, 30);
  // Removing the whole sequence and each single command, when the rest stays valid.
  std::set<std::string> kids;
  auto q = root.shrinks();
  for (int i = 0; i < 1000; i++) { auto k = q.next(); if (!k) break; kids.insert(showR(k->value())); }
  for (size_t i = 0; i < v0.size() && kids.size() < 900; i++) {
    RCmds rest = v0;
    rest.erase(rest.begin() + i);
    if (!validR(rest)) continue;
    CHECK(kids.count(showR(rest)), "removal-not-offered", showR(v0) << "is not shrunk to " << showR(rest));
    mon::count("removals_expected");
  }
  mon::count("exec_trees");
  mon::distinctStr(showR(v0));
}
// Lengths: all from one to size plus one.
SECTION("lengths", 40, 400) {
  const int size = (int)rng.below(9);
  Spec sp;
  const auto g = state::gen::commands(Core(), GenFunc<Core>{sp});
  std::set<size_t> seen;
  for (int i = 0; i < 60 * (size + 1); i++) seen.insert(g(Random(rng.next()), size).value().size());
  CHECK(seen.size() == (size_t)size + 1 && *seen.begin() == 1 && *seen.rbegin() == (size_t)size + 1, "lengths", seen.size() << " different lengths at size " << size);
  mon::distinct(size);
}

// Preconditions checked in apply() (the old way): such a command is never part
// of a sequence either; the generator gives up. Anything else that apply()
// throws is no precondition and gets through.
namespace {
struct OldModel { int v = 0; };
struct OldSut { int v = 0; };
struct OldCmd : state::Command<OldModel, OldSut> {
  int need, how;
  OldCmd(int n, int h) : need(n), how(h) {}
  void apply(OldModel &m) const override {
    if (m.v % 7 < need) {
      if (how == 0) RC_PRE(m.v < 0);
      if (how == 1) RC_DISCARD("not here");
      if (how == 2) RC_FAIL("apply failed");
      if (how == 3) throw std::runtime_error("apply threw");
      if (how == 4) RC_SUCCEED("apply succeeded");
    }
    m.v += 1 + need;
  }
  void run(const OldModel &, OldSut &s) const override { s.v++; }
  void show(std::ostream &os) const override { os << "old " << need; }
};
using OldBase = state::Command<OldModel, OldSut>;
} // namespace
SECTION("apply-refuses", 2500, 50000) {
  const int how = (int)rng.below(5), most = 1 + (int)rng.below(5), size = (int)rng.below(20), per = 1 + (int)rng.below(30);
  const auto g = state::gen::commands(OldModel(), [=](const OldModel &) {
    return gen::map(gen::inRange(0, most * per), [=](int i) { return std::shared_ptr<const OldBase>(std::make_shared<OldCmd>(i % per == 0 ? i / per : 0, how)); });
  });
  int got = 0; // 0 a sequence, 1 failed to generate, 2 failure, 3 exception, 4 success
  std::string what;
  int nodes = 0;
  try {
    Shrinkable<state::Commands<OldBase>> s = g(Random(rng.next()), size);
    for (int d = 0; d < 12; d++) {
      OldModel m;
      const auto cmds = s.value();
      try { for (auto &c : cmds) c->apply(m); } catch (...) { CHECK(false, "apply-refused", "command " << m.v << " of a sequence of " << cmds.size() << " refuses to be applied, depth " << d); return; }
      nodes++;
      std::vector<Shrinkable<state::Commands<OldBase>>> kids;
      auto q = s.shrinks();
      for (int i = 0, n = 1 + (int)rng.below(30); i < n; i++) { auto k = q.next(); if (!k) break; kids.push_back(*k); }
      if (kids.empty()) break;
      s = kids[rng.below(kids.size())];
    }
  } catch (const GenerationFailure &e) { got = 1; what = e.what();
  } catch (const rc::detail::CaseResult &r) { got = r.type == rc::detail::CaseResult::Type::Failure ? 2 : r.type == rc::detail::CaseResult::Type::Success ? 4 : 5; what = r.description;
  } catch (const std::runtime_error &e) { got = 3; what = e.what(); }
  if (got == 0) { mon::count("apply_all_applied", nodes); return; }
  const int want = how < 2 ? 1 : how == 4 ? 4 : how;
  CHECK(got == want, "apply-outcome", "apply() refusing in way " << how << " ended generation as " << got << ": " << what);
  CHECK(what.find(how == 0 ? "m.v < 0" : how == 1 ? "not here" : how == 2 ? "apply failed" : how == 3 ? "apply threw" : "apply succeeded") != std::string::npos, "apply-message", "generation ended with " << what);
  mon::count("apply_refusals");
  mon::distinct(mon::comb(how, mon::comb(most, size)));
}

// Long sequences: the state in which a command stands decides, wherever it is.
namespace {
struct PosModel { int pos = 0; };
struct PosSut {};
struct PosCmd : state::Command<PosModel, PosSut> {
  int x;
  explicit PosCmd(int v) : x(v) {}
  void checkPreconditions(const PosModel &m) const override { RC_PRE(x >= m.pos / 16); }
  void apply(PosModel &m) const override { m.pos++; }
  void show(std::ostream &os) const override { os << "pos " << x; }
};
using PosBase = state::Command<PosModel, PosSut>;
using PosSP = std::shared_ptr<const PosBase>;
} // namespace
SECTION("long", 80, 600) {
  const bool isLong = rng.chance(1, 20);
  const int want = isLong ? 257 + (int)rng.below(12) : 1 + (int)rng.below(40);
  const auto g = state::gen::commands(PosModel(), [](const PosModel &m) {
    const int lo = m.pos / 16;
    return Gen<PosSP>([=](const Random &r, int) {
      const int v = lo + (int)(Random(r).next() % 12);
      return shrinkable::map(shrinkable::shrinkRecur(v, [](int x) { return seq::cast<int>(seq::takeWhile(seq::just(x / 2, x - 1), [=](int y) { return y >= 0 && y < x; })); }),
                             [](int x) { return PosSP(std::make_shared<PosCmd>(x)); });
    });
  });
  auto of = [](const state::Commands<PosBase> &c) { std::vector<int> v; for (auto &p : c) v.push_back(static_cast<const PosCmd &>(*p).x); return v; };
  auto t = [](const std::vector<int> &v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; };
  // a sequence about as long as wanted
  Maybe<Shrinkable<state::Commands<PosBase>>> root;
  for (int tries = 0; tries < 400 && !root; tries++) {
    auto s = g(Random(rng.next()), want + 20);
    if ((int)s.value().size() >= want) root = s;
  }
  if (!root) return;
  const std::vector<int> p = of(root->value());
  for (size_t i = 0; i < p.size(); i++) REQUIRE_(p[i] >= (int)i / 16, "long.invalid", "command " << i << " of " << t(p));
  const size_t n = p.size();
  auto q = root->shrinks();
  // Without any reason to repair, removals are exactly the ranges, each once.
  std::set<std::pair<size_t, size_t>> ranges;
  size_t seen = 0;
  std::vector<std::vector<int>> single; // expected: one command shrunk, still allowed
  for (size_t i = 0; i < n; i++)
    for (int y : {p[i] / 2, p[i] - 1}) {
      if (y < 0 || y >= p[i]) break;
      if (y >= (int)i / 16) { auto v = p; v[i] = y; single.push_back(v); }
    }
  size_t found = 0;
  for (;; seen++) {
    REQUIRE_(seen <= n * (n + 1) + 2 * n + 10, "long.endless", "too many shrinks of " << n << " commands");
    auto k = q.next();
    if (!k) break;
    const auto c = of(k->value());
    for (size_t i = 0; i < c.size(); i++) REQUIRE_(c[i] >= (int)i / 16, "long.invalid", "command " << i << " of the shrink " << t(c) << " of " << t(p));
    if (c.size() < n) {
      const size_t gone = n - c.size();
      const size_t l = std::mismatch(c.begin(), c.end(), p.begin()).first - c.begin();
      REQUIRE_(std::equal(c.begin() + l, c.end(), p.begin() + l + gone), "long.removal", t(p) << " was shrunk to " << t(c) << ", which is not a removal of a range");
      ranges.insert({l, gone});
    } else {
      REQUIRE_(c.size() == n && c != p, "long.same", t(p) << " was shrunk to " << t(c));
      const size_t i = std::mismatch(c.begin(), c.end(), p.begin()).first - c.begin();
      REQUIRE_(std::equal(c.begin() + i + 1, c.end(), p.begin() + i + 1) && (c[i] == p[i] / 2 || c[i] == p[i] - 1), "long.replacement", "at " << i << ": " << t(p) << " was shrunk to " << t(c));
      for (auto &e : single) if (e == c) { found++; e.clear(); break; }
    }
  }
  CHECK(found == single.size(), "long.replacement-missing", found << " of " << single.size() << " shrinks of single commands were offered for " << t(p));
  // every distinguishable single removal
  for (size_t i = 0; i < n; i++) {
    std::vector<int> v = p;
    v.erase(v.begin() + i);
    const size_t l = std::mismatch(v.begin(), v.end(), p.begin()).first - v.begin();
    CHECK(ranges.count({l, 1}), "long.removal-missing", "command " << i << " of " << t(p) << " is never removed");
  }
  if (n > 256) mon::count("sequences_beyond_256");
  mon::count("long_shrinks", seen);
  mon::distinctStr(t(p));
}
