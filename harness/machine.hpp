// A random state machine for stateful testing, with its own notion of when a
// command is allowed and what it does. Commands carry where they came from.
#pragma once
#include "mon.hpp"
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <memory>

namespace machine {
using namespace rc;

struct Spec {
  uint64_t h = 0;
  unsigned extraPre = 0; // one in so many (command, state) pairs is forbidden; 0 never
  unsigned stuck = 0;    // one in so many states allows nothing; 0 never
  int limit = 5;
  unsigned failGen = 0;  // one in so many generations fails
  unsigned discardGen = 0;
  bool hint = true;      // the generator looks at the state
  bool lazyFail = false; // failing when the value is asked for, not before
};
static const int kKinds = 8;

// The system modelled.
struct Core {
  int v = 0;
  std::vector<int> stack;
  std::set<int> open;
  uint64_t steps = 0;
  uint64_t hash() const {
    uint64_t x = mon::comb(v, stack.size());
    for (int s : stack) x = mon::comb(x, s);
    for (int s : open) x = mon::comb(x, 1000 + s);
    return x;
  }
};
inline bool operator==(const Core &a, const Core &b) { return a.v == b.v && a.stack == b.stack && a.open == b.open && a.steps == b.steps; }

inline bool allowed(const Spec &sp, int kind, int arg, const Core &s) {
  if (sp.stuck && mon::comb(sp.h, s.hash()) % sp.stuck == 0) return false;
  if (sp.extraPre && mon::comb(mon::comb(sp.h, kind * 100 + arg), s.hash()) % sp.extraPre == 0) return false;
  switch (kind) {
  case 0: return true; // nop
  case 1: return (int)s.stack.size() < sp.limit;
  case 2: return !s.stack.empty();
  case 3: return s.v + arg <= 9;
  case 4: return s.v > 0;
  case 5: return !s.open.count(arg % 4);
  case 6: return s.open.count(arg % 4) != 0;
  default: return !s.stack.empty() && s.stack.back() < 50;
  }
}
inline void perform(int kind, int arg, Core &s) {
  s.steps++;
  switch (kind) {
  case 0: break;
  case 1: s.stack.push_back(arg); break;
  case 2: s.stack.pop_back(); break;
  case 3: s.v += arg; break;
  case 4: s.v = 0; break;
  case 5: s.open.insert(arg % 4); break;
  case 6: s.open.erase(arg % 4); break;
  default: s.stack.back() *= 2; break;
  }
}

struct Cm { // a command as data
  int kind = 0, arg = 0;
  uint64_t genState = 0, genRandom = 0; // the state and randomness it was generated in
  std::string path;                      // shrinks taken since
};
inline bool operator==(const Cm &a, const Cm &b) {
  return a.kind == b.kind && a.arg == b.arg && a.genState == b.genState && a.genRandom == b.genRandom && a.path == b.path;
}
inline std::string text(const Cm &c) { return "c" + std::to_string(c.kind) + "(" + std::to_string(c.arg) + ")"; }
inline std::vector<Cm> shrinksOf(const Cm &c) {
  std::vector<Cm> out;
  auto add = [&](int k, int a) {
    Cm x = c;
    x.kind = k;
    x.arg = a;
    x.path += char('a' + out.size());
    out.push_back(x);
  };
  if (c.arg > 0) add(c.kind, 0);
  if (c.arg > 2) add(c.kind, c.arg / 2);
  if (c.arg > 0) add(c.kind, c.arg - 1);
  if (c.kind > 0) add(0, c.arg);
  if (c.kind > 1) add(c.kind - 1, c.arg);
  return out;
}

struct Sut;
struct Log {
  std::vector<std::string> ev;
  uint64_t attempts = 0, refused = 0, generated = 0;
  uint64_t lastState = 0;
  uint64_t sameStateRefusals = 0;
};
inline Log *&log() {
  static Log *l = nullptr;
  return l;
}

// Model is Core or an uncopyable holder of it.
struct Uncopyable {
  std::unique_ptr<Core> c;
  explicit Uncopyable(Core x = Core()) : c(new Core(std::move(x))) {}
};
inline const Core &core(const Core &c) { return c; }
inline Core &core(Core &c) { return c; }
inline const Core &core(const Uncopyable &u) { return *u.c; }
inline Core &core(Uncopyable &u) { return *u.c; }
inline void make(const Core &c, Core &out) { out = c; }
inline void make(const Core &c, Uncopyable &out) { out = Uncopyable(c); }

struct Sut {
  Core c;
  std::function<std::string(const Cm &, const Core &before, Core &sys)> deviate; // non-empty result: failure
};

template <typename Model> struct Cmd : state::Command<Model, Sut> {
  Cm cm;
  Spec sp;
  Cmd(Cm c, Spec s) : cm(std::move(c)), sp(s) {}
  void checkPreconditions(const Model &m) const override {
    if (log()) log()->ev.push_back("pre " + text(cm) + " " + std::to_string(core(m).hash()) + " " + std::to_string(core(m).steps));
    RC_PRE(allowed(sp, cm.kind, cm.arg, core(m)));
  }
  void apply(Model &m) const override {
    if (log()) log()->ev.push_back("apply " + text(cm) + " " + std::to_string(core(m).hash()) + " " + std::to_string(core(m).steps));
    perform(cm.kind, cm.arg, core(m));
  }
  void run(const Model &m, Sut &sut) const override {
    if (log()) log()->ev.push_back("run " + text(cm) + " " + std::to_string(core(m).hash()) + " " + std::to_string(core(m).steps));
    if (sut.deviate) {
      const auto why = sut.deviate(cm, core(m), sut.c);
      if (!why.empty()) RC_FAIL(why);
    } else {
      perform(cm.kind, cm.arg, sut.c);
    }
    auto want = core(m);
    perform(cm.kind, cm.arg, want);
    RC_ASSERT(sut.c == want);
  }
  void show(std::ostream &os) const override { os << text(cm); }
};
template <typename Model> using CmdSP = std::shared_ptr<const state::Command<Model, Sut>>;
template <typename Model> const Cm &data(const CmdSP<Model> &p) { return static_cast<const Cmd<Model> &>(*p).cm; }

// The generation function.
template <typename Model> struct GenFunc {
  Spec sp;
  Gen<CmdSP<Model>> operator()(const Model &m) const {
    const Core s = core(m);
    const Spec spec = sp;
    return Gen<CmdSP<Model>>([=](const Random &random, int) -> Shrinkable<CmdSP<Model>> {
      Random r = random;
      mon::Rng g(r.next());
      Cm c;
      c.genState = s.hash();
      c.genRandom = mon::hashStr(toString(random));
      c.kind = (int)g.below(kKinds);
      c.arg = (int)g.below(12);
      if (spec.hint && g.chance(1, 2))
        for (int i = 0; i < 5 && !allowed(spec, c.kind, c.arg, s); i++) { c.kind = (int)g.below(kKinds); c.arg = (int)g.below(12); }
      const bool fail = spec.failGen && g.below(spec.failGen) == 0, discard = spec.discardGen && g.below(spec.discardGen) == 0;
      if (log()) {
        log()->attempts++;
        const bool bad = fail || discard || !allowed(spec, c.kind, c.arg, s);
        if (c.genState == log()->lastState && bad) log()->sameStateRefusals++;
        else log()->sameStateRefusals = bad;
        log()->lastState = c.genState;
        if (bad) log()->refused++;
        else log()->generated++;
      }
      auto refuse = [=] {
        if (fail) throw GenerationFailure("cannot be generated");
        if (discard) RC_DISCARD("not here");
      };
      if (!spec.lazyFail) refuse();
      return shrinkable::map(shrinkable::shrinkRecur(c, [](const Cm &x) { return seq::fromContainer(shrinksOf(x)); }),
                             [=](Cm x) -> CmdSP<Model> {
                               if (spec.lazyFail) refuse();
                               return std::make_shared<Cmd<Model>>(std::move(x), spec);
                             });
    });
  }
};

inline Spec randomSpec(mon::Rng &rng) {
  Spec s;
  s.h = rng.next();
  s.extraPre = rng.chance(1, 2) ? 2 + (unsigned)rng.below(8) : 0;
  s.stuck = rng.chance(1, 12) ? 8 + (unsigned)rng.below(30) : 0;
  s.limit = 1 + (int)rng.below(6);
  s.failGen = rng.chance(1, 3) ? 2 + (unsigned)rng.below(10) : 0;
  s.discardGen = rng.chance(1, 3) ? 2 + (unsigned)rng.below(10) : 0;
  s.hint = rng.chance(2, 3);
  s.lazyFail = rng.chance(1, 3);
  return s;
}
inline Core randomCore(mon::Rng &rng) {
  Core c;
  if (rng.chance(1, 2)) return c;
  c.v = (int)rng.below(10);
  for (int i = (int)rng.below(3); i > 0; i--) c.stack.push_back((int)rng.below(12));
  for (int i = (int)rng.below(4); i > 0; i--) c.open.insert((int)rng.below(4));
  return c;
}
inline std::string describe(const Spec &s) {
  return "machine " + std::to_string(s.h) + " extraPre " + std::to_string(s.extraPre) + " stuck " + std::to_string(s.stuck) + " limit " + std::to_string(s.limit) +
         " failGen " + std::to_string(s.failGen) + " discardGen " + std::to_string(s.discardGen) + (s.lazyFail ? " lazy" : "");
}
} // namespace machine
