// C22: generators, shrinkables and sequences shared between threads.
// Results are compared with those of a separately built generator used by one
// thread only; races are the sanitizer's business; lifetimes are counted.
#include "genfam.hpp"
#include "tree.hpp"
#include <atomic>
#include <memory>
#include <thread>
using namespace rc;
using mon::Rng;
namespace {

// Not fair, does not block: only there so that the threads start together.
struct Barrier {
  std::atomic<int> n{0};
  const int want;
  explicit Barrier(int w) : want(w) {}
  void wait() {
    n.fetch_add(1);
    while (n.load() < want) std::this_thread::yield();
  }
};
// Order of operations over all threads. Relaxed, so that it orders nothing.
struct Trace {
  static const int kMax = 4096;
  std::atomic<int> n{0};
  std::vector<std::atomic<unsigned char>> who;
  Trace() : who(kMax) {}
  void op(int t) {
    const int i = n.fetch_add(1, std::memory_order_relaxed);
    if (i < kMax) who[i].store(1 + t, std::memory_order_relaxed);
  }
  void report() {
    uint64_t h = 7;
    int switches = 0, last = -1;
    for (int i = 0; i < std::min(n.load(), kMax); i++) {
      const int w = who[i].load();
      h = mon::comb(h, w);
      switches += w != last;
      last = w;
    }
    mon::count("operations_by_threads", n.load());
    mon::count("switches_between_threads", switches);
    mon::distinct(h);
  }
};

template <typename T> uint64_t digest(const Shrinkable<T> &root, uint64_t seed, int budget = 25) {
  Rng r(seed);
  uint64_t h = 1;
  auto val = [&](const Shrinkable<T> &s) {
    try { return mon::hashStr(toString(s.value())); } catch (const GenerationFailure &) { return uint64_t(99); }
  };
  Shrinkable<T> cur = root;
  h = mon::comb(h, val(cur));
  while (budget > 0) {
    auto s = cur.shrinks();
    const int far = 1 + r.below(6);
    bool any = false;
    Seq<Shrinkable<T>> mid;
    for (int i = 0; i < far; i++) {
      if (i == far / 2) mid = s;
      auto k = s.next();
      if (!k) break;
      budget--;
      h = mon::comb(h, val(*k));
      if (r.chance(2, 3) || !any) cur = *k;
      any = true;
    }
    if (auto k = mid.next()) h = mon::comb(h, val(*k));
    if (!any) break;
  }
  return h;
}

template <typename T> struct Probe { Random rnd; int size; uint64_t seed; uint64_t want; uint64_t wantSeq; };
template <typename T> uint64_t seqDigest(Seq<Shrinkable<T>> s) {
  uint64_t h = 3;
  for (int i = 0; i < 6; i++) {
    auto k = s.next();
    if (!k) break;
    try { h = mon::comb(h, mon::hashStr(toString(k->value()))); } catch (const GenerationFailure &) { h++; }
  }
  return h;
}

template <typename T> void shared(Rng &rng, const char *what, const std::function<Gen<T>()> &mk) {
  const int threads = 2 + rng.below(5), probes = 1 + rng.below(4);
  std::vector<Probe<T>> ps;
  for (int i = 0; i < probes; i++) ps.push_back({Random(rng.next()), (int)rng.below(rng.chance(1, 5) ? 200 : 40), rng.next(), 0, 0});
  const bool refFirst = rng.chance(1, 2);
  auto reference = [&] {
    const auto g = mk();
    for (auto &p : ps) { const auto s = g(p.rnd, p.size); p.want = digest(s, p.seed); p.wantSeq = seqDigest(s.shrinks()); }
  };
  if (refFirst) reference();
  struct Obs { int probe; bool seq; uint64_t got; int how; };
  std::vector<std::vector<Obs>> obs(threads);
  Trace trace;
  {
    Barrier start(threads), phase(threads), last(threads);
    auto own = std::make_unique<Gen<T>>(mk());
    std::vector<Shrinkable<T>> roots;
    std::vector<Seq<Shrinkable<T>>> seqs;
    for (auto &p : ps) { roots.push_back((*own)(p.rnd, p.size)); seqs.push_back(roots.back().shrinks()); }
    struct Mine { Gen<T> g; std::vector<Shrinkable<T>> r; std::vector<Seq<Shrinkable<T>>> s; };
    std::vector<std::unique_ptr<Mine>> mine;
    for (int t = 0; t < threads; t++) mine.push_back(std::unique_ptr<Mine>(new Mine{*own, roots, seqs}));
    std::vector<uint64_t> tseed;
    for (int t = 0; t < threads; t++) tseed.push_back(rng.next());
    const int ops = 6 + rng.below(12);
    auto body = [&](int t) {
      Rng r(tseed[t]);
      auto &ob = obs[t];
      std::vector<Shrinkable<T>> kept;
      auto step = [&](const Gen<T> &g, std::vector<Shrinkable<T>> &rs, std::vector<Seq<Shrinkable<T>>> &ss, bool isMine) {
        const int i = r.below(ps.size());
        const auto &p = ps[i];
        const int k = r.below(7);
        trace.op(t);
        switch (k) {
        case 0: ob.push_back({i, false, digest(g(p.rnd, p.size), p.seed), k}); break;
        case 1: ob.push_back({i, false, digest(rs[i], p.seed), k}); break;
        case 2: { auto c = rs[i]; auto d = std::move(c); c = rs[0]; ob.push_back({i, false, digest(d, p.seed), k}); break; }
        case 3: { const auto &cs = ss[i]; ob.push_back({i, true, seqDigest<T>(cs), k}); break; }
        case 4: { Gen<T> c = g; Gen<T> d = c.as("x"); c = std::move(d); ob.push_back({i, false, digest(c(p.rnd, p.size), p.seed), k}); break; }
        case 5: kept.push_back(g(p.rnd, p.size)); if (kept.size() > 3) kept.erase(kept.begin()); ob.push_back({i, true, seqDigest(rs[i].shrinks()), k}); break;
        default:
          if (isMine) { Shrinkable<T> c = rs[i]; rs[i] = c; Seq<Shrinkable<T>> q = ss[i]; ss[i] = std::move(q); }
          ob.push_back({i, false, digest(rs[i], p.seed), k});
        }
        if (r.chance(1, 4)) std::this_thread::yield();
        trace.op(t);
      };
      start.wait();
      for (int i = 0; i < ops; i++) step(*own, roots, seqs, false);
      phase.wait();
      if (t == 0) { own.reset(); roots.clear(); seqs.clear(); } // the others go on with their copies
      for (int i = 0; i < ops; i++) step(mine[t]->g, mine[t]->r, mine[t]->s, true);
      last.wait();
      mine[t].reset();
      trace.op(t);
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < threads; t++) ts.emplace_back(body, t);
    body(0);
    for (auto &t : ts) t.join();
  }
  if (!refFirst) reference();
  for (auto &o : obs)
    for (auto &x : o)
      CHECK(x.got == (x.seq ? ps[x.probe].wantSeq : ps[x.probe].want), "thread-result-differs", what << ": operation " << x.how << " of one of " << threads << " threads gave a different tree than single-threaded use");
  trace.report();
  mon::count("thread_results_compared", [&] { size_t n = 0; for (auto &o : obs) n += o.size(); return n; }());
  mon::count("threads_run", threads);
  mon::sample(std::string(what) + " shared by " + std::to_string(threads) + " threads");
}

// ---- lifetimes
std::atomic<long> g_live{0}, g_made{0}, g_bad{0};
struct Tracked {
  uint64_t canary = 0x1122334455667788ULL;
  std::unique_ptr<int> heap{new int(5)};
  Tracked() { g_live.fetch_add(1, std::memory_order_relaxed); g_made.fetch_add(1, std::memory_order_relaxed); }
  Tracked(const Tracked &o) { o.use(); g_live.fetch_add(1, std::memory_order_relaxed); g_made.fetch_add(1, std::memory_order_relaxed); }
  Tracked &operator=(const Tracked &) { return *this; }
  ~Tracked() { use(); canary = 0xdead; g_live.fetch_sub(1, std::memory_order_relaxed); }
  int use() const {
    if (canary != 0x1122334455667788ULL) { g_bad.fetch_add(1, std::memory_order_relaxed); return 0; }
    return *heap;
  }
  bool operator==(const Tracked &) const { return true; }
};
void show(const Tracked &, std::ostream &os) { os << "T"; }

template <typename H> struct Use;
template <typename T> struct Use<Gen<T>> { static void f(const Gen<T> &g) { g(Random(1), 5).value(); } };
template <typename T> struct Use<Shrinkable<T>> { static void f(const Shrinkable<T> &s) { s.value(); auto q = s.shrinks(); if (auto k = q.next()) k->value(); } };
template <typename T> struct Use<Seq<T>> { static void f(const Seq<T> &s) { auto q = s; q.next(); auto p = q; p.next(); } };

template <typename H> void ownership(Rng &rng, const char *what, const std::function<H()> &mk) {
  const long before = g_live.load();
  g_bad = 0;
  const int threads = 2 + rng.below(6), handles = 1 + rng.below(60);
  const int rounds = (int)rng.below(40);
  const int pattern = rng.below(3);
  Trace trace;
  {
    std::vector<std::vector<H>> own(threads);
    {
      std::vector<H> base;
      for (int i = 0; i < handles; i++) base.push_back(mk());
      for (auto &o : own) o = base;
    }
    std::vector<uint64_t> tseed;
    for (int t = 0; t < threads; t++) tseed.push_back(rng.next());
    Barrier start(threads), wave(threads);
    auto body = [&](int t) {
      Rng r(tseed[t]);
      auto &o = own[t];
      start.wait();
      for (int i = 0; i < rounds; i++) {
        const int k = r.below(o.size());
        trace.op(t);
        switch (r.below(5)) {
        case 0: { H c = o[k]; H d = c; c = d; break; }
        case 1: { H c = o[k]; H d = std::move(c); c = o[k]; d = std::move(c); break; }
        case 2: { std::vector<H> cs(8, o[k]); break; }
        case 3: Use<H>::f(o[k]); break;
        default: o[k] = H(o[r.below(o.size())]); break;
        }
      }
      wave.wait();
      // Everyone drops the same handles at the same time.
      if (pattern == 0) while (!o.empty()) { o.pop_back(); }
      else if (pattern == 1) { for (size_t i = 0; i < o.size(); i++) { H x = std::move(o[i]); } o.clear(); }
      else { for (size_t i = o.size(); i-- > 1;) { o[i] = o[0]; if (i % 7 == 0) trace.op(t); } o.clear(); }
    };
    std::vector<std::thread> ts;
    for (int t = 1; t < threads; t++) ts.emplace_back(body, t);
    body(0);
    for (auto &t : ts) t.join();
  }
  CHECK(g_bad.load() == 0, "destroyed-object-used", what << ": " << g_bad.load() << " uses of destroyed objects with " << threads << " threads");
  CHECK(g_live.load() == before, "lost-or-repeated-destruction", what << ": " << g_live.load() - before << " objects too many after " << threads << " threads dropped " << handles << " handles each");
  g_live = before;
  mon::count("shared_handles_dropped", (uint64_t)handles * threads);
  trace.report();
}
// A hot counter: many threads copying and dropping the very same handle.
template <typename H> void contended(Rng &rng, const char *what, const std::function<H()> &mk) {
  const long before = g_live.load();
  const int threads = 3 + rng.below(6), n = 300 + rng.below(3000);
  {
    const H h = mk();
    Barrier start(threads);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
      ts.emplace_back([&] {
        start.wait();
        for (int i = 0; i < n; i++) { H c = h; if (i % 3) { H d = c; c = std::move(d); } if (i % 64 == 0) Use<H>::f(c); }
      });
    for (auto &t : ts) t.join();
    Use<H>::f(h);
  }
  CHECK(g_bad.load() == 0, "destroyed-object-used", what << ": " << g_bad.load() << " uses of destroyed objects");
  CHECK(g_live.load() == before, "lost-or-repeated-destruction", what << ": " << g_live.load() - before << " objects too many after " << threads << " threads made " << n << " copies each");
  g_live = before;
  g_bad = 0;
  mon::count("contended_copies", (uint64_t)n * threads);
}

Gen<int> trackedGen() {
  const Tracked t;
  return gen::map(gen::inRange(0, 50), [t](int x) { return x + t.use(); });
}
Shrinkable<int> trackedShrinkable() {
  const Tracked a, b;
  return shrinkable::lambda([a] { return a.use(); }, [b] { return seq::just(shrinkable::just(b.use()), shrinkable::just(2)); });
}
template <template <typename> class = Gen> void lifetimes(Rng &rng, bool hot) {
#define DO(H, ...) { const std::function<H()> f = [] { return H(__VA_ARGS__); }; if (hot) contended<H>(rng, #__VA_ARGS__, f); else ownership<H>(rng, #__VA_ARGS__, f); break; }
  const Tracked t;
  switch (rng.below(14)) {
  case 0: DO(Gen<int>, trackedGen())
  case 1: DO(Gen<Tracked>, gen::just(Tracked()))
  case 2: DO(Shrinkable<int>, trackedShrinkable())
  case 3: DO(Shrinkable<Tracked>, shrinkable::just(Tracked()))
  case 4: DO(Seq<Tracked>, seq::fromContainer(std::vector<Tracked>(3)))
  case 5: DO(Gen<std::vector<int>>, gen::container<std::vector<int>>(trackedGen()))
  case 6: DO(Shrinkable<int>, shrinkable::map(trackedShrinkable(), [t = Tracked()](int x) { return x + t.use(); }))
  case 7: DO(Seq<int>, seq::map(seq::range(0, 9), [t = Tracked()](int x) { return x + t.use(); }))
  case 8: DO(Gen<int>, gen::mapcat(trackedGen(), [t = Tracked()](int x) { return gen::just(x + t.use()); }))
  case 9: DO(Gen<int>, gen::suchThat(trackedGen(), [t = Tracked()](int x) { return t.use() == 5; }))
  case 10: DO(Seq<Shrinkable<int>>, trackedShrinkable().shrinks())
  case 11: DO(Gen<Tracked>, gen::elementOf(std::vector<Tracked>(3)))
  case 12: DO(Gen<int>, gen::oneOf(trackedGen(), trackedGen(), gen::lazy([t = Tracked()] { return gen::just(t.use()); })))
  default: DO(Shrinkable<std::vector<int>>, gen::uniqueBy<std::vector<int>>(trackedGen(), [t = Tracked()](int x) { return x / t.use(); })(Random(3), 20))
  }
#undef DO
}
bool pure(int k) { return k != 10 && k != 24 && k != 39 && k != 40; } // gen::exec picks through the process-wide context
} // namespace

SECTION("shared-text", 500, 3000) {
  int k;
  do k = rng.below(genfam::kFamilies); while (!pure(k));
  const uint64_t h = rng.next();
  shared<std::string>(rng, genfam::name(k), [=] { return genfam::make(k, h); });
}
SECTION("shared-int", 200, 1500) {
  int k;
  do k = rng.below(genfam::kIntFamilies); while (!pure(k));
  const uint64_t h = rng.next();
  shared<int>(rng, genfam::name(k), [=] { return genfam::makeInt(k, h); });
}
SECTION("shared-vec", 200, 1500) {
  int k;
  do k = rng.below(genfam::kVecFamilies); while (!pure(16 + k));
  const uint64_t h = rng.next();
  shared<std::vector<int>>(rng, genfam::name(16 + k), [=] { return genfam::makeVec(k, h); });
}
SECTION("lifetimes", 1500, 6000) { lifetimes(rng, false); }
SECTION("contended", 300, 2000) { lifetimes(rng, true); }
