// C01: a check is a deterministic function of property, parameters and seed.
#include "progs.hpp"
#include "rapidcheck/detail/Configuration.h"
#include <iostream>
#include <sstream>
using namespace progs;
using namespace rc::detail;

namespace {

struct Trace {
  std::vector<std::string> runs;
  std::vector<Event> ev;
  std::string result;
  uint64_t digest() const {
    uint64_t h = mon::hashStr(result);
    for (auto &r : runs) h = mon::comb(h, mon::hashStr(r));
    for (auto &e : ev) {
      h = mon::comb(h, mon::hashStr(e.desc) ^ e.kind);
      for (auto &t : e.tags) h = mon::comb(h, mon::hashStr(t));
      for (auto &x : e.example) h = mon::comb(h, mon::hashStr(x.first + "\1" + x.second));
    }
    return h;
  }
};

Trace trace(const Spec &sp, const TestParams &p, const Property *prop = nullptr) {
  BodyLog bl;
  auto saved = bodyLog();
  bodyLog() = &bl;
  Recorder rec;
  rec.withExamples = true;
  const auto res = runCheck(prop ? *prop : make(sp), p, rec);
  bodyLog() = saved;
  return Trace{bl.runs, rec.ev, showResult(res)};
}

std::string diff(const Trace &a, const Trace &b) {
  std::ostringstream os;
  os << "runs " << a.runs.size() << "/" << b.runs.size() << " events " << a.ev.size() << "/" << b.ev.size();
  for (size_t i = 0; i < std::min(a.runs.size(), b.runs.size()); i++)
    if (a.runs[i] != b.runs[i]) {
      os << "; execution " << i << ": " << a.runs[i] << "  vs  " << b.runs[i];
      break;
    }
  os << "; results " << a.result.substr(0, 200) << "  vs  " << b.result.substr(0, 200);
  return os.str();
}
bool same(const Trace &a, const Trace &b) { return a.runs == b.runs && a.ev == b.ev && a.result == b.result; }

// Unrelated activity: other checks, generation outside of checks, exceptions,
// destroyed generators, churned heap.
void disturb(mon::Rng &rng) {
  const int k = rng.below(6);
  static std::vector<std::unique_ptr<char[]>> junk;
  for (int i = 0; i < 20; i++) junk.emplace_back(new char[1 + rng.below(2000)]);
  if (junk.size() > 400) junk.clear();
  if (k == 0) {
    Spec s = randomSpec(rng, rng.chance(1, 2));
    TestParams p = randomParams(rng);
    p.maxSuccess = 10;
    trace(s, p);
  } else if (k == 1) {
    auto g = gen::arbitrary<std::vector<std::string>>();
    auto v = g(Random(rng.next()), rng.below(60)).value();
    (void)v;
  } else if (k == 2) {
    try { (void)*gen::arbitrary<int>(); } catch (...) {}
  } else if (k == 3) {
    auto s = gen::arbitrary<std::map<int, std::string>>()(Random(rng.next()), 20);
    auto q = s.shrinks();
    for (int i = 0; i < 5; i++) if (!q.next()) break;
  } else if (k == 4) {
    std::ostringstream cap;
    auto old = std::cerr.rdbuf(cap.rdbuf());
    rc::check("disturbing", [&](int x, const std::string &y) { if (x > 1000 && rng.chance(1, 3)) throw y; RC_TAG(x > 0); });
    std::cerr.rdbuf(old);
  } else {
    try {
      gen::suchThat<int>([](int) { return false; })(Random(rng.next()), 3).value();
    } catch (...) {
    }
  }
}

} // namespace

SECTION("same-process", 220, 4000) {
  const Spec sp = randomSpec(rng, rng.chance(2, 3));
  const TestParams p = randomParams(rng);
  const auto a = trace(sp, p);
  const std::string ctx = describe(sp) + " params " + mon::str(p);
  // immediately again
  auto b = trace(sp, p);
  CHECK(same(a, b), "rerun-differs", ctx << ": " << diff(a, b));
  // after unrelated activity
  for (int i = rng.below(4); i >= 0; i--) disturb(rng);
  b = trace(sp, p);
  CHECK(same(a, b), "rerun-after-other-activity-differs", ctx << ": " << diff(a, b));
  // one property object, used before with other parameters
  const auto prop = make(sp);
  TestParams other = randomParams(rng);
  trace(sp, other, &prop);
  b = trace(sp, p, &prop);
  CHECK(same(a, b), "property-object-reuse-differs", ctx << ": " << diff(a, b));
  // nested in a case of another check and inside gen::exec
  if (rng.chance(1, 2)) {
    Trace inner;
    bool done = false;
    TestParams outer;
    outer.seed = rng.next();
    outer.maxSuccess = 2;
    Recorder rec;
    runCheck(toProperty([&](int x, const std::string &) {
               RC_TAG("outer");
               auto y = *gen::arbitrary<std::vector<int>>();
               if (!done) inner = trace(sp, p);
               done = true;
               RC_LOG() << "outer";
               (void)*gen::inRange(0, 10);
             }), outer, rec);
    CHECK(done && same(a, inner), "nested-run-differs", ctx << ": " << diff(a, inner));
    mon::count("nested_runs_compared");
  }
  mon::count("runs_compared", 3);
  mon::count("executions_compared", a.runs.size());
  mon::distinct(a.digest());
  mon::sample(ctx + " -> " + a.result.substr(0, 150));
}

SECTION("generators", 400, 6000) {
  // Outside checks: (random, size) determines the value, whatever came before.
  const uint64_t seed = rng.next();
  const int size = rng.below(120);
  auto once = [&] {
    std::string s;
    Random r(seed);
    s += toString(gen::arbitrary<int>()(r.split(), size).value());
    s += toString(gen::arbitrary<std::vector<std::string>>()(r.split(), size / 4).value());
    s += toString(gen::arbitrary<std::map<int8_t, double>>()(r.split(), size / 4).value());
    s += toString(gen::unique<std::vector<int>>(gen::inRange(0, 1000))(r.split(), size / 4).value());
    s += toString(gen::string<std::string>()(r.split(), size).value());
    s += toString(gen::suchThat(gen::arbitrary<int>(), [](int x) { return x % 2 == 0; })(r.split(), size).value());
    return s;
  };
  const auto a = once();
  disturb(rng);
  const auto b = once();
  CHECK(a == b, "generator-depends-on-history", a.substr(0, 200) << " vs " << b.substr(0, 200));
  mon::count("generator_runs_compared");
  mon::distinctStr(a);
}

SECTION("seeds-matter", 150, 2000) {
  // Different seeds give different test cases.
  Spec sp = randomSpec(rng, false);
  sp.failMode = 2;
  sp.discardPm = 0; // (many discards keep the sizes, hence the values, small)
  sp.family = rng.below(2) ? 1 : 0;
  TestParams p;
  p.maxSuccess = 40;
  p.maxSize = 100;
  p.seed = rng.chance(1, 2) ? rng.below(10) : rng.next();
  const auto a = trace(sp, p);
  TestParams q = p;
  switch (rng.below(3)) {
  case 0: q.seed++; break;
  case 1: q.seed ^= 1ULL << rng.below(64); break;
  default: q.seed = rng.next();
  }
  const auto b = trace(sp, q);
  CHECK(a.runs != b.runs, "seeds-give-same-cases", "seeds " << p.seed << " and " << q.seed);
  std::set<std::string> sa(a.runs.begin(), a.runs.end());
  size_t common = 0;
  for (auto &x : b.runs) common += sa.count(x);
  CHECK(common * 2 < b.runs.size(), "seeds-give-mostly-same-cases", common << " of " << b.runs.size() << " for seeds " << p.seed << " and " << q.seed);
  CHECK(sa.size() * 2 > a.runs.size(), "cases-of-one-run-repeat", sa.size() << " distinct of " << a.runs.size());
  mon::count("seed_pairs_compared");
  mon::distinct(mon::comb(a.digest(), b.digest()));
}

namespace {
int childMain(const std::vector<std::string> &args) {
  if (args.at(0) == "global") { // global configuration from the environment
    mon::Rng r(std::strtoull(args.at(1).c_str(), nullptr, 10));
    for (int i = 0; i < 6; i++) {
      const Spec sp = randomSpec(r, i % 2);
      BodyLog bl;
      bodyLog() = &bl;
      TestMetadata m;
      m.id = "p" + std::to_string(i);
      const auto res = checkProperty(make(sp), m);
      bodyLog() = nullptr;
      std::cout << showResult(res) << "\n";
      for (auto &x : bl.runs) std::cout << x << "\n";
    }
    return 0;
  }
  mon::Rng r(std::strtoull(args.at(0).c_str(), nullptr, 10));
  const uint64_t churn = std::strtoull(args.at(1).c_str(), nullptr, 10);
  mon::Rng d(churn);
  for (int i = 0; i < 8; i++) {
    const Spec sp = randomSpec(r, i % 2);
    const TestParams p = randomParams(r);
    for (uint64_t k = churn % 3; k > 0; k--) disturb(d);
    const auto t = trace(sp, p);
    std::cout << t.digest() << " " << t.runs.size() << "\n";
  }
  return 0;
}
struct InstallChild {
  InstallChild() { mon::childHook() = &childMain; }
} installChild;
} // namespace

SECTION("across-processes", 14, 120) {
  const std::string seed = std::to_string(rng.next());
  std::string first;
  for (int i = 0; i < 2; i++) {
    std::string out, err;
    int rc = mon::runShell("\"$EXE\" --child " + seed + " " + std::to_string(rng.next()), out, err);
    REQUIRE_(rc == 0, "child-crashed", err.substr(0, 1500));
    if (i == 0) first = out;
    else CHECK(out == first, "processes-differ", "spec seed " << seed << "\n" << first << "vs\n" << out);
    mon::count("process_runs_compared");
  }
  // in this process too
  mon::Rng r(std::strtoull(seed.c_str(), nullptr, 10));
  std::ostringstream here;
  for (int i = 0; i < 8; i++) {
    const Spec sp = randomSpec(r, i % 2);
    const TestParams p = randomParams(r);
    const auto t = trace(sp, p);
    here << t.digest() << " " << t.runs.size() << "\n";
  }
  CHECK(here.str() == first, "process-differs-from-in-process", first << "vs\n" << here.str());
  mon::distinctStr(first);
}

SECTION("global-configuration", 10, 80) {
  // RC_PARAMS decides everything; without a seed a fresh one is drawn and the
  // printed configuration reproduces the run.
  const std::string seed = std::to_string(rng.next() >> 1);
  const std::string spec = std::to_string(rng.next());
  std::string o1, o2, o3, o4, e1, e2, e3, e4;
  const std::string prm = "seed=" + seed + " max_success=" + std::to_string(1 + rng.below(50)) + " max_size=" + std::to_string(1 + rng.below(50));
  const std::string run = " \"$EXE\" --child global " + spec;
  REQUIRE_(mon::runShell("RC_PARAMS='" + prm + "'" + run, o1, e1) == 0, "child-crashed", e1.substr(0, 1500));
  REQUIRE_(mon::runShell("RC_PARAMS='" + prm + " verbose_progress=1 verbose_shrinking=1'" + run, o2, e2) == 0, "child-crashed", e2.substr(0, 1500));
  CHECK(o1 == o2, "rc-params-run-differs", prm << "\n" << o1.substr(0, 500) << "\nvs\n" << o2.substr(0, 500));
  REQUIRE_(mon::runShell("RC_PARAMS='max_success=20'" + run, o3, e3) == 0, "child-crashed", e3.substr(0, 1500));
  const std::string mark = "Using configuration: ";
  const auto a = e3.find(mark);
  REQUIRE_(a != std::string::npos, "configuration-not-printed", e3.substr(0, 500));
  const auto line = e3.substr(a + mark.size(), e3.find('\n', a) - a - mark.size());
  REQUIRE_(mon::runShell("RC_PARAMS='" + line + "'" + run, o4, e4) == 0, "child-crashed", e4.substr(0, 1500));
  CHECK(o3 == o4, "printed-configuration-does-not-reproduce", line << "\n" << o3.substr(0, 500) << "\nvs\n" << o4.substr(0, 500));
  mon::count("process_runs_compared", 2);
  mon::distinctStr(line);
  mon::sample(line);
}
