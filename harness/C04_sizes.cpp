// C04: test sizes ramp from zero to max_size as specified.
#include "progs.hpp"
#include <climits>
using namespace progs;
using namespace rc::detail;

namespace {
struct Rec {
  std::vector<int> sizes;
  std::vector<char> outcome;
};

void runSizes(mon::Rng &rng, const TestParams &p, int discardPct, int burst, Rec &rec) {
  // outcome of the next case decided when generated
  int left = 0;
  auto prop = Gen<CaseDescription>([&](const Random &, int size) {
    rec.sizes.push_back(size);
    bool d = false;
    if (left > 0) { left--; d = true; }
    else if (discardPct && rng.chance(discardPct, 100)) { left = rng.below(burst + 1); d = true; }
    if (rec.sizes.size() > 200000) d = false;
    rec.outcome.push_back(d ? 'D' : 'S');
    CaseDescription c;
    c.result = CaseResult(d ? CaseResult::Type::Discard : CaseResult::Type::Success, "");
    return shrinkable::just(c);
  });
  Recorder r;
  runCheck(prop, p, r);
}

void checkSchedule(const TestParams &p, const Rec &rec, bool complete) {
  const int64_t numSizes = (int64_t)p.maxSize + 1;
  const int64_t full = (p.maxSuccess / numSizes) * numSizes;
  const int64_t rest = p.maxSuccess - full;
  std::ostringstream ctx;
  ctx << "max_success=" << p.maxSuccess << " max_size=" << p.maxSize;
  int64_t succ = 0, recent = 0, prevBase = -1;
  bool boosted = false;
  for (size_t i = 0; i < rec.sizes.size(); i++) {
    const int64_t boost = recent / 10;
    const int64_t base = rec.sizes[i] - boost;
    boosted |= boost > 0;
    mon::count("sizes_observed");
    CHECK(base >= 0 && base <= p.maxSize, "size-out-of-range",
          ctx.str() << " case " << i << " (pass " << succ << ", " << recent << " discards): size " << rec.sizes[i]);
    if (succ < full) {
      CHECK(base == succ % numSizes, "full-round-size-wrong",
            ctx.str() << " pass " << succ << " after " << recent << " discards got size " << rec.sizes[i]);
    } else if (rest == 1) {
      CHECK(base == 0, "single-rest-size-wrong", ctx.str() << " size " << rec.sizes[i]);
    } else {
      const int64_t j = succ - full;
      if (j == 0) CHECK(base == 0, "rest-does-not-start-at-zero", ctx.str() << " got " << base);
      if (j == rest - 1) CHECK(base == p.maxSize, "rest-does-not-reach-max", ctx.str() << " got " << base);
      CHECK(prevBase <= base, "rest-decreases", ctx.str() << " pass " << succ << ": " << prevBase << " -> " << base);
      const double ideal = (double)j * p.maxSize / (rest - 1);
      CHECK(base >= ideal - 1 && base <= ideal + 1, "rest-not-evenly-spread",
            ctx.str() << " pass " << succ << ": " << base << " ideal " << ideal);
      prevBase = base;
    }
    if (rec.outcome[i] == 'D') recent++;
    else { succ++; recent = 0; }
  }
  if (complete)
    CHECK(succ == p.maxSuccess, "schedule-incomplete", ctx.str() << " passes " << succ);
  if (boosted) mon::count("runs_with_discard_boost");
  mon::count(full > 0 ? "runs_with_full_rounds" : "runs_without_full_round");
  if (rest > 1) mon::count("runs_with_spread_rest");
  mon::distinct(mon::comb(mon::comb(p.maxSuccess, p.maxSize), rec.sizes.size()));
  mon::sample(ctx.str() + " cases=" + std::to_string(rec.sizes.size()));
}
} // namespace

SECTION("all-small-pairs", 41, 161) {
  // Exhaustive: max_size = case index, every max_success up to three rounds.
  TestParams p;
  p.maxSize = (int)mon::st().caseIdx;
  for (p.maxSuccess = 0; p.maxSuccess <= 3 * p.maxSize + 8; p.maxSuccess++) {
    Rec rec;
    runSizes(rng, p, 0, 0, rec);
    checkSchedule(p, rec, true);
  }
}

SECTION("random-pairs", 400, 4000) {
  TestParams p;
  p.seed = rng.next();
  p.maxSize = rng.below(1000);
  p.maxSuccess = rng.below(3000);
  Rec rec;
  runSizes(rng, p, 0, 0, rec);
  checkSchedule(p, rec, true);
}

SECTION("with-discards", 400, 5000) {
  TestParams p;
  p.seed = rng.next();
  p.maxSize = rng.below(150);
  p.maxSuccess = rng.below(300);
  p.maxDiscardRatio = 2 + rng.below(60);
  Rec rec;
  runSizes(rng, p, 1 + rng.below(60), rng.chance(1, 2) ? 5 : 120, rec);
  checkSchedule(p, rec, false);
}

SECTION("huge-sizes", 300, 3000) {
  TestParams p;
  p.seed = rng.next();
  static const int bigs[] = {INT_MAX, INT_MAX - 1, 1 << 30, 1000000000, 46341, 65535, 65536, 100000, 3000000};
  p.maxSize = bigs[rng.below(9)];
  p.maxSuccess = rng.chance(1, 2) ? (int)rng.below(200) : (int)rng.below(4000);
  Rec rec;
  const bool disc = rng.chance(1, 4) && p.maxSize <= 1 << 30;
  p.maxDiscardRatio = 50;
  runSizes(rng, p, disc ? 20 : 0, 30, rec);
  checkSchedule(p, rec, !disc);
  mon::count("huge_runs");
}

SECTION("many-tests-large-size", 6, 40) {
  TestParams p;
  p.maxSize = 46000 + rng.below(60000);
  p.maxSuccess = p.maxSize + (int)rng.range(-2000, 3000);
  Rec rec;
  runSizes(rng, p, 0, 0, rec);
  checkSchedule(p, rec, true);
}
