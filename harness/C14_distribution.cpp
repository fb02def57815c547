// C14: generated values cover their domain with the documented distribution.
// Large samples in an uninstrumented build; every threshold is far beyond what
// a correct distribution can reach (p below 1e-12 for one case).
#include "mon.hpp"
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <climits>
#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_set>
#include "rapidcheck/detail/TestListenerAdapter.h"
#include "src/detail/Testing.h"
using namespace rc;
using mon::Rng;

namespace {
// Random states as a check produces them (splits of one root) or fresh ones.
struct States {
  Random root;
  bool fresh;
  uint64_t k;
  explicit States(Rng &rng) : root(rng.next()), fresh(rng.chance(1, 2)), k(rng.next()) {}
  Random next() { return fresh ? Random(k++) : root.split(); }
};
double chi(const std::vector<uint64_t> &obs, const std::vector<double> &p) {
  uint64_t n = 0;
  for (auto o : obs) n += o;
  double x = 0;
  for (size_t i = 0; i < obs.size(); i++) {
    const double e = n * p[i];
    if (p[i] == 0) { if (obs[i]) return 1e300; continue; }
    x += (obs[i] - e) * (obs[i] - e) / e;
  }
  return x;
}
bool fits(const std::vector<uint64_t> &obs, const std::vector<double> &p, double &x) {
  x = chi(obs, p);
  mon::count("distributions_tested");
  uint64_t n = 0;
  for (auto o : obs) n += o;
  mon::count("values_observed", n);
  const double df = (double)obs.size();
  return x < df + 11 * std::sqrt(2 * df) + 80;
}
bool uniform(const std::vector<uint64_t> &obs, double &x) { return fits(obs, std::vector<double>(obs.size(), 1.0 / obs.size()), x); }
std::string show(const std::vector<uint64_t> &o) {
  std::string s;
  for (size_t i = 0; i < o.size() && i < 24; i++) s += std::to_string(o[i]) + " ";
  return s + (o.size() > 24 ? "..." : "");
}
int aSize(Rng &rng) { return rng.chance(1, 3) ? 100 : rng.chance(1, 8) ? 100 + (int)rng.below(1000) : (int)rng.below(101); }
// round(x * size / 100), size capped at 100
double scaled(double x, int size) { return x * std::min(size, 100) / 100.0; }

template <typename T> void rangeOf(Rng &rng, const char *name) {
  using U = std::make_unsigned_t<T>;
  const uint64_t all = (uint64_t)(U)~(U)0;
  const uint64_t width = 1 + rng.below(std::min<uint64_t>(200, all));
  U off = (U)rng.next();
  if (rng.chance(1, 4)) off = (U)std::numeric_limits<T>::min();
  if (rng.chance(1, 4)) off = (U)((U)std::numeric_limits<T>::max() - (U)width);
  T lo = (T)off, hi = (T)(U)(off + (U)width);
  if (!(lo < hi)) { lo = std::numeric_limits<T>::min(); hi = (T)(U)((U)lo + (U)width); }
  const int size = aSize(rng);
  const auto g = gen::inRange<T>(lo, hi);
  States st(rng);
  std::vector<uint64_t> obs(width);
  uint64_t top = 0;
  const size_t n = 60 * width + 2000;
  for (size_t i = 0; i < n; i++) {
    const T v = g(st.next(), size).value();
    REQUIRE_(v >= lo && v < hi, "range.domain", name << " value outside");
    const uint64_t k = (U)((U)v - (U)lo);
    obs[k]++;
    top = std::max(top, k);
  }
  mon::count("range_distributions");
  mon::distinctStr(std::string(name) + std::to_string(width) + "/" + std::to_string(size));
  const double want = scaled((double)(width - 1), size);
  CHECK(std::abs((double)top - want) <= 1.0, "range.width", "range of " << width << " values of " << name << " used only up to " << top << " at size " << size << " instead of " << want);
  obs.resize(top + 1);
  double x;
  CHECK(uniform(obs, x), "range.uniform", "range of " << width << " values of " << name << " at size " << size << ": chi2 " << x << " over " << obs.size() << ": " << show(obs));
}

// Wide ranges: 16 equal parts of the used segment.
template <typename T> void wideRange(Rng &rng, const char *name) {
  T lo = (T)rng.next(), hi = (T)rng.next();
  if (rng.chance(1, 3)) { lo = std::numeric_limits<T>::min(); hi = std::numeric_limits<T>::max(); }
  if (hi < lo) std::swap(lo, hi);
  using U = std::make_unsigned_t<T>;
  const uint64_t span = (U)((U)hi - (U)lo);
  if (span < 100000) return;
  const int size = aSize(rng);
  const auto g = gen::inRange<T>(lo, hi);
  const long double used = (long double)(span - 1) * std::min(size, 100) / 100 + 1;
  States st(rng);
  std::vector<uint64_t> obs(16);
  // (a number of values near 2^64 is reduced with a visible remainder)
  if (used < 3000 || used > (long double)(1ULL << 54)) return;
  for (int i = 0; i < 8000; i++) {
    const T v = g(st.next(), size).value();
    const long double k = (long double)(uint64_t)(U)((U)v - (U)lo);
    REQUIRE_(k <= used + 1, "range.width", name << " range of " << span << " values at size " << size << " gave offset " << (double)k);
    obs[std::min<int>(15, (int)(k * 16 / used))]++;
  }
  double x;
  mon::count("range_distributions");
  mon::distinct(rng.next());
  CHECK(uniform(obs, x), "range.uniform", "wide range of " << name << " span " << span << " at size " << size << ": chi2 " << x << ": " << show(obs));
}

// The whole used segment of a very wide range is reached: its top hundredth too.
// Widths are random, or such that width * size has carries between its halves.
template <typename T> void topOf(Rng &rng, const char *name) {
  using U = std::make_unsigned_t<T>;
  const int W = sizeof(T) * 8;
  const int size = 1 + (int)rng.below(110);
  uint64_t span = rng.next() >> (64 - W);
  if (rng.chance(2, 3)) {
    const uint64_t half = ((uint64_t)1 << (W / 2)) - 1, k = 1 + rng.below(size), s = (uint64_t)std::min(size, 100);
    // the upper half times the size falls short of a carry by k
    uint64_t q = 1 + rng.below(s), hi = ((q << (W / 2)) - k) / s;
    span = (hi & half) << (W / 2) | (rng.chance(3, 4) ? half : rng.below(half));
  }
  const U all = (U)~(U)0;
  span = std::max<uint64_t>(100000, std::min<uint64_t>(span, all));
  const U lo0 = (U)std::numeric_limits<T>::min(), lo = span == all ? lo0 : (U)(lo0 + (U)(((unsigned __int128)(all - (U)span) * rng.below(1000)) / 1000));
  const T a = (T)lo, b = (T)(U)(lo + (U)span); // (the last value is not in the range)
  const auto g = gen::inRange<T>(a, b);
  const unsigned __int128 used = (unsigned __int128)(span - 1) * std::min(size, 100) / 100 + 1;
  States st(rng);
  int top = 0;
  uint64_t most = 0;
  const int n = 4000;
  for (int i = 0; i < n; i++) {
    const U k = (U)((U)g(st.next(), size).value() - lo);
    REQUIRE_((unsigned __int128)k <= used + 1, "range.width", name << " range of " << span << " values at size " << size << " gave offset " << (uint64_t)k);
    most = std::max<uint64_t>(most, k);
    top += (unsigned __int128)k * 100 >= used * 99;
  }
  CHECK(top >= 2, "range.top", name << " range of " << span << " values at size " << size << ": " << top << " of " << n << " values in the top hundredth of the " << (double)used << " used, largest " << most);
  mon::count("range_tops");
  mon::distinct(span);
}

// Integers: with b bits in use, the b low bits are uniform and the rest is the sign.
template <typename T> void integerOf(Rng &rng, const char *name) {
  using U = std::make_unsigned_t<T>;
  const int W = sizeof(T) * 8;
  const int size = aSize(rng);
  const auto g = gen::arbitrary<T>();
  States st(rng);
  const int n = 6000;
  std::vector<T> vals;
  int used = 0; // bits needed for all the values (two's complement for signed)
  for (int i = 0; i < n; i++) {
    const T v = g(st.next(), size).value();
    vals.push_back(v);
    for (int b = used; b <= W; b++) {
      const bool ok = std::is_signed<T>::value ? (b == 0 ? v == 0 : b == W || ((v >> (b - 1)) == 0 || (v >> (b - 1)) == (T)-1))
                                               : (b == W || (U)v >> b == 0);
      if (ok) { used = b; break; }
    }
  }
  const double want = scaled(W, size);
  CHECK(std::abs(used - want) <= 1.0, "integer.bits", name << " uses " << used << " bits at size " << size << " instead of " << want);
  mon::count("integer_distributions");
  mon::distinctStr(std::string(name) + std::to_string(size));
  if (used == 0) return;
  double x;
  // single bits, and all bits together through low and high groups
  for (int b = 0; b < used; b++) {
    std::vector<uint64_t> o(2);
    for (auto v : vals) o[((U)v >> b) & 1]++;
    CHECK(uniform(o, x), "integer.bit", name << " bit " << b << " of " << used << " at size " << size << ": " << show(o));
  }
  const int grp = std::min(used, 5);
  std::vector<uint64_t> lowg(1 << grp), highg(1 << grp);
  for (auto v : vals) { lowg[(U)v & ((1 << grp) - 1)]++; highg[((U)v >> (used - grp)) & ((1 << grp) - 1)]++; }
  CHECK(uniform(lowg, x), "integer.low", name << " low bits at size " << size << ": " << show(lowg));
  CHECK(uniform(highg, x), "integer.high", name << " high bits at size " << size << ": " << show(highg));
  // neighbouring bits, and bits far apart, are unrelated
  const int a = (int)rng.below(used), b = (int)rng.below(used);
  if (a != b) {
    std::vector<uint64_t> j(4);
    for (auto v : vals) j[(((U)v >> a) & 1) * 2 + (((U)v >> b) & 1)]++;
    CHECK(uniform(j, x), "integer.pairs", name << " bits " << a << "," << b << ": " << show(j));
  }
}
template <typename T> void allPatterns(Rng &rng, const char *name) {
  const auto g = gen::arbitrary<T>();
  States st(rng);
  std::vector<uint64_t> obs(1 << (8 * sizeof(T)));
  const size_t n = obs.size() * 48;
  for (size_t i = 0; i < n; i++) obs[(std::make_unsigned_t<T>)g(st.next(), 100).value()]++;
  double x;
  size_t missing = 0;
  for (auto o : obs) missing += o == 0;
  CHECK(missing == 0, "integer.patterns", name << ": " << missing << " of " << obs.size() << " values never generated in " << n);
  CHECK(uniform(obs, x), "integer.uniform", name << " at full size: chi2 " << x);
  mon::count("exhaustive_types");
  mon::distinctStr(name + std::to_string(rng.next() % 100));
}
} // namespace

SECTION("range", 1200, 6000) {
  switch (rng.below(8)) {
  case 0: rangeOf<int>(rng, "int"); break;
  case 1: rangeOf<int64_t>(rng, "int64"); break;
  case 2: rangeOf<uint64_t>(rng, "uint64"); break;
  case 3: rangeOf<signed char>(rng, "int8"); break;
  case 4: rangeOf<unsigned char>(rng, "uint8"); break;
  case 5: rangeOf<int16_t>(rng, "int16"); break;
  case 6: rangeOf<unsigned>(rng, "uint"); break;
  default: rangeOf<uint16_t>(rng, "uint16"); break;
  }
}
SECTION("wide", 1000, 3000) {
  switch (rng.below(4)) {
  case 0: wideRange<int>(rng, "int"); break;
  case 1: wideRange<int64_t>(rng, "int64"); break;
  case 2: wideRange<uint64_t>(rng, "uint64"); break;
  default: wideRange<uint32_t>(rng, "uint32"); break;
  }
}
SECTION("tops", 1200, 8000) {
  switch (rng.below(4)) {
  case 0: topOf<int>(rng, "int"); break;
  case 1: topOf<int64_t>(rng, "int64"); break;
  case 2: topOf<uint64_t>(rng, "uint64"); break;
  default: topOf<uint32_t>(rng, "uint32"); break;
  }
}
SECTION("integers", 900, 5000) {
  switch (rng.below(9)) {
  case 0: integerOf<int>(rng, "int"); break;
  case 1: integerOf<int64_t>(rng, "int64"); break;
  case 2: integerOf<uint64_t>(rng, "uint64"); break;
  case 3: integerOf<signed char>(rng, "int8"); break;
  case 4: integerOf<unsigned char>(rng, "uint8"); break;
  case 5: integerOf<int16_t>(rng, "int16"); break;
  case 6: integerOf<unsigned>(rng, "uint"); break;
  case 7: integerOf<long long>(rng, "longlong"); break;
  default: integerOf<uint16_t>(rng, "uint16"); break;
  }
}
SECTION("patterns", 6, 40) {
  allPatterns<signed char>(rng, "int8");
  allPatterns<unsigned char>(rng, "uint8");
  if (rng.chance(1, 3)) allPatterns<int16_t>(rng, "int16");
  else if (rng.chance(1, 2)) allPatterns<uint16_t>(rng, "uint16");
  // restricted ones reach all of theirs
  States st(rng);
  std::set<int> pos, neg, nonneg, nonzero;
  for (int i = 0; i < 12000; i++) {
    pos.insert(gen::positive<signed char>()(st.next(), 100).value());
    neg.insert(gen::negative<signed char>()(st.next(), 100).value());
    nonneg.insert(gen::nonNegative<signed char>()(st.next(), 100).value());
    nonzero.insert(gen::nonZero<signed char>()(st.next(), 100).value());
  }
  CHECK(pos.size() == 127 && neg.size() == 128 && nonneg.size() == 128 && nonzero.size() == 255, "integer.signs",
        "int8 values reached: positive " << pos.size() << " negative " << neg.size() << " nonNegative " << nonneg.size() << " nonZero " << nonzero.size());
  std::vector<uint64_t> b(2);
  for (int i = 0; i < 20000; i++) b[gen::arbitrary<bool>()(st.next(), (int)rng.below(101)).value()]++;
  double x;
  CHECK(uniform(b, x), "boolean", "booleans " << show(b));
}
SECTION("select", 1500, 8000) {
  States st(rng);
  const size_t n = 1 + rng.below(40);
  const int size = aSize(rng);
  std::vector<int> el;
  for (size_t i = 0; i < n; i++) el.push_back((int)i);
  double x;
  switch (rng.below(7)) {
  case 0: {
    std::vector<uint64_t> obs(n);
    auto g = gen::elementOf(el);
    for (size_t i = 0; i < 60 * n + 2000; i++) obs[g(st.next(), size).value()]++;
    CHECK(uniform(obs, x), "elementOf", n << " elements: " << show(obs));
    break;
  }
  case 1: {
    std::vector<uint64_t> obs(n);
    auto g = gen::sizedElementOf(el);
    size_t top = 0;
    for (size_t i = 0; i < 60 * n + 2000; i++) { const int v = g(st.next(), size).value(); obs[v]++; top = std::max<size_t>(top, v); }
    const double want = scaled((double)(n - 1), size);
    CHECK(std::abs(top - want) <= 1.0, "sizedElement.width", n << " elements at size " << size << ": used up to " << top << " instead of " << want);
    obs.resize(top + 1);
    CHECK(uniform(obs, x), "sizedElement.uniform", n << " elements at size " << size << ": " << show(obs));
    break;
  }
  case 2: {
    std::vector<uint64_t> obs(5);
    auto c = [](int v) { return gen::just(v); };
    auto g = gen::oneOf(c(0), c(1), c(2), c(3), c(4));
    for (int i = 0; i < 4000; i++) obs[g(st.next(), size).value()]++;
    CHECK(uniform(obs, x), "oneOf", show(obs));
    // the branch chosen is unrelated to what it generates
    auto h = gen::oneOf(gen::inRange(0, 8), gen::inRange(8, 16), gen::inRange(16, 24), gen::inRange(24, 32));
    std::vector<uint64_t> o2(32);
    for (int i = 0; i < 12000; i++) o2[h(st.next(), 100).value()]++;
    CHECK(uniform(o2, x), "oneOf.independent", show(o2));
    break;
  }
  case 3: case 4: { // weights
    std::vector<std::size_t> w(6);
    const bool big = rng.chance(1, 4);
    for (auto &v : w) v = rng.chance(1, 4) ? 0 : big ? 1 + rng.below(1ULL << 50) : 1 + rng.below(20);
    w[rng.below(6)] = 1 + rng.below(20);
    double sum = 0;
    for (auto v : w) sum += (double)v;
    std::vector<double> p;
    for (auto v : w) p.push_back(v / sum);
    double minp = 1;
    for (auto q : p) if (q > 0) minp = std::min(minp, q);
    std::vector<uint64_t> obs(6);
    const bool of = rng.chance(1, 2);
    const auto ge = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}, {w[2], 2}, {w[3], 3}, {w[4], 4}, {w[5], 5}});
    const auto gg = gen::weightedOneOf<int>({{w[0], gen::just(0)}, {w[1], gen::just(1)}, {w[2], gen::just(2)}, {w[3], gen::just(3)}, {w[4], gen::just(4)}, {w[5], gen::just(5)}});
    const auto g = of ? gg : ge;
    for (int i = 0; i < 6000; i++) obs[g(st.next(), size).value()]++;
    // merge cells that are too rare for the statistic
    std::vector<uint64_t> o2;
    std::vector<double> p2;
    double rareP = 0;
    uint64_t rare = 0;
    for (int i = 0; i < 6; i++) {
      CHECK(p[i] > 0 || obs[i] == 0, "weighted.zero", "weight zero chosen");
      if (p[i] > 0.002) { o2.push_back(obs[i]); p2.push_back(p[i]); }
      else { rareP += p[i]; rare += obs[i]; }
    }
    if (rareP > 0) {
      CHECK(rare <= 6000 * rareP + 12 * std::sqrt(6000 * rareP) + 40, "weighted.proportion", "rare elements chosen " << rare << " times");
      double s = 0;
      for (auto q : p2) s += q;
      for (auto &q : p2) q /= s;
    }
    CHECK(fits(o2, p2, x), "weighted.proportion", (of ? "weightedOneOf" : "weightedElement") << " weights " << w[0] << "," << w[1] << "," << w[2] << "," << w[3] << "," << w[4] << "," << w[5] << ": " << show(obs));
    mon::count("weighted_distributions");
    break;
  }
  case 5: { // sizedOneOf
    auto c = [](int v) { return gen::just(v); };
    auto g = gen::sizedOneOf(c(0), c(1), c(2), c(3), c(4), c(5), c(6), c(7), c(8), c(9), c(10));
    std::vector<uint64_t> obs(11);
    size_t top = 0;
    for (int i = 0; i < 5000; i++) { const int v = g(st.next(), size).value(); obs[v]++; top = std::max<size_t>(top, v); }
    CHECK(std::abs(top - scaled(10, size)) <= 1.0, "sizedOneOf.width", "at size " << size << ": used up to " << top);
    obs.resize(top + 1);
    CHECK(uniform(obs, x), "sizedOneOf.uniform", show(obs));
    break;
  }
  default: { // characters and enumerated text
    std::set<int> seen;
    uint64_t common = 0;
    for (int i = 0; i < 12000; i++) { const char ch = gen::character<char>()(st.next(), size).value(); seen.insert((unsigned char)ch); common += (unsigned char)ch < 128; }
    CHECK(seen.size() == 255 && !seen.count(0), "character.coverage", "only " << seen.size() << " characters generated");
    CHECK(common > 8000, "character.common", "common characters only " << common << " of 12000");
    std::set<int> in;
    uint64_t total = 0, ascii = 0;
    for (int i = 0; i < 600; i++) for (char ch : gen::arbitrary<std::string>()(st.next(), 60).value()) { in.insert((unsigned char)ch); total++; ascii += (unsigned char)ch < 128; }
    CHECK(ascii * 10 > total * 6, "string.common", "common characters in strings only " << ascii << " of " << total);
    uint64_t wtotal = 0, wascii = 0;
    for (int i = 0; i < 300; i++) for (wchar_t ch : gen::arbitrary<std::wstring>()(st.next(), 60).value()) { wtotal++; wascii += ch > 0 && ch < 128; }
    for (int i = 0; i < 3000; i++) { const wchar_t ch = gen::character<wchar_t>()(st.next(), 60).value(); wtotal++; wascii += ch > 0 && ch < 128; }
    CHECK(wascii * 10 > wtotal * 4, "wide.common", "common wide characters only " << wascii << " of " << wtotal);
    CHECK(in.size() == 255, "string.coverage", "only " << in.size() << " characters in strings");
    mon::count("values_observed", 12600);
  }
  }
  mon::count("selection_distributions");
  mon::distinctStr(std::to_string(n) + "/" + std::to_string(size) + "/" + std::to_string(rng.next() % 1000));
}
namespace {
template <typename C> void lengths(Rng &rng, const char *name, const Gen<C> &g, int size) {
  States st(rng);
  std::vector<uint64_t> obs(size + 1);
  const size_t n = 60 * (size + 1) + 400;
  double mean = 0;
  for (size_t i = 0; i < n; i++) {
    const C c = g(st.next(), size).value();
    const size_t l = (size_t)std::distance(c.begin(), c.end());
    REQUIRE_(l <= (size_t)size, "length.bound", name << " of " << l << " elements at size " << size);
    obs[l]++;
    mean += l;
  }
  mean /= n;
  size_t missing = 0;
  for (auto o : obs) missing += o == 0;
  CHECK(missing == 0, "length.coverage", name << " at size " << size << ": " << missing << " lengths never generated: " << show(obs));
  CHECK(size == 0 || (mean > size * 0.25 && mean < size * 0.75), "length.proportional", name << " at size " << size << ": mean length " << mean);
  mon::count("length_distributions");
  mon::count("values_observed", n);
  mon::distinctStr(std::string(name) + std::to_string(size));
}
} // namespace
SECTION("lengths", 150, 1500) {
  const int size = rng.chance(1, 4) ? (int)rng.below(4) : (int)rng.below(60);
  switch (rng.below(9)) {
  case 0: lengths(rng, "vector", gen::arbitrary<std::vector<bool>>(), size); break;
  case 1: lengths(rng, "list", gen::container<std::list<int>>(gen::just(1)), size); break;
  case 2: lengths(rng, "string", gen::arbitrary<std::string>(), size); break;
  case 3: lengths(rng, "wstring", gen::arbitrary<std::wstring>(), size); break;
  case 4: lengths(rng, "set", gen::container<std::set<uint64_t>>(gen::resize(100, gen::arbitrary<uint64_t>())), size); break;
  case 5: lengths(rng, "unique", gen::unique<std::vector<uint64_t>>(gen::resize(100, gen::arbitrary<uint64_t>())), size); break;
  case 6: lengths(rng, "map", gen::container<std::map<uint64_t, bool>>(gen::resize(100, gen::arbitrary<uint64_t>()), gen::arbitrary<bool>()), size); break;
  case 7: lengths(rng, "deque", gen::container<std::deque<int>>(gen::inRange(0, 3)), size); break;
  default: lengths(rng, "multiset", gen::container<std::multiset<int>>(gen::inRange(0, 3)), size); break;
  }
}
// Selections from very many elements, and long containers.
SECTION("large", 160, 1200) {
  States st(rng);
  static const int marks[] = {256, 300, 4096, 32768, 65535, 65536, 65537, 100000, 200000};
  double x;
  std::vector<uint64_t> obs(16);
  switch (rng.below(5)) {
  case 0: case 1: { // every sixteenth of the elements
    const int n = marks[rng.below(9)] + (int)rng.below(100);
    std::vector<int> el(n);
    for (int i = 0; i < n; i++) el[i] = i;
    const bool sized = rng.chance(1, 2);
    const int size = sized ? 5 + (int)rng.below(96) : aSize(rng);
    const auto g = sized ? gen::sizedElementOf(el) : gen::elementOf(el);
    const double used = sized ? scaled(n - 1, size) + 1 : n;
    if (used < 2000 && sized) break;
    std::vector<double> p(16);
    for (int i = 0; i < (int)used; i++) p[std::min(15, (int)(i * 16 / used))] += 1 / used;
    for (int i = 0; i < 4000; i++) {
      const int v = g(st.next(), size).value();
      REQUIRE_(v >= 0 && v <= used + 1, "large.domain", "element " << v << " of " << n << " at size " << size);
      obs[std::min(15, (int)(v * 16 / used))]++;
    }
    double s = 0;
    for (auto &q : p) s += q;
    for (auto &q : p) q /= s;
    CHECK(fits(obs, p, x), "large.elements", (sized ? "sizedElementOf " : "elementOf ") << n << " elements at size " << size << ": chi2 " << x << ": " << show(obs));
    break;
  }
  case 2: { // very many weights
    const int n = 200 + (int)rng.below(3000);
    const uint64_t unit = rng.chance(1, 2) ? 1 : 1 + rng.below(1ULL << 45);
    std::vector<std::pair<std::size_t, int>> w;
    std::vector<double> p(16);
    double sum = 0;
    for (int i = 0; i < n; i++) { w.push_back({rng.below(4) * unit, i}); sum += (double)w.back().first; p[(int)(i * 16LL / n)] += (double)w.back().first; }
    if (sum == 0) break;
    for (auto &q : p) q /= sum;
    Gen<int> g = gen::just(0);
    // (the public functions take lists, so a list is made of sixteen groups)
    std::vector<std::size_t> gw(16);
    for (int i = 0; i < n; i++) gw[(int)(i * 16LL / n)] += w[i].first;
    auto c = [&](int i) { std::vector<int> m; for (int k = 0; k < n; k++) if ((int)(k * 16LL / n) == i) m.push_back(k); return std::make_pair(gw[i], gen::elementOf(m)); };
    g = gen::weightedOneOf<int>({c(0), c(1), c(2), c(3), c(4), c(5), c(6), c(7), c(8), c(9), c(10), c(11), c(12), c(13), c(14), c(15)});
    for (int i = 0; i < 6000; i++) obs[(int)(g(st.next(), 100).value() * 16LL / n)]++;
    CHECK(fits(obs, p, x), "large.weights", "weights in units of " << unit << ": chi2 " << x << ": " << show(obs));
    mon::count("weighted_distributions");
    break;
  }
  default: {
    const int size = 200 + (int)rng.below(1300);
    const Gen<std::vector<bool>> v = gen::container<std::vector<bool>>(gen::just(true));
    const Gen<std::string> s = gen::arbitrary<std::string>();
    const Gen<std::vector<int>> u = gen::unique<std::vector<int>>(gen::resize(100, gen::arbitrary<int>()));
    const Gen<std::map<int, bool>> m = gen::container<std::map<int, bool>>(gen::resize(100, gen::arbitrary<int>()), gen::just(true));
    const int kind = (int)rng.below(4);
    const int n = 320;
    for (int i = 0; i < n; i++) {
      const Random r = st.next();
      const size_t l = kind == 0 ? v(r, size).value().size() : kind == 1 ? s(r, size).value().size() : kind == 2 ? u(r, size).value().size() : m(r, size).value().size();
      REQUIRE_(l <= (size_t)size, "length.bound", l << " elements at size " << size);
      obs[std::min<size_t>(15, l * 16 / (size + 1))]++;
    }
    double mean = 0;
    size_t missing = 0;
    for (size_t i = 0; i < 16; i++) { mean += (i + 0.5) / 16 * obs[i] / n; missing += obs[i] == 0; }
    CHECK(missing <= 6 && mean > 0.25 && mean < 0.75, "length.large", "container kind " << kind << " at size " << size << ": lengths in sixteenths " << show(obs));
    mon::count("length_distributions");
    mon::count("values_observed", n);
  }
  }
  mon::count("large_selections");
  mon::distinct(rng.next());
}
// Nothing gets rarer as the size grows, but both always occur.
SECTION("maybe", 10, 60) {
  States st(rng);
  const auto g = gen::maybe(gen::arbitrary<int>());
  auto nothing = [&](int size, int n) { int k = 0; for (int i = 0; i < n; i++) k += !g(st.next(), size).value(); return k; };
  const int s1 = 1 + (int)rng.below(4), s2 = 40 + (int)rng.below(60);
  const int a = nothing(s1, 6000), b = nothing(s2, 6000);
  CHECK(a > b + 100, "maybe.frequency", "Nothing at size " << s1 << ": " << a << ", at size " << s2 << ": " << b << " of 6000");
  CHECK(b > 0 && a < 6000, "maybe.support", "Nothing at size " << s2 << ": " << b << ", at size " << s1 << ": " << a);
  mon::count("values_observed", 12000);
  mon::distinct(s1 * 1000 + s2);
}
// No two cases of a check, nor the cases of checks under other seeds, use the
// same random state.
SECTION("cases", 12, 150) {
  std::unordered_set<uint64_t> seen;
  size_t n = 0;
  struct Quiet : detail::TestListenerAdapter {} quiet;
  const uint64_t seed = rng.next();
  for (int i = 0; i < 6; i++) {
    detail::TestParams p;
    p.seed = i < 3 ? seed + i : rng.next();
    p.maxSuccess = i ? 300 : 2500 + (int)rng.below(3000);
    p.maxSize = (int)rng.below(200);
    p.maxDiscardRatio = 20;
    const uint64_t mod = 1 + rng.below(9);
    const Gen<uint64_t> first([](const Random &r, int) { return shrinkable::just(Random(r).next()); });
    detail::checkProperty(detail::toProperty([&] { const uint64_t x = *first; seen.insert(x); n++; RC_PRE(x % mod == 0); }), {}, p, quiet, {});
  }
  CHECK(seen.size() == n, "cases.distinct", n - seen.size() << " of " << n << " test cases repeat the random state of an earlier one");
  mon::count("case_states_compared", n);
  mon::distinct(seed);
}
namespace {
struct IndBase : state::Command<int, int> {
  virtual int tag() const = 0;
};
template <int N> struct IndCmd : IndBase {
  using CommandType = IndBase;
  int v;
  IndCmd() : v(*gen::resize(100, gen::inRange(0, 6))) {}
  explicit IndCmd(int) : IndCmd() {}
  int tag() const override { return N * 6 + v; }
};
} // namespace
// Parts generated together are unrelated.
SECTION("independence", 240, 3000) {
  States st(rng);
  // uniform on 0..5, drawn directly or through other combinators
  const auto direct = gen::inRange(0, 6);
  Gen<int> e = direct;
  const int shape = (int)rng.below(8);
  switch (shape) {
  case 1: e = gen::oneOf(gen::just(0), gen::just(1), gen::just(2), gen::just(3), gen::just(4), gen::just(5)); break;
  case 2: e = gen::map(gen::pair(direct, direct), [](const std::pair<int, int> &x) { return x.first; }); break;
  case 3: e = gen::map(gen::tuple(direct, direct, direct), [](const std::tuple<int, int, int> &x) { return std::get<2>(x); }); break;
  case 4: e = gen::exec([=] { const int a = *direct; const int b = *direct; return (a + b) % 6; }); break;
  case 5: e = gen::map(gen::container<std::vector<int>>(3, direct), [](const std::vector<int> &v) { return v[1]; }); break;
  case 6: e = gen::element(0, 1, 2, 3, 4, 5); break;
  case 7: e = gen::weightedElement<int>({{2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}}); break;
  }
  const size_t len = 2 + rng.below(6);
  const size_t i = rng.below(len), j = (i + 1 + rng.below(len - 1)) % len;
  std::vector<uint64_t> obs(36);
  double x;
  const char *what = "";
  const int n = 4000;
  auto tagged = [=](int a) { return gen::map(e, [=](int b) { return a * 6 + b; }); };
  auto count = [&](const Gen<int> &g) { for (int k = 0; k < n; k++) obs[g(st.next(), 100).value()]++; };
  switch (rng.below(12)) {
  case 10: { // which command is made, and what its constructor picks
    what = "command and argument";
    const bool args = rng.chance(1, 2);
    const auto e6 = state::gen::execOneOfWithArgs<IndCmd<0>, IndCmd<1>, IndCmd<2>, IndCmd<3>, IndCmd<4>, IndCmd<5>>();
    const auto g = args ? e6(0) : e6();
    for (int k = 0; k < n; k++) obs[g(st.next(), 100).value()->tag()]++;
    break;
  }
  case 11: { // characters of a text: common or not, at two positions
    what = "characters";
    const auto s = gen::arbitrary<std::string>();
    const auto w = gen::arbitrary<std::u16string>();
    std::vector<uint64_t> t(4);
    uint64_t total = 0;
    for (int k = 0; k < 6000; k++) {
      const auto add = [&](bool a, bool b) { t[a * 2 + b]++; total++; };
      if (shape % 2) { const auto v = s(st.next(), 12).value(); if (v.size() > std::max(i, j)) add((unsigned char)v[i] < 128, (unsigned char)v[j] < 128); }
      else { const auto v = w(st.next(), 12).value(); if (v.size() > std::max(i, j)) add(v[i] < 128, v[j] < 128); }
    }
    const double pa = double(t[2] + t[3]) / total, pb = double(t[1] + t[3]) / total;
    REQUIRE_(total > 500 && pa > 0.05 && pa < 0.95 && pb > 0.05 && pb < 0.95, "characters.mixed", "common characters: " << show(t));
    CHECK(fits(t, {(1 - pa) * (1 - pb), (1 - pa) * pb, pa * (1 - pb), pa * pb}, x), "independence", "common characters at positions " << i << "," << j << ": chi2 " << x << ": " << show(t));
    mon::count("independence_tests");
    return;
  }
  case 4: what = "choice and value"; count(gen::oneOf(tagged(0), tagged(1), tagged(2), tagged(3), tagged(4), tagged(5))); break;
  case 5: what = "weighted choice and value"; count(gen::weightedOneOf<int>({{3, tagged(0)}, {3, tagged(1)}, {3, tagged(2)}, {3, tagged(3)}, {3, tagged(4)}, {3, tagged(5)}})); break;
  case 6: what = "sized choice and value"; count(gen::sizedOneOf(tagged(0), tagged(1), tagged(2), tagged(3), tagged(4), tagged(5))); break;
  case 7: { // length (0..5 at size 5) and an element not in the domain of the size
    what = "length and first element";
    const auto g = gen::container<std::vector<int>>(gen::resize(100, e));
    for (int k = 0; k < 2 * n; k++) { const auto v = g(st.next(), 6).value(); if (!v.empty() && v.size() <= 6) obs[(v.size() - 1) * 6 + v[0]]++; }
    break;
  }
  case 8: { // successive cases of one check
    what = "successive test cases";
    detail::TestParams p;
    p.seed = rng.next();
    p.maxSuccess = n;
    p.maxSize = 0;
    std::vector<int> seen;
    struct Quiet : detail::TestListenerAdapter {} quiet;
    detail::checkProperty(detail::toProperty([&] { const int v = *gen::resize(100, e); seen.push_back(v); RC_PRE(v || *gen::resize(100, e)); }), {}, p, quiet, {});
    for (size_t k = 0; k + j < seen.size() && j > 0; k++) obs[seen[k] * 6 + seen[k + j]]++;
    if (j == 0) return;
    break;
  }
  case 0: { what = "container elements"; const auto g = gen::container<std::vector<int>>(len, e); for (int k = 0; k < n; k++) { auto v = g(st.next(), 100).value(); obs[v[i] * 6 + v[j]]++; } break; }
  case 1: { what = "tuple components"; const auto g = gen::tuple(e, e, e); for (int k = 0; k < n; k++) { auto v = g(st.next(), 100).value(); i % 2 ? obs[std::get<0>(v) * 6 + std::get<2>(v)]++ : obs[std::get<1>(v) * 6 + std::get<2>(v)]++; } break; }
  case 2: { what = "picks"; const auto g = gen::exec([=] { std::vector<int> v; for (size_t k = 0; k < len; k++) v.push_back(*e); return v; }); for (int k = 0; k < n; k++) { auto v = g(st.next(), 100).value(); obs[v[i] * 6 + v[j]]++; } break; }
  case 3: { what = "mapcat"; const auto g = gen::mapcat(e, [=](int a) { return gen::map(e, [=](int b) { return a * 6 + b; }); }); for (int k = 0; k < n; k++) obs[g(st.next(), 100).value()]++; break; }
  default: { what = "map entries"; const auto g = gen::container<std::map<int, int>>(1, e, e); for (int k = 0; k < n; k++) { auto v = g(st.next(), 100).value(); obs[v.begin()->first * 6 + v.begin()->second]++; } }
  }
  CHECK(uniform(obs, x), "independence", what << " (shape " << shape << ") " << i << "," << j << " of " << len << ": chi2 " << x << ": " << show(obs));
  mon::count("independence_tests");
  mon::distinctStr(std::string(what) + std::to_string(shape * 100 + i * 10 + j));
}
