// C18: configuration strings round-trip and bad ones are rejected.
#include "mon.hpp"
#include <rapidcheck.h>
#include "rapidcheck/detail/Configuration.h"
#include "src/detail/MapParser.h"
#include "src/detail/ParseException.h"
#include <cctype>
#include <climits>
using namespace rc;
using namespace rc::detail;
using mon::Rng;

namespace {
std::string randomText(Rng &rng, size_t max) {
  static const char raw[] = "'\"\\= \t\n\r\v\f=$`%#;&|<>()[]{}\0\x7f\xff\xc3\xa9 5ab";
  static const std::string soft = "abcdefgh_-0123456789", all(raw, sizeof raw - 1);
  std::string s;
  const int bias = (int)rng.below(3);
  for (size_t n = rng.below(max + 1); n > 0; n--) {
    const bool h = bias == 0 ? false : bias == 1 ? true : rng.chance(1, 3);
    s += h ? all[rng.below(all.size())] : rng.chance(1, 20) ? (char)rng.next() : soft[rng.below(soft.size())];
  }
  return s;
}
int anInt(Rng &rng) { return rng.chance(1, 6) ? INT_MAX : rng.chance(1, 3) ? (int)rng.below(3) : (int)rng.below(rng.chance(1, 2) ? 300 : INT_MAX); }
Reproduce aReproduce(Rng &rng) {
  Reproduce r;
  r.random = Random(rng.next());
  for (int k = (int)rng.below(80); k > 0; k--) { auto o = r.random.split(); if (rng.chance(1, 2)) r.random = o; }
  r.size = anInt(rng);
  for (int k = (int)rng.below(20); k > 0; k--) r.shrinkPath.push_back(rng.chance(1, 8) ? rng.next() : rng.below(300));
  return r;
}
Configuration aConfig(Rng &rng) {
  Configuration c;
  if (rng.chance(9, 10)) c.testParams.seed = rng.chance(1, 8) ? ~0ULL - rng.below(2) : rng.chance(1, 4) ? rng.below(10) : rng.next();
  if (rng.chance(2, 3)) c.testParams.maxSuccess = anInt(rng);
  if (rng.chance(2, 3)) c.testParams.maxSize = anInt(rng);
  if (rng.chance(2, 3)) c.testParams.maxDiscardRatio = anInt(rng);
  c.testParams.disableShrinking = rng.chance(1, 3);
  c.verboseProgress = rng.chance(1, 3);
  c.verboseShrinking = rng.chance(1, 3);
  if (rng.chance(1, 2))
    for (int n = (int)rng.below(4); n > 0; n--) c.reproduce[randomText(rng, 20)] = aReproduce(rng);
  return c;
}
bool sameConfig(const Configuration &a, const Configuration &b) {
  // Field by field, not through the library's comparison.
  return a.testParams.seed == b.testParams.seed && a.testParams.maxSuccess == b.testParams.maxSuccess && a.testParams.maxSize == b.testParams.maxSize &&
         a.testParams.maxDiscardRatio == b.testParams.maxDiscardRatio && a.testParams.disableShrinking == b.testParams.disableShrinking &&
         a.verboseProgress == b.verboseProgress && a.verboseShrinking == b.verboseShrinking && a.reproduce == b.reproduce;
}
bool sane(const Configuration &c) {
  if (c.testParams.maxSuccess < 0 || c.testParams.maxSize < 0 || c.testParams.maxDiscardRatio < 0) return false;
  for (auto &r : c.reproduce) if (r.second.size < 0) return false;
  return true;
}
// The documented syntax, written by hand.
std::string space(Rng &rng, bool atLeastOne) {
  std::string s;
  for (size_t n = rng.below(4) + (atLeastOne ? 1 : 0); n > 0; n--) s += " \t\n "[rng.below(4)];
  return s;
}
std::string quote(Rng &rng, const std::string &v) {
  const bool plain = !v.empty() && v.find_first_of(std::string("'\"\\= \t\n\r\v\f")) == std::string::npos;
  if (plain && rng.chance(1, 2)) return v;
  const char q = rng.chance(1, 2) ? '"' : '\'';
  std::string s(1, q);
  for (char c : v) {
    if (c == q || c == '\\' || rng.chance(1, 12)) s += '\\';
    s += c;
  }
  return s + q;
}
using Pairs = std::vector<std::pair<std::string, std::string>>;
std::string write(Rng &rng, Pairs kv) {
  for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[rng.below(i)]);
  std::string s = space(rng, false);
  for (auto &p : kv) s += quote(rng, p.first) + space(rng, false) + "=" + space(rng, false) + quote(rng, p.second) + space(rng, true);
  return s;
}
std::string num(Rng &rng, uint64_t v) { return (rng.chance(1, 10) ? std::string("00") : std::string()) + std::to_string(v); }
} // namespace

SECTION("roundtrip", 6000, 200000) {
  const auto c = aConfig(rng);
  const auto d = aConfig(rng);
  const auto full = configToString(c);
  CHECK(sameConfig(configFromString(full), c), "full", "<" << full << "> is read as " << configToString(configFromString(full)));
  CHECK(sameConfig(configFromString(full, d), c), "full-over-defaults", full);
  const auto min = configToMinimalString(c);
  CHECK(sameConfig(configFromString(min), c), "minimal", "<" << min << "> is read as " << configToString(configFromString(min)) << " instead of " << full);
  CHECK(min.find("seed=" + std::to_string(c.testParams.seed)) != std::string::npos, "minimal-seed", min);
  CHECK(min.size() <= full.size(), "minimal-size", min);
  CHECK((c == d) == sameConfig(c, d) && c == Configuration(c) && (c != d) == !sameConfig(c, d), "equality", full);
  std::ostringstream os;
  os << c;
  CHECK(sameConfig(configFromString(os.str()), c), "printed", os.str());
  mon::count("roundtrips", 4);
  mon::distinctStr(full);
  mon::sample(min);
}
SECTION("written", 6000, 200000) {
  // Some keys given, in any order, spacing and quoting; the rest is as before.
  const auto c = aConfig(rng);
  const auto d = aConfig(rng);
  Configuration want = d;
  Pairs kv;
  if (rng.chance(1, 2)) { kv.push_back({"seed", num(rng, c.testParams.seed)}); want.testParams.seed = c.testParams.seed; }
  if (rng.chance(1, 2)) { kv.push_back({"max_success", num(rng, c.testParams.maxSuccess)}); want.testParams.maxSuccess = c.testParams.maxSuccess; }
  if (rng.chance(1, 2)) { kv.push_back({"max_size", num(rng, c.testParams.maxSize)}); want.testParams.maxSize = c.testParams.maxSize; }
  if (rng.chance(1, 2)) { kv.push_back({"max_discard_ratio", num(rng, c.testParams.maxDiscardRatio)}); want.testParams.maxDiscardRatio = c.testParams.maxDiscardRatio; }
  if (rng.chance(1, 2)) { kv.push_back({"noshrink", c.testParams.disableShrinking ? "1" : "0"}); want.testParams.disableShrinking = c.testParams.disableShrinking; }
  if (rng.chance(1, 2)) { kv.push_back({"verbose_progress", c.verboseProgress ? "1" : "0"}); want.verboseProgress = c.verboseProgress; }
  if (rng.chance(1, 2)) { kv.push_back({"verbose_shrinking", c.verboseShrinking ? "1" : "0"}); want.verboseShrinking = c.verboseShrinking; }
  if (rng.chance(1, 2)) {
    Configuration only;
    only.reproduce = c.reproduce;
    const auto s = configToString(only);
    const auto at = s.find("reproduce=") + 10;
    kv.push_back({"reproduce", s.substr(at, s.find_first_of(" ", at) - at)});
    want.reproduce = c.reproduce;
  }
  const auto text = write(rng, kv);
  try {
    const auto got = configFromString(text, d);
    CHECK(sameConfig(got, want), "written", "<" << text << "> is read as " << got << " instead of " << want);
  } catch (const ConfigurationException &e) {
    CHECK(false, "written-rejected", "<" << text << ">: " << e.what());
  }
  mon::count("written_configurations");
  mon::count("keys_given", kv.size());
  mon::distinctStr(text);
}
SECTION("rejected", 6000, 200000) {
  static const char *ints[] = {"max_success", "max_size", "max_discard_ratio"};
  static const char *flags[] = {"noshrink", "verbose_progress", "verbose_shrinking"};
  static const char *notInt[] = {"", "abc", "5abc", "5 6", "1.5", "--3", "+-1", "0x10", "1e3", "five", "99999999999999999999999", "5,", "5;", "- 5", "\"", "nan", "true", "5 abc", "1_000", "5\t7", "5-3"};
  static const char *negative[] = {"-1", "-2147483648", "-99", "2147483648", "4294967296", "18446744073709551615", "9223372036854775808", "-9223372036854775808", "2147483647000"};
  static const char *notFlag[] = {"2", "-1", "yes", "true", "false", "", "10", "1x", "0 0", "x", "1.0", "on", "00x", "1,", "256", "4294967297"};
  static const char *notSeed[] = {"", "abc", "5abc", "1.5", "18446744073709551616", "0x", "99999999999999999999999", "5 5", "1e5", "seed", "1-1", "5 -"};
  const auto c = aConfig(rng);
  std::string key, val;
  switch (rng.below(5)) {
  case 0: key = ints[rng.below(3)]; val = notInt[rng.below(sizeof notInt / sizeof *notInt)]; break;
  case 1: key = ints[rng.below(3)]; val = negative[rng.below(sizeof negative / sizeof *negative)]; break;
  case 2: key = flags[rng.below(3)]; val = notFlag[rng.below(sizeof notFlag / sizeof *notFlag)]; break;
  case 3: key = "seed"; val = notSeed[rng.below(sizeof notSeed / sizeof *notSeed)]; break;
  default: {
    key = "reproduce";
    Configuration only;
    only.reproduce["some property"] = aReproduce(rng);
    const auto s = configToString(only);
    const auto at = s.find("reproduce=") + 10;
    val = s.substr(at, s.find_first_of(" ", at) - at);
    if (rng.chance(1, 2)) val = val.substr(0, rng.below(val.size())); // cut
    else val[rng.below(val.size())] = "!*./\\?~ \x80\xff"[rng.below(10)];  // not in the alphabet
    if (val == "AA" || val == "AAA") val = "";
  }
  }
  // Valid settings around it.
  Pairs kv{{key, val}};
  const bool others = rng.chance(1, 2);
  if (others && key != "max_size") kv.push_back({"max_size", "17"});
  if (others && key != "noshrink") kv.push_back({"noshrink", "1"});
  std::string text;
  for (auto &p : kv) text += p.first + "=" + "\"" + (p.second == "\"" ? "\\\"" : p.second == "\\" ? "\\\\" : p.second) + "\" ";
  if (val.find('\\') != std::string::npos || val.find('"') != std::string::npos) { std::string q; for (char ch : val) { if (ch == '\\' || ch == '"') q += '\\'; q += ch; } text = key + "=\"" + q + "\""; }
  const Configuration before = c;
  bool rejected = false;
  Configuration got;
  try {
    got = configFromString(text, c);
  } catch (const ConfigurationException &e) {
    rejected = true;
    CHECK(e.what() && *e.what(), "no-message", text);
  }
  CHECK(rejected, "accepted", "<" << text << "> is accepted as " << got);
  CHECK(sameConfig(c, before), "half-applied", "the defaults changed while reading <" << text << ">");
  mon::count("bad_values_rejected", rejected);
  mon::distinctStr(text);
}
SECTION("any-text", 12000, 400000) {
  std::string text;
  if (rng.chance(1, 2)) text = randomText(rng, 80);
  else { // damaged configuration
    text = rng.chance(1, 2) ? configToString(aConfig(rng)) : write(rng, {{"seed", "5"}, {"max_size", "3"}, {"noshrink", "1"}, {"x", randomText(rng, 10)}});
    for (int n = 1 + (int)rng.below(4); n > 0 && !text.empty(); n--) {
      const auto at = rng.below(text.size());
      switch (rng.below(3)) {
      case 0: text.erase(at, 1 + rng.below(5)); break;
      case 1: text[at] = randomText(rng, 1).c_str()[0]; break;
      default: text.insert(at, randomText(rng, 4)); break;
      }
    }
  }
  try {
    const auto c = configFromString(text);
    CHECK(sane(c), "insane", "<" << text << "> is read as " << c);
    CHECK(sameConfig(configFromString(configToString(c)), c), "any-roundtrip", text);
    mon::count("texts_accepted");
  } catch (const ConfigurationException &) {
    mon::count("texts_rejected");
  }
  try {
    const auto m = parseMap(text);
    for (bool q : {false, true}) {
      bool plainKeys = true;
      for (auto &p : m) plainKeys = plainKeys && !p.first.empty();
      const auto back = parseMap(mapToString(m, q));
      CHECK(!plainKeys || back == m, "map-of-text", "<" << text << "> as map is <" << mapToString(m, q) << ">");
    }
  } catch (const ParseException &) {
  }
  mon::distinctStr(text);
}
SECTION("maps", 6000, 200000) {
  std::map<std::string, std::string> m;
  for (int n = (int)rng.below(6); n > 0; n--) {
    auto k = randomText(rng, 12);
    if (k.empty()) k = "k";
    m[k] = randomText(rng, 16);
  }
  for (bool q : {false, true}) {
    const auto s = mapToString(m, q);
    try {
      CHECK(parseMap(s) == m, "map", "map of " << m.size() << " written as <" << s << ">");
    } catch (const ParseException &e) {
      CHECK(false, "map-rejected", "<" << s << ">: " << e.what());
    }
    mon::count("maps_roundtripped");
  }
  // by hand
  Pairs kv;
  for (auto &p : m) if (!p.second.empty()) kv.push_back(p);
  std::map<std::string, std::string> want(kv.begin(), kv.end());
  const auto s = write(rng, kv);
  try {
    CHECK(parseMap(s) == want, "map-written", "<" << s << ">");
  } catch (const ParseException &e) {
    CHECK(false, "map-written-rejected", "<" << s << ">: " << e.what());
  }
  mon::distinctStr(s);
}

// With real processes and the real environment.
namespace {
struct Child {
  Child() {
    mon::childHook() = [](const std::vector<std::string> &) {
      const auto &c = configuration();
      std::cout << "@@" << configToString(c) << "@@" << std::endl;
      int runs = 0;
      rc::check([&] { runs++; });
      std::cout << "runs=" << runs << std::endl;
      return 0;
    };
  }
} child;
std::string shell(const std::string &s) {
  std::string q = "'";
  for (char c : s) q += c == '\'' ? std::string("'\\''") : std::string(1, c);
  return q + "'";
}
} // namespace
SECTION("environment", 40, 400) {
  auto c = aConfig(rng);
  c.testParams.maxSuccess = (int)rng.below(300);
  c.reproduce.clear();
  std::string out, err;
  const bool minimal = rng.chance(1, 2);
  const std::string text = minimal ? configToMinimalString(c) : configToString(c);
  int rc = mon::runShell("RC_PARAMS=" + shell(text) + " \"$EXE\" --child", out, err);
  REQUIRE_(rc == 0, "child", err.substr(0, 600));
  const auto a = out.find("@@"), b = out.rfind("@@");
  CHECK(a != b && sameConfig(configFromString(out.substr(a + 2, b - a - 2)), c), "environment", "RC_PARAMS=" << text << " gives " << out.substr(0, 300));
  CHECK(out.find("runs=" + std::to_string(c.testParams.maxSuccess) + "\n") != std::string::npos, "environment-runs", out.substr(0, 300));
  // What is printed to repeat the run, repeats it.
  const std::string mark = "Using configuration: ";
  const auto p = err.find(mark);
  REQUIRE_(p != std::string::npos, "not-announced", err.substr(0, 300));
  const auto line = err.substr(p + mark.size(), err.find('\n', p) - p - mark.size());
  CHECK(sameConfig(configFromString(line), c), "announced", line << " for " << text);
  // Without a seed one is chosen; it is announced as well.
  if (rng.chance(1, 4)) {
    std::string o2, e2;
    rc = mon::runShell("RC_PARAMS='max_success=3' \"$EXE\" --child", o2, e2);
    const auto x = o2.find("@@"), y = o2.rfind("@@");
    REQUIRE_(rc == 0 && x != y, "child", e2.substr(0, 600));
    const auto used = configFromString(o2.substr(x + 2, y - x - 2));
    const auto q = e2.find(mark);
    REQUIRE_(q != std::string::npos, "not-announced", e2.substr(0, 300));
    CHECK(sameConfig(configFromString(e2.substr(q + mark.size(), e2.find('\n', q) - q - mark.size())), used), "announced-seed", e2.substr(0, 200));
  }
  // A bad value stops the program before anything runs.
  static const char *bad[] = {"max_success=abc", "max_size=-1", "noshrink=maybe", "reproduce=%%%", "seed=x5", "verbose_progress=3", "max_success=\"5", "max_discard_ratio=5x"};
  std::string o3, e3;
  const std::string bt = bad[rng.below(8)];
  rc = mon::runShell("RC_PARAMS=" + shell(bt) + " \"$EXE\" --child", o3, e3);
  CHECK(rc > 0 && rc < 80 && o3.empty() && !e3.empty(), "bad-environment", "RC_PARAMS=" << bt << " exits " << rc << " with output " << o3.substr(0, 200) << " " << e3.substr(0, 200));
  mon::count("processes_run", 2);
  mon::distinctStr(text + bt);
}
