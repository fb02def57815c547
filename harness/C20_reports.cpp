// C20: reports, tag distributions, progress marks and reproduction hints.
#include "progs.hpp"
#include "src/detail/DefaultTestListener.h"
#include "src/detail/LogTestListener.h"
#include "src/detail/MulticastTestListener.h"
#include "src/detail/ReproduceListener.h"
#include "src/detail/StringSerialization.h"
#include "src/detail/Testing.h"
#include <cmath>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using progs::Event;
using progs::Recorder;
using Ty = CaseResult::Type;

namespace {
std::string printed(const TestResult &r) {
  std::ostringstream os;
  printResultMessage(r, os);
  return os.str();
}
std::string aText(Rng &r, bool newlines = true) {
  static const std::vector<std::string> odd = {"\"", "\\", ":", "%", ", ", "% - ", "ä", "日本", "{}", "%s%n", "'", "\t"};
  std::string s;
  const size_t n = r.chance(1, 12) ? 100 + r.below(400) : r.below(8);
  for (size_t i = 0; i < n; i++) {
    if (r.chance(2, 3)) s += (char)r.range('a', 'f');
    else if (newlines && r.chance(1, 4)) s += '\n';
    else s += odd[r.below(odd.size())];
  }
  return s;
}

// ---- the printed result message against the result
std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> v;
  std::istringstream is(s);
  for (std::string l; std::getline(is, l);) v.push_back(l);
  return v;
}
std::string joinTags(const Tags &t) {
  std::string s;
  for (size_t i = 0; i < t.size(); i++) s += (i ? ", " : "") + t[i];
  return s;
}
// `dist` is the true distribution; the texts of tags may contain anything.
void checkSuccessText(const std::string &text, int n, const std::map<Tags, int> &dist) {
  const std::string head = "OK, passed " + std::to_string(n) + " tests";
  REQUIRE_(text.compare(0, head.size(), head) == 0, "report.success", "a success of " << n << " tests is reported as: " << text);
  std::string rest = text.substr(head.size());
  if (dist.empty()) {
    CHECK(rest.find_first_not_of(" \n") == std::string::npos, "report.success", "text after the count without any tags: " << rest);
    return;
  }
  // Consume one entry after the other: percentage, "% - ", tags.
  std::map<Tags, int> left = dist;
  double last = 1e9;
  int lastCount = 1 << 30;
  size_t at = rest.find_first_not_of(" \n");
  while (!left.empty()) {
    REQUIRE_(at != std::string::npos && at < rest.size(), "distribution.missing", left.size() << " combination(s) of tags missing, like '" << joinTags(left.begin()->first) << "' in: " << text);
    char *e = nullptr;
    const double pc = std::strtod(rest.c_str() + at, &e);
    const size_t p = e - rest.c_str();
    REQUIRE_(p != at && rest.compare(p, 4, "% - ") == 0, "distribution.line", "not an entry: " << rest.substr(at, 80) << " in " << text);
    // the longest combination of the most frequent remaining ones that is there
    std::map<Tags, int>::iterator hit = left.end();
    for (auto it = left.begin(); it != left.end(); ++it) {
      const std::string l = joinTags(it->first) + "\n";
      if (rest.compare(p + 4, l.size(), l) == 0 &&
          (hit == left.end() || std::make_pair(it->second, l.size()) > std::make_pair(hit->second, joinTags(hit->first).size() + 1)))
        hit = it;
    }
    REQUIRE_(hit != left.end(), "distribution.tags", "unknown combination of tags: " << rest.substr(at, 120));
    const double exact = 100.0 * hit->second / n;
    CHECK(std::fabs(pc - exact) <= 0.005 + 1e-9, "distribution.share", "share of '" << joinTags(hit->first) << "' is " << pc << "% instead of " << exact << "%");
    CHECK(pc <= last && hit->second <= lastCount, "distribution.order", "'" << joinTags(hit->first) << "' (" << hit->second << ") comes after a rarer one");
    last = pc;
    lastCount = hit->second;
    at = p + 4 + joinTags(hit->first).size() + 1;
    left.erase(hit);
    at = rest.find_first_not_of(" \n", std::min(at, rest.size()));
    mon::count("distribution_lines_checked");
  }
  CHECK(at == std::string::npos || at >= rest.size(), "distribution.extra", "more text after all combinations of tags: " << rest.substr(at));
}
void checkFailureText(const std::string &text, const FailureResult &f) {
  const std::string head = "Falsifiable after " + std::to_string(f.numSuccess + 1) + " tests";
  const size_t k = f.reproduce.shrinkPath.size();
  const std::string shr = k == 0 ? "\n" : " and " + std::to_string(k) + (k == 1 ? " shrink\n" : " shrinks\n");
  REQUIRE_(text.compare(0, head.size() + shr.size(), head + shr) == 0, "report.failure", "a failure after " << f.numSuccess << " passed tests and " << k << " shrinks is reported as: " << text.substr(0, 200));
  size_t at = head.size() + shr.size();
  for (const auto &item : f.counterExample) {
    const std::string what = item.first + ":\n" + item.second + "\n";
    const size_t p = text.find(what, at);
    REQUIRE_(p != std::string::npos, "report.item", "counterexample item '" << item.first << "' = '" << item.second << "' is not (in order) in: " << text);
    CHECK(text.find_first_not_of('\n', at) == p || text.substr(at, p - at).find_first_not_of('\n') == std::string::npos, "report.item", "unexpected text before an item: " << text.substr(at, p - at));
    at = p + what.size();
    mon::count("report_items_checked");
  }
  const std::string rest = text.substr(at);
  const size_t p = rest.size() - std::min(rest.size(), f.description.size());
  CHECK(rest.substr(p) == f.description && rest.substr(0, p).find_first_not_of('\n') == std::string::npos, "report.description", "after the items the description '" << f.description << "' is expected instead of: " << rest);
}
void checkText(const TestResult &r) {
  const std::string text = printed(r);
  SuccessResult s; FailureResult f; GaveUpResult g; Error e;
  if (r.match(s)) { checkSuccessText(text, s.numSuccess, s.distribution); mon::count("texts_S"); }
  else if (r.match(f)) { checkFailureText(text, f); mon::count("texts_F"); }
  else if (r.match(g)) {
    const std::string head = "Gave up after " + std::to_string(g.numSuccess) + " tests\n";
    CHECK(text.compare(0, head.size(), head) == 0 && text.size() >= head.size() + g.description.size() && text.substr(text.size() - g.description.size()) == g.description, "report.gaveup", "gave up after " << g.numSuccess << " ('" << g.description << "') reported as: " << text);
    mon::count("texts_G");
  } else if (r.match(e)) {
    CHECK(text.compare(0, 8, "Failure:") == 0 && text.find(e.description) != std::string::npos, "report.error", "error '" << e.description << "' reported as: " << text);
    mon::count("texts_E");
  }
}

// ---- tags
struct TagScript { // what a test case does, as a function of the value it drew
  uint64_t h;
  unsigned combos, failPm, discardPm, exoticPm;
};
struct Exec { Ty type; Tags tags; };
struct Dev { int x; };
std::ostream &operator<<(std::ostream &os, const Dev &d) { return os << "dev" << d.x; }

// Performs (and predicts) the tags of the case with hash `c`.
void tagOps(uint64_t c, const TagScript &s, Tags &out, int depth) {
  Rng r(c % s.combos + 77 * s.h);
  const bool many = depth == 0 && r.chance(1, 100);
  const int n = many ? 100 + (int)r.below(300) : (int)r.below(4);
  if (many) mon::count("cases_with_many_tags");
  for (int i = 0; i < n; i++) {
    const int k = (int)r.below(4);
    switch (many ? r.below(8) : r.below(11)) {
    case 0: out.push_back(std::to_string(k)); RC_TAG(k); break;
    case 1: out.push_back(std::to_string(k)); out.push_back("\"x\""); RC_TAG(k, "x"); break;
    case 2: { const std::string t = aText(r, false); out.push_back(toString(t)); RC_TAG(t); break; }
    case 3: if (k == 0) out.push_back("k == 0"); RC_CLASSIFY(k == 0); break;
    case 4: if (k != 1) { out.push_back("dev7"); out.push_back("[1, 2]"); } RC_CLASSIFY(k != 1, Dev{7}, std::vector<int>{1, 2}); break;
    case 5: if (k < 2) out.push_back("\"small\""); RC_CLASSIFY(k < 2, "small"); break;
    case 6: RC_CLASSIFY(false, "never"); RC_CLASSIFY(k > 10); break;
    case 7: out.push_back("true"); RC_TAG(k >= 0); break;
    case 8: // generators running inside must not tag the case
      if (depth == 0) *gen::exec([=] { RC_TAG("inner"); RC_CLASSIFY(true, "inner2"); return 1; });
      break;
    case 9: // nor must a nested check
      if (depth == 0 && r.chance(1, 3)) {
        TestParams p;
        p.maxSuccess = 3;
        Recorder rec;
        const auto res = progs::runCheck(toProperty([] { RC_TAG("nested"); }), p, rec);
        SuccessResult sr;
        CHECK(res.match(sr) && sr.distribution == (std::map<Tags, int>{{Tags{"\"nested\""}, 3}}), "distribution.nested", "the nested check reports " << printed(res));
      }
      break;
    default: out.push_back("(1, true)"); RC_TAG(std::make_pair(1, true)); break;
    }
  }
}

SECTION("distribution", 2500, 40000) {
  TagScript s{rng.next(), (unsigned)(1 + rng.below(rng.chance(1, 3) ? 200 : 8)), 0, 0, 0};
  static const unsigned dp[] = {0, 0, 100, 500};
  s.discardPm = dp[rng.below(4)];
  s.failPm = rng.chance(1, 5) ? 30 : 0;
  std::vector<Exec> execs;
  const bool late = rng.chance(1, 2); // tags before or after the outcome is decided
  const auto prop = toProperty([&](void) {
    const uint64_t v = *gen::noShrink(gen::arbitrary<uint64_t>());
    const uint64_t c = mon::comb(v, s.h);
    Exec e{Ty::Success, {}};
    tagOps(c, s, e.tags, 0);
    const unsigned o = (c >> 40) % 1000;
    e.type = o < s.discardPm ? Ty::Discard : o < s.discardPm + s.failPm ? Ty::Failure : Ty::Success;
    if (late && (c >> 33) % 3 == 0) {
      ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(CaseResult(e.type, "reported"));
      e.tags.push_back("\"late\"");
      RC_TAG("late");
    }
    execs.push_back(e);
    if (e.type == Ty::Discard) RC_DISCARD("d");
    if (e.type == Ty::Failure) RC_FAIL("f");
    if ((c >> 20) % 5 == 0) RC_SUCCEED("early");
  });
  TestParams p = progs::randomParams(rng);
  if (rng.chance(1, 20)) p.maxSuccess = 1000;
  Recorder rec;
  const auto res = progs::runCheck(prop, p, rec);
  std::map<Tags, int> expect;
  int passed = 0;
  size_t i = 0;
  for (const auto &e : rec.ev) {
    if (e.kind != 'C') continue;
    REQUIRE_(i < execs.size(), "distribution.model", "more cases than executions");
    const Exec &x = execs[i++];
    CHECK((int)x.type == e.type, "distribution.model", "outcome of case " << i);
    if (x.type != Ty::Success) continue;
    passed++;
    CHECK(x.tags == e.tags, "tags.case", "case " << i << " has tags " << toString(e.tags) << " instead of " << toString(x.tags));
    if (!x.tags.empty()) expect[x.tags]++;
  }
  mon::count("tagged_cases", passed);
  SuccessResult sr;
  if (res.match(sr)) {
    CHECK(sr.numSuccess == passed, "distribution.total", sr.numSuccess << " vs " << passed);
    CHECK(sr.distribution == expect, "distribution", "distribution " << toString(sr.distribution) << " instead of " << toString(expect));
    checkSuccessText(printed(res), passed, expect);
    mon::count("distributions_checked");
    if (expect.size() > 3) mon::count("distributions_with_many_entries");
    mon::distinctStr(toString(expect) + std::to_string(passed));
    if (!expect.empty()) mon::sample(printed(res).substr(0, 200));
  } else checkText(res);
}

// ---- whole results, made up
SECTION("texts", 3000, 60000) {
  TestResult r = Error("x");
  switch (rng.below(4)) {
  case 0: {
    SuccessResult s;
    s.numSuccess = (int)(rng.chance(1, 10) ? 1000000000 : 1 + rng.below(200));
    int left = s.numSuccess;
    for (int i = 0, n = (int)rng.below(12); i < n && left > 0; i++) {
      Tags t;
      for (int j = 0, m = 1 + (int)rng.below(4); j < m; j++) t.push_back(aText(rng, false) + "t");
      int c = 1 + (int)rng.below(left);
      if (rng.chance(1, 2)) c = std::min(left, 1 + (int)rng.below(3)); // many ties
      if (s.distribution.emplace(t, c).second) left -= c;
    }
    r = s;
    break;
  }
  case 1: {
    FailureResult f;
    f.numSuccess = (int)rng.below(rng.chance(1, 8) ? 2000000000 : 300);
    f.description = aText(rng);
    f.reproduce.size = 3;
    f.reproduce.shrinkPath.resize(rng.below(rng.chance(1, 8) ? 5000 : 4), 1);
    for (int j = 0, m = (int)rng.below(5); j < m; j++) f.counterExample.emplace_back(aText(rng), aText(rng));
    r = f;
    break;
  }
  case 2: {
    GaveUpResult g;
    g.numSuccess = (int)rng.below(300);
    g.description = aText(rng);
    r = g;
    break;
  }
  default: r = Error(aText(rng));
  }
  checkText(r);
  mon::distinctStr(printed(r));
}

// ---- counterexamples: what the body saw in the reported case
struct Seen { std::vector<std::pair<std::string, std::string>> items; std::string fail; };
std::string num(long long x) { return std::to_string(x); }
std::string q(const std::string &s) { // own display of a text of printable characters
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
  return o + "\"";
}
std::string vec(const std::vector<int> &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++) o += (i ? ", " : "") + num(v[i]);
  return o + "]";
}
Gen<std::string> printable() { return gen::container<std::string>(gen::oneOf(gen::inRange<char>('a', 'e'), gen::elementOf(std::string("\"\\ :")))); }

void body(uint64_t h, int64_t thr, Seen &cur, std::vector<Seen> &all, int64_t m) {
  Rng r(h);
  for (int i = 0, n = (int)r.below(4); i < n; i++) {
    const bool named = r.chance(1, 2);
    const std::string nm = named ? std::vector<std::string>{"a", "the size", "x:y", "日", "the number of " + std::string(20 + r.below(300), 'n')}[r.below(5)] : "";
    auto put = [&](const char *type, const std::string &v) { cur.items.emplace_back(named ? nm : type, v); };
    switch (r.below(6)) {
    case 0: { auto g = gen::inRange(0, 500); const int x = named ? *g.as(nm) : *g; put("int", num(x)); m += x; break; }
    case 1: { auto g = printable(); const std::string x = named ? *g.as(nm) : *g; put("std::string", q(x)); m += 20 * x.size(); break; }
    case 2: { auto g = gen::container<std::vector<int>>(gen::inRange(-50, 50)); const auto x = named ? *g.as(nm) : *g; put("std::vector<int>", vec(x)); m += 10 * x.size(); break; }
    case 3: { auto g = gen::arbitrary<bool>(); const bool x = named ? *g.as(nm) : *g; put("bool", x ? "true" : "false"); m += x; break; }
    case 4: { auto g = gen::pair(gen::inRange(0, 9), printable()); const auto x = named ? *g.as(nm) : *g; put("std::pair<int, std::string>", "(" + num(x.first) + ", " + q(x.second) + ")"); m += x.first; break; }
    default: { // nested picks belong to the outer item
      auto g = gen::exec([] { const int a = *gen::inRange(0, 60); const int b = *gen::inRange(0, 60).as("hidden"); return a + b; });
      const int x = named ? *g.as(nm) : *g; put("int", num(x)); m += x; break;
    }
    }
  }
  if (m >= thr) {
    cur.fail = "too much: " + num(m);
    all.push_back(cur);
    RC_LOG() << "measure " << m;
    if (h % 3 == 0) throw std::runtime_error(cur.fail);
    RC_FAIL(cur.fail);
  }
  all.push_back(cur);
}

SECTION("counterexamples", 1500, 25000) {
  const uint64_t h = rng.next();
  const int64_t thr = 1 + (int64_t)rng.below(rng.chance(1, 2) ? 40 : 700);
  std::vector<Seen> all;
  Maybe<Property> prop;
  switch (rng.below(4)) {
  case 0: prop = toProperty([&] { Seen s; body(h, thr, s, all, 0); }); break;
  case 1: prop = toProperty([&](int a) { Seen s; s.items.emplace_back("std::tuple<int>", "(" + num(a) + ")"); body(h, thr, s, all, progs::mag(a) / 7); }); break;
  case 2: prop = toProperty([&](const std::vector<int> &v, bool b) { Seen s; s.items.emplace_back("std::tuple<std::vector<int>, bool>", "(" + vec(v) + ", " + (b ? "true" : "false") + ")"); body(h, thr, s, all, 9 * v.size() + b); }); break;
  default: prop = toProperty([&](uint16_t a, unsigned char c, const std::map<bool, int> &mp) {
      Seen s;
      std::string ms = "{";
      for (auto &e : mp) ms += (ms.size() > 1 ? ", (" : "(") + std::string(e.first ? "true" : "false") + ", " + num(e.second) + ")";
      s.items.emplace_back("std::tuple<unsigned short, unsigned char, std::map<bool, int>>", "(" + num(a) + ", " + num(c) + ", " + ms + "})");
      body(h, thr, s, all, c + mp.size());
    });
  }
  TestParams p = progs::randomParams(rng);
  p.maxSuccess += 20;
  Recorder rec;
  const auto res = progs::runCheck(*prop, p, rec);
  FailureResult f;
  checkText(res);
  if (!res.match(f)) { mon::count("no_failure"); return; }
  size_t cases = 0, acc = 0;
  for (auto &e : rec.ev) { cases += e.kind == 'C'; acc += e.kind == 'A'; }
  CHECK(f.numSuccess + 1 <= (int)cases && f.reproduce.shrinkPath.size() == acc, "report.counts", "reported " << f.numSuccess << " tests and " << f.reproduce.shrinkPath.size() << " shrinks, seen " << cases << " and " << acc);
  const Seen *last = nullptr;
  for (auto &s : all) if (!s.fail.empty()) last = &s;
  REQUIRE_(last, "report.model", "failure reported, but no execution failed");
  const std::string text = printed(res);
  std::string expect;
  for (auto &i : last->items) expect += i.first + ":\n" + i.second + "\n\n";
  CHECK(text.find("\n\n" + expect) != std::string::npos || expect.empty(), "report.counterexample", "the failing case saw\n" << expect << "but the report is\n" << text);
  CHECK(f.counterExample.size() == last->items.size(), "report.counterexample", f.counterExample.size() << " items instead of " << last->items.size());
  CHECK(text.find(last->fail) != std::string::npos && text.find("measure ") != std::string::npos, "report.description", "failure description or log missing in\n" << text);
  mon::count("counterexamples_checked");
  mon::count("counterexample_items_checked", last->items.size());
  mon::distinctStr(text);
  mon::sample(text);
}

// ---- marks of verbose listeners and reproduction hints
std::string expectedMarks(const std::vector<Event> &ev, bool prog, bool shr) {
  std::string o;
  for (auto &e : ev) {
    if (e.kind == 'C' && prog) o += e.type == (int)Ty::Success ? "." : e.type == (int)Ty::Discard ? "x" : shr ? "\nFound failure, shrinking:\n" : "\nFound failure, shrinking...\n";
    if (e.kind == 'S' && shr) o += ".";
    if (e.kind == 'A' && shr) o += "!";
    if (e.kind == 'F' && (prog || shr)) o += "\n";
  }
  return o;
}
struct Forward : TestListener {
  TestListener &to;
  explicit Forward(TestListener &t) : to(t) {}
  void onTestCaseFinished(const CaseDescription &d) override { to.onTestCaseFinished(d); }
  void onShrinkTried(const CaseDescription &d, bool a) override { to.onShrinkTried(d, a); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override { to.onTestFinished(m, r); }
};
// Decodes the hint; false if there is none.
bool hint(const std::string &text, progs::ReproMap &out) {
  const std::string pre = "RC_PARAMS=\"reproduce=";
  const size_t p = text.find(pre);
  if (p == std::string::npos) return false;
  const size_t e = text.find('"', p + pre.size());
  out = stringToReproduceMap(text.substr(p + pre.size(), e - p - pre.size()));
  return true;
}

SECTION("marks-and-hints", 700, 12000) {
  const bool prog = rng.chance(1, 2), shr = rng.chance(1, 2);
  std::ostringstream os;
  std::string expectText;
  std::map<std::string, std::vector<Reproduce>> failed;
  size_t named = 0;
  {
    Configuration c;
    c.verboseProgress = prog;
    c.verboseShrinking = shr;
    std::unique_ptr<TestListener> l;
    Recorder rec, rec2;
    if (rng.chance(1, 2)) l = makeDefaultTestListener(c, os);
    else {
      MulticastTestListener::Listeners ls;
      ls.emplace_back(new Forward(rec2));
      ls.emplace_back(new LogTestListener(os, prog, shr));
      ls.emplace_back(new ReproduceListener(os));
      l.reset(new MulticastTestListener(std::move(ls)));
    }
    for (int i = 0, n = 1 + (int)rng.below(5); i < n; i++) {
      const auto sp = progs::randomSpec(rng, rng.chance(1, 2));
      TestMetadata meta;
      meta.id = rng.chance(1, 4) ? "" : rng.chance(1, 3) ? "name" : aText(rng) + "n";
      meta.description = rng.chance(1, 2) ? meta.id : aText(rng);
      const TestParams p = progs::randomParams(rng);
      const auto res = progs::runCheck(progs::make(sp), p, *l, meta);
      rec.ev.clear();
      const auto res2 = progs::runCheck(progs::make(sp), p, rec, meta); // deterministic (C01)
      CHECK(res == res2, "marks.model", "the same property gave different results");
      if (!rec2.ev.empty() || dynamic_cast<MulticastTestListener *>(l.get()) == nullptr) {
        CHECK(rec2.ev.empty() || rec2.ev == rec.ev, "marks.multicast", "listeners behind the multicaster saw other events");
        rec2.ev.clear();
      }
      expectText += expectedMarks(rec.ev, prog, shr);
      CHECK(os.str() == expectText, "marks", "verbose output (progress " << prog << ", shrinking " << shr << ") is " << os.str() << "\n instead of " << expectText << " for " << progs::describe(sp));
      mon::count("marks_checked", rec.ev.size());
      FailureResult f;
      if (!meta.id.empty()) {
        named++;
        if (res.match(f)) failed[meta.id].push_back(f.reproduce);
      }
      checkText(res);
    }
  }
  const std::string rest = os.str().substr(std::min(os.str().size(), expectText.size()));
  progs::ReproMap m;
  bool got = false;
  try { got = hint(rest, m); } catch (const std::exception &e) { CHECK(false, "hint.decode", "the hint cannot be decoded: " << e.what() << ": " << rest); }
  if (failed.empty()) {
    CHECK(rest.empty(), "hint.none", "no named property failed, yet: " << rest);
    mon::count("runs_without_hint");
    return;
  }
  REQUIRE_(got, "hint.missing", failed.size() << " named properties failed but there is no hint: " << rest);
  CHECK(m.size() == failed.size(), "hint.set", "the hint has " << m.size() << " properties, " << failed.size() << " of " << named << " failed");
  for (auto &e : failed) {
    REQUIRE_(m.count(e.first), "hint.set", "failed property '" << e.first << "' is not in the hint");
    bool ok = false;
    for (auto &x : e.second) ok = ok || x == m[e.first];
    CHECK(ok, "hint.data", "the hint for '" << e.first << "' is " << m[e.first] << " instead of " << e.second[0]);
    mon::count("hinted_failures");
  }
  mon::distinctStr(rest);
}

// ---- whole processes
const int kProps = 6;
progs::Spec specOf(uint64_t h, int i) {
  Rng r(mon::comb(h, i));
  return progs::randomSpec(r, i % 2);
}
std::string nameOf(uint64_t h, int i) { return i == 0 ? std::string() : "prop " + std::to_string(h % 1000) + " no. " + std::to_string(i); }
struct Child {
  Child() {
    mon::childHook() = [](const std::vector<std::string> &a) {
      const uint64_t h = std::strtoull(a.at(0).c_str(), nullptr, 10);
      std::string got;
      for (int i = 0; i < kProps; i++) {
        const auto p = specOf(h, i);
        const std::string n = nameOf(h, i);
        // As an ordinary user: rc::check with a callable.
        auto callable = [p] { return *progs::make(p); };
        (void)callable;
        bool ok;
        const uint64_t hh = p.h;
        const int64_t thr = p.threshold % 100 + 1;
        auto test = [=](int x, const std::string &s) {
          const uint64_t c = mon::comb(mon::comb(hh, (uint64_t)x), mon::hashStr(s));
          RC_PRE(c % 7 != 0);
          RC_TAG(c % 3);
          if (i % 2) RC_ASSERT(progs::mag(x) + (int64_t)s.size() < thr);
        };
        ok = n.empty() ? rc::check(test) : rc::check(n, test);
        got += ok ? '1' : '0';
      }
      std::printf("%s\n", got.c_str());
      std::fflush(stdout);
      return 0;
    };
  }
} child;

SECTION("processes", 12, 200) {
  const uint64_t h = rng.below(1000000000);
  const bool prog = rng.chance(1, 2), shr = rng.chance(1, 2);
  TestParams p;
  p.seed = rng.next();
  p.maxSuccess = 1 + (int)rng.below(80);
  p.maxSize = (int)rng.below(60);
  p.disableShrinking = rng.chance(1, 6);
  std::ostringstream cmd;
  cmd << "RC_PARAMS='seed=" << p.seed << " max_success=" << p.maxSuccess << " max_size=" << p.maxSize << " noshrink=" << p.disableShrinking
      << " verbose_progress=" << prog << " verbose_shrinking=" << shr << "' \"$EXE\" --child " << h;
  std::string out, err;
  const int rc = mon::runShell(cmd.str(), out, err);
  REQUIRE_(rc == 0, "process.exit", "exit " << rc << ": " << err.substr(0, 1500));
  size_t at = 0;
  std::string expectOut;
  std::set<std::string> failed;
  for (int i = 0; i < kProps; i++) {
    const auto s = specOf(h, i);
    const std::string n = nameOf(h, i);
    const uint64_t hh = s.h;
    const int64_t thr = s.threshold % 100 + 1;
    auto test = [=](int x, const std::string &str) {
      const uint64_t c = mon::comb(mon::comb(hh, (uint64_t)x), mon::hashStr(str));
      RC_PRE(c % 7 != 0);
      RC_TAG(c % 3);
      if (i % 2) RC_ASSERT(progs::mag(x) + (int64_t)str.size() < thr);
    };
    Recorder rec;
    const auto res = progs::runCheck(toProperty(test), p, rec);
    std::string want = (n.empty() ? "" : "\n- " + n + "\n") + expectedMarks(rec.ev, prog, shr);
    std::string msg = printed(res);
    // The text of the assertion names this source line.
    const size_t cut = msg.find("C20_reports.cpp:");
    if (cut != std::string::npos) msg = msg.substr(0, cut);
    want += msg;
    const size_t f = err.find(want, at);
    REQUIRE_(f != std::string::npos, "process.report", "expected in the output of the process:\n" << want << "\nbut it is\n" << err.substr(at, 3000));
    at = f + want.size();
    SuccessResult sr;
    expectOut += res.match(sr) ? '1' : '0';
    FailureResult fr;
    if (!n.empty() && res.match(fr)) failed.insert(n);
    mon::count("process_reports_checked");
  }
  CHECK(out == expectOut + "\n", "process.return", "rc::check returned " << out << " instead of " << expectOut);
  progs::ReproMap m;
  const bool got = hint(err, m);
  std::set<std::string> in;
  for (auto &e : m) in.insert(e.first);
  CHECK(got == !failed.empty() && in == failed, "process.hint", "the hint lists " << toString(in) << " instead of " << toString(failed));
  mon::distinctStr(cmd.str());
}
} // namespace
