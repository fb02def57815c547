// C20: showing values, against an independent printer.
#include "progs.hpp"
#include <rapidcheck/state.h>
#include "rapidcheck/detail/TestListenerAdapter.h"
#include <rapidcheck/boost.h>
#include <boost/optional/optional_io.hpp>
#include <array>
#include <cstdio>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <stack>
#include <unordered_map>
#include <unordered_set>
using namespace rc;
using namespace rc::detail;
using mon::Rng;
using progs::Recorder;
namespace {
struct Dev { int x; };
std::ostream &operator<<(std::ostream &os, const Dev &d) { return os << "dev" << d.x; }
std::string q(const std::string &s) { // own display of a text of printable characters
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
  return o + "\"";
}
// ---- showing values, against an independent printer
struct NoShow { int x; };
template <typename T> struct Fmt;
template <typename T> std::string fmt(const T &x) { return Fmt<T>::f(x); }
#define FMT_NUM(T) template <> struct Fmt<T> { static std::string f(T x) { return std::to_string((long long)x); } static T make(Rng &r, int) { return r.chance(1, 3) ? (T)r.next() : (T)r.range(-3, 3); } }
FMT_NUM(char); FMT_NUM(signed char); FMT_NUM(unsigned char); FMT_NUM(short); FMT_NUM(unsigned short); FMT_NUM(int); FMT_NUM(unsigned); FMT_NUM(long); FMT_NUM(long long);
template <> struct Fmt<unsigned long> { static std::string f(unsigned long x) { return std::to_string(x); } static unsigned long make(Rng &r, int) { return r.next(); } };
template <> struct Fmt<bool> { static std::string f(bool x) { return x ? "true" : "false"; } static bool make(Rng &r, int) { return r.chance(1, 2); } };
template <> struct Fmt<Dev> { static std::string f(const Dev &x) { return "dev" + std::to_string(x.x); } static Dev make(Rng &r, int) { return Dev{(int)r.below(9)}; } };
template <> struct Fmt<NoShow> { static std::string f(const NoShow &) { return "<?\?\?>"; } static NoShow make(Rng &, int) { return NoShow{1}; } };
template <> struct Fmt<std::string> {
  static std::string f(const std::string &s) { return q(s); }
  static std::string make(Rng &r, int) { std::string s; for (int i = 0, n = (int)r.below(6); i < n; i++) s += (char)r.range(32, 126); return s; }
};
template <typename C> std::string coll(const char *a, const char *b, const C &c) {
  std::string o = a;
  bool first = true;
  for (auto it = c.begin(); it != c.end(); ++it) { if (!first) o += ", "; first = false; o += fmt<typename C::value_type>(*it); }
  return o + b;
}
template <typename A, typename B> struct Fmt<std::pair<A, B>> {
  using A0 = typename std::remove_const<A>::type;
  static std::string f(const std::pair<A, B> &p) { return "(" + fmt<A0>(p.first) + ", " + fmt<B>(p.second) + ")"; }
  static std::pair<A, B> make(Rng &r, int d) { A a = Fmt<A0>::make(r, d); B b = Fmt<B>::make(r, d); return std::pair<A, B>(std::move(a), std::move(b)); }
};
template <typename C> C fill(Rng &r, int d) {
  C c;
  for (int i = 0, n = (int)r.below(4); i < n; i++) c.insert(c.end(), Fmt<typename C::value_type>::make(r, d));
  return c;
}
#define FMT_SEQ(C) template <typename T> struct Fmt<C<T>> { static std::string f(const C<T> &c) { return coll("[", "]", c); } static C<T> make(Rng &r, int d) { return fill<C<T>>(r, d); } }
#define FMT_SET(C) template <typename T> struct Fmt<C<T>> { static std::string f(const C<T> &c) { return coll("{", "}", c); } static C<T> make(Rng &r, int d) { return fill<C<T>>(r, d); } }
#define FMT_MAP(C) template <typename K, typename T> struct Fmt<C<K, T>> { static std::string f(const C<K, T> &c) { return coll("{", "}", c); } static C<K, T> make(Rng &r, int d) { C<K, T> c; for (int i = 0, n = (int)r.below(4); i < n; i++) c.insert(Fmt<std::pair<const K, T>>::make(r, d)); return c; } }
FMT_SEQ(std::vector); FMT_SEQ(std::deque); FMT_SEQ(std::list);
template <typename T> struct Fmt<std::forward_list<T>> { static std::string f(const std::forward_list<T> &c) { return coll("[", "]", c); } static std::forward_list<T> make(Rng &r, int d) { std::forward_list<T> c; for (int i = 0, n = (int)r.below(4); i < n; i++) c.push_front(Fmt<T>::make(r, d)); return c; } };
FMT_SET(std::set); FMT_SET(std::multiset); FMT_SET(std::unordered_set); FMT_SET(std::unordered_multiset);
FMT_MAP(std::map); FMT_MAP(std::multimap); FMT_MAP(std::unordered_map); FMT_MAP(std::unordered_multimap);
template <typename T, size_t N> struct Fmt<std::array<T, N>> { static std::string f(const std::array<T, N> &c) { return coll("[", "]", c); } static std::array<T, N> make(Rng &r, int d) { std::array<T, N> a; for (auto &x : a) x = Fmt<T>::make(r, d); return a; } };
template <typename... Ts> struct Fmt<std::tuple<Ts...>> {
  static std::string f(const std::tuple<Ts...> &t) {
    std::string o;
    std::apply([&](const Ts &... xs) { bool first = true; int d[] = {0, ((o += (first ? "" : ", ") + fmt<Ts>(xs), first = false), 0)...}; (void)d; }, t);
    return "(" + o + ")";
  }
  static std::tuple<Ts...> make(Rng &r, int d) { return std::tuple<Ts...>{Fmt<Ts>::make(r, d)...}; }
};
template <typename T> struct Fmt<Maybe<T>> {
  static std::string f(const Maybe<T> &m) { return m ? fmt<T>(*m) : "Nothing"; }
  static Maybe<T> make(Rng &r, int d) { if (r.chance(1, 3)) return Nothing; return Fmt<T>::make(r, d); }
};
template <typename T> struct Fmt<boost::optional<T>> {
  static std::string f(const boost::optional<T> &m) { return m ? fmt<T>(*m) : "boost::none"; }
  static boost::optional<T> make(Rng &r, int d) { if (r.chance(1, 3)) return boost::none; return Fmt<T>::make(r, d); }
};
// Pointers show what they point to, and survive being null.
template <typename P, typename T> void pointerCase(Rng &r, P p, const T *raw) {
  const std::string s = toString(p);
  mon::count("pointers_shown");
  if (!raw) { CHECK(!s.empty(), "show.null", "a null pointer is shown as nothing"); return; }
  char addr[40];
  std::snprintf(addr, sizeof addr, "%p", (const void *)raw);
  CHECK(s == fmt<T>(*raw) + " (" + addr + ")", "show.pointer", "a pointer to " << fmt<T>(*raw) << " at " << addr << " is shown as " << s);
}
template <typename T> void showCase(Rng &r) {
  const T x = Fmt<T>::make(r, 3);
  const std::string want = fmt<T>(x), got = toString(x);
  CHECK(got == want, "show.value", got << " is shown for " << want);
  std::ostringstream os;
  os << std::hex << std::uppercase << std::showbase;
  os << "";
  std::ostringstream o2;
  show(x, o2);
  o2 << 255 << ' ' << 2.5;
  CHECK(o2.str() == want + "255 2.5", "show.flags", "after showing " << want << " the stream prints " << o2.str());
  mon::count("values_shown");
  mon::distinctStr(want);
  // through a report
  const auto g = gen::noShrink(gen::just(x));
  if (r.chance(1, 10)) {
    Recorder rec;
    TestParams p;
    const auto res = progs::runCheck(toProperty([&] { *g.as("it"); RC_FAIL("f"); }), p, rec);
    FailureResult f;
    CHECK(res.match(f) && f.counterExample == (Example{{"it", want}}), "show.report", "the counterexample " << want << " is reported as " << progs::showResult(res));
  }
}
template <typename T> void ptrs(Rng &r) {
  T x = Fmt<T>::make(r, 2);
  const bool null = r.chance(1, 4);
  pointerCase(r, null ? (T *)nullptr : &x, null ? nullptr : &x);
  std::unique_ptr<T> u(null ? nullptr : new T(x));
  const T *raw = u.get();
  pointerCase<const std::unique_ptr<T> &, T>(r, u, raw);
  std::shared_ptr<T> s(null ? nullptr : new T(x));
  pointerCase(r, s, (const T *)s.get());
}
// Any bytes: printable characters appear as themselves, every other one as an
// escape from which the byte can be told.
std::string unescape(const std::string &s, bool &ok) {
  std::string o;
  ok = s.size() >= 2 && s[0] == '"' && s[s.size() - 1] == '"';
  for (size_t i = 1; ok && i + 1 < s.size(); i++) {
    const unsigned char c = s[i];
    if (c < 32 || c > 126 || c == '"') { ok = false; break; }
    if (c != '\\') { o += s[i]; continue; }
    if (++i + 1 >= s.size()) { ok = false; break; }
    static const char from[] = "abfnrtv0\\\"'e", to[] = "\a\b\f\n\r\t\v\0\\\"'\x1b";
    if (s[i] == 'x') {
      size_t n = 0, v = 0;
      while (n < 2 && i + 2 < s.size() && std::isxdigit((unsigned char)s[i + 1])) { v = v * 16 + std::stoi(std::string(1, s[++i]), nullptr, 16); n++; }
      if (!n) ok = false;
      o += (char)v;
    } else if (const char *p = std::strchr(from, s[i])) o += to[p - from];
    else ok = false;
  }
  return o;
}
// ---- the type a counterexample item is labelled with
template <typename T> void typeCase(const std::string &name) {
  CHECK(typeToString<T>() == name, "type.name", "the type " << name << " is called " << typeToString<T>());
}
template <typename T> void typeItem(Rng &rng, const std::string &name) {
  typeCase<T>(name); typeCase<const T>("const " + name); typeCase<T &>(name + " &"); typeCase<T *>(name + " *"); typeCase<T **>(name + " **");
  typeCase<std::vector<T>>("std::vector<" + name + ">"); typeCase<std::pair<T, int>>("std::pair<" + name + ", int>"); typeCase<std::shared_ptr<T>>("std::shared_ptr<" + name + ">");
  typeCase<std::tuple<bool, T, char>>("std::tuple<bool, " + name + ", char>"); typeCase<std::unique_ptr<T>>("std::unique_ptr<" + name + ">");
  TestParams p;
  p.seed = rng.next();
  p.disableShrinking = true;
  TestMetadata md;
  TestListenerAdapter l;
  const auto g = gen::map(gen::just(1), [](int) { return T(); });
  const bool args = rng.chance(1, 2);
  const TestResult res = checkProperty(toProperty([=] { const T a = *g; const T b = args ? *g.as("named") : *gen::noShrink(g); RC_FAIL("always"); }), md, p, l, {});
  FailureResult fr;
  REQUIRE_(res.match(fr) && fr.counterExample.size() == 2, "type.items", "two values of type " << name << " give another counterexample");
  CHECK(fr.counterExample[0].first == name, "type.item", "an item of type " << name << " is called " << fr.counterExample[0].first);
  CHECK(fr.counterExample[1].first == (args ? "named" : name), "type.item-named", "the second item of type " << name << " is called " << fr.counterExample[1].first);
  mon::count("type_names");
  mon::distinctStr(name);
}
} // namespace
namespace c20 { // a command that does not say how it is shown is shown by its type
struct Machine {};
struct Plain : state::Command<std::vector<int>, Machine> {};
template <int N> struct Numbered : state::Command<std::vector<int>, Machine> { void show(std::ostream &os) const override { os << "no. " << N; } };
}
namespace {
SECTION("commands", 60, 400) {
  using Cmd = state::Command<std::vector<int>, c20::Machine>;
  typeCase<Cmd>("Command<std::vector<int>, c20::Machine>");
  state::Commands<Cmd> cmds;
  std::vector<std::string> want;
  for (int n = (int)rng.below(6); n > 0; n--) switch (rng.below(3)) {
    case 0: cmds.push_back(std::make_shared<c20::Plain>()); want.push_back("c20::Plain"); break;
    case 1: cmds.push_back(std::make_shared<c20::Numbered<1>>()); want.push_back("no. 1"); break;
    default: cmds.push_back(std::make_shared<c20::Numbered<2>>()); want.push_back("no. 2");
  }
  std::vector<std::string> got;
  std::istringstream is(toString(cmds));
  for (std::string l; std::getline(is, l);) if (!l.empty()) got.push_back(l);
  CHECK(got == want, "show.commands", "the " << want.size() << " commands are shown as " << toString(cmds));
  for (size_t i = 0; i < cmds.size(); i++) CHECK(toString(*cmds[i]) == want[i], "show.command", "command " << want[i] << " is shown as " << toString(*cmds[i]));
  mon::count("commands_shown", want.size());
  mon::distinctStr(toString(cmds));
}
SECTION("types", 30, 200) {
#define TI(...) typeItem<__VA_ARGS__>(rng, #__VA_ARGS__);
  TI(int) TI(char) TI(bool) TI(double) TI(float) TI(short) TI(long) TI(std::string) TI(std::wstring) TI(std::u16string) TI(std::u32string)
  typeItem<unsigned char>(rng, "unsigned char"); typeItem<signed char>(rng, "signed char"); typeItem<uint32_t>(rng, "unsigned int");
  TI(std::vector<int>) TI(std::deque<bool>) TI(std::forward_list<int>) TI(std::list<std::string>) TI(std::set<int>) TI(std::map<int, std::string>)
  TI(std::multiset<char>) TI(std::multimap<std::string, int>) TI(std::unordered_set<int>) TI(std::unordered_map<int, std::vector<bool>>)
  TI(std::unordered_multimap<int, bool>) TI(std::unordered_multiset<std::string>) TI(std::array<int, 3>) TI(std::array<std::pair<int, char>, 12>)
  TI(std::pair<int, std::string>) TI(std::tuple<>) TI(std::tuple<int>) TI(std::tuple<int, std::string, std::vector<int>, bool>)
  TI(std::shared_ptr<int>) TI(std::map<int, std::map<int, std::set<int>>>) TI(std::vector<std::tuple<std::vector<int>, bool>>)
  typeCase<std::stack<int>>("std::stack<int>"); typeCase<volatile int>("volatile int"); typeCase<const volatile int>("const volatile int"); typeCase<int &&>("int &&");
}
SECTION("bytes", 400, 8000) {
  // (not followed by a hexadecimal digit, with which an escape could be confused)
  for (int k = 0; k < 10; k++) {
    std::string s;
    const int n = rng.chance(1, 3) ? 1 : (int)rng.below(12);
    for (int i = 0; i < n; i++) {
      s += rng.chance(1, 3) ? (char)rng.range(32, 126) : (char)rng.below(256);
      if (rng.chance(1, 2) || (i + 1 < n)) s += "gz _-"[rng.below(5)];
    }
    const std::string got = rng.chance(1, 4) ? toString(s.c_str()) : toString(s);
    if (got == toString(s.c_str()) && got != toString(s)) s = s.c_str();
    bool ok;
    const std::string back = unescape(got, ok);
    CHECK(ok && back == s, "show.bytes", "the " << s.size() << " bytes " << mon::hex(std::vector<uint8_t>(s.begin(), s.end())) << " are shown as " << got);
    // What is shown after it is not affected.
    const double d = (double)rng.range(-1000000, 1000000) / 4096;
    std::ostringstream os;
    show(std::make_pair(s, d), os);
    os << ' ' << d << ' ' << 48879;
    CHECK(os.str() == "(" + toString(s) + ", " + toString(d) + ") " + toString(d) + " 48879", "show.after-bytes", "a text and the number " << toString(d) << " are shown as " << os.str());
    mon::count("byte_strings_shown");
    mon::distinctStr(s);
  }
}
SECTION("show", 1200, 20000) {
  showCase<char>(rng); showCase<signed char>(rng); showCase<unsigned char>(rng); showCase<short>(rng); showCase<unsigned short>(rng);
  showCase<int>(rng); showCase<unsigned>(rng); showCase<long>(rng); showCase<unsigned long>(rng); showCase<bool>(rng);
  showCase<std::string>(rng); showCase<Dev>(rng); showCase<NoShow>(rng);
  showCase<std::tuple<>>(rng); showCase<std::tuple<int>>(rng); showCase<std::tuple<bool, std::string, std::vector<int>>>(rng);
  showCase<std::tuple<int, char, bool, std::string, std::pair<int, int>>>(rng);
  showCase<std::vector<std::vector<std::string>>>(rng); showCase<std::deque<char>>(rng); showCase<std::list<std::pair<int, bool>>>(rng);
  showCase<std::forward_list<std::string>>(rng); showCase<std::set<int>>(rng); showCase<std::multiset<std::string>>(rng);
  showCase<std::unordered_set<int>>(rng); showCase<std::unordered_multiset<int>>(rng); showCase<std::map<int, std::string>>(rng);
  showCase<std::multimap<std::string, std::vector<int>>>(rng); showCase<std::unordered_map<int, bool>>(rng); showCase<std::unordered_multimap<int, std::string>>(rng);
  showCase<std::array<int, 3>>(rng); showCase<Maybe<std::string>>(rng); showCase<std::vector<Maybe<int>>>(rng); showCase<std::array<std::string, 0>>(rng); showCase<std::vector<Dev>>(rng); showCase<std::vector<NoShow>>(rng);
  showCase<boost::optional<int>>(rng); showCase<boost::optional<std::string>>(rng); showCase<std::vector<boost::optional<Dev>>>(rng); showCase<boost::optional<boost::optional<int>>>(rng);
  ptrs<int>(rng); ptrs<std::string>(rng); ptrs<std::vector<int>>(rng);
  const char *null = nullptr;
  CHECK(!toString(null).empty() && toString("a\"b") == "\"a\\\"b\"", "show.cstring", toString("a\"b"));
}
} // namespace
