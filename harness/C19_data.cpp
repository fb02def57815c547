// C19: encoded data round-trips and malformed data is rejected safely.
#include "mon.hpp"
#include <rapidcheck.h>
#include "rapidcheck/detail/Results.h"
#include "rapidcheck/detail/Serialization.h"
#include "src/detail/Base64.h"
#include "src/detail/ParseException.h"
#include "src/detail/StringSerialization.h"
#include "rapidcheck/Check.h"
#include "rapidcheck/detail/TestListener.h"
#include <climits>
#include <forward_list>
#include <list>
#include <new>
using namespace rc;
using namespace rc::detail;
using mon::Rng;

// The largest single request for memory while armed.
static size_t g_largest = 0, g_total = 0;
void *operator new(std::size_t n) {
  if (n > g_largest) g_largest = n;
  g_total += n;
  void *p = n > (1ULL << 31) ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }

namespace {
using Bytes = std::vector<uint8_t>;
using ReproMap = std::unordered_map<std::string, Reproduce>;
using StrMap = std::unordered_map<std::string, std::string>;
using IntMap = std::unordered_map<int, std::pair<std::string, uint16_t>>;

std::string aString(Rng &rng) {
  std::string s;
  for (size_t n = rng.chance(1, 15) ? 100 + rng.below(200) : rng.below(12); n > 0; n--) s += (char)rng.next();
  return s;
}
template <typename T> T anInt(Rng &rng) {
  switch (rng.below(5)) {
  case 0: return (T)rng.below(4);
  case 1: return std::numeric_limits<T>::max() - (T)rng.below(3);
  case 2: return std::numeric_limits<T>::min() + (T)rng.below(3);
  case 3: return (T)(rng.next() >> rng.below(64));
  default: return (T)rng.next();
  }
}
Random aRandom(Rng &rng) {
  Random r(Random::Key{{rng.next(), rng.next(), rng.next(), rng.next()}});
  for (int k = (int)rng.below(90); k > 0; k--) { auto o = r.split(); if (rng.chance(1, 2)) r = o; }
  for (int k = rng.chance(1, 2) ? (int)rng.below(12) : 0; k > 0; k--) r.next();
  return r;
}
Reproduce aReproduce(Rng &rng) {
  Reproduce r;
  r.random = aRandom(rng);
  r.size = rng.chance(1, 6) ? INT_MAX : (int)rng.below(300);
  for (int k = (int)rng.below(20); k > 0; k--) r.shrinkPath.push_back(rng.chance(1, 8) ? rng.next() : rng.below(300));
  return r;
}

// A kind of data: how to make, encode and decode it.
template <typename T> struct Plain {
  static T make(Rng &rng) { return anInt<T>(rng); }
  template <typename O> static O enc(const T &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, T &v) { return deserialize(b, e, v); }
};
template <typename T> struct Compact {
  static T make(Rng &rng) { return anInt<T>(rng); }
  template <typename O> static O enc(const T &v, O o) { return serializeCompact(v, o); }
  template <typename I> static I dec(I b, I e, T &v) { return deserializeCompact(b, e, v); }
};
template <typename T> struct CompactRange {
  static std::vector<T> make(Rng &rng) {
    std::vector<T> v;
    for (size_t n = rng.below(20); n > 0; n--) v.push_back(anInt<T>(rng));
    return v;
  }
  template <typename O> static O enc(const std::vector<T> &v, O o) { return serializeCompact(v.begin(), v.end(), o); }
  template <typename I> static I dec(I b, I e, std::vector<T> &v) {
    v.clear();
    return deserializeCompact<T>(b, e, std::back_inserter(v)).first;
  }
};
template <typename T> struct NRange {
  static std::array<T, 7> make(Rng &rng) { std::array<T, 7> a; for (auto &x : a) x = anInt<T>(rng); return a; }
  template <typename O> static O enc(const std::array<T, 7> &v, O o) { return serializeN(v.begin(), v.size(), o); }
  template <typename I> static I dec(I b, I e, std::array<T, 7> &v) { return deserializeN<T>(b, e, v.size(), v.begin()); }
};
struct Str {
  static std::string make(Rng &rng) { return aString(rng); }
  template <typename O> static O enc(const std::string &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, std::string &v) { return deserialize(b, e, v); }
};
struct Pair {
  using T = std::pair<std::string, std::pair<int, uint64_t>>;
  static T make(Rng &rng) { return {aString(rng), {anInt<int>(rng), anInt<uint64_t>(rng)}}; }
  template <typename O> static O enc(const T &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, T &v) { return deserialize(b, e, v); }
};
struct Strs {
  static StrMap make(Rng &rng) { StrMap m; for (size_t n = rng.below(10); n > 0; n--) m[aString(rng)] = aString(rng); return m; }
  template <typename O> static O enc(const StrMap &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, StrMap &v) { return deserialize(b, e, v); }
};
struct Ints {
  static IntMap make(Rng &rng) { IntMap m; for (size_t n = rng.below(10); n > 0; n--) m[anInt<int>(rng)] = {aString(rng), anInt<uint16_t>(rng)}; return m; }
  template <typename O> static O enc(const IntMap &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, IntMap &v) { return deserialize(b, e, v); }
};
struct Engine {
  static Random make(Rng &rng) { return aRandom(rng); }
  template <typename O> static O enc(const Random &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, Random &v) { return deserialize(b, e, v); }
};
struct Repro {
  static Reproduce make(Rng &rng) { return aReproduce(rng); }
  template <typename O> static O enc(const Reproduce &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, Reproduce &v) { return deserialize(b, e, v); }
};
struct Repros {
  static ReproMap make(Rng &rng) { ReproMap m; for (size_t n = rng.below(4); n > 0; n--) m[aString(rng)] = aReproduce(rng); return m; }
  template <typename O> static O enc(const ReproMap &v, O o) { return serialize(v, o); }
  template <typename I> static I dec(I b, I e, ReproMap &v) { return deserialize(b, e, v); }
};
bool usable(const Random &r) { // draws without undefined behaviour
  Random c(r);
  uint64_t x = 0;
  for (int i = 0; i < 9; i++) x ^= c.next();
  return x || !x;
}
template <typename T> bool valid(const T &) { return true; }
bool valid(const Random &r) { return usable(r); }
bool valid(const Reproduce &r) { return r.size >= 0 && usable(r.random); }
bool valid(const ReproMap &m) { for (auto &p : m) if (!valid(p.second)) return false; return true; }

template <typename K> Bytes encode(const decltype(K::make(std::declval<Rng &>())) &v) {
  Bytes b;
  K::enc(v, std::back_inserter(b));
  return b;
}
// Decodes from a buffer of exactly the given bytes, so that reading outside is seen.
template <typename K> void exact(const Bytes &b, const std::function<void(const uint8_t *, const uint8_t *)> &f) {
  uint8_t *p = new uint8_t[b.size()];
  std::copy(b.begin(), b.end(), p);
  try { f(p, p + b.size()); } catch (...) { delete[] p; throw; }
  delete[] p;
}

template <typename K> void roundtrip(Rng &rng, const char *name) {
  using T = decltype(K::make(rng));
  const T v = K::make(rng);
  const Bytes b = encode<K>(v);
  mon::count("roundtrips");
  mon::count("bytes_encoded", b.size());
  // alone, exactly
  exact<K>(b, [&](const uint8_t *p, const uint8_t *e) {
    T w = K::make(rng); // whatever was there before is replaced
    const auto it = K::dec(p, e, w);
    CHECK(w == v, "roundtrip", name << " decoded differently from " << mon::hex(b));
    CHECK(it == e, "consumed", name << " left " << (e - it) << " of " << b.size() << " bytes");
  });
  // with more data behind, from other kinds of iterators
  Bytes more = b;
  const T v2 = K::make(rng);
  K::enc(v2, std::back_inserter(more));
  for (int i = (int)rng.below(3); i > 0; i--) more.push_back((uint8_t)rng.next());
  {
    std::list<uint8_t> l(more.begin(), more.end());
    T w = K::make(rng), w2 = K::make(rng);
    auto it = K::dec(l.begin(), l.end(), w);
    CHECK((size_t)std::distance(l.begin(), it) == b.size(), "consumed", name << " consumed " << std::distance(l.begin(), it) << " of " << b.size() << " bytes");
    it = K::dec(it, l.end(), w2);
    CHECK(w == v && w2 == v2, "sequence", name << " two values behind each other");
  }
  {
    const std::string s(more.begin(), more.end()); // signed bytes
    T w = K::make(rng);
    K::dec(s.begin(), s.end(), w);
    CHECK(w == v, "roundtrip-chars", name << " decoded differently from chars");
  }
  // encoding into other iterators gives the same bytes and the end
  {
    Bytes out(b.size() + 3, 0xEE);
    auto it = K::enc(v, out.begin());
    CHECK((size_t)(it - out.begin()) == b.size() && std::equal(b.begin(), b.end(), out.begin()) && out.back() == 0xEE, "encode-iterator", name);
  }
  // every cut is noticed
  for (size_t tries = 0; tries < 6 && !b.empty(); tries++) {
    const size_t n = tries == 0 ? b.size() - 1 : rng.below(b.size());
    Bytes cut(b.begin(), b.begin() + n);
    bool threw = false;
    exact<K>(cut, [&](const uint8_t *p, const uint8_t *e) {
      T w = K::make(rng);
      try { K::dec(p, e, w); } catch (const SerializationException &ex) { threw = true; CHECK(*ex.what(), "no-message", name); }
    });
    CHECK(threw, "truncation", name << " accepted " << n << " of " << b.size() << " bytes");
    mon::count("truncations");
  }
  mon::distinctStr(name + mon::hex(b));
}

Bytes hostile(Rng &rng, Bytes b) {
  switch (rng.below(5)) {
  case 0: { Bytes r; for (size_t n = rng.below(60); n > 0; n--) r.push_back(rng.chance(1, 3) ? 0xFF : (uint8_t)rng.next()); return r; }
  case 1: { Bytes r; for (size_t n = rng.below(30); n > 0; n--) r.push_back(rng.chance(5, 6) ? 0xFF : 0x80); if (rng.chance(1, 2)) r.push_back((uint8_t)rng.below(128)); return r; }
  case 2: // a huge length in front
    b.insert(b.begin(), {0xFF, 0xFF, 0xFF, 0xFF, 0xFF, (uint8_t)(rng.chance(1, 2) ? 0xFF : 0x0F), 0xFF, 0xFF, 0xFF, 0x01});
    return b;
  default:
    for (int n = 1 + (int)rng.below(4); n > 0 && !b.empty(); n--) {
      const size_t at = rng.below(b.size());
      switch (rng.below(4)) {
      case 0: b[at] ^= (uint8_t)(1u << rng.below(8)); break;
      case 1: b[at] = rng.chance(1, 2) ? 0xFF : (uint8_t)rng.next(); break;
      case 2: b.erase(b.begin() + at, b.begin() + at + std::min<size_t>(b.size() - at, 1 + rng.below(4))); break;
      default: b.insert(b.begin() + at, 1 + rng.below(12), (uint8_t)(rng.chance(1, 2) ? 0xFF : rng.next())); break;
      }
    }
    return b;
  }
}
template <typename K> void attack(Rng &rng, const char *name) {
  using T = decltype(K::make(rng));
  const Bytes b = hostile(rng, encode<K>(K::make(rng)));
  T w = K::make(rng);
  bool ok = false;
  size_t largest = 0, total = 0;
  exact<K>(b, [&](const uint8_t *p, const uint8_t *e) {
    g_largest = g_total = 0;
    try {
      const auto it = K::dec(p, e, w);
      largest = g_largest; total = g_total;
      CHECK(it >= p && it <= e, "overrun", name << " ended outside of its input");
      ok = true;
    } catch (const SerializationException &) {
      largest = g_largest; total = g_total;
    }
  });
  CHECK(largest <= 4096 + 64 * b.size() && total <= 65536 + 4096 * b.size(), "memory", name << " asked for " << largest << " bytes at once, " << total << " in all, for " << b.size() << " bytes of input " << mon::hex(b));
  if (ok) {
    CHECK(valid(w), "invalid-value", name << " from " << mon::hex(b));
    const Bytes again = encode<K>(w);
    T w2 = K::make(rng);
    K::dec(again.begin(), again.end(), w2);
    CHECK(w == w2, "not-a-value", name << " from " << mon::hex(b));
    mon::count("hostile_accepted");
  } else mon::count("hostile_rejected");
  mon::distinctStr(name + mon::hex(b));
}
#define KINDS(F)                                                                                                             \
  switch (rng.below(28)) {                                                                                                   \
  case 0: F<Plain<int8_t>>(rng, "int8"); break;                                                                              \
  case 1: F<Plain<uint8_t>>(rng, "uint8"); break;                                                                            \
  case 2: F<Plain<int16_t>>(rng, "int16"); break;                                                                            \
  case 3: F<Plain<uint16_t>>(rng, "uint16"); break;                                                                          \
  case 4: F<Plain<int32_t>>(rng, "int32"); break;                                                                            \
  case 5: F<Plain<uint32_t>>(rng, "uint32"); break;                                                                          \
  case 6: F<Plain<int64_t>>(rng, "int64"); break;                                                                            \
  case 7: F<Plain<uint64_t>>(rng, "uint64"); break;                                                                          \
  case 8: F<Compact<int8_t>>(rng, "compact int8"); break;                                                                    \
  case 9: F<Compact<uint8_t>>(rng, "compact uint8"); break;                                                                  \
  case 10: F<Compact<int16_t>>(rng, "compact int16"); break;                                                                 \
  case 11: F<Compact<uint16_t>>(rng, "compact uint16"); break;                                                               \
  case 12: F<Compact<int32_t>>(rng, "compact int32"); break;                                                                 \
  case 13: F<Compact<uint32_t>>(rng, "compact uint32"); break;                                                               \
  case 14: F<Compact<int64_t>>(rng, "compact int64"); break;                                                                 \
  case 15: F<Compact<uint64_t>>(rng, "compact uint64"); break;                                                               \
  case 16: F<CompactRange<uint64_t>>(rng, "range of uint64"); break;                                                         \
  case 17: F<CompactRange<int>>(rng, "range of int"); break;                                                                 \
  case 18: F<CompactRange<uint16_t>>(rng, "range of uint16"); break;                                                         \
  case 19: F<NRange<uint64_t>>(rng, "seven uint64"); break;                                                                  \
  case 20: F<NRange<int16_t>>(rng, "seven int16"); break;                                                                    \
  case 21: F<Str>(rng, "string"); break;                                                                                     \
  case 22: F<Pair>(rng, "pair"); break;                                                                                      \
  case 23: F<Strs>(rng, "map of strings"); break;                                                                            \
  case 24: F<Ints>(rng, "map of pairs"); break;                                                                              \
  case 25: F<Engine>(rng, "engine"); break;                                                                                  \
  case 26: F<Repro>(rng, "reproduction data"); break;                                                                        \
  default: F<Repros>(rng, "reproduction map"); break;                                                                        \
  }
} // namespace

SECTION("roundtrip", 12000, 400000) { KINDS(roundtrip) }
SECTION("hostile", 30000, 1000000) { KINDS(attack) }

// All values of the small types, and every number of bytes of the large ones.
SECTION("exhaustive", 1, 4) {
  for (int i = -128; i < 256; i++) {
    Bytes b, c;
    int8_t a = (int8_t)i, x = 0;
    uint8_t u = (uint8_t)i, y = 0;
    serialize(a, std::back_inserter(b));
    serializeCompact(u, std::back_inserter(c));
    deserialize(b.begin(), b.end(), x);
    deserializeCompact(c.begin(), c.end(), y);
    CHECK(a == x && u == y, "exhaustive8", i);
  }
  for (int i = 0; i < 65536; i++) {
    Bytes b, c;
    int16_t a = (int16_t)i, x = 0;
    uint16_t u = (uint16_t)i, y = 0;
    serializeCompact(a, std::back_inserter(b));
    serializeCompact(u, std::back_inserter(c));
    const auto e = deserializeCompact(b.begin(), b.end(), x);
    deserializeCompact(c.begin(), c.end(), y);
    CHECK(a == x && u == y && e == b.end(), "exhaustive16", i);
  }
  std::set<size_t> lens;
  for (int bit = 0; bit < 64; bit++)
    for (int d = -2; d <= 2; d++) {
      const uint64_t v = (1ULL << bit) + (uint64_t)(int64_t)d;
      Bytes b;
      uint64_t w = 0;
      serializeCompact(v, std::back_inserter(b));
      const auto e = deserializeCompact(b.begin(), b.end(), w);
      CHECK(v == w && e == b.end(), "boundary64", v);
      lens.insert(b.size());
    }
  mon::count("compact_lengths", lens.size());
  mon::distinct(rng.next());
}

// Lengths of several bytes: strings, maps and lists with very many elements.
SECTION("long-data", 3, 60) {
  const size_t n = 65537 + rng.below(3000);
  {
    StrMap m;
    while (m.size() < n) m[std::to_string(rng.next())] = (char)rng.next();
    const Bytes b = encode<Strs>(m);
    StrMap x;
    CHECK(deserialize(b.begin(), b.end(), x) == b.end() && x == m, "long-map", "map of " << m.size() << " entries decodes to " << x.size());
  }
  {
    std::string s(n, 'x'), t;
    for (auto &c : s) c = (char)rng.next();
    Bytes b;
    serialize(s, std::back_inserter(b));
    CHECK(deserialize(b.begin(), b.end(), t) == b.end() && t == s, "long-string", "string of " << n << " decodes to one of " << t.size());
  }
  {
    ReproMap m, x;
    auto &r = m["long"];
    r = aReproduce(rng);
    r.shrinkPath.clear();
    while (r.shrinkPath.size() < n) r.shrinkPath.push_back((size_t)rng.next() >> rng.below(64));
    while (m.size() < 300) m[std::to_string(rng.next())] = aReproduce(rng);
    x = stringToReproduceMap(reproduceMapToString(m));
    CHECK(x == m, "long-reproduction", "reproduction data with a path of " << n << " steps and " << m.size() << " names");
    Bytes b;
    serializeCompact(begin(r.shrinkPath), end(r.shrinkPath), std::back_inserter(b));
    std::vector<size_t> back;
    const auto e = deserializeCompact<size_t>(b.begin(), b.end(), std::back_inserter(back)).first;
    CHECK(e == b.end() && back == r.shrinkPath, "long-list", "list of " << n << " numbers decodes to " << back.size());
  }
  mon::count("long_roundtrips", 4);
  mon::distinct(n);
}

SECTION("base64", 8000, 300000) {
  Bytes d;
  for (size_t n = rng.chance(1, 10) ? rng.below(1000) : rng.below(20); n > 0; n--) d.push_back((uint8_t)rng.next());
  const auto s = base64Encode(d);
  for (char c : s) CHECK(std::isalnum((unsigned char)c) || c == '+' || c == '_', "alphabet", "character " << (int)c << " in base64");
  CHECK(s.size() == (d.size() * 4 + 2) / 3, "base64-size", s.size() << " characters for " << d.size() << " bytes");
  try {
    CHECK(base64Decode(s) == d, "base64", mon::hex(d) << " as " << s);
  } catch (const ParseException &e) {
    CHECK(false, "base64-rejected", mon::hex(d) << " as " << s << ": " << e.what());
  }
  mon::count("base64_roundtrips");
  mon::distinctStr(s);
  // damaged
  std::string t = s;
  if (rng.chance(1, 2) || t.empty()) {
    t.clear();
    for (size_t n = rng.below(30); n > 0; n--) t += rng.chance(1, 6) ? (char)rng.next() : "ABCz059+_"[rng.below(9)];
  } else {
    t[rng.below(t.size())] = (char)rng.next();
    if (rng.chance(1, 3)) t.resize(rng.below(t.size() + 1));
  }
  bool bad = t.size() % 4 == 1;
  for (char c : t) bad = bad || !(((unsigned char)c < 128 && std::isalnum((unsigned char)c)) || c == '+' || c == '_');
  std::unique_ptr<std::string> exactly(new std::string(t));
  exactly->shrink_to_fit();
  try {
    const auto out = base64Decode(*exactly);
    CHECK(!bad, "base64-accepted", "invalid text of " << t.size() << " characters decoded");
    CHECK(out.size() == t.size() * 3 / 4, "base64-decoded-size", out.size() << " bytes from " << t.size());
    mon::count("texts_decoded");
  } catch (const ParseException &e) {
    CHECK(bad, "base64-valid-rejected", t << ": " << e.what());
    CHECK(e.position() <= t.size(), "base64-position", e.position());
    mon::count("texts_rejected");
  }
}
SECTION("reproduce-text", 6000, 200000) {
  const auto m = Repros::make(rng);
  const auto s = reproduceMapToString(m);
  try {
    CHECK(stringToReproduceMap(s) == m, "reproduce-text", s);
  } catch (const ParseException &e) {
    CHECK(false, "reproduce-text-rejected", s << ": " << e.what());
  }
  std::string t;
  if (rng.chance(1, 2)) t = base64Encode(hostile(rng, encode<Repros>(m)));
  else {
    t = s;
    for (int n = 1 + (int)rng.below(3); n > 0 && !t.empty(); n--) {
      const auto at = rng.below(t.size());
      if (rng.chance(1, 2)) t[at] = rng.chance(1, 4) ? (char)rng.next() : "ABC_9z"[rng.below(6)];
      else t.erase(at, 1 + rng.below(3));
    }
  }
  g_largest = 0;
  try {
    const auto got = stringToReproduceMap(t);
    CHECK(valid(got), "reproduce-invalid", t);
    CHECK(stringToReproduceMap(reproduceMapToString(got)) == got, "reproduce-not-a-value", t);
    mon::count("damaged_accepted");
  } catch (const ParseException &) {
    mon::count("damaged_rejected");
  }
  CHECK(g_largest <= 8192 + 64 * t.size(), "reproduce-memory", t << " asked for " << g_largest << " bytes");
  mon::count("reproduce_texts");
  mon::distinctStr(t);
}
// Accepted data can be replayed: no crash whatever the size and path.
SECTION("replay", 1500, 20000) {
  ReproMap m;
  Reproduce r = aReproduce(rng);
  r.random = Random(rng.next());
  r.size = (int)rng.below(40);
  m["p"] = r;
  ReproMap got;
  try {
    Bytes b = encode<Repros>(m);
    if (rng.chance(2, 3)) { // damage the size or the path
      const size_t at = b.size() - 1 - rng.below(std::min<size_t>(b.size() - 1, 4 + r.shrinkPath.size() + 1));
      b[at] = (uint8_t)rng.next();
    }
    got = stringToReproduceMap(base64Encode(b));
  } catch (const ParseException &) {
    mon::count("replays_rejected");
    return;
  }
  if (!got.count("p")) return;
  // (sizes in the millions are valid but make the containers of the body huge)
  if (got["p"].size > 2000) return;
  struct Quiet : TestListener {
    void onTestCaseFinished(const CaseDescription &) override {}
    void onShrinkTried(const CaseDescription &, bool) override {}
    void onTestFinished(const TestMetadata &, const TestResult &) override {}
  } quiet;
  TestMetadata meta;
  meta.id = "p";
  const auto res = checkProperty(toProperty([](const std::vector<int> &v, int x) { RC_ASSERT(v.size() + (x != 0) < 1); }), meta, TestParams(), quiet, got);
  CHECK(res.is<FailureResult>() || res.is<Error>() || res.is<SuccessResult>(), "replay", res);
  mon::count("damaged_replays");
  mon::distinct(rng.next());
}
