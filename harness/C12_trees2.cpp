#include "C12_measure.hpp"

SECTION("trees2", 2000, 30000) {
#define K(N, ...) case N: descend(rng, #__VA_ARGS__, __VA_ARGS__); break;
  switch (29 + rng.below(21)) {
    K(29, gen::positive<int64_t>()) K(30, gen::negative<int>()) K(31, gen::nonNegative<int16_t>()) K(32, A<std::chrono::milliseconds>())
    K(33, A<std::chrono::hours>()) K(34, gen::string<std::string>()) K(35, (A<std::map<int8_t, int8_t>>())) K(36, gen::arbitrary<std::vector<std::wstring>>())
    K(37, A<std::vector<std::pair<int, int>>>()) K(38, (A<std::tuple<std::tuple<int, int>, std::vector<signed char>>>()))
    K(39, gen::suchThat(A<int>(), [](int x) { return x % 3 == 0; })) K(40, gen::suchThat(A<std::vector<int>>(), [](const std::vector<int> &v) { return v.size() % 2 == 0; }))
    K(41, gen::nonEmpty<std::string>()) K(42, gen::maybe(gen::maybe(A<int>()))) K(43, gen::pair(A<int>(), gen::container<std::vector<int>>(3, A<int>())))
    K(44, gen::tuple(A<int>(), A<int>(), A<int>(), A<int>())) K(45, A<std::vector<float>>()) K(46, A<std::vector<uint64_t>>())
    K(47, gen::string<std::u16string>()) K(48, gen::string<std::u32string>()) K(49, gen::character<char32_t>())
  default: break;
  }
}

// The shrink graph of every character is finite and without cycles.
SECTION("characters", 40, 200) {
  auto &r = ranks<char>();
  for (int c = -128; c < 128; c++) r.of((char)c);
  CHECK(!r.cyclic, "character.cycle", "shrinking some char can come back to it");
  auto &w = ranks<wchar_t>();
  for (int i = 0; i < 200; i++) w.of((wchar_t)(rng.chance(1, 2) ? rng.below(0x300) : rng.below(0x10ffff)));
  CHECK(!w.cyclic, "character.cycle", "shrinking some wchar_t can come back to it");
  auto &h = ranks<char16_t>();
  auto &u = ranks<char32_t>();
  for (int i = 0; i < 200; i++) {
    const uint32_t x = rng.chance(1, 2) ? rng.below(0x300) : (uint32_t)rng.next();
    h.of((char16_t)x);
    u.of((char32_t)x);
  }
  CHECK(!h.cyclic && !u.cyclic, "character.cycle", "shrinking some char16_t or char32_t can come back to it");
  // every character but 'a' has a smaller one, and all shrink to 'a'
  CHECK(w.rank[L'a'] == 0 && h.rank[u'a'] == 0 && u.rank[U'a'] == 0 && r.rank['a'] == 0, "character.smallest", "'a' can be shrunk");
  for (auto &p : w.rank) CHECK(p.first == L'a' || p.second > 0, "character.stuck", "wchar_t " << (long)p.first << " has no shrink");
  for (auto &p : h.rank) CHECK(p.first == u'a' || p.second > 0, "character.stuck", "char16_t " << (long)p.first << " has no shrink");
  for (auto &p : u.rank) CHECK(p.first == U'a' || p.second > 0, "character.stuck", "char32_t " << (long)p.first << " has no shrink");
  for (auto &p : r.rank) CHECK(p.first == 'a' || p.second > 0, "character.stuck", "char " << (long)p.first << " has no shrink");
  mon::count("characters_ranked", 856);
  mon::distinct(rng.next());
}
SECTION("reals", 200, 2000) {
  for (int i = 0; i < 20; i++) {
    double d;
    uint64_t bits = rng.next();
    std::memcpy(&d, &bits, 8);
    if (rng.chance(1, 4)) d = (double)rng.range(-100, 100) / 8;
    if (rng.chance(1, 20)) d = std::nan("");
    if (rng.chance(1, 20)) d = rng.chance(1, 2) ? INFINITY : -INFINITY;
    int n = 0;
    auto s = shrink::real(d);
    while (auto x = s.next()) {
      REQUIRE_(++n <= 10, "sequence_ends", "shrinks of real " << d << " do not end");
      CHECK(less(*x, d), "progress", "real " << d << " shrinks to " << *x);
    }
    mon::count("edges_checked", n);
    mon::distinct(bits);
  }
}

