#pragma once
// C12: shrinking makes progress, terminates and finds minimal values.
#include "tree.hpp"
#include "src/detail/Testing.h"
#include "rapidcheck/detail/TestListenerAdapter.h"
#include <chrono>
#include <climits>
#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <set>
using namespace rc;
using namespace rc::detail;
using mon::Rng;

namespace {
// ---- a strictly decreasing, well-founded measure for every type -------------
template <typename T> using IsInt = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value && !std::is_same<T, char32_t>::value>;
template <typename T> unsigned __int128 mag(T v) { __int128 w = v; return (unsigned __int128)(w < 0 ? -w : w); }
template <typename T, typename = IsInt<T>> bool less(T c, T p) { return mag(c) < mag(p) || (mag(c) == mag(p) && p < 0 && c > 0); }
bool less(bool c, bool p) { return p && !c; }
template <typename T> bool lessReal(T c, T p) {
  if (c == p || c != c) return false;
  const bool fc = std::trunc(c) != c, fp = std::trunc(p) != p;
  if (std::abs(c) > std::abs(p)) return false;
  return std::abs(c) < std::abs(p) ? true : (p < 0 && c > 0 && fc == fp);
}
bool less(double c, double p) { return lessReal(c, p); }
bool less(float c, float p) { return lessReal(c, p); }
// Characters: longest shrink path from each character, computed once by a
// search of the real shrink graph; -1 on the way marks a cycle.
template <typename C> struct CharRank {
  std::map<C, int> rank;
  bool cyclic = false;
  int of(C c) {
    auto it = rank.find(c);
    if (it != rank.end()) { if (it->second < 0) cyclic = true; return it->second; }
    rank[c] = -1;
    int r = 0, n = 0;
    auto s = shrink::character<C>(c);
    while (auto x = s.next()) {
      if (++n > 1000) { cyclic = true; break; }
      r = std::max(r, of(*x) + 1);
    }
    return rank[c] = r;
  }
};
template <typename C> CharRank<C> &ranks() { static CharRank<C> r; return r; }
bool less(char c, char p) { return ranks<char>().of(c) < ranks<char>().of(p); }
bool less(wchar_t c, wchar_t p) { return ranks<wchar_t>().of(c) < ranks<wchar_t>().of(p); }
bool less(char32_t c, char32_t p) { return ranks<char32_t>().of(c) < ranks<char32_t>().of(p); }
bool less(char16_t c, char16_t p) { return ranks<char16_t>().of(c) < ranks<char16_t>().of(p); }
template <typename A, typename B> bool less(const std::pair<A, B> &c, const std::pair<A, B> &p);
template <typename T> bool less(const Maybe<T> &c, const Maybe<T> &p);
template <typename T> bool less(const std::vector<T> &c, const std::vector<T> &p);
template <typename T> bool less(const std::list<T> &c, const std::list<T> &p);
template <typename T> bool less(const std::deque<T> &c, const std::deque<T> &p);
template <typename T, size_t N> bool less(const std::array<T, N> &c, const std::array<T, N> &p);
template <typename T> bool less(const std::basic_string<T> &c, const std::basic_string<T> &p);
template <typename T> bool less(const Maybe<T> &c, const Maybe<T> &p) { return !p ? false : !c ? true : less(*c, *p); }
template <typename... Ts> bool less(const std::tuple<Ts...> &c, const std::tuple<Ts...> &p);
template <typename R, typename P> bool less(std::chrono::duration<R, P> c, std::chrono::duration<R, P> p) { return less(c.count(), p.count()); }
template <typename C> bool lessSeq(const C &c, const C &p) {
  if (c.size() != p.size()) return c.size() < p.size();
  int diff = 0;
  auto j = p.begin();
  for (auto i = c.begin(); i != c.end(); ++i, ++j)
    if (!(*i == *j)) { if (!less(*i, *j)) return false; diff++; }
  return diff == 1;
}
template <typename T> bool less(const std::vector<T> &c, const std::vector<T> &p) { return lessSeq(c, p); }
template <typename T> bool less(const std::list<T> &c, const std::list<T> &p) { return lessSeq(c, p); }
template <typename T> bool less(const std::deque<T> &c, const std::deque<T> &p) { return lessSeq(c, p); }
template <typename T, size_t N> bool less(const std::array<T, N> &c, const std::array<T, N> &p) { return lessSeq(c, p); }
template <typename T> bool less(const std::basic_string<T> &c, const std::basic_string<T> &p) { return lessSeq(c, p); }
// ordered by value, so compare sizes, then sums of magnitudes, then negatives
template <typename C> bool lessSum(const C &c, const C &p) {
  if (c.size() != p.size()) return c.size() < p.size();
  auto key = [](const C &x) { unsigned __int128 s = 0; int neg = 0; for (auto &v : x) { s += mag(v); neg += v < 0; } return std::make_pair(s, neg); };
  return key(c) < key(p);
}
template <typename T> bool less(const std::set<T> &c, const std::set<T> &p) { return lessSum(c, p); }
template <typename T> bool less(const std::multiset<T> &c, const std::multiset<T> &p) { return lessSum(c, p); }
template <typename K, typename V> bool less(const std::map<K, V> &c, const std::map<K, V> &p) {
  if (c.size() != p.size()) return c.size() < p.size();
  auto key = [](const std::map<K, V> &x) { unsigned __int128 s = 0; int neg = 0; for (auto &v : x) { s += mag(v.first) + mag(v.second); neg += (v.first < 0) + (v.second < 0); } return std::make_pair(s, neg); };
  return key(c) < key(p);
}
template <typename A, typename B> bool less(const std::pair<A, B> &c, const std::pair<A, B> &p) {
  return (c.first == p.first && less(c.second, p.second)) || (c.second == p.second && less(c.first, p.first));
}
template <size_t I, typename T> int cmpAt(const T &c, const T &p) { return std::get<I>(c) == std::get<I>(p) ? 0 : less(std::get<I>(c), std::get<I>(p)) ? 1 : 100; }
template <typename T, size_t... I> bool lessTuple(const T &c, const T &p, std::index_sequence<I...>) {
  int n = 0;
  for (int k : {cmpAt<I>(c, p)...}) n += k;
  return n == 1;
}
template <typename... Ts> bool less(const std::tuple<Ts...> &c, const std::tuple<Ts...> &p) { return lessTuple(c, p, std::index_sequence_for<Ts...>()); }

// Follows descents with every shrink of each node enumerated to its end.
template <typename T> void descend(Rng &rng, const char *what, const Gen<T> &g) {
  const int size = rng.chance(1, 8) ? 0 : rng.chance(1, 6) ? 1000 : (int)rng.below(40);
  const int sz = std::is_arithmetic<T>::value ? size : rng.chance(1, 12) ? 30 : size % 14;
  size_t budget = 15000;
  const Shrinkable<T> root = g(Random(rng.next()), sz);
  mon::count("roots");
  mon::distinctStr(std::string(what) + toString(root.value()));
  for (int d = 0; d < 2; d++) {
    Shrinkable<T> cur = root;
    const int bias = (int)rng.below(3);
    for (int depth = 0; depth < 40; depth++) {
      const T v = cur.value();
      auto s = cur.shrinks();
      size_t n = 0;
      std::vector<Shrinkable<T>> kids;
      while (auto k = s.next()) {
        n++;
        REQUIRE_(n <= 60000, "sequence_ends", what << ": more than " << n << " shrinks of " << toString(v));
        const T c = k->value();
        REQUIRE_(less(c, v), "progress", what << ": " << toString(v) << " shrinks to " << toString(c) << " which is not smaller");
        if (kids.size() < 50) kids.push_back(*k);
        else if (rng.chance(1, 4)) kids[rng.below(50)] = *k;
        mon::count("edges_checked");
      }
      CHECK(!s.next(), "sequence_ends", what << ": a shrink sequence went on after its end");
      mon::count("sequences_ended");
      if (n > budget) break;
      budget -= n;
      if (kids.empty()) { mon::count("descents_to_the_bottom"); break; }
      cur = bias == 0 ? kids[0] : bias == 1 ? kids.back() : kids[rng.below(kids.size())];
    }
  }
}
template <typename T> Gen<T> A() { return gen::arbitrary<T>(); }
} // namespace

