// Exploration of shrink trees under budgets, and comparison of two trees.
#pragma once
#include "mon.hpp"
#include <rapidcheck.h>

namespace tree {
using namespace rc;

// Visits values of a shrink tree: the root, then several random descents; on
// every node of a descent up to `width` shrinks are visited and one of them is
// descended into (biased to first, last, or random). visit(value, parent value
// or nullptr, index, depth). If the visitor returns false the walk stops.
struct WalkStats {
  size_t nodes = 0, maxDepth = 0;
  bool wide = false, deep = false;
};
template <typename T, typename F>
WalkStats walk(mon::Rng &rng, const Shrinkable<T> &root, F visit, int descents = 3, size_t width = 40,
               size_t maxDepth = 60) {
  WalkStats w;
  {
    const T v = root.value();
    w.nodes++;
    if (!visit(v, static_cast<const T *>(nullptr), size_t(0), size_t(0))) return w;
  }
  for (int d = 0; d < descents; d++) {
    Shrinkable<T> cur = root;
    const int bias = rng.below(4);
    size_t depth = 0;
    for (; depth < maxDepth; depth++) {
      const T parent = cur.value();
      auto seq = cur.shrinks();
      std::vector<Shrinkable<T>> kids;
      while (kids.size() < width) {
        auto k = seq.next();
        if (!k) break;
        const T v = k->value();
        w.nodes++;
        if (!visit(v, &parent, kids.size(), depth + 1)) return w;
        kids.push_back(std::move(*k));
      }
      if (kids.size() >= width) {
        w.wide = true;
        // look at a few far ones as well
        for (int j = 0; j < 5; j++) {
          seq = rc::seq::drop(rng.below(3 * width), std::move(seq));
          auto k = seq.next();
          if (!k) break;
          const T v = k->value();
          w.nodes++;
          if (!visit(v, &parent, width + j, depth + 1)) return w;
          kids.push_back(std::move(*k));
        }
      }
      if (kids.empty()) break;
      size_t i = bias == 0 ? 0 : bias == 1 ? kids.size() - 1 : rng.below(kids.size());
      if (bias == 3 && rng.chance(1, 3)) i = kids.size() - 1;
      cur = kids[i];
    }
    if (depth >= maxDepth) w.deep = true;
    if (depth > w.maxDepth) w.maxDepth = depth;
  }
  mon::count("tree_nodes_checked", w.nodes);
  mon::count("tree_descents", descents);
  return w;
}

// Lockstep comparison of two shrink trees. Returns "" or a description.
template <typename T, typename U, typename Eq, typename Sh>
std::string compare(mon::Rng &rng, const Shrinkable<T> &a, const Shrinkable<U> &b, Eq eq, Sh show, size_t &budget,
                    size_t width = 200, int depth = 0) {
  {
    const auto va = a.value();
    const auto vb = b.value();
    mon::count("tree_nodes_compared");
    if (!eq(va, vb)) return "value " + show(va) + " vs " + show(vb) + " at depth " + std::to_string(depth);
  }
  if (budget > 0) budget--;
  auto sa = a.shrinks();
  auto sb = b.shrinks();
  std::vector<std::pair<Shrinkable<T>, Shrinkable<U>>> kids;
  for (size_t i = 0; i < width; i++) {
    auto x = sa.next();
    auto y = sb.next();
    if (bool(x) != bool(y))
      return std::string("shrink ") + std::to_string(i) + (x ? " only in the first: " + show(x->value()) : " only in the second: " + show(y->value())) +
             " under " + show(a.value());
    if (!x) break;
    kids.emplace_back(std::move(*x), std::move(*y));
  }
  // first check all direct children values, then recurse into some
  for (size_t i = 0; i < kids.size(); i++) {
    const auto va = kids[i].first.value();
    const auto vb = kids[i].second.value();
    mon::count("tree_nodes_compared");
    if (!eq(va, vb))
      return "shrink " + std::to_string(i) + " of " + show(a.value()) + ": " + show(va) + " vs " + show(vb);
  }
  if (depth > 100) return "";
  while (!kids.empty() && budget > 0) {
    const size_t i = rng.below(kids.size());
    auto k = kids[i];
    kids.erase(kids.begin() + i);
    size_t sub = rng.chance(1, 2) ? budget : budget / 4 + 1;
    const size_t sub0 = sub;
    auto m = compare(rng, k.first, k.second, eq, show, sub, width, depth + 1);
    const size_t used = sub0 - sub;
    budget -= std::min(budget, used);
    if (!m.empty()) return m;
    if (used == 0) break;
  }
  return "";
}

template <typename T>
std::string compareShown(mon::Rng &rng, const Shrinkable<T> &a, const Shrinkable<T> &b, size_t budget = 60) {
  return compare(
      rng, a, b, [](const T &x, const T &y) { return x == y; }, [](const T &x) { return rc::toString(x); }, budget);
}

// Digest of a (budgeted, deterministic) prefix of a tree.
template <typename T, typename Sh>
void dump(const Shrinkable<T> &s, Sh show, size_t &budget, std::string &out, size_t width = 30, int depth = 0) {
  if (budget == 0) return;
  budget--;
  out += '(';
  out += show(s.value());
  auto q = s.shrinks();
  for (size_t i = 0; i < width && budget > 0 && depth < 40; i++) {
    auto k = q.next();
    if (!k) {
      out += '.';
      break;
    }
    dump(*k, show, budget, out, width, depth + 1);
  }
  out += ')';
}
template <typename T>
std::string dumpShown(const Shrinkable<T> &s, size_t budget = 120) {
  std::string out;
  dump(s, [](const T &x) { return rc::toString(x); }, budget, out);
  return out;
}
} // namespace tree
