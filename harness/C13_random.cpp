// C13: the random engine is a reproducible splittable generator.
#include "mon.hpp"
#include <rapidcheck/Random.h>
#include <algorithm>
#include <cmath>
#include <memory>

using rc::Random;
using mon::Rng;

namespace {

// Reference model written from the construction (Claessen & Palka; Threefish-256
// with 72 rounds, tweak {13, 37}, key schedule every 4 rounds): a node is
// (key, path bits of the current 64-bit word); number i of the node is word
// i%4 of E_key(path, counter = i - i%4).
struct Model {
  std::array<uint64_t, 4> key{};
  uint64_t bits = 0;
  int nbits = 0;
  uint64_t ctr = 0;

  static std::array<uint64_t, 4> encrypt(const std::array<uint64_t, 4> &k,
                                         uint64_t p0, uint64_t p1) {
    static const int R[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37},
                                {25, 33}, {46, 12}, {58, 22}, {32, 32}};
    uint64_t ks[5] = {k[0], k[1], k[2], k[3],
                      k[0] ^ k[1] ^ k[2] ^ k[3] ^ 0x1BD11BDAA9FC1A22ULL};
    uint64_t t[3] = {13, 37, 13 ^ 37};
    uint64_t x[4] = {p0, p1, 0, 0};
    auto inject = [&](int s) {
      x[0] += ks[s % 5];
      x[1] += ks[(s + 1) % 5] + t[s % 3];
      x[2] += ks[(s + 2) % 5] + t[(s + 1) % 3];
      x[3] += ks[(s + 3) % 5] + static_cast<uint64_t>(s);
    };
    for (int d = 0; d < 72; d++) {
      if (d % 4 == 0)
        inject(d / 4);
      auto rot = [](uint64_t v, int n) { return (v << n) | (v >> (64 - n)); };
      x[0] += x[1];
      x[1] = rot(x[1], R[d % 8][0]) ^ x[0];
      x[2] += x[3];
      x[3] = rot(x[3], R[d % 8][1]) ^ x[2];
      std::swap(x[1], x[3]);
    }
    inject(18);
    return {x[0], x[1], x[2], x[3]};
  }
  void append(bool b) {
    if (nbits == 64) {
      key = encrypt(key, bits, ctr);
      nbits = 0;
      bits = 0;
    }
    if (b)
      bits |= 1ULL << nbits;
    nbits++;
  }
  Model split() {
    Model r(*this);
    append(false);
    r.append(true);
    return r;
  }
  uint64_t next() {
    auto blk = encrypt(key, bits, ctr - ctr % 4);
    return blk[ctr++ % 4];
  }
};

Random::Key randomKey(Rng &r) {
  Random::Key k;
  for (auto &x : k)
    switch (r.below(4)) {
    case 0: x = 0; break;
    case 1: x = ~0ULL; break;
    default: x = r.next();
    }
  return k;
}

void make(Rng &r, Random &rnd, Model &m, std::string &desc) {
  if (r.chance(1, 2)) {
    auto k = randomKey(r);
    rnd = Random(k);
    m = Model();
    for (int i = 0; i < 4; i++)
      m.key[i] = k[i];
    desc = "key" + std::to_string(k[0]);
  } else {
    uint64_t s = r.chance(1, 3) ? r.below(4) : r.next();
    rnd = Random(s);
    m = Model();
    m.key = {s, s, s, s};
    desc = "seed" + std::to_string(s);
  }
  int splits = r.chance(1, 4) ? 60 + r.below(240) : r.below(12);
  for (int i = 0; i < splits; i++) {
    bool right = r.chance(1, 2);
    desc += right ? 'R' : 'L';
    Random a = rnd.split();
    Model b = m.split();
    if (right) {
      rnd = a;
      m = b;
    }
  }
}

std::vector<uint8_t> ser(const Random &x) {
  std::vector<uint8_t> v;
  serialize(x, std::back_inserter(v));
  return v;
}

} // namespace

SECTION("reference-stream", 400, 6000) {
  Random rnd;
  Model m;
  std::string desc;
  make(rng, rnd, m, desc);
  const int n = 1 + rng.below(40);
  for (int i = 0; i < n; i++) {
    auto x = rnd.next();
    auto y = m.next();
    mon::count("numbers_compared_with_reference");
    mon::distinct(x);
    REQUIRE_(x == y, "stream-differs-from-construction",
             desc << " position " << i << ": got " << x << " expected " << y);
  }
  mon::sample(desc + " compared for " + std::to_string(n) + " numbers");
}

SECTION("copies", 300, 4000) {
  Random rnd;
  Model m;
  std::string desc;
  make(rng, rnd, m, desc);
  int pre = rng.below(10);
  for (int i = 0; i < pre; i++)
    rnd.next();
  Random copy(rnd), assigned(7);
  assigned.next();
  assigned = rnd;
  CHECK(copy == rnd && !(copy != rnd), "copy-not-equal", desc);
  CHECK(std::hash<Random>()(copy) == std::hash<Random>()(rnd), "hash-of-equal-differs", desc);
  CHECK(rnd == copy, "hash-modified-state", desc);
  std::vector<uint64_t> a, b, c;
  int n = 1 + rng.below(20);
  // Interleave use of the copies in random order.
  while (a.size() < (size_t)n || b.size() < (size_t)n || c.size() < (size_t)n) {
    switch (rng.below(3)) {
    case 0: if (a.size() < (size_t)n) a.push_back(rnd.next()); break;
    case 1: if (b.size() < (size_t)n) b.push_back(copy.next()); break;
    default: if (c.size() < (size_t)n) c.push_back(assigned.next());
    }
  }
  CHECK(a == b && b == c, "copies-diverge", desc << " after " << pre << " numbers");
  CHECK(rnd == copy && copy == assigned, "copies-unequal-after-same-use", desc);
  if (pre == 0) {
    Random p = Random(m.key[0]), q = p;
    Random pr = p.split(), qr = q.split();
    CHECK(p == q && pr == qr, "split-not-deterministic", desc);
    CHECK(!(p == pr), "split-halves-equal", desc);
  }
  mon::count("copies_compared", 3);
  mon::distinct(mon::comb(a[0], pre));
}

SECTION("split-independence", 120, 2000) {
  // Drawing from one half never affects the other, whatever the order.
  Random root;
  Model m;
  std::string desc;
  make(rng, root, m, desc);
  struct Node { Random r; Model m; };
  std::vector<Node> nodes{{root, m}};
  int k = 2 + rng.below(60);
  for (int i = 0; i < k; i++) {
    auto &nd = nodes[rng.below(nodes.size())];
    Random r = nd.r.split();
    Model mm = nd.m.split();
    nodes.push_back({r, mm});
  }
  std::unordered_set<uint64_t> seen;
  std::vector<std::pair<size_t, int>> todo;
  for (size_t i = 0; i < nodes.size(); i++)
    for (int j = 0; j < 6; j++)
      todo.push_back({i, j});
  for (size_t i = todo.size(); i > 1; i--)
    std::swap(todo[i - 1], todo[rng.below(i)]);
  for (auto &t : todo) {
    auto x = nodes[t.first].r.next();
    auto y = nodes[t.first].m.next();
    CHECK(x == y, "split-stream-differs", desc << " node " << t.first);
    CHECK(seen.insert(x).second, "split-streams-overlap",
          desc << ": number " << x << " occurs in two split streams");
    mon::count("split_streams_compared");
  }
  for (size_t i = 0; i < nodes.size(); i++)
    for (size_t j = i + 1; j < nodes.size(); j++)
      CHECK(nodes[i].r != nodes[j].r, "distinct-splits-compare-equal", desc);
  mon::distinct(nodes.back().m.next());
}

SECTION("serialization", 400, 6000) {
  Random rnd;
  Model m;
  std::string desc;
  make(rng, rnd, m, desc);
  int pre = rng.below(14);
  for (int i = 0; i < pre; i++)
    rnd.next();
  auto bytes = ser(rnd);
  // The target may hold any previous state.
  Random target(rng.next());
  int used = rng.below(7);
  for (int i = 0; i < used; i++)
    target.next();
  std::vector<uint8_t> padded(bytes);
  int tail = rng.below(4);
  for (int i = 0; i < tail; i++)
    padded.push_back(rng.next());
  auto it = deserialize(padded.begin(), padded.end(), target);
  CHECK(it - padded.begin() == (long)bytes.size(), "deserialize-consumed-wrong-length",
        desc << " used " << (it - padded.begin()) << " of " << bytes.size());
  mon::count("mid_stream_roundtrips");
  CHECK(target == rnd, "roundtrip-not-equal", desc << " after " << pre << " numbers, into an engine used "
                                                   << used << " times");
  CHECK(ser(target) == bytes, "roundtrip-bytes-differ", desc);
  Random a = rnd, b = target;
  for (int i = 0; i < 12; i++)
    REQUIRE_(a.next() == b.next(), "roundtrip-stream-differs",
             desc << " restored after " << pre << " numbers diverges at +" << i);
  if (pre == 0) {
    Random p = rnd, q = target;
    Random pr = p.split(), qr = q.split();
    CHECK(p == q && pr == qr && pr.next() == qr.next(), "roundtrip-splits-differ", desc);
    mon::count("roundtrip_then_split");
  }
  mon::distinct(mon::hashBytes(bytes.data(), bytes.size()));
  mon::sample(desc + " after " + std::to_string(pre) + " numbers = " + mon::hex(bytes));
}

// Positions far into a stream, reached by decoding an engine whose counter is
// large: the numbers there still follow the construction.
SECTION("far-positions", 150, 3000) {
  Random rnd;
  Model m;
  std::string desc;
  make(rng, rnd, m, desc);
  auto zero = ser(rnd);
  Random moved(rnd);
  moved.next();
  auto one = ser(moved);
  zero[zero.size() - 2]++;
  REQUIRE_(zero == one && one[one.size() - 2] == 1, "counter-not-in-its-place", desc); // position = one compact number before the last byte
  const int bit = 7 + (int)rng.below(56);
  const uint64_t at = (1ULL << bit) + (rng.chance(1, 2) ? rng.below(9) - 4 : rng.below(1ULL << bit));
  std::vector<uint8_t> bytes(one.begin(), one.end() - 2);
  rc::detail::serializeCompact(at, std::back_inserter(bytes));
  bytes.push_back(one.back());
  Random far;
  CHECK(deserialize(bytes.begin(), bytes.end(), far) == bytes.end(), "deserialize-consumed-wrong-length", desc);
  m.ctr = at;
  Random half(far);
  for (int i = 0; i < 9; i++)
    REQUIRE_(far.next() == m.next(), "stream-differs-from-construction", desc << " number " << at << " + " << i);
  CHECK(ser(half) == bytes, "roundtrip-bytes-differ", desc << " at " << at);
  mon::count("far_positions_compared");
  mon::distinct(at);
}

// All nodes of one spine of left (or right) steps are different engines.
SECTION("spine", 12, 200) {
  std::vector<Random> v;
  Random r(rng.next());
  const bool left = rng.chance(2, 3);
  const int n = 70 + (int)rng.below(130);
  std::unordered_set<uint64_t> firsts;
  for (int i = 0; i < n; i++) {
    v.push_back(r);
    Random right = r.split();
    CHECK(firsts.insert(Random(right).next()).second, "split-streams-overlap", "right halves of a spine share their first number at step " << i);
    if (!left) r = right;
  }
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = i + 1; j < v.size(); j++) {
      CHECK(v[i] != v[j] && !(v[i] == v[j]), "distinct-splits-compare-equal", "steps " << i << " and " << j << (left ? " left" : " right"));
      CHECK((v[i] < v[j]) + (v[j] < v[i]) == 1, "order-not-total", "steps " << i << " and " << j);
    }
  mon::count("spine_nodes", v.size());
  mon::distinct(v.back().next());
}

SECTION("truncated-bytes", 200, 2000) {
  // Every strict prefix of an encoded engine is rejected, never read past.
  Random rnd;
  Model m;
  std::string desc;
  make(rng, rnd, m, desc);
  int pre = rng.below(9);
  for (int i = 0; i < pre; i++)
    rnd.next();
  auto bytes = ser(rnd);
  for (size_t n = 0; n < bytes.size(); n++) {
    std::unique_ptr<uint8_t[]> exact(new uint8_t[n]); // exact-size: ASan sees any over-read
    std::copy(bytes.begin(), bytes.begin() + n, exact.get());
    Random out;
    bool threw = false;
    try {
      deserialize(exact.get(), exact.get() + n, out);
    } catch (const rc::detail::SerializationException &) {
      threw = true;
    }
    mon::count("truncations_tried");
    CHECK(threw, "truncated-accepted", desc << " prefix of " << n << " of " << bytes.size() << " bytes");
  }
  mon::distinct(mon::hashBytes(bytes.data(), bytes.size()));
}

SECTION("order", 60, 600) {
  std::vector<Random> v;
  std::vector<Model> ms;
  for (int i = 0; i < 12; i++) {
    Random rnd;
    Model m;
    std::string d;
    make(rng, rnd, m, d);
    int pre = rng.below(6);
    for (int j = 0; j < pre; j++) {
      rnd.next();
      m.next();
    }
    v.push_back(rnd);
    ms.push_back(m);
    if (rng.chance(1, 3)) {
      Random c = rnd;
      if (rng.chance(1, 2)) {
        c.next();
        m.next();
      }
      v.push_back(c);
      ms.push_back(m);
    }
  }
  for (auto &a : v)
    for (auto &b : v) {
      const int rel = (a < b) + (b < a) + (a == b);
      CHECK(rel == 1, "order-not-total", "exactly one of <, >, == must hold");
      CHECK((a == b) == (ser(a) == ser(b)), "equality-disagrees-with-state", "");
      Random x = a, y = b;
      std::vector<uint64_t> sx, sy;
      for (int i = 0; i < 6; i++) {
        sx.push_back(x.next());
        sy.push_back(y.next());
      }
      CHECK(!(a == b) || sx == sy, "equality-disagrees-with-stream", "");
      // A path and its extension by left steps alone share their stream by
      // design: a node is either split or drawn from, never both.
      const Model &p = ms[&a - &v[0]], &q = ms[&b - &v[0]];
      const bool same = p.key == q.key && p.bits == q.bits && p.ctr == q.ctr;
      CHECK(same == (sx == sy), "streams-of-different-states", "");
      for (auto &c : v)
        if (a < b && b < c)
          CHECK(a < c, "order-not-transitive", "");
      mon::count("pairs_ordered");
    }
  mon::distinct(Random(v[0]).next());
}

SECTION("bit-balance", 4, 40) {
  // Each of the 64 bits of (a) one long stream, (b) first numbers of split
  // streams, is balanced; threshold ~ 6.5 sigma.
  const int N = 20000;
  std::array<int, 64> ones{}, onesSplit{}, agree{};
  Random r(rng.next()), s(rng.next());
  uint64_t prev = 0;
  for (int i = 0; i < N; i++) {
    uint64_t x = r.next();
    Random child = s.split();
    uint64_t y = child.next();
    for (int b = 0; b < 64; b++) {
      ones[b] += (x >> b) & 1;
      onesSplit[b] += (y >> b) & 1;
      agree[b] += (~(x ^ prev) >> b) & 1;
    }
    prev = x;
  }
  const double lim = 6.5 * std::sqrt(N / 4.0);
  for (int b = 0; b < 64; b++) {
    CHECK(std::fabs(ones[b] - N / 2.0) < lim, "biased-bit", "bit " << b << ": " << ones[b] << "/" << N);
    CHECK(std::fabs(onesSplit[b] - N / 2.0) < lim, "biased-bit-across-splits",
          "bit " << b << ": " << onesSplit[b] << "/" << N);
    CHECK(std::fabs(agree[b] - N / 2.0) < lim, "correlated-bit", "bit " << b);
  }
  mon::count("numbers_in_statistics", 2 * N);
  mon::distinct(prev);
}
