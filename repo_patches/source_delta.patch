From 8d0013602607ec7dad9b86abb71b86b50c54f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 01/33] fix: reject truncated input when deserializing Random

The last byte was read without checking for the end of the input, so a
truncated 'reproduce' string caused a read past the end of the buffer.
---
 include/rapidcheck/Random.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..b199985 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -39,6 +39,9 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
   output.m_bitsi = *iit;
   return ++iit;
 }
-- 
2.43.0


From 6d65cdd5967a78a0a539e6f92c7c9f9b904c22a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 02/33] fix: reset the block when deserializing into a used
 Random

Deserializing an unused Random into one that had already produced numbers
kept the old block, so the result did not compare equal to the original.
---
 include/rapidcheck/Random.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index b199985..2e63b13 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -36,6 +36,9 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
       output.m_counter = counter - blki;
       output.mash(output.m_block);
     }
+  } else {
+    // No block has been calculated yet, don't keep that of a previous state
+    output.m_block = Random::Block();
   }
   output.m_counter = counter;
 
-- 
2.43.0


From ef0efee94f0b16ef0960163e2206489926577f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 03/33] fix: reject an invalid bit count when deserializing
 Random

A count greater than 64 makes later splits shift by more than the width of
the type, which is undefined behavior.
---
 include/rapidcheck/Random.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index 2e63b13..4a469d5 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -45,7 +45,11 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   if (iit == end) {
     throw SerializationException("Unexpected end of input");
   }
-  output.m_bitsi = *iit;
+  const auto bitsi = static_cast<uint8_t>(*iit);
+  if (bitsi > Random::kBits) {
+    throw SerializationException("Invalid number of bits");
+  }
+  output.m_bitsi = bitsi;
   return ++iit;
 }
 
-- 
2.43.0


From 94db46d12ddf768dcfa600177a9cdab90c697a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/33] fix: avoid integer overflow when computing test case
 sizes

With a large max_size (and many tests), the intermediate products did not
fit in an int so that negative sizes were used.
---
 src/detail/Testing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..66ac31c 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -12,17 +12,18 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
+  // These products may not fit in an `int`, so use a wider type
+  const auto numSizes = static_cast<std::int64_t>(params.maxSize) + 1;
   const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
   const auto numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * params.maxSize) / (numRest - 1));
   }
 }
 
-- 
2.43.0


From 45cb27b84e1cec2d38cdef4e1fed29d60b78869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/33] fix: avoid integer overflow when computing the discard
 limit

With a large max_discard_ratio, the product of it and max_success did not fit
in an int so that the property gave up too early.
---
 src/detail/Testing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 66ac31c..9ccaa4d 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -38,7 +38,8 @@ SearchResult searchProperty(const Property &property,
   searchResult.numDiscarded = 0;
   searchResult.tags.reserve(params.maxSuccess);
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  const auto maxDiscard =
+      static_cast<std::int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
-- 
2.43.0


From 39810b716e3b6d0dc64b291059b4aa841f1fa011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 06/33] fix: avoid signed overflow when shrinking towards a
 distant target

---
 include/rapidcheck/shrink/Shrink.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..3277601 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -18,7 +18,10 @@ public:
 
   TowardsSeq(T value, T target)
       : m_value(value)
-      , m_diff((target < value) ? (value - target) : (target - value))
+      // Subtract as unsigned since the difference might not fit in a signed T
+      , m_diff((target < value)
+                   ? (static_cast<UInt>(value) - static_cast<UInt>(target))
+                   : (static_cast<UInt>(target) - static_cast<UInt>(value)))
       , m_down(target < value) {}
 
   Maybe<T> operator()() {
@@ -26,7 +29,8 @@ public:
       return Nothing;
     }
 
-    T ret = m_down ? (m_value - m_diff) : (m_value + m_diff);
+    const auto value = static_cast<UInt>(m_value);
+    T ret = static_cast<T>(m_down ? (value - m_diff) : (value + m_diff));
     m_diff /= 2;
     return ret;
   }
-- 
2.43.0


From fa0020d64664c8b66140a099c18223bac4364465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 07/33] fix: avoid integer overflow in bit streams for very
 large sizes

---
 include/rapidcheck/detail/BitStream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/BitStream.hpp b/include/rapidcheck/detail/BitStream.hpp
index a4a2157..3caf9b1 100644
--- a/include/rapidcheck/detail/BitStream.hpp
+++ b/include/rapidcheck/detail/BitStream.hpp
@@ -85,7 +85,10 @@ T BitStream<Source>::next(int nbits, std::false_type) {
 template <typename Source>
 template <typename T>
 T BitStream<Source>::nextWithSize(int size) {
-  return next<T>((size * numBits<T>() + (kNominalSize / 2)) / kNominalSize);
+  // No need for sizes above the nominal, that's already all of the bits
+  const int clampedSize = std::min(size, kNominalSize);
+  return next<T>((clampedSize * numBits<T>() + (kNominalSize / 2)) /
+                 kNominalSize);
 }
 
 template <typename Source>
-- 
2.43.0


From 2dc2b53af7a227b1694661b06063edf427c15783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 08/33] fix: do not truncate wide characters to char when
 shrinking

---
 include/rapidcheck/shrink/Shrink.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 3277601..e78e32e 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -192,13 +192,12 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 template <typename T>
 Seq<T> character(T value) {
   const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
+  auto shrinks = seq::concat(
+      seq::cast<T>(seq::fromContainer(std::string("abc"))),
       // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+      std::islower(value, locale) ? Seq<T>()
+                                  : seq::just(std::tolower(value, locale)),
+      seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From de2ffb0e70cc8277daa4bb74acd0e32c4dac6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 09/33] fix: avoid integer overflow in generators at the
 largest size

---
 include/rapidcheck/gen/Container.hpp | 3 ++-
 include/rapidcheck/gen/Maybe.hpp     | 2 +-
 include/rapidcheck/gen/Text.hpp      | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..4d4d9cf 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -295,7 +295,8 @@ public:
   generate(const Random &random, int size, const Gen<Ts> &... gens) const {
     const auto strategy = m_strategy;
     auto r = random;
-    std::size_t count = r.split().next() % (size + 1);
+    std::size_t count =
+        r.split().next() % (static_cast<Random::Number>(size) + 1);
     auto shrinkables = strategy.generateElements(r, size, count, gens...);
 
     using Elements = decltype(shrinkables);
diff --git a/include/rapidcheck/gen/Maybe.hpp b/include/rapidcheck/gen/Maybe.hpp
index 8991743..8f58751 100644
--- a/include/rapidcheck/gen/Maybe.hpp
+++ b/include/rapidcheck/gen/Maybe.hpp
@@ -12,7 +12,7 @@ public:
 
   Shrinkable<Maybe<T>> operator()(const Random &random, int size) const {
     auto r = random;
-    const auto x = r.split().next() % (size + 1);
+    const auto x = r.split().next() % (static_cast<Random::Number>(size) + 1);
     if (x == 0) {
       return shrinkable::lambda([]{ return Maybe<T>(); });
     }
diff --git a/include/rapidcheck/gen/Text.hpp b/include/rapidcheck/gen/Text.hpp
index 146b709..a1f4058 100644
--- a/include/rapidcheck/gen/Text.hpp
+++ b/include/rapidcheck/gen/Text.hpp
@@ -20,7 +20,8 @@ public:
   Shrinkable<String> operator()(const Random &random, int size) const {
     auto stream = rc::detail::bitStreamOf(random);
     String str;
-    auto length = stream.next<std::size_t>() % (size + 1);
+    auto length =
+        stream.next<std::size_t>() % (static_cast<std::size_t>(size) + 1);
     str.reserve(length);
 
     for (std::size_t i = 0; i < length; i++) {
-- 
2.43.0


From 5a078e5bfe64e34df1fd8fad47babc374aa32e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 10/33] fix: allow assigning from an empty Seq

---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From ea307a52ba725cf9f27d1bf304015bd31bfdcca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 11/33] fix: allow copying and assigning moved-from or owned
 Gen and Shrinkable

---
 include/rapidcheck/Gen.hpp        | 22 ++++++++--------------
 include/rapidcheck/Shrinkable.hpp | 19 +++++++------------
 2 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index 0c48004..584a294 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -95,18 +95,14 @@ Gen<T> Gen<T>::as(const std::string &name) const {
 template <typename T>
 Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
                                          m_name(other.m_name) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  rhs.m_impl->retain();
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = rhs.m_impl;
-  m_name = rhs.m_name;
-  return *this;
+  return *this = Gen(rhs);
 }
 
 template <typename T>
@@ -117,12 +113,10 @@ Gen<T>::Gen(Gen &&other) noexcept : m_impl(other.m_impl),
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(Gen &&rhs) noexcept {
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = rhs.m_impl;
-  rhs.m_impl = nullptr;
-  m_name = std::move(rhs.m_name);
+  // The old value is released last since `rhs` might be owned by it
+  Gen tmp(std::move(rhs));
+  std::swap(m_impl, tmp.m_impl);
+  std::swap(m_name, tmp.m_name);
   return *this;
 }
 
diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 20e0f7b..532d5e5 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -56,7 +56,9 @@ Seq<Shrinkable<T>> Shrinkable<T>::shrinks() const noexcept {
 template <typename T>
 Shrinkable<T>::Shrinkable(const Shrinkable &other) noexcept
     : m_impl(other.m_impl) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
@@ -66,21 +68,14 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  other.m_impl->retain();
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = other.m_impl;
-  return *this;
+  return *this = Shrinkable(other);
 }
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(Shrinkable &&other) noexcept {
-  if (m_impl) {
-    m_impl->release();
-  }
-  m_impl = other.m_impl;
-  other.m_impl = nullptr;
+  // The old value is released last since `other` might be owned by it
+  Shrinkable tmp(std::move(other));
+  std::swap(m_impl, tmp.m_impl);
   return *this;
 }
 
-- 
2.43.0


From 82436b512e60289173a727ec277bcae82b62736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 12/33] fix: destroy the temporary when copy assigning a
 Variant

---
 include/rapidcheck/detail/Variant.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..59290bd 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -166,10 +166,12 @@ operator=(const Variant &rhs) noexcept(
     copyAssign(m_typeIndex, &m_storage, &rhs.m_storage);
   } else {
     Storage tmp;
-    copy(rhs.m_typeIndex, &tmp, &rhs.m_storage);
+    const auto newIndex = rhs.m_typeIndex;
+    copy(newIndex, &tmp, &rhs.m_storage);
     destroy(m_typeIndex, &m_storage);
-    move(rhs.m_typeIndex, &m_storage, &tmp);
-    m_typeIndex = rhs.m_typeIndex;
+    m_typeIndex = newIndex;
+    move(m_typeIndex, &m_storage, &tmp);
+    destroy(m_typeIndex, &tmp);
   }
 
   return *this;
-- 
2.43.0


From 03a4452f4f63bd9a551af277ea0ada0a6d3a3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 13/33] fix: do not terminate when assigning a throwing copy to
 a Variant

---
 include/rapidcheck/detail/Variant.h   | 4 +++-
 include/rapidcheck/detail/Variant.hpp | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/detail/Variant.h b/include/rapidcheck/detail/Variant.h
index bc17851..0044e9f 100644
--- a/include/rapidcheck/detail/Variant.h
+++ b/include/rapidcheck/detail/Variant.h
@@ -29,7 +29,9 @@ public:
   template <typename T,
             typename = typename std::enable_if<
                 std::is_nothrow_move_constructible<T>::value>::type>
-  Variant &operator=(const T &value) noexcept;
+  Variant &operator=(const T &value) noexcept(
+      std::is_nothrow_copy_constructible<T>::value
+          &&std::is_nothrow_copy_assignable<T>::value);
 
   /// Move-assigns the given value to this `Variant`.
   template <typename T,
diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index 59290bd..4378292 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -38,16 +38,20 @@ Variant<Type, Types...>::Variant(T &&value) noexcept(
 template <typename Type, typename... Types>
 template <typename T, typename>
 Variant<Type, Types...> &Variant<Type, Types...>::
-operator=(const T &value) noexcept {
+operator=(const T &value) noexcept(
+    std::is_nothrow_copy_constructible<T>::value
+        &&std::is_nothrow_copy_assignable<T>::value) {
   static_assert(isValidType<T>(), "T is not a valid type of this variant");
 
   const auto newIndex = indexOfType<T>();
   if (newIndex == m_typeIndex) {
     *reinterpret_cast<T *>(&m_storage) = value;
   } else {
+    // Copy before destroying since that might throw
+    T tmp(value);
     destroy(m_typeIndex, &m_storage);
     m_typeIndex = newIndex;
-    new (&m_storage) T(value);
+    new (&m_storage) T(std::move(tmp));
   }
   return *this;
 }
-- 
2.43.0


From 7b73afa65983a7c849d3b3bf0a98cbfe5003f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 14/33] fix: do not keep a dangling this in shrinks of unique
 containers

---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index 4d4d9cf..3533479 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // Copy the key function, the sequence might outlive this object.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From e3ce90bba5fe93ad0cffd2891a2d0ab183e7ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 15/33] fix: generate ASCII characters, not negative ones, as
 the common characters

Small characters are drawn as 7 bits, but for signed character types these
were sign extended: half of them came out negative and no letter was ever
more likely than any other character.
---
 include/rapidcheck/gen/Text.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/gen/Text.hpp b/include/rapidcheck/gen/Text.hpp
index a1f4058..764e229 100644
--- a/include/rapidcheck/gen/Text.hpp
+++ b/include/rapidcheck/gen/Text.hpp
@@ -28,7 +28,8 @@ public:
       bool small = stream.next<bool>();
       T value;
       do {
-        value = small ? stream.next<T>(7) : stream.next<T>();
+        value = small ? static_cast<T>(stream.next<unsigned char>(7))
+                      : stream.next<T>();
       } while (value == '\0');
       str.push_back(value);
     }
@@ -57,7 +58,8 @@ Gen<T> character() {
     auto stream = ::rc::detail::bitStreamOf(random);
     bool small = stream.next<bool>();
     T value;
-    while ((value = small ? stream.next<T>(7) : stream.next<T>()) == '\0') {
+    while ((value = small ? static_cast<T>(stream.next<unsigned char>(7))
+                          : stream.next<T>()) == '\0') {
       // Do nothing
     }
 
-- 
2.43.0


From 1add7f09b8800ba40b521c0b210db00e54d7ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 16/33] fix: reject compact integers with more bits than their
 type

Overlong input shifted by the number of bits of the type or more, which is
undefined, when deserializing.
---
 include/rapidcheck/detail/Serialization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..7d0d3c2 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -190,6 +190,9 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
     auto x = static_cast<std::uint8_t>(*it);
+    if (nbits >= std::numeric_limits<UInt>::digits) {
+      throw SerializationException("Integer is too large");
+    }
     uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
     nbits += 7;
     if ((x & 0x80) == 0) {
-- 
2.43.0


From 6b86dd9cfdc34c3afc30a52c52648b39870d28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 17/33] fix: do not reserve memory for a string length that was
 not validated

Deserializing a string with a corrupt length threw std::length_error or
std::bad_alloc (or allocated gigabytes) instead of SerializationException.
---
 include/rapidcheck/detail/Serialization.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 7d0d3c2..b134e43 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -55,7 +55,6 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   iit = deserializeCompact(iit, end, len);
 
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From c5d4ac2d89b99723c5c013ea91551943d945bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 18/33] fix: reject reproduction data with a negative size

A corrupt size was accepted as negative and made the replay divide by zero.
---
 include/rapidcheck/detail/Results.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/rapidcheck/detail/Results.hpp b/include/rapidcheck/detail/Results.hpp
index 0bd8267..1d95391 100644
--- a/include/rapidcheck/detail/Results.hpp
+++ b/include/rapidcheck/detail/Results.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 namespace rc {
 namespace detail {
 
@@ -19,6 +21,9 @@ Iterator deserialize(Iterator begin, Iterator end, Reproduce &out) {
 
   std::uint32_t size;
   iit = deserialize(iit, end, size);
+  if (size > static_cast<std::uint32_t>(std::numeric_limits<int>::max())) {
+    throw SerializationException("Invalid size");
+  }
   out.size = static_cast<int>(size);
 
   out.shrinkPath.clear();
-- 
2.43.0


From 223086577c088981f093cd906eac003ff581a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 19/33] fix: reject configuration values followed by other
 characters

'max_success=5abc' or 'max_size=1.5' were silently read as 5 and 1.
---
 src/detail/Configuration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/Configuration.cpp b/src/detail/Configuration.cpp
index 5a9f91c..7ce3be2 100644
--- a/src/detail/Configuration.cpp
+++ b/src/detail/Configuration.cpp
@@ -48,7 +48,8 @@ template <typename T>
 void fromString(const std::string &str, T &out, bool &ok) {
   std::istringstream in(std::move(str));
   in >> out;
-  ok = !in.fail();
+  // The whole string must be the value
+  ok = !in.fail() && (in >> std::ws).eof();
 }
 
 template <typename T>
-- 
2.43.0


From 2536b7661c4ea7429644f4344e6d506beddba21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 20/33] fix: escape backslashes when showing strings

---
 src/Show.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..e487bf8 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -16,7 +16,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
-- 
2.43.0


From bec4730f0fb7fac88110dcdf212ac7a6c2d8192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 21/33] fix: do not dereference null pointers when showing them

---
 include/rapidcheck/Show.hpp | 4 ++++
 src/Show.cpp                | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..a83aee9 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,6 +63,10 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (!p) {
+    os << "nullptr";
+    return;
+  }
   show(*p, os);
   auto flags = os.flags();
   os << " (" << std::hex << std::showbase << p << ")";
diff --git a/src/Show.cpp b/src/Show.cpp
index e487bf8..078ac24 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -66,6 +66,10 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (!value) {
+    os << "nullptr";
+    return;
+  }
   show(std::string(value), os);
 }
 
-- 
2.43.0


From 036a06524e772a090eba9dfae9376d886eb9477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 22/33] fix: show signed char as a number like the other
 character types

---
 include/rapidcheck/Show.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index a83aee9..374c15f 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -53,6 +53,7 @@ void showValue(T value,
 template <typename T>
 void showValue(T value,
                typename std::enable_if<(std::is_same<T, char>::value ||
+                                        std::is_same<T, signed char>::value ||
                                         std::is_same<T, unsigned char>::value),
                                        std::ostream>::type &os) {
   os << static_cast<int>(value);
-- 
2.43.0


From a6e140a9af52cbc81b2d702573cce6500493f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 23/33] fix: discard cases whose arguments cannot be generated

---
 include/rapidcheck/detail/Property.hpp | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/detail/Property.hpp b/include/rapidcheck/detail/Property.hpp
index 34fd594..cf6951f 100644
--- a/include/rapidcheck/detail/Property.hpp
+++ b/include/rapidcheck/detail/Property.hpp
@@ -93,14 +93,35 @@ private:
   Callable m_callable;
 };
 
+/// Callable without arguments that generates the arguments of another callable
+/// and then calls it. This way, failing to generate the arguments is handled
+/// just like failing to generate any other value in a property.
+template <typename Callable, typename Type = FunctionType<Callable>>
+class ArgumentAdapter;
+
+template <typename Callable, typename ReturnType, typename... Args>
+class ArgumentAdapter<Callable, ReturnType(Args...)> {
+public:
+  explicit ArgumentAdapter(Callable callable)
+      : m_callable(std::move(callable)) {}
+
+  ReturnType operator()() const {
+    return gen::detail::execWithArguments(m_callable, TypeList<Args...>());
+  }
+
+private:
+  Callable m_callable;
+};
+
 Gen<CaseDescription>
 mapToCaseDescription(Gen<std::pair<TaggedResult, gen::detail::Recipe>> gen);
 
 template <typename Callable>
 Property toProperty(Callable &&callable) {
-  using Adapter = PropertyAdapter<Decay<Callable>>;
-  return mapToCaseDescription(
-      gen::detail::execRaw(Adapter(std::forward<Callable>(callable))));
+  using Body = ArgumentAdapter<Decay<Callable>>;
+  using Adapter = PropertyAdapter<Body>;
+  return mapToCaseDescription(gen::detail::execRaw(
+      Adapter(Body(std::forward<Callable>(callable)))));
 }
 
 } // namespace detail
-- 
2.43.0


From 2eb3a52a1920b7610856f44660a41bafc0887e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 24/33] fix: shield enclosing properties from the generators of
 nested checks

---
 src/detail/Testing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 9ccaa4d..fc110ba 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,6 +1,7 @@
 #include "Testing.h"
 
 #include "rapidcheck/BeforeMinimalTestCase.h"
+#include "rapidcheck/detail/ImplicitParam.h"
 #include "rapidcheck/shrinkable/Operations.h"
 
 namespace rc {
@@ -158,6 +159,9 @@ TestResult testProperty(const Property &property,
                         const TestMetadata &metadata,
                         const TestParams &params,
                         TestListener &listener) {
+  // If this is run from within another property, that property should not be
+  // affected by what the generators of this one do when shrinking
+  ImplicitScope scope;
   TestResult result = doTestProperty(property, params, listener);
   listener.onTestFinished(metadata, result);
   return result;
@@ -165,6 +169,7 @@ TestResult testProperty(const Property &property,
 
 TestResult reproduceProperty(const Property &property,
                              const Reproduce &reproduce) {
+  ImplicitScope scope;
   const auto shrinkable = property(reproduce.random, reproduce.size);
   const auto minShrinkable =
       shrinkable::walkPath(shrinkable, reproduce.shrinkPath);
-- 
2.43.0


From 4ae1b419d68c5ad56b61b028d610cf7b829cec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 25/33] fix: let the doctest integration find the doctest
 namespace

---
 extras/doctest/include/rapidcheck/doctest.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..374bd0d 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -7,6 +7,10 @@
 
 namespace rc::doctest {
 
+// The doctest macros refer to `doctest` which inside of this namespace would
+// otherwise only mean this one.
+using namespace ::doctest;
+
 /**
  * Checks the given predicate by applying it to randomly generated arguments.
  *
-- 
2.43.0


From 6099e40b0ca67eceae0954f9a82bbfd0aa297f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:45 +0000
Subject: [PATCH 26/33] fix: tear down fixtures also when a case fails or is
 discarded

---
 include/rapidcheck/detail/ExecFixture.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/ExecFixture.h b/include/rapidcheck/detail/ExecFixture.h
index d188d56..26f851e 100644
--- a/include/rapidcheck/detail/ExecFixture.h
+++ b/include/rapidcheck/detail/ExecFixture.h
@@ -14,7 +14,13 @@ struct ExecFixture<Fixture, TypeList<Args...>> {
   static void exec(Args &&... args) {
     Fixture fixture;
     fixture.rapidCheck_fixtureSetUp();
-    fixture(std::forward<Args>(args)...);
+    try {
+      fixture(std::forward<Args>(args)...);
+    } catch (...) {
+      // Failed assertions and discards are exceptions too
+      fixture.rapidCheck_fixtureTearDown();
+      throw;
+    }
     fixture.rapidCheck_fixtureTearDown();
   }
 };
-- 
2.43.0


From b670285da51bda5203787b4c3b9b22eb01442070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 27/33] fix: keep scaled sizes within the range of int

---
 include/rapidcheck/gen/Transform.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Transform.hpp b/include/rapidcheck/gen/Transform.hpp
index e9433fa..0d9d930 100644
--- a/include/rapidcheck/gen/Transform.hpp
+++ b/include/rapidcheck/gen/Transform.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "rapidcheck/shrinkable/Transform.h"
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
@@ -120,7 +122,10 @@ Gen<T> resize(int size, Gen<T> gen) {
 template <typename T>
 Gen<T> scale(double scale, Gen<T> gen) {
   return [=](const Random &random, int size) {
-    return gen(random, static_cast<int>(size * scale));
+    // Converting a value that does not fit in an `int` would be undefined
+    constexpr auto maxSize = std::numeric_limits<int>::max();
+    const double scaled = size * scale;
+    return gen(random, (scaled < maxSize) ? static_cast<int>(scaled) : maxSize);
   };
 }
 
-- 
2.43.0


From d601cd97d73dc470362593738c1b6f8917bc1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 28/33] fix: do not overflow the size when retrying with larger
 sizes

---
 include/rapidcheck/gen/Container.hpp | 6 +++++-
 include/rapidcheck/gen/Predicate.hpp | 6 +++++-
 src/detail/Testing.cpp               | 9 +++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index 3533479..3743e2f 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
 #include "rapidcheck/gen/detail/ShrinkValueIterator.h"
@@ -51,7 +53,9 @@ Shrinkables<T> generateShrinkables(const Random &random,
                                 std::to_string(count) +
                                 " values for container");
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
   }
 
diff --git a/include/rapidcheck/gen/Predicate.hpp b/include/rapidcheck/gen/Predicate.hpp
index 5ab6290..6cd257b 100644
--- a/include/rapidcheck/gen/Predicate.hpp
+++ b/include/rapidcheck/gen/Predicate.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 namespace rc {
 namespace gen {
 namespace detail {
@@ -22,7 +24,9 @@ public:
       if (shrinkable) {
         return std::move(*shrinkable);
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
 
     throw GenerationFailure(
diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index fc110ba..fe496be 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,5 +1,8 @@
 #include "Testing.h"
 
+#include <algorithm>
+#include <limits>
+
 #include "rapidcheck/BeforeMinimalTestCase.h"
 #include "rapidcheck/detail/ImplicitParam.h"
 #include "rapidcheck/shrinkable/Operations.h"
@@ -45,8 +48,10 @@ SearchResult searchProperty(const Property &property,
   auto recentDiscards = 0;
   auto r = Random(params.seed);
   while (searchResult.numSuccess < params.maxSuccess) {
-    const auto size =
-        sizeFor(params, searchResult.numSuccess) + (recentDiscards / 10);
+    const auto size = static_cast<int>(std::min<std::int64_t>(
+        static_cast<std::int64_t>(sizeFor(params, searchResult.numSuccess)) +
+            (recentDiscards / 10),
+        std::numeric_limits<int>::max()));
     const auto random = r.split();
 
     auto shrinkable = property(random, size);
-- 
2.43.0


From cc4b029e9cd680d4827f0fac61e3784412bc76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 29/33] fix: do not reserve memory for test cases that may
 never run

---
 src/detail/Testing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index fe496be..b6e8b69 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -40,7 +40,6 @@ SearchResult searchProperty(const Property &property,
   searchResult.type = SearchResult::Type::Success;
   searchResult.numSuccess = 0;
   searchResult.numDiscarded = 0;
-  searchResult.tags.reserve(params.maxSuccess);
 
   const auto maxDiscard =
       static_cast<std::int64_t>(params.maxDiscardRatio) * params.maxSuccess;
-- 
2.43.0


From d922c20fdda5dbcb967b19bd9bb4b0cbb6d75608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:51 +0000
Subject: [PATCH 30/33] fix: do not move from key functions passed as lvalues
 to uniqueBy

---
 include/rapidcheck/gen/Container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index 3743e2f..d0e223f 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -242,7 +242,7 @@ class UniqueContainerStrategy {
 public:
   template <typename Arg>
   explicit UniqueContainerStrategy(Arg &&arg)
-      : m_f(std::move(arg)) {}
+      : m_f(std::forward<Arg>(arg)) {}
 
   template <typename T>
   Shrinkables<T> generateElements(const Random &random,
-- 
2.43.0


From a06085bfc151419b1ac7bd4659c6bc3bc2c9fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:51 +0000
Subject: [PATCH 31/33] fix: let rc::show find the showValue of boost::optional

---
 .../include/rapidcheck/gen/boost/Optional.hpp     | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
index aeb4212..66f6ebc 100644
--- a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
+++ b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
@@ -23,13 +23,24 @@ struct Arbitrary<boost::optional<T>> {
   }
 };
 
+} // namespace rc
+
+namespace boost {
+
+// Found by argument dependent lookup from `rc::show`.
 template <typename T>
-void showValue(const boost::optional<T> &x, std::ostream &os) {
+void showValue(const optional<T> &x, std::ostream &os) {
   if (x) {
-    show(*x, os);
+    rc::show(*x, os);
   } else {
     os << "boost::none";
   }
 }
 
+} // namespace boost
+
+namespace rc {
+
+using ::boost::showValue;
+
 } // namespace rc
-- 
2.43.0


From 13afd9999eecd7c3c41c737b166290cf2c1c1f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:31 +0000
Subject: [PATCH 32/33] fix: leave the stream precision alone when showing
 strings

---
 src/Show.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index 078ac24..9aecce6 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -2,7 +2,6 @@
 
 #include <string>
 #include <iostream>
-#include <iomanip>
 #include <cctype>
 #include <locale>
 
@@ -56,7 +55,7 @@ void showValue(const std::string &value, std::ostream &os) {
       default:
         auto flags = os.flags();
         os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
+        os << std::hex << std::uppercase
            << static_cast<int>(c & 0xFF);
         os.flags(flags);
       }
-- 
2.43.0


From 49d8c39768ad127ac9b6420f6363d4cbcb071481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:16 +0000
Subject: [PATCH 33/33] fix: shrink characters of types without a ctype facet

---
 include/rapidcheck/shrink/Shrink.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index e78e32e..9684b8a 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -191,12 +191,15 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 
 template <typename T>
 Seq<T> character(T value) {
-  const auto &locale = std::locale::classic();
+  // Not `std::tolower(value, locale)` and friends since those throw for
+  // character types without a `std::ctype` facet, such as `char32_t`.
+  const bool isLower = (value >= 'a') && (value <= 'z');
+  const bool isUpper = (value >= 'A') && (value <= 'Z');
   auto shrinks = seq::concat(
       seq::cast<T>(seq::fromContainer(std::string("abc"))),
       // TODO this seems a bit hacky
-      std::islower(value, locale) ? Seq<T>()
-                                  : seq::just(std::tolower(value, locale)),
+      isLower ? Seq<T>()
+              : seq::just(static_cast<T>(isUpper ? value + ('a' - 'A') : value)),
       seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
-- 
2.43.0

