From 3f9c4b249d749cac1376a51cab3233e22013605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 001/100] fix: LimitedVector copy assignment did not compile
 and could not copy non trivial elements

---
 mbo/container/limited_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..a0ab8d4 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From aa83b0f438364b36eb78c84e858c6009b216f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 002/100] fix: LimitedVector destroyed elements twice, never or
 used them after destruction

erase, insert, emplace, swap and moves left moved-from elements undestroyed,
assigned to destroyed or never constructed ones, and insertion of an own
element inserted the moved-from one.
---
 mbo/container/limited_vector.h | 55 ++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index a0ab8d4..d6882f2 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -158,16 +158,18 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(
-          const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(
+            const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+      }
+      other.clear();
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -229,7 +231,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -241,7 +243,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -285,20 +287,23 @@ class LimitedVector final {
     for (; pos < other.size(); ++pos) {
       emplace_back(std::move(other.at(pos)));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    while (size_ > other_size) {
+      pop_back();
+    }
+    while (other.size_ > this_size) {
+      other.pop_back();
+    }
   }
 
   template<typename... Args>
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    // The arguments may refer to elements of this vector, so they must be used before moving elements.
+    std::remove_const_t<T> value(std::forward<Args>(args)...);
+    const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    move_backward(dst, 1);
+    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::move(value));
     return dst;
   }
 
@@ -307,10 +312,10 @@ class LimitedVector final {
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
     auto dst = const_cast<iterator>(pos);
     --size_;
-    std::destroy_at(dst);
     for (; dst < end(); ++dst) {
       *dst = std::move(*std::next(dst));
     }
+    std::destroy_at(dst);
     return pos > end() ? end() : const_cast<iterator>(pos);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
@@ -319,17 +324,14 @@ class LimitedVector final {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
     auto dst = const_cast<iterator>(first);
     auto src = const_cast<iterator>(last);
     for (; src < end(); ++src, ++dst) {
       *dst = std::move(*src);
     }
-    size_ -= deleted;
+    while (end() > dst) {
+      pop_back();
+    }
     return const_cast<iterator>(first);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
@@ -392,8 +394,9 @@ class LimitedVector final {
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    std::remove_const_t<T> new_value(std::forward<U>(value));  // May refer to an element of this vector.
     move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::move(new_value));
     return dst;
   }
 
@@ -404,9 +407,10 @@ class LimitedVector final {
     if (count == 0) {
       return dst;
     }
+    const std::remove_const_t<T> new_value(value);  // May refer to an element of this vector.
     std::size_t index = move_backward(dst, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), new_value);
       ++index;
       --count;
     }
@@ -511,6 +515,7 @@ class LimitedVector final {
     while (dst < &values_[pos].data) {
       --pos;
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
     size_ += count;
     return pos;
-- 
2.43.0


From c37cd97954e6d19bb24bbdd5b2186b6ba28ed1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 003/100] fix: LimitedSet/LimitedMap copy assignment did not
 compile, copies lost their comparator

---
 mbo/container/internal/limited_ordered.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..e640b2a 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -426,13 +426,14 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-- 
2.43.0


From 738d7c1891af2118d8c00616a2e076901ce26d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 004/100] fix: LimitedSet/LimitedMap destroyed moved-from
 elements never

Insertion, removal, swap and moves constructed over live elements or left
moved-from ones undestroyed.
---
 mbo/container/internal/limited_ordered.h | 45 +++++++++++++-----------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index e640b2a..ef6c776 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -437,7 +437,7 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
@@ -445,7 +445,7 @@ class [[nodiscard]] LimitedOrdered {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -897,8 +897,12 @@ class [[nodiscard]] LimitedOrdered {
     for (; pos < other.size(); ++pos) {
       emplace(std::move(other.values_[pos].data));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    while (size_ > other_size) {
+      std::destroy_at(&values_[--size_].data);
+    }
+    while (other.size_ > this_size) {
+      std::destroy_at(&other.values_[--other.size_].data);
+    }
   }
 
   template<typename... Args>
@@ -909,9 +913,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    make_space(dst);
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
@@ -923,10 +925,11 @@ class [[nodiscard]] LimitedOrdered {
     MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
     auto dst = to_iterator(pos);
     --size_;
-    std::destroy_at(&*dst);
     for (; dst < end(); ++dst) {
+      std::destroy_at(const_cast<RawValue*>(&*dst));
       std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
     }
+    std::destroy_at(const_cast<RawValue*>(&*dst));
     return pos > end() ? end() : to_iterator(pos);
   }
 
@@ -1036,9 +1039,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    make_space(dst);
     std::construct_at(
         const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -1055,9 +1056,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    make_space(dst);
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
@@ -1074,9 +1073,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    make_space(dst);
     std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
     ++size_;
     return std::make_pair(dst, true);
@@ -1091,9 +1088,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    make_space(dst);
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
     ++size_;
     return std::make_pair(dst, true);
@@ -1152,6 +1147,16 @@ class [[nodiscard]] LimitedOrdered {
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
+  // Moves all elements from `dst` on by one position, so that an element can be constructed at `dst`.
+  constexpr void make_space(iterator dst) noexcept {
+    // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
+    for (iterator next = end(); next > dst; --next) {
+      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      std::destroy_at(const_cast<RawValue*>(&*std::prev(next)));
+    }
+    // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
+  }
+
   static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
 
   static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
-- 
2.43.0


From a023506964a6e9aa1229ffd5980afb9efdb0b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 005/100] fix: LimitedSet/LimitedMap erase(key) with an own
 element as key removed all following elements

---
 mbo/container/internal/limited_ordered.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index ef6c776..dabc4f9 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -950,16 +950,13 @@ class [[nodiscard]] LimitedOrdered {
   }
 
   constexpr size_type erase(const Key& key) {
-    size_type count = 0;
-    while (true) {
-      auto pos = find(key);
-      if (pos == end()) {
-        break;
-      }
-      erase(pos);
-      ++count;
+    // Keys are unique. Further `key` may refer to the erased element, so it may not be used again.
+    const auto pos = find(key);
+    if (pos == end()) {
+      return 0;
     }
-    return count;
+    erase(pos);
+    return 1;
   }
 
   // Erase by a key that is NOT this container's key type.
-- 
2.43.0


From 5f1f5d92054b91137dfe6aee450ec2970c08b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 006/100] fix: LimitedMap try_emplace and operator[] overwrote
 the value of an existing key

---
 mbo/container/internal/limited_ordered.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index dabc4f9..9cbfcea 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1032,7 +1032,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
@@ -1049,7 +1048,6 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-- 
2.43.0


From b60a97d9560dde8b2302367c0d68bb853ff4622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 007/100] fix: LimitedMap insertion of an own element's value
 inserted the moved-from value

---
 mbo/container/internal/limited_ordered.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 9cbfcea..90a6fe0 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1035,10 +1035,11 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
+    // The arguments may refer to elements of this map, so they must be used before moving elements.
+    RawValue new_val(
+        std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...));
     make_space(dst);
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1051,10 +1052,11 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    make_space(dst);
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
+    RawValue new_val(std::move(key), Mapped(std::forward<Args>(args)...));
+    make_space(dst);
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1068,8 +1070,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
+    RawValue new_val(key, std::forward<V>(value));
     make_space(dst);
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1083,8 +1086,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
+    RawValue new_val(std::move(key), std::forward<V>(value));
     make_space(dst);
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
-- 
2.43.0


From 082588bd2c4b1744103d497494efd8840b9bb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 008/100] fix: LimitedSet/LimitedMap construction from sorted
 input ignored the capacity

---
 mbo/container/internal/limited_ordered.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 90a6fe0..78ba896 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -456,10 +456,11 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : key_comp_(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, val_comp_), "Flag `kRequireSortedInput` violated.");
     }
     while (first < last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
+        MBO_CONFIG_REQUIRE(size_ < Capacity, "Called constructor at capacity.");
         std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
       } else {
         emplace(*first);
-- 
2.43.0


From 1876a030733e8580a8e94d5c9a3c173f2478ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 009/100] fix: LimitedSet/LimitedMap erase of const_iterators
 and ranges, and key_comp did not compile

---
 mbo/container/internal/limited_ordered.h | 29 ++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 78ba896..626d6cd 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -923,7 +923,7 @@ class [[nodiscard]] LimitedOrdered {
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
+    MBO_CONFIG_REQUIRE(cbegin() <= const_iterator(pos) && const_iterator(pos) < cend(), "Invalid `pos`.");
     auto dst = to_iterator(pos);
     --size_;
     for (; dst < end(); ++dst) {
@@ -931,25 +931,30 @@ class [[nodiscard]] LimitedOrdered {
       std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
     }
     std::destroy_at(const_cast<RawValue*>(&*dst));
-    return pos > end() ? end() : to_iterator(pos);
+    return to_iterator(pos);
   }
 
   constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
+    MBO_CONFIG_REQUIRE(cbegin() <= first && first <= last && last <= cend(), "Invalid `first` or `last`.");
     auto dst = to_iterator(first);
     auto src = to_iterator(last);
+    if (dst == src) {
+      return dst;
+    }
     for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
+      std::destroy_at(const_cast<RawValue*>(&*dst));
+      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*src));
+    }
+    while (end() > dst) {
+      std::destroy_at(&values_[--size_].data);
     }
-    size_ -= deleted;
     return to_iterator(first);
   }
 
+  constexpr iterator erase(iterator first, iterator last) noexcept(!kRequireThrows) {
+    return erase(const_iterator(first), const_iterator(last));
+  }
+
   constexpr size_type erase(const Key& key) {
     // Keys are unique. Further `key` may refer to the erased element, so it may not be used again.
     const auto pos = find(key);
@@ -1142,7 +1147,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
@@ -1159,7 +1164,7 @@ class [[nodiscard]] LimitedOrdered {
 
   static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
 
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
+  constexpr iterator to_iterator(const_iterator pos) noexcept { return begin() + (pos - cbegin()); }
 
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
-- 
2.43.0


From 0085f592a4fa69fa1b67fa5e1fbdd966ecc3b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:15 +0000
Subject: [PATCH 010/100] fix: LimitedVector erase of an empty range moved
 elements onto themselves

---
 mbo/container/limited_vector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index d6882f2..c83cd6a 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -326,6 +326,9 @@ class LimitedVector final {
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
     auto dst = const_cast<iterator>(first);
     auto src = const_cast<iterator>(last);
+    if (src == dst) {
+      return dst;
+    }
     for (; src < end(); ++src, ++dst) {
       *dst = std::move(*src);
     }
-- 
2.43.0


From 5b954841c3398c770cce1389772a1a77c36912f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 011/100] fix: Required hashing dereferenced the value

---
 mbo/types/required.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..b6ab3a4 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -134,7 +134,7 @@ class Required {
 
   template<typename H>
   friend H AbslHashValue(H hash, const Required<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.value_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.value_));
   }
 
   template<typename Sink>
-- 
2.43.0


From c67aae2a704c085340e4dc0f39b9a0adeffe206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 012/100] fix: NoDestruct hashing and printing used the storage
 instead of the value

---
 mbo/types/no_destruct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/no_destruct.h b/mbo/types/no_destruct.h
index 6624c59..10fabe5 100644
--- a/mbo/types/no_destruct.h
+++ b/mbo/types/no_destruct.h
@@ -102,12 +102,12 @@ class NoDestruct final {
 
   template<typename H>
   friend H AbslHashValue(H hash, const NoDestruct<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.data_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.Get()));
   }
 
   template<typename Sink>
   friend void AbslStringify(Sink& sink, const NoDestruct<T>& v) {
-    absl::Format(&sink, "%v", v.data_);
+    absl::Format(&sink, "%v", v.Get());
   }
 
  private:
-- 
2.43.0


From 6dd1444c2f71d10410ef17a394a811b8985b5e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 013/100] fix: OptionalDataOrRef moves leaked the moved-from
 value, self move, assigning nullopt returned nothing

---
 mbo/types/optional_data_or_ref.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..4e889df 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.Destruct();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,17 +112,19 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.Destruct();
     } else {
       Destruct(other.union_.ptr);
     }
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From c3567912ff3350851491fda2e626d500c837097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 014/100] fix: ContainerProxy clear, pop_front and const front
 were never available

---
 mbo/types/container_proxy.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/types/container_proxy.h b/mbo/types/container_proxy.h
index 1031eb2..5403847 100644
--- a/mbo/types/container_proxy.h
+++ b/mbo/types/container_proxy.h
@@ -103,7 +103,7 @@ struct ContainerProxy : T {
   constexpr auto max_size() const requires(requires(const C& v) { v.max_size(); }) { return Get().max_size(); }
   constexpr auto capacity() const requires(requires(const C& v) { v.capacity(); }) { return Get().capacity(); }
 
-  constexpr void clear() requires(requires(const C& v) { v.clear(); }) { Get().clear(); }
+  constexpr void clear() requires(requires(C& v) { v.clear(); }) { Get().clear(); }
   constexpr void reserve(size_type capacity) requires(requires(C& v) { v.reserve(std::declval<size_type>()); }) { Get().reserve(capacity); }
   constexpr void resize(size_type size) requires(requires(C& v) { v.resize(std::declval<size_type>()); }) { Get().resize(size); }
 
@@ -146,11 +146,11 @@ struct ContainerProxy : T {
 
   constexpr auto& back() const requires(requires(const C& v) { v.back(); }) { return Get().back(); }
   constexpr auto& back() requires(requires(C& v) { v.back(); }) { return Get().back(); }
-  constexpr auto& front() const requires(requires(const T& v) { v.front(); }) { return Get().front(); }
+  constexpr auto& front() const requires(requires(const C& v) { v.front(); }) { return Get().front(); }
   constexpr auto& front() requires(requires(C& v) { v.front(); }) { return Get().front(); }
 
   constexpr void pop_back() requires(requires(C& v) { v.pop_back(); }) { Get().pop_back(); }
-  constexpr void pop_front() requires(requires(C& v) { v.pop_frontk(); }) { Get().pop_front(); }
+  constexpr void pop_front() requires(requires(C& v) { v.pop_front(); }) { Get().pop_front(); }
 
   auto operator<=>(const ContainerProxy& other) const
   requires std::three_way_comparable<T>
-- 
2.43.0


From 21734ba2ed72feaac65c2fb663903d627c44dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 015/100] fix: OpaqueValue copy construction from a non const
 object did not compile

---
 mbo/types/opaque.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbo/types/opaque.h b/mbo/types/opaque.h
index 3315c71..9f2aa8b 100644
--- a/mbo/types/opaque.h
+++ b/mbo/types/opaque.h
@@ -21,6 +21,7 @@
 #include <cstddef>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #include "absl/hash/hash.h"
 #include "mbo/types/container_proxy.h"  // IWYU pragma: export
@@ -90,6 +91,10 @@ struct OpaqueValue {
   requires(std::is_copy_constructible_v<T>)
       : ptr_(MakeOpaquePtr<T>(*other.ptr_)) {}
 
+  OpaqueValue(OpaqueValue& other)
+  requires(std::is_copy_constructible_v<T>)
+      : OpaqueValue(std::as_const(other)) {}
+
   OpaqueValue& operator=(const OpaqueValue& other)
   requires(std::is_copy_constructible_v<T>)
   {
-- 
2.43.0


From 340d68dacde153d0bfb626554ae9b4d3ea2fba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 016/100] fix: comparing two Required or two RefWrap values did
 not compile

---
 mbo/types/ref_wrap.h | 19 +++++++++++++++----
 mbo/types/required.h | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/mbo/types/ref_wrap.h b/mbo/types/ref_wrap.h
index f902984..358fc67 100644
--- a/mbo/types/ref_wrap.h
+++ b/mbo/types/ref_wrap.h
@@ -25,6 +25,16 @@
 
 namespace mbo::types {
 
+template<typename T>
+class RefWrap;
+
+// Determine whether a type `T` is a `RefWrap`.
+template<typename T>
+concept IsRefWrap = requires {
+  typename T::type;
+  requires std::same_as<T, RefWrap<typename T::type>>;
+};
+
 // Template class `RefWrap<T>` is a reference wrapper for a type `T`. It has
 // similar goals to `std::reference_wrapper` or GSL's `not_null`. However, the
 // wrapper behaves like a pointer that cannot be a nullptr. In details:
@@ -84,13 +94,14 @@ class RefWrap final {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const RefWrap<U>& other) const noexcept {
-    if (ptr_ == other.ptr_) {
-      return decltype(*ptr_ <=> other)::equivalent;
+    if (ptr_ == &other.get()) {
+      return decltype(*ptr_ <=> other.get())::equivalent;
     }
-    return *ptr_ <=> *other.ptr_;
+    return *ptr_ <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!IsRefWrap<U> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (ptr_ == &other) {
       return decltype(*ptr_ <=> other)::equivalent;
diff --git a/mbo/types/required.h b/mbo/types/required.h
index b6ab3a4..e001388 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -26,6 +26,16 @@
 
 namespace mbo::types {
 
+template<typename T>
+class Required;
+
+// Determine whether a type `T` is a `Required`.
+template<typename T>
+concept IsRequired = requires {
+  typename T::type;
+  requires std::same_as<T, Required<typename T::type>>;
+};
+
 // Template class `Required<T>` is a wrapper around a type `T`. The value can be
 // replaced without using assign or move-assign operators. Instead the wrapper
 // will call the destructor and then in-place construct the wrapped value using
@@ -118,13 +128,14 @@ class Required {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const Required<U>& other) const noexcept {
-    if (value_ == other) {
-      return decltype(value_ <=> other)::equivalent;
+    if (value_ == other.get()) {
+      return decltype(value_ <=> other.get())::equivalent;
     }
-    return value_ <=> other.value_;
+    return value_ <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!IsRequired<U> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (value_ == other) {
       return decltype(value_ <=> other)::equivalent;
-- 
2.43.0


From 7fbe527498a5336434a042619010b06d0f543c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 017/100] fix: OptionalRef less than nullopt did not compile

---
 mbo/types/optional_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 1e8ae60..ee1cee8 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -134,7 +134,7 @@ class OptionalRef {
 
   constexpr bool operator==(std::nullopt_t /*unused*/) const noexcept { return v_ == nullptr; }
 
-  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return v_ < nullptr; }
+  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return false; }
 
   constexpr std::strong_ordering operator<=>(std::nullopt_t /*unused*/) const noexcept {
     if (!has_value()) {
-- 
2.43.0


From 215e1fc7c1f03a41d87c5072655a73bcd95d4d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 018/100] fix: hashing of OptionalRef and OptionalDataOrRef did
 not compile

---
 mbo/types/optional_data_or_ref.h | 2 +-
 mbo/types/optional_ref.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 4e889df..545b912 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -308,7 +308,7 @@ class OptionalDataOrRef {
     if (v.has_value()) {
       return H::combine(std::move(hash), absl::HashOf<>(v.value()));
     } else {
-      return H::combine(std::move(hash), absl::HashOf<>(std::nullopt));
+      return H::combine(std::move(hash), false);
     }
   }
 
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index ee1cee8..e916a37 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -176,7 +176,7 @@ class OptionalRef {
     if (v.has_value()) {
       return H::combine(std::move(hash), absl::HashOf<>(v.value()));
     } else {
-      return H::combine(std::move(hash), absl::HashOf<>(std::nullopt));
+      return H::combine(std::move(hash), false);
     }
   }
 
-- 
2.43.0


From af1233d103726444a788b97515846fd87fdbc29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 019/100] fix: AnyScan iterator equality by reference was
 inverted

---
 mbo/container/any_scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 019a4f0..3fdfdd8 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -470,7 +470,7 @@ class AnyScanImpl {
       if constexpr (kAccessByRef) {
         // Approximate equal address means equal iterator. That is not always correct as a container
         // might have the same element reference twice.
-        return &funcs_.curr() != &other.funcs_.curr();
+        return &funcs_.curr() == &other.funcs_.curr();
       } else {
         // Cannot take address of rvalue temp. Comparing actual values would be incorrect.
         return false;
-- 
2.43.0


From 0fd1a1b322d70a3c9499111a386c61c965718cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 020/100] fix: copied AnyScan iterators shared their position

---
 mbo/container/any_scan.h | 50 +++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 3fdfdd8..e972bc6 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -285,13 +285,17 @@ class AnyScanImpl {
   using FuncCurr = std::function<AccessType()>;
   using FuncNext = std::function<void()>;
 
+  struct IterFuncs;
+
+  using FuncIter = std::function<IterFuncs()>;
+
   struct IterFuncs {
     FuncMore more;
     FuncCurr curr;
     FuncNext next;
+    FuncIter copy;  // Creates functions for an independent iterator at the same position.
   };
 
-  using FuncIter = std::function<IterFuncs()>;
   using FuncZero = std::function<bool()>;
   using FuncSize = std::function<std::size_t()>;
 
@@ -351,6 +355,22 @@ class AnyScanImpl {
     return std::shared_ptr<Iterator>(new Iterator(container.begin()));
   }
 
+  template<typename Data, typename Iterator>
+  static IterFuncs MakeIterFuncs(const Data& data, std::shared_ptr<Iterator> pos) {
+    return IterFuncs{
+        .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
+        .curr = [&it = *pos]() -> AccessType {
+          if constexpr (kAccessByRef) {
+            return *it;
+          } else {
+            return AccessType(*it);
+          }
+        },
+        .next = [&it = *pos] { ++it; },
+        .copy = [data = data, pos = pos] { return MakeIterFuncs(data, std::make_shared<Iterator>(*pos)); },
+    };
+  }
+
   // NOLINTBEGIN(bugprone-forwarding-reference-overload)
 
   // For MakAnyScan / MakeConstScan
@@ -361,11 +381,7 @@ class AnyScanImpl {
             .iter =
                 [data = data] {
                   auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return *it; },
-                      .next = [&it = *pos] { ++it; },
-                  };
+                  return MakeIterFuncs(data, std::move(pos));
                 },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
@@ -383,11 +399,7 @@ class AnyScanImpl {
             .iter =
                 [data = data] {
                   auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return AccessType(*it); },
-                      .next = [&it = *pos] { ++it; },
-                  };
+                  return MakeIterFuncs(data, std::move(pos));
                 },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
@@ -406,13 +418,29 @@ class AnyScanImpl {
     using pointer = ItPointer;
     using reference = ItReference;
 
+    ~iterator_impl() noexcept = default;
+
     iterator_impl()
         : funcs_{
               .more = [] { return false; },
               .curr = nullptr,
               .next = [] {},
+              .copy = nullptr,
           } {}
 
+    // Copies are independent: Advancing one does not advance the other.
+    iterator_impl(const iterator_impl& other) : funcs_(other.funcs_.copy ? other.funcs_.copy() : other.funcs_) {}
+
+    iterator_impl& operator=(const iterator_impl& other) {
+      if (this != &other) {
+        funcs_ = other.funcs_.copy ? other.funcs_.copy() : other.funcs_;
+      }
+      return *this;
+    }
+
+    iterator_impl(iterator_impl&&) noexcept = default;
+    iterator_impl& operator=(iterator_impl&&) noexcept = default;
+
     explicit iterator_impl(const AccessFuncs& funcs) : funcs_(funcs.iter()) {}
 
     reference operator*() const noexcept
-- 
2.43.0


From 3c938b7e1a76cda8f8f5d8dcd3a8adde7aae05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 021/100] fix: ConvertContainer moved the values out of
 referenced containers

---
 mbo/container/convert_container.h | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/mbo/container/convert_container.h b/mbo/container/convert_container.h
index 8569a20..826cc22 100644
--- a/mbo/container/convert_container.h
+++ b/mbo/container/convert_container.h
@@ -16,6 +16,10 @@
 #ifndef MBO_CONTAINER_CONVERT_CONTAINER_H_
 #define MBO_CONTAINER_CONVERT_CONTAINER_H_
 
+#include <concepts>
+#include <type_traits>
+#include <utility>
+
 #include "mbo/types/traits.h"
 
 namespace mbo::container {
@@ -51,27 +55,27 @@ class ConvertContainer final {
     for (auto&& v : container_) {
       if constexpr (mbo::types::ContainerHasEmplace<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace(std::move(v));
+          result.emplace(Pass(v));
         } else {
-          result.emplace(convert_(std::move(v)));
+          result.emplace(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasEmplaceBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace_back(std::move(v));
+          result.emplace_back(Pass(v));
         } else {
-          result.emplace_back(convert_(std::move(v)));
+          result.emplace_back(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasInsert<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.insert(std::move(v));
+          result.insert(Pass(v));
         } else {
-          result.insert(convert_(std::move(v)));
+          result.insert(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasPushBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.push_back(std::move(v));
+          result.push_back(Pass(v));
         } else {
-          result.push_back(convert_(std::move(v)));
+          result.push_back(convert_(Pass(v)));
         }
       }
     }
@@ -79,6 +83,18 @@ class ConvertContainer final {
   }
 
  private:
+  // Values are moved only if the container is owned (or cannot be copied / passed otherwise).
+  template<typename V>
+  static constexpr decltype(auto) Pass(V& v) noexcept {
+    if constexpr (
+        std::is_lvalue_reference_v<Container> && std::copy_constructible<std::remove_cv_t<V>>
+        && (std::same_as<Func, NoFunc> || std::invocable<Func&, V&>)) {
+      return (v);
+    } else {
+      return std::move(v);
+    }
+  }
+
   static inline constexpr NoFunc kNoFunc{};
   Container container_;
   Func convert_ = kNoFunc;
-- 
2.43.0


From 16c1f672fab4f063557809dd4d458f2edf77a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 022/100] fix: MBO_LOG_CHECK could only be used where
 ScopedStreamMode is visible

---
 mbo/log/scoped_log_check.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/log/scoped_log_check.h b/mbo/log/scoped_log_check.h
index cd205fc..4eb3a5c 100644
--- a/mbo/log/scoped_log_check.h
+++ b/mbo/log/scoped_log_check.h
@@ -140,9 +140,9 @@ void ScopedLogCheck(bool, std::string_view, const Disallowed&&) {  // NOLINT(*-n
 #undef MBO_FORCE_INLINE
 
 // A local optimized check implementation, it only processes the log stream if its `check` is false.
-#define MBO_LOG_CHECK(check)                            \
-  while (!(check))                                      \
-  mbo::log::ScopedStream<ScopedStreamMode::kQuickExit>( \
+#define MBO_LOG_CHECK(check)                                          \
+  while (!(check))                                                    \
+  ::mbo::log::ScopedStream<::mbo::log::ScopedStreamMode::kQuickExit>( \
       std::source_location::current(), std::cerr, "Failed MBO_LOG_CHECK(" #check ")")
 
 #endif  // MBO_LOG_SCOPED_LOG_CHECK_H_
-- 
2.43.0


From 6459ab186821604bf1be75e23270423ef73758db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 023/100] fix: AtLast::Find returned a position relative to
 where it started

---
 mbo/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/split.h b/mbo/strings/split.h
index 5f94a51..7dd46f9 100644
--- a/mbo/strings/split.h
+++ b/mbo/strings/split.h
@@ -31,7 +31,7 @@ class AtLast {
     if (next_pos == std::string_view::npos) {
       return std::string_view{text.data() + text.size(), 0};
     }
-    return text.substr(next_pos, 1);
+    return text.substr(pos + next_pos, 1);
   }
 
  private:
-- 
2.43.0


From 3f54e50dc6ecf18dbbb1f69219a46dc5a8c03c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 024/100] fix: an octal escape of one digit at the end of the
 input was rejected

---
 mbo/strings/parse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index c82bb70..acabdc8 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -29,10 +29,10 @@
 namespace mbo::strings {
 namespace {
 absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
-  if (data.empty()) {
+  const bool octal_23 = first_char == 'o';
+  if (octal_23 && data.empty()) {
     return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
   }
-  const bool octal_23 = first_char == 'o';
   if (octal_23) {
     if (data.size() < 3 || data.front() != '{') {
       return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
-- 
2.43.0


From 937b3c4e1c056b32ef142b8ab4b26d21540a92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 025/100] fix: the first digit of an octal C++23 escape was not
 validated

---
 mbo/strings/parse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index acabdc8..e2192b6 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -34,7 +34,7 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
   }
   if (octal_23) {
-    if (data.size() < 3 || data.front() != '{') {
+    if (data.size() < 3 || data.front() != '{' || data[1] < '0' || data[1] > '7') {
       return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
     }
     data.remove_prefix(1);
-- 
2.43.0


From f282c47aa7fa6c558cdc0325dcd63218eafb9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 026/100] fix: octal escapes beyond 8 bit were silently
 truncated

---
 mbo/strings/parse.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index e2192b6..173da60 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/strings/parse.h"
 
+#include <limits>
 #include <string>
 #include <string_view>
 #include <utility>
@@ -54,6 +55,9 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     }
     data.remove_prefix(1);
   }
+  if (next_chr > std::numeric_limits<unsigned char>::max()) {
+    return absl::InvalidArgumentError("ParseString input has octal sequence that is out of range.");
+  }
   return static_cast<char>(next_chr);
 }
 
-- 
2.43.0


From ef8fae66dbee86e0388b52df929fd25542d42d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 027/100] fix: ParseStringList continued past stop_at_str and
 unquoted characters

---
 mbo/strings/parse.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 173da60..0923fd2 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -151,12 +151,14 @@ void HandleQuotes(const ParseOptions& options, char chr, Quotes& quotes, std::st
   }
 }
 
-bool StopParsing(const ParseOptions& options, std::string_view data) {
-  const char chr = data.front();
-  return absl::StrContains(options.stop_at_any_of, chr)  //
-         || absl::StrContains(options.split_at_any_of, chr)
+bool StopAt(const ParseOptions& options, std::string_view data) {
+  return absl::StrContains(options.stop_at_any_of, data.front())  //
          || (!options.stop_at_str.empty() && data.starts_with(options.stop_at_str));
 }
+
+bool StopParsing(const ParseOptions& options, std::string_view data) {
+  return StopAt(options, data) || absl::StrContains(options.split_at_any_of, data.front());
+}
 }  // namespace
 
 absl::StatusOr<std::string> ParseString(const ParseOptions& options, std::string_view& data) {
@@ -246,7 +248,7 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
   if (str_options.split_at_any_of.empty()) {
     str_options.split_at_any_of = ",";
   }
-  if (absl::StrContains(options.stop_at_any_of, data.front())) {
+  if (StopAt(options, data)) {
     return result;
   }
   if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
@@ -261,7 +263,7 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
     if (data.empty()) {
       return result;
     }
-    if (absl::StrContains(options.stop_at_any_of, data.front())) {
+    if (StopAt(options, data) || !absl::StrContains(str_options.split_at_any_of, data.front())) {
       return result;
     }
     if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
-- 
2.43.0


From 56012ad79aacd991b63d92089c6f8e63541cbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 028/100] fix: NormalizePath left a trailing separator after
 resolving a trailing '.' or '..'

---
 mbo/file/file.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..c1ae4c3 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -59,7 +59,14 @@ std::filesystem::path NormalizePath(const std::filesystem::path& path) {
          && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
     path_str.remove_suffix(1);
   }
-  return std::filesystem::path(path_str).lexically_normal();
+  std::filesystem::path result = std::filesystem::path(path_str).lexically_normal();
+  // Resolving a trailing '.' or '..' leaves a trailing separator: "a/b/.." becomes "a/".
+  const std::basic_string_view<PathChar> result_str(result.native());
+  if (result_str.length() > 1
+      && (result_str.back() == static_cast<PathChar>('/') || result_str.back() == static_cast<PathChar>('\\'))) {
+    return NormalizePath(result);
+  }
+  return result;
 }
 
 absl::Status SetContents(const std::filesystem::path& file_name, std::string_view content) {
-- 
2.43.0


From f9f8781ee378ff2ca5da132aab235599f660bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 029/100] fix: JoinPathsRespectAbsolute lost absolute elements
 after an empty first one

---
 mbo/file/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/file.h b/mbo/file/file.h
index cb951bb..7fa2e8b 100644
--- a/mbo/file/file.h
+++ b/mbo/file/file.h
@@ -65,7 +65,7 @@ inline std::filesystem::path JoinPathsRespectAbsolute(const std::filesystem::pat
     if constexpr (sizeof...(paths) == 0) {
       return std::filesystem::path(first_path);
     } else if (first_path.empty()) {
-      return JoinPaths(paths...);
+      return JoinPathsRespectAbsolute(paths...);
     } else {
       // In theory this is what `fs::path /=` should do. But then it does way more.
       auto joined = JoinPathsRespectAbsolute(paths...);
-- 
2.43.0


From 463bdfb7cebfa390316e3a72a6176002938a3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 030/100] fix: reading a directory could throw or return empty
 content, Readable threw on path errors

---
 mbo/file/file.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index c1ae4c3..384c6b9 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -86,10 +86,14 @@ absl::Status SetContents(const std::filesystem::path& file_name, std::string_vie
 }
 
 absl::Status Readable(const std::filesystem::path& file_name) {
-  if (!std::filesystem::exists(file_name)) {
+  std::error_code error;
+  if (!std::filesystem::exists(file_name, error)) {
+    if (error) {
+      return absl::UnknownError(absl::StrCat("File error: '", file_name.native(), "': ", error.message()));
+    }
     return absl::NotFoundError(absl::StrFormat("File does not exist: '%s'", file_name));
   }
-  if (std::filesystem::is_directory(file_name)) {
+  if (std::filesystem::is_directory(file_name, error)) {
     return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
   }
   // Perform same operation as `GetContents` and use the ifstream constructor
@@ -111,6 +115,11 @@ absl::StatusOr<std::string> GetContents(const std::filesystem::path& file_name)
   if (!ifs) {
     return absl::NotFoundError(absl::StrFormat("Unable to read file: '%s'", file_name));
   }
+  std::error_code error;
+  if (std::filesystem::is_directory(file_name, error)) {
+    // Opening a directory may succeed but its 'size' is not meaningful.
+    return absl::UnknownError(absl::StrFormat("Unable to read file: '%s'", file_name));
+  }
   ifs.seekg(0, std::ios::end);  // As opposed to adding mode `ate`
   if (!ifs) {
     return absl::UnknownError(absl::StrFormat("Unable to determine file size: '%s'", file_name));
-- 
2.43.0


From 3cf2ad8890e0a20d0e53b7f8783ae65eea96b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 031/100] fix: lines of blanks in INI files became an empty key

---
 mbo/file/ini/ini_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.cc b/mbo/file/ini/ini_file.cc
index 4400212..5fddefb 100644
--- a/mbo/file/ini/ini_file.cc
+++ b/mbo/file/ini/ini_file.cc
@@ -50,7 +50,7 @@ IniFile IniFile::Parse(std::string_view content) {
       group = line;
       continue;
     }
-    if (line.starts_with(';') || line.starts_with('#')) {
+    if (line.empty() || line.starts_with(';') || line.starts_with('#')) {
       continue;
     }
     const std::pair<std::string_view, std::string_view> key_val = absl::StrSplit(line, absl::MaxSplits('=', 1));
-- 
2.43.0


From 414af94eecca6dc3802f73ecda9901698ab09b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 032/100] fix: IniFile::GetGroupData did not strip the group
 like all other lookups

---
 mbo/file/ini/ini_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.h b/mbo/file/ini/ini_file.h
index 6dbe778..9189872 100644
--- a/mbo/file/ini/ini_file.h
+++ b/mbo/file/ini/ini_file.h
@@ -104,7 +104,7 @@ class IniFile {
 
   absl::btree_map<std::string, std::string> GetGroupData(std::string_view group) const {
     absl::btree_map<std::string, std::string> result;
-    const auto group_it = data_.find(group);
+    const auto group_it = data_.find(absl::StripAsciiWhitespace(group));
     if (group_it != data_.end()) {
       for (const auto& kv : group_it->second) {
         result.emplace(kv);
-- 
2.43.0


From 8853f6f2ef11916712fcb7524291bc389cb22d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 033/100] fix: '^', '$' and '[' without ranges in glob patterns
 were not literal

---
 mbo/file/glob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..9d83361 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -392,6 +392,8 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
       case '|':
       case '+':
       case '.':
+      case '^':
+      case '$':
         // Characters that need to be escaped since they are literal in rglob but special in re2.
         re2_pattern += '\\';
         re2_pattern += chr;
@@ -399,7 +401,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '[':
         if (!options.allow_ranges) {
-          re2_pattern += pattern.front();
+          absl::StrAppend(&re2_pattern, "\\[");
           pattern.remove_prefix(1);
           continue;
         }
-- 
2.43.0


From 201678222996ecf7061835c4db4c55b330a97d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 034/100] fix: escaped letters and digits in glob patterns
 became RE2 classes

---
 mbo/file/glob.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 9d83361..a82dcec 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -98,6 +98,15 @@ MBO_ALWAYS_INLINE bool GlobFindRangePrefix(std::string_view& pattern, std::strin
   return false;
 }
 
+// Append the literal `chr` to `re2_pattern`. Only punctuation can be escaped: An escaped word
+// character has a special meaning in RE2 (e.g. `\d` is any digit).
+void AppendEscaped(char chr, std::string& re2_pattern) {
+  if (absl::ascii_ispunct(chr) && chr != '_') {
+    re2_pattern += '\\';
+  }
+  re2_pattern += chr;
+}
+
 bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.empty()) {
     return false;
@@ -110,7 +119,7 @@ bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.size() < 2) {
     return false;
   }
-  re2_pattern.append(pattern.substr(0, 2));
+  AppendEscaped(pattern[1], re2_pattern);
   pattern.remove_prefix(2);
   return true;
 }
@@ -374,7 +383,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '\\':
         // if (pattern.size() < 2) { already handled
-        absl::StrAppend(&re2_pattern, pattern.substr(0, 2));
+        AppendEscaped(pattern[1], re2_pattern);
         pattern.remove_prefix(2);
         continue;
       case '*': {
-- 
2.43.0


From 5b37365548c121de914b660b856700bd9031095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 035/100] fix: a character class ended the glob range it is
 part of

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a82dcec..82112f6 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -68,7 +68,7 @@ MBO_ALWAYS_INLINE absl::Status MaybeCharacterClass(std::string_view& glob_patter
     return absl::InvalidArgumentError("Unterminated character-class.");
   }
   MBO_RETURN_IF_ERROR(ValidateCharacterClass(glob_pattern.substr(2, end - 2)));
-  ++end;
+  end += 2;
   absl::StrAppend(&re2_pattern, glob_pattern.substr(0, end));
   glob_pattern.remove_prefix(end);
   return absl::OkStatus();
-- 
2.43.0


From d9f6c98033d9832e831b69dbad0d116adb1e97dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 036/100] fix: glob normalization changed ranges that contain
 '[/]' or escapes

---
 mbo/file/glob.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 82112f6..9bc6f07 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -150,6 +150,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobRangeInfo> GlobFindRange(std::string_view&
         if (!CopytNextChar(pattern, re2_pattern)) {
           return absl::InvalidArgumentError("Unterminated range expression ending in back-slash.");
         }
+        result.has_slash |= re2_pattern.back() == '/';
         continue;
       }
       case '/':
@@ -222,6 +223,7 @@ bool AllowAppendSlash(std::string_view pattern, std::size_t past_last_escape) {
 MBO_ALWAYS_INLINE absl::StatusOr<std::string> GlobNormalizeStr(
     std::string_view glob_pattern,
     const Glob2Re2Options& options) {
+  const std::string_view full_pattern = glob_pattern;
   std::string result;
   result.reserve(glob_pattern.size());
   std::size_t past_last_escape = 0;
@@ -249,8 +251,22 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> GlobNormalizeStr(
         }
         continue;
       case '[':
-        if (!options.allow_ranges || !glob_pattern.starts_with("/]")) {
-          result += chr;  // replace '[/]' with '/'.
+        if (!options.allow_ranges) {
+          result += chr;
+          continue;
+        }
+        if (!glob_pattern.starts_with("/]")) {  // replace '[/]' with '/'.
+          const std::size_t range_pos = full_pattern.size() - glob_pattern.size() - 1;
+          std::string_view after_range = full_pattern.substr(range_pos);
+          std::string tmp_re2;  // Here we only care for the end of the range.
+          if (!GlobFindRange(after_range, tmp_re2).ok()) {
+            result += chr;
+            continue;
+          }
+          glob_pattern = after_range;
+          absl::StrAppend(
+              &result, full_pattern.substr(range_pos, full_pattern.size() - after_range.size() - range_pos));
+          past_last_escape = result.size();
           continue;
         }
         glob_pattern.remove_prefix(2);
-- 
2.43.0


From 4dc23642b0fd06ab2658d3df71159a2094bdf290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 037/100] fix: the root of a split glob pattern kept its
 escapes

---
 mbo/file/glob.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 9bc6f07..d53c7d2 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -496,8 +496,17 @@ absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re
       root = "/";
     }
   }
+  std::string unescaped_root;
+  unescaped_root.reserve(root.size());
+  while (!root.empty()) {
+    if (root.front() == '\\') {
+      root.remove_prefix(1);  // Normalization verified that there is a character to escape.
+    }
+    unescaped_root += root.front();
+    root.remove_prefix(1);
+  }
   return RootAndPattern{
-      .root = std::string{root},
+      .root = std::move(unescaped_root),
       .pattern = std::string{patt},
   };
 }
-- 
2.43.0


From d711a619c2e0c44a86e61f4fd227c2bf6185b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 038/100] fix: '**' in glob patterns did not match names that
 contain a newline

---
 mbo/file/glob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index d53c7d2..6e1ad38 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -477,7 +477,9 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
     std::string_view pattern,
     const Glob2Re2Options& re2_convert_options) {
   MBO_MOVE_TO_OR_RETURN(Glob2Re2Expression(pattern, re2_convert_options), const std::string re2_pattern);
-  auto re2 = std::make_unique<RE2>(re2_pattern, re2_convert_options.re2_options);
+  RE2::Options re2_options = re2_convert_options.re2_options;
+  re2_options.set_dot_nl(true);  // File names may contain new-lines and '**' must match these.
+  auto re2 = std::make_unique<RE2>(re2_pattern, re2_options);
   if (re2->error_code() != RE2::NoError) {
     return absl::InvalidArgumentError(absl::StrFormat("Could not compile re2: '%s': %s.", pattern, re2->error()));
   }
-- 
2.43.0


From 24676010776fa7798ea5fb36ed15ba0e1b4d10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 039/100] fix: glob patterns did not match below a root that is
 not normalized

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 6e1ad38..594086c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -583,6 +583,8 @@ absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options
       root = std::filesystem::current_path() / root;
     }
   }
+  // Relative paths are determined lexically and thus the root has to be the same that is iterated.
+  root = (root.empty() || root == ".") ? std::filesystem::current_path() : root.lexically_normal();
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
     if (!regex.pattern().empty()) {
       if (options.use_rel_path) {
-- 
2.43.0


From 7ce40b932668ce1b9a2e74d24f7e06a3f31e93cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 040/100] fix: errors while iterating a glob were thrown
 instead of returned

---
 mbo/file/glob.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 594086c..a46fae8 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -545,7 +545,8 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
-  for (const fs::directory_entry& entry : it) {
+  for (const FileIterator end; it != end; it.increment(error_code)) {
+    const fs::directory_entry& entry = *it;
     const GlobEntry glob_entry{
         .rel_path =
             options.use_rel_path ? std::optional<fs::path>{entry.path().lexically_relative(root)} : std::nullopt,
@@ -562,6 +563,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
       }
     }
   }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From d5032df325c943d214996f0c520860c624463e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 041/100] fix: GlobSplit crashed for patterns that end in '://'

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a46fae8..3636e1d 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -283,7 +283,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> GlobNormalizeStr(
       }
     }
   }
-  if (result.size() > 1 && result.ends_with('/')) {
+  while (result.size() > 1 && result.ends_with('/')) {  // May be two after a ':'.
     result.pop_back();
   }
   return result;
-- 
2.43.0


From 8031a9957e44292b664f62c540eb69a1ffa5208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 042/100] fix: a literal '-' in a glob range could hide a
 following character class

---
 mbo/file/glob.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 3636e1d..3807849 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -141,9 +141,9 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobRangeInfo> GlobFindRange(std::string_view&
       .negative = GlobFindRangePrefix(pattern, re2_pattern),
       .has_slash = false,
   };
-  std::size_t pos = 0;
+  // Whether a following '-' makes a range out of the last character: It must not itself end a range.
+  bool starts_range = re2_pattern.ends_with("\\]") || re2_pattern.ends_with("\\^");
   while (!pattern.empty()) {
-    ++pos;
     const char chr = pattern.front();
     switch (chr) {
       default: {
@@ -151,17 +151,23 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobRangeInfo> GlobFindRange(std::string_view&
           return absl::InvalidArgumentError("Unterminated range expression ending in back-slash.");
         }
         result.has_slash |= re2_pattern.back() == '/';
+        starts_range = true;
         continue;
       }
       case '/':
         re2_pattern += chr;
         pattern.remove_prefix(1);
         result.has_slash = true;
+        starts_range = true;
         continue;
       case '-': {
         const char last = re2_pattern.back();
         re2_pattern += chr;
         pattern.remove_prefix(1);
+        if (!starts_range) {
+          starts_range = true;  // Case [-X], [a-b-X] and [[:alpha:]-X].
+          continue;
+        }
         if (pattern.empty()) {
           return absl::InvalidArgumentError("Unterminated range expression.");
         }
@@ -173,15 +179,12 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobRangeInfo> GlobFindRange(std::string_view&
         if (!CopytNextChar(pattern, re2_pattern)) {
           return absl::InvalidArgumentError("Unterminated range expression ending in back-slash.");
         }
-        if (pos > 1) {
-          result.has_slash |= RangeRangeContainsSlash(last, re2_pattern.back());
-        } else {
-          // Case [-X].
-          result.has_slash |= re2_pattern.back() == '/';
-        }
+        result.has_slash |= RangeRangeContainsSlash(last, re2_pattern.back()) || re2_pattern.back() == '/';
+        starts_range = false;
         continue;
       }
       case '[': {
+        starts_range = !pattern.starts_with("[:");
         MBO_RETURN_IF_ERROR(MaybeCharacterClass(pattern, re2_pattern));
         // TODO(helly25): Does it contain a '/'?
         continue;
-- 
2.43.0


From bdd29bc31d52929128218dab2a0cf21a516f02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 043/100] fix: the digest tool took unreadable inputs for empty
 ones

---
 mbo/digest/digest_main.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..3c7b7a2 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -114,22 +114,25 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Digests a stream in chunks (no whole-file buffering). Returns `nullopt` if reading fails.
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (input.bad()) {
+    return std::nullopt;  // E.g. directories can be opened but not read.
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -211,7 +214,8 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
+    const std::optional<std::string> digest = input ? algorithm.func(input) : std::nullopt;
+    if (!digest.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
@@ -220,7 +224,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -243,11 +247,13 @@ int RunCheck(const NamedAlgorithm& algorithm, const std::vector<std::string_view
       continue;
     }
     std::ifstream sums{fs::path(file_name), std::ios::binary};
-    if (!sums) {
+    if (sums) {
+      CheckStream(algorithm, sums, stats);
+    }
+    if (!sums.eof()) {
       std::cerr << file_name << ": Cannot read checksum file.\n";
       return 1;
     }
-    CheckStream(algorithm, sums, stats);
   }
   const bool silent = absl::GetFlag(FLAGS_status);
   auto warn = [&](std::size_t count, std::string_view what) {
@@ -274,7 +280,12 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      if (const std::optional<std::string> hex = digest(std::cin)) {
+        Print(*hex, file_name);
+      } else {
+        std::cerr << file_name << ": Cannot read file.\n";
+        result = 1;
+      }
       continue;
     }
     const fs::path path(file_name);
@@ -287,12 +298,13 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       continue;
     }
     std::ifstream input(path, std::ios::binary);
-    if (!input) {
+    const std::optional<std::string> hex = input ? digest(input) : std::nullopt;
+    if (!hex.has_value()) {
       std::cerr << file_name << ": Cannot read file.\n";
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    Print(*hex, file_name);
   }
   return result;
 }
-- 
2.43.0


From ef1222b4dc2c13d9fbbc668bcea34e455bb2a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 044/100] fix: the digest tool did not escape file names with a
 backslash or line ends

---
 mbo/digest/digest_main.cc | 63 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3c7b7a2..60e8d3e 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -174,11 +174,55 @@ const NamedAlgorithm* FindAlgorithm(std::string_view name) {
   return nullptr;
 }
 
+// File names with a backslash or line break are escaped and marked by a backslash that starts the line (coreutils).
+std::string EscapeFileName(std::string_view file_name) {
+  std::string escaped;
+  for (const char chr : file_name) {
+    switch (chr) {
+      case '\\': escaped += "\\\\"; break;
+      case '\n': escaped += "\\n"; break;
+      case '\r': escaped += "\\r"; break;
+      default: escaped += chr; break;
+    }
+  }
+  return escaped;
+}
+
+// Reverses `EscapeFileName`. Returns `nullopt` if `escaped` is not a properly escaped file name.
+std::optional<std::string> UnescapeFileName(std::string_view escaped) {
+  std::string file_name;
+  for (std::size_t pos = 0; pos < escaped.size(); ++pos) {
+    if (escaped[pos] != '\\') {
+      file_name += escaped[pos];
+      continue;
+    }
+    if (++pos == escaped.size()) {
+      return std::nullopt;
+    }
+    switch (escaped[pos]) {
+      case '\\': file_name += '\\'; break;
+      case 'n': file_name += '\n'; break;
+      case 'r': file_name += '\r'; break;
+      default: return std::nullopt;
+    }
+  }
+  return file_name;
+}
+
 void Print(std::string_view hex, std::string_view file_name) {
   if (absl::GetFlag(FLAGS_reverse)) {
     std::cout << file_name << "  " << hex << "\n";
+    return;
+  }
+  const std::string escaped = EscapeFileName(file_name);
+  std::cout << (escaped == file_name ? "" : "\\") << hex << "  " << escaped << "\n";
+}
+
+void PrintResult(std::string_view file_name, std::string_view result) {
+  if (file_name.find_first_of("\n\r") != std::string_view::npos) {
+    std::cout << "\\" << EscapeFileName(file_name) << ": " << result << "\n";
   } else {
-    std::cout << hex << "  " << file_name << "\n";
+    std::cout << file_name << ": " << result << "\n";
   }
 }
 
@@ -207,19 +251,24 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     if (line.empty()) {
       continue;
     }
-    const std::optional<internal::ChecksumLine> parsed = internal::ParseChecksumLine(line, algorithm.hex_length);
-    if (!parsed.has_value()) {
+    const bool escaped = line.starts_with('\\');
+    const std::optional<internal::ChecksumLine> parsed =
+        internal::ParseChecksumLine(std::string_view(line).substr(escaped ? 1 : 0), algorithm.hex_length);
+    const std::optional<std::string> unescaped =
+        parsed.has_value() && escaped ? UnescapeFileName(parsed->file_name) : std::nullopt;
+    if (!parsed.has_value() || (escaped && !unescaped.has_value())) {
       ++stats.malformed;
       continue;
     }
-    const auto [hex, file_name] = *parsed;
+    const std::string_view hex = parsed->hex;
+    const std::string_view file_name = escaped ? *unescaped : parsed->file_name;
     std::ifstream input{fs::path(file_name), std::ios::binary};
     const std::optional<std::string> digest = input ? algorithm.func(input) : std::nullopt;
     if (!digest.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
-          std::cout << file_name << ": FAILED open or read\n";
+          PrintResult(file_name, "FAILED open or read");
         }
       }
       continue;
@@ -227,12 +276,12 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
-        std::cout << file_name << ": OK\n";
+        PrintResult(file_name, "OK");
       }
     } else {
       ++stats.mismatched;
       if (!silent) {
-        std::cout << file_name << ": FAILED\n";
+        PrintResult(file_name, "FAILED");
       }
     }
   }
-- 
2.43.0


From e14a200b17615e76472f066342fca2242b06719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 045/100] fix: an escaped backslash before a table row's final
 pipe

---
 tools/align_markdown_tables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 19fe6e7..d8592e9 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -47,9 +47,11 @@ def _split_cells(row):
     s = row.strip()
     if s.startswith("|"):
         s = s[1:]
-    # A trailing pipe is a delimiter unless it is escaped (``\|``).
-    if s.endswith("|") and not s.endswith("\\|"):
-        s = s[:-1]
+    # A trailing pipe is a delimiter unless it is escaped (``\|``, but not ``\\|``).
+    if s.endswith("|"):
+        before = s[:-1]
+        if (len(before) - len(before.rstrip("\\"))) % 2 == 0:
+            s = before
     cells = []
     cur = []
     i = 0
-- 
2.43.0


From fda68aae7c67b4ffddd71aa4f7da0c309c957288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 046/100] fix: markdown fences that close or open with an info
 string

---
 tools/align_markdown_tables.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index d8592e9..41cf1b1 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -38,7 +38,8 @@ import re
 import sys
 
 _DELIM_CELL = re.compile(r"^:?-+:?$")
-_FENCE = re.compile(r"^(\s*)(`{3,}|~{3,})")
+# The info string of a backtick fence cannot contain backticks (that is inline code).
+_FENCE = re.compile(r"^(\s*)(`{3,}(?=[^`]*$)|~{3,})(.*)$")
 
 
 def _split_cells(row):
@@ -156,7 +157,12 @@ def align_text(text):
         fence_match = _FENCE.match(line)
         if fence is not None:
             out.append(line)
-            if fence_match and fence_match.group(2)[0] == fence[0] and len(fence_match.group(2)) >= len(fence):
+            if (
+                fence_match
+                and fence_match.group(2)[0] == fence[0]
+                and len(fence_match.group(2)) >= len(fence)
+                and not fence_match.group(3).strip()  # a closing fence has no info string
+            ):
                 fence = None
             i += 1
             continue
-- 
2.43.0


From a5c70d9ed9d399af62e7737c92c01b380c0fb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 047/100] fix: align_markdown_tables lost CRLF line ends

---
 tools/align_markdown_tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 41cf1b1..9d7084d 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -142,7 +142,8 @@ def _format_table(rows):
             body = " | ".join(render_delim(c) for c in range(ncols))
         else:
             body = " | ".join(render_cell(cells[c], c) for c in range(ncols))
-        out.append(f"{indent}| {body} |".rstrip())
+        ending = "\r" if rows[idx].endswith("\r") else ""  # CRLF line ends are kept
+        out.append(f"{indent}| {body} |".rstrip() + ending)
     return out
 
 
@@ -197,7 +198,7 @@ def main(argv):
     changed = []
     for path in args.files:
         try:
-            with open(path, "r", encoding="utf-8") as handle:
+            with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
         except OSError as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
@@ -206,7 +207,7 @@ def main(argv):
         if aligned != original:
             changed.append(path)
             if not args.check:
-                with open(path, "w", encoding="utf-8") as handle:
+                with open(path, "w", encoding="utf-8", newline="") as handle:
                     handle.write(aligned)
     for path in changed:
         verb = "would reformat" if args.check else "reformatted"
-- 
2.43.0


From b2613638b2b5b1bacf9cf448bb69203cde6b0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 048/100] fix: labels in comments counted as dependencies

---
 tools/build_rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/build_rules.py b/tools/build_rules.py
index 5671e6b..f03e046 100755
--- a/tools/build_rules.py
+++ b/tools/build_rules.py
@@ -46,6 +46,7 @@ _INLINE_NAME = re.compile(r'^\w+\(\s*name\s*=\s*"([^"]*)"')
 # (4-space indented `word =`) that ends it.
 _DEPS_ATTR = re.compile(r"^\s+deps\s*=")
 _NEXT_ATTR = re.compile(r"^\s{4}\w+\s*=")
+_COMMENT = re.compile(r'^((?:[^"#\\]|\\.|"(?:[^"\\]|\\.)*")*)#.*$')
 _LABEL = re.compile(r'"((?::|//|@)[^"]*)"')
 
 _SKIP_DIRS = ("bazel-", "external", "third_party", ".git")
@@ -71,6 +72,7 @@ def parse_rules(text: str) -> list[Rule]:
     current: Rule | None = None
     in_deps = False
     for number, line in enumerate(text.splitlines(), start=1):
+        line = _COMMENT.sub(r"\1", line)  # a label in a comment is no dependency
         opened = _RULE_OPEN.match(line)
         if opened:
             inline = _INLINE_NAME.match(line)
-- 
2.43.0


From 92b378af013955b9ef825d1fe4f22e3dffb893f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 049/100] fix: a one-line call without a name hid the rules
 after it

---
 tools/build_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/build_rules.py b/tools/build_rules.py
index f03e046..020c2a1 100755
--- a/tools/build_rules.py
+++ b/tools/build_rules.py
@@ -79,8 +79,8 @@ def parse_rules(text: str) -> list[Rule]:
             current = Rule(kind=opened.group(1), name=inline.group(1) if inline else "", line=number)
             rules.append(current)
             in_deps = False
-            # A single-line rule closes immediately; anything else keeps collecting.
-            if line.rstrip().endswith(")") and inline:
+            # A single-line call closes immediately; anything else keeps collecting.
+            if line.rstrip().endswith(")"):
                 current = None
             continue
         if current is None:
-- 
2.43.0


From 8f90e262b82f8e70d4994d224c6e8b13713dad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 050/100] fix: coverage lost the lines of functions with a
 comma in their names

---
 tools/coverage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/coverage.py b/tools/coverage.py
index 27602ee..9dbca57 100644
--- a/tools/coverage.py
+++ b/tools/coverage.py
@@ -41,8 +41,9 @@ def parse_lcov(path: Path, source_root: Path = Path(".")) -> dict[str, FileCover
             current = result.setdefault(name, FileCoverage()) if name else None
             function_lines = {}
         elif current is not None and raw.startswith("FN:"):
-            definition = raw[3:].split(",")
-            function_lines[definition[-1]] = int(definition[0])
+            line, name = raw[3:].split(",", 1)
+            end_line, comma, rest = name.partition(",")
+            function_lines[rest if comma and end_line.isdigit() else name] = int(line)
         elif current is not None and raw.startswith("DA:"):
             line, hits, *_ = raw[3:].split(",")
             current.lines[int(line)] = current.lines.get(int(line), 0) + int(hits)
-- 
2.43.0


From 2f4cf72444d419cc5a36e14961775988fb35453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 051/100] fix: coverage counted functions and branches of a
 file once per record

---
 tools/coverage.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tools/coverage.py b/tools/coverage.py
index 9dbca57..4c25925 100644
--- a/tools/coverage.py
+++ b/tools/coverage.py
@@ -33,12 +33,15 @@ def _repo_path(value: str) -> str | None:
 
 def parse_lcov(path: Path, source_root: Path = Path(".")) -> dict[str, FileCoverage]:
     result: dict[str, FileCoverage] = {}
+    file: str | None = None
     current: FileCoverage | None = None
     function_lines: dict[str, int] = {}
+    functions: dict[str, dict[tuple[int, str], int]] = defaultdict(dict)
+    branches: dict[str, dict[tuple[int, str, str], bool]] = defaultdict(dict)
     for raw in path.read_text(encoding="utf-8").splitlines():
         if raw.startswith("SF:"):
-            name = _repo_path(raw[3:])
-            current = result.setdefault(name, FileCoverage()) if name else None
+            file = _repo_path(raw[3:])
+            current = result.setdefault(file, FileCoverage()) if file else None
             function_lines = {}
         elif current is not None and raw.startswith("FN:"):
             line, name = raw[3:].split(",", 1)
@@ -49,13 +52,18 @@ def parse_lcov(path: Path, source_root: Path = Path(".")) -> dict[str, FileCover
             current.lines[int(line)] = current.lines.get(int(line), 0) + int(hits)
         elif current is not None and raw.startswith("FNDA:"):
             hits, name = raw[5:].split(",", 1)
-            current.functions.append((function_lines.get(name, 0), int(hits)))
+            function = function_lines.get(name, 0), name
+            functions[file][function] = functions[file].get(function, 0) + int(hits)
         elif current is not None and raw.startswith("BRDA:"):
-            line, _, _, taken = raw[5:].split(",")
-            current.branches.append((int(line), taken not in ("-", "0")))
+            line, block, number, taken = raw[5:].split(",")
+            branch = int(line), block, number
+            branches[file][branch] = branches[file].get(branch, False) or taken not in ("-", "0")
         elif raw == "end_of_record":
             current = None
     for name, data in result.items():
+        # A file may have several records, each of which reports its functions and branches.
+        data.functions = [(line, hits) for (line, _), hits in functions[name].items()]
+        data.branches = [(line, taken) for (line, _, _), taken in branches[name].items()]
         source = source_root / name
         if not source.is_file():
             continue
-- 
2.43.0


From 32e850550a03830452bf175e40cbf72b40d01202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 052/100] fix: the coverage page failed rows for metrics
 without a minimum

---
 tools/coverage_index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/coverage_index.py b/tools/coverage_index.py
index 605e93b..42f403a 100755
--- a/tools/coverage_index.py
+++ b/tools/coverage_index.py
@@ -45,8 +45,9 @@ def _percent(value: dict) -> str:
 
 
 def _status(metrics: dict, minimums: dict, targets: dict) -> str:
-    failures = [name for name in _METRICS if metrics[name]["percent"] is None or metrics[name]["percent"] < minimums.get(name, 0)]
-    low = [name for name in _METRICS if name not in failures and metrics[name]["percent"] < targets.get(name, minimums.get(name, 0))]
+    required = [name for name in _METRICS if name in minimums]
+    failures = [name for name in required if metrics[name]["percent"] is None or metrics[name]["percent"] < minimums[name]]
+    low = [name for name in required if name not in failures and metrics[name]["percent"] < targets.get(name, minimums[name])]
     if failures:
         return "FAIL: " + "/".join(name[0].upper() for name in failures)
     if low:
-- 
2.43.0


From 4efd94cb6096e7b1c4a25c342315937e46ae6c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 053/100] fix: diff used text that comment stripping had cut
 off after other changes

---
 mbo/diff/internal/data.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8946501..9730d92 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -161,7 +161,8 @@ Data::LineCache Data::Process(
     }
   }
   if (has_storage) {
-    processed = owned.emplace_back(std::move(storage));
+    // Not the whole `storage`: a later truncation may have kept only a part of it.
+    processed = owned.emplace_back(processed);
   }
   return {
       .line = line,
-- 
2.43.0


From a39f8592a847507d8c76c3cbe7f0b0f9ea7551e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 054/100] fix: ignore_consecutive_space told tabs from spaces

---
 mbo/diff/internal/data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 9730d92..2c48318 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -135,6 +135,7 @@ Data::LineCache Data::Process(
     own(std::move(stripped));
   } else if (options.ignore_consecutive_space) {
     std::string collapsed{line};
+    std::ranges::replace_if(collapsed, [](char chr) { return absl::ascii_isspace(chr); }, ' ');
     absl::RemoveExtraAsciiWhitespace(&collapsed);
     own(std::move(collapsed));
   } else if (options.ignore_trailing_space) {
-- 
2.43.0


From 8a5da690655d029c0e8f792e6bbca2c04452bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 055/100] fix: ignore_matching_chunks=false turned
 ignore_matching_lines off

---
 mbo/diff/internal/data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 2c48318..1241656 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -168,7 +168,7 @@ Data::LineCache Data::Process(
   return {
       .line = line,
       .processed = processed,
-      .matches_ignore = options.ignore_matching_chunks && options.ignore_matching_lines.has_value()
+      .matches_ignore = options.ignore_matching_lines.has_value()
                         && RE2::PartialMatch(processed, *options.ignore_matching_lines),
   };
 }
-- 
2.43.0


From 57c4cd93cce52f772e346f7dc4394181d90bad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 056/100] fix: diff options were not applied to a last line
 without newline

---
 mbo/diff/internal/data.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 1241656..14f9954 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -95,14 +95,10 @@ std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
   // suppresses the marker (the last line is processed like any other), equating the two forms. The
   // zero-length-input guard above still fires on the real `got_nl`, so "" is never equated with "\n".
   if (!got_nl && !options.ignore_missing_final_newline) {
-    if (!result.empty()) {
-      result.pop_back();
-    }
-    result.push_back({
-        .line = last_line,
-        .processed = last_line,
-        .matches_ignore = false,
-    });
+    LineCache& last = result.back();
+    last.processed = owned.emplace_back(absl::StrCat(last.processed, last_line.substr(last.line.size())));
+    last.line = last_line;
+    last.matches_ignore = false;
   }
   return result;
 }
-- 
2.43.0


From 253b8fdc75e94a2dbf062413317cfaed986b9da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 057/100] fix: ignore_matching_lines matched the text of the
 missing newline marker

---
 mbo/diff/internal/chunk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/internal/chunk.cc b/mbo/diff/internal/chunk.cc
index bbb5672..7a55b3e 100644
--- a/mbo/diff/internal/chunk.cc
+++ b/mbo/diff/internal/chunk.cc
@@ -51,7 +51,7 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
     return;
   }
   only_blank_lines_ &= lhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(lhs, *options_.ignore_matching_lines);
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(lhs.substr(0, lhs.find('\n')), *options_.ignore_matching_lines);
   CheckContext(lhs_idx, rhs_idx);
   lhs_.emplace_back(lhs);
   ++lhs_size_;
@@ -59,7 +59,7 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
 
 void Chunk::PushRhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view rhs) {
   only_blank_lines_ &= rhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(rhs, *options_.ignore_matching_lines);
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(rhs.substr(0, rhs.find('\n')), *options_.ignore_matching_lines);
   CheckContext(lhs_idx, rhs_idx);
   rhs_.emplace_back(rhs);
   ++rhs_size_;
-- 
2.43.0


From b36610b25bdeab0d65d8ae96d942bb3c2d63f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 058/100] fix: adding a section invalidated the sections of
 that name returned before

---
 mbo/mope/mope.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..e7a1011 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -16,6 +16,7 @@
 #ifndef MBO_MOPE_MOPE_H_
 #define MBO_MOPE_MOPE_H_
 
+#include <list>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -85,7 +86,7 @@ class Template {
 
   struct Section {
     mutable std::string join;
-    std::vector<Template> dictionary;
+    std::list<Template> dictionary;  // Does not move its elements: `AddSection` returns pointers to them.
   };
 
   struct Range : mbo::types::Extend<Range> {
-- 
2.43.0


From 7feaab4ae3f62991845444181b4c0a21d7538f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 059/100] fix: a section ignored a joiner that is a reference

---
 mbo/mope/mope.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..8a4a661 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -345,15 +345,8 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
       output.clear();
       return absl::OkStatus();
     }
-    static constexpr mbo::strings::ParseOptions kOptions{
-        .remove_quotes = true,
-        .allow_unquoted = false,
-    };
-    std::string_view join;
-    if (tag.option.has_value()) {
-      join = *tag.option;
-    }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
+    section->data.join.clear();
+    MBO_RETURN_IF_ERROR(MaybeLookup(tag, tag.option.value_or(""), ctx, section->data.join));
     return ExpandSection(*section, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
-- 
2.43.0


From a99469f2e21b3d922a4e019da54bdb7573d33fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 060/100] fix: a template range that ends at the largest number
 did not end

---
 mbo/mope/mope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 8a4a661..09c4fab 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -16,6 +16,7 @@
 #include "mbo/mope/mope.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -211,8 +212,9 @@ absl::Status Template::ExpandRangeTag(const TagInfo& /*tag*/, Range& range, Cont
   }
   range.expanding = true;
   const absl::Cleanup cleanup = [&range] { range.expanding = false; };
-  for (range.curr = range.start; range.step > 0 ? range.curr <= range.end : range.curr >= range.end;
-       range.curr += range.step) {
+  // The position behind the last one may not fit the type of the values.
+  for (std::int64_t curr = range.start; range.step > 0 ? curr <= range.end : curr >= range.end; curr += range.step) {
+    range.curr = static_cast<int>(curr);
     if (!range.join.empty() && range.curr != range.start) {
       output.append(range.join);
     }
-- 
2.43.0


From 840382b9c60ab60936c89c1fad4a2bcd54857f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 061/100] fix: template tags on lines of their own left the
 newline of CRLF lines

---
 mbo/mope/mope.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 09c4fab..9da3ccf 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -48,14 +48,14 @@ std::pair<std::size_t, std::size_t> ExpandWhiteSpace(
   std::size_t end = tag_pos + tag_len;
   // Is the tag followed by a new-line?
   if (end < output.size() && (output.at(end) == '\n' || output.at(end) == '\r')) {
-    ++end;
+    end += output.substr(end, 2) == "\r\n" ? 2 : 1;
     std::size_t pos = tag_pos;
     // reverse past all space
     while (pos > 0 && (output.at(pos - 1) == ' ' || output.at(pos - 1) == '\t')) {
       --pos;
     }
     if (pos == 0 || output.at(pos - 1) == '\n' || output.at(pos - 1) == '\r') {
-      return {pos, tag_pos - pos + tag_len + 1};
+      return {pos, end - pos};
     }
   }
   return {tag_pos, tag_len};
-- 
2.43.0


From 28b4afb82a377e36fb4cf1853c340688d24cd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 062/100] fix: Json assignment from a non const Json lvalue
 copies any value (not only objects)

---
 mbo/json/json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 00786ad..8a327be 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -336,6 +336,7 @@ class Json {
   }
 
   template<typename Value, typename = ToKind<Value>>
+  requires(!JsonUseObject<Value>)  // A non const `Json&` must use the copy assignment.
   Json& operator=(Value&& value) {  // NOLINT(misc-unconventional-assign-operator,*-signature): See above.
     CopyFrom(std::forward<Value>(value));
     return *this;
-- 
2.43.0


From 25b971188235873e26d96b1ed23729344735206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 063/100] fix: Json holds integers given as lvalues (and copies
 of integers) as integers and not as floats

---
 mbo/json/json.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 8a327be..bf96c79 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -57,11 +57,13 @@ using Object = absl::flat_hash_map<std::string, std::unique_ptr<Json>>;
 using Variant = std::variant<std::nullopt_t, Array, bool, Float, SignedInt, Object, std::string, UnsignedInt>;
 
 template<typename Value>
-concept JsonUseSignedInt = std::is_signed_v<Value> && std::integral<Value> && std::convertible_to<Value, SignedInt>;
+concept JsonUseSignedInt =  // Lvalues deduce `Value` as a reference, for which the type traits are false.
+    std::is_signed_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+    && std::convertible_to<Value, SignedInt>;
 
 template<typename Value>
-concept JsonUseUnsignedInt =
-    std::is_unsigned_v<Value> && std::integral<Value> && std::convertible_to<Value, UnsignedInt>;
+concept JsonUseUnsignedInt = std::is_unsigned_v<std::remove_cvref_t<Value>>
+                             && std::integral<std::remove_cvref_t<Value>> && std::convertible_to<Value, UnsignedInt>;
 
 template<typename Value>
 concept JsonUseFloat = !std::same_as<std::remove_cvref_t<Value>, bool>
-- 
2.43.0


From d2944e41de9d7b0eb650f756fc0d4c0032ebd90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 064/100] fix: Json moves: A part can be moved into its parent
 and a moved from array is usable

---
 mbo/json/json.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index bf96c79..7afa7a8 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -318,8 +318,17 @@ class Json {
     return *this;
   }
 
-  Json(Json&&) noexcept = default;
-  Json& operator=(Json&&) noexcept = default;
+  // A moved from `Json` is `Null` - it must not be an `Array` without elements storage.
+  Json(Json&& other) noexcept : data_{std::exchange(other.data_, Variant{std::nullopt})} {}
+
+  // The `other` may be held by `this`, so it must be moved out prior to dropping the current content.
+  Json& operator=(Json&& other) noexcept {
+    if (this != &other) {
+      Variant data = std::exchange(other.data_, Variant{std::nullopt});
+      data_ = std::move(data);
+    }
+    return *this;
+  }
 
   explicit Json(std::nullopt_t /*value*/) noexcept : data_{std::nullopt} {}
 
-- 
2.43.0


From 70b8f16ede8fd2867f5ca78b96cfc0ba6f309ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 065/100] fix: Json object comparison does not depend on the
 hash order of the properties

---
 mbo/json/json.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 7afa7a8..e2a0ba3 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -18,6 +18,7 @@
 #ifndef MBO_JSON_JSON_H_
 #define MBO_JSON_JSON_H_
 
+#include <algorithm>
 #include <compare>
 #include <concepts>  // IWYU pragma: keep
 #include <cstdint>
@@ -30,6 +31,7 @@
 #include <type_traits>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include "absl/container/flat_hash_map.h"
 #include "mbo/config/require.h"
@@ -833,13 +835,26 @@ constexpr auto kJsonComparator = mbo::types::Overloaded{
     },
     [](const Json::Array& lhs, const Json::Array& rhs) { return types::WeakToStrong(*lhs <=> *rhs); },
     [](const Json::Object& lhs, const Json::Object& rhs) -> std::strong_ordering {
-      auto lhs_it = lhs.begin();
-      auto rhs_it = rhs.begin();
-      while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-        if (auto comp = types::WeakToStrong(lhs_it->first <=> rhs_it->first); comp != std::strong_ordering::equal) {
+      // The iteration order of the properties is arbitrary, so they must be ordered to be compared.
+      const auto ordered = [](const Json::Object& object) {
+        std::vector<const Json::Object::value_type*> properties;
+        properties.reserve(object.size());
+        for (const auto& property : object) {
+          properties.push_back(&property);
+        }
+        std::ranges::sort(properties, {}, [](const auto* property) -> const std::string& { return property->first; });
+        return properties;
+      };
+      const auto lhs_ordered = ordered(lhs);
+      const auto rhs_ordered = ordered(rhs);
+      auto lhs_it = lhs_ordered.begin();
+      auto rhs_it = rhs_ordered.begin();
+      while (lhs_it != lhs_ordered.end() && rhs_it != rhs_ordered.end()) {
+        if (auto comp = types::WeakToStrong((*lhs_it)->first <=> (*rhs_it)->first);
+            comp != std::strong_ordering::equal) {
           return comp;
         }
-        if (auto comp = lhs_it->second <=> rhs_it->second; comp != std::strong_ordering::equal) {
+        if (auto comp = (*lhs_it)->second <=> (*rhs_it)->second; comp != std::strong_ordering::equal) {
           return comp;
         }
         ++lhs_it;
-- 
2.43.0


From a05f66ecba31b8ffd9519a6e7ad102bd4b11353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 066/100] fix: Json::values does not write to std::cout

---
 mbo/json/json.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index e2a0ba3..5d79745 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -659,12 +659,10 @@ class Json {
     if (IsArray()) {
       auto& array = std::get<Array>(data_);
       MBO_CONFIG_REQUIRE_DEBUG(array != nullptr, "May not be nulltr.");
-      std::cout << "Array Size: " << array->size() << "\n" << std::flush;
       return {*this, array->begin(), array->end()};
     }
     MBO_CONFIG_REQUIRE(IsObject(), "Is neither Array nor Object.");
     auto& object = std::get<Object>(data_);
-    std::cout << "Object Size: " << object.size() << "\n" << std::flush;
     return {*this, object.begin(), object.end()};
   }
 
-- 
2.43.0


From e9edbf63a7e31ff62f0c847704243e857aaa2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 067/100] fix: Stringify JSON modes escape values according to
 JSON (not C)

---
 mbo/types/stringify.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 45c4953..cd2b921 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -185,6 +185,7 @@ struct StringifyOptions {
     kNone,        // Values are printed as is.
     kCEscape,     // Values are C-escaped.
     kCHexEscape,  // Values are C-HEX-escaped.
+    kJsonEscape,  // Values (and field names) are JSON-escaped.
   };
 
   friend std::ostream& operator<<(std::ostream& os, const EscapeMode& value) {
@@ -192,6 +193,7 @@ struct StringifyOptions {
       case EscapeMode::kNone: break;
       case EscapeMode::kCEscape: return os << "EscapeMode::kCEscape";
       case EscapeMode::kCHexEscape: return os << "EscapeMode::kCHexEscape";
+      case EscapeMode::kJsonEscape: return os << "EscapeMode::kJsonEscape";
     }
     return os << "EscapeMode::kNone";
   }
@@ -1300,7 +1302,7 @@ class Stringify {
         os << absl::StreamFormat("%v", int(v));
       } else {
         os << options.outer.format->char_delim;
-        if (v == '\'') {
+        if (v == '\'' && options.outer.value_control->escape_mode != SO::EscapeMode::kJsonEscape) {
           StreamValueStr(os, options.outer, "\\'");
         } else {
           const std::string_view vv{reinterpret_cast<const char*>(&v), 1};  // NOLINT(*-type-reinterpret-cast)
@@ -1398,6 +1400,31 @@ class Stringify {
     }
   }
 
+  // JSON only allows the two character escapes handled here, all other control characters must use `\\u`.
+  static std::string JsonEscape(std::string_view v) {
+    std::string result;
+    result.reserve(v.size());
+    for (const char c : v) {
+      switch (c) {
+        case '"': result += "\\\""; break;
+        case '\\': result += "\\\\"; break;
+        case '\b': result += "\\b"; break;
+        case '\f': result += "\\f"; break;
+        case '\n': result += "\\n"; break;
+        case '\r': result += "\\r"; break;
+        case '\t': result += "\\t"; break;
+        default:
+          if (static_cast<unsigned char>(c) < 0x20) {  // NOLINT(*-magic-numbers)
+            absl::StrAppendFormat(&result, "\\u%04x", static_cast<int>(c));
+          } else {
+            result += c;
+          }
+          break;
+      }
+    }
+    return result;
+  }
+
   static void StreamValueStr(OStream& os, const StringifyOptions& options, std::string_view v) {
     if (!options.value_overrides->replacement_str.empty()) {
       os << options.value_overrides->replacement_str;
@@ -1411,6 +1438,7 @@ class Stringify {
       case StringifyOptions::EscapeMode::kNone: os << vvv; break;
       case StringifyOptions::EscapeMode::kCEscape: os << absl::CEscape(vvv); break;
       case StringifyOptions::EscapeMode::kCHexEscape: os << absl::CHexEscape(vvv); break;
+      case StringifyOptions::EscapeMode::kJsonEscape: os << JsonEscape(vvv); break;
     }
     if (vvv.length() < v.length()) {
       os << options.value_control->str_cutoff_suffix;
@@ -1481,6 +1509,7 @@ class Stringify {
           .key_suffix = "\"",
       }},
       .value_control{StringifyOptions::ValueControl{
+          .escape_mode = StringifyOptions::EscapeMode::kJsonEscape,
           .nullptr_t_str = "null",
           .nullptr_v_str = "null",
           .nullopt_str = "null",
-- 
2.43.0


From 92f429f61076ea112e54e96db144d3ee0c904e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 068/100] fix: Stringify JSON modes escape keys

---
 mbo/types/stringify.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index cd2b921..363d712 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1156,7 +1156,13 @@ class Stringify {
       field_name = field.name;
     }
     if (!field_name.empty()) {
-      os << key_control.key_prefix << field_name << key_control.key_suffix << format.key_value_separator;
+      os << key_control.key_prefix;
+      if (field.options.outer.value_control->escape_mode == SO::EscapeMode::kJsonEscape) {
+        os << JsonEscape(field_name);
+      } else {
+        os << field_name;
+      }
+      os << key_control.key_suffix << format.key_value_separator;
     } else if (key_control.key_mode == StringifyOptions::KeyMode::kNumericFallback) {
       os << key_control.key_prefix << field.idx << key_control.key_suffix << format.key_value_separator;
     }
-- 
2.43.0


From 42c3a607aca5216f9c8b68f4ca75f70cde4a49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 069/100] fix: Stringify prints empty keys of string keyed
 containers as they are

---
 mbo/types/stringify.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 363d712..27840ce 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1155,7 +1155,8 @@ class Stringify {
     if (field_name.empty()) {
       field_name = field.name;
     }
-    if (!field_name.empty()) {
+    // The keys of a string keyed container (`!allow_key_override`) are data: An empty key is a key.
+    if (!field_name.empty() || (!allow_key_override && key_control.key_mode == SO::KeyMode::kNumericFallback)) {
       os << key_control.key_prefix;
       if (field.options.outer.value_control->escape_mode == SO::EscapeMode::kJsonEscape) {
         os << JsonEscape(field_name);
-- 
2.43.0


From 619f460019d7324a8aa7e67c29bf651ce1700144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 070/100] fix: Stringify JSON modes represent floating point
 numbers exactly

---
 mbo/types/stringify.h | 45 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 27840ce..5b8e909 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -20,6 +20,7 @@
 
 // IWYU pragma: private, include "mbo/types/extend.h"
 
+#include <cmath>
 #include <concepts>  // IWYU pragma: keep
 #include <functional>
 #include <iostream>
@@ -37,6 +38,7 @@
 #include "absl/log/absl_check.h"
 #include "absl/log/absl_log.h"
 #include "absl/strings/escaping.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
 #include "mbo/config/require.h"
 #include "mbo/types/internal/extender.h"      // IWYU pragma: keep
@@ -216,6 +218,10 @@ struct StringifyOptions {
     // Maximum length of value (prior to escaping).
     std::string_view::size_type str_max_length{std::string_view::npos};
     std::string_view str_cutoff_suffix = "...";  // Suffix if value gets shortened.
+
+    // Floating point values are normally shortened to 6 digits. Otherwise they are printed with as many digits as are
+    // necessary to represent the exact value. Non finite values are then printed as `nullopt_str`.
+    bool float_exact = false;
   };
 
   struct ValueOverrides {
@@ -1318,10 +1324,18 @@ class Stringify {
         os << options.outer.format->char_delim;
       }
     } else if constexpr (std::is_arithmetic_v<RawV>) {
-      if (options.outer.value_overrides->replacement_other.empty()) {
-        os << absl::StreamFormat("%v", v);
-      } else {
+      if (!options.outer.value_overrides->replacement_other.empty()) {
         os << options.outer.value_overrides->replacement_other;
+      } else if constexpr (std::floating_point<RawV>) {
+        if (!options.outer.value_control->float_exact) {
+          os << absl::StreamFormat("%v", v);
+        } else if (!std::isfinite(v)) {
+          os << options.outer.value_control->nullopt_str;
+        } else {
+          os << FloatExact(v);
+        }
+      } else {
+        os << absl::StreamFormat("%v", v);
       }
     } else if constexpr (
         std::same_as<RawV, std::string_view> || std::same_as<V, std::string>
@@ -1336,6 +1350,30 @@ class Stringify {
     }
   }
 
+  template<std::floating_point V>
+  static std::string FloatExact(V v) {
+    using Limits = std::numeric_limits<V>;
+    std::string result;
+    // Most values only need few digits and `max_digits10` digits always identify the value.
+    for (int digits = Limits::digits10 < 6 ? Limits::digits10 : 6; digits <= Limits::max_digits10; ++digits) {
+      result = absl::StrFormat("%.*g", digits, v);
+      if (digits == Limits::max_digits10) {
+        break;
+      }
+      V parsed{};
+      if constexpr (std::same_as<V, float>) {
+        if (absl::SimpleAtof(result, &parsed) && parsed == v) {
+          break;
+        }
+      } else if constexpr (std::same_as<V, double>) {
+        if (absl::SimpleAtod(result, &parsed) && parsed == v) {
+          break;
+        }
+      }
+    }
+    return result;
+  }
+
   template<IsPair V>
   void StreamValuePair(OStream& os, const StringifyFieldOptions& options, const V& v, bool allow_field_names) const {
     using RawV = std::remove_cvref_t<V>;
@@ -1520,6 +1558,7 @@ class Stringify {
           .nullptr_t_str = "null",
           .nullptr_v_str = "null",
           .nullopt_str = "null",
+          .float_exact = true,
       }},
       .special{StringifyOptions::Special{
           .str_keyed = StringifyOptions::StrKeyed::kFirstIsName,
-- 
2.43.0


From 972547702e2f90c3be6b420d88e79c312145fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 071/100] fix: honour StatusBuilder::SetPrepend without a
 following SetAppend

---
 mbo/status/status_builder.cc | 11 +++++++++--
 mbo/status/status_builder.h  |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 505af1a..529196b 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/status/status_builder.h"
 
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -25,6 +26,9 @@
 namespace mbo::status {
 
 StatusBuilder& StatusBuilder::SetPrepend() & {
+  if (data_) {
+    data_->prepend = true;
+  }
   return *this;
 }
 
@@ -52,9 +56,12 @@ StatusBuilder::operator absl::Status() const & {
   if (!data_) {
     return absl::OkStatus();
   }
+  const std::string text = data_->stream.str();
+  const std::string_view message = data_->status.message();
   absl::Status result(
-      data_->status.code(),
-      data_->appended ? data_->stream.str() : absl::StrCat(data_->status.message(), data_->stream.str()));
+      data_->status.code(), data_->appended  ? text
+                            : data_->prepend ? absl::StrCat(text, message)
+                                             : absl::StrCat(message, text));
   data_->status.ForEachPayload(
       [&result](std::string_view url, const absl::Cord& payload) { result.SetPayload(url, payload); });
   return result;
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 095df2d..1619d67 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -127,6 +127,7 @@ class StatusBuilder final {
   struct Data {
     absl::Status status;
     std::stringstream stream;
+    bool prepend = false;
     bool appended = false;
   };
 
-- 
2.43.0


From 00728c22bd84c713b08a7e4cf9438138ebe9b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 072/100] fix: keep the message of a StatusBuilder whatever the
 state of its stream

---
 mbo/status/status_builder.cc | 6 ++++--
 mbo/status/status_builder.h  | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 529196b..b6bbf43 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -40,7 +40,9 @@ StatusBuilder&& StatusBuilder::SetPrepend() && {
 StatusBuilder& StatusBuilder::SetAppend() & {
   if (data_) {
     if (!data_->appended) {
-      data_->stream << data_->status.message();
+      // Not streamed: That would apply pending format state, or drop the message if the stream failed.
+      data_->prefix = data_->stream.str();
+      data_->stream.str("");
     }
     data_->appended = true;
   }
@@ -59,7 +61,7 @@ StatusBuilder::operator absl::Status() const & {
   const std::string text = data_->stream.str();
   const std::string_view message = data_->status.message();
   absl::Status result(
-      data_->status.code(), data_->appended  ? text
+      data_->status.code(), data_->appended  ? absl::StrCat(data_->prefix, message, text)
                             : data_->prepend ? absl::StrCat(text, message)
                                              : absl::StrCat(message, text));
   data_->status.ForEachPayload(
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 1619d67..1724532 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -19,6 +19,7 @@
 #include <concepts>  // IWYU pragma: keep
 #include <memory>
 #include <sstream>
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -127,6 +128,7 @@ class StatusBuilder final {
   struct Data {
     absl::Status status;
     std::stringstream stream;
+    std::string prefix;
     bool prepend = false;
     bool appended = false;
   };
-- 
2.43.0


From aeb5b0cd0e3e3eb64c972fd78b0a0263613cb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 073/100] fix: do not hide a caller's 'var' in text streamed
 into MBO_RETURN_IF_ERROR

---
 mbo/status/status_macros.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbo/status/status_macros.h b/mbo/status/status_macros.h
index 6560481..04d292a 100644
--- a/mbo/status/status_macros.h
+++ b/mbo/status/status_macros.h
@@ -42,12 +42,12 @@
 // ```
 //
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define MBO_RETURN_IF_ERROR(expr)                                                    \
-  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                     \
-  if (auto var = (expr); var.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
-    /* GOOD */                                                                       \
-  } else                                                                             \
-    return mbo::status::StatusBuilder(var)
+#define MBO_RETURN_IF_ERROR(expr)                                                                                                            \
+  MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                                                                             \
+  if (auto mbo_private_return_if_error_var = (expr); mbo_private_return_if_error_var.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
+    /* GOOD */                                                                                                                               \
+  } else                                                                                                                                     \
+    return mbo::status::StatusBuilder(mbo_private_return_if_error_var)
 
 // Similar to MBO_RETURN_IF_ERROR but this assigns the result of an `absl::StatusOr<T>`, to a target
 // which can be an existing variable or a new variable declaration. The asignment is by move.
-- 
2.43.0


From c74def76788a1e7cfb610931fb419258022a760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 074/100] fix: suppress pointer and optional fields as
 Stringify's field control asks for

---
 mbo/types/stringify.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 5b8e909..c026b6c 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1103,13 +1103,12 @@ class Stringify {
   }
 
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
+    if (options.field_control->suppress) {
+      return false;
+    }
     switch (is_special) {
-      case SpecialFieldValue::kNoSuppress: break;
-      case SpecialFieldValue::kNormal:
-        if (options.field_control->suppress) {
-          return false;
-        }
-        break;
+      case SpecialFieldValue::kNoSuppress:
+      case SpecialFieldValue::kNormal: break;
       case SpecialFieldValue::kIsNullptr:
         if (options.field_control->suppress_nullptr) {
           return false;
-- 
2.43.0


From e0263e3ed667a1b4f2f0371ca092db7bec2424ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 075/100] fix: do not escape a single quote character twice
 when stringifying

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index c026b6c..9fac17d 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1314,7 +1314,7 @@ class Stringify {
         os << absl::StreamFormat("%v", int(v));
       } else {
         os << options.outer.format->char_delim;
-        if (v == '\'' && options.outer.value_control->escape_mode != SO::EscapeMode::kJsonEscape) {
+        if (v == '\'' && options.outer.value_control->escape_mode == SO::EscapeMode::kNone) {
           StreamValueStr(os, options.outer, "\\'");
         } else {
           const std::string_view vv{reinterpret_cast<const char*>(&v), 1};  // NOLINT(*-type-reinterpret-cast)
-- 
2.43.0


From dddf7d8e35befec6ef065a3ec1be67ca524efdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 076/100] fix: do not use the name of a field for the fields of
 its value in Stringify

---
 mbo/types/stringify.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 9fac17d..6bb7973 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1099,7 +1099,23 @@ class Stringify {
     if (allow_field_names) {
       StreamFieldName(os, field_info);
     }
-    StreamValue(os, field_info.options, field, allow_field_names);
+    const StringifyFieldOptions& options = field_info.options;
+    if (HasKeyUseName(options.outer) || HasKeyUseName(options.inner)) {
+      // The name is the name of this field: It must not be used for any field of the field's value.
+      const StringifyOptions outer = WithDefaultKeyOverrides(options.outer);
+      const StringifyOptions inner = WithDefaultKeyOverrides(options.inner);
+      StreamValue(os, {outer, inner}, field, allow_field_names);
+    } else {
+      StreamValue(os, options, field, allow_field_names);
+    }
+  }
+
+  static bool HasKeyUseName(const StringifyOptions& options) { return options.key_overrides->key_use_name.has_value(); }
+
+  StringifyOptions WithDefaultKeyOverrides(const StringifyOptions& options) const {
+    StringifyOptions result = options;
+    result.key_overrides.set_ref(*default_field_options_.inner.key_overrides);
+    return result;
   }
 
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
-- 
2.43.0


From 3bfc14bc41481494fa012bece8e6d99566c4cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 077/100] fix: keep the keys of pairs and string keyed
 containers in JSON wherever they are

---
 mbo/types/stringify.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 6bb7973..f2c6547 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1222,6 +1222,7 @@ class Stringify {
       const C& vs,
       bool allow_field_names) const {
     const SO::Format& format = *options.outer.format;
+    allow_field_names |= options.outer.key_control->key_mode == SO::KeyMode::kNumericFallback;
     os.IncStruct(format);
     std::string_view sep;
     std::size_t index = 0;
@@ -1402,6 +1403,7 @@ class Stringify {
         std::get<1>(field_names) = "second";
       }
       bool use_seperator = false;
+      allow_field_names |= options.outer.key_control->key_mode == SO::KeyMode::kNumericFallback;
       os.IncStruct(*options.outer.format);
       StreamField(os, options.ToInner(), use_seperator, v, v.first, 0, field_names, allow_field_names);
       StreamField(os, options.ToInner(), use_seperator, v, v.second, 1, field_names, allow_field_names);
-- 
2.43.0


From 260f416b6f7bfb9516de09ff3c8e29063ac55e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 078/100] fix: print disabled values as null in Stringify's
 JSON formats

---
 mbo/types/stringify.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index f2c6547..6d3ed54 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1564,6 +1564,7 @@ class Stringify {
           .suppress_nullptr = true,
           .suppress_nullopt = true,
           .suppress_disabled = true,
+          .field_disabled = "null",
       }},
       .key_control{StringifyOptions::KeyControl{
           .key_mode = StringifyOptions::KeyMode::kNumericFallback,
-- 
2.43.0


From 7fd1b77cd7849e8ee6643b36afc2103e2bee7670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 079/100] fix: keep all entries of a multimap in Stringify's
 ordered JSON

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 6d3ed54..e86b0e8 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1200,7 +1200,7 @@ class Stringify {
         StreamStringKeyedContainer(os, options, vs, allow_field_names);
         return;
       case SO::StrKeyed::kFirstIsNameOrdered: {
-        absl::btree_map<std::string_view, std::reference_wrapper<const typename C::value_type::second_type>> ordered;
+        absl::btree_multimap<std::string_view, std::reference_wrapper<const typename C::value_type::second_type>> ordered;
         std::size_t index = 0;
         for (const auto& [key, val] : vs) {
           if (++index > options.outer.value_control->container_max_len) {
-- 
2.43.0


From 703519b08d78a94aef2ce427a25d1dcd7773b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 080/100] fix: honour replacement_other for characters that
 Stringify prints as numbers

---
 mbo/types/stringify.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index e86b0e8..a8f6c47 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1328,7 +1328,11 @@ class Stringify {
       StreamValuePair(os, options, v, allow_field_names);
     } else if constexpr (std::is_same_v<RawV, char> || std::is_same_v<RawV, unsigned char>) {
       if (options.outer.format->char_delim.empty()) {
-        os << absl::StreamFormat("%v", int(v));
+        if (options.outer.value_overrides->replacement_other.empty()) {
+          os << absl::StreamFormat("%v", int(v));
+        } else {
+          os << options.outer.value_overrides->replacement_other;
+        }
       } else {
         os << options.outer.format->char_delim;
         if (v == '\'' && options.outer.value_control->escape_mode == SO::EscapeMode::kNone) {
-- 
2.43.0


From 165ee6785740c3cd9d57762a221e91b693295468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 081/100] fix: ExtendBase::ToTuple() && must not return the
 tuple of the empty base

---
 mbo/types/internal/extender.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/internal/extender.h b/mbo/types/internal/extender.h
index ce0a25f..c74f5cf 100644
--- a/mbo/types/internal/extender.h
+++ b/mbo/types/internal/extender.h
@@ -71,7 +71,7 @@ struct ExtendBase {
  protected:  // DO NOT expose anything publicly.
   auto ToTuple() const & { return StructToTuple(static_cast<const ActualType&>(*this)); }
 
-  auto ToTuple() && { return StructToTuple(std::move(*this)); }
+  auto ToTuple() && { return StructToTuple(static_cast<ActualType&&>(*this)); }
 
  private:  // DO NOT expose anything publicly.
   // The `index_sequence` is a pure tag - it carries `Idx...` in its type and has
-- 
2.43.0


From 91e7e81480d78ff7a7fd05fef581df478a869963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 082/100] fix: print the value of a variant in Stringify as it
 is printed elsewhere

---
 mbo/types/stringify.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index a8f6c47..bd26877 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1276,11 +1276,7 @@ class Stringify {
       const {
     std::visit(
         [&]<typename ArgT>(const ArgT& arg) {
-          if constexpr (IsAggregate<ArgT> || IsStringKeyedContainer<ArgT>) {
-            StreamImpl<ArgT>(os, options, arg);
-          } else {
-            StreamValue(os, options, arg, false);
-          }
+          StreamValue(os, options, arg, /*allow_field_names=*/IsStringKeyedContainer<ArgT>);
         },
         value);
   }
-- 
2.43.0


From ad1bcee44a028bd147f1723abce3cd11b156c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 083/100] fix: Stringify accepts reference wrappers before
 extension points

---
 mbo/types/stringify.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index bd26877..2df5c31 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1296,7 +1296,10 @@ class Stringify {
   void StreamValue(OStream& os, const StringifyFieldOptions& options, const V& v, bool allow_field_names) const {
     using RawV = std::remove_cvref_t<V>;
     // IMPORTANT: ALL if-clauses must be `if constexpr`.
-    if constexpr (HasMboTypesStringifyDisable<RawV>) {
+    if constexpr (IsReferenceWrapper<RawV>) {
+      // Must be handled first as the extension points of the referenced type might accept the wrapper.
+      StreamValue(os, options, v.get(), allow_field_names);
+    } else if constexpr (HasMboTypesStringifyDisable<RawV>) {
       os << options.outer.field_control->field_disabled;
     } else if constexpr (kUseStringify<RawV>) {
       StreamImpl(os, options, v);
@@ -1308,8 +1311,6 @@ class Stringify {
       StreamValueSmartPtr(os, options, v, allow_field_names);
     } else if constexpr (std::is_pointer_v<RawV>) {
       StreamValuePointer(os, options, v, allow_field_names);
-    } else if constexpr (IsReferenceWrapper<RawV>) {
-      StreamValue(os, options, v.get(), allow_field_names);
     } else if constexpr (IsOptional<RawV>) {
       StreamValueOptional(os, options, v, allow_field_names);
     } else if constexpr (IsOptionalDataOrRef<RawV> || IsOptionalRef<RawV>) {
-- 
2.43.0


From b06a6e7cdc1faa3672656b8166b948a7ef7ab624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 084/100] fix: LogTiming names functions with a template
 parameter clause correctly

---
 mbo/log/log_timing.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 11fc1b7..a357e3f 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -113,6 +113,25 @@ std::string_view ReverseStripAngleBrackets(std::string_view str) {
   return str;
 }
 
+// Removes a trailing clause that explains template parameters: ` [T = int]` or ` [with T = int]`.
+std::string_view StripTemplateParameterClause(std::string_view str) {
+  if (!str.ends_with(']')) {
+    return str;
+  }
+  std::size_t level = 0;
+  for (std::string_view::size_type pos = str.length() - 1; pos != 0; --pos) {
+    if (str.at(pos) == ']') {
+      ++level;
+    } else if (str.at(pos) == '[' && --level == 0) {
+      if (str.at(pos - 1) == ' ') {
+        str.remove_suffix(str.length() - (pos - 1));
+      }
+      break;
+    }
+  }
+  return str;
+}
+
 std::string ShortenLambdas(std::string_view function) {
   std::string result = absl::StrReplaceAll(
       function, {
@@ -125,6 +144,7 @@ std::string ShortenLambdas(std::string_view function) {
 }  // namespace
 
 std::string LogTimingImpl::StripFunctionName(std::string_view function) {
+  function = StripTemplateParameterClause(function);
   auto pos = function.rfind(')');
   if (pos == std::string_view::npos) {
     return std::string(function);
-- 
2.43.0


From 677631639008c6421720488e4b344ffdbdf7688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 085/100] fix: LogTiming drops declarators of the return type
 from function names

---
 mbo/log/log_timing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index a357e3f..113b680 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <string>
+#include <algorithm>
 #include <string_view>
 
 #include "absl/base/log_severity.h"
@@ -175,6 +176,8 @@ std::string LogTimingImpl::StripFunctionName(std::string_view function) {
     function = ReverseStripAngleBrackets(function);
   }
   function = ReverseFindSpaceSkipPastMatchingBrackets(function);
+  // Declarators of the return type might directly precede the name: `int *Foo()`.
+  function.remove_prefix(std::min(function.find_first_not_of("*&"), function.length()));
   return ShortenLambdas(function);
 }
 
-- 
2.43.0


From 8c60f7de89107a92d4fd394cf90db03801a79928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 086/100] fix: LogTiming keeps the names of operators

---
 mbo/log/log_timing.cc | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 113b680..76cf8f5 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -15,14 +15,16 @@
 
 #include "mbo/log/log_timing.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <string>
-#include <algorithm>
 #include <string_view>
 
 #include "absl/base/log_severity.h"
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
+#include "absl/strings/ascii.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/str_replace.h"
 #include "absl/time/clock.h"
 #include "absl/time/time.h"
@@ -133,6 +135,28 @@ std::string_view StripTemplateParameterClause(std::string_view str) {
   return str;
 }
 
+// Finds the start of an operator's name: Those can contain brackets (e.g. `operator<`) and spaces (`operator int`).
+std::string_view::size_type FindOperator(std::string_view str) {
+  static constexpr std::string_view kOperator = "operator";
+  const auto is_identifier = [](char c) { return absl::ascii_isalnum(static_cast<unsigned char>(c)) || c == '_'; };
+  std::size_t level = 0;
+  for (std::string_view::size_type pos = 0; pos < str.length(); ++pos) {
+    switch (str.at(pos)) {
+      case '(':
+      case '<': ++level; break;
+      case ')':
+      case '>': --level; break;
+      default:
+        if (level == 0 && str.substr(pos).starts_with(kOperator) && (pos == 0 || !is_identifier(str.at(pos - 1)))
+            && (pos + kOperator.length() >= str.length() || !is_identifier(str.at(pos + kOperator.length())))) {
+          return pos;
+        }
+        break;
+    }
+  }
+  return std::string_view::npos;
+}
+
 std::string ShortenLambdas(std::string_view function) {
   std::string result = absl::StrReplaceAll(
       function, {
@@ -172,13 +196,17 @@ std::string LogTimingImpl::StripFunctionName(std::string_view function) {
   if (pos > 0) {
     function.remove_suffix(function.length() - pos);
   }
-  if (function.ends_with('>')) {
+  std::string_view operator_name;
+  if (const auto operator_pos = FindOperator(function); operator_pos != std::string_view::npos) {
+    operator_name = function.substr(operator_pos);
+    function = function.substr(0, operator_pos);
+  } else if (function.ends_with('>')) {
     function = ReverseStripAngleBrackets(function);
   }
   function = ReverseFindSpaceSkipPastMatchingBrackets(function);
   // Declarators of the return type might directly precede the name: `int *Foo()`.
   function.remove_prefix(std::min(function.find_first_not_of("*&"), function.length()));
-  return ShortenLambdas(function);
+  return ShortenLambdas(absl::StrCat(function, operator_name));
 }
 
 void LogTimingImpl::Log() const {
-- 
2.43.0


From 3b4029199c32deb2d3c118a69af338adb4285a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 087/100] fix: LogTiming shortens lambdas named by GCC

---
 mbo/log/log_timing.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 76cf8f5..1ce80c3 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -157,6 +157,28 @@ std::string_view::size_type FindOperator(std::string_view str) {
   return std::string_view::npos;
 }
 
+// Converts GCC's way to name lambdas `<lambda(int)>` to that of Clang `(anonymous class)::operator()(int)`.
+std::string NormalizeLambdas(std::string_view str) {
+  static constexpr std::string_view kLambda = "<lambda(";
+  static constexpr std::string_view kMutable = " mutable";
+  std::string result;
+  for (auto pos = str.find(kLambda); pos != std::string_view::npos; pos = str.find(kLambda)) {
+    auto end = pos + kLambda.length();
+    for (std::size_t level = 1; level > 0 && end < str.length(); ++end) {
+      level += str.at(end) == '(' ? 1 : 0;
+      level -= str.at(end) == ')' ? 1 : 0;
+    }
+    const std::string_view params = str.substr(pos + kLambda.length(), end - pos - kLambda.length());
+    absl::StrAppend(&result, str.substr(0, pos), "(anonymous class)::operator()(", NormalizeLambdas(params));
+    str.remove_prefix(std::min(end + 1, str.length()));
+    if (str.starts_with(kMutable)) {
+      str.remove_prefix(kMutable.length());
+    }
+  }
+  absl::StrAppend(&result, str);
+  return result;
+}
+
 std::string ShortenLambdas(std::string_view function) {
   std::string result = absl::StrReplaceAll(
       function, {
@@ -168,8 +190,9 @@ std::string ShortenLambdas(std::string_view function) {
 
 }  // namespace
 
-std::string LogTimingImpl::StripFunctionName(std::string_view function) {
-  function = StripTemplateParameterClause(function);
+std::string LogTimingImpl::StripFunctionName(std::string_view full_function) {
+  const std::string normalized = NormalizeLambdas(StripTemplateParameterClause(full_function));
+  std::string_view function = normalized;
   auto pos = function.rfind(')');
   if (pos == std::string_view::npos) {
     return std::string(function);
-- 
2.43.0


From 6f8efdac4ebce08c8fb4d11c17e58d9c34bb7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 088/100] fix: LogTiming drops qualifiers of functions around
 lambdas

---
 mbo/log/log_timing.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 1ce80c3..c95f458 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -179,6 +179,24 @@ std::string NormalizeLambdas(std::string_view str) {
   return result;
 }
 
+// Drops the qualifiers of enclosing functions which only GCC keeps: `Foo() const::(anonymous class)::operator()()`.
+std::string DropScopeQualifiers(std::string_view str) {
+  return absl::StrReplaceAll(
+      str, {
+               {") const volatile &&::", ")::"},
+               {") const volatile &::", ")::"},
+               {") const volatile::", ")::"},
+               {") const &&::", ")::"},
+               {") const &::", ")::"},
+               {") const::", ")::"},
+               {") volatile &&::", ")::"},
+               {") volatile &::", ")::"},
+               {") volatile::", ")::"},
+               {") &&::", ")::"},
+               {") &::", ")::"},
+           });
+}
+
 std::string ShortenLambdas(std::string_view function) {
   std::string result = absl::StrReplaceAll(
       function, {
@@ -191,7 +209,7 @@ std::string ShortenLambdas(std::string_view function) {
 }  // namespace
 
 std::string LogTimingImpl::StripFunctionName(std::string_view full_function) {
-  const std::string normalized = NormalizeLambdas(StripTemplateParameterClause(full_function));
+  const std::string normalized = DropScopeQualifiers(NormalizeLambdas(StripTemplateParameterClause(full_function)));
   std::string_view function = normalized;
   auto pos = function.rfind(')');
   if (pos == std::string_view::npos) {
-- 
2.43.0


From bd885cfe32ac6f1f8ed7a381ddc71fa54bb7b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 089/100] fix: A moved-from LogTiming never logs, even if moved
 again

---
 mbo/log/log_timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.h b/mbo/log/log_timing.h
index 22295eb..3445aae 100644
--- a/mbo/log/log_timing.h
+++ b/mbo/log/log_timing.h
@@ -70,7 +70,7 @@ class LogTimingImpl final {
     Once(const Once&) = delete;
     Once& operator=(const Once&) = delete;
 
-    Once(Once&& other) noexcept { other.once_ = false; }
+    Once(Once&& other) noexcept : once_(std::exchange(other.once_, false)) {}
 
     Once& operator=(Once&&) = delete;
 
-- 
2.43.0


From d782059a8c754e385e9bd49bd3c27f2f98e755f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 090/100] fix: LogTiming names functions whose name ends in
 operator

---
 mbo/log/log_timing.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index c95f458..b6f885a 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -135,10 +135,13 @@ std::string_view StripTemplateParameterClause(std::string_view str) {
   return str;
 }
 
+bool IsIdentifier(char c) {
+  return absl::ascii_isalnum(static_cast<unsigned char>(c)) || c == '_';
+}
+
 // Finds the start of an operator's name: Those can contain brackets (e.g. `operator<`) and spaces (`operator int`).
 std::string_view::size_type FindOperator(std::string_view str) {
   static constexpr std::string_view kOperator = "operator";
-  const auto is_identifier = [](char c) { return absl::ascii_isalnum(static_cast<unsigned char>(c)) || c == '_'; };
   std::size_t level = 0;
   for (std::string_view::size_type pos = 0; pos < str.length(); ++pos) {
     switch (str.at(pos)) {
@@ -147,8 +150,8 @@ std::string_view::size_type FindOperator(std::string_view str) {
       case ')':
       case '>': --level; break;
       default:
-        if (level == 0 && str.substr(pos).starts_with(kOperator) && (pos == 0 || !is_identifier(str.at(pos - 1)))
-            && (pos + kOperator.length() >= str.length() || !is_identifier(str.at(pos + kOperator.length())))) {
+        if (level == 0 && str.substr(pos).starts_with(kOperator) && (pos == 0 || !IsIdentifier(str.at(pos - 1)))
+            && (pos + kOperator.length() >= str.length() || !IsIdentifier(str.at(pos + kOperator.length())))) {
           return pos;
         }
         break;
@@ -222,7 +225,8 @@ std::string LogTimingImpl::StripFunctionName(std::string_view full_function) {
       --level;
       if (level == 0) {
         static constexpr std::string_view kConversion = "operator()";
-        if (function.substr(0, pos + 2).ends_with(kConversion)) {
+        if (function.substr(0, pos + 2).ends_with(kConversion)
+            && (pos + 2 == kConversion.length() || !IsIdentifier(function.at(pos + 1 - kConversion.length())))) {
           function.remove_suffix(function.length() - (pos + 2));
           pos -= kConversion.length();
           continue;
-- 
2.43.0


From 4aa9ddc7a80bdf18fbbfade08418dd4606ce515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 091/100] fix: cache cleanup ordered caches created within a
 second by the length of the fraction

---
 tools/cache_cleanup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/cache_cleanup.py b/tools/cache_cleanup.py
index 1b76f63..f525ae9 100644
--- a/tools/cache_cleanup.py
+++ b/tools/cache_cleanup.py
@@ -14,7 +14,8 @@ from typing import Any
 def expired_cache_ids(caches: Iterable[dict[str, Any]], prefix: str) -> list[int]:
     """Return matching cache IDs except the newest one."""
     matching = [cache for cache in caches if cache["key"].startswith(prefix)]
-    matching.sort(key=lambda cache: cache["createdAt"])
+    # Fractions of a second are optional ("...:00Z", "...:00.5Z"), so the texts only order without the final "Z".
+    matching.sort(key=lambda cache: cache["createdAt"].rstrip("Z"))
     return [cache["id"] for cache in matching[:-1]]
 
 
-- 
2.43.0


From 02164b040d150084234daaeef521ea27519a2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 092/100] fix: the diff program ignored
 --ignore_matching_chunks

---
 mbo/diff/diff_main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 2f48cbc..3900026 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -258,6 +258,7 @@ Diff::Options MakeDiffOptions() {
       .file_header_use = *file_header_use,
       .ignore_blank_lines = absl::GetFlag(FLAGS_ignore_blank_lines),
       .ignore_case = absl::GetFlag(FLAGS_ignore_case),
+      .ignore_matching_chunks = absl::GetFlag(FLAGS_ignore_matching_chunks),
       .ignore_all_space = absl::GetFlag(FLAGS_ignore_all_space),
       .ignore_consecutive_space = absl::GetFlag(FLAGS_ignore_consecutive_space),
       .ignore_trailing_space = absl::GetFlag(FLAGS_ignore_trailing_space),
-- 
2.43.0


From 2546e4b0302ae0d60029d5994b66f42f1663bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 093/100] fix: the diff program's comment marker was gone when
 lines were compared

---
 mbo/diff/diff_main.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 3900026..adf49f7 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -227,9 +227,9 @@ constexpr int kExitTrouble = 2;
 
 // Builds the diff options from the command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
-// flag validation and the two option-building lambdas.
-Diff::Options MakeDiffOptions() {
-  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+// flag validation and the two option-building lambdas. The options refer to
+// `strip_comments`, which therefore has to outlive them.
+Diff::Options MakeDiffOptions(const std::string& strip_comments) {
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
   ABSL_QCHECK(algorithm) << "Unknown algorithm";
@@ -303,7 +303,8 @@ int Diff(std::string_view lhs_name, std::string_view rhs_name) {
   if (!rhs.ok()) {
     return kExitTrouble;
   }
-  const Diff::Options diff_options = MakeDiffOptions();
+  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+  const Diff::Options diff_options = MakeDiffOptions(strip_comments);
   const auto result = Diff::FileDiff(*lhs, *rhs, diff_options);
   if (!result.ok()) {
     ABSL_LOG(ERROR) << "ERROR: " << result.status();
-- 
2.43.0


From ddae42e723e57ff8e701b182c718a2a23fcc2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 094/100] fix: the diff program reported unusable flag values
 as a difference

---
 mbo/diff/diff_main.cc | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index adf49f7..1a76113 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -225,25 +225,42 @@ constexpr int kExitEqual = 0;
 constexpr int kExitDifferent = 1;
 constexpr int kExitTrouble = 2;
 
-// Builds the diff options from the command-line flags. Split out of `Diff` so
+// Whether the flags name existing choices. Anything else is a usage error, which
+// must not be mistaken for a difference (`ABSL_QCHECK` exits with 1).
+bool ValidateFlags() {
+  const std::string algorithm = absl::GetFlag(FLAGS_algorithm);
+  const std::string format = absl::GetFlag(FLAGS_format);
+  const std::string file_header_use = absl::GetFlag(FLAGS_file_header_use);
+  if (!Diff::Options::ParseAlgorithmFlag(algorithm)) {
+    std::cerr << "Unknown algorithm: '" << algorithm << "'\n";
+    return false;
+  }
+  if (!Diff::Options::ParseOutputFormatFlag(format)) {
+    std::cerr << "Unknown format: '" << format << "'\n";
+    return false;
+  }
+  if (algorithm == "unified" && format != "unified") {
+    std::cerr << "The deprecated '--algorithm=unified' alias implies '--format=unified'.\n";
+    return false;
+  }
+  if (!Diff::Options::ParseFileHeaderUse(file_header_use)) {
+    std::cerr << "Unknown file_header_use: '" << file_header_use << "'\n";
+    return false;
+  }
+  return true;
+}
+
+// Builds the diff options from the command-line flags. They must be valid. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
 // flag validation and the two option-building lambdas. The options refer to
 // `strip_comments`, which therefore has to outlive them.
 Diff::Options MakeDiffOptions(const std::string& strip_comments) {
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
-  ABSL_QCHECK(algorithm) << "Unknown algorithm";
   const std::optional<Diff::Options::OutputFormat> output_format =
       Diff::Options::ParseOutputFormatFlag(absl::GetFlag(FLAGS_format));
-  ABSL_QCHECK(output_format) << "Unknown format";
-  if (absl::GetFlag(FLAGS_algorithm) == "unified") {
-    // The CLI tests exercise both outcomes, but QCHECK failure aborts before GCC flushes counters.
-    ABSL_QCHECK_EQ(output_format, Diff::Options::OutputFormat::kUnified)  // LCOV_EXCL_BR_LINE
-        << "The deprecated '--algorithm=unified' alias implies '--format=unified'.";
-  }
   const std::optional<Diff::Options::FileHeaderUse> file_header_use =
       Diff::Options::ParseFileHeaderUse(absl::GetFlag(FLAGS_file_header_use));
-  ABSL_QCHECK(file_header_use) << "Unknown file_header_use";
   const bool is_direct = algorithm == Diff::Options::Algorithm::kDirect;
   const bool is_normal = output_format == Diff::Options::OutputFormat::kNormal;
   const bool is_side_by_side = output_format == Diff::Options::OutputFormat::kSideBySide;
@@ -337,5 +354,8 @@ int main(int argc, char* argv[]) {
     std::cerr << "Exactly two files are required. Use: " << fs::path(argv[0]).filename().string() << " --help\n";
     return kExitTrouble;
   }
+  if (!ValidateFlags()) {
+    return kExitTrouble;
+  }
   return Diff(args.at(1), args.at(2));
 }
-- 
2.43.0


From 215d3e650d2617462f31b9a8050ba8c43dcd62ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 095/100] fix: mope: without --ini no INI file is read

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..35ed923 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -39,7 +39,7 @@
 
 ABSL_FLAG(std::string, template, "", "The templte input file (.tpl, .mope).");
 ABSL_FLAG(std::string, generate, "-", "The generated out file ('-' for stdout)");
-ABSL_FLAG(std::string, ini, "-", "An INI file that can be used to initialize section data.");
+ABSL_FLAG(std::string, ini, "", "An INI file that can be used to initialize section data.");
 
 ABSL_FLAG(
     std::vector<std::string>,
-- 
2.43.0


From 92d27056d0d18f05a8b31e3b1f711dd143ddc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 096/100] fix: mope: --set values may contain '='

---
 mbo/mope/mope_main.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 35ed923..7bf7474 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -73,7 +73,9 @@ absl::Status ApplySetFlag(
     absl::flat_hash_map<std::string, std::string>& context_data) {
   static constexpr std::string_view kEmptyPartError =
       "No part of the key in `--set=<key>=<value>` may be empty if split by ':'.";
-  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, '='));
+  // Only the first '=' separates: The value itself may contain more of them.
+  const auto [names, value] =
+      std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, absl::MaxSplits('=', 1)));
   std::vector<std::string_view> section_names = absl::StrSplit(names, ':');
   const std::string_view key = section_names.back();
   if (key.empty()) {
-- 
2.43.0


From 1f96a48b6222e0d9ad637e9dd375d27c83448b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 097/100] fix: mope: report a template that cannot be read
 instead of aborting

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 7bf7474..7fbda02 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -99,7 +99,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_ASSIGN_OR_RETURN(mbo::file::Artefact input, mbo::file::Artefact::Read(opts.template_name));
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -112,12 +112,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From 3635727cc5729f5ea77b437b390f914c4e3e2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 098/100] fix: glob printed an empty line for every entry if
 the root was relative

---
 mbo/file/glob_main.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 7675706..5c88bf0 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -69,9 +69,8 @@ class Entries {
 
   ~Entries() = default;
 
-  explicit Entries(std::filesystem::path root)
-      : root_(std::move(root)),
-        dotdir_(absl::GetFlag(FLAGS_dotdir)),
+  Entries()
+      : dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
         show_size_(absl::GetFlag(FLAGS_size)),
@@ -181,7 +180,7 @@ class Entries {
     if (show_depth_) {
       std::cout << absl::StreamFormat("%*s ", depth_len_, BigNumber(entry.glob_entry.depth));
     }
-    std::cout << entry.glob_entry.entry.path().lexically_relative(root_).native() << "\n";
+    std::cout << entry.glob_entry.MaybeRelativePath().native() << "\n";
   }
 
   void ComputeFieldLengths() const {
@@ -223,7 +222,6 @@ class Entries {
   }
 
  private:
-  const std::filesystem::path root_;
   const bool dotdir_{true};
   const bool dotfile_{true};
   const bool show_fast_{false};
@@ -315,12 +313,12 @@ int main(int argc, char** argv) {
           ? mbo::file::GlobSplit(root)
           : mbo::file::RootAndPattern{.root = std::string{root}, .pattern = args.at(2)};
   EXIT_IF_ERROR(root_pattern);
-  Entries entries(root_pattern->root);
+  Entries entries;
 
   const auto collect = std::bind_front(&Entries::Add, &entries);
   const auto result = absl::GetFlag(FLAGS_re2)  // NL
-                          ? mbo::file::GlobRe2(root_pattern, {}, collect)
-                          : mbo::file::Glob(root_pattern, {}, {}, collect);
+                          ? mbo::file::GlobRe2(root_pattern, {.use_rel_path = true}, collect)
+                          : mbo::file::Glob(root_pattern, {}, {.use_rel_path = true}, collect);
   EXIT_IF_ERROR(result);
   if (absl::GetFlag(FLAGS_entries) && !absl::GetFlag(FLAGS_fast)) {
     entries.PrintAllEntries();
-- 
2.43.0


From 5f0db3194230db8e59f53d70462f35119130081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 099/100] fix: glob --nodotdir showed entries in dot
 directories that the pattern itself did not match

---
 mbo/file/glob_main.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 5c88bf0..6ad25df 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -90,6 +90,9 @@ class Entries {
 
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
     // Filter
+    if (!dotdir_ && HasDotDir(glob_entry.MaybeRelativePath().parent_path())) {
+      return mbo::file::GlobEntryAction::kDoNotRecurse;
+    }
     if (glob_entry.entry.is_directory()) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
@@ -150,6 +153,11 @@ class Entries {
                : mbo::file::GlobEntryAction::kDoNotRecurse;
   }
 
+  // Whether any component of the relative directory `path` starts with a '.'.
+  static bool HasDotDir(const std::filesystem::path& path) {
+    return std::ranges::any_of(path, [](const auto& component) { return component.native().starts_with('.'); });
+  }
+
   static char GetType(const std::filesystem::directory_entry& entry) {
     if (entry.is_directory()) {
       return 'd';
-- 
2.43.0


From c9b0d4c0cea1b74bdff8b477098c759183006f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 100/100] fix: glob --fast showed the entries in spite of
 --noentries

---
 mbo/file/glob_main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 6ad25df..3156d28 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -72,6 +72,7 @@ class Entries {
   Entries()
       : dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
+        show_entries_(absl::GetFlag(FLAGS_entries)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
         show_size_(absl::GetFlag(FLAGS_size)),
         show_type_(absl::GetFlag(FLAGS_type)),
@@ -140,7 +141,9 @@ class Entries {
     };
     // Maybe Print
     if (show_fast_) {
-      PrintFastEntry(entry);
+      if (show_entries_) {
+        PrintFastEntry(entry);
+      }
     } else {
       entries_.emplace(entry);
     }
@@ -232,6 +235,7 @@ class Entries {
  private:
   const bool dotdir_{true};
   const bool dotfile_{true};
+  const bool show_entries_{true};
   const bool show_fast_{false};
   const bool show_size_{false};
   const bool show_type_{false};
-- 
2.43.0

