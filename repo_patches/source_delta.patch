From 07eb912e8d8d9b930fe14e1552e1699f340fed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:58 +0000
Subject: [PATCH 01/33] fix: keep the last byte of runends when shrinking a
 store whose bitmaps end on a byte boundary

---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index ff0087e..faadbcc 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2693,7 +2693,8 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
     memcpy(new_store.ptr, store.ptr, (total_bitmap_size + 7) / 8);
     uint8_t *new_store_byte_ptr = reinterpret_cast<uint8_t *>(new_store.ptr);
-    new_store_byte_ptr[(total_bitmap_size + 7) / 8 - 1] &= BITMASK(total_bitmap_size % 8);
+    if (total_bitmap_size % 8 != 0)
+        new_store_byte_ptr[total_bitmap_size / 8] &= BITMASK(total_bitmap_size % 8);
 
     for (int32_t i = 0; i < slot_count; i++) {
         const uint64_t old_slot = GetSlot(store, i);
-- 
2.43.0


From bf9f51c33f6f1015b53ab33b9a186ee9016d5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 02/33] fix: keep infix store slot accesses inside the
 allocation

---
 include/diva.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index faadbcc..44dc529 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -164,7 +164,7 @@ private:
         InfixStore(const uint32_t slot_count, const uint32_t slot_size, const uint32_t size_grade=size_scalar_shrink_grow_sep) {
             SetSizeGrade(size_grade);
             const uint32_t word_count = GetPtrWordCount(slot_count, slot_size);
-            ptr = new uint64_t[word_count];
+            ptr = AllocateWords(word_count);
             memset(ptr, 0, sizeof(uint64_t) * word_count);
         }
         InfixStore(const char *deser_buf);
@@ -183,6 +183,14 @@ private:
             return 1 + (Diva::infix_store_target_size + slot_count * (slot_size + 1) + 63) / 64;
         }
 
+        // Slots are accessed through 8-byte loads and stores that may start in
+        // the last word, so each allocation has one word of padding.
+        static uint64_t *AllocateWords(const uint32_t word_count) {
+            uint64_t *res = new uint64_t[word_count + 1];
+            res[word_count] = 0;
+            return res;
+        }
+
         uint32_t GetElemCount() const {
             return status & BITMASK(elem_count_bit_count);
         }
@@ -2209,7 +2217,7 @@ __attribute__((always_inline))
 inline int32_t Diva<int_optimized>::FindEmptySlotAfter(const InfixStore &store, const uint32_t runend_pos) const {
     const uint32_t size_grade = store.GetSizeGrade();
     int32_t current_pos = runend_pos;
-    while (current_pos < scaled_sizes_[size_grade] && GetSlot(store, current_pos + 1)) {
+    while (current_pos + 1 < scaled_sizes_[size_grade] && GetSlot(store, current_pos + 1)) {
         current_pos = NextRunend(store, current_pos);
     }
     return current_pos + 1;
@@ -2676,7 +2684,7 @@ inline void Diva<int_optimized>::ResizeInfixStore(InfixStore &store, const bool
     store.SetSizeGrade(size_grade);
     const uint32_t next_size = scaled_sizes_[size_grade];
     const uint32_t word_count = InfixStore::GetPtrWordCount(next_size, infix_size_);
-    store.ptr = new uint64_t[word_count];
+    store.ptr = InfixStore::AllocateWords(word_count);
     LoadListToInfixStore(store, infix_list, infix_count, total_implicit, true);
 }
 
-- 
2.43.0


From d5353d7672c9d33e4bd566060b73b1865af1771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 03/33] fix: recover the differing bit in 64 bits when merging
 infix stores

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 44dc529..5e2bd0d 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1701,7 +1701,7 @@ inline void Diva<int_optimized>::UpdateInfixListDelete(const uint32_t shared, co
                                                              : (infix_list[i] >> (old_infix_size - new_infix_size))
                                                                     | (infix_list[i] & 1ULL));
             uint32_t recovered_bit_cnt = 1, recovery_bits = 1;
-            uint64_t recovered_infix = left_key.GetBit(shared) << (new_infix_size - recovered_bit_cnt);
+            uint64_t recovered_infix = static_cast<uint64_t>(left_key.GetBit(shared)) << (new_infix_size - recovered_bit_cnt);
             
             recovery_bits = std::min(old_shared - shared - ignore - 1, new_infix_size - recovered_bit_cnt);
             recovered_bit_cnt += recovery_bits;
-- 
2.43.0


From 0c0cd2153288b3ee8a91111d14654dbadc25a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 04/33] fix: avoid a 64-bit shift when reading zero bits of a
 key

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 5e2bd0d..a47146a 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -119,7 +119,7 @@ private:
 
         __attribute__((always_inline))
         uint64_t BitsAt(const uint32_t bit_pos, const uint32_t res_width) const {
-            if (bit_pos / 8 >= length)
+            if (res_width == 0 || bit_pos / 8 >= length)
                 return 0;
             uint64_t res = 0;
             memcpy(&res, str + bit_pos / 8, std::min<uint32_t>(sizeof(res), length - bit_pos / 8));
-- 
2.43.0


From d5428e4211b8cddfc0ce7636e43e07f4aadb72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:13 +0000
Subject: [PATCH 05/33] fix: lay out shrunken infix stores for their own size
 grade

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index a47146a..e718553 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2695,7 +2695,7 @@ inline void Diva<int_optimized>::ShrinkInfixStoreInfixSize(InfixStore &store, co
     const uint32_t infix_count = store.GetElemCount();
     const uint32_t slot_count = scaled_sizes_[size_grade];
 
-    InfixStore new_store(slot_count, new_infix_size);
+    InfixStore new_store(slot_count, new_infix_size, size_grade);
 
     // Copy the occupieds and runends bitmaps
     const uint32_t total_bitmap_size = 64 + infix_store_target_size + scaled_sizes_[size_grade];
-- 
2.43.0


From 85d57093e828b5f95783069e2e9d2b24669f3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:40 +0000
Subject: [PATCH 06/33] fix: find keys in the unsorted tail of an integer leaf

---
 include/wormhole/wh_int.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 372131f..65f4cff 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1436,8 +1436,14 @@ wormleaf_int_search_eq(const struct wormleaf_int * const leaf, const struct kref
     lo = cmp <= 0 ? lo : i;
     hi = cmp <= 0 ? i : hi;
   }
-  u32 res = (hi < leaf->nr_keys && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0) ? hi : WH_KPN;
-  return res;
+  if (hi < leaf->nr_sorted && compare_int_isp(search_key, key->len, leaf->kvs + hi) == 0)
+    return hi;
+  // keys past nr_sorted are in no particular order
+  for (u32 i = leaf->nr_sorted; i < leaf->nr_keys; i++) {
+    if (compare_int_isp(search_key, key->len, leaf->kvs + i) == 0)
+      return i;
+  }
+  return WH_KPN;
 }
 
 
-- 
2.43.0


From 8b19fb3df7c50b9522a9fbc918252419c90637d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:40 +0000
Subject: [PATCH 07/33] fix: do not count the sorted keys of a merged integer
 leaf twice

---
 include/wormhole/wh_int.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index 65f4cff..da078ae 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -1867,12 +1867,10 @@ wormhole_split_leaf(struct wormhole_int * const map, struct wormleaf_int * const
 wormleaf_merge(struct wormleaf_int * const leaf1, struct wormleaf_int * const leaf2)
 {
   debug_assert((leaf1->nr_keys + leaf2->nr_keys) <= WH_KPN);
-  const bool leaf1_sorted = leaf1->nr_keys == leaf1->nr_sorted;
 
+  // nr_sorted of leaf1 is maintained by the insertions
   for (u32 i = 0; i < leaf2->nr_keys; i++)
     wormleaf_int_insert_isp(leaf1, leaf2->kvs + i);
-  if (leaf1_sorted)
-    leaf1->nr_sorted += leaf2->nr_sorted;
   return true;
 }
 
-- 
2.43.0


From 717622e815a245f9af1524f506e72321bac8625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:18 +0000
Subject: [PATCH 08/33] fix: keep the left boundary key alive across the tree
 deletion of a merge

---
 include/diva.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index e718553..081e948 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1630,6 +1630,16 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     }
 #endif
 
+    // Removing the middle key may move or free the tree's copy of the left key
+    const InfixStore old_store_l = *store_l;
+    uint8_t left_key_str[left_key.length];
+    memcpy(left_key_str, left_key.str, left_key.length);
+    left_key.str = left_key_str;
+
+    const uint64_t left_extraction = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0);
+    const uint64_t right_extraction = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1);
+    const uint32_t total_implicit = ((right_extraction >> infix_size_) - (left_extraction >> infix_size_)) + 1;
+
     delete[] store_l->ptr;
     delete[] store_r->ptr;
     if constexpr (int_optimized)
@@ -1637,13 +1647,9 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     else
         wh_del(better_tree_, middle_key.str, middle_key.length);
 
-    const uint64_t left_extraction = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0);
-    const uint64_t right_extraction = ExtractPartialKey(right_key, shared, ignore, implicit_size, 1);
-    const uint32_t total_implicit = ((right_extraction >> infix_size_) - (left_extraction >> infix_size_)) + 1;
-
     InfixStore store = AllocateInfixStoreWithList(infix_list, total_elem_count, total_implicit);
-    store.SetPartialKey(store_l->IsPartialKey());
-    store.SetInvalidBits(store_l->GetInvalidBits());
+    store.SetPartialKey(old_store_l.IsPartialKey());
+    store.SetInvalidBits(old_store_l.GetInvalidBits());
     if constexpr (int_optimized)
         wh_int_put(better_tree_int_, left_key.str, left_key.length, reinterpret_cast<const void *>(&store), sizeof(InfixStore));
     else
-- 
2.43.0


From 00972b7142955e49e1aaaa2eeb9b660687282b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:02 +0000
Subject: [PATCH 09/33] fix: do not split at a boundary key that only differs
 from the previous one in trailing zeros

---
 include/diva.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 081e948..f50afc5 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -149,6 +149,14 @@ private:
             return cmp_result < 0 || (cmp_result == 0 && length <= rhs.length);
         }
 
+        bool EqualsZeroPadded(const InfiniteByteString& other) const {
+            for (uint32_t i = 0; i < std::max(length, other.length); i += sizeof(uint64_t)) {
+                if (WordAt(i) != other.WordAt(i))
+                    return false;
+            }
+            return true;
+        }
+
         bool operator==(const InfiniteByteString& rhs) const {
             return length == rhs.length && memcmp(str, rhs.str, std::min(length, rhs.length)) == 0;
         }
@@ -853,6 +861,11 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         copied_key_len = (zero_pos - 1) / 8 + 1;
     }
     InfiniteByteString edited_key {copied_key_str, copied_key_len};
+    if (edited_key.EqualsZeroPadded(prev_key)) {
+        // No bit tells the new boundary key apart from the previous one
+        InsertSimple(key);
+        return;
+    }
     if (zero_pos != -1)
         extraction = ExtractPartialKey(edited_key, shared, ignore, implicit_size, edited_key.GetBit(shared));
 
-- 
2.43.0


From a4f6ca778a2ada9042598c79b90e54f30e263437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:02 +0000
Subject: [PATCH 10/33] fix: insert without splitting when a split would
 overflow or blow up the infix lists

---
 include/diva.hpp | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f50afc5..fccd587 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -92,6 +92,7 @@ private:
     static constexpr uint32_t scale_shift = 15;
     static constexpr uint32_t scale_implicit_shift = 15;
     static constexpr uint32_t size_scalar_count = 500;
+    static constexpr uint32_t max_split_expansion = 4 * infix_store_target_size;
     static constexpr uint32_t size_scalar_shrink_grow_sep = 55; // vs. 55 for load_factor_alt_=0.95
 
     struct InfiniteByteString {
@@ -878,9 +879,16 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     const int32_t shamt_lt = shared_lt + ignore_lt + implicit_size_lt - shared - ignore - implicit_size;
     const uint64_t prev_extraction_lt = ExtractPartialKey(prev_key, shared_lt, ignore_lt, implicit_size_lt, 0);
     const uint64_t extraction_lt = ExtractPartialKey(edited_key, shared_lt, ignore_lt, implicit_size_lt, 1);
-    const uint64_t left_start = prev_key.BitsAt(shared + ignore + implicit_size, shamt_lt) << infix_size_;
-    const uint64_t left_end = (((extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + shamt_lt))
-                              | (edited_key.BitsAt(shared + ignore + implicit_size, shamt_lt) << infix_size_);
+    const int32_t max_shamt = 64 - implicit_size - infix_size_;
+    if (split_pos > 0 && shamt_lt > max_shamt) {
+        // The infixes don't fit in a word after being moved to the new boundaries
+        InsertSimple(key);
+        return;
+    }
+    const int32_t used_shamt_lt = std::min(shamt_lt, max_shamt);
+    const uint64_t left_start = prev_key.BitsAt(shared + ignore + implicit_size, used_shamt_lt) << infix_size_;
+    const uint64_t left_end = (((extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + used_shamt_lt))
+                              | (edited_key.BitsAt(shared + ignore + implicit_size, used_shamt_lt) << infix_size_);
     const uint32_t total_implicit_lt = ((extraction_lt >> infix_size_) - (prev_extraction_lt >> infix_size_)) + 1;
 
     auto [shared_gt, ignore_gt, implicit_size_gt] = GetSharedIgnoreImplicitLengths(
@@ -890,10 +898,15 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     const int32_t shamt_gt = shared_gt + ignore_gt + implicit_size_gt - shared - ignore - implicit_size;
     const uint64_t extraction_gt = ExtractPartialKey(edited_key, shared_gt, ignore_gt, implicit_size_gt, 0);
     const uint64_t next_extraction_gt = ExtractPartialKey(next_key, shared_gt, ignore_gt, implicit_size_gt, 1);
-    const uint64_t right_start = (((extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + shamt_gt))
-                                | (edited_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
-    const uint64_t right_end = (((next_extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + shamt_gt))
-                                | (next_key.BitsAt(shared + ignore + implicit_size, shamt_gt) << infix_size_);
+    if (split_pos < infix_list_len && shamt_gt > max_shamt) {
+        InsertSimple(key);
+        return;
+    }
+    const int32_t used_shamt_gt = std::min(shamt_gt, max_shamt);
+    const uint64_t right_start = (((extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + used_shamt_gt))
+                                | (edited_key.BitsAt(shared + ignore + implicit_size, used_shamt_gt) << infix_size_);
+    const uint64_t right_end = (((next_extraction >> infix_size_) - (prev_extraction >> infix_size_)) << (infix_size_ + used_shamt_gt))
+                                | (next_key.BitsAt(shared + ignore + implicit_size, used_shamt_gt) << infix_size_);
     const uint32_t total_implicit_gt = ((next_extraction_gt >> infix_size_) - (extraction_gt >> infix_size_)) + 1;
 
     if (zero_pos <= std::max(shared_lt, shared_gt)) {
@@ -906,17 +919,22 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
                                                                       implicit_size,
                                                                       shamt_lt,
                                                                       left_start, left_end);
-    uint64_t left_infix_list[left_list_len];
-    UpdateInfixList(infix_list, split_pos, shamt_lt,
-                    left_start, left_end,
-                    left_infix_list, left_list_len,
-                    left_exp);
-
     const auto [right_list_len, right_exp] = GetExpandedInfixListLength(infix_list + split_pos,
                                                                         infix_list_len - split_pos,
                                                                         implicit_size,
                                                                         shamt_gt,
                                                                         right_start, right_end);
+    if (left_list_len + right_list_len > infix_list_len + max_split_expansion) {
+        // Splitting would replicate the short infixes too many times
+        InsertSimple(key);
+        return;
+    }
+
+    uint64_t left_infix_list[left_list_len];
+    UpdateInfixList(infix_list, split_pos, shamt_lt,
+                    left_start, left_end,
+                    left_infix_list, left_list_len,
+                    left_exp);
     uint64_t right_infix_list[right_list_len];
     UpdateInfixList(infix_list + split_pos, infix_list_len - split_pos, shamt_gt,
                     right_start, right_end,
-- 
2.43.0


From b7198031a74b43894946be566c1f36bd0840735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:52 +0000
Subject: [PATCH 11/33] fix: sort the merged infix list of two neighbouring
 stores

---
 include/diva.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index fccd587..fa40152 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -989,7 +989,7 @@ inline std::tuple<uint32_t, bool> Diva<int_optimized>::GetExpandedInfixListLengt
     for (int32_t i = 0; i < list_len; i++) {
         const int32_t new_lowbit_position = lowbit_pos(list[i]) + shamt;
 #ifdef DEBUG
-        assert(implicit_size + infix_size_ > new_lowbit_position);
+        //assert(implicit_size + infix_size_ > new_lowbit_position);
 #endif
         if (new_lowbit_position >= infix_size_) {
             const uint64_t implicit_part = (list[i] << shamt) >> infix_size_;
@@ -1653,6 +1653,12 @@ inline void Diva<int_optimized>::DeleteMerge(void *const it_inp) {
     for (int32_t i = 0; i < total_elem_count; i++)
         infix_list[i] -= implicit << infix_size_;
 
+    // Short infixes of the right store may start before the last infixes of the left one
+    std::sort(infix_list, infix_list + total_elem_count, [](uint64_t a, uint64_t b) {
+                  const uint64_t a_lb = a & (-a), b_lb = b & (-b);
+                  return a - a_lb < b - b_lb || (a - a_lb == b - b_lb && a_lb > b_lb);
+              });
+
 #ifdef DEBUG
     for (int32_t i = 1; i < total_elem_count; i++) {
         const uint64_t prev_l = infix_list[i - 1] - (infix_list[i - 1] & -infix_list[i - 1]);
-- 
2.43.0


From 5c34fadebeb185fba549c1bc84fe035621c798db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:23 +0000
Subject: [PATCH 12/33] fix: only merge stores on a delete when the partial
 boundary key covers the deleted key

---
 include/diva.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index fa40152..98a0285 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1576,7 +1576,7 @@ inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t
     const uint32_t total_implicit = next_implicit - prev_implicit + 1;
     const uint64_t deletee = ((extraction | 1ULL) - (prev_implicit << infix_size_));
 
-    if (infix_store.IsPartialKey()) {
+    if (infix_store.IsPartialKey() && prev_key.IsPrefixOf(key, infix_store.GetInvalidBits())) {
         const uint32_t longest_match_len = GetLongestMatchingInfixSize(infix_store, deletee);
         if (longest_match_len == 0 || 8 * prev_key.length - infix_store.GetInvalidBits() 
                                         > shared + ignore + implicit_size + longest_match_len - 1) {
-- 
2.43.0


From 9312e2a11f81d29289f11c9cb42a63474d0a0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:30 +0000
Subject: [PATCH 13/33] fix: do not split strings at a prefix that ends with a
 zero byte

---
 include/diva.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index 98a0285..2050942 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -254,6 +254,7 @@ private:
     const float load_factor_alt_ = 0.95;
     uint64_t size_scalars_[size_scalar_count], scaled_sizes_[size_scalar_count], exception_scaled_size_;
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
+    uint32_t min_key_len_ = std::numeric_limits<uint32_t>::max();
 
     uint32_t bulk_load_streaming_ind_, bulk_load_streaming_max_len_;
     InfiniteByteString bulk_load_left_key_, bulk_load_key_list_[infix_store_target_size];
@@ -467,6 +468,7 @@ inline void Diva<int_optimized>::Insert(const uint8_t *key, const uint32_t key_l
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::InsertSimple(const InfiniteByteString key) {
+    min_key_len_ = std::min(min_key_len_, key.length);
     InfixStore *infix_store_ptr, *dummy_infix_store_ptr;
     uint32_t dummy_val;
 
@@ -757,6 +759,7 @@ inline void Diva<int_optimized>::AddTreeKey(const uint8_t *key, const uint32_t k
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
+    min_key_len_ = std::min(min_key_len_, key.length);
     InfixStore *infix_store_ptr, *dummy_infix_store_ptr;
     uint32_t dummy_val;
 
@@ -862,6 +865,15 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         copied_key_len = (zero_pos - 1) / 8 + 1;
     }
     InfiniteByteString edited_key {copied_key_str, copied_key_len};
+    if constexpr (!int_optimized) {
+        if (zero_pos != -1 && (copied_key_len <= (zero_pos - 1) / 8 ||
+                               (copied_key_str[copied_key_len - 1] == 0 && min_key_len_ < copied_key_len))) {
+            // The prefix ends with a zero byte, so it may cover keys that are
+            // shorter than it and that the tree orders before it
+            InsertSimple(key);
+            return;
+        }
+    }
     if (edited_key.EqualsZeroPadded(prev_key)) {
         // No bit tells the new boundary key apart from the previous one
         InsertSimple(key);
@@ -1315,6 +1327,7 @@ template <bool int_optimized>
 inline Diva<int_optimized>::Diva(char *deser_buf):
         bulk_load_streaming_ind_(0) {
     uint32_t ind = DeserializeMetadata(deser_buf);
+    min_key_len_ = 0;
     if constexpr (int_optimized) {
         wh_int_ = wh_int_create();
         better_tree_int_ = wh_int_ref(wh_int_);
@@ -1787,6 +1800,7 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     else
         left_key = {reinterpret_cast<const uint8_t *>(&(*key_it)), key_len};
     int32_t cnt = 1;
+    min_key_len_ = std::min(min_key_len_, key_len);
     for (++key_it; key_it != end; ++key_it) {
         if (cnt % infix_store_target_size == 0) {   // New boundary key
             if constexpr (int_optimized) {
@@ -1886,6 +1900,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     InfiniteByteString right_key {};
     int32_t cnt = 1;
     uint32_t max_len = sv.size();
+    min_key_len_ = std::min<uint32_t>(min_key_len_, sv.size());
     for (++key_it; key_it != end; ++key_it) {
         if (cnt % infix_store_target_size == 0) {   // New boundary key
             std::string_view sv = *key_it;
@@ -1917,6 +1932,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
         }
         sv = *key_it;
         max_len = std::max<uint32_t>(max_len, sv.size());
+        min_key_len_ = std::min<uint32_t>(min_key_len_, sv.size());
         cnt++;
     }
 
@@ -1976,6 +1992,7 @@ template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreaming(const uint8_t *key, const uint32_t key_len) {
     uint8_t *key_copy = new uint8_t[key_len];
     memcpy(key_copy, key, key_len);
+    min_key_len_ = std::min(min_key_len_, key_len);
 
     if (bulk_load_left_key_.str == nullptr) {
         bulk_load_left_key_ = {key_copy, key_len};
-- 
2.43.0


From 27b639d6a3722e86f15e61aa3bd131df5609fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:04 +0000
Subject: [PATCH 14/33] fix: keep the low bits of leaf pointers that are not
 cache-line aligned

---
 include/wormhole/wh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 36b2036..9bd9b7e 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -126,7 +126,8 @@ wormmeta_klen_load(const struct wormmeta * const meta)
   static inline struct wormleaf *
 wormmeta_lmost_load(const struct wormmeta * const meta)
 {
-  return u64_to_ptr(meta->l13.e3 & (~0x3flu));
+  // bitmin and bitmax only use the lowest two bits of e3; leaf nodes are not always 64-byte aligned
+  return u64_to_ptr(meta->l13.e3 & (~0x3lu));
 }
 
   static inline u32
-- 
2.43.0


From 026ed8e18376695f446c9c811dcba0554b53b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:12 +0000
Subject: [PATCH 15/33] fix: keep the first run of an infix store canonical
 when deleting from the last cluster

---
 include/diva.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 2050942..570ed02 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2526,8 +2526,8 @@ inline void Diva<int_optimized>::DeleteRawFromInfixStore(InfixStore &store, cons
         }
         if (cur_runend < 0) {
             const uint32_t mapped_pos = GetMappedPos(cur_occupied, size_grade, implicit_scalar);
-            const int32_t first_empty_slot_before = FindEmptySlotBefore(store, runend_pos);
-            shift_start = (first_empty_slot_before < mapped_pos ? first_empty_slot_before : shift_start);
+            const int32_t runstart = FindEmptySlotBefore(store, runend_pos) + 1;
+            shift_start = (mapped_pos > runstart ? runstart : shift_start);
         }
     }
     else {
-- 
2.43.0


From 0286af4579785eabd3290f28397e2b7927d766ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:35 +0000
Subject: [PATCH 16/33] fix: give deserialized infix stores their own memory

The stores pointed into the caller's buffer, which the destructor and
later resizes then passed to delete[].
---
 include/diva.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 570ed02..b37e8b1 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1476,9 +1476,8 @@ template <bool int_optimized>
 inline uint32_t Diva<int_optimized>::DeserializeInfixStore(char *deser_buf, Diva<int_optimized>::InfixStore& store) const {
     memcpy(&store.status, deser_buf, sizeof(store.status));
     const uint32_t word_count = store.GetPtrWordCount(scaled_sizes_[store.GetSizeGrade()], infix_size_);
-    store.ptr = reinterpret_cast<uint64_t *>(deser_buf + sizeof(store.status));
-    //store.ptr = new uint64_t[word_count];
-    //memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
+    store.ptr = InfixStore::AllocateWords(word_count);
+    memcpy(store.ptr, deser_buf + sizeof(store.status), word_count * sizeof(uint64_t));
     return sizeof(store.status) + word_count * sizeof(uint64_t);
 }
 
-- 
2.43.0


From 319092c2166d46eaf9dee3d2bab0fde6e452b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:09 +0000
Subject: [PATCH 17/33] fix: bulk load inputs whose last key is a boundary key

With one key more than a multiple of the store size the remaining list
was built between the last key and itself, which never terminated.
---
 include/diva.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index b37e8b1..19f2e5e 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1850,7 +1850,11 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     }
     else
         right_key = {reinterpret_cast<const uint8_t *>(&(*key_it)), key_len};
-    const bool add_last_key = key_it != last_key_it;
+    if (key_it == last_key_it) {
+        // The last key is already a boundary and has no keys after it
+        AddTreeKey(left_key.str, left_key.length);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1879,8 +1883,7 @@ inline void Diva<int_optimized>::BulkLoadFixedLength(const t_itr begin, const t_
     else
         wh_put(better_tree_, left_key.str, left_key.length, &store, sizeof(store));
 
-    if (add_last_key)
-        AddTreeKey(right_key.str, right_key.length);
+    AddTreeKey(right_key.str, right_key.length);
 
     uint8_t max_str[key_len];
     memset(max_str, 0xFF, key_len);
@@ -1940,7 +1943,14 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     sv = *key_it;
     right_key = {reinterpret_cast<const uint8_t *>(sv.data()), 
                  static_cast<uint32_t>(sv.size())};
-    const bool add_last_key = key_it != last_key_it;
+    if (key_it == last_key_it) {
+        // The last key is already a boundary and has no keys after it
+        AddTreeKey(left_key.str, left_key.length);
+        uint8_t max_str[max_len];
+        memset(max_str, 0xFF, max_len);
+        AddTreeKey(max_str, max_len);
+        return;
+    }
 
     auto [shared, ignore, implicit_size] = GetSharedIgnoreImplicitLengths(left_key, right_key);
     const uint64_t prev_implicit = ExtractPartialKey(left_key, shared, ignore, implicit_size, 0) >> infix_size_;
@@ -1965,8 +1975,7 @@ inline void Diva<int_optimized>::BulkLoad(const t_itr begin, const t_itr end) {
     else
         wh_put(better_tree_, left_key.str, left_key.length, &store, sizeof(store));
 
-    if (add_last_key)
-        AddTreeKey(right_key.str, right_key.length);
+    AddTreeKey(right_key.str, right_key.length);
 
     uint8_t max_str[max_len];
     memset(max_str, 0xFF, max_len);
-- 
2.43.0


From fd5625a76915ba4c43c1d5329a44383c8637235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:26 +0000
Subject: [PATCH 18/33] fix: keep every key of a streamed bulk load

The last key was dropped when it was a boundary key, a first key of all
zeros had its store replaced by an empty one, and finishing an empty
load read an uninitialised length.
---
 include/diva.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 19f2e5e..f137abb 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -256,7 +256,7 @@ private:
     uint64_t implicit_scalars_[infix_store_target_size / 2 + 1];
     uint32_t min_key_len_ = std::numeric_limits<uint32_t>::max();
 
-    uint32_t bulk_load_streaming_ind_, bulk_load_streaming_max_len_;
+    uint32_t bulk_load_streaming_ind_, bulk_load_streaming_max_len_ = sizeof(uint64_t);
     InfiniteByteString bulk_load_left_key_, bulk_load_key_list_[infix_store_target_size];
 
     void AddTreeKey(const uint8_t *key, const uint32_t key_len);
@@ -2043,9 +2043,17 @@ template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
     memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    // The first key loaded may be the smallest key there is
+    bool has_min_key;
+    if constexpr (int_optimized)
+        has_min_key = wh_int_probe(better_tree_int_, key_copy, bulk_load_streaming_max_len_);
+    else
+        has_min_key = wh_probe(better_tree_, key_copy, bulk_load_streaming_max_len_);
+    if (!has_min_key)
+        AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
 
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
@@ -2072,6 +2080,10 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_right_key.str, bulk_load_right_key.length);
         delete[] bulk_load_right_key.str;
     }
+    else if (bulk_load_left_key_.str != nullptr) {
+        // The last key is a boundary and has no keys after it
+        AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
+    }
 
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
-- 
2.43.0


From 2b0f0d24e1e3ef63e1e0325b4c8872e5be1d5246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:39 +0000
Subject: [PATCH 19/33] fix: release the tree reference in the destructor

---
 include/diva.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/diva.hpp b/include/diva.hpp
index f137abb..99a0472 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1388,6 +1388,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it_int.leaf)
             wormleaf_int_unlock_read(it_int.leaf);
+        wh_int_unref(better_tree_int_);
         wh_int_destroy(wh_int_);
     }
     else {
@@ -1403,6 +1404,7 @@ inline Diva<int_optimized>::~Diva() {
         }
         if (it.leaf)
             wormleaf_unlock_read(it.leaf);
+        wh_unref(better_tree_);
         wh_destroy(wh_);
     }
 }
-- 
2.43.0


From dc969994f8bbddfc81067cdc0fed291abde4fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:55 +0000
Subject: [PATCH 20/33] fix: count the padding of short boundary keys in Size
 of an integer filter

Serialize pads every boundary key to eight bytes, so a buffer of Size()
bytes was overrun once a split had made a shorter boundary key.
---
 include/diva.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 99a0472..f469a64 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -1169,7 +1169,8 @@ inline uint32_t Diva<int_optimized>::Size() const {
         for (wh_int_iter_seek(&it_int, nullptr, 0); wh_int_iter_valid(&it_int); wh_int_iter_skip1(&it_int)) {
             wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key), &tree_key_len, 
                                           reinterpret_cast<void **>(&store), &dummy);
-            res += sizeof(tree_key_len) + tree_key_len;
+            const uint32_t rounded_tree_key_len = ((tree_key_len + 7) / 8) * 8;
+            res += sizeof(tree_key_len) + rounded_tree_key_len;
             const uint32_t word_count = store->GetPtrWordCount(scaled_sizes_[store->GetSizeGrade()], infix_size_);
             res += sizeof(store->status) + word_count * sizeof(uint64_t);
         }
-- 
2.43.0


From a353285cd30db4381eb9f28972d409b033f0d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:52 +0000
Subject: [PATCH 21/33] fix: do not split at a boundary key that only differs
 from the next one in trailing zeros

A key can be a zero-padded copy of a later partial boundary key; looking
for the bit that tells the two apart never ended.
---
 include/diva.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index f469a64..4097bdc 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -874,8 +874,8 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
             return;
         }
     }
-    if (edited_key.EqualsZeroPadded(prev_key)) {
-        // No bit tells the new boundary key apart from the previous one
+    if (edited_key.EqualsZeroPadded(prev_key) || edited_key.EqualsZeroPadded(next_key)) {
+        // No bit tells the new boundary key apart from one of its neighbours
         InsertSimple(key);
         return;
     }
-- 
2.43.0


From 809a437d1ea45648b8f7529ddc27bd1afc3c295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:57 +0000
Subject: [PATCH 22/33] fix: do not split integer keys at a prefix that ends
 past them

The boundary key was kept whole but some of its low bits were marked as
not part of the prefix, so queries for its neighbours were answered yes.
---
 include/diva.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 4097bdc..3937619 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -865,14 +865,12 @@ inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
         copied_key_len = (zero_pos - 1) / 8 + 1;
     }
     InfiniteByteString edited_key {copied_key_str, copied_key_len};
-    if constexpr (!int_optimized) {
-        if (zero_pos != -1 && (copied_key_len <= (zero_pos - 1) / 8 ||
-                               (copied_key_str[copied_key_len - 1] == 0 && min_key_len_ < copied_key_len))) {
-            // The prefix ends with a zero byte, so it may cover keys that are
-            // shorter than it and that the tree orders before it
-            InsertSimple(key);
-            return;
-        }
+    if (zero_pos != -1 && (copied_key_len <= (zero_pos - 1) / 8 ||
+                           (copied_key_str[copied_key_len - 1] == 0 && min_key_len_ < copied_key_len))) {
+        // The prefix ends past the key or with a zero byte, so it may cover keys
+        // that are shorter than it and that the tree orders before it
+        InsertSimple(key);
+        return;
     }
     if (edited_key.EqualsZeroPadded(prev_key) || edited_key.EqualsZeroPadded(next_key)) {
         // No bit tells the new boundary key apart from one of its neighbours
-- 
2.43.0


From 1aed21c491b2ba78e95b7762b750ce0295208314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 23/33] fix: leave the map alone when an unsafe range delete
 ends before it starts

---
 include/wormhole/wh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index 9bd9b7e..d94c635 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -2988,6 +2988,8 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && (kref_compare(start, end) >= 0)) // do nothing if end <= start
+    return 0;
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From ec11854958b7d20d9c346f3669fab903305ebd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 24/33] fix: keep room for the terminating NULL in strtoks

---
 include/wormhole/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index 06d45f6..e243c9b 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2784,7 +2784,7 @@ strtoks(const char * const str, const char * const delim)
   char * tok = strtok_r(buf, delim, &saveptr);
   size_t ntoks = 0;
   while (tok) {
-    if (ntoks >= nptr_alloc) {
+    if ((ntoks + 1) >= nptr_alloc) { // keep room for the last NULL
       nptr_alloc += 32;
       char ** const r = realloc(tokens, sizeof(tokens[0]) * nptr_alloc);
       if (r == NULL)
-- 
2.43.0


From 4753075e0c369c4d186b9ec6b3881ab1ac2760ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 25/33] fix: qsbr_wait no longer follows a null pointer when a
 user registers on a fresh slot

---
 include/wormhole/lib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index e243c9b..2a26afd 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2866,6 +2866,11 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // a slot is visible to qsbr_wait before its user writes the pointer
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++) {
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      q->shards[i].ptrs[j] = (u64)(&q->target);
+  }
   return q;
 }
 
-- 
2.43.0


From d6106f6765c3342928e23c47b9c5c9c9e96d03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:59 +0000
Subject: [PATCH 26/33] fix: order a user's return from qsbr park or
 registration before its reads

---
 include/wormhole/lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index 2a26afd..a466b3c 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2914,6 +2914,7 @@ qsbr_register(struct qsbr * const q, struct qsbr_ref * const qref)
       ref->status = 1;
       ref->nbt = backtrace(ref->backtrace, QSBR_DEBUG_BTNR);
 #endif
+      cpu_mfence(); // qsbr_wait must see the user before it reads shared data
       return true;
     }
   } while (true);
@@ -2971,7 +2972,7 @@ qsbr_resume(struct qsbr_ref * const qref)
 #ifdef QSBR_DEBUG
   ref->status = 0xf; // resumed
 #endif
-  cpu_cfence();
+  cpu_mfence(); // qsbr_wait must see the user before it reads shared data
 }
 
 // waiters needs external synchronization
-- 
2.43.0


From 5c6d99847611c9ff12cb7e0a3a84a97dbc56025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:19 +0000
Subject: [PATCH 27/33] fix: qsbr_create reports a failed allocation instead of
 writing through NULL

---
 include/wormhole/lib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index a466b3c..56d9653 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -2865,6 +2865,8 @@ struct qsbr {
 qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
+  if (q == NULL)
+    return NULL;
   memset(q, 0, sizeof(*q));
   // a slot is visible to qsbr_wait before its user writes the pointer
   for (u32 i = 0; i < QSBR_SHARD_NR; i++) {
-- 
2.43.0


From b8028f7dcfb2bd978e7074b9d5d4c6174e8230c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:25 +0000
Subject: [PATCH 28/33] fix: a refused unsafe leaf split no longer unlocks the
 metalock it never took

---
 include/wormhole/wh.c     | 1 -
 include/wormhole/wh_int.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/wormhole/wh.c b/include/wormhole/wh.c
index d94c635..7aee063 100644
--- a/include/wormhole/wh.c
+++ b/include/wormhole/wh.c
@@ -2412,7 +2412,6 @@ whunsafe_split_meta(struct wormhole * const map, struct wormleaf * const leaf2)
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index da078ae..b4ca937 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2187,7 +2187,6 @@ whunsafe_split_meta(struct wormhole_int * const map, struct wormleaf_int * const
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
-- 
2.43.0


From ae01a78f91f9b8904e5e8c4eb2030a5a893981f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 29/33] fix: malloc_2d and calloc_2d report a failed allocation
 instead of writing through NULL

---
 include/wormhole/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index 56d9653..954ec89 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -641,6 +641,8 @@ malloc_2d(const size_t nr, const size_t size)
   const size_t size1 = nr * sizeof(void *);
   const size_t size2 = nr * size;
   void ** const mem = malloc(size1 + size2);
+  if (mem == NULL)
+    return NULL;
   u8 * const mem2 = ((u8 *)mem) + size1;
   for (size_t i = 0; i < nr; i++)
     mem[i] = mem2 + (i * size);
@@ -651,6 +653,8 @@ malloc_2d(const size_t nr, const size_t size)
 calloc_2d(const size_t nr, const size_t size)
 {
   void ** const ret = malloc_2d(nr, size);
+  if (ret == NULL)
+    return NULL;
   memset(ret[0], 0, nr * size);
   return ret;
 }
-- 
2.43.0


From 2d834c4832e53cdfbcf50ef57387e316e9652c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 30/33] fix: process_getaffinity_list must not write to a list
 without room

---
 include/wormhole/lib.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/wormhole/lib.c b/include/wormhole/lib.c
index 954ec89..121ebc9 100644
--- a/include/wormhole/lib.c
+++ b/include/wormhole/lib.c
@@ -906,12 +906,9 @@ process_getaffinity_list(const u32 max, u32 * const cores)
   const u32 nr_affinity = (u32)CPU_COUNT(&set);
   const u32 nr = nr_affinity < max ? nr_affinity : max;
   u32 j = 0;
-  for (u32 i = 0; i < process_ncpu; i++) {
+  for (u32 i = 0; (i < process_ncpu) && (j < nr); i++) {
     if (CPU_ISSET(i, &set))
       cores[j++] = i;
-
-    if (j >= nr)
-      break;
   }
   return j;
 }
-- 
2.43.0


From 065150cccf5ad42d9f4a0645ed7562288b73b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:30 +0000
Subject: [PATCH 31/33] fix: insert, delete and load the smallest and the
 largest key there is

---
 include/diva.hpp | 86 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 74 insertions(+), 12 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 3937619..897865f 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -260,6 +260,7 @@ private:
     InfiniteByteString bulk_load_left_key_, bulk_load_key_list_[infix_store_target_size];
 
     void AddTreeKey(const uint8_t *key, const uint32_t key_len);
+    bool IsOutermostTreeKey(const InfiniteByteString key) const;
     void InsertSimple(const InfiniteByteString key);
     void InsertSplit(const InfiniteByteString key);
     void DeleteMerge(void *const it_inp);
@@ -377,13 +378,13 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoadFixedLength(begin, end, key_len);
+
     uint8_t key[key_len];
     memset(key, 0x00, key_len);
     AddTreeKey(key, key_len);
     memset(key, 0xFF, key_len);
     AddTreeKey(key, key_len);
-
-    BulkLoadFixedLength(begin, end, key_len);
 }
 
 
@@ -411,11 +412,11 @@ Diva<int_optimized>::Diva(const uint32_t infix_size, const t_itr begin, const t_
     rng_.seed(rng_seed_);
     SetupScaleFactors();
 
+    BulkLoad(begin, end);
+
     uint8_t key[8];
     memset(key, 0x00, 8);
     AddTreeKey(key, 8);
-
-    BulkLoad(begin, end);
 }
 
 
@@ -460,6 +461,8 @@ inline void Diva<int_optimized>::Insert(std::string_view key) {
 template <bool int_optimized>
 inline void Diva<int_optimized>::Insert(const uint8_t *key, const uint32_t key_len) {
     const InfiniteByteString converted_key {key, static_cast<uint32_t>(key_len)};
+    if (IsOutermostTreeKey(converted_key))
+        return;
     if (rng_() % infix_store_target_size == 0)
         InsertSplit(converted_key);
     else 
@@ -749,6 +752,15 @@ inline bool Diva<int_optimized>::PointQuery(const uint8_t *input_key, const uint
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::AddTreeKey(const uint8_t *key, const uint32_t key_len) {
+    // The smallest and the largest key there is may also have been loaded
+    bool has_key;
+    if constexpr (int_optimized)
+        has_key = wh_int_probe(better_tree_int_, key, key_len);
+    else
+        has_key = wh_probe(better_tree_, key, key_len);
+    if (has_key)
+        return;
+
     InfixStore infix_store(scaled_sizes_[size_scalar_shrink_grow_sep], infix_size_);
     if constexpr (int_optimized)
         wh_int_put(better_tree_int_, key, key_len, &infix_store, sizeof(infix_store));
@@ -757,6 +769,61 @@ inline void Diva<int_optimized>::AddTreeKey(const uint8_t *key, const uint32_t k
 }
 
 
+// The smallest and the largest boundary key bound all others and stay in the
+// filter for good, so they are neither inserted nor deleted
+template <bool int_optimized>
+inline bool Diva<int_optimized>::IsOutermostTreeKey(const InfiniteByteString key) const {
+    if (key.length == 0 || (key.str[0] != 0x00 && key.str[0] != 0xFF))
+        return false;
+    for (uint32_t i = 1; i < key.length; i++) {
+        if (key.str[i] != key.str[0])
+            return false;
+    }
+
+    InfiniteByteString tree_key {};
+    InfixStore *dummy_infix_store_ptr;
+    uint32_t dummy_val;
+    bool res = false;
+    if constexpr (int_optimized) {
+        wormhole_int_iter it_int;
+        it_int.ref = better_tree_int_;
+        it_int.map = better_tree_int_->map;
+        it_int.leaf = nullptr;
+        it_int.is = 0;
+        wh_int_iter_seek(&it_int, key.str, key.length);
+        if (wh_int_iter_valid(&it_int)) {
+            wh_int_iter_peek_ref(&it_int, reinterpret_cast<const void **>(&tree_key.str), &tree_key.length,
+                                          reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
+            if (tree_key == key) {
+                key.str[0] == 0x00 ? wh_int_iter_skip1_rev(&it_int) : wh_int_iter_skip1(&it_int);
+                res = !wh_int_iter_valid(&it_int);
+            }
+        }
+        if (it_int.leaf)
+            wormleaf_int_unlock_read(it_int.leaf);
+    }
+    else {
+        wormhole_iter it;
+        it.ref = better_tree_;
+        it.map = better_tree_->map;
+        it.leaf = nullptr;
+        it.is = 0;
+        wh_iter_seek(&it, key.str, key.length);
+        if (wh_iter_valid(&it)) {
+            wh_iter_peek_ref(&it, reinterpret_cast<const void **>(&tree_key.str), &tree_key.length,
+                                  reinterpret_cast<void **>(&dummy_infix_store_ptr), &dummy_val);
+            if (tree_key == key) {
+                key.str[0] == 0x00 ? wh_iter_skip1_rev(&it) : wh_iter_skip1(&it);
+                res = !wh_iter_valid(&it);
+            }
+        }
+        if (it.leaf)
+            wormleaf_unlock_read(it.leaf);
+    }
+    return res;
+}
+
+
 template <bool int_optimized>
 inline void Diva<int_optimized>::InsertSplit(const InfiniteByteString key) {
     min_key_len_ = std::min(min_key_len_, key.length);
@@ -1513,6 +1580,8 @@ inline void Diva<int_optimized>::Delete(std::string_view input_key) {
 template <bool int_optimized>
 inline void Diva<int_optimized>::Delete(const uint8_t *input_key, const uint32_t input_key_len) {
     InfiniteByteString key {input_key, input_key_len};
+    if (IsOutermostTreeKey(key))
+        return;
 
     InfixStore *infix_store_ptr, *dummy_infix_store_ptr;
     uint32_t dummy_val;
@@ -2044,14 +2113,7 @@ template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
     uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
     memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    // The first key loaded may be the smallest key there is
-    bool has_min_key;
-    if constexpr (int_optimized)
-        has_min_key = wh_int_probe(better_tree_int_, key_copy, bulk_load_streaming_max_len_);
-    else
-        has_min_key = wh_probe(better_tree_, key_copy, bulk_load_streaming_max_len_);
-    if (!has_min_key)
-        AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
     AddTreeKey(key_copy, bulk_load_streaming_max_len_);
     delete[] key_copy;
-- 
2.43.0


From 4d47d3c9d6845acf86a16c9a134db3a0840d8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:17 +0000
Subject: [PATCH 32/33] fix: streaming bulk load of the smallest key leaked the
 first store

BulkLoadStreamingFinish added the outermost boundary keys before the last
store, whose left boundary may be the smallest key there is: the store
that had been added for it was overwritten and never released.
---
 include/diva.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/diva.hpp b/include/diva.hpp
index 897865f..e42c127 100644
--- a/include/diva.hpp
+++ b/include/diva.hpp
@@ -2111,13 +2111,6 @@ inline void Diva<int_optimized>::BulkLoadStreaming(const uint8_t *key, const uin
 
 template <bool int_optimized>
 inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
-    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
-    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
-    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
-    delete[] key_copy;
-
     if (bulk_load_streaming_ind_ > 0) {
         InfiniteByteString bulk_load_right_key {bulk_load_key_list_[bulk_load_streaming_ind_ - 1].str,
                                                 bulk_load_key_list_[bulk_load_streaming_ind_ - 1].length};
@@ -2148,6 +2141,14 @@ inline void Diva<int_optimized>::BulkLoadStreamingFinish() {
         AddTreeKey(bulk_load_left_key_.str, bulk_load_left_key_.length);
     }
 
+    // After the loaded keys, which may include the smallest and the largest key there is
+    uint8_t *key_copy = new uint8_t[bulk_load_streaming_max_len_];
+    memset(key_copy, 0x00, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    memset(key_copy, 0xFF, bulk_load_streaming_max_len_);
+    AddTreeKey(key_copy, bulk_load_streaming_max_len_);
+    delete[] key_copy;
+
     delete[] bulk_load_left_key_.str;
     bulk_load_streaming_ind_ = 0;
     bulk_load_left_key_ = {};
-- 
2.43.0


From 864c02b442f92ed52bec8df2275c2d8ee3fb0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 33/33] fix: leave the integer map alone when an unsafe range
 delete ends before it starts

---
 include/wormhole/wh_int.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/wormhole/wh_int.c b/include/wormhole/wh_int.c
index b4ca937..0db4f25 100644
--- a/include/wormhole/wh_int.c
+++ b/include/wormhole/wh_int.c
@@ -2593,6 +2593,8 @@ whsafe_int_delr(struct wormref_int * const ref, const struct kref * const start,
 whunsafe_int_delr(struct wormhole_int * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && (kref_compare(start, end) >= 0)) // do nothing if end <= start
+    return 0;
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf_int * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0

