From 4563af78068eb9f232b0d66f2f50c7f8e67c555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 01/11] fix: bit_vector_builder::reserve left the current-word
 pointer dangling

---
 bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..fbd94f3 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,10 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (m_size) {
+                // the buffer may have been reallocated
+                m_cur_word = &m_bits.back();
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From 626fe0ee48cc7a49d8678b6a8bb0537ace318e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 02/11] fix: shifts by 64 in get_bits, find_close and find_open

---
 bit_vector.hpp | 2 +-
 bp_vector.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index fbd94f3..9f0d590 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -259,7 +259,7 @@ namespace succinct {
             }
             uint64_t block = pos / 64;
             uint64_t shift = pos % 64;
-            uint64_t mask = -(len == 64) | ((1ULL << len) - 1);
+            uint64_t mask = (len == 64) ? uint64_t(-1) : ((1ULL << len) - 1);
             if (shift + len <= 64) {
                 return m_bits[block] >> shift & mask;
             } else {
diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..308b8b1 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -175,7 +175,7 @@ namespace succinct {
         uint64_t shift = (pos + 1) % 64;
         uint64_t shifted_word = m_bits[word_pos] >> shift;
         // Pad with "open"
-        uint64_t padded_word = shifted_word | (-!!shift & (~0ULL << (64 - shift)));
+        uint64_t padded_word = shifted_word | (shift ? (~0ULL << (64 - shift)) : 0);
         uint64_t byte_counts = broadword::byte_counts(padded_word);
 
         excess_t word_exc = 1;
@@ -236,7 +236,7 @@ namespace succinct {
         uint64_t word_pos = (pos / 64);
         uint64_t len = pos % 64;
         // Rest is padded with "close"
-        uint64_t shifted_word = -!!len & (m_bits[word_pos] << (64 - len));
+        uint64_t shifted_word = len ? (m_bits[word_pos] << (64 - len)) : 0;
         uint64_t byte_counts = broadword::byte_counts(shifted_word);
 
         excess_t word_exc = 1;
-- 
2.43.0


From 5a7ce7c505f341f1d13dfe7784c857a0731838e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 03/11] fix: unary_enumerator::skip0 after next() took the
 returned one for a zero

---
 bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 9f0d590..819de98 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -506,7 +506,7 @@ namespace succinct {
             {
                 uint64_t skipped = 0;
                 uint64_t pos_in_word = m_position % 64;
-                uint64_t buf = ~m_buf & (uint64_t(-1) << pos_in_word);
+                uint64_t buf = ~m_data[m_position / 64] & (uint64_t(-1) << pos_in_word);
                 uint64_t w = 0;
                 while (skipped + (w = broadword::popcount(buf)) <= k) {
                     skipped += w;
-- 
2.43.0


From ea350697b5ec72b6fb08aafe176f9a6caaad9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 04/11] fix: uninitialised scalars in default-constructed
 elias_fano and empty bp_vector

---
 bp_vector.hpp  | 2 ++
 elias_fano.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..6c0ef69 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From 309e9fa1f62e8d556c9ac5492a3e0f8a2d2419a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 05/11] fix: default-constructed containers did not report
 themselves empty

---
 cartesian_tree.hpp             | 2 +-
 elias_fano_compressed_list.hpp | 2 +-
 elias_fano_list.hpp            | 2 +-
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 rs_bit_vector.hpp              | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cartesian_tree.hpp b/cartesian_tree.hpp
index 8d62142..4d82910 100644
--- a/cartesian_tree.hpp
+++ b/cartesian_tree.hpp
@@ -143,7 +143,7 @@ namespace succinct {
 
         uint64_t size() const
         {
-            return m_bp.size() / 2 - 1;
+            return m_bp.size() ? m_bp.size() / 2 - 1 : 0;
         }
 
         template <typename Visitor>
diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 51d1848..f675362 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -49,7 +49,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_ef.num_ones() - 1;
+            return m_ef.num_ones() ? m_ef.num_ones() - 1 : 0;
         }
 
         void swap(elias_fano_compressed_list& other)
diff --git a/elias_fano_list.hpp b/elias_fano_list.hpp
index e8191c8..cd7a110 100644
--- a/elias_fano_list.hpp
+++ b/elias_fano_list.hpp
@@ -46,7 +46,7 @@ namespace succinct {
         }
 
         size_t sum() const {
-            return m_ef.size() - 1;
+            return m_ef.size() ? m_ef.size() - 1 : 0;
         }
 
         void swap(elias_fano_list& other)
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 89d5fb6..68170fd 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -53,7 +53,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_bit_vector& other)
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 9da8114..cf4872d 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -47,7 +47,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_vector& other)
diff --git a/rs_bit_vector.hpp b/rs_bit_vector.hpp
index 1197ffb..4b78443 100644
--- a/rs_bit_vector.hpp
+++ b/rs_bit_vector.hpp
@@ -41,7 +41,7 @@ namespace succinct {
         }
 
         inline uint64_t num_ones() const {
-            return *(m_block_rank_pairs.end() - 2);
+            return m_block_rank_pairs.size() ? *(m_block_rank_pairs.end() - 2) : 0;
         }
 
         inline uint64_t num_zeros() const {
-- 
2.43.0


From 024192a919f92b875bc5d3c9c3c03d5205c160ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 06/11] fix: fast_getline duplicated the last line of a file
 without a final newline

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..c2ffcdb 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break;
                 }
             }
             line += buffer;
-- 
2.43.0


From 242c908d12940db646c06850501578600e33a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 07/11] fix: line_iterator yielded an empty line before the
 first one

---
 util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c2ffcdb..822ee04 100644
--- a/util.hpp
+++ b/util.hpp
@@ -62,7 +62,9 @@ namespace succinct { namespace util {
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            increment();
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From 364a017f2f8bd48f6343fe975ab30f9ee73e0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 08/11] fix: int2nat/nat2int overflowed for the largest
 magnitudes

---
 util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index 822ee04..847fe80 100644
--- a/util.hpp
+++ b/util.hpp
@@ -249,16 +249,16 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return 2 * uint64_t(-(x + 1)) + 1;
         } else {
-            return uint64_t(2 * x);
+            return 2 * uint64_t(x);
         }
     }
 
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From 95b20900bd40d38af2bf567a77ab72e472a39298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 09/11] fix: excess table relied on plain char being signed

---
 bp_vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 308b8b1..b9a8fdb 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -37,7 +37,7 @@ namespace succinct {
                             m_fwd_min_idx[c] = uint8_t(i + 1);
                         }
                     }
-                    m_fwd_exc[c] = (char)excess;
+                    m_fwd_exc[c] = (int8_t)excess;
 
                     // populate m_bwd_pos and m_bwd_min
                     excess = 0;
@@ -59,7 +59,7 @@ namespace succinct {
                 }
             }
 
-            char m_fwd_exc[256];
+            int8_t m_fwd_exc[256];
 
             uint8_t m_fwd_pos[256][9];
             uint8_t m_bwd_pos[256][9];
-- 
2.43.0


From f812f16d3cbdf26217ea4fb3570c9d04b0fda591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:07 +0000
Subject: [PATCH 10/11] fix: uleq_step_8 compared bytes with different top bits
 wrongly

---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From 84c23d405a2b62395c999f921197761c62eea15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:55 +0000
Subject: [PATCH 11/11] fix: bp_vector of 2^31 or more parentheses truncated
 its length to 32 bits

---
 bp_vector.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index b9a8fdb..00b0741 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -305,7 +305,7 @@ namespace succinct {
     }
 
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != excess_t(size()));
+        assert(m_superblock_excess_min[node] != std::numeric_limits<excess_t>::max());
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -489,7 +489,7 @@ namespace succinct {
             cur_node = node_min_idx;
             while (cur_node < m_internal_nodes) {
                 cur_node *= 2;
-                // remember that past-the-end nodes are filled with size()
+                // remember that past-the-end nodes are filled with the largest excess
                 if (m_superblock_excess_min[cur_node + 1] <
                     m_superblock_excess_min[cur_node]) {
                     cur_node += 1;
@@ -677,7 +677,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = static_cast<excess_t>(size());
+            excess_t cur_super_min = std::numeric_limits<excess_t>::max();
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -685,7 +685,7 @@ namespace succinct {
                  ++block) {
                 cur_super_min = std::min(cur_super_min, superblock_excess + block_excess_min[block]);
             }
-            assert(cur_super_min >= 0 && cur_super_min < excess_t(size()));
+            assert(cur_super_min >= 0 && cur_super_min < std::numeric_limits<excess_t>::max());
 
             superblock_excess_min[m_internal_nodes + superblock] = cur_super_min;
         }
@@ -693,7 +693,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = static_cast<excess_t>(size());
+            superblock_excess_min[node] = std::numeric_limits<excess_t>::max();
         }
 
         // Fill bottom-up the other layers: each node updates the parent
-- 
2.43.0

