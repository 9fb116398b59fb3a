From f5dd06aa66eef61759dbc6c76f8804094d472926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:50 +0000
Subject: [PATCH 01/28] fix: train_test_split validation no longer overflows
 when train_size + test_size exceeds INT_MAX

---
 source/core/utilities/da_utils.cpp         | 4 ++--
 source/core/utilities/train_test_split.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..da538dc 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -361,10 +361,10 @@ da_status validate_parameters_stratified_shuffle(da_int m, da_int train_size,
                                                  const std::vector<da_int> &counts) {
     if (n_classes < 2)
         return da_status_invalid_input;
-    if (train_size + test_size > m)
-        return da_status_invalid_input;
     if (train_size < n_classes || test_size < n_classes)
         return da_status_invalid_input;
+    if (train_size > m - test_size)
+        return da_status_invalid_input;
     for (da_int i = 0; i < n_classes; ++i) {
         if (counts[i] < 2)
             return da_status_invalid_input;
diff --git a/source/core/utilities/train_test_split.cpp b/source/core/utilities/train_test_split.cpp
index e528bf0..7c83ddc 100644
--- a/source/core/utilities/train_test_split.cpp
+++ b/source/core/utilities/train_test_split.cpp
@@ -60,7 +60,7 @@ da_status validate_parameters_train_test_split(da_order order, da_int m, da_int
     if (train_size < 1 || test_size < 1) {
         return da_status_invalid_input;
     }
-    if ((train_size + test_size) > m) {
+    if (train_size > m - test_size) {
         return da_status_invalid_input;
     }
 
-- 
2.43.0


From e4b340145597b86fff26c5e9d6333a622d0f29b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:56 +0000
Subject: [PATCH 02/28] fix: interval_map rejects intervals enclosing existing
 ones and does not step before begin()

---
 source/core/data_management/interval_map.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..8ae65a6 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -117,6 +117,11 @@ template <class T> class interval_map {
             // lb or ub are already in the intervals => trying to create an overlap
             return da_status_invalid_input;
 
+        auto next = imap.lower_bound(interval(lb, lb));
+        if (next != imap.end() && next->first.lower <= ub)
+            // An existing interval lies inside the new bounds => trying to create an overlap
+            return da_status_invalid_input;
+
         imap.insert(std::make_pair(bounds, val));
         return da_status_success;
     }
@@ -131,8 +136,12 @@ template <class T> class interval_map {
         bool found = false;
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb == imap.end() || key_pair != it_lb->first) {
+            if (it_lb == imap.begin())
+                // All the intervals start after the key
+                return false;
             --it_lb;
+        }
         if (it_lb != imap.end()) {
             lb = it_lb->first.lower;
             ub = it_lb->first.upper;
@@ -149,8 +158,12 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb == imap.end() || key_pair != it_lb->first) {
+            if (it_lb == imap.begin())
+                // All the intervals start after the key
+                return this->end();
             --it_lb;
+        }
         iterator it(it_lb);
         if (it == this->end() || key < it->first.lower || key > it->first.upper)
             it = this->end();
@@ -166,7 +179,8 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb != imap.begin() &&
+            (it_lb == imap.end() || key_pair != it_lb->first))
             --it_lb;
         iterator it(it_lb);
         return it;
-- 
2.43.0


From 3cd9a8b0e7f83268f6373512ba7d23431fdf8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:56 +0000
Subject: [PATCH 03/28] fix: da_vector::push_back of one of the vector's own
 elements no longer reads freed memory

---
 source/core/utilities/da_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index c29e90d..f9f1b17 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -150,6 +150,8 @@ template <typename T> class da_vector {
     }
 
     void push_back(const T &val) {
+        // val may refer to an element of this vector, which is freed when growing
+        const T new_val = val;
         if (_size == _capacity) {
             _capacity <<= 1;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
@@ -160,7 +162,7 @@ template <typename T> class da_vector {
             free(_data);
             _data = new_data;
         }
-        _data[_size++] = val;
+        _data[_size++] = new_val;
     }
 
     // Append the values of vec onto the end of the vector
-- 
2.43.0


From f83e387bc627930f349102a9e96d127d79b06c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:23 +0000
Subject: [PATCH 04/28] fix: da_vector can grow after having been moved from

---
 source/core/utilities/da_vector.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/core/utilities/da_vector.hpp b/source/core/utilities/da_vector.hpp
index f9f1b17..9e71287 100644
--- a/source/core/utilities/da_vector.hpp
+++ b/source/core/utilities/da_vector.hpp
@@ -153,7 +153,8 @@ template <typename T> class da_vector {
         // val may refer to an element of this vector, which is freed when growing
         const T new_val = val;
         if (_size == _capacity) {
-            _capacity <<= 1;
+            // The capacity of a moved-from vector is 0
+            _capacity = _capacity > 0 ? _capacity << 1 : INIT_CAPACITY;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
             if (!new_data) {
                 throw std::bad_alloc(); // LCOV_EXCL_LINE
@@ -168,6 +169,8 @@ template <typename T> class da_vector {
     // Append the values of vec onto the end of the vector
     void append(const da_vector<T> &vec) {
         if (_size + vec.size() > _capacity) {
+            if (_capacity == 0)
+                _capacity = INIT_CAPACITY;
             while (_size + vec.size() > _capacity)
                 _capacity <<= 1;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
@@ -184,6 +187,8 @@ template <typename T> class da_vector {
 
     void append(const std::vector<T> &vec) {
         if (_size + vec.size() > _capacity) {
+            if (_capacity == 0)
+                _capacity = INIT_CAPACITY;
             while (_size + vec.size() > _capacity)
                 _capacity <<= 1;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
@@ -201,6 +206,8 @@ template <typename T> class da_vector {
     void resize(size_t new_size) {
         if (new_size > _capacity) {
             // Need to grow capacity
+            if (_capacity == 0)
+                _capacity = INIT_CAPACITY;
             while (_capacity < new_size)
                 _capacity <<= 1;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
@@ -223,6 +230,8 @@ template <typename T> class da_vector {
     // Reserve capacity without changing size
     void reserve(size_t new_capacity) {
         if (new_capacity > _capacity) {
+            if (_capacity == 0)
+                _capacity = INIT_CAPACITY;
             while (_capacity < new_capacity)
                 _capacity <<= 1;
             T *new_data = (T *)malloc(_capacity * sizeof(T));
-- 
2.43.0


From 05cc0cefd06988f9cf5f4e8d1c7ea330e8564ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:23 +0000
Subject: [PATCH 05/28] fix: LRUCache::set_size drops columns cached with the
 previous size and their buffer

---
 source/core/utilities/da_cache.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index a0428dd..bad9aec 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -163,6 +163,11 @@ template <typename T> class LRUCache {
       * @param len Number of columns for a single row that is being held
       */
     da_status set_size(const da_int &capacity, const da_int &len) {
+        // Columns cached with the previous size point into the buffer that is replaced here
+        items_.clear();
+        cache_.clear();
+        delete[] data_;
+        data_ = nullptr;
         capacity_ = capacity;
         len_ = len;
         active_ = (capacity_ > 0);
-- 
2.43.0


From 5888a5fecc4692010514097538c87da496d877d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:13 +0000
Subject: [PATCH 06/28] fix: interval_set insert/erase at INT_MIN/INT_MAX
 (overflowing bound arithmetic left overlapping or empty intervals)

---
 source/core/data_management/interval_set.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..1e69c35 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -63,11 +63,11 @@ da_status interval_set::insert(interval bounds) {
     }
 
     // Merge the lower and upper intervals with the inserted one if necessary
-    if (it_lower != iset.end() && it_lower->upper >= lb - 1) {
+    if (it_lower != iset.end() && it_lower->upper + 1 >= lb) {
         lb = it_lower->lower;
         iset.erase(it_lower);
     }
-    if (it_upper != iset.end() && it_upper->lower <= ub + 1) {
+    if (it_upper != iset.end() && it_upper->lower - 1 <= ub) {
         ub = it_upper->upper;
         iset.erase(it_upper);
     }
@@ -148,9 +148,9 @@ da_status interval_set::erase(interval bounds) {
         new_ub = it_lower->upper;
         if (it_lower->upper >= lb) {
             iset.erase(it_lower);
-            if (lb >= new_lb + 1)
+            if (lb > new_lb)
                 iset.insert({new_lb, lb - 1});
-            if (ub <= new_ub - 1)
+            if (ub < new_ub)
                 iset.insert({ub + 1, new_ub});
         }
     }
@@ -159,9 +159,9 @@ da_status interval_set::erase(interval bounds) {
         new_ub = it_upper->upper;
         if (it_upper->lower <= ub) {
             iset.erase(it_upper);
-            if (lb >= new_lb + 1)
+            if (lb > new_lb)
                 iset.insert({new_lb, lb - 1});
-            if (ub <= new_ub - 1)
+            if (ub < new_ub)
                 iset.insert({ub + 1, new_ub});
         }
     }
-- 
2.43.0


From 876b507c664764f3c6b14b664d3dcd4266051f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:13 +0000
Subject: [PATCH 07/28] fix: interval_set::erase with bounds enclosing every
 interval removed nothing

---
 source/core/data_management/interval_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 1e69c35..9d678f2 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -129,7 +129,7 @@ da_status interval_set::erase(interval bounds) {
         it_lower = iset.end();
 
     // Every interval between it_lower and it_upper in included in the inserted interval
-    bool is_included = it_lower == it_upper;
+    bool is_included = it_lower == it_upper && it_lower != iset.end();
     if (!is_included) {
         inter_set::iterator it = it_lower;
         if (it != iset.end())
-- 
2.43.0


From 53698e231d00adc40de676bbb1c67a728dbe7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:13 +0000
Subject: [PATCH 08/28] fix: histogram thresholds never exceed the number of
 bins (accumulated rounding wrote past the feature's thresholds)

---
 source/core/decision_forest/common/histogram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index cae7a0d..6f78edf 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -54,7 +54,8 @@ void bins<T>::compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int
     da_int bin_idx = 0;
     T q = q_step;
     da_int thresh_start_idx = feat_idx * (max_bin - 1);
-    while (q <= (T)1.0 - (T)0.001 * q_step) {
+    // q accumulates rounding errors: do not let them create more than max_bin bins
+    while (bin_idx < max_bin - 1 && q <= (T)1.0 - (T)0.001 * q_step) {
         da_int threshold_idx = (da_int)std::round(q * n_elem) - 1;
         da_int r_idx = threshold_idx;
         // Explore the right side of the threshold for flat regions
-- 
2.43.0


From 94c5d1cb98e39dff6d5622ef941f4944419e055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 09/28] fix: quantile refuses NaN levels instead of selecting
 with an undefined index

---
 source/core/basic_statistics/order_statistics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/basic_statistics/order_statistics.cpp b/source/core/basic_statistics/order_statistics.cpp
index bb3d886..0ffb488 100644
--- a/source/core/basic_statistics/order_statistics.cpp
+++ b/source/core/basic_statistics/order_statistics.cpp
@@ -113,7 +113,8 @@ inline da_status get_quantile_indices(const T *q, da_int n_q, da_int length,
                                       da_quantile_type quantile_type,
                                       std::vector<double> &h) {
     for (da_int i = 0; i < n_q; ++i) {
-        if (q[i] < 0 || q[i] > 1)
+        // Written so that NaN levels are refused too
+        if (!(q[i] >= 0 && q[i] <= 1))
             return da_status_invalid_input;
 
         double qi = static_cast<double>(q[i]);
-- 
2.43.0


From 08f06e133d1e9804982280cfa212f7b458f46dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:01 +0000
Subject: [PATCH 10/28] fix: quantile type 6 no longer overflows da_int for the
 longest slices

---
 source/core/basic_statistics/order_statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/basic_statistics/order_statistics.cpp b/source/core/basic_statistics/order_statistics.cpp
index 0ffb488..09692a0 100644
--- a/source/core/basic_statistics/order_statistics.cpp
+++ b/source/core/basic_statistics/order_statistics.cpp
@@ -137,7 +137,7 @@ inline da_status get_quantile_indices(const T *q, da_int n_q, da_int length,
             h[i] = denoise_cast<T>(length * qi) + 0.5;
             break;
         case da_quantile_type_6:
-            h[i] = denoise_cast<T>((length + 1) * qi);
+            h[i] = denoise_cast<T>((length + 1.0) * qi);
             break;
         case da_quantile_type_7:
             h[i] = denoise_cast<T>((length - 1) * qi) + 1;
-- 
2.43.0


From 84c071ac77d65a1df7600429f9ce429ec7d7634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 11/28] fix: char_to_num no longer reads past the terminator
 when the decimal or exponent character is unset

---
 source/core/csv/char_to_num.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index af07335..6493187 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -144,7 +144,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (*p != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
@@ -174,7 +174,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (*p != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
@@ -298,7 +298,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (*p != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
@@ -328,7 +328,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (*p != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
-- 
2.43.0


From 3e3d4e9d12b9d7d0ee7c48ead8d3fb56ce0343c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 12/28] fix: char_to_num saturates the exponent instead of
 overflowing int (1e4294967296 was read as 1)

---
 source/core/csv/char_to_num.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 6493187..1bd13a4 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -75,6 +75,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     int num_digits;
     int num_decimals;
     int max_digits = 17;
+    const int max_exponent = 100000000;
     int n;
 
     if (maybe_int != NULL)
@@ -191,9 +192,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
-            num_digits++;
+        while (isdigit_ascii(*p)) {
+            // Saturate: larger exponents over- or underflow in any case
+            if (n < max_exponent)
+                n = n * 10 + (*p - '0');
+            num_digits = 1;
             p++;
         }
 
@@ -254,6 +257,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     int num_digits;
     int num_decimals;
     int max_digits = 9;
+    const int max_exponent = 100000000;
     int n;
 
     if (maybe_int != NULL)
@@ -345,9 +349,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
-            num_digits++;
+        while (isdigit_ascii(*p)) {
+            // Saturate: larger exponents over- or underflow in any case
+            if (n < max_exponent)
+                n = n * 10 + (*p - '0');
+            num_digits = 1;
             p++;
         }
 
-- 
2.43.0


From f94deaf79d1e461fb55b7394c20250fed84d06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 13/28] fix: char_to_num does not count leading zeros as
 significant digits (0.00000000000000000123 was read as 0)

---
 source/core/csv/char_to_num.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 1bd13a4..e009198 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -74,6 +74,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     char *p = (char *)str;
     int num_digits;
     int num_decimals;
+    bool has_digits = false;
     int max_digits = 17;
     const int max_exponent = 100000000;
     int n;
@@ -133,9 +134,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
+        has_digits = true;
         if (num_digits < max_digits) {
             *number = *number * 10. + (*p - '0');
-            num_digits++;
+            num_digits += (*number != 0); // leading zeros are not significant
         } else {
             ++exponent;
         }
@@ -151,9 +153,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         p++;
 
         while (num_digits < max_digits && isdigit_ascii(*p)) {
+            has_digits = true;
             *number = *number * 10. + (*p - '0');
             p++;
-            num_digits++;
+            num_digits += (*number != 0); // leading zeros are not significant
             num_decimals++;
         }
 
@@ -164,7 +167,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!has_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
@@ -256,6 +259,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     char *p = (char *)str;
     int num_digits;
     int num_decimals;
+    bool has_digits = false;
     int max_digits = 9;
     const int max_exponent = 100000000;
     int n;
@@ -290,9 +294,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
+        has_digits = true;
         if (num_digits < max_digits) {
             *number = *number * 10.f + (*p - '0');
-            num_digits++;
+            num_digits += (*number != 0); // leading zeros are not significant
         } else {
             ++exponent;
         }
@@ -308,9 +313,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         p++;
 
         while (num_digits < max_digits && isdigit_ascii(*p)) {
+            has_digits = true;
             *number = *number * 10.f + (*p - '0');
             p++;
-            num_digits++;
+            num_digits += (*number != 0); // leading zeros are not significant
             num_decimals++;
         }
 
@@ -321,7 +327,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!has_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
-- 
2.43.0


From 3c11abd7c839db8b0ae52253cb6ddd6574b0bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:25 +0000
Subject: [PATCH 14/28] fix: char_to_num refuses floating point fields with
 trailing characters (2024-01-02 was read as 2024)

---
 source/core/csv/char_to_num.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index e009198..7478b7b 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -240,6 +240,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
@@ -400,6 +404,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
-- 
2.43.0


From 60b113aa3dc7864156e2d65f87e2e22e26006c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:04 +0000
Subject: [PATCH 15/28] fix: setting a real option to NaN is refused (every
 bounds check passed)

---
 source/core/utilities/options.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..12573d6 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -256,12 +256,13 @@ class OptionBase {
                     return da_status_option_invalid_bounds;
                 }
             }
-            if (has_nan) {
-                if (std::isnan(static_cast<double>(value))) {
-                    errmsg = "Option '" + name + "': Invalid value.";
-                    return da_status_option_invalid_value;
-                }
-            }
+        }
+
+        // NaN passes every comparison with the bounds
+        if (std::numeric_limits<T>::has_quiet_NaN &&
+            std::isnan(static_cast<double>(value))) {
+            errmsg = "Option '" + name + "': Invalid value.";
+            return da_status_option_invalid_value;
         }
 
         // Quick check
-- 
2.43.0


From da47cc0bb80d9a7c42a3ae9f56bf1fa120e6e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:44 +0000
Subject: [PATCH 16/28] fix: loading an option from a damaged file is refused
 when the value could not be set

---
 source/core/utilities/options.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index 12573d6..403ae1a 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -518,7 +518,14 @@ template <typename T> class OptionNumeric : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        T loaded;
+        da_status status = buffer.deserialize_data(loaded);
+        if (status != da_status_success)
+            return status;
+        // A damaged file must not introduce a value that could not be set
+        if (set(loaded, this->setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
@@ -762,7 +769,14 @@ class OptionString : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        string loaded;
+        da_status status = buffer.deserialize_data(loaded);
+        if (status != da_status_success)
+            return status;
+        // A damaged file must not introduce a value that could not be set
+        if (set(loaded, this->setby) != da_status_success)
+            return da_status_invalid_file_data;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
-- 
2.43.0


From 430a318f2d61c11314026b4993fe45297e54a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 17/28] fix: interpolation values are read with the leading
 dimension they were passed with

ldy was validated and stored but never used, and values and derivatives shared one
leading dimension and storage order.
---
 .../cubic_spline/cubic_spline.cpp             | 30 ++++++++++++-------
 .../interpolation/interpolation_generic.hpp   | 15 ++++++----
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 7e577ff..ce40835 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -161,8 +161,8 @@ template <typename T> void cubic_spline<T>::coeffs_from_second_derivatives() {
         da_int start_dim = d * 4 * (this->n_sites - 1);
         for (da_int i = 0; i < this->n_sites - 1; i++) {
             da_int y_idx = this->storage_order == (da_int)row_major
-                               ? (i * this->dim_y + d)
-                               : (d * this->n_sites + i);
+                               ? (i * this->ldy + d)
+                               : (d * this->ldy + i);
             coeffs[start_dim + 4 * i + 3] =
                 (z[start_z + i + 1] - z[start_z + i]) / (6 * this->dx[i]); // A_i
             coeffs[start_dim + 4 * i + 2] = z[start_z + i] / 2;            // B_i
@@ -308,17 +308,24 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
                         "Memory allocation error");
     }
 
-    if (this->storage_order == column_major || this->dim_y <= 1) {
+    // Strides between consecutive sites and consecutive dimensions
+    bool y_cols = this->storage_order == column_major;
+    bool yp_cols = this->storage_order_deriv == column_major;
+    da_int y_site = y_cols ? 1 : this->ldy, y_dim = y_cols ? this->ldy : 1;
+    da_int yp_site = yp_cols ? 1 : this->ldy_deriv, yp_dim = yp_cols ? this->ldy_deriv : 1;
+
+    if (y_cols || this->dim_y <= 1) {
         for (da_int d = 0; d < this->dim_y; d++) {
             da_int start_dim = d * 4 * (this->n_sites - 1);
-            da_int start_y = d * this->n_sites;
+            da_int start_y = d * y_dim;
+            da_int start_yp = d * yp_dim;
             da_int start_dy = d * (this->n_sites - 1);
 
             for (da_int i = 0; i < this->n_sites - 1; i++) {
                 T h_i = this->dx[i];
-                T y_i = this->y[start_y + i];
-                T yp_i = this->y_deriv[start_y + i];
-                T yp_ip1 = this->y_deriv[start_y + i + 1];
+                T y_i = this->y[start_y + i * y_site];
+                T yp_i = this->y_deriv[start_yp + i * yp_site];
+                T yp_ip1 = this->y_deriv[start_yp + (i + 1) * yp_site];
                 T dy_i = this->dy[start_dy + i];
 
                 T h_i2 = h_i * h_i;
@@ -334,7 +341,8 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
         }
     } else {
         for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int start_y = i * this->dim_y;
+            da_int start_y = i * y_site;
+            da_int start_yp = i * yp_site;
             da_int start_dim = i * 4;
 
             T h_i = this->dx[i];
@@ -343,9 +351,9 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
 
             for (da_int d = 0; d < this->dim_y; d++) {
                 da_int d_start = d * (this->n_sites - 1);
-                T y_i = this->y[start_y + d];
-                T yp_i = this->y_deriv[start_y + d];
-                T yp_ip1 = this->y_deriv[start_y + this->dim_y + d];
+                T y_i = this->y[start_y + d * y_dim];
+                T yp_i = this->y_deriv[start_yp + d * yp_dim];
+                T yp_ip1 = this->y_deriv[start_yp + yp_site + d * yp_dim];
                 T dy_i = this->dy[d_start + i];
 
                 coeffs[start_dim + 4 * d * (this->n_sites - 1) + 0] = y_i;  // D_i
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..c2ce9ca 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -44,7 +44,9 @@ template <typename T> class interpolation_generic {
     // Dimensions
     da_int n_sites = 0; // Number of interpolation sites (data points)
     da_int dim_y = 0;   // number of dimensions of interpolation values y
-    da_int ldy = 0;
+    // Leading dimension and storage order of the values and of the derivatives
+    da_int ldy = 0, ldy_deriv = 0;
+    da_order storage_order_deriv = column_major;
     // Interpolation points (x_i, y_i)
     da_order storage_order = column_major;
     T *x_internal = nullptr;
@@ -263,10 +265,9 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     da_int check_data, sto;
     this->opts->get("storage order", opt_order, sto);
     this->opts->get("check data", check_data_str, check_data);
-    this->storage_order = da_order(sto);
 
     da_status status = ARCH::da_utils::check_2D_array(
-        check_data != 0, this->storage_order, this->err, n, dim, y_data, ldy_data,
+        check_data != 0, da_order(sto), this->err, n, dim, y_data, ldy_data,
         "n_sites", "dim", "y_data", "ldy_data", 2, 1);
     if (status != da_status_success)
         return status;
@@ -276,7 +277,8 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
         this->dim_y = dim;
-        this->ldy = ldy_data;
+        this->ldy_deriv = ldy_data;
+        this->storage_order_deriv = da_order(sto);
         y_deriv = y_data;
         derivatives_set = true;
     } else {
@@ -290,11 +292,12 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
         // Copy usr values and pointer
         this->dim_y = dim;
         this->ldy = ldy_data;
+        this->storage_order = da_order(sto);
         y = y_data;
 
         if (storage_order == column_major) {
             for (da_int j = 0; j < dim; j++) {
-                da_int start_y = j * this->n_sites;
+                da_int start_y = j * this->ldy;
                 da_int start_dy = j * (this->n_sites - 1);
 #pragma omp simd
                 for (da_int i = 0; i < this->n_sites - 1; i++)
@@ -306,7 +309,7 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
             for (da_int i = 0; i < this->n_sites - 1; i++) {
 #pragma omp simd
                 for (da_int j = 0; j < dim; j++)
-                    dy[j * (n_sites - 1) + i] = y[(i + 1) * dim_y + j] - y[i * dim_y + j];
+                    dy[j * (n_sites - 1) + i] = y[(i + 1) * ldy + j] - y[i * ldy + j];
             }
         }
         values_set = true;
-- 
2.43.0


From 24118e8f4a9168e1c9e19077b19cefc5e67ee5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 18/28] fix: interpolation data of different dimensions is no
 longer combined

Values, derivatives and boundary conditions set with different numbers of dimensions
were read out of bounds.
---
 source/core/interpolation/cubic_spline/cubic_spline.cpp | 3 +++
 source/core/interpolation/interpolation_generic.hpp     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index ce40835..92e9bc6 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -238,6 +238,9 @@ template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
         return da_error(
             this->err, da_status_out_of_date,
             "Boundary conditions must be set for custom spline interpolation.");
+    if (left_bc.size() != (std::size_t)this->dim_y)
+        return da_error(this->err, da_status_out_of_date,
+                        "The boundary conditions must have the dimension of the values.");
 
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index c2ce9ca..5881cfb 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -276,6 +276,8 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
 
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
+        if (dim != this->dim_y)
+            values_set = false; // The values have another number of dimensions
         this->dim_y = dim;
         this->ldy_deriv = ldy_data;
         this->storage_order_deriv = da_order(sto);
@@ -290,6 +292,8 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
         }
 
         // Copy usr values and pointer
+        if (dim != this->dim_y)
+            derivatives_set = false; // So have the derivatives
         this->dim_y = dim;
         this->ldy = ldy_data;
         this->storage_order = da_order(sto);
-- 
2.43.0


From cb4a9135d127abbb8c8e567acfbfb91766af6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 19/28] fix: search_cells returns the cell containing the point

The position was converted to da_int before being clamped (undefined, and the first
cell in practice, far to the right), and rounding of the index could skip cells.
---
 .../interpolation/interpolation_generic.hpp   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 5881cfb..43e1e00 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -344,18 +344,34 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
         T dx_u = dx[0];
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = static_cast<da_int>((x - this->x_start) / dx_u);
-            cells[i] = std::clamp(idx, (da_int)0, this->n_sites - 2);
+            T pos = (x - this->x_start) / dx_u;
+            // Points outside of the sites belong to the first or last cell
+            da_int idx = 0;
+            if (pos >= (T)(this->n_sites - 2))
+                idx = this->n_sites - 2;
+            else if (pos > 0)
+                idx = static_cast<da_int>(pos);
+            cells[i] = idx;
         }
     } else {
         T i_dx_u = (T)(index_size - 2) / x_range;
         // Binary search inside the indexed interval.
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = std::clamp((da_int)((x - x_start) * i_dx_u), (da_int)0,
-                                    (da_int)(index_size - 2));
+            T pos = (x - x_start) * i_dx_u;
+            // Points outside of the sites belong to the first or last cell
+            da_int idx = 0;
+            if (pos >= (T)(index_size - 2))
+                idx = index_size - 2;
+            else if (pos > 0)
+                idx = static_cast<da_int>(pos);
             da_int left = interval_index_lo[idx];
             da_int right = interval_index_up[idx];
+            // Rounding may leave x just outside of the indexed interval
+            if (x < this->x_sites[left])
+                left = 0;
+            if (x >= this->x_sites[right])
+                right = n_sites - 1;
             while (right - left > 1) {
                 da_int mid = (left + right) / 2;
                 if (x < this->x_sites[mid]) {
-- 
2.43.0


From 76a9b6ba87b34366c1e15c505d7b9c593f2a16ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 20/28] fix: uniform sites set after a refused set of sites use
 their own spacing

resize kept the stale differences. Sites that are NaN are refused as not increasing.
---
 source/core/interpolation/interpolation_generic.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 43e1e00..e94363e 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -153,7 +153,7 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
     // (all dx elements are strictly positive)
     for (da_int i = 0; i < n_sites - 1; i++) {
         dx[i] = x_sites[i + 1] - x_sites[i];
-        if (dx[i] <= 0.)
+        if (!(dx[i] > 0.))
             return da_error(
                 this->err, da_status_invalid_input,
                 "All sites must be provided in strictly increasing order. x[" +
@@ -203,7 +203,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     if (n < 2)
         return da_error(this->err, da_status_invalid_input,
                         "Number of interpolation sites must be at least 2.");
-    if (x_end <= x_start)
+    if (!(x_end > x_start))
         return da_error(this->err, da_status_invalid_input,
                         "x_end must be greater than x_start.");
 
@@ -219,7 +219,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     x_usr = nullptr;
     try {
         x_internal = new T[n_sites];
-        dx.resize(n_sites - 1, dx_val);
+        dx.assign(n_sites - 1, dx_val);
     } catch (std::bad_alloc const &) {                     // LCOV_EXCL_LINE
         return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
-- 
2.43.0


From a2039499534bd69dcd2b4c8c0642b2c60f9bd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 21/28] fix: an invalid interpolation model is not recorded as
 selected

Later calls dereferenced the missing implementation.
---
 source/core/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 9b8ef7e..8785898 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -50,7 +50,6 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
         return da_error(this->err, da_status_invalid_input,
                         "Cannot change the interpolation model once it has been set.");
 
-    this->model = model;
     switch (model) {
     case da_interpolation_model::interpolation_cubic_spline:
         interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
@@ -61,6 +60,7 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
                         "The model selected is invalid.");
         break;
     }
+    this->model = model;
 
     return da_status_success;
 }
-- 
2.43.0


From 90ef661b96563abcf4bc9652fb6335f8b5f1445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 22/28] fix: counts above INT_MAX in saved models and user data
 are handled or refused

---
 source/core/utilities/model_persistence.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7851510..91b0be0 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -323,7 +323,7 @@ da_status serialization_buffer::deserialize_container_impl(Container &data) {
 
     if constexpr (is_valid_scalar<ValT> || is_valid_container<ValT>) {
         // Load each element through read_ptr (scalar conversion or recursive container load).
-        for (da_int i = 0; i < vec_size; ++i) {
+        for (int_save_t i = 0; i < vec_size; ++i) {
             status = deserialize_data(data[i]);
             if (status != da_status_success)
                 return status;
@@ -409,7 +409,11 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
 
     // Save element count first so the payload can be loaded as a vector<T>.
     // If nullptr make sure that the vector size saved is 0.
-    da_int vector_size = X != nullptr ? m * n : 0;
+    int_save_t n_elements =
+        X != nullptr ? static_cast<int_save_t>(m) * static_cast<int_save_t>(n) : 0;
+    if (n_elements > static_cast<int_save_t>(std::numeric_limits<da_int>::max()))
+        return da_status_invalid_input;
+    da_int vector_size = static_cast<da_int>(n_elements);
     status = dispatch_buffer_io(vector_size);
     if (status != da_status_success)
         return status;
@@ -426,14 +430,14 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
     // Serialize only logical elements and skip any stride padding when ldx > m (ldx > n for row major).
     if (order == column_major) {
         for (da_int i = 0; i < n; ++i) {
-            const T *col_ptr = X + i * ldx;
+            const T *col_ptr = X + static_cast<int_save_t>(i) * ldx;
             status = serialize_user_data_impl(col_ptr, m);
             if (status != da_status_success)
                 return status;
         }
     } else if (order == row_major) {
         for (da_int i = 0; i < m; ++i) {
-            const T *row_ptr = X + i * ldx;
+            const T *row_ptr = X + static_cast<int_save_t>(i) * ldx;
             status = serialize_user_data_impl(row_ptr, n);
             if (status != da_status_success)
                 return status;
-- 
2.43.0


From eb14605413b616d319b1c13da980ebe363c7227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 23/28] fix: histogram partition reads the binned data with its
 own stride

---
 .../decision_forest/tree/decision_tree_training_partition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index 6a3f8ff..d829d37 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -96,7 +96,7 @@ da_int decision_tree<T>::partition_samples_hist_ordered(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
@@ -120,7 +120,7 @@ da_int decision_tree<T>::partition_samples_hist_onevall(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
-- 
2.43.0


From bc3aae91b5dea71e29a6627b0e2ea0adaf03244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 24/28] fix: training and prediction agree on samples equal to
 a split threshold

---
 .../tree/decision_tree_training_partition.hpp          |  4 ++--
 .../tree/decision_tree_training_split.hpp              | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index d829d37..0f6aa47 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -56,9 +56,9 @@ da_int decision_tree<T>::partition_samples_raw_continuous(const node<T> &nd) {
         da_int t_sidx = samples_idx[tail_idx];
         T head_val = X[start_col + h_sidx];
         T tail_val = X[start_col + t_sidx];
-        if (head_val <= nd.x_threshold)
+        if (head_val < nd.x_threshold)
             head_idx += 1;
-        else if (tail_val > nd.x_threshold)
+        else if (tail_val >= nd.x_threshold)
             tail_idx -= 1;
         else {
             std::swap(samples_idx[head_idx], samples_idx[tail_idx]);
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index aa49997..01d52c5 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -108,7 +108,8 @@ bool decision_tree<T>::update_split_sorted(da_int sidx, da_int &next_idx, da_int
     bool end_split_search = false;
     next_idx = sidx;
     while (next_idx + 1 <= end_idx &&
-           std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh) {
+           (std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh ||
+            fv[next_idx + 1] == fv[sidx])) {
         next_idx++;
     }
     if (next_idx >= end_idx)
@@ -395,8 +396,11 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                               (current_node.score - split_score);
         if (split_score < sp.score && split_improvement > min_improvement) {
             sp.score = split_score;
-            sp.threshold =
-                (ws.feature_values[next_idx] + ws.feature_values[next_idx + 1]) / 2;
+            T low = ws.feature_values[next_idx], high = ws.feature_values[next_idx + 1];
+            sp.threshold = (low + high) / 2;
+            // the rounded midpoint must still separate the 2 values
+            if (!(sp.threshold > low && sp.threshold <= high))
+                sp.threshold = high;
             sp.right_score = right_score;
             sp.left_score = left_score;
             sp.prop = continuous;
-- 
2.43.0


From 2982c3917afe542b5d77e06142099cf789633816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 25/28] fix: samples below the minimum node size are counted
 once when looking for a split

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 01d52c5..136a034 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -384,7 +384,8 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                             ns_left, ns_right, left_score, right_score, split_score,
                             ws.feature_values, ws, samp);
         if (ns_left < min_node_sample) {
-            ++sidx;
+            // the samples up to next_idx are already counted
+            sidx = next_idx + 1;
             continue;
         }
         if (ns_right < min_node_sample)
-- 
2.43.0


From b741810eed61feddb82d8a1d30aaef809d7ec3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 26/28] fix: one-vs-all splits of bootstrapped trees count the
 sample weights

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 136a034..56a27ec 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -328,7 +328,8 @@ void decision_tree<T>::split_raw_onevall(const node<T> &current_node, da_int fea
         da_int idx = samp[i];
         da_int c = y[idx];
         da_int cat = std::round(ws.feature_values[i]);
-        ws.cat_feat_table[cat * n_class + c]++;
+        ws.cat_feat_table[cat * n_class + c] +=
+            bootstrap ? bootstrap_sample_frequency[idx] : 1;
     }
 
     for (da_int cat = 0; cat < cat_feat[feat_idx]; cat++) {
-- 
2.43.0


From 5f88120076e3847469f375c3a941079ec718c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 27/28] fix: class probabilities follow categorical splits

---
 .../tree/decision_tree_inference.hpp          | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..2628fca 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -100,8 +100,8 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
                                           da_int ldy, da_int mode) {
 
     const T *X_test_temp;
-    T *utility_ptr1;
-    T *utility_ptr2;
+    T *utility_ptr1 = nullptr;
+    T *utility_ptr2 = nullptr;
     da_int ldx_test_temp;
     T *y_proba_pred_temp;
     da_int ldy_proba_pred_temp;
@@ -152,13 +152,15 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
         da_int current_node_idx = 0;
         while (!current_node->is_leaf) {
             T feat_val = X_test_temp[ldx_test_temp * current_node->feature + i];
-            if (feat_val < current_node->x_threshold) {
-                current_node_idx = current_node->left_child_idx;
-                current_node = &tree[current_node_idx];
-            } else {
-                current_node_idx = current_node->right_child_idx;
-                current_node = &tree[current_node_idx];
-            }
+            bool go_left;
+            if (current_node->prop == continuous ||
+                current_node->prop == categorical_ordered)
+                go_left = feat_val < current_node->x_threshold;
+            else
+                go_left = (da_int)std::round(feat_val) == current_node->category;
+            current_node_idx = go_left ? current_node->left_child_idx
+                                       : current_node->right_child_idx;
+            current_node = &tree[current_node_idx];
         }
         for (da_int j = 0; j < n_class; j++)
             y_proba_pred_temp[ldy_proba_pred_temp * j + i] =
-- 
2.43.0


From f1a886efa3c15b628c6b2a7de99f7e2d42352c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:31 +0000
Subject: [PATCH 28/28] fix: log probabilities report the errors of the
 probabilities

---
 .../decision_forest/forest/decision_forest_inference.hpp     | 5 ++++-
 source/core/decision_forest/tree/decision_tree_inference.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..081f133 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -249,7 +249,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status;
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index 2628fca..e3834cc 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -185,7 +185,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
-- 
2.43.0

