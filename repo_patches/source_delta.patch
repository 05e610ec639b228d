From c60e83c48c6c5f3bc489a6c3894c97fdeccf665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 01/58] fix: set the thread pool's stop flag while holding its
 mutex

stop_all changed the flag and notified without holding the mutex, so a worker
that had just found the queue empty could go to sleep after the notification
and never wake: stop_all, restart and the destructor then hang in join.
---
 src/core_thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index 16387c2..c29e45b 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -85,7 +85,10 @@ public:
     {
         if (! stop)
         {
-            stop = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex);
+                stop = true;
+            }
             condition.notify_all();
 
             for (auto& thread : threads)
-- 
2.43.0


From 63ebb6be632c59baeaad85658632c5f4b8a90943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:14 +0000
Subject: [PATCH 02/58] fix: deliver an exception thrown by a pooled task
 through its future

The exception escaped the worker thread and terminated the program, although
the same map run serially or with std::async hands it to the caller.
---
 src/core_thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index c29e45b..ebc7211 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -107,7 +107,13 @@ public:
 
         enqueue_internal([fn, promised_result, args...]
         {
-            promised_result->set_value(fn(args...));
+            try {
+                promised_result->set_value(fn(args...));
+            }
+            catch (...)
+            {
+                promised_result->set_exception(std::current_exception());
+            }
         });
         return promised_result->get_future();
     }
-- 
2.43.0


From f8eb3c8f221a7648be9426b823eec36d68e3d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 03/58] fix: an empty access pattern has size zero and iterates
 over nothing

A pattern that is empty on some axis but not on the first one visited
indexes outside of itself, and one with start == final and jumps > 1
reported an enormous shape.
---
 src/core_ndarray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 5e37083..993b88e 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -553,7 +553,7 @@ public:
 
         for (std::size_t n = 0; n < Rank; ++n)
         {
-            s[n] = (final[n] - start[n] - 1) / jumps[n] + 1;
+            s[n] = start[n] < final[n] ? (final[n] - start[n] - 1) / jumps[n] + 1 : 0;
         }
         return s;
     }
@@ -716,7 +716,7 @@ public:
 
 
     //=========================================================================
-    iterator begin() const { return { *this, start }; }
+    iterator begin() const { return { *this, empty() ? final : start }; }
     iterator end() const { return { *this, final }; }
 
 
-- 
2.43.0


From f2fd861d1c86ae69bbe40b2a65cb6ff56e93cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 04/58] fix: a strided selection that ends inside the array is
 within it

The last index generated was overestimated by one stride, so that e.g.
every other element of an array of odd length could not be selected.
---
 src/core_ndarray.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 993b88e..f87c254 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -704,12 +704,20 @@ public:
      */
     bool within(const shape_t<Rank>& parent_shape) const
     {
-        auto zero = make_uniform_index<Rank>(0);
-        auto t1 = map_index(zero);
-        auto t2 = map_index(shape().last_index());
+        auto count = shape();
 
-        return (t1 >= zero && t1 <= parent_shape.last_index() &&
-                t2 >= zero && t2 <= parent_shape.last_index());
+        for (std::size_t n = 0; n < Rank; ++n)
+        {
+            if (start[n] > parent_shape[n])
+            {
+                return false;
+            }
+            if (count[n] > 0 && start[n] + (count[n] - 1) * jumps[n] >= parent_shape[n])
+            {
+                return false;
+            }
+        }
+        return true;
     }
 
 
-- 
2.43.0


From 9107e58024c5d11a5d582b0e5197bd441bd28eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 05/58] fix: nd::arange counts the elements of a range the step
 does not divide

---
 src/core_ndarray.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index f87c254..50b05d8 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -2525,14 +2525,24 @@ auto nd::arange(int count)
  */
 auto nd::arange(int start, int final, int step)
 {
-    if (step == 0 || final / step - start / step < 0)
+    if (step == 0)
+    {
+        throw std::invalid_argument("nd::range");
+    }
+    auto count = (final - start) / step;
+
+    if ((final - start) % step != 0 && (final > start) == (step > 0))
+    {
+        ++count;
+    }
+    if (count < 0)
     {
         throw std::invalid_argument("nd::range");
     }
     return make_array([=] (auto index)
     {
         return start + index[0] * step;
-    }, nd::make_shape(final / step - start / step));
+    }, nd::make_shape(count));
 }
 
 
-- 
2.43.0


From c7f32647130e579a077812441c1a362c7e1fb7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 06/58] fix: nd::linspace with one element is not NaN

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 50b05d8..0bf87a1 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -2563,7 +2563,7 @@ auto nd::linspace(double x0, double x1, std::size_t count)
 {
     auto mapping = [x0, x1, count] (auto index)
     {
-        return x0 + (x1 - x0) * index[0] / (count - 1);
+        return count == 1 ? x0 : x0 + (x1 - x0) * index[0] / (count - 1);
     };
     return make_array(mapping, make_shape(count));
 }
-- 
2.43.0


From 3a2905b8e4f262e7602ef0aade8af7d41e892b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 07/58] fix: an exception thrown during threaded array
 evaluation reaches the caller

---
 src/app_parallel.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/app_parallel.hpp b/src/app_parallel.hpp
index eabddc5..894a19c 100644
--- a/src/app_parallel.hpp
+++ b/src/app_parallel.hpp
@@ -27,6 +27,7 @@
 
 
 #pragma once
+#include <exception>
 #include <vector>
 #include <thread>
 #include "core_ndarray.hpp"
@@ -79,13 +80,20 @@ auto mara::evaluate_on()
     {
         using value_type = typename decltype(array)::value_type;
         auto provider = nd::make_unique_provider<value_type>(array.shape());
-        auto evaluate_partial = [&] (auto accessor)
+        auto errors = nd::basic_sequence_t<std::exception_ptr, NumThreads>();
+        auto evaluate_partial = [&] (auto accessor, std::exception_ptr& error)
         {
-            return [accessor, array, &provider]
+            return [accessor, array, &provider, &error]
             {
-                for (auto index : accessor)
+                try {
+                    for (auto index : accessor)
+                    {
+                        provider(index) = array(index);
+                    }
+                }
+                catch (...)
                 {
-                    provider(index) = array(index);
+                    error = std::current_exception();
                 }
             };
         };
@@ -93,11 +101,15 @@ auto mara::evaluate_on()
         auto regions = nd::partition_shape<NumThreads>(array.shape());
 
         for (std::size_t n = 0; n < NumThreads; ++n)
-            threads[n] = std::thread(evaluate_partial(regions[n]));
+            threads[n] = std::thread(evaluate_partial(regions[n], errors[n]));
 
         for (auto& thread : threads)
             thread.join();
 
+        for (auto& error : errors)
+            if (error)
+                std::rethrow_exception(error);
+
         return nd::make_array(std::move(provider).shared());
     };
 }
-- 
2.43.0


From 2d8d88f33bf9dbbb92add64ba14e082ab35eec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:15 +0000
Subject: [PATCH 08/58] fix: the volume of an array shape is not truncated to
 32 bits

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 0bf87a1..0bc2c5c 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -327,7 +327,7 @@ public:
 
     std::size_t volume() const
     {
-        return std::accumulate(this->begin(), this->end(), 1, std::multiplies<>());
+        return std::accumulate(this->begin(), this->end(), std::size_t(1), std::multiplies<>());
     }
 
     bool contains(const index_t<Rank>& index) const
-- 
2.43.0


From 257888ad73f57e8251ec07957070decfd93e1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:59 +0000
Subject: [PATCH 09/58] fix: looking up the value of a branch of a tree throws
 out_of_range

This is what the documentation says, and what makes find() return nothing
rather than throw std::bad_variant_access at the index of a branch.
---
 src/core_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index ebe5288..3a98b5e 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -301,6 +301,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const value_type& value() const
     {
+        if (! has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::value");
+        }
         return std::get<0>(__impl);
     }
 
@@ -315,6 +319,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const children_array_type& children() const
     {
+        if (has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::children");
+        }
         return *std::get<1>(__impl);
     }
 
-- 
2.43.0


From 31919dce1c3613fea1e1a46068d1a7c0fcd6da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:00 +0000
Subject: [PATCH 10/58] fix: a tree does not contain a value at the index of
 one of its branches

The search went on below level zero, shifting by a negative amount.
---
 src/core_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 3a98b5e..c5ec0ac 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -497,6 +497,10 @@ struct mara::arithmetic_binary_tree_t
         {
             return index.level == 0 && ! index.coordinates.any();
         }
+        if (index.level == 0)
+        {
+            return false;
+        }
         return child_at(index.orthant()).contains(index.advance_level());
     }
 
-- 
2.43.0


From 87c00c4aa26cf6df9fbdbfc3f82e7efe433f329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:00 +0000
Subject: [PATCH 11/58] fix: hilbert_index uses the number of nodes per side,
 not the level

---
 src/core_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index c5ec0ac..a04a05c 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -1075,5 +1075,5 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
         return d;
     };
 
-    return xy2d(index.level, index.coordinates[0], index.coordinates[1]);
+    return xy2d(1 << index.level, index.coordinates[0], index.coordinates[1]);
 }
-- 
2.43.0


From a1d68ae925b62f45ad6a8f71137d2373bb23319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 12/58] fix: updating a tree at an index outside of its level
 throws out_of_range

---
 src/core_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index a04a05c..e23612c 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -686,6 +686,10 @@ struct mara::arithmetic_binary_tree_t
     {
         if (index.level == 0)
         {
+            if (index.coordinates.any())
+            {
+                throw std::out_of_range("mara::arithmetic_binary_tree_t::update");
+            }
             return map(fn);
         }
         return {detail::to_shared_ptr(children().update(to_integral(index.orthant()), [&] (auto&& c)
-- 
2.43.0


From a262de80b6d675926a867165b1462b96d4637729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:02 +0000
Subject: [PATCH 13/58] fix: fetching the root block of a refined tree does not
 look for its parent

---
 src/mesh_tree_operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh_tree_operators.hpp b/src/mesh_tree_operators.hpp
index a02a36a..40c9a95 100644
--- a/src/mesh_tree_operators.hpp
+++ b/src/mesh_tree_operators.hpp
@@ -233,7 +233,7 @@ auto mara::get_cell_block(const arithmetic_binary_tree_t<ValueType, Rank>& tree,
         // If the tree has a value at the node above the target index, then refine
         // the data on that node (yielding 2^Rank arrays) and select the array in
         // the index's orthant.
-        if (tree.contains(index.parent_index()))
+        if (index.level > 0 && tree.contains(index.parent_index()))
         {
             auto ib = mara::to_integral(index.relative_to_parent().orthant());
             return (tree.at(index.parent_index()) | mara::refine_cells<Rank>())[ib] | post;
@@ -273,7 +273,7 @@ auto mara::get_vertex_block(const arithmetic_binary_tree_t<ValueType, Rank>& tre
         // If the tree has a value at the node above the target index, then refine
         // the data on that node (yielding 2^Rank arrays) and select the array in
         // the index's orthant.
-        if (tree.contains(index.parent_index()))
+        if (index.level > 0 && tree.contains(index.parent_index()))
         {
             auto ib = mara::to_integral(index.relative_to_parent().orthant());
             return (tree.at(index.parent_index()) | mara::refine_verts<Rank>())[ib].shared();
-- 
2.43.0


From f631ac94d4935fd4828272c77c8ba0754319aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:10 +0000
Subject: [PATCH 14/58] fix: fetching a block more than one level finer than
 the tree throws instead of recursing forever

---
 src/mesh_tree_operators.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mesh_tree_operators.hpp b/src/mesh_tree_operators.hpp
index 40c9a95..88e8700 100644
--- a/src/mesh_tree_operators.hpp
+++ b/src/mesh_tree_operators.hpp
@@ -239,6 +239,13 @@ auto mara::get_cell_block(const arithmetic_binary_tree_t<ValueType, Rank>& tree,
             return (tree.at(index.parent_index()) | mara::refine_cells<Rank>())[ib] | post;
         }
 
+        // If there is no node at the target index then the data is more than one
+        // level coarser.
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no node at the target index");
+        }
+
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
         return mara::combine_cells(index.child_indexes().map([tree] (auto i) { return get_cell_block(tree, i, nd::to_shared()); }))
@@ -279,6 +286,13 @@ auto mara::get_vertex_block(const arithmetic_binary_tree_t<ValueType, Rank>& tre
             return (tree.at(index.parent_index()) | mara::refine_verts<Rank>())[ib].shared();
         }
 
+        // If there is no node at the target index then the data is more than one
+        // level coarser.
+        if (! tree.contains_node(index))
+        {
+            throw std::out_of_range("no node at the target index");
+        }
+
         // If the target index is not a leaf, then combine the data from its
         // children, and then coarsen it.
         return mara::combine_verts(index.child_indexes().map([tree] (auto i) { return get_vertex_block(tree, i); }))
-- 
2.43.0


From 076d1b7262ea4d5a848635ba50ca6c4c890640c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:46 +0000
Subject: [PATCH 15/58] fix: a rational number equal to zero has denominator
 one

---
 src/core_rational.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index e391319..bd09abe 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -189,6 +189,10 @@ private:
             num /= g;
             den /= g;
         }
+        else
+        {
+            den = 1;
+        }
         if (den < 0)
         {
             num *= -1;
-- 
2.43.0


From 6941ef0b2709b75df603e88f6a83403097487f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:12 +0000
Subject: [PATCH 16/58] fix: rational arithmetic and comparison do not overflow
 in intermediate products

---
 src/core_rational.hpp | 76 ++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 34 deletions(-)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index bd09abe..f105f5c 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -27,6 +27,7 @@
 
 
 #pragma once
+#include <stdexcept>
 #include <string>
 
 
@@ -58,25 +59,21 @@ public:
     : num(num)
     , den(den)
     {
-        if (den == 0)
-        {
-            throw std::invalid_argument("rational_number_t: indeterminate (divide by zero)");
-        }
-        reduce();
+        *this = reduce(num, den);
     }
 
     rational_number_t operator+() const { return rational_number_t(+num, den); }
-    rational_number_t operator-() const { return rational_number_t(-num, den); }
+    rational_number_t operator-() const { return reduce(-long(num), den); }
 
     double operator+(double other) const { return as_double() + other; }
     rational_number_t operator+(int other) const { return operator+(rational_number_t(other)); }
     rational_number_t operator+(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
-        auto c = other.num;
-        auto d = other.den;
-        return rational_number_t(a * d + b * c, b * d);
+        auto a = long(num);
+        auto b = long(den);
+        auto c = long(other.num);
+        auto d = long(other.den);
+        return reduce(a * d + b * c, b * d);
     }
     rational_number_t& operator+=(int other) { *this = *this + other; return *this; }
 
@@ -84,11 +81,11 @@ public:
     rational_number_t operator-(int other) const { return operator-(rational_number_t(other)); }
     rational_number_t operator-(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
-        auto c = other.num;
-        auto d = other.den;
-        return rational_number_t(a * d - b * c, b * d);
+        auto a = long(num);
+        auto b = long(den);
+        auto c = long(other.num);
+        auto d = long(other.den);
+        return reduce(a * d - b * c, b * d);
     }
     rational_number_t& operator-=(int other) { *this = *this - other; return *this; }
 
@@ -96,22 +93,22 @@ public:
     rational_number_t operator*(int other) const { return operator*(rational_number_t(other)); }
     rational_number_t operator*(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
-        auto c = other.num;
-        auto d = other.den;
-        return rational_number_t(a * c, b * d);
+        auto a = long(num);
+        auto b = long(den);
+        auto c = long(other.num);
+        auto d = long(other.den);
+        return reduce(a * c, b * d);
     }
 
     double operator/(double other) const { return as_double() / other; }
     rational_number_t operator/(int other) const { return operator/(rational_number_t(other)); }
     rational_number_t operator/(const rational_number_t& other) const
     {
-        auto a = num;
-        auto b = den;
-        auto c = other.num;
-        auto d = other.den;
-        return rational_number_t(a * d, b * c);
+        auto a = long(num);
+        auto b = long(den);
+        auto c = long(other.num);
+        auto d = long(other.den);
+        return reduce(a * d, b * c);
     }
 
     bool operator==(int other) const { return operator==(rational_number_t(other)); }
@@ -129,25 +126,25 @@ public:
     bool operator<(int other) const { return operator<(rational_number_t(other)); }
     bool operator<(const rational_number_t& other) const
     {
-        return (*this - other).num < 0;
+        return long(num) * other.den < long(other.num) * den;
     }
 
     bool operator>(int other) const { return operator>(rational_number_t(other)); }
     bool operator>(const rational_number_t& other) const
     {
-        return (*this - other).num > 0;
+        return long(num) * other.den > long(other.num) * den;
     }
 
     bool operator<=(int other) const { return operator<=(rational_number_t(other)); }
     bool operator<=(const rational_number_t& other) const
     {
-        return (*this - other).num <= 0;
+        return long(num) * other.den <= long(other.num) * den;
     }
 
     bool operator>=(int other) const { return operator>=(rational_number_t(other)); }
     bool operator>=(const rational_number_t& other) const
     {
-        return (*this - other).num >= 0;
+        return long(num) * other.den >= long(other.num) * den;
     }
 
     bool is_integral() const
@@ -181,8 +178,12 @@ private:
      * @brief      Put the rational number in a canonical form: the fraction is
      *             reduced and the sign (if any) is put on the numerator.
      */
-    void reduce()
+    static rational_number_t reduce(long num, long den)
     {
+        if (den == 0)
+        {
+            throw std::invalid_argument("rational_number_t: indeterminate (divide by zero)");
+        }
         if (num != 0)
         {
             auto g = gcd(std::abs(num), std::abs(den));
@@ -198,6 +199,13 @@ private:
             num *= -1;
             den *= -1;
         }
+        if (num != int(num) || den != int(den))
+        {
+            throw std::overflow_error("rational_number_t: not representable");
+        }
+        auto result = rational_number_t(int(num));
+        result.den = int(den);
+        return result;
     }
 
     /**
@@ -205,9 +213,9 @@ private:
      *             integers. Implements the Binary GCD Algorithm.
      *
      */
-    static int gcd(unsigned int a, unsigned int b)
+    static long gcd(unsigned long a, unsigned long b)
     {
-        unsigned int d = 0;
+        unsigned long d = 0;
 
         while (a % 2 == 0 && b % 2 == 0)
         {
@@ -222,7 +230,7 @@ private:
             else if (a > b) a = (a - b) / 2;
             else            b = (b - a) / 2;
         }
-        return a * (1 << d);
+        return a * (1ul << d);
     }
 
     int num = 0;
-- 
2.43.0


From c1a44dfc209c0d3e19f02f81b9de553b8eda92c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:15 +0000
Subject: [PATCH 17/58] fix: a failed link lookup does not count as an existing
 HDF5 object

---
 src/core_hdf5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dcaf458..8b59dde 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -557,7 +557,7 @@ private:
 
     bool contains(const std::string& name, Object object) const
     {
-        if (H5Lexists(id, name.data(), H5P_DEFAULT))
+        if (H5Lexists(id, name.data(), H5P_DEFAULT) > 0)
         {
             H5O_info_t info;
             H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT);
-- 
2.43.0


From bbc89a1057096e10f5f278885acc64ab949779da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:15 +0000
Subject: [PATCH 18/58] fix: assigning to an open HDF5 file, group or dataset
 closes it first

---
 src/core_hdf5.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 8b59dde..dba99ca 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -670,7 +670,11 @@ public:
     Dataset(const Dataset&) = delete;
     Dataset& operator=(Dataset&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
     void close() { link.close(Object::dataset); }
@@ -908,7 +912,11 @@ public:
     Group(Group&& other) : Location(std::move(other.link)) {}
     Group& operator=(Group&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
     void close() { link.close(Object::group); }
@@ -961,7 +969,11 @@ public:
 
     File& operator=(File&& other)
     {
-        link = std::move(other.link);
+        if (this != &other)
+        {
+            close();
+            link = std::move(other.link);
+        }
         return *this;
     }
 
-- 
2.43.0


From aab52054f9690ed039c033f4af74f7a299df4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:15 +0000
Subject: [PATCH 19/58] fix: trees of ranks other than two can be read from
 HDF5

---
 src/app_serialize_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 6fb2f7c..23d0d06 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -138,7 +138,7 @@ void mara::read_tree(h5::Group&& group, arithmetic_binary_tree_t<ValueType, Rank
     for (auto dataset : group)
     {
         auto value = group.read<ValueType>(dataset);
-        tree = std::move(tree).insert(mara::read_tree_index<2>(dataset), value);
+        tree = std::move(tree).insert(mara::read_tree_index<Rank>(dataset), value);
     }
 }
 
-- 
2.43.0


From b816287ea22e9e86ffbed6ccb68d14448b4e8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:15 +0000
Subject: [PATCH 20/58] fix: an empty string stored in HDF5 reads back as an
 empty string

---
 src/app_serialize.hpp | 4 ++++
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index a5ecfc8..95531fc 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -323,6 +323,10 @@ struct h5::hdf5_type_info<mara::config_parameter_t>
     }
     static auto finalize(mara::config_parameter_t&& value)
     {
+        if (value.index() == 2)
+        {
+            value = hdf5_type_info<std::string>::finalize(std::move(std::get<2>(value)));
+        }
         return std::move(value);
     }
     static auto get_address(mara::config_parameter_t& value) -> void*
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dba99ca..1dfb972 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -478,7 +478,7 @@ struct h5::hdf5_type_info<std::string>
     static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
     static auto convert_to_writable(const native_type& value) { return value; }
     static auto prepare(const Datatype& type, const Dataspace&) { return native_type(type.size(), 0); }
-    static auto finalize(native_type&& value) { return std::move(value); }
+    static auto finalize(native_type&& value) { return value == native_type(1, 0) ? native_type() : std::move(value); } // HDF5 cannot store zero-length strings
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
 };
-- 
2.43.0


From 2e346e863fae5cfe8155c43ffc67d4f4180c2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:15 +0000
Subject: [PATCH 21/58] fix: an HDF5 object name of 1024 characters is refused,
 not truncated

---
 src/core_hdf5.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 1dfb972..9a6894e 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -622,9 +622,9 @@ private:
             static char name[1024];
 
             if (H5Lget_name_by_idx(id, ".",
-                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) > 1024)
+                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) >= 1024)
             {
-                throw std::overflow_error("object names longer than 1024 are not supported");
+                throw std::overflow_error("object names longer than 1023 are not supported");
             }
             return name;
         }
-- 
2.43.0


From f5480feb5b656fa2fb2e676a911e0ffc4dfa9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:35 +0000
Subject: [PATCH 22/58] fix: a configuration value with trailing characters is
 refused instead of being cut short

---
 src/app_config.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/app_config.hpp b/src/app_config.hpp
index d143f4f..e4af85f 100644
--- a/src/app_config.hpp
+++ b/src/app_config.hpp
@@ -106,13 +106,19 @@ public:
         {
             throw std::invalid_argument("config has no option " + key);
         }
+        auto parsed = config_parameter_t(value);
+        auto length = value.size();
+
         switch (template_items.at(key).index())
         {
-            case 0: return std::move(*this).set(key, config_parameter_t(std::stoi(value)));
-            case 1: return std::move(*this).set(key, config_parameter_t(std::stod(value)));
-            case 2: return std::move(*this).set(key, config_parameter_t(value));
+            case 0: parsed = std::stoi(value, &length); break;
+            case 1: parsed = std::stod(value, &length); break;
+        }
+        if (length != value.size())
+        {
+            throw std::invalid_argument("config got invalid value '" + value + "' for option " + key);
         }
-        return *this;
+        return std::move(*this).set(key, parsed);
     }
 
     config_t set(std::string key, std::string value) const &
-- 
2.43.0


From d8466e29a2a9feeb123973048c962c19101e3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:51 +0000
Subject: [PATCH 23/58] fix: appending to, concatenating and comparing long
 lists does not exhaust the stack

---
 src/core_linked_list.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core_linked_list.hpp b/src/core_linked_list.hpp
index ecb1803..59ea0d7 100644
--- a/src/core_linked_list.hpp
+++ b/src/core_linked_list.hpp
@@ -235,7 +235,7 @@ struct mara::linked_list_t
      */
     linked_list_t append(const value_type& value) const
     {
-        return empty() ? linked_list_t(value, *this) : tail().append(value).prepend(head());
+        return concat(linked_list_t().prepend(value));
     }
 
 
@@ -251,7 +251,15 @@ struct mara::linked_list_t
      */
     linked_list_t concat(const linked_list_t& other) const
     {
-        return empty() ? other : linked_list_t(head(), tail().concat(other));
+        auto A = reverse();
+        auto B = other;
+
+        while (! A.empty())
+        {
+            B = B.prepend(A.head());
+            A = A.tail();
+        }
+        return B;
     }
 
 
@@ -349,15 +357,19 @@ struct mara::linked_list_t
      */
     bool operator==(const linked_list_t& other) const
     {
-        if (! empty() && ! other.empty())
-        {
-            return head() == other.head() && tail() == other.tail();
-        }
-        if (empty() && other.empty())
+        auto A = *this;
+        auto B = other;
+
+        while (! A.empty() && ! B.empty())
         {
-            return true;
+            if (! (A.head() == B.head()))
+            {
+                return false;
+            }
+            A = A.tail();
+            B = B.tail();
         }
-        return false;
+        return A.empty() && B.empty();
     }
 
 
-- 
2.43.0


From aa4c629047cd78bdea941ebfd2ac1d722f6c75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:51 +0000
Subject: [PATCH 24/58] fix: sockets and block devices are neither files nor
 directories

---
 src/app_filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f7a952e..9cfceab 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -214,7 +214,7 @@ bool mara::filesystem::isfile(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFREG;
+        return S_ISREG(s.st_mode);
     }
     return false;
 }
@@ -225,7 +225,7 @@ bool mara::filesystem::isdir(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFDIR;
+        return S_ISDIR(s.st_mode);
     }
     return false;
 }
-- 
2.43.0


From 281d0ab05daba0bddd2cb35d682b7d84e5b6fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:51 +0000
Subject: [PATCH 25/58] fix: removing a directory does not follow symbolic
 links out of it

---
 src/app_filesystem.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 9cfceab..5bea5bc 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -166,7 +166,12 @@ int mara::filesystem::remove_recurse(std::string path)
     */
 
     int res = -1;
+    struct stat pathbuf;
 
+    if (lstat(path.data(), &pathbuf) || ! S_ISDIR(pathbuf.st_mode))
+    {
+        return res;
+    }
     if (auto d = opendir(path.data()))
     {
         struct dirent *p;
@@ -185,7 +190,7 @@ int mara::filesystem::remove_recurse(std::string path)
             std::snprintf(&buf[0], buf.size(), "%s/%s", path.data(), p->d_name);
             struct stat statbuf;
 
-            if (! stat(buf.data(), &statbuf))
+            if (! lstat(buf.data(), &statbuf))
             {
                 if (S_ISDIR(statbuf.st_mode))
                 {
-- 
2.43.0


From ea297c8de5ddb9f74d1d36990f683359daa6525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:51 +0000
Subject: [PATCH 26/58] fix: require_dir creates absolute paths where they say,
 and reports failure

---
 src/app_filesystem.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 5bea5bc..920a4ba 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -28,6 +28,7 @@
 
 
 #pragma once
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include <cstring>
@@ -136,12 +137,16 @@ std::string mara::filesystem::parent(std::string path)
 
 void mara::filesystem::require_dir(std::string path)
 {
-    auto partial = std::string(".");
+    auto partial = std::string();
 
     for (auto dir : split(path))
     {
-        partial += "/" + dir;
-        mkdir(partial.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
+        partial += dir + "/";
+
+        if (mkdir(partial.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH) && ! isdir(partial))
+        {
+            throw std::runtime_error("could not create the directory " + partial);
+        }
     }
 }
 
-- 
2.43.0


From 27494d1e56d9a95e4cafee18f3d53e5a1f1ea988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:51 +0000
Subject: [PATCH 27/58] fix: a dot in a directory name does not start a file
 extension

---
 src/app_filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 920a4ba..fb5e5df 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -122,7 +122,7 @@ std::string mara::filesystem::extension(std::string path)
 {
     auto dot = path.rfind('.');
 
-    if (dot != std::string::npos)
+    if (dot != std::string::npos && path.find('/', dot) == std::string::npos)
     {
         return path.substr(dot);
     }
-- 
2.43.0


From bce5e2c03bd5a36fb1f08b8239b77818ddd887a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 28/58] fix: binary time step is computed on the mesh, so that
 conserve_linear_p=0 runs work

---
 src/subprog_binary_scheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 9bbf3a1..76ec110 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -1111,7 +1111,7 @@ double binary::maximum_timestep(const solution_t& solution,
     auto binary = mara::compute_two_body_state(solution.orbital_elements, solution.time.value);
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
 
-    return solution.conserved_u.indexes().map([&] (auto index)
+    return solver_data.cell_centers.indexes().map([&] (auto index)
     {
         auto xc = solver_data.cell_centers.at(index);
         auto pc = primitive.at(index);
-- 
2.43.0


From 992e62ee7dcc509c3b098be6fa463700dd2b4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 29/58] fix: sedov reads its configuration at a restart from
 the group it is written to

---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 47b921a..d04e5cc 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -473,7 +473,7 @@ static auto create_run_config(int argc, const char* argv[])
     return args.count("restart")
     ? config_template()
             .create()
-            .update(mara::read_config(h5::File(args.at("restart"), "r").open_group("run_config")))
+            .update(mara::read_config(h5::File(args.at("restart"), "r").open_group("config")))
             .update(args)
     : new_run_config(args);
 }
-- 
2.43.0


From 1ea58f735b7d5b2431a8f436973adab9c73299fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 30/58] fix: sedov diagnostics do not read beyond the first and
 last zones

---
 src/subprog_sedov.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index d04e5cc..40fc0e5 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -291,6 +291,10 @@ auto SedovProblem<HydroSystem>::compute_time_series_data(const solution_state_t&
 
     auto find_vertex = [rc, vc] (auto i)
     {
+        if (i == 0 || i + 1 >= rc.size())
+        {
+            return rc(i);
+        }
         return mara::parabola_vertex(
             rc(i - 1), rc(i), rc(i + 1),
             vc(i - 1), vc(i), vc(i + 1)).first;
-- 
2.43.0


From 64f14100c48e035c1ca0d8a074ddec8dd9695d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 31/58] fix: checkpoints store the schedule with this step's
 tasks completed

---
 src/subprog_boilerplate.cpp |  2 +-
 src/subprog_cloud.cpp       | 12 ++++++------
 src/subprog_sedov.cpp       | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index c8092ac..126f709 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -203,7 +203,7 @@ static void write_checkpoint(const app_state_t& state)
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::create_numbered_filename("chkpt", count, "h5"), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index e2d9a96..3d8c27b 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -760,7 +760,7 @@ void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -831,11 +831,6 @@ auto CloudProblem::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -846,6 +841,11 @@ auto CloudProblem::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 40fc0e5..2be2a5a 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -492,7 +492,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto count = state.schedule.num_times_performed("write_checkpoint");
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), mara::complete_task_in(state, "write_checkpoint").schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -566,11 +566,6 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -581,6 +576,11 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
-- 
2.43.0


From b852defdfd823db28cd37eccc4161fdf34acaef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:32 +0000
Subject: [PATCH 32/58] fix: failures to write out an HDF5 object on closing it
 are reported

---
 src/core_hdf5.hpp           | 25 +++++++++++++++++--------
 src/subprog_amrsand.cpp     |  1 +
 src/subprog_binary.cpp      | 10 ++++++++--
 src/subprog_boilerplate.cpp |  1 +
 src/subprog_cloud.cpp       |  3 +++
 src/subprog_sedov.cpp       |  5 +++++
 6 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 9a6894e..d0f7bf4 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -537,16 +537,23 @@ private:
     {
         if (id != -1)
         {
+            auto closing = id;
+            id = -1;
+
             switch (object)
             {
-                case Object::file   : H5Fclose(id); break;
-                case Object::group  : H5Gclose(id); break;
-                case Object::dataset: H5Dclose(id); break;
+                case Object::file   : detail::check(H5Fclose(closing)); break;
+                case Object::group  : detail::check(H5Gclose(closing)); break;
+                case Object::dataset: detail::check(H5Dclose(closing)); break;
             }
-            id = -1;
         }
     }
 
+    void close_quietly(Object object) noexcept // for use in destructors
+    {
+        try { close(object); } catch (...) {}
+    }
+
     std::size_t size() const
     {
         auto op = [] (auto, auto, auto, auto) { return 0; };
@@ -664,7 +671,7 @@ class h5::Dataset final
 public:
 
     //=========================================================================
-    ~Dataset() { close(); }
+    ~Dataset() { link.close_quietly(Object::dataset); }
     Dataset() {}
     Dataset(Dataset&& other) : link(std::move(other.link)) {}
     Dataset(const Dataset&) = delete;
@@ -876,7 +883,9 @@ public:
         auto writable = convert_to_writable(value);
         auto type  = make_datatype_for(writable);
         auto space = make_dataspace_for(writable);
-        require_dataset(name, type, space).write(writable);
+        auto dataset = require_dataset(name, type, space);
+        dataset.write(writable);
+        dataset.close();
     }
 
     template<typename T>
@@ -906,7 +915,7 @@ class h5::Group final : public Location<Group, Dataset>
 public:
 
     //=========================================================================
-    ~Group() { close(); }
+    ~Group() { link.close_quietly(Object::group); }
     Group() {}
     Group(const Group&) = delete;
     Group(Group&& other) : Location(std::move(other.link)) {}
@@ -942,7 +951,7 @@ public:
     }
 
     //=========================================================================
-    ~File() { close(); }
+    ~File() { link.close_quietly(Object::file); }
     File() {}
     File(const File&) = delete;
     File(File&& other) : Location(std::move(other.link)) {}
diff --git a/src/subprog_amrsand.cpp b/src/subprog_amrsand.cpp
index 23008a7..551842b 100644
--- a/src/subprog_amrsand.cpp
+++ b/src/subprog_amrsand.cpp
@@ -219,6 +219,7 @@ void AmrSandbox::write_diagnostics(const app_state_t& state)
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("diagnostics", count, "h5")), "w");
     create_diagnostics(state).write(file.open_group("."));
     std::printf("write diagnostics: %s\n", file.filename().data());
+    file.close();
 }
 
 bool AmrSandbox::simulation_should_continue(const app_state_t& state)
diff --git a/src/subprog_binary.cpp b/src/subprog_binary.cpp
index 59ac654..b9f11d5 100644
--- a/src/subprog_binary.cpp
+++ b/src/subprog_binary.cpp
@@ -333,9 +333,12 @@ auto binary::run_tasks(const state_t& state, const solver_data_t& solver_data)
         auto outdir = state.run_config.get_string("outdir");
         auto count  = state.schedule.num_times_performed("write_checkpoint");
         auto fname  = mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5"));
-        auto group  = h5::File(fname, "w").open_group("/");
+        auto file   = h5::File(fname, "w");
+        auto group  = file.open_group("/");
         auto next_state = mara::complete_task_in(state, "write_checkpoint");
         mara::write(group, "/", next_state);
+        group.close();
+        file.close();
         std::printf("write checkpoint: %s\n", fname.data());
         return next_state;
     };
@@ -347,8 +350,11 @@ auto binary::run_tasks(const state_t& state, const solver_data_t& solver_data)
         auto outdir = state.run_config.get_string("outdir");
         auto count  = state.schedule.num_times_performed("write_diagnostics");
         auto fname  = mara::filesystem::join(outdir, mara::create_numbered_filename("diagnostics", count, "h5"));
-        auto group  = h5::File(fname, "w").open_group("/");
+        auto file   = h5::File(fname, "w");
+        auto group  = file.open_group("/");
         mara::write(group, "/", diagnostic_fields(state.solution, state.run_config));
+        group.close();
+        file.close();
         std::printf("write diagnostics: %s\n", fname.data());
         return mara::complete_task_in(state, "write_diagnostics");
     };
diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index 126f709..07da8e1 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -207,6 +207,7 @@ static void write_checkpoint(const app_state_t& state)
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
+    file.close();
 }
 
 static auto create_app_state(mara::config_t run_config)
diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index 3d8c27b..c0882d8 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -764,6 +764,7 @@ void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
+    file.close();
 }
 
 void CloudProblem::write_diagnostics(const app_state_t& state, std::string outdir)
@@ -796,6 +797,7 @@ void CloudProblem::write_diagnostics(const app_state_t& state, std::string outdi
     file.write("postshock_flow_power64",  diagnostics.postshock_flow_power64);
     file.write("postshock_flow_power_max",  diagnostics.postshock_flow_power_max);
     std::printf("write diagnostics: %s\n", file.filename().data());
+    file.close();
 }
 
 void CloudProblem::write_time_series(const app_state_t& state, std::string outdir)
@@ -902,6 +904,7 @@ void CloudProblem::prepare_filesystem(const mara::config_t& cfg)
         file.require_dataset("time", h5::Datatype::native_double(), space, plist);
         file.require_dataset("shock_radius", h5::Datatype::native_double(), space, plist);
         mara::write_config(file.require_group("config"), cfg);
+        file.close();
     }
 }
 
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 2be2a5a..926d7ff 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -496,6 +496,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
+    file.close();
 }
 
 template<typename HydroSystem>
@@ -516,6 +517,7 @@ void SedovProblem<HydroSystem>::write_diagnostics(const app_state_t& state, std:
         file.write(item.first, item.second);
     }
     std::printf("write diagnostics: %s\n", file.filename().data());
+    file.close();
 }
 
 template<typename HydroSystem>
@@ -530,7 +532,9 @@ void SedovProblem<HydroSystem>::write_time_series(const app_state_t& state, std:
         auto dataset = file.open_dataset(item.first);
         dataset.set_extent(current_size + 1);
         dataset.write(item.second, dataset.get_space().select(target_space));
+        dataset.close();
     }
+    file.close();
 }
 
 template<typename HydroSystem>
@@ -615,6 +619,7 @@ void SedovProblem<HydroSystem>::prepare_filesystem(const mara::config_t& cfg)
             file.require_dataset(column_name, h5::Datatype::native_double(), space, plist);            
         }
         mara::write_config(file.require_group("run_config"), cfg);
+        file.close();
     }
 }
 
-- 
2.43.0


From 8ec63e879b6f7b5129cf44a64173b01367612437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 33/58] fix: relativistic primitive recovery converges relative
 to the scale of the state

---
 src/physics_srhd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics_srhd.hpp b/src/physics_srhd.hpp
index 9f27119..fa38e73 100644
--- a/src/physics_srhd.hpp
+++ b/src/physics_srhd.hpp
@@ -367,7 +367,7 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
     double temperature_floor)
 {
     constexpr int newton_iter_max         = 50;
-    constexpr double error_tolerance      = 1e-10;
+    constexpr double error_tolerance      = 1e-12; // relative to the energy density
 
     // indexes to conserved quanitites
     enum {
@@ -405,7 +405,7 @@ mara::srhd::primitive_t mara::srhd::recover_primitive(
         auto g = v2 * cs2 - 1.0;
         p -= f / g;
 
-        if (std::fabs(f) < error_tolerance)
+        if (std::fabs(f) < error_tolerance * (tau + D))
         {
             W0 = W;
             solution_found = true;
-- 
2.43.0


From 65b1f7d70c3e1f2795fb50fcb0b135494a5307ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 34/58] fix: the temperature floor scales with the density, as
 documented

---
 src/physics_euler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics_euler.hpp b/src/physics_euler.hpp
index 0eacbc1..7de1559 100644
--- a/src/physics_euler.hpp
+++ b/src/physics_euler.hpp
@@ -567,9 +567,9 @@ mara::euler::primitive_t mara::euler::recover_primitive(
     P[3] =  U[3].value / d;
     P[4] = (U[4].value - 0.5 * p_squared / d) * (gamma_law_index - 1.0);
 
-    if (P[4] < 0.0 && temperature_floor > 0.0)
+    if (temperature_floor > 0.0)
     {
-        P[4] = temperature_floor * d;
+        P[4] = std::max(P[4], temperature_floor * d);
     }
     return P;
 }
-- 
2.43.0


From 8963cd9fc47f3cd03fe8898010ee2b09294318f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 35/58] fix: unit vectors are normalised on construction

---
 src/core_geometric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_geometric.hpp b/src/core_geometric.hpp
index 3ce7484..aa91035 100644
--- a/src/core_geometric.hpp
+++ b/src/core_geometric.hpp
@@ -77,9 +77,9 @@ public:
     unit_vector_t(double n1, double n2, double n3) : n1(n1), n2(n2), n3(n3)
     {
         auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);
-        n1 /= n;
-        n2 /= n;
-        n3 /= n;
+        this->n1 /= n;
+        this->n2 /= n;
+        this->n3 /= n;
     }
 
     template<typename ScalarType>
-- 
2.43.0


From 635efbd62877e8a6d5c7a1d9a89b06e41f410211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 36/58] fix: isothermal HLLC outer waves enclose both states in
 strong collisions

---
 src/physics_iso2d.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/physics_iso2d.hpp b/src/physics_iso2d.hpp
index bbdc5af..d9cafc1 100644
--- a/src/physics_iso2d.hpp
+++ b/src/physics_iso2d.hpp
@@ -644,9 +644,11 @@ inline mara::iso2d::riemann_hllc_variables_t mara::iso2d::compute_hllc_variables
     auto ql = std::max(1.0, std::sqrt(pstar / press_l));
     auto qr = std::max(1.0, std::sqrt(pstar / press_r));
 
-    // Equation 10.68 for the wavespeeds
-    auto sl = ul - al * ql;
-    auto sr = ur + ar * qr;
+    // Equation 10.68 for the wavespeeds. The estimate of the star-state pressure
+    // is too low in strong collisions, so the wavespeeds are also required to
+    // enclose the signals from both of the states (Equation 10.48).
+    auto sl = std::min(ul - al * ql, ur - ar);
+    auto sr = std::max(ur + ar * qr, ul + al);
 
     // Equation 10.70 for the contact speed
     auto den = sigma_l * (sl - ul) - sigma_r * (sr - ur);
-- 
2.43.0


From edf983b960c3c97ca98c6b70881824087de38531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 37/58] fix: arithmetic_tuple_t to_sequence calls the function
 that exists

---
 src/core_tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_tuple.hpp b/src/core_tuple.hpp
index f8d82bc..4b855dd 100644
--- a/src/core_tuple.hpp
+++ b/src/core_tuple.hpp
@@ -227,8 +227,8 @@ template<typename DerivedType, typename... Types>
 struct mara::derivable_tuple_t
 {
     //=========================================================================
-    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequenc().all(); }
-    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequenc().any(); }
+    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequence().all(); }
+    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequence().any(); }
     template<typename T> DerivedType operator*(const T& other)   const { return DerivedType{{__impl.operator*(other)}}; }
     template<typename T> DerivedType operator/(const T& other)   const { return DerivedType{{__impl.operator/(other)}}; }
     DerivedType operator+(const DerivedType& other) const { return DerivedType{{__impl.operator+(other.__impl)}}; }
-- 
2.43.0


From 800c6e30ef7c6e9c76f712025c6ea966498b104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 38/58] fix: powers of quantities with negative exponents have
 the right units

---
 src/core_dimensional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_dimensional.hpp b/src/core_dimensional.hpp
index 9840923..3e82f35 100644
--- a/src/core_dimensional.hpp
+++ b/src/core_dimensional.hpp
@@ -221,7 +221,7 @@ struct mara::dimensional_value_t
      * @note       Since non-integer dimensions are not supported, all units
      *             must divide the exponent, if it is negative.
      */
-    template<int N, unsigned D=1>
+    template<int N, int D=1>
     auto pow() const
     {
         static_assert((C * N) % D == 0, "non-integer dimensions not supported");
-- 
2.43.0


From 9ce16e9790b260689e74d85b3a53ff856dfdc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:55 +0000
Subject: [PATCH 39/58] fix: element-wise operations on matrices of different
 value types compile

---
 src/core_matrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_matrix.hpp b/src/core_matrix.hpp
index 29b6fa3..0402dc2 100644
--- a/src/core_matrix.hpp
+++ b/src/core_matrix.hpp
@@ -122,11 +122,11 @@ public:
 
 private:
     //=========================================================================
-    template<typename Function>
-    auto binary_op(const matrix_t& v, Function&& fn) const
+    template<typename T, typename Function>
+    auto binary_op(const matrix_t<T, NumRows, NumCols>& v, Function&& fn) const
     {
         const auto& _ = *this;
-        auto result = matrix_t();
+        auto result = matrix_t<std::invoke_result_t<Function, ValueType, T>, NumRows, NumCols>();
 
         for (std::size_t i = 0; i < NumRows; ++i)
         {
-- 
2.43.0


From 0babbc13f3e123a885a4948e32d35de027324d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 40/58] fix: second complex pair of quartic roots has one real
 part

---
 src/math_polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_polynomial.hpp b/src/math_polynomial.hpp
index 856b9e4..38e5d12 100644
--- a/src/math_polynomial.hpp
+++ b/src/math_polynomial.hpp
@@ -182,7 +182,7 @@ mara::quartic_roots_t mara::quartic_roots(double d4, double d3, double d2, doubl
     else
     {
         result.x3 = -0.25 * a3 - 0.5 * R;
-        result.x4 = -0.25 * a3 + 0.5 * R;
+        result.x4 = -0.25 * a3 - 0.5 * R;
         result.pair_2_is_real = false;
     }
     return result;
-- 
2.43.0


From ae34b8249108a3d9a85e74ef30c271b180de31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 41/58] fix: cubic with a repeated root is recognised in spite
 of rounding

---
 src/math_polynomial.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_polynomial.hpp b/src/math_polynomial.hpp
index 38e5d12..35cc18f 100644
--- a/src/math_polynomial.hpp
+++ b/src/math_polynomial.hpp
@@ -75,9 +75,10 @@ mara::cubic_roots_t mara::cubic_roots(double c3, double c2, double c1, double c0
     auto q = a1 / 3.0 - a2 * a2 / 9.0;
     auto r = (a1 * a2 - 3.0 * a0) / 6.0 - a2 * a2 * a2 / 27.0;
     auto delta = q * q * q + r * r;
+    auto round = 1e-14 * r * r; // a discriminant smaller than this is zero but for rounding
     auto result = cubic_roots_t();
 
-    if (delta > 0.0)
+    if (delta > round)
     {
         double s1 = r + std::sqrt(delta);
         double s2 = r - std::sqrt(delta);
@@ -88,7 +89,7 @@ mara::cubic_roots_t mara::cubic_roots(double c3, double c2, double c1, double c0
         result.x3 = -0.5 * (s1 + s2) - a2 / 3.0;
         result.num_roots = 1;
     }
-    else if (delta < 0.0)
+    else if (delta < -round)
     {
         auto theta = std::acos(r / std::sqrt(-q * q * q)) / 3.0;
         auto costh = std::cos(theta);
-- 
2.43.0


From 5431c701436bc9978e1c31b825f5965a1add762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 42/58] fix: quartic whose resolvent vanishes but for rounding
 has finite roots

---
 src/math_polynomial.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_polynomial.hpp b/src/math_polynomial.hpp
index 35cc18f..82bbccd 100644
--- a/src/math_polynomial.hpp
+++ b/src/math_polynomial.hpp
@@ -29,6 +29,7 @@
 #pragma once
 #include <algorithm> // std::max
 #include <cmath>     // std::sqrt, std::pow, std::sin, std::cos, etc
+#include <utility>   // std::pair
 
 
 
@@ -139,7 +140,7 @@ mara::quartic_roots_t mara::quartic_roots(double d4, double d3, double d2, doubl
     auto cubic = cubic_roots(1.0, au2, au1, au0);
     auto u1 = cubic.num_roots == 1 ? cubic.x1 : std::max(cubic.x1, cubic.x3);
     auto R2 = 0.25 * a3 * a3 + u1 - a2;
-    auto R = (R2 > 0.0) ? std::sqrt(R2) : 0.0;
+    auto R = (R2 > 1e-14 * (a3 * a3 + std::abs(u1) + std::abs(a2))) ? std::sqrt(R2) : 0.0;
 
     double D2, E2;
     auto result = quartic_roots_t();
@@ -154,7 +155,7 @@ mara::quartic_roots_t mara::quartic_roots(double d4, double d3, double d2, doubl
     else
     {
         auto f = 0.75 * a3 * a3 - 2.0 * a2;
-        auto g = 2.00 * std::sqrt(u1 * u1 - 4.0 * a0);
+        auto g = 2.00 * std::sqrt(std::max(0.0, u1 * u1 - 4.0 * a0));
         D2 = f + g;
         E2 = f - g;
     }
-- 
2.43.0


From 3f41e328f3b746f556f189d170a1d6d8a0b2d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 43/58] fix: atmosphere given a total mass keeps its
 coefficient in the scaling

---
 src/model_atmosphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_atmosphere.hpp b/src/model_atmosphere.hpp
index 1979f2f..cfa7093 100644
--- a/src/model_atmosphere.hpp
+++ b/src/model_atmosphere.hpp
@@ -97,7 +97,7 @@ struct mara::power_law_atmosphere_model
     power_law_atmosphere_model with_outer_index  (double new_n2) const { return {f0, r0, rc, n1, new_n2}; }
     power_law_atmosphere_model with_total_mass(double new_total_mass) const
     {
-        return with_coefficient(new_total_mass / total_mass());
+        return with_coefficient(f0 * new_total_mass / total_mass());
     }
 
     double mass_within_cutoff() const
-- 
2.43.0


From 2f42de1856cab543cdc29d55237d8c660e973694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 44/58] fix: mass coordinate of the envelop is computed in
 closed form

---
 src/model_atmosphere.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model_atmosphere.hpp b/src/model_atmosphere.hpp
index cfa7093..fd0710e 100644
--- a/src/model_atmosphere.hpp
+++ b/src/model_atmosphere.hpp
@@ -215,8 +215,9 @@ struct mara::cloud_and_envelop_model
 
     double mass_coordinate(double r, double t) const
     {
-        auto f = [this, r, t] (double m) { return std::log10(r) - std::log10(radius(m, t)); };
-        return detail::solve_secant(f, m1, m1 * 2, 1e-10);
+        double beta = r / t / light_speed;
+        double u = beta / std::sqrt(1.0 - beta * beta);
+        return m1 * std::pow(u / u1, -1.0 / psi);
     }
 
     double power_law_cloud(double r, double t) const
-- 
2.43.0


From 3c8bf526c1f1e66aa7e3c9af7e14cec56f204c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 45/58] fix: Kepler solver converges at high eccentricity and
 late times

---
 src/model_two_body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 035abc7..7655b0b 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -193,10 +193,10 @@ mara::two_body_state_t mara::compute_two_body_state(const orbital_elements_t& pa
 
     if (params.eccentricity > 0.0)
     {
-        auto M = omega * t; // mean anomoly
+        auto M = std::remainder(omega * t, 2 * M_PI); // mean anomoly
         auto anomoly_equation   = [e, M] (double E) { return E - e * std::sin(E) - M; };
         auto anomoly_derivative = [e]    (double E) { return 1 - e * std::cos(E); };
-        double E = two_body::detail::solve_newton_rapheson(anomoly_equation, anomoly_derivative, M);
+        double E = two_body::detail::solve_newton_rapheson(anomoly_equation, anomoly_derivative, std::copysign(M_PI, M));
 
         return make_result_from_E_and_a(E, a);
     }
-- 
2.43.0


From e5ca293e48666764c04c4955ee84eff5379b022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 46/58] fix: mean anomaly is counted from the time of
 pericentre

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 7655b0b..2e8d0ad 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -486,7 +486,7 @@ double mara::mean_anomaly(const full_orbital_elements_t& params, double t)
         t += P;
     }
     auto omega = 2 * M_PI / P;
-    return omega * t;
+    return omega * (t - params.tau);
 }
 
 mara::full_orbital_elements_t mara::diff(const full_orbital_elements_t& a, const full_orbital_elements_t& b)
-- 
2.43.0


From 1624c1ac9cfd02126ff24c2f341ec5aeb4ab8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:06 +0000
Subject: [PATCH 47/58] fix: orbital elements of nearly circular orbits keep
 their phase

---
 src/model_two_body.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 2e8d0ad..4bdebcc 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -328,7 +328,6 @@ mara::full_orbital_elements_t mara::compute_orbital_elements(const two_body_stat
     double vy2 = c2.velocity_y - vy_cm;
     double vf1 = -vx1 * y1 / r1 + vy1 * x1 / r1;
     double vf2 = -vx2 * y2 / r2 + vy2 * x2 / r2;
-    double v1 = std::sqrt(vx1 * vx1 + vy1 * vy1);
 
 
     // energy and angular momentum
@@ -344,7 +343,6 @@ mara::full_orbital_elements_t mara::compute_orbital_elements(const two_body_stat
     // Semi-major, semi-minor axes; eccentricity, apsides
     double a = -0.5 * M1 * M2 / E;
     double b = std::sqrt(-0.5 * L * L / E * (M1 + M2) / (M1 * M2));
-    double e = std::sqrt(clamp(0.0, 1.0, 1.0 - b * b / a / a));
     double omega = std::sqrt(M / a / a / a);
 
 
@@ -353,13 +351,19 @@ mara::full_orbital_elements_t mara::compute_orbital_elements(const two_body_stat
     double b1 = b * q / (1.0 + q);
 
 
+    // e times the cos and sin of nu, which also determine e to full precision
+    double ec = 1.0 - r1 / a1;
+    double es = (vx1 * x1 + vy1 * y1) / (omega * a1 * a1);
+    double e = clamp(0.0, 1.0, std::sqrt(ec * ec + es * es));
+
+
     // cos of nu and f: phase angle and true anomaly
-    double cn = e == 0.0 ? x1 / r1 : (1.0 - r1 / a1) / e;
+    double cn = e == 0.0 ? x1 / r1 : ec / e;
     double cf = a1 / r1 * (cn - e);
 
 
     // sin of nu and f
-    double sn = e == 0.0 ? y1 / r1 : (vx1 * x1 + vy1 * y1) / (e * v1 * r1) * std::sqrt(1.0 - e * e * cn * cn);
+    double sn = e == 0.0 ? y1 / r1 : es / e;
     double sf = (b1 / r1) * sn;
 
 
-- 
2.43.0


From 968c09511b3a18d25f4afe02b17a6f1f214cfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:05 +0000
Subject: [PATCH 48/58] fix: reconstruct_method=pcm in the binary problem turns
 extrapolation off

---
 src/subprog_binary_scheme.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 76ec110..c26f0b6 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -272,14 +272,15 @@ static auto intercell_flux_u(
     mara::tree_index_t<2> tree_index)
 {
     auto grid_spacing = 2.0 * solver_data.domain_radius.value / solver_data.block_size / (1 << tree_index.level);
+    auto plm = solver_data.reconstruct_method == binary::reconstruct_method_t::plm;
 
-    return [axis, binary, solver_data, grid_spacing] (binary::location_2d_t xf, prim_pair_t p0, prim_pair_t g_long, prim_pair_t g_tran)
+    return [axis, binary, solver_data, grid_spacing, plm] (binary::location_2d_t xf, prim_pair_t p0, prim_pair_t g_long, prim_pair_t g_tran)
     {
         auto [pl, pr] = p0;
         auto [gl, gr] = g_long;
 
-        auto pl_hat = pl + gl * 0.5 * grid_spacing;
-        auto pr_hat = pr - gr * 0.5 * grid_spacing;
+        auto pl_hat = plm ? pl + gl * 0.5 * grid_spacing : pl;
+        auto pr_hat = plm ? pr - gr * 0.5 * grid_spacing : pr;
         auto cs2 = cs2_at_position(xf, binary, solver_data);
         auto nu = nu_at_position(xf, cs2, solver_data);
         auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());
@@ -300,14 +301,15 @@ static auto intercell_flux_q(
 {
     auto to_angmom = to_angmom_fluxes(axis, solver_data.domain_radius);
     auto grid_spacing = 2.0 * solver_data.domain_radius.value / solver_data.block_size / (1 << tree_index.level);
+    auto plm = solver_data.reconstruct_method == binary::reconstruct_method_t::plm;
 
-    return [axis, binary, solver_data, to_angmom, grid_spacing] (binary::location_2d_t xf, prim_pair_t p0, prim_pair_t g_long, prim_pair_t g_tran)
+    return [axis, binary, solver_data, to_angmom, grid_spacing, plm] (binary::location_2d_t xf, prim_pair_t p0, prim_pair_t g_long, prim_pair_t g_tran)
     {
         auto [pl, pr] = p0;
         auto [gl, gr] = g_long;
 
-        auto pl_hat = pl + gl * 0.5 * grid_spacing;
-        auto pr_hat = pr - gr * 0.5 * grid_spacing;
+        auto pl_hat = plm ? pl + gl * 0.5 * grid_spacing : pl;
+        auto pr_hat = plm ? pr - gr * 0.5 * grid_spacing : pr;
         auto cs2 = cs2_at_position(xf, binary, solver_data);
         auto nu = nu_at_position(xf, cs2, solver_data);
         auto mu = 0.5 * nu * (pl_hat.sigma() + pr_hat.sigma());
-- 
2.43.0


From c6cb4d7df31958f2f5346bc45ec30f8ca2d7a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:12 +0000
Subject: [PATCH 49/58] fix: newtonian blast wave takes time steps its signals
 allow

---
 src/subprog_sedov.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 926d7ff..32ff96a 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -405,14 +405,21 @@ auto SedovProblem<HydroSystem>::next_solution(const solution_state_t& state)
     auto cons_to_prim = std::bind(HydroSystem::recover_primitive, std::placeholders::_1, gamma_law_index, 0.0);
     auto extend_bc = mara::compose(extend_reflecting_inner(), extend_zero_gradient_outer());
 
+    // The speed of light does not limit signals in the newtonian case.
+    auto max_wavespeed = [] (auto p)
+    {
+        auto a = p.wavespeeds(mara::unit_vector_t::on_axis_1(), gamma_law_index);
+        return std::max({1.0, std::fabs(a.m.value), std::fabs(a.p.value)});
+    };
+
     auto dr_min = state.vertices | nd::difference_on_axis(0) | nd::read_index(0);
-    auto dt = mara::make_time(cfl_number * dr_min);
     auto dv = cell_volumes(state.vertices) | evaluate;
     auto da = face_areas(state.vertices);
     auto rc = state.vertices | nd::midpoint_on_axis(0);
 
     auto u0 = state.conserved;
     auto p0 = u0 / dv | nd::map(cons_to_prim) | evaluate;
+    auto dt = mara::make_time(cfl_number * dr_min / (p0 | nd::map(max_wavespeed) | nd::max()));
     auto s0 = nd::zip(p0, rc) | nd::apply(source_terms) | nd::multiply(dv);
     auto l0 = p0 | extend_bc | intercell_flux(0) | nd::multiply(-da) | nd::difference_on_axis(0);
     auto u1 = u0 + (l0 + s0) * dt;
-- 
2.43.0


From e1cf511b393c5c4a70b63a81c6a98e326bf83374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:51 +0000
Subject: [PATCH 50/58] fix: a single body (separation=0) has no orbit to
 perturb

---
 src/subprog_binary_scheme.cpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index c26f0b6..de1fbd6 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -788,6 +788,21 @@ auto validate_q = [] (auto solution, auto solver_data)
 
 
 
+//=============================================================================
+static mara::full_orbital_elements_t orbital_perturbation(
+    const mara::full_orbital_elements_t& E0,
+    const mara::two_body_state_t& perturbed,
+    double time)
+{
+    // A single body (zero separation) has no orbit to perturb
+    return E0.elements.separation == 0.0
+    ? mara::make_full_orbital_elements_with_zeros()
+    : mara::diff(E0, mara::compute_orbital_elements(perturbed, time));
+}
+
+
+
+
 //=============================================================================
 binary::solution_t binary::advance_u(const solution_t& solution, const solver_data_t& solver_data, mara::unit_time<double> dt, bool safe_mode)
 {
@@ -883,8 +898,8 @@ binary::solution_t binary::advance_u(const solution_t& solution, const solver_da
 
     auto live  = solution.time > solver_data.begin_live_binary;
     auto E0    = solution.orbital_elements;
-    auto E_acc = mara::compute_orbital_elements({body1_acc, body2_acc}, solution.time.value);
-    auto E_grv = mara::compute_orbital_elements({body1_grv, body2_grv}, solution.time.value);
+    auto dE_acc = orbital_perturbation(E0, {body1_acc, body2_acc}, solution.time.value);
+    auto dE_grv = orbital_perturbation(E0, {body1_grv, body2_grv}, solution.time.value);
 
     // The full updated solution state
     //=========================================================================
@@ -899,9 +914,9 @@ binary::solution_t binary::advance_u(const solution_t& solution, const solver_da
         solution.work_done_on                 + totals.work_done_on,
         solution.mass_ejected                 + totals.mass_ejected,
         solution.angular_momentum_ejected     + totals.angular_momentum_ejected,
-        solution.orbital_elements_acc         + mara::diff(E0, E_acc),
-        solution.orbital_elements_grav        + mara::diff(E0, E_grv),
-        solution.orbital_elements             + (mara::diff(E0, E_acc) + mara::diff(E0, E_grv) + mara::diff_cm(E0, dt.value)) * live,
+        solution.orbital_elements_acc         + dE_acc,
+        solution.orbital_elements_grav        + dE_grv,
+        solution.orbital_elements             + (dE_acc + dE_grv + mara::diff_cm(E0, dt.value)) * live,
     }, solver_data);
 }
 
@@ -999,8 +1014,8 @@ binary::solution_t binary::advance_q(const solution_t& solution, const solver_da
 
     auto live  = solution.time > solver_data.begin_live_binary;
     auto E0    = solution.orbital_elements;
-    auto E_acc = mara::compute_orbital_elements({body1_acc, body2_acc}, solution.time.value);
-    auto E_grv = mara::compute_orbital_elements({body1_grv, body2_grv}, solution.time.value);
+    auto dE_acc = orbital_perturbation(E0, {body1_acc, body2_acc}, solution.time.value);
+    auto dE_grv = orbital_perturbation(E0, {body1_grv, body2_grv}, solution.time.value);
 
     // The full updated solution state
     //=========================================================================
@@ -1015,9 +1030,9 @@ binary::solution_t binary::advance_q(const solution_t& solution, const solver_da
         solution.work_done_on                 + totals.work_done_on,
         solution.mass_ejected                 + totals.mass_ejected,
         solution.angular_momentum_ejected     + totals.angular_momentum_ejected,
-        solution.orbital_elements_acc         + mara::diff(E0, E_acc),
-        solution.orbital_elements_grav        + mara::diff(E0, E_grv),
-        solution.orbital_elements             + (mara::diff(E0, E_acc) + mara::diff(E0, E_grv) + mara::diff_cm(E0, dt.value)) * live,
+        solution.orbital_elements_acc         + dE_acc,
+        solution.orbital_elements_grav        + dE_grv,
+        solution.orbital_elements             + (dE_acc + dE_grv + mara::diff_cm(E0, dt.value)) * live,
     }, solver_data);
 }
 
-- 
2.43.0


From 597cbe75f00029acb4b2819c94efc4031cb09042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 51/58] fix: keep the buffer of a non-blocking message in place
 while the operation is pending

---
 src/core_mpi.hpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 8e85c13..ef4182c 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -26,6 +26,7 @@
 
 
 
+#include <memory>
 #include <string>
 #include <numeric>
 #include <vector>
@@ -130,7 +131,7 @@ public:
      */
     Request(Request&& other)
     {
-        buffer = std::move(other.buffer);
+        std::swap(buffer, other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
     }
@@ -160,7 +161,7 @@ public:
     Request& operator=(Request&& other)
     {
         cancel();
-        buffer = std::move(other.buffer);
+        std::swap(buffer, other.buffer);
         request = other.request;
         other.request = MPI_REQUEST_NULL;
         return *this;        
@@ -233,7 +234,7 @@ public:
     {
         wait();
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
-        return buffer;
+        return *buffer;
     }
 
 
@@ -245,7 +246,7 @@ public:
     {
         static_assert(std::is_trivially_copyable<T>::value, "type is not trivially copyable");
 
-        if (buffer.size() != sizeof(T))
+        if (buffer->size() != sizeof(T))
         {
             throw std::logic_error("received message has wrong size for data type");   
         }
@@ -255,7 +256,7 @@ public:
         // MPI_Wait(&request, MPI_STATUS_IGNORE);
 
         auto value = T();
-        std::memcpy(&value, &buffer[0], sizeof(T));
+        std::memcpy(&value, buffer->data(), sizeof(T));
         return value;
     }
 
@@ -264,7 +265,10 @@ private:
     // ========================================================================
     friend class Communicator;
     MPI_Request request = MPI_REQUEST_NULL;
-    std::string buffer;
+
+    // The message data lives on the heap, so that its address does not change
+    // while the operation is pending, even if this object is moved.
+    std::unique_ptr<std::string> buffer = std::make_unique<std::string>();
 };
 
 
@@ -555,14 +559,10 @@ public:
         {
             return Request();
         }
-        auto buf = std::string(status.count(), 0);
-
-        MPI_Request request;
-        MPI_Irecv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        res.buffer->resize(status.count());
+
+        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, source, tag, comm, &res.request);
         return res;
     }
 
@@ -593,12 +593,10 @@ public:
      */
     Request isend(std::string buf, int rank, int tag=0) const
     {
-        MPI_Request request;
-        MPI_Isend(&buf[0], buf.size(), MPI_CHAR, rank, tag, comm, &request);
-
         Request res;
-        res.buffer = std::move(buf);
-        res.request = request;
+        *res.buffer = std::move(buf);
+
+        MPI_Isend(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, rank, tag, comm, &res.request);
         return res;
     }
 
-- 
2.43.0


From 070741336a42179bb0d911b326ba565de8dd7e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 52/58] fix: receive the message that was probed, not any that
 matches the wildcard

---
 src/core_mpi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index ef4182c..a54d90d 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -539,7 +539,7 @@ public:
         auto status = probe(source, tag);
         auto buf = std::string(status.count(), 0);
 
-        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, source, tag, comm, MPI_STATUS_IGNORE);
+        MPI_Recv(&buf[0], buf.size(), MPI_CHAR, status.source(), status.tag(), comm, MPI_STATUS_IGNORE);
         return buf;
     }
 
@@ -562,7 +562,7 @@ public:
         Request res;
         res.buffer->resize(status.count());
 
-        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, source, tag, comm, &res.request);
+        MPI_Irecv(&(*res.buffer)[0], res.buffer->size(), MPI_CHAR, status.source(), status.tag(), comm, &res.request);
         return res;
     }
 
-- 
2.43.0


From 34df3a75231078c1a4c861454cf52811da0d9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 53/58] fix: complete a cancelled request before its buffer is
 released

---
 src/core_mpi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index a54d90d..5b5cc39 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -176,7 +176,7 @@ public:
         if (! is_null())
         {
             MPI_Cancel(&request);
-            MPI_Request_free(&request);
+            MPI_Wait(&request, MPI_STATUS_IGNORE);
         }
     }
 
-- 
2.43.0


From 3f5cc7ee686147d835bd041cdf64e31640d1c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:18 +0000
Subject: [PATCH 54/58] fix: assigning a communicator to itself does not close
 it

---
 src/core_mpi.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core_mpi.hpp b/src/core_mpi.hpp
index 5b5cc39..08ceb40 100644
--- a/src/core_mpi.hpp
+++ b/src/core_mpi.hpp
@@ -410,6 +410,10 @@ public:
      */
     Communicator& operator=(const Communicator& other)
     {
+        if (this == &other)
+        {
+            return *this;
+        }
         close();
 
         if (! other.is_null())
@@ -425,6 +429,10 @@ public:
      */
     Communicator& operator=(Communicator&& other)
     {
+        if (this == &other)
+        {
+            return *this;
+        }
         close();
 
         comm = other.comm;
-- 
2.43.0


From 63772115b432e9a112a4875902450907fe960224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 55/58] fix: the sedov grid has nr zones per decade

The grid reaches from 10^-0.5 to the outer radius, half a decade more than
was counted, so it had fewer zones per decade than the option asks for.
---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 32ff96a..0a4ee9e 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -371,7 +371,7 @@ auto SedovProblem<HydroSystem>::new_solution(const mara::config_t& cfg)
     auto outer_radius   = cfg.get_double("outer_radius");
     auto radial_decades = std::log10(outer_radius);
 
-    auto vertices = nd::linspace(-0.5, radial_decades, int(radial_decades * nr) + 1)
+    auto vertices = nd::linspace(-0.5, radial_decades, int((radial_decades + 0.5) * nr) + 1)
     | nd::map([] (auto y) { return std::pow(10.0, y); });
 
     auto dv = cell_volumes(vertices);
-- 
2.43.0


From 1e4ca46295e3cdacd3162a9c7d7d11dca2aa485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:59 +0000
Subject: [PATCH 56/58] fix: begin_live_binary is a number of orbits

The option was compared with the time of the solution, of which an orbit has
2 pi, so the binary began to evolve earlier than asked for.
---
 src/subprog_binary_solver_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_solver_data.cpp b/src/subprog_binary_solver_data.cpp
index 768fe43..ca4bf0c 100644
--- a/src/subprog_binary_solver_data.cpp
+++ b/src/subprog_binary_solver_data.cpp
@@ -90,7 +90,7 @@ binary::solver_data_t binary::create_solver_data(const mara::config_t& run_confi
     result.softening_radius      = run_config.get_double("softening_radius");
     result.gst_suppr_radius      = run_config.get_double("source_term_softening") * std::min(min_dx, min_dy).value;
     result.plm_theta             = run_config.get_double("plm_theta");
-    result.begin_live_binary     = run_config.get_double("begin_live_binary");
+    result.begin_live_binary     = run_config.get_double("begin_live_binary") * 2 * M_PI;
     result.axisymmetric_cs2      = run_config.get_int("axisymmetric_cs2");
     result.conserve_linear_p     = run_config.get_int("conserve_linear_p");
     result.fixed_dt              = run_config.get_int("fixed_dt");
-- 
2.43.0


From 2cc7c62bbc2509c2d3c58678c9e99bd32158c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:16 +0000
Subject: [PATCH 57/58] fix: the density floor is relative to the greatest
 surface density

It was relative to the mass of the disk, which is some seventy times the
greatest surface density of the initial disk.
---
 src/subprog_binary_solver_data.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/subprog_binary_solver_data.cpp b/src/subprog_binary_solver_data.cpp
index ca4bf0c..a512f70 100644
--- a/src/subprog_binary_solver_data.cpp
+++ b/src/subprog_binary_solver_data.cpp
@@ -78,6 +78,10 @@ binary::solver_data_t binary::create_solver_data(const mara::config_t& run_confi
     });
 
 
+    auto disk_radius = mara::make_length(run_config.get_double("disk_radius"));
+    auto max_sigma   = create_disk_profile(run_config)({{disk_radius, mara::make_length(0.0)}}).sigma();
+
+
     //=========================================================================
     auto result = solver_data_t();
     result.domain_radius         = run_config.get_double("domain_radius");
@@ -97,7 +101,7 @@ binary::solver_data_t binary::create_solver_data(const mara::config_t& run_confi
     result.rk_order              = run_config.get_int("rk_order");
     result.block_size            = run_config.get_int("block_size");
     result.no_accretion_force    = run_config.get_int("no_accretion_force");
-    result.density_floor         = run_config.get_double("density_floor") * run_config.get_double("disk_mass");
+    result.density_floor         = run_config.get_double("density_floor") * max_sigma;
     result.cfl_number            = run_config.get_double("cfl_number");
     result.recommended_time_step = std::min(min_dx, min_dy) / max_velocity * run_config.get_double("cfl_number");
     result.buffer_rate_field     = buffer_rate_field.map(nd::to_shared());
-- 
2.43.0


From 1ffb0339dc1cd607fddaef23f6fe233609b50ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:31 +0000
Subject: [PATCH 58/58] fix: the density floor also acts with angular momentum
 variables

source_terms_q left it out, so that density_floor had no effect with
conserve_linear_p=0.
---
 src/subprog_binary_scheme.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index de1fbd6..021bf6d 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -436,6 +436,10 @@ static auto source_terms_q = [] (auto solver_data, auto solution, auto binary, a
     auto s_sink_1 = -q0 * (xc | nd::map(sink_rate_field(solver_data, body1_pos))) * dt | nd::to_shared();
     auto s_sink_2 = -q0 * (xc | nd::map(sink_rate_field(solver_data, body2_pos))) * dt | nd::to_shared();
     auto s_buffer = (solver_data.initial_conserved_q.at(tree_index) - q0) * br * dt | nd::to_shared();
+    auto s_floor  = q0 | nd::map([floor=solver_data.density_floor] (auto q)
+    {
+        return q * 1e-2 * (mara::get<0>(q) < floor);
+    });
     auto s_geom = nd::zip(p0.at(tree_index), xc) | nd::apply([sr2, binary, solver_data, dt] (auto p, auto x)
     {
         auto ramp = 1.0 - std::exp(-(x * x).sum() / sr2);
@@ -464,7 +468,7 @@ static auto source_terms_q = [] (auto solver_data, auto solution, auto binary, a
     totals.momentum_y_accreted_on[0]       = -(dps1        | component<1>() | nd::multiply(dA) | nd::sum());
     totals.momentum_y_accreted_on[1]       = -(dps2        | component<1>() | nd::multiply(dA) | nd::sum());
 
-    return std::make_pair((s_grav_1 + s_grav_2 + s_sink_1 + s_sink_2 + s_buffer + s_geom) | nd::to_shared(), totals);
+    return std::make_pair((s_grav_1 + s_grav_2 + s_sink_1 + s_sink_2 + s_buffer + s_floor + s_geom) | nd::to_shared(), totals);
 };
 
 
-- 
2.43.0

