From fe2e94a5779bc75bd29eaba7745912768724e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 01/15] fix: compact_vector::assign releases storage with its
 allocated size when construction throws

---
 include/sfl/compact_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..1d2f269 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1205,7 +1205,9 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate(data_.ref_to_alloc(), data_.first_, n);
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
                 SFL_RETHROW;
             }
         }
@@ -1266,7 +1268,9 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate(data_.ref_to_alloc(), data_.first_, n);
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From f4bbf9f26dec4ccae933c72b0161cb94a9d93abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 02/15] fix: devector::reset releases storage at its beginning,
 not at the first element

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..eb279db 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1394,7 +1394,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From e791ca11d46f3f6c273fa6de3bf5e89032063635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:37 +0000
Subject: [PATCH 03/15] fix: devector insertion destroys relocated elements
 when a later step throws

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index eb279db..f0a965d 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2743,7 +2743,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
-- 
2.43.0


From b4d8b67066629fbbfa222ef2211c55f329eb6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:37 +0000
Subject: [PATCH 04/15] fix: devector::insert(pos, n, value) accepts a value
 that is an element of the container

---
 include/sfl/devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index f0a965d..abe3b9a 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4049,7 +4049,8 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        const value_type tmp(value);
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 038c3eef1323d53cfddebdd6ffb74f81a1b328ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 05/15] fix: devector resize functions accept a value that is
 an element of the container

---
 include/sfl/devector.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index abe3b9a..3fc1f43 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,8 @@ public:
                 }
                 else
                 {
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1023,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1031,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1098,6 +1100,8 @@ public:
         {
             const size_type available_front = this->available_front();
 
+            const value_type tmp(value);
+
             if (n > size + available_front)
             {
                 grow_storage_front(n - (size + available_front));
@@ -1110,7 +1114,7 @@ public:
                 data_.ref_to_alloc(),
                 new_first,
                 data_.first_,
-                value
+                tmp
             );
 
             data_.first_ = new_first;
@@ -1173,6 +1177,8 @@ public:
         {
             const size_type available_back = this->available_back();
 
+            const value_type tmp(value);
+
             if (n > size + available_back)
             {
                 grow_storage_back(n - (size + available_back));
@@ -1183,7 +1189,7 @@ public:
                 data_.ref_to_alloc(),
                 data_.last_,
                 n - size,
-                value
+                tmp
             );
         }
     }
-- 
2.43.0


From ddde686b87daf2e08732b90d167f8ff135728705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:03 +0000
Subject: [PATCH 06/15] fix: compact_vector::resize(n, value) accepts a value
 that is an element of the container

---
 include/sfl/compact_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 1d2f269..6bb7a0f 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -835,6 +835,8 @@ public:
             sfl::dtl::throw_length_error("sfl::compact_vector::resize");
         }
 
+        const value_type tmp(value);
+
         pointer new_first = sfl::dtl::allocate(data_.ref_to_alloc(), n);
         pointer new_last  = new_first;
 
@@ -855,7 +857,7 @@ public:
                     data_.ref_to_alloc(),
                     new_last,
                     n - size(),
-                    value
+                    tmp
                 );
             }
             else if (n < size())
-- 
2.43.0


From cfb1399b319650ab88e285eaf947c48148bb08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 07/15] fix: devector insertion keeps surviving elements alive
 when shifting to the front throws

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 3fc1f43..c81c11b 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -3679,7 +3679,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From 8d62fb569df2cd175584c00cc7eb754f611b1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 08/15] fix: small containers swap allocators after elements
 are exchanged so that a throwing move leaves each storage with its allocator

---
 include/sfl/small_flat_map.hpp                | 13 ++++++++-----
 include/sfl/small_flat_multimap.hpp           | 13 ++++++++-----
 include/sfl/small_flat_multiset.hpp           | 13 ++++++++-----
 include/sfl/small_flat_set.hpp                | 13 ++++++++-----
 include/sfl/small_unordered_flat_map.hpp      | 13 ++++++++-----
 include/sfl/small_unordered_flat_multimap.hpp | 13 ++++++++-----
 include/sfl/small_unordered_flat_multiset.hpp | 13 ++++++++-----
 include/sfl/small_unordered_flat_set.hpp      | 13 ++++++++-----
 include/sfl/small_vector.hpp                  | 13 ++++++++-----
 9 files changed, 72 insertions(+), 45 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..535c04f 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1082,11 +1082,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1222,6 +1217,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..8ef23db 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -974,11 +974,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1114,6 +1109,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..5f6ce1f 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -901,11 +901,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1041,6 +1036,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..e19f48f 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -924,11 +924,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1064,6 +1059,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..4aed962 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1083,11 +1083,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1223,6 +1218,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..987bda5 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -998,11 +998,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1138,6 +1133,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..8b3ec60 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..0b6cb5f 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..eed9434 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1396,11 +1396,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1534,6 +1529,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped last. If moving of elements throws then
+        // each container still owns allocator that allocated its memory.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
 private:
-- 
2.43.0


From f7b25bc35cb5a18f08a275a06ecbcdd119753b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 09/15] fix: segmented containers do not exchange propagating
 allocators twice in swap

---
 include/sfl/segmented_devector.hpp | 6 +++++-
 include/sfl/segmented_vector.hpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..46ba5cf 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,11 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..38d4ddd 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,11 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From 435f475cada8dea14561e7b08fbddaa8673edeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:25 +0000
Subject: [PATCH 10/15] fix: devector growth policy does not exceed max_size()
 when a smaller capacity suffices

---
 include/sfl/devector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index c81c11b..897d82f 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1360,12 +1360,12 @@ private:
             return std::max
             (
                 num_additional_elements - available_front,
-                capacity_front / 2
+                std::min(capacity_front / 2, max_size() - capacity())
             );
         }
         else
         {
-            return capacity_front / 2;
+            return std::min(capacity_front / 2, max_size() - capacity());
         }
     }
 
@@ -1379,12 +1379,12 @@ private:
             return std::max
             (
                 num_additional_elements - available_back,
-                capacity_back / 2
+                std::min(capacity_back / 2, max_size() - capacity())
             );
         }
         else
         {
-            return capacity_back / 2;
+            return std::min(capacity_back / 2, max_size() - capacity());
         }
     }
 
-- 
2.43.0


From 770e6a19acb95c1899eda49ce9d32c825c4ddc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 11/15] fix: static flat containers keep keys ordered and
 unique when assigned from an initializer list

---
 include/sfl/static_flat_map.hpp           | 3 ++-
 include/sfl/static_flat_multimap.hpp      | 3 ++-
 include/sfl/static_flat_multiset.hpp      | 3 ++-
 include/sfl/static_flat_set.hpp           | 3 ++-
 include/sfl/static_unordered_flat_map.hpp | 3 ++-
 include/sfl/static_unordered_flat_set.hpp | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..aea18f8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..b0355d5 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..c837b44 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..ee80b20 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..ad4f2a2 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,8 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..2419a8e 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,8 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From 8d2f12af2289c7d9c5c764423c9e02dd8ea02793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:59 +0000
Subject: [PATCH 12/15] fix: unordered multi containers erase by a key that is
 one of their own elements

---
 include/sfl/small_unordered_flat_multimap.hpp | 71 ++++++++++---------
 include/sfl/small_unordered_flat_multiset.hpp | 71 ++++++++++---------
 .../sfl/static_unordered_flat_multimap.hpp    | 71 ++++++++++---------
 .../sfl/static_unordered_flat_multiset.hpp    | 71 ++++++++++---------
 4 files changed, 156 insertions(+), 128 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 987bda5..ae8d478 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -938,44 +938,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(x);
     }
 
     void swap(small_unordered_flat_multimap& other)
@@ -1591,6 +1561,43 @@ private:
         }
     }
 
+    template <typename K>
+    size_type erase_key_aux(const K& key)
+    {
+        // Key can be a reference to an element of this container, so that
+        // element is taken out of the container before the others are moved.
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            if
+            (
+                static_cast<const void*>(std::addressof(p->first)) ==
+                static_cast<const void*>(std::addressof(key))
+            )
+            {
+                const value_type element(std::move(*p));
+                erase(const_iterator(p));
+                return 1 + erase_key_aux(element.first);
+            }
+        }
+
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, key))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     template <typename... Args>
     iterator emplace_back(Args&&... args)
     {
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 8b3ec60..8d5d1c5 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -852,44 +852,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(x);
     }
 
     void swap(small_unordered_flat_multiset& other)
@@ -1505,6 +1475,43 @@ private:
         }
     }
 
+    template <typename K>
+    size_type erase_key_aux(const K& key)
+    {
+        // Key can be a reference to an element of this container, so that
+        // element is taken out of the container before the others are moved.
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            if
+            (
+                static_cast<const void*>(std::addressof(*p)) ==
+                static_cast<const void*>(std::addressof(key))
+            )
+            {
+                const value_type element(std::move(*p));
+                erase(const_iterator(p));
+                return 1 + erase_key_aux(element);
+            }
+        }
+
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, key))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     template <typename... Args>
     iterator emplace_back(Args&&... args)
     {
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..c12fee7 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -585,44 +585,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(x);
     }
 
     void swap(static_unordered_flat_multimap& other)
@@ -865,6 +835,43 @@ private:
         }
     }
 
+    template <typename K>
+    size_type erase_key_aux(const K& key)
+    {
+        // Key can be a reference to an element of this container, so that
+        // element is taken out of the container before the others are moved.
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            if
+            (
+                static_cast<const void*>(std::addressof(p->first)) ==
+                static_cast<const void*>(std::addressof(key))
+            )
+            {
+                const value_type element(std::move(*p));
+                erase(const_iterator(p));
+                return 1 + erase_key_aux(element.first);
+            }
+        }
+
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, key))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     template <typename... Args>
     iterator emplace_back(Args&&... args)
     {
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..069a2e7 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -497,44 +497,14 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, key))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(key);
     }
 
     template <typename K,
               sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
     size_type erase(K&& x)
     {
-        size_type n = 0;
-
-        for (auto it = begin(); it != end();)
-        {
-            if (data_.ref_to_equal()(*it, x))
-            {
-                it = erase(it);
-                ++n;
-            }
-            else
-            {
-                ++it;
-            }
-        }
-
-        return n;
+        return erase_key_aux(x);
     }
 
     void swap(static_unordered_flat_multiset& other)
@@ -765,6 +735,43 @@ private:
         }
     }
 
+    template <typename K>
+    size_type erase_key_aux(const K& key)
+    {
+        // Key can be a reference to an element of this container, so that
+        // element is taken out of the container before the others are moved.
+        for (pointer p = data_.first_; p != data_.last_; ++p)
+        {
+            if
+            (
+                static_cast<const void*>(std::addressof(*p)) ==
+                static_cast<const void*>(std::addressof(key))
+            )
+            {
+                const value_type element(std::move(*p));
+                erase(const_iterator(p));
+                return 1 + erase_key_aux(element);
+            }
+        }
+
+        size_type n = 0;
+
+        for (auto it = begin(); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, key))
+            {
+                it = erase(it);
+                ++n;
+            }
+            else
+            {
+                ++it;
+            }
+        }
+
+        return n;
+    }
+
     template <typename... Args>
     iterator emplace_back(Args&&... args)
     {
-- 
2.43.0


From 149a4e5fe0aaceef96e15a03acdcda15bb8be3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:59 +0000
Subject: [PATCH 13/15] fix: unordered flat containers keep keys unique when
 comparing an emplaced element throws

---
 include/sfl/small_unordered_flat_map.hpp  | 12 +-----------
 include/sfl/small_unordered_flat_set.hpp  | 12 +-----------
 include/sfl/static_unordered_flat_map.hpp | 20 ++++++++++++++------
 include/sfl/static_unordered_flat_set.hpp | 20 ++++++++++++++------
 4 files changed, 30 insertions(+), 34 deletions(-)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 4aed962..d218b23 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1735,17 +1735,7 @@ private:
     template <typename... Args>
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
-        const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
-
-        const bool is_unique = it1 == it2;
-
-        if (!is_unique)
-        {
-            pop_back();
-        }
-
-        return std::make_pair(it2, is_unique);
+        return insert_aux(value_type(std::forward<Args>(args)...));
     }
 
     template <typename... Args>
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 0b6cb5f..dab2be8 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1488,17 +1488,7 @@ private:
     template <typename... Args>
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
-        const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
-
-        const bool is_unique = it1 == it2;
-
-        if (!is_unique)
-        {
-            pop_back();
-        }
-
-        return std::make_pair(it2, is_unique);
+        return insert_aux(value_type(std::forward<Args>(args)...));
     }
 
     template <typename... Args>
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index ad4f2a2..77d34e5 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1021,17 +1021,25 @@ private:
     template <typename... Args>
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
-        const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+        const pointer p = data_.last_;
 
-        const bool is_unique = it1 == it2;
+        sfl::dtl::construct_at(p, std::forward<Args>(args)...);
 
-        if (!is_unique)
+        auto guard = sfl::dtl::make_scope_guard([&]()
         {
-            pop_back();
+            sfl::dtl::destroy_at(p);
+        });
+
+        const auto it = find(p->first);
+
+        if (it == end())
+        {
+            guard.dismiss();
+            ++data_.last_;
+            return std::make_pair(iterator(p), true);
         }
 
-        return std::make_pair(it2, is_unique);
+        return std::make_pair(it, false);
     }
 
     template <typename... Args>
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 2419a8e..45a98f2 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -763,17 +763,25 @@ private:
     template <typename... Args>
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
-        const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+        const pointer p = data_.last_;
 
-        const bool is_unique = it1 == it2;
+        sfl::dtl::construct_at(p, std::forward<Args>(args)...);
 
-        if (!is_unique)
+        auto guard = sfl::dtl::make_scope_guard([&]()
         {
-            pop_back();
+            sfl::dtl::destroy_at(p);
+        });
+
+        const auto it = find(*p);
+
+        if (it == end())
+        {
+            guard.dismiss();
+            ++data_.last_;
+            return std::make_pair(iterator(p), true);
         }
 
-        return std::make_pair(it2, is_unique);
+        return std::make_pair(it, false);
     }
 
     template <typename... Args>
-- 
2.43.0


From c63a57a2c79272df34c4a7e143d7ee342ec2f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:30 +0000
Subject: [PATCH 14/15] fix: segmented devector does not read its segment table
 out of bounds when a range is inserted near the end

---
 include/sfl/segmented_devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 46ba5cf..a476e99 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2425,10 +2425,11 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
+
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0


From 25a8d42c8e56f0971606e7423e042efd20cbf67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:30 +0000
Subject: [PATCH 15/15] fix: segmented containers report length_error when
 whole segments already exceed max_size()

---
 include/sfl/segmented_devector.hpp | 4 ++--
 include/sfl/segmented_vector.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index a476e99..23051a9 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1330,7 +1330,7 @@ private:
     //
     void grow_storage_front(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_front");
         }
@@ -1418,7 +1418,7 @@ private:
     //
     void grow_storage_back(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_back");
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 38d4ddd..933f86d 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -959,7 +959,7 @@ private:
     //
     void grow_storage(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_vector::grow_storage");
         }
-- 
2.43.0

