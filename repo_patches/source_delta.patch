From 7d172db0cd0031a56cb32f908572334ecd211f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:00 +0000
Subject: [PATCH 01/41] fix: erasing an empty range must not relocate the tail
 onto itself

FixedVector/FixedDeque::erase(it, it) move-constructed every element after
the position on top of itself and destroyed it, losing the elements of any
type that is not trivially copyable.
---
 include/fixed_containers/fixed_deque.hpp  | 6 ++++++
 include/fixed_containers/fixed_vector.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..10beccc 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -408,6 +408,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Nothing to erase. Must not relocate the tail onto itself.
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..61b9a2a 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -391,6 +391,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Nothing to erase. Must not relocate the tail onto itself.
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
-- 
2.43.0


From da3a19388c8ce3ab1de412f80e28c8147a0a31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 02/41] fix: insert/emplace in the middle with an own element
 or a throwing constructor

FixedVector/FixedDeque::insert(pos, const T&) and emplace(pos, args...) moved
the tail away before reading the arguments: an argument that refers to an
element at or after pos read a moved-from/destroyed object, and a throwing
constructor left a hole of dead storage inside [begin, end).
---
 include/fixed_containers/fixed_deque.hpp  | 12 ++++++------
 include/fixed_containers/fixed_vector.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 10beccc..66726a9 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,9 +324,8 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
-        return entry_it;
+        // Copy before relocating: `value` may be an element of this container and copying may throw
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -361,9 +360,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
-        return entry_it;
+        // Construct before relocating: `args` may refer to an element of this container and
+        // construction may throw
+        value_type value(std::forward<Args>(args)...);
+        return insert(pos, std::move(value), std_transition::source_location::current());
     }
 
     constexpr void assign(
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 61b9a2a..8eade0b 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,9 +294,8 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
-        return entry_it;
+        // Copy before relocating: `value` may be an element of this container and copying may throw
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -335,9 +334,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
-        auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
-        return entry_it;
+        // Construct before relocating: `args` may refer to an element of this container and
+        // construction may throw
+        value_type value(std::forward<Args>(args)...);
+        return insert(pos, std::move(value), std_transition::source_location::current());
     }
 
     /**
-- 
2.43.0


From 0ea8fb2b585e60ce3d7983f3b34b78fa66d1050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 03/41] fix: range insert in the middle must not leave a hole
 when a copy throws

FixedVector/FixedDeque::insert(pos, first, last) for forward iterators opened
a gap and filled it; if copying an element threw, the unfilled part of the gap
stayed inside [begin, end) as dead storage.
---
 include/fixed_containers/fixed_deque.hpp  | 24 +++++++++++++++++++++--
 include/fixed_containers/fixed_vector.hpp | 24 +++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 66726a9..7eb9d23 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -586,6 +586,24 @@ public:
     }
 
 private:
+    // Closes the remaining gap of unconstructed elements if constructing one of them throws
+    struct GapGuard
+    {
+        FixedDequeBase& container;
+        iterator gap_begin;
+        iterator gap_end;
+
+        constexpr ~GapGuard()
+        {
+            if (gap_begin != gap_end)
+            {
+                const auto gap_size = static_cast<std::size_t>(std::distance(gap_begin, gap_end));
+                algorithm::uninitialized_relocate(gap_end, container.end(), gap_begin);
+                container.decrement_size(gap_size);
+            }
+        }
+    };
+
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
@@ -612,9 +630,11 @@ private:
         check_target_size(size() + entry_count_to_add, loc);
 
         auto write_it = advance_all_after_iterator_by_n(pos, entry_count_to_add);
-        for (auto w_it = write_it; first != last; std::advance(first, 1), std::advance(w_it, 1))
+        GapGuard gap{
+            *this, write_it, std::next(write_it, static_cast<std::ptrdiff_t>(entry_count_to_add))};
+        for (; first != last; std::advance(first, 1), std::advance(gap.gap_begin, 1))
         {
-            memory::construct_at_address_of(*w_it, *first);
+            memory::construct_at_address_of(*gap.gap_begin, *first);
         }
         return write_it;
     }
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 8eade0b..abe4199 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -596,6 +596,24 @@ public:
     }
 
 private:
+    // Closes the remaining gap of unconstructed elements if constructing one of them throws
+    struct GapGuard
+    {
+        FixedVectorBase& container;
+        iterator gap_begin;
+        iterator gap_end;
+
+        constexpr ~GapGuard()
+        {
+            if (gap_begin != gap_end)
+            {
+                const auto gap_size = static_cast<std::size_t>(std::distance(gap_begin, gap_end));
+                algorithm::uninitialized_relocate(gap_end, container.end(), gap_begin);
+                container.decrement_size(gap_size);
+            }
+        }
+    };
+
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
@@ -622,9 +640,11 @@ private:
         check_target_size(size() + entry_count_to_add, loc);
 
         auto write_it = advance_all_after_iterator_by_n(pos, entry_count_to_add);
-        for (auto w_it = write_it; first != last; std::advance(first, 1), std::advance(w_it, 1))
+        GapGuard gap{
+            *this, write_it, std::next(write_it, static_cast<std::ptrdiff_t>(entry_count_to_add))};
+        for (; first != last; std::advance(first, 1), std::advance(gap.gap_begin, 1))
         {
-            memory::construct_at_address_of(*w_it, *first);
+            memory::construct_at_address_of(*gap.gap_begin, *first);
         }
         return write_it;
     }
-- 
2.43.0


From 28855c5a54c1186637b60253be98d57a27f06ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:11 +0000
Subject: [PATCH 04/41] fix: FixedDeque::push_front/emplace_front must not move
 the start if construction throws

---
 include/fixed_containers/fixed_deque.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 7eb9d23..dca3a54 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -285,8 +285,8 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        place_at(index_before_front(), value);
         decrement_start();
-        place_at(front_index(), value);
         increment_size();
     }
     constexpr void push_front(
@@ -294,8 +294,8 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        place_at(index_before_front(), std::move(value));
         decrement_start();
-        place_at(front_index(), std::move(value));
         increment_size();
     }
 
@@ -303,8 +303,8 @@ public:
     constexpr reference emplace_front(Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        emplace_at(index_before_front(), std::forward<Args>(args)...);
         decrement_start();
-        emplace_at(front_index(), std::forward<Args>(args)...);
         increment_size();
         return this->front();
     }
@@ -723,6 +723,10 @@ private:
         return decrement_index_with_wraparound(starting_index_and_size().start,
                                                FIXED_DEQUE_STARTING_OFFSET);
     }
+    [[nodiscard]] constexpr std::size_t index_before_front() const
+    {
+        return decrement_index_with_wraparound(front_index(), 1);
+    }
     [[nodiscard]] constexpr std::size_t back_index() const
     {
         return decrement_index_with_wraparound(end_index(), 1);
-- 
2.43.0


From 9aabcbb3af2b092fdd7255721b6aacb43b27c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 05/41] fix: FixedCircularDeque must not read an argument after
 dropping the element it refers to

When the deque is full, push_back(front()), push_front(back()) and the
emplace/insert variants destroyed the element before copying it (and a throwing
copy lost the element).
---
 .../fixed_containers/fixed_circular_deque.hpp | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..71f785d 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -97,8 +97,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        deque().push_back(value, loc);
+        // Copy before dropping the front: `value` may be that element
+        push_back(value_type(value), loc);
     }
     constexpr void push_back(
         value_type&& value,
@@ -111,8 +111,10 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
+        // Construct before dropping the front: `args` may refer to that element
+        value_type value(std::forward<Args>(args)...);
         pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace_back(std::forward<Args>(args)...);
+        return deque().emplace_back(std::move(value));
     }
 
     constexpr void pop_back(
@@ -125,8 +127,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
-        deque().push_front(value, loc);
+        // Copy before dropping the back: `value` may be that element
+        push_front(value_type(value), loc);
     }
     constexpr void push_front(
         value_type&& value,
@@ -139,8 +141,10 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
+        // Construct before dropping the back: `args` may refer to that element
+        value_type value(std::forward<Args>(args)...);
         pop_back_if_full(std_transition::source_location::current());
-        return deque().emplace_front(std::forward<Args>(args)...);
+        return deque().emplace_front(std::move(value));
     }
 
     constexpr void pop_front(
@@ -154,8 +158,8 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
-        return deque().insert(pos, value, loc);
+        // Copy before dropping the front: `value` may be that element
+        return insert(pos, value_type(value), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
@@ -187,8 +191,9 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
-        return deque().emplace(pos, std::forward<Args>(args)...);
+        // Construct before dropping the front: `args` may refer to that element
+        value_type value(std::forward<Args>(args)...);
+        return insert(pos, std::move(value), std_transition::source_location::current());
     }
 
     constexpr void assign(
-- 
2.43.0


From 03b8cad678494e82b2896038445b4c0c500a6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 06/41] fix: inserting at begin() of a full FixedCircularDeque
 drops the incoming element

It aborted in an internal assertion instead: the single-element overloads
popped the element at pos and inserted in front of the remaining range, and the
input-iterator overload wrote through end(). The forward-iterator overload
already dropped the incoming elements.
---
 include/fixed_containers/fixed_circular_deque.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 71f785d..d503d4c 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -166,6 +166,11 @@ public:
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if (is_full(deque()) && pos == cbegin() && pos != cend())
+        {
+            // `pos` is an uncrossable barrier (as in the range overloads), drop the incoming element
+            return begin();
+        }
         pop_front_if_full(loc);
         return deque().insert(pos, std::move(value), loc);
     }
@@ -431,6 +436,11 @@ private:
             auto right2_it = end();
             for (; first != last; ++first)
             {
+                if (left2_it == right2_it)
+                {
+                    // Nothing was inserted before reaching the barrier, drop the incoming element
+                    continue;
+                }
                 *left2_it = *first;
                 ++left2_it;
                 if (left2_it == right2_it)
-- 
2.43.0


From 56c833208feb36aea6706f78ea1572efa144408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:12 +0000
Subject: [PATCH 07/41] fix: FixedList::insert of an empty range returns pos
 instead of end()

---
 include/fixed_containers/fixed_list.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..dfa0342 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -494,6 +494,10 @@ private:
 
         const std::size_t insertion_point = index_of(pos);
         std::size_t inserted_point = NULL_INDEX;  // First index returned during insertion
+        if (first == last)
+        {
+            return create_iterator(insertion_point);
+        }
         for (; first != last; std::advance(first, 1))
         {
             const std::size_t new_inserted_point =
@@ -516,6 +520,10 @@ private:
     {
         const std::size_t insertion_point = index_of(pos);
         std::size_t inserted_point = NULL_INDEX;  // First index returned during insertion
+        if (first == last)
+        {
+            return create_iterator(insertion_point);
+        }
         for (; first != last && size() < max_size(); std::advance(first, 1))
         {
             const std::size_t new_inserted_point =
-- 
2.43.0


From 75145fa2ffee565a4c34f459f0fab3472b1b51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:12 +0000
Subject: [PATCH 08/41] fix: FixedList::remove(value) with a value that is an
 element of the list

The element was destroyed while the remaining elements were still being
compared against it.
---
 include/fixed_containers/fixed_list.hpp | 29 ++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index dfa0342..3417cd6 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -371,7 +371,34 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` may be an element of this list, in which case that element has to be removed last
+        std::size_t index_of_value = NULL_INDEX;
+        size_type removed_counter = 0;
+
+        for (std::size_t i = front_index(); i != end_index();)
+        {
+            if (!(list().at(i) == value))
+            {
+                i = list().next_of(i);
+                continue;
+            }
+            if (std::addressof(list().at(i)) == std::addressof(value))
+            {
+                index_of_value = i;
+                i = list().next_of(i);
+                continue;
+            }
+            i = list().delete_at_and_return_next_index(i);
+            ++removed_counter;
+        }
+
+        if (index_of_value != NULL_INDEX)
+        {
+            destroy_at(index_of_value);
+            ++removed_counter;
+        }
+
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
-- 
2.43.0


From ca1f9d6c6b693d420feb60133f0ccda853bce65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:12 +0000
Subject: [PATCH 09/41] fix: a throwing element constructor must not leak a
 slot or corrupt FixedDoublyLinkedList

The size was incremented and the slot taken from the freelist before the
element was constructed, leaving a list whose size counts an element that does
not exist and a slot that is lost.
---
 .../fixed_doubly_linked_list.hpp              |  2 +-
 .../fixed_index_based_storage.hpp             | 22 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index e72ff58..3cfd5bf 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -65,9 +65,9 @@ public:
     template <typename... Args>
     constexpr IndexType emplace_after_index_and_return_index(IndexType idx, Args&&... args)
     {
-        increment_size();
         auto new_idx =
             static_cast<IndexType>(storage().emplace_and_return_index(std::forward<Args>(args)...));
+        increment_size();
         next_of(new_idx) = next_of(idx);
         prev_of(next_of(new_idx)) = new_idx;
         prev_of(new_idx) = idx;
diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..c29ce4b 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -64,8 +64,10 @@ public:
     {
         assert_or_abort(!full());
         const std::size_t index = next_index();
-        set_next_index(array_unchecked_at(next_index()).index);
+        FreeSlotGuard guard{*this, index, array_unchecked_at(index).index};
         emplace_at(index, std::forward<Args>(args)...);
+        guard.constructed = true;
+        set_next_index(guard.next_free_index);
         return index;
     }
 
@@ -111,6 +113,24 @@ public:
     }
 
 private:
+    // The link to the next free slot shares storage with the value: if constructing the value
+    // throws, the slot remains free and the link has to be restored.
+    struct FreeSlotGuard
+    {
+        FixedIndexBasedPoolStorage& storage;
+        std::size_t index;
+        std::size_t next_free_index;
+        bool constructed{false};
+
+        constexpr ~FreeSlotGuard()
+        {
+            if (!constructed)
+            {
+                storage.array_unchecked_at(index).index = next_free_index;
+            }
+        }
+    };
+
     [[nodiscard]] constexpr const IndexOrValueT& array_unchecked_at(const std::size_t index) const
     {
         return IMPLEMENTATION_DETAIL_DO_NOT_USE_array_[index];
-- 
2.43.0


From 425d1823757bc4e2417ec898589b0de86178fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:40 +0000
Subject: [PATCH 10/41] fix: FixedDoublyLinkedList copy must not expose values
 that were never constructed

If copying a value threw, the list kept the size and chain of the source, so
that clear() and the destructor destroyed values that do not exist.
---
 .../fixed_doubly_linked_list.hpp              | 27 ++++++++++++++++++-
 .../fixed_index_based_storage.hpp             |  8 +++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index 3cfd5bf..e7068aa 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -159,6 +159,30 @@ class FixedDoublyLinkedList : public FixedDoublyLinkedListBase<T, MAXIMUM_SIZE,
 {
     using Base = FixedDoublyLinkedListBase<T, MAXIMUM_SIZE, IndexType>;
 
+    // If copying a value throws, the values from that one on do not exist: leave an empty list
+    struct CopyGuard
+    {
+        FixedDoublyLinkedList& list;
+        IndexType next_to_copy;
+
+        constexpr ~CopyGuard()
+        {
+            if (next_to_copy == Base::NULL_INDEX)
+            {
+                return;
+            }
+            const IndexType last_copied = list.prev_of(next_to_copy);
+            for (auto i = next_to_copy; i != Base::NULL_INDEX; i = list.next_of(i))
+            {
+                list.IMPLEMENTATION_DETAIL_DO_NOT_USE_storage_.return_unconstructed_index(i);
+                list.IMPLEMENTATION_DETAIL_DO_NOT_USE_size_--;
+            }
+            list.next_of(last_copied) = Base::NULL_INDEX;
+            list.prev_of(Base::NULL_INDEX) = last_copied;
+            list.clear();
+        }
+    };
+
 public:
     // clang-format off
     constexpr FixedDoublyLinkedList() noexcept : Base() { }
@@ -206,7 +230,8 @@ public:
 
         // then we need to do an explicit copy of each value. We know where these are by using the
         // `chain_`
-        for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
+        CopyGuard guard{*this, other.front_index()};
+        for (auto& i = guard.next_to_copy; i != Base::NULL_INDEX; i = other.next_of(i))
         {
             std::construct_at(&this->at(i), other.at(i));
         }
diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index c29ce4b..44e0c5f 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -74,9 +74,15 @@ public:
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
         destroy_at(index);
+        return_unconstructed_index(index);
+        return index;
+    }
+
+    // Marks a slot that does not contain a value as free.
+    constexpr void return_unconstructed_index(const std::size_t index) noexcept
+    {
         array_unchecked_at(index).index = next_index();
         set_next_index(index);
-        return index;
     }
 
     // Set the freelist of `this` to match the freelist of `other`. This only makes sense if
-- 
2.43.0


From bc56a08e574883ae32bedfa0cf5a99ce79a68c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:35 +0000
Subject: [PATCH 11/41] fix: inserting an empty range must not relocate the
 tail onto itself

---
 include/fixed_containers/fixed_deque.hpp  | 6 ++++++
 include/fixed_containers/fixed_vector.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index dca3a54..29d72d9 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -607,6 +607,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Must not relocate the tail onto itself.
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index abe4199..7e49c6d 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -617,6 +617,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Must not relocate the tail onto itself.
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
-- 
2.43.0


From a408694d0bd9c5d0a10de0a7b2ab64bc6c347ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:22 +0000
Subject: [PATCH 12/41] fix: FixedSet::rend() must not depend on which element
 occupies slot 0

rend() was built from node index 0, so reverse iteration stopped early (or, on an
empty set, walked unconstructed nodes) unless the smallest element happened to be
the first one inserted.
---
 include/fixed_containers/fixed_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..a0fb91d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
-- 
2.43.0


From b983c638b477398e7daa08511ae4967ec1999491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:53 +0000
Subject: [PATCH 13/41] fix: converting a reverse_iterator to
 const_reverse_iterator must not advance it

The converting constructor delegated to the constructor that positions a reverse
iterator from its base, which steps once.
---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..f6dfed8 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..4d72d3a 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
-- 
2.43.0


From 144de88312a9cd2e4cc486d70fa59309bbc0b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:06 +0000
Subject: [PATCH 14/41] fix: deleting the last entry of contiguous storage must
 not move it onto itself

delete_at_and_return_repositioned_index() destroyed the entry and then
move-constructed it from itself when it was the last one.
---
 include/fixed_containers/fixed_index_based_storage.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index 44e0c5f..639d5ca 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -205,8 +205,12 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        // The last entry does not need to be replaced (and can't be moved onto itself)
+        if (index + 1 != nodes().size())
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From a09ff36d84386e78f47f1c16e264767729eac0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:06 +0000
Subject: [PATCH 15/41] fix: copying or moving a FixedMap/FixedSet must keep
 its comparator

The copy/move operations for non-trivial types used a default-constructed
(construction) or the previous (assignment) comparator, so the order of the
copy differed from the source. The trivial versions already carry it over.
---
 include/fixed_containers/fixed_red_black_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..8fc7cc6 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -896,7 +896,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +914,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +943,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +969,8 @@ public:
         }
 
         this->clear();
+        this->IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_;
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
-- 
2.43.0


From 9550c893425d55ec26f5eb60dc2b44c39d907a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:46 +0000
Subject: [PATCH 16/41] fix: a throwing copy assignment must not leave a
 FixedUnorderedMap/Set with dangling buckets

Copying the values destroys the old ones first and drops the new ones if a copy
throws, but the buckets still referred to them, so later lookups accessed
values that no longer exist.
---
 .../fixed_robinhood_hashtable.hpp             | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_robinhood_hashtable.hpp b/include/fixed_containers/fixed_robinhood_hashtable.hpp
index 69094d9..c883909 100644
--- a/include/fixed_containers/fixed_robinhood_hashtable.hpp
+++ b/include/fixed_containers/fixed_robinhood_hashtable.hpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <array>
 #include <cstdint>
+#include <type_traits>
 #include <utility>
 
 // This is a modified version of the dense hashmap from https://github.com/martinus/unordered_dense,
@@ -387,7 +388,28 @@ public:
     = default;
 
     constexpr FixedRobinhoodHashtable(FixedRobinhoodHashtable&& other) = default;
-    constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other) = default;
+    constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other)
+        requires std::is_trivially_copy_assignable_v<PairType>
+    = default;
+    constexpr FixedRobinhoodHashtable& operator=(const FixedRobinhoodHashtable& other)
+    {
+        if (this == &other)
+        {
+            return *this;
+        }
+
+        // Copying the values can throw and leaves no values behind in that case, so no bucket may
+        // refer to one until all of them have been copied.
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ = {};
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_;
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_ = other.IMPLEMENTATION_DETAIL_DO_NOT_USE_hash_;
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_key_equal_;
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ =
+            other.IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_;
+        return *this;
+    }
     constexpr FixedRobinhoodHashtable& operator=(FixedRobinhoodHashtable&& other) = default;
 };
 
-- 
2.43.0


From 81f5936606dc6732820d18c60f4d6553dc3a8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:01 +0000
Subject: [PATCH 17/41] fix: FixedString must reject an excessive length before
 modifying the string

The storage has room for MAXIMUM_LENGTH + 1 characters, so a string that was
one character too long was stored first, without a terminator, and only
reported afterwards.
---
 include/fixed_containers/fixed_string.hpp | 84 +++++++++++++++++------
 1 file changed, 64 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..cc37498 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -7,11 +7,14 @@
 #include "fixed_containers/sequence_container_checking.hpp"
 #include "fixed_containers/source_location.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
+#include <iterator>
 #include <string_view>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -111,6 +114,7 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(count, loc);
         vec().assign(count, character, loc);
         null_terminate(loc);
         return *this;
@@ -121,25 +125,25 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().assign(first, last, loc);
-        null_terminate(loc);
+        if constexpr (IS_MULTI_PASS<InputIt>)
+        {
+            check_target_length(static_cast<std::size_t>(std::distance(first, last)), loc);
+        }
+        vec().clear();
+        insert_range(cend(), first, last, loc);
         return *this;
     }
     constexpr FixedString& assign(
         std::initializer_list<CharT> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().assign(ilist, loc);
-        null_terminate(loc);
-        return *this;
+        return assign(ilist.begin(), ilist.end(), loc);
     }
     constexpr FixedString& assign(
         const std::string_view& view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().assign(view.begin(), view.end(), loc);
-        null_terminate(loc);
-        return *this;
+        return assign(view.begin(), view.end(), loc);
     }
 
     [[nodiscard]] constexpr reference operator[](size_type index) noexcept
@@ -245,6 +249,7 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(length() + 1, loc);
         const ScopedNullTermination guard{this, loc};
         return vec().insert(pos, character, loc);
     }
@@ -255,24 +260,21 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, first, last, loc);
+        return insert_range(pos, first, last, loc);
     }
     constexpr iterator insert(
         const_iterator pos,
         std::initializer_list<CharT> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, ilist, loc);
+        return insert_range(pos, ilist.begin(), ilist.end(), loc);
     }
     constexpr iterator insert(
         const_iterator pos,
         std::string_view view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, view.begin(), view.end(), loc);
+        return insert_range(pos, view.begin(), view.end(), loc);
     }
 
     constexpr iterator erase(
@@ -295,6 +297,7 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(length() + 1, loc);
         vec().push_back(character, loc);
         null_terminate(loc);
     }
@@ -319,24 +322,21 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().insert(vec().cend(), first, last, loc);
-        null_terminate(loc);
+        insert_range(cend(), first, last, loc);
         return *this;
     }
     constexpr FixedString& append(
         std::initializer_list<CharT> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().insert(vec().cend(), ilist, loc);
-        null_terminate(loc);
+        insert_range(cend(), ilist.begin(), ilist.end(), loc);
         return *this;
     }
     constexpr FixedString& append(
         const std::string_view& view,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        vec().insert(vec().cend(), view.begin(), view.end(), loc);
-        null_terminate(loc);
+        insert_range(cend(), view.begin(), view.end(), loc);
         return *this;
     }
 
@@ -623,11 +623,55 @@ public:
         CharT character,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_length(count, loc);
         vec().resize(count, character, loc);
         null_terminate(loc);
     }
 
 private:
+    template <class InputIt>
+    static constexpr bool IS_MULTI_PASS =
+        std::is_convertible_v<typename std::iterator_traits<InputIt>::iterator_category,
+                              std::forward_iterator_tag>;
+
+    // The underlying storage has room for one character more than the string, so it can't be relied
+    // upon to reject a length that exceeds the maximum.
+    constexpr void check_target_length(const std::size_t target_length,
+                                       const std_transition::source_location& loc) const
+    {
+        if (preconditions::test(target_length <= MAXIMUM_LENGTH))
+        {
+            Checking::length_error(target_length, loc);
+        }
+    }
+
+    template <class InputIt>
+    constexpr iterator insert_range(const_iterator pos,
+                                    InputIt first,
+                                    InputIt last,
+                                    const std_transition::source_location& loc)
+    {
+        const ScopedNullTermination guard{this, loc};
+        if constexpr (IS_MULTI_PASS<InputIt>)
+        {
+            check_target_length(
+                length() + static_cast<std::size_t>(std::distance(first, last)), loc);
+            return vec().insert(pos, first, last, loc);
+        }
+        else
+        {
+            const difference_type offset = std::distance(cbegin(), pos);
+            const auto original_length = static_cast<difference_type>(length());
+            for (; first != last; ++first)
+            {
+                push_back(*first, loc);
+            }
+            const iterator first_it = std::next(begin(), offset);
+            std::rotate(first_it, std::next(begin(), original_length), end());
+            return first_it;
+        }
+    }
+
     constexpr void null_terminate(std::size_t n)
     {
         // This bypasses the vector's bounds check
-- 
2.43.0


From e29871a0b4515212be30c22fddec1554c9321948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:01 +0000
Subject: [PATCH 18/41] fix: FixedString::substr must accept pos == length()

As with std::string, the result is empty. In particular, substr() of an empty
string was rejected.
---
 include/fixed_containers/fixed_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index cc37498..08a09d2 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -603,7 +603,7 @@ public:
         const std_transition::source_location& loc =
             std_transition::source_location::current()) const
     {
-        if (preconditions::test(pos < length()))
+        if (preconditions::test(pos <= length()))
         {
             Checking::out_of_range(pos, length(), loc);
         }
-- 
2.43.0


From 14635cb8be01e5eae18baa37b340d8db49f37c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 19/41] fix: istream >> FixedString must only extract the word

As with std::string, what follows the word is left in the stream. Reading one
character too many consumed the delimiter, reported a failure for a word at the
end of the stream and rejected a word that fits exactly.
---
 include/fixed_containers/fixed_string.hpp | 35 ++++++++---------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 08a09d2..9def245 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
@@ -708,34 +709,22 @@ std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, Check
     // Skip leading whitespace (`std::istream >> std::string` behaves the same way)
     stream >> std::ws;
 
-    char character{};
-    stream.get(character);
-
-    // If EOF/error, put the character back and return
-    if (stream.eof() || stream.fail())
+    // Only extract characters that are part of the word. What comes after it (whitespace or the end
+    // of the stream) is not an error and remains in the stream.
+    for (int character = stream.peek(); stream.good() && std::isspace(character) == 0;
+         character = stream.peek())
     {
-        return stream.putback(character);
-    }
-
-    for (; !std::isspace(character) && !is_full(str) && !stream.eof() && !stream.fail();
-         stream.get(character))
-    {
-        str.push_back(character);
+        if (preconditions::test(!is_full(str)))
+        {
+            CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
+                                       std_transition::source_location::current());
+        }
+        str.push_back(static_cast<char>(stream.get()));
     }
 
-    if (stream.fail())
+    if (str.empty())
     {
         stream.setstate(std::ios::failbit);
-        return stream;
-    }
-
-    const bool string_is_full = is_full(str);
-    const bool stream_eof = stream.eof();
-    const bool has_exceeded_capacity = string_is_full && !stream_eof;
-    if (preconditions::test(!has_exceeded_capacity))
-    {
-        CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-                                   std_transition::source_location::current());
     }
 
     return stream;
-- 
2.43.0


From c2f50067375a7f3a8cdd1a04189c07a3f5ac44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 20/41] fix: FixedString::operator+=(char) did not compile

There is no append(char).
---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 9def245..072bb14 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -343,7 +343,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From 462b7eead8ab1313121d9935758c885bc78ffa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 21/41] fix: copying an EnumMap must not claim entries that
 have not been copied

If copying a value throws, the map (or its destructor) treated the entries that
had not been copied yet as present.
---
 include/fixed_containers/enum_map.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..ef9a957 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -821,14 +821,15 @@ public:
     constexpr EnumMap(const EnumMap& other)
       : EnumMap()
     {
-        this->array_set() = other.array_set();
-        this->set_size(other.size());
+        // An entry is only present once it has been copied: copying can throw
         for (std::size_t i = 0; i < Base::ENUM_COUNT; i++)
         {
-            if (this->contains_at(i))
+            if (other.contains_at(i))
             {
                 memory::construct_at_address_of(this->values_unchecked_at(i),
                                                 other.values_unchecked_at(i));
+                this->array_set_unchecked_at(i) = true;
+                this->increment_size();
             }
         }
     }
@@ -857,14 +858,15 @@ public:
         }
 
         this->clear();
-        this->array_set() = other.array_set();
-        this->set_size(other.size());
+        // An entry is only present once it has been copied: copying can throw
         for (std::size_t i = 0; i < Base::ENUM_COUNT; i++)
         {
-            if (this->contains_at(i))
+            if (other.contains_at(i))
             {
                 memory::construct_at_address_of(this->values_unchecked_at(i),
                                                 other.values_unchecked_at(i));
+                this->array_set_unchecked_at(i) = true;
+                this->increment_size();
             }
         }
         return *this;
-- 
2.43.0


From 464931863c54faf8e06b6263adcda4efe4945d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:34 +0000
Subject: [PATCH 22/41] fix: FixedStack/FixedQueue::emplace must return the
 reference to the new element

The return statement was missing, so decltype(auto) deduced void, unlike
std::stack and std::queue.
---
 include/fixed_containers/queue_adapter.hpp | 2 +-
 include/fixed_containers/stack_adapter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index 64dc02f..e873af2 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -91,7 +91,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index c02b0b1..1332e76 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -76,7 +76,7 @@ public:
     template <class... Args>
     constexpr decltype(auto) emplace(Args&&... args)
     {
-        IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
+        return IMPLEMENTATION_DETAIL_DO_NOT_USE_data_.emplace_back(std::forward<Args>(args)...);
     }
 
     constexpr void pop(
-- 
2.43.0


From b84310bb75622292ac0a097c9bcf438bfd5529f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:57 +0000
Subject: [PATCH 23/41] fix: copying a FixedVector/FixedDeque must propagate an
 element's exception

The copy constructors are not noexcept, but delegated to the noexcept range
constructor, so a throwing element copy ended in std::terminate.
---
 include/fixed_containers/fixed_deque.hpp  | 4 +++-
 include/fixed_containers/fixed_vector.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 29d72d9..57f6257 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -892,8 +892,10 @@ public:
     = default;
 
     constexpr FixedDeque(const FixedDeque& other)
-      : FixedDeque(other.begin(), other.end())
+      : FixedDeque()
     {
+        // Not via the (noexcept) range constructor: copying an element may throw
+        this->insert(this->cend(), other.begin(), other.end());
     }
     constexpr FixedDeque(FixedDeque&& other) noexcept
       : FixedDeque()
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 7e49c6d..6352484 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -870,8 +870,10 @@ public:
     = default;
 
     constexpr FixedVector(const FixedVector& other)
-      : FixedVector(other.begin(), other.end())
+      : FixedVector()
     {
+        // Not via the (noexcept) range constructor: copying an element may throw
+        this->insert(this->cend(), other.begin(), other.end());
     }
     constexpr FixedVector(FixedVector&& other) noexcept
       : FixedVector()
-- 
2.43.0


From 48a8219d7070e2c4436d9dabb3a240222a23c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:25 +0000
Subject: [PATCH 24/41] fix: FixedDoublyLinkedListRawView rounds the element
 size up to the storage's alignment

The pool stores unions of T and std::size_t, whose size is a multiple of the
stricter alignment. The view only took the larger of the two sizes, so it read
the wrong bytes for elements such as a 12-byte struct (FixedList,
FixedUnorderedMap and FixedUnorderedSet views).
---
 .../fixed_doubly_linked_list_raw_view.hpp            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
index c75e441..af6f722 100644
--- a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
@@ -66,7 +66,8 @@ public:
                                  std::size_t max_elem_count)
       : list_ptr_{static_cast<const std::byte*>(list_ptr)}
       // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big
-      , elem_size_bytes_{std::max(elem_size_bytes, sizeof(std::size_t))}
+      // and their size is a multiple of the stricter of the two alignments
+      , elem_size_bytes_{union_size(elem_size_bytes, elem_align_bytes)}
       , elem_align_bytes_{std::max(elem_align_bytes, alignof(std::size_t))}
       , max_elem_count_{max_elem_count}
     {
@@ -84,6 +85,15 @@ public:
             std::next(list_ptr_, value_storage_size() + chain_size()));
     }
 
+private:
+    static constexpr std::size_t union_size(const std::size_t elem_size_bytes,
+                                            const std::size_t elem_align_bytes) noexcept
+    {
+        const std::size_t size = std::max(elem_size_bytes, sizeof(std::size_t));
+        const std::size_t align = std::max(elem_align_bytes, alignof(std::size_t));
+        return (size + align - 1) / align * align;
+    }
+
 public:
     [[nodiscard]] constexpr std::ptrdiff_t value_storage_size() const noexcept
     {
-- 
2.43.0


From 90b0409333ff0380958c136d2b36f5c289ac3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:20 +0000
Subject: [PATCH 25/41] fix: default-constructed reverse iterators do not step
 their empty provider

---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index f6dfed8..b04753d 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -68,7 +68,7 @@ private:
 
 public:
     constexpr BidirectionalIterator() noexcept
-      : BidirectionalIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 4d72d3a..dbbabea 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -70,7 +70,7 @@ private:
 
 public:
     constexpr RandomAccessIterator() noexcept
-      : RandomAccessIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
-- 
2.43.0


From b7013f1352109e0c496763814fe1bf0653cbce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:21 +0000
Subject: [PATCH 26/41] fix: OptionalReference::emplace compiles and rebinds

---
 include/fixed_containers/optional_reference.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index aa55967..ae85235 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -138,10 +138,10 @@ public:
 
     constexpr void reset() noexcept { val() = nullptr; }
 
-    constexpr reference emplace(reference val) noexcept
+    constexpr reference emplace(reference value) noexcept
     {
-        val() = &val;
-        return val;
+        val() = std::addressof(value);
+        return value;
     }
 
 private:
-- 
2.43.0


From 228489aa7a200a75fc0157d708287951a3a640cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:21 +0000
Subject: [PATCH 27/41] fix: ContiguousRangeSubStructView iterators can be
 default constructed

---
 include/fixed_containers/struct_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 0514118..fa03846 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -795,7 +795,8 @@ class ContiguousRangeSubStructView
 
     public:
         constexpr ReferenceProvider() noexcept
-          : ReferenceProvider{nullptr, 0}
+          : accessing_info_{nullptr}
+          , current_index_{0}
         {
         }
 
-- 
2.43.0


From 44ce53ffec77076855525a8f097c8d5afefeafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:21 +0000
Subject: [PATCH 28/41] fix: StructView::try_add_paths compiles

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index fa03846..2b4ab22 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -598,7 +598,7 @@ public:
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
         auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), paths);
+            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
-- 
2.43.0


From d61fbcf1aa6e7219938f4b229609c98bb47b2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:21 +0000
Subject: [PATCH 29/41] fix: sub_struct_view_of empties the optionals that are
 empty in the super struct

---
 include/fixed_containers/struct_view.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 2b4ab22..a8ad786 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -199,6 +199,7 @@ struct OptionalCallInterface
 {
     std::function<bool(const void*)> has_value;
     std::function<void(void*)> emplace_default;
+    std::function<void(void*)> reset;
 };
 
 struct ResizableInterableCallInterface
@@ -252,7 +253,9 @@ struct MetadataExtractor<T>
                 OptionalCallInterface{.has_value = [](const void* instance)
                                       { return static_cast<const Type*>(instance)->has_value(); },
                                       .emplace_default = [](void* instance)
-                                      { static_cast<Type*>(instance)->emplace(); }}};
+                                      { static_cast<Type*>(instance)->emplace(); },
+                                      .reset = [](void* instance)
+                                      { static_cast<Type*>(instance)->reset(); }}};
     }
 };
 
@@ -706,7 +709,11 @@ void sub_struct_view_of(void* super_struct_base_pointer,
                     std::any_cast<OptionalCallInterface>(path_properties.metadata.call_interface);
                 auto super_api = std::any_cast<OptionalCallInterface>(
                     super_struct_path_properties.metadata.call_interface);
-                if (super_api.has_value(super_struct_field_ptr) && !sub_api.has_value(field_ptr))
+                if (!super_api.has_value(super_struct_field_ptr))
+                {
+                    sub_api.reset(field_ptr);
+                }
+                else if (!sub_api.has_value(field_ptr))
                 {
                     sub_api.emplace_default(field_ptr);
                 }
-- 
2.43.0


From b5b0e081bd6216d8148e7b4c4ed2ccb7d3be0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:21 +0000
Subject: [PATCH 30/41] fix: sub_struct_view_of does not touch elements past
 the size or values of empty optionals

---
 include/fixed_containers/struct_view.hpp | 61 ++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index a8ad786..34eec35 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -668,6 +668,56 @@ void for_each_field(const StructView<MAXIMUM_SIZE>& struct_view,
     }
 }
 
+// `for_each_field` runs to the capacity of iterables and into empty optionals. Returns whether the
+// field designated by path and indices is inside an object that currently exists.
+template <std::size_t MAXIMUM_SIZE = MAX_NUM_PATHS>
+bool field_exists(const void* base_pointer,
+                  const StructView<MAXIMUM_SIZE>& struct_view,
+                  const PathNameChain& path,
+                  const Indices& indices)
+{
+    PathNameChain parent_path{};
+    Indices parent_indices{};
+    for (const std::string_view& name : path)
+    {
+        const bool is_element = name == struct_view_detail::ITERABLE_PATH_NAME;
+        const bool is_optional_value = name == struct_view_detail::OPTIONAL_PATH_NAME;
+        const auto& path_map = struct_view.get_path_map_ref();
+        const auto parent =
+            is_element || is_optional_value ? path_map.find(parent_path) : path_map.cend();
+        if (parent != path_map.cend())
+        {
+            const auto& metadata = parent->second.metadata;
+            const void* const parent_ptr = struct_view_detail::get_field<const void*, const void*>(
+                base_pointer, parent->second, parent_indices);
+            if (metadata.metadata_type == struct_view_detail::ITERABLE_RESIZABLE)
+            {
+                const auto& api =
+                    std::any_cast<const ResizableInterableCallInterface&>(metadata.call_interface);
+                if (indices.at(parent_indices.size()) >= api.size(parent_ptr))
+                {
+                    return false;
+                }
+            }
+            else if (metadata.metadata_type == struct_view_detail::OPTIONAL)
+            {
+                const auto& api =
+                    std::any_cast<const OptionalCallInterface&>(metadata.call_interface);
+                if (!api.has_value(parent_ptr))
+                {
+                    return false;
+                }
+            }
+        }
+        if (is_element)
+        {
+            parent_indices.push_back(indices.at(parent_indices.size()));
+        }
+        parent_path.push_back(name);
+    }
+    return true;
+}
+
 template <std::size_t SUPER_STRUCT_VIEW_MAXIMUM_SIZE = MAX_NUM_PATHS,
           std::size_t SUB_STRUCT_VIEW_MAXIMUM_SIZE = MAX_NUM_PATHS>
 void sub_struct_view_of(void* super_struct_base_pointer,
@@ -679,9 +729,15 @@ void sub_struct_view_of(void* super_struct_base_pointer,
     for_each_field(
         sub_struct_view,
         sub_struct_base_pointer,
-        [super_struct_base_pointer, &super_struct_view](
+        [super_struct_base_pointer, &super_struct_view, sub_struct_base_pointer, &sub_struct_view](
             const auto& path, const auto& path_properties, const auto& indices, void* field_ptr)
         {
+            if (!field_exists(super_struct_base_pointer, super_struct_view, path, indices) ||
+                !field_exists(sub_struct_base_pointer, sub_struct_view, path, indices))
+            {
+                return;
+            }
+
             const auto& super_struct_path_properties = super_struct_view.at(path);
             const auto super_struct_field_ptr =
                 struct_view_detail::get_field<const void*, const void*>(
@@ -694,8 +750,7 @@ void sub_struct_view_of(void* super_struct_base_pointer,
                     path_properties.metadata.call_interface);
                 auto super_api = std::any_cast<ResizableInterableCallInterface>(
                     super_struct_path_properties.metadata.call_interface);
-                // sometimes resize will be called with undefined size (since for each field runs to
-                // maximum capacity), this is to ensure resize does not throw
+                // this is to ensure resize does not throw
                 if (super_api.size(super_struct_field_ptr) <= sub_api.capacity(field_ptr))
                 {
                     sub_api.resize(field_ptr, super_api.size(super_struct_field_ptr));
-- 
2.43.0


From 049787afe9df856821e5e46a54bd35fafd7c2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:14 +0000
Subject: [PATCH 31/41] fix: containers that differ only in policy, comparator
 or storage can be compared with ==

---
 include/fixed_containers/fixed_deque.hpp  | 2 +-
 include/fixed_containers/fixed_list.hpp   | 2 +-
 include/fixed_containers/fixed_map.hpp    | 3 ++-
 include/fixed_containers/fixed_set.hpp    | 3 ++-
 include/fixed_containers/fixed_vector.hpp | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 57f6257..674fed9 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -503,7 +503,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedDequeBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(this), decltype(&other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 3417cd6..e0dabd8 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -463,7 +463,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedList<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(this), decltype(&other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 60d952a..c1fe1a4 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -630,7 +631,7 @@ public:
                                                            StorageTemplate2,
                                                            CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(this), decltype(&other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index a0fb91d..d954441 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <functional>
 #include <memory>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -391,7 +392,7 @@ public:
         const FixedSet<K, MAXIMUM_SIZE_2, Compare2, COMPACTNESS_2, StorageTemplate2, CheckingType2>&
             other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(this), decltype(&other)>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 6352484..8d19857 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -577,7 +577,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedVectorBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(this), decltype(&other)>)
         {
             if (this == &other)
             {
-- 
2.43.0


From b48208b92b4aaf86522ff0ed1c0fb847cb3df74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:24 +0000
Subject: [PATCH 32/41] fix: EnumMap::insert_or_assign works for values that
 are not trivially copyable

---
 include/fixed_containers/enum_map.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ef9a957..77ef005 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -471,8 +471,18 @@ public:
         {
             increment_size();
             array_set_unchecked_at(ordinal) = true;
+            memory::construct_at_address_of(
+                values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        }
+        else if constexpr (IsReference<V>)
+        {
+            // Rebind
+            values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
+        }
+        else
+        {
+            unchecked_at(ordinal) = std::forward<M>(obj);
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
         return {create_iterator(ordinal), is_insertion};
     }
     template <class M>
-- 
2.43.0


From 599461d3c1ef64f755f941b5aea4385369815440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:40 +0000
Subject: [PATCH 33/41] fix: hash floating-point keys by representation instead
 of an undefined conversion to an integer

wyhash::hash<double> converted the key to std::uint64_t, which is undefined for
negative and for large values: with clang -O1, inserting -1.5 into a
FixedUnorderedSet<double, N> crashed.
---
 include/fixed_containers/wyhash.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 8acd105..4033a96 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -1,12 +1,14 @@
 #pragma once
 
 #include <array>
+#include <bit>
 #include <cstdint>
 #include <cstring>
 #include <functional>
 #include <iterator>
 #include <memory>
 #include <string>
+#include <type_traits>
 
 // This is a stripped-down implementation of wyhash: https://github.com/wangyi-fudan/wyhash
 // No big-endian support (because different values on different machines don't matter),
@@ -225,7 +227,7 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires std::convertible_to<T, std::uint64_t>
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_floating_point_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
@@ -234,4 +236,18 @@ struct hash<T>
     }
 };
 
+template <typename T>
+    requires std::is_floating_point_v<T>
+struct hash<T>
+{
+    constexpr std::uint64_t operator()(T value) const noexcept
+    {
+        // Not a conversion to an integer: that is undefined for negative and for large values.
+        // The two zeros have different representations, but are equal.
+        const bool is_nonzero = value < T{0} || T{0} < value;
+        const double normalized = is_nonzero ? static_cast<double>(value) : 0.0;
+        return wyhash_detail::hash(std::bit_cast<std::uint64_t>(normalized));
+    }
+};
+
 }  // namespace fixed_containers::wyhash
-- 
2.43.0


From 2694181cb9d01c937fb43df1f9c9091e48662a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:39 +0000
Subject: [PATCH 34/41] fix: compute the cycle count of a wrapped decrement
 without signed overflow

For a range of length 1 the cycle count of FIXED_DEQUE_STARTING_OFFSET does not
fit a signed integer: FixedDeque<T, 1>::push_front was undefined behaviour and
could not be evaluated at compile time.
---
 include/fixed_containers/circular_indexing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 6ee5a23..4c276dd 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -63,7 +63,9 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
         int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
-    out.cycles -= static_cast<std::int64_t>(negative_cycles);
+    // Either count can exceed what a signed integer holds, so that only the difference is signed
+    out.cycles = static_cast<std::int64_t>(static_cast<std::uint64_t>(out.cycles) -
+                                           static_cast<std::uint64_t>(negative_cycles));
     return out;
 }
 }  // namespace fixed_containers::circular_indexing
-- 
2.43.0


From 794cc6ffb41869d23ec8ce2d0a1994d3a734f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:32 +0000
Subject: [PATCH 35/41] fix: heterogeneous bounds and count cover every
 equivalent key

With a transparent comparator several keys of a FixedMap/FixedSet can be
equivalent to the looked up value. lower_bound, upper_bound, equal_range and
count considered one of them only, whichever the search met first.
---
 include/fixed_containers/fixed_map.hpp        | 21 +++++------
 .../fixed_containers/fixed_red_black_tree.hpp | 35 +++++++++++++++++++
 include/fixed_containers/fixed_set.hpp        | 12 +++----
 3 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index c1fe1a4..9468d0e 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <type_traits>
 
 namespace fixed_containers
@@ -538,7 +539,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr iterator lower_bound(const K& key) noexcept
@@ -553,15 +554,13 @@ public:
     [[nodiscard]] constexpr iterator lower_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_iterator(tree().index_of_first_not_before(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_not_before(key));
     }
 
     [[nodiscard]] constexpr iterator upper_bound(const K& key) noexcept
@@ -576,15 +575,13 @@ public:
     [[nodiscard]] constexpr iterator upper_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_higher(np_idxs));
+        return create_iterator(tree().index_of_first_after(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_after(key));
     }
 
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K& key) noexcept
@@ -602,16 +599,14 @@ public:
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
     template <class K0>
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 8fc7cc6..8790632 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -327,6 +327,22 @@ public:
         return index_of_node_ceiling(index_of_node_with_parent(key));
     }
 
+    // With a transparent comparator, more than one of the keys can be equivalent to `key`
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_not_before(const K0& key) const noexcept
+    {
+        return index_of_first_not(
+            [&](const K& node_key)
+            { return IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(node_key, key); });
+    }
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_after(const K0& key) const noexcept
+    {
+        return index_of_first_not(
+            [&](const K& node_key)
+            { return !IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(key, node_key); });
+    }
+
     template <class K0>
     [[nodiscard]] constexpr bool contains_node(const K0& key) const noexcept
     {
@@ -449,6 +465,25 @@ private:
         IMPLEMENTATION_DETAIL_DO_NOT_USE_size_ = size;
     }
 
+    template <class Predicate>
+    [[nodiscard]] constexpr NodeIndex index_of_first_not(Predicate&& predicate) const
+    {
+        NodeIndex result = NULL_INDEX;
+        for (NodeIndex i = this->root_index(); i != NULL_INDEX;)
+        {
+            if (predicate(tree_storage().key(i)))
+            {
+                i = tree_storage().right_index(i);
+            }
+            else
+            {
+                result = i;
+                i = tree_storage().left_index(i);
+            }
+        }
+        return result;
+    }
+
     template <class K1, class K2>
     [[nodiscard]] constexpr int compare(const K1& left, const K2& right) const
     {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index d954441..c4c1f0e 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <type_traits>
 
@@ -337,7 +338,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr const_iterator lower_bound(const K& key) const noexcept
@@ -348,8 +349,7 @@ public:
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_not_before(key));
     }
 
     [[nodiscard]] constexpr const_iterator upper_bound(const K& key) const noexcept
@@ -360,8 +360,7 @@ public:
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_after(key));
     }
 
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
@@ -375,8 +374,7 @@ public:
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
-- 
2.43.0


From 91d012e3fd4fcc3b4c310ec6270b72826b113fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:35 +0000
Subject: [PATCH 36/41] fix: an unscoped enum can be the key of an unordered
 container

wyhash::hash was ambiguous for it (an enum, and convertible to an integer).
---
 include/fixed_containers/wyhash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 4033a96..48a6bb2 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -227,7 +227,8 @@ struct hash<Enum>
 };
 
 template <typename T>
-    requires(std::convertible_to<T, std::uint64_t> && !std::is_floating_point_v<T>)
+    requires(std::convertible_to<T, std::uint64_t> && !std::is_floating_point_v<T> &&
+             !std::is_enum_v<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From 86e6315f880228dd4da3c54ce4bbe986517bed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 37/41] fix: optional references to partially ordered values
 can be ordered

operator<=> between two optional references deduced its return type, which failed to compile as soon
as the referred type is partially or weakly ordered (such as double).
---
 include/fixed_containers/optional_reference.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index ae85235..94f37d5 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -169,8 +169,8 @@ template <typename T,
           customize::OptionalReferenceChecking<T> CheckT,
           std::three_way_comparable_with<T> U,
           customize::OptionalReferenceChecking<U> CheckU>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs,
-                           const OptionalReference<U, CheckU>& rhs)
+constexpr std::compare_three_way_result_t<T, U> operator<=>(
+    const OptionalReference<T, CheckT>& lhs, const OptionalReference<U, CheckU>& rhs)
 {
     if (lhs.has_value() && rhs.has_value())
     {
@@ -206,9 +206,10 @@ constexpr bool operator==(const OptionalReference<T, CheckT>& lhs,
 // Compares OptionalReference with a nullopt. Equivalent to above when comparing to an optional that
 // does not contain a value.
 template <typename T, customize::OptionalReferenceChecking<T> CheckT>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs, std::nullopt_t /*unused*/)
+constexpr std::strong_ordering operator<=>(const OptionalReference<T, CheckT>& lhs,
+                                           std::nullopt_t /*unused*/)
 {
-    return lhs <=> OptionalReference<T, CheckT>{};
+    return lhs.has_value() <=> false;
 }
 
 // <=> only gives definition for secondary relational operators (ie. <)
-- 
2.43.0


From d75527a6ede6935fa59ed3ccab58a215a3cfc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:08 +0000
Subject: [PATCH 38/41] fix: lists of elements that overload operator& can be
 copied and moved

---
 include/fixed_containers/fixed_doubly_linked_list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index e7068aa..319df88 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -4,6 +4,7 @@
 
 #include <array>
 #include <limits>
+#include <memory>
 
 namespace fixed_containers::fixed_doubly_linked_list_detail
 {
@@ -233,7 +234,7 @@ public:
         CopyGuard guard{*this, other.front_index()};
         for (auto& i = guard.next_to_copy; i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), other.at(i));
+            std::construct_at(std::addressof(this->at(i)), other.at(i));
         }
     }
 
@@ -249,7 +250,7 @@ public:
             other.IMPLEMENTATION_DETAIL_DO_NOT_USE_storage_);
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), std::move(other.at(i)));
+            std::construct_at(std::addressof(this->at(i)), std::move(other.at(i)));
         }
     }
 
-- 
2.43.0


From a449f77097b38de5d2b9ff123385e0546aa9d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:08 +0000
Subject: [PATCH 39/41] fix: set emplace constructs the key from its arguments,
 not from a braced list

---
 include/fixed_containers/fixed_set.hpp        | 19 +++++++++++++++++--
 .../fixed_containers/fixed_set_adapter.hpp    | 19 ++++++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index c4c1f0e..45585d3 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -262,12 +262,12 @@ public:
     template <class... Args>
     constexpr std::pair<const_iterator, bool> emplace(Args&&... args)
     {
-        return insert(K{std::forward<Args>(args)...});
+        return insert(make_key(std::forward<Args>(args)...));
     }
     template <class... Args>
     constexpr iterator emplace_hint(const_iterator hint, Args&&... args)
     {
-        return insert(hint, K{std::forward<Args>(args)...});
+        return insert(hint, make_key(std::forward<Args>(args)...));
     }
 
     constexpr const_iterator erase(const_iterator pos) noexcept
@@ -419,6 +419,21 @@ public:
     }
 
 private:
+    // As in the standard containers, `K(args...)` is what gets built: `K{args...}` would prefer a
+    // constructor taking a std::initializer_list. Braces remain for what only they can initialize.
+    template <class... Args>
+    static constexpr K make_key(Args&&... args)
+    {
+        if constexpr (std::is_constructible_v<K, Args...>)
+        {
+            return K(std::forward<Args>(args)...);
+        }
+        else
+        {
+            return K{std::forward<Args>(args)...};
+        }
+    }
+
     constexpr Tree& tree() { return IMPLEMENTATION_DETAIL_DO_NOT_USE_tree_; }
     [[nodiscard]] constexpr const Tree& tree() const
     {
diff --git a/include/fixed_containers/fixed_set_adapter.hpp b/include/fixed_containers/fixed_set_adapter.hpp
index 2bf9f7a..d629cd4 100644
--- a/include/fixed_containers/fixed_set_adapter.hpp
+++ b/include/fixed_containers/fixed_set_adapter.hpp
@@ -8,6 +8,8 @@
 
 #include <algorithm>
 #include <memory>
+#include <type_traits>
+#include <utility>
 
 namespace fixed_containers
 {
@@ -225,7 +227,7 @@ public:
     template <class... Args>
     constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept
     {
-        return insert(K{std::forward<Args>(args)...});
+        return insert(make_key(std::forward<Args>(args)...));
     }
 
     template <class... Args>
@@ -309,6 +311,21 @@ public:
     }
 
 private:
+    // As in the standard containers, `K(args...)` is what gets built: `K{args...}` would prefer a
+    // constructor taking a std::initializer_list. Braces remain for what only they can initialize.
+    template <class... Args>
+    static constexpr K make_key(Args&&... args)
+    {
+        if constexpr (std::is_constructible_v<K, Args...>)
+        {
+            return K(std::forward<Args>(args)...);
+        }
+        else
+        {
+            return K{std::forward<Args>(args)...};
+        }
+    }
+
     constexpr iterator create_checked_iterator(const TableIndex& index) noexcept
     {
         // check for nonexistent indices and replace them with end() so the iterator compares
-- 
2.43.0


From f575030fbb16d67075d2aadea71bd116c6032b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:08 +0000
Subject: [PATCH 40/41] fix: range constructors and make_ functions do not take
 iterators and locations for elements

---
 include/fixed_containers/fixed_circular_deque.hpp | 4 ++--
 include/fixed_containers/fixed_deque.hpp          | 2 +-
 include/fixed_containers/fixed_list.hpp           | 2 +-
 include/fixed_containers/fixed_vector.hpp         | 2 +-
 include/fixed_containers/queue_adapter.hpp        | 2 +-
 include/fixed_containers/stack_adapter.hpp        | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index d503d4c..b707631 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -51,7 +51,7 @@ public:
                                  const T& value,
                                  const std_transition::source_location& loc =
                                      std_transition::source_location::current()) noexcept
-      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_{(std::min)(count, MAXIMUM_SIZE), value, loc}
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_((std::min)(count, MAXIMUM_SIZE), value, loc)
     {
     }
 
@@ -529,7 +529,7 @@ template <typename T,
     const std_transition::source_location& loc =
         std_transition::source_location::current()) noexcept
 {
-    return {std::begin(list), std::end(list), loc};
+    return FixedCircularDequeType(std::begin(list), std::end(list), loc);
 }
 template <typename T,
           customize::SequenceContainerChecking CheckingType,
diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 674fed9..7dd9209 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -1076,7 +1076,7 @@ template <typename T,
     const std_transition::source_location& loc =
         std_transition::source_location::current()) noexcept
 {
-    return {std::begin(list), std::end(list), loc};
+    return FixedDequeType(std::begin(list), std::end(list), loc);
 }
 template <typename T,
           customize::SequenceContainerChecking CheckingType,
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index e0dabd8..6d5bf04 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -694,7 +694,7 @@ template <typename T,
     const std_transition::source_location& loc =
         std_transition::source_location::current()) noexcept
 {
-    return {std::begin(list), std::end(list), loc};
+    return FixedListType(std::begin(list), std::end(list), loc);
 }
 template <typename T,
           customize::SequenceContainerChecking CheckingType,
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 8d19857..b40fb0b 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -1060,7 +1060,7 @@ template <typename T,
     const std_transition::source_location& loc =
         std_transition::source_location::current()) noexcept
 {
-    return {std::begin(list), std::end(list), loc};
+    return FixedVectorType(std::begin(list), std::end(list), loc);
 }
 template <typename T,
           customize::SequenceContainerChecking CheckingType,
diff --git a/include/fixed_containers/queue_adapter.hpp b/include/fixed_containers/queue_adapter.hpp
index e873af2..9649753 100644
--- a/include/fixed_containers/queue_adapter.hpp
+++ b/include/fixed_containers/queue_adapter.hpp
@@ -33,7 +33,7 @@ public:
                            InputIt last,
                            const std_transition::source_location& loc =
                                std_transition::source_location::current()) noexcept
-      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_{first, last, loc}
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_(first, last, loc)
     {
     }
 
diff --git a/include/fixed_containers/stack_adapter.hpp b/include/fixed_containers/stack_adapter.hpp
index 1332e76..8f2b326 100644
--- a/include/fixed_containers/stack_adapter.hpp
+++ b/include/fixed_containers/stack_adapter.hpp
@@ -33,7 +33,7 @@ public:
                            InputIt last,
                            const std_transition::source_location& loc =
                                std_transition::source_location::current()) noexcept
-      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_{first, last, loc}
+      : IMPLEMENTATION_DETAIL_DO_NOT_USE_data_(first, last, loc)
     {
     }
 
-- 
2.43.0


From 100b3821c00901312988ab3f5cdb2a11e980c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:08 +0000
Subject: [PATCH 41/41] fix: stored values are copied, not listed, when the
 element has an initializer_list constructor

---
 include/fixed_containers/index_or_value_storage.hpp | 12 ++++++------
 include/fixed_containers/optional_storage.hpp       | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fixed_containers/index_or_value_storage.hpp b/include/fixed_containers/index_or_value_storage.hpp
index cdeb54e..793b633 100644
--- a/include/fixed_containers/index_or_value_storage.hpp
+++ b/include/fixed_containers/index_or_value_storage.hpp
@@ -14,8 +14,8 @@ union IndexOrValueStorage
     T value;
     // clang-format off
     constexpr IndexOrValueStorage() noexcept : index{} { }
-    explicit constexpr IndexOrValueStorage(const T& var) : value{var} { }
-    explicit constexpr IndexOrValueStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr IndexOrValueStorage(const T& var) : value(var) { }
+    explicit constexpr IndexOrValueStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr IndexOrValueStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
 
@@ -26,11 +26,11 @@ union IndexOrValueStorage
     // clang-format on
 
     constexpr IndexOrValueStorage(const IndexOrValueStorage& other)
-      : value{other.value}
+      : value(other.value)
     {
     }
     constexpr IndexOrValueStorage(IndexOrValueStorage&& other) noexcept
-      : value{std::move(other.value)}
+      : value(std::move(other.value))
     {
     }
 
@@ -58,8 +58,8 @@ union IndexOrValueStorage<T>
     T value;
     // clang-format off
     constexpr IndexOrValueStorage() noexcept : index{} { }
-    explicit constexpr IndexOrValueStorage(const T& var) : value{var} { }
-    explicit constexpr IndexOrValueStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr IndexOrValueStorage(const T& var) : value(var) { }
+    explicit constexpr IndexOrValueStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr IndexOrValueStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
     // clang-format on
diff --git a/include/fixed_containers/optional_storage.hpp b/include/fixed_containers/optional_storage.hpp
index ddfea53..2fa83a8 100644
--- a/include/fixed_containers/optional_storage.hpp
+++ b/include/fixed_containers/optional_storage.hpp
@@ -19,8 +19,8 @@ union OptionalStorage
     T value;
     // clang-format off
     constexpr OptionalStorage() noexcept : dummy_generic{} { }
-    explicit constexpr OptionalStorage(const T& var) : value{var} { }
-    explicit constexpr OptionalStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr OptionalStorage(const T& var) : value(var) { }
+    explicit constexpr OptionalStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr OptionalStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
 
@@ -31,11 +31,11 @@ union OptionalStorage
     // clang-format on
 
     constexpr OptionalStorage(const OptionalStorage& other)
-      : value{other.value}
+      : value(other.value)
     {
     }
     constexpr OptionalStorage(OptionalStorage&& other) noexcept
-      : value{std::move(other.value)}
+      : value(std::move(other.value))
     {
     }
 
@@ -67,8 +67,8 @@ union OptionalStorage<T>
     T value;
     // clang-format off
     constexpr OptionalStorage() noexcept : dummy_trivially_copyable{} { }
-    explicit constexpr OptionalStorage(const T& var) : value{var} { }
-    explicit constexpr OptionalStorage(T&& var) : value{std::move(var)} { }
+    explicit constexpr OptionalStorage(const T& var) : value(var) { }
+    explicit constexpr OptionalStorage(T&& var) : value(std::move(var)) { }
     template <class... Args>
     explicit constexpr OptionalStorage(std::in_place_t /*unused*/, Args&&... args) : value(std::forward<Args>(args)...) { }
 
-- 
2.43.0

