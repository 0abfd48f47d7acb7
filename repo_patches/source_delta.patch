From 1f09668cded41f3b961d234d490b8578781abdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:42 +0000
Subject: [PATCH 01/64] fix: Queue::erase_first shifts the elements after the
 erased one toward the front

---
 rpp/queue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..26d7842 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -242,15 +242,16 @@ struct Queue {
     {
         bool found = false;
         u64 idx = start_idx();
+        u64 prev = idx;
         u64 consumed = 0;
         while(consumed < length_) {
             u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
             if(found) {
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
@@ -258,6 +259,7 @@ struct Queue {
                 }
                 found = true;
             }
+            prev = idx;
             idx = next;
             consumed++;
         }
-- 
2.43.0


From 08fd4f4e525b0cdcad267e91855cd33b4e91a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:55 +0000
Subject: [PATCH 02/64] fix: Queue::clone copies every element of a non-trivial
 queue

---
 rpp/queue.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index 26d7842..19d39a7 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,16 +77,14 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            for(u64 n = 0; n < length_; n++) {
+                u64 i = idx_at(n);
                 new(&ret.data_[i]) T{data_[i].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
+            for(u64 n = 0; n < length_; n++) {
+                u64 i = idx_at(n);
                 new(&ret.data_[i]) T{data_[i]};
             }
         }
-- 
2.43.0


From 6d8c220631c82440f6dad8ea6cc13a7d1213cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 03/64] fix: Map::get_or_insert(K&&) compiles when instantiated

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..4b1e39d 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -330,7 +330,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From 5101d55099877c549495362067c299c9dfe25282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 04/64] fix: Map::insert of an existing key does not count it
 twice

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 4b1e39d..c3cf954 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -163,6 +163,7 @@ struct Map {
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
+        length_ = 0;
 
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
@@ -219,7 +220,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -229,7 +229,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -412,6 +411,7 @@ private:
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
                 data_[idx] = rpp::move(slot);
+                length_ += 1;
                 return placement ? *placement : data_[idx];
             }
             if(hash == slot.hash && data_[idx].data->first == slot.data->first) {
-- 
2.43.0


From 1df96dc377c85496d81daf1eba7afb3aa153e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 05/64] fix: Map capacities are powers of two with room for an
 empty slot

---
 rpp/map.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index c3cf954..60e9942 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -78,12 +78,7 @@ struct Map {
     Map() noexcept = default;
 
     explicit Map(u64 capacity) noexcept {
-        capacity_ = Math::next_pow2(capacity);
-        shift_ = Math::ctlz(capacity_) + 1;
-        usable_ = (capacity_ / 4) * 3;
-        length_ = 0;
-        data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
-        Libc::memset(data_, 0, capacity_ * sizeof(Slot));
+        reserve(capacity);
     }
 
     template<typename... Ss>
@@ -158,7 +153,9 @@ struct Map {
         Slot* old_data = data_;
         u64 old_capacity = capacity_;
 
-        capacity_ = new_capacity;
+        // Slots are indexed by the top bits of the hash, so the capacity must be a power of two.
+        // At least one slot must stay empty: a table smaller than four has no usable slots.
+        capacity_ = Math::max<u64>(Math::next_pow2(new_capacity), 4);
         data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
-- 
2.43.0


From a3391a4db90ab13ea7f06970355247de246faf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 06/64] fix: equal floats hash equally

---
 rpp/hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/hash.h b/rpp/hash.h
index 206eba5..c5a1323 100644
--- a/rpp/hash.h
+++ b/rpp/hash.h
@@ -54,6 +54,7 @@ struct Hash<char> {
 template<>
 struct Hash<f32> {
     [[nodiscard]] static u64 hash(f32 key) noexcept {
+        if(key == 0.0f) key = 0.0f; // -0 == +0
         return squirrel5(static_cast<u64>(*reinterpret_cast<u32*>(&key)));
     }
 };
@@ -61,6 +62,7 @@ struct Hash<f32> {
 template<>
 struct Hash<f64> {
     [[nodiscard]] static u64 hash(f64 key) noexcept {
+        if(key == 0.0) key = 0.0; // -0 == +0
         return squirrel5(*reinterpret_cast<u64*>(&key));
     }
 };
-- 
2.43.0


From 0bdf3dc1b1964bef4ae61f90fb3df2c60e74f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:41 +0000
Subject: [PATCH 07/64] fix: assigning to a Lock releases the mutex it held

---
 rpp/thread0.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..44ceedb 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,11 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        this->~Lock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From 709d3f4a198521450f9a22161da9ec41ccf4c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 08/64] fix: Flag::block keeps waiting when a signal handler
 interrupts it

---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..bee9967 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -161,7 +161,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From cd3dc9f68ddd50a1aa80c744dd51ae47d922d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 09/64] fix: Event::reset on an unsignaled event does nothing

---
 rpp/pos/async_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..10efbfe 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../async.h"
 
+#include <errno.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -56,7 +57,7 @@ void Event::signal() const noexcept {
 void Event::reset() const noexcept {
     u64 value = 0;
     int ret = read(fd, &value, sizeof(value));
-    if(ret == -1) {
+    if(ret == -1 && errno != EAGAIN) { // not signaled
         die("Failed to reset event: %", Log::sys_error());
     }
 }
-- 
2.43.0


From 22d1db6d36598dab88cab8d3bcf00ab280ceaeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 10/64] fix: Event::wait_any keeps waiting when a signal
 handler interrupts it

---
 rpp/pos/async_pos.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 10efbfe..15d5181 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -84,7 +84,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From daa0188caea49e3623d0226e2a1c25fb8a25a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 11/64] fix: Event::try_wait reports a signaled event on Linux

---
 rpp/pos/async_pos.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 15d5181..f574595 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -2,6 +2,7 @@
 #include "../async.h"
 
 #include <errno.h>
+#include <poll.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -63,7 +64,15 @@ void Event::reset() const noexcept {
 }
 
 [[nodiscard]] bool Event::try_wait() const noexcept {
-    return false;
+    pollfd p = {};
+    p.fd = fd;
+    p.events = static_cast<short>(mask);
+    int ret = poll(&p, 1, 0);
+    if(ret == -1) {
+        if(errno == EINTR) return false;
+        die("Failed to check event: %", Log::sys_error());
+    }
+    return ret > 0;
 }
 
 [[nodiscard]] u64 Event::wait_any(Slice<Event> events) noexcept {
-- 
2.43.0


From 37b3d7fd4a2fb911190e0c2f37657f2540b40411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 12/64] fix: waiting for zero milliseconds completes

---
 rpp/pos/asyncio_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..28d45c9 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -74,6 +74,7 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    if(ms == 0) spec.it_value.tv_nsec = 1; // a zero value would disarm the timer
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From 61e48f76fcb5c1542946ee794370969872db965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:35 +0000
Subject: [PATCH 13/64] fix: a thread pool has a worker on a single-core
 machine

---
 rpp/pool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..326f92a 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,7 +52,8 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{Vec<Thread_State, A>::make(
+              Math::max<u64>(Thread::hardware_threads(), 2) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
@@ -61,7 +62,7 @@ struct Pool {
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
-                Thread::set_affinity(j);
+                if(j < h_threads) Thread::set_affinity(j);
                 do_work(i);
             }));
         }
-- 
2.43.0


From 5431c1b95e59fcebe4b5cbb838c42da804de83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 14/64] fix: a moved Range_Allocator keeps a usable mutex

---
 rpp/range_allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..72cc59a 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,7 +30,11 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        if(this == &src) return *this;
+        {
+            Thread::Lock lock(mutex);
+            reset();
+        }
 
         Thread::Lock lock(src.mutex);
 
-- 
2.43.0


From a0d4964f33f32b28267bb831e5d131ea14a90f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 15/64] fix: Range_Allocator rejects sizes that overflow with
 their padding

---
 rpp/range_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 72cc59a..e76dbf9 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -94,7 +94,7 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From 45924100d41952e392ad01b562da0c6409368208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 16/64] fix: Range_Allocator::statistics is consistent with
 concurrent allocations

---
 rpp/range_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index e76dbf9..ebf0014 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -217,6 +217,7 @@ struct Range_Allocator {
     };
 
     [[nodiscard]] Stats statistics() noexcept {
+        Thread::Lock lock(mutex);
         return stats;
     }
 
-- 
2.43.0


From 84cd59164c58e66375993cba0df3d5df39b9ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 17/64] fix: region allocations are aligned

---
 rpp/impl/alloc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..24eabe2 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -10,12 +10,14 @@ static Thread::Atomic g_net_allocs;
 
 using Regions = Mallocator<"Regions", false>;
 
-struct Chunk {
+constexpr u64 REGION_ALIGNMENT = 16;
+
+struct alignas(REGION_ALIGNMENT) Chunk {
     Chunk* up = null;
     u64 size = 0;
     u64 used = 0;
 };
-static_assert(sizeof(Chunk) == 24);
+static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
@@ -49,6 +51,7 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    size = Math::align_pow2(size, REGION_ALIGNMENT);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
     }
-- 
2.43.0


From ac504de2f4f198bcc4c861e96b9e3423d258bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 18/64] fix: Mpool serves objects of any size

---
 rpp/alloc1.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/alloc1.h b/rpp/alloc1.h
index 2f89c61..2d9aef6 100644
--- a/rpp/alloc1.h
+++ b/rpp/alloc1.h
@@ -57,7 +57,8 @@ private:
     using Backing = Mallocator<name>;
 
     struct Block {
-        alignas(Math::min<u64>(N, 16)) u8 data[N];
+        // The alignment of a type divides its size.
+        alignas(Math::min<u64>(N & (~N + 1), 16)) u8 data[N];
     };
 
     struct Finalizer {
-- 
2.43.0


From 6b11341e7fb6a4b47784fc7d5d9bd6e563d5ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 19/64] fix: re-entering a profile scope counts the call and
 time of that scope

---
 rpp/impl/profile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..6ae6fe3 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,9 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        Timing_Node& child = nodes[current_node];
+        child.begin = timestamp();
+        child.calls++;
     }
 }
 
-- 
2.43.0


From d0752348646ffc0a50a758b32ddd367a606ec177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 20/64] fix: a thread may exit during a profile frame or while
 its timings are read

---
 rpp/profile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..dc26bd1 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,9 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
             if(during_frame) Profile::end_frame();
             if(registered) Profile::unregister_thread();
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0


From 3a61b227f1e6e67c2eb3b8194df04cbbffd8dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:26 +0000
Subject: [PATCH 21/64] fix: move-assigning a smart pointer from one inside its
 value

---
 rpp/box.h |  6 ++++--
 rpp/rc.h  | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index c8c2c2d..26214eb 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -40,9 +40,11 @@ struct Box {
         src.data_ = null;
     }
     Box& operator=(Box&& src) noexcept {
-        this->~Box();
-        data_ = src.data_;
+        // src may be part of the value destroyed here.
+        T* data = src.data_;
         src.data_ = null;
+        this->~Box();
+        data_ = data;
         return *this;
     }
 
diff --git a/rpp/rc.h b/rpp/rc.h
index 1012d2c..9dd3069 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -81,9 +81,11 @@ struct Rc {
         src.data_ = null;
     }
     Rc& operator=(Rc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // src may be part of the value dropped here.
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
@@ -184,9 +186,11 @@ struct Arc {
         src.data_ = null;
     }
     Arc& operator=(Arc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // src may be part of the value dropped here.
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
-- 
2.43.0


From c3f13e0fe3a955cc15b47974fd26c729ab289867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 22/64] fix: move-assigning a container from one inside its
 elements

---
 rpp/heap.h  | 3 ++-
 rpp/map.h   | 3 ++-
 rpp/queue.h | 3 ++-
 rpp/vec.h   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpp/heap.h b/rpp/heap.h
index dc65cae..a8a0e4b 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -44,7 +44,8 @@ struct Heap {
         src.capacity_ = 0;
     }
     Heap& operator=(Heap&& src) noexcept {
-        this->~Heap();
+        // src may be part of an element, so the elements go last.
+        Heap old(rpp::move(*this));
         data_ = src.data_;
         length_ = src.length_;
         capacity_ = src.capacity_;
diff --git a/rpp/map.h b/rpp/map.h
index 60e9942..876c930 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -103,7 +103,8 @@ struct Map {
         src.shift_ = 0;
     }
     Map& operator=(Map&& src) noexcept {
-        this->~Map();
+        // src may be part of an element, so the elements go last.
+        Map old(rpp::move(*this));
         data_ = src.data_;
         capacity_ = src.capacity_;
         length_ = src.length_;
diff --git a/rpp/queue.h b/rpp/queue.h
index 19d39a7..5045e8c 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -45,7 +45,8 @@ struct Queue {
         src.capacity_ = 0;
     }
     Queue& operator=(Queue&& src) noexcept {
-        this->~Queue();
+        // src may be part of an element, so the elements go last.
+        Queue old(rpp::move(*this));
         data_ = src.data_;
         length_ = src.length_;
         last_ = src.last_;
diff --git a/rpp/vec.h b/rpp/vec.h
index 9bde9cc..b12e1bb 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -53,7 +53,8 @@ struct Vec {
         src.capacity_ = 0;
     }
     Vec& operator=(Vec&& src) noexcept {
-        this->~Vec();
+        // src may be part of an element, so the elements go last.
+        Vec old(rpp::move(*this));
         data_ = src.data_;
         length_ = src.length_;
         capacity_ = src.capacity_;
-- 
2.43.0


From 3654b5fd2024ab00118b701c2ce549acfb890d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 23/64] fix: move-assigning a variant from itself or from part
 of its value

---
 rpp/variant.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpp/variant.h b/rpp/variant.h
index d4700eb..a7985a8 100644
--- a/rpp/variant.h
+++ b/rpp/variant.h
@@ -61,12 +61,14 @@ struct Variant {
     Variant& operator=(Variant&& src) noexcept
         requires(Move_Constructable<Ts> && ...)
     {
+        // src may be this variant or part of its value.
+        Variant value(rpp::move(src));
         destruct();
         if constexpr((Trivially_Movable<Ts> && ...)) {
-            index_ = src.index_;
-            Libc::memcpy(data_, src.data_, size);
+            index_ = value.index_;
+            Libc::memcpy(data_, value.data_, size);
         } else {
-            src.match(Overload{[this](Ts& v) { this->construct(rpp::move(v)); }...});
+            value.match(Overload{[this](Ts& v) { this->construct(rpp::move(v)); }...});
         }
         return *this;
     }
-- 
2.43.0


From b52e8ffb0ea756e9f9cd716ff4b3608e53668047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 24/64] fix: move-assigning an option from itself or from part
 of its value

---
 rpp/opt.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/opt.h b/rpp/opt.h
index 0342799..8e064ea 100644
--- a/rpp/opt.h
+++ b/rpp/opt.h
@@ -52,9 +52,11 @@ struct Opt {
     Opt& operator=(Opt&& src) noexcept
         requires Move_Constructable<T>
     {
+        // src may be this option or part of its value.
+        Opt value(rpp::move(src));
         clear();
-        if(src.ok_) {
-            value_.construct(rpp::move(*src.value_));
+        if(value.ok_) {
+            value_.construct(rpp::move(*value.value_));
             ok_ = true;
         }
         return *this;
-- 
2.43.0


From ffcec915ae7044bc37def714efef6bdaa2dc1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 25/64] fix: strings that differ only after a NUL are not equal

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From 53552e5cebc626c034de7996feb7c9b4b5b79fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 26/64] fix: path helpers see a separator that is the first
 character

---
 rpp/string1.h | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..d446fe6 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -64,50 +64,29 @@ template<Allocator RA>
 
 [[nodiscard]] constexpr String_View String_View::file_suffix() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    u64 i = length_ - 1;
-    u64 offset = 0;
-
+    u64 i = length_;
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::file_extension() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    u64 i = length_ - 1;
-    u64 offset = 0;
-
+    u64 i = length_;
     for(; i != 0; i--) {
-        if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '.' || data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::remove_file_suffix() const noexcept {
 
-    if(length_ == 0) return String_View{};
-
-    bool found = 0;
-    u64 i = length_ - 1;
-
+    u64 i = length_;
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            found = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_, i + found};
+    return String_View{data_, i};
 }
 
 template<Allocator A>
-- 
2.43.0


From d5183c5e9aec4decb56cb1300abdd4616af181a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 27/64] fix: parse_string of a last token that is one character
 or followed by one space

---
 rpp/format1.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..5b8e41b 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -60,14 +60,15 @@ template<Enum E>
         start++;
     }
     for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
         if(ascii::is_whitespace(s[i])) {
             return Opt<Pair<String_View, String_View>>{
                 Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
         }
     }
+    if(start < s.length()) {
+        return Opt<Pair<String_View, String_View>>{
+            Pair{s.sub(start, s.length()), String_View{}}};
+    }
     return {};
 }
 
-- 
2.43.0


From fd7f163eb81437bca5db5ae598641e5acdfc78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:13 +0000
Subject: [PATCH 28/64] fix: reflection of Kind lists char_

---
 rpp/reflect.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index 7b8ea33..cdcb821 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -496,10 +496,11 @@ struct Refl<Kind> {
     constexpr static Literal name = "Kind";
     constexpr static Kind kind = Kind::enum_;
     constexpr static Kind default_ = Kind::void_;
-    using members = List<RPP_CASE(void_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
-                         RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_),
-                         RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_),
-                         RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_), RPP_CASE(record_)>;
+    using members =
+        List<RPP_CASE(void_), RPP_CASE(char_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
+             RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_), RPP_CASE(u64_),
+             RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_), RPP_CASE(array_),
+             RPP_CASE(pointer_), RPP_CASE(enum_), RPP_CASE(record_)>;
 };
 
 } // namespace Reflect
-- 
2.43.0


From 8b7e8408720ba68a9915348d72e8a7d2e981cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 29/64] fix: String::clone into another allocator compiles

---
 rpp/string0.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d0679b9..0bca435 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -118,11 +118,9 @@ struct String {
 
     template<Allocator B = A>
     [[nodiscard]] String<B> clone() const noexcept {
-        String<B> ret;
-        ret.data_ = reinterpret_cast<u8*>(B::alloc(capacity_));
-        ret.length_ = length_;
-        ret.capacity_ = capacity_;
-        Libc::memcpy(ret.data_, data_, length_);
+        String<B> ret{capacity_};
+        ret.set_length(length_);
+        Libc::memcpy(ret.data(), data_, length_);
         return ret;
     }
 
-- 
2.43.0


From 67b6824c8841fa3c36002d8dc58011bfcf642258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:22 +0000
Subject: [PATCH 30/64] fix: Rc and Arc with any allocator are reflectable

---
 rpp/rc.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rpp/rc.h b/rpp/rc.h
index 9dd3069..a221ba6 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -129,7 +129,7 @@ private:
 
     Data* data_ = null;
 
-    friend struct Reflect::Refl<Rc<T>>;
+    friend struct Reflect::Refl<Rc>;
 };
 
 template<typename T, Scalar_Allocator P>
@@ -233,7 +233,7 @@ private:
 
     Data* data_ = null;
 
-    friend struct Reflect::Refl<Arc<T>>;
+    friend struct Reflect::Refl<Arc>;
 };
 
 template<typename T>
@@ -244,11 +244,11 @@ template<typename T>
 RPP_NAMED_TEMPLATE_RECORD(::rpp::detail::Arc_Data, "Arc_Data", T, RPP_FIELD(references),
                           RPP_FIELD(value));
 
-template<typename T>
-RPP_TEMPLATE_RECORD(Rc, T, RPP_FIELD(data_));
+template<typename T, Scalar_Allocator A>
+RPP_TEMPLATE_RECORD(Rc, RPP_PACK(T, A), RPP_FIELD(data_));
 
-template<typename T>
-RPP_TEMPLATE_RECORD(Arc, T, RPP_FIELD(data_));
+template<typename T, Scalar_Allocator A>
+RPP_TEMPLATE_RECORD(Arc, RPP_PACK(T, A), RPP_FIELD(data_));
 
 namespace Format {
 
-- 
2.43.0


From 6059f646f07da8949faf3dc9ff122e3a416b8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 31/64] fix: integer pow does not square the base past the last
 bit

---
 rpp/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/math.h b/rpp/math.h
index 24f550f..2eff486 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -68,7 +68,7 @@ template<Int I>
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if(exp) base *= base;
     }
     return result;
 }
-- 
2.43.0


From 47cbd0ac6438c261e9d830bc1250c0575ac2ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 32/64] fix: RNG unit covers [0, 1)

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From f7f582e534c9383154f9ad4bb72a089649d15821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 33/64] fix: RNG shuffle of an empty Vec

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..3dda09d 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From 15f66687a078ff2ce9d0fbc09d4df3478187a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 34/64] fix: RNG range of signed types stays within its bounds

---
 rpp/rng.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 3dda09d..16c33d0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,10 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        constexpr u64 mask = ~static_cast<u64>(0) >> (64 - 8 * sizeof(I));
+        u64 r = (static_cast<u64>(max) - static_cast<u64>(min)) & mask;
+        u64 value = (operator()() & mask) % r;
+        return static_cast<I>(static_cast<u64>(min) + value);
     }
 
 private:
-- 
2.43.0


From 2016fc308e06851c9167bf525dec4abd822d7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 35/64] fix: scalar minus or over Vec4 subtracts from or
 divides the scalar

---
 rpp/vmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c0a293c 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -900,7 +900,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
@@ -922,7 +922,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From 676dbead3c88131396fe74ccee1b7a569c7c2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 36/64] fix: negating a Vect leaves it unchanged

---
 rpp/vmath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c0a293c..ab02ef1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
-- 
2.43.0


From 63cd986f03bbb2e96dffca07bcb0dc412c5c509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 37/64] fix: Quat::euler of a half turn about x

---
 rpp/vmath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ab02ef1..e2bcfe4 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -672,8 +672,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(x, y, z, w).unit();
     }
     static Quat euler(Vec3 angles) noexcept {
-        if(angles == Vec3{0.0f, 0.0f, 180.0f} || angles == Vec3{180.0f, 0.0f, 0.0f})
-            return Quat{0.0f, 0.0f, -1.0f, 0.0f};
+        if(angles == Vec3{0.0f, 0.0f, 180.0f}) return Quat{0.0f, 0.0f, -1.0f, 0.0f};
         f32 c1 = Math::cos(Math::radians(angles[2] * 0.5f));
         f32 c2 = Math::cos(Math::radians(angles[1] * 0.5f));
         f32 c3 = Math::cos(Math::radians(angles[0] * 0.5f));
-- 
2.43.0


From 25d65321587395994713986e57fa066bb336ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 38/64] fix: transforming an empty BBox leaves it empty

---
 rpp/vmath.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e2bcfe4..e1b62fa 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -815,6 +815,7 @@ struct BBox {
     }
 
     constexpr void transform(const Mat4& T) noexcept {
+        if(empty()) return;
         Vec3 amin = min, amax = max;
         min = max = Vec3{T[3].x, T[3].y, T[3].z};
         for(u64 i = 0; i < 3; i++) {
-- 
2.43.0


From ff6d824176991ce3ee901822f195eb6fb7b96497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 39/64] fix: ortho maps depth to [0, 1]

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..d267218 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -228,7 +228,7 @@ Mat4 Mat4::ortho(f32 l, f32 r, f32 b, f32 t, f32 n, f32 f) noexcept {
     Mat4 ret;
     ret[0][0] = 2.0f / (r - l);
     ret[1][1] = 2.0f / (t - b);
-    ret[2][2] = 2.0f / (n - f);
+    ret[2][2] = 1.0f / (n - f);
     ret[3][0] = (-l - r) / (r - l);
     ret[3][1] = (-b - t) / (t - b);
     ret[3][2] = -n / (f - n);
-- 
2.43.0


From 246945215c8ae2fc0ded77474ca7e51610bbdff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 40/64] fix: rotate_y_to of negative y is a rotation

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index d267218..5604e82 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -254,7 +254,7 @@ Mat4 Mat4::rotate_y_to(Vec3 dir) noexcept {
     if(Math::abs(dir.y - 1.0f) < Math::EPS_F)
         return Mat4::I;
     else if(Math::abs(dir.y + 1.0f) < Math::EPS_F)
-        return Mat4{Vec4{1.0f, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, -1.0f, 0.0f, 0.0f},
+        return Mat4{Vec4{-1.0f, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, -1.0f, 0.0f, 0.0f},
                     Vec4{0.0f, 0.0f, 1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
     else {
         Vec3 x = cross(dir, Vec3{0.0f, 1.0f, 0.0f}).unit();
-- 
2.43.0


From 7f447a9e572e95a145e535737163b964bb2d2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 41/64] fix: Files::write opens its file for writing

---
 rpp/pos/files_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..b9144a3 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -42,7 +42,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 77a70a175ed4d1d5942168c28d4e87f840a6ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 42/64] fix: Async::write gives new files a mode

---
 rpp/pos/asyncio_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 28d45c9..3bce53d 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -47,7 +47,7 @@ namespace rpp::Async {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
-- 
2.43.0


From 8cff13681deae4398543ed5f06f48c926088ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 43/64] fix: Files::read and write transfer everything and
 close on failure

---
 rpp/pos/files_pos.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index b9144a3..c2d965b 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -21,17 +22,30 @@ namespace rpp::Files {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
+    if(full_size == -1 || lseek(fd, 0, SEEK_SET) == -1) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
 
     assert(full_size <= RPP_UINT32_MAX);
 
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        return {};
+    u64 length = 0;
+    while(length < data.length()) {
+        ssize_t ret = ::read(fd, data.data() + length, data.length() - length);
+        if(ret == 0) break;
+        if(ret == -1) {
+            if(errno == EINTR) continue;
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        length += static_cast<u64>(ret);
     }
+    data.resize(length);
 
     close(fd);
     return Opt{rpp::move(data)};
@@ -50,9 +64,16 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        return false;
+    u64 length = 0;
+    while(length < data.length()) {
+        ssize_t ret = ::write(fd, data.data() + length, data.length() - length);
+        if(ret == -1) {
+            if(errno == EINTR) continue;
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        length += static_cast<u64>(ret);
     }
 
     close(fd);
-- 
2.43.0


From 26daf0504a88ded1846c41d1795159bee598de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 44/64] fix: Async::read and write transfer everything and
 close on failure

---
 rpp/pos/asyncio_pos.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 3bce53d..a00bea6 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,6 +2,7 @@
 #include "../asyncio.h"
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/epoll.h>
 #include <sys/stat.h>
@@ -26,17 +27,30 @@ namespace rpp::Async {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
+    if(full_size == -1 || lseek(fd, 0, SEEK_SET) == -1) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
+        co_return {};
+    }
 
     assert(full_size <= UINT32_MAX);
 
     Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        co_return {};
+    u64 length = 0;
+    while(length < data.length()) {
+        ssize_t ret = ::read(fd, data.data() + length, data.length() - length);
+        if(ret == 0) break;
+        if(ret == -1) {
+            if(errno == EINTR) continue;
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            co_return {};
+        }
+        length += static_cast<u64>(ret);
     }
+    data.resize(length);
 
     close(fd);
     co_return Opt{rpp::move(data)};
@@ -55,9 +69,16 @@ namespace rpp::Async {
         co_return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        co_return false;
+    u64 length = 0;
+    while(length < data.length()) {
+        ssize_t ret = ::write(fd, data.data() + length, data.length() - length);
+        if(ret == -1) {
+            if(errno == EINTR) continue;
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            co_return false;
+        }
+        length += static_cast<u64>(ret);
     }
 
     close(fd);
-- 
2.43.0


From 3230bbd8f3c520826c0518b35ad653f0b7d311d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 45/64] fix: file times tell writes within one second apart

---
 rpp/pos/files_pos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index c2d965b..e36d7f8 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -89,7 +89,13 @@ namespace rpp::Files {
             warn("Failed to stat file %: %", path_, Log::sys_error());
             return {};
         }
-        return Opt{static_cast<File_Time>(info.st_mtime)};
+#ifdef RPP_OS_MACOS
+        const timespec& time = info.st_mtimespec;
+#else
+        const timespec& time = info.st_mtim;
+#endif
+        return Opt{static_cast<File_Time>(time.tv_sec) * 1000000000 +
+                   static_cast<File_Time>(time.tv_nsec)};
     }
 }
 
-- 
2.43.0


From c1753821f5fd4f6341ae15e8a19c6fb3eec8b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 46/64] fix: Net::Address reads only the bytes of its string

---
 rpp/pos/net_pos.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..2e80d18 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -7,14 +7,17 @@
 
 namespace rpp::Net {
 
-Address::Address(String_View address, u16 port) noexcept {
+Address::Address(String_View address_, u16 port) noexcept {
     sockaddr_ = {};
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto address = address_.terminate<Mregion<R>>();
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From 7d4e07cd348ddb6169c95c9e50bb05336548c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 47/64] fix: assigning to a Udp closes its socket

---
 rpp/pos/net_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 2e80d18..5a3d03d 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -47,6 +47,10 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    if(this == &src) return *this;
+    if(fd != -1) {
+        close(fd);
+    }
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From 3e40750ff7d194bf08a89be02a6b525e45b4425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 48/64] fix: Udp::recv returns nothing on errors

---
 rpp/pos/net_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5a3d03d..4c19a34 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -70,7 +70,7 @@ void Udp::bind(Address address) noexcept {
     i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT | MSG_TRUNC,
                          reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);
 
-    if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+    if(ret == -1) {
         return Opt<Data>{};
     }
 
-- 
2.43.0


From 02ef649a3651c4db673da907d2853b84050edaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:41 +0000
Subject: [PATCH 49/64] fix: reading a directory reports failure

---
 rpp/pos/asyncio_pos.cpp | 6 +++++-
 rpp/pos/files_pos.cpp   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index a00bea6..42cdd21 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -33,7 +33,11 @@ namespace rpp::Async {
         co_return {};
     }
 
-    assert(full_size <= UINT32_MAX);
+    if(full_size > UINT32_MAX) { // includes directories, which have no size
+        warn("Failed to read file %: too large.", path_);
+        close(fd);
+        co_return {};
+    }
 
     Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index e36d7f8..3c5ba35 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -28,7 +28,11 @@ namespace rpp::Files {
         return {};
     }
 
-    assert(full_size <= RPP_UINT32_MAX);
+    if(full_size > RPP_UINT32_MAX) { // includes directories, which have no size
+        warn("Failed to read file %: too large.", path_);
+        close(fd);
+        return {};
+    }
 
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
-- 
2.43.0


From 6e53c76968e1a3ee698c39b5e3d4148f64720037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:42 +0000
Subject: [PATCH 50/64] fix: Box::clone into another allocator did not compile

---
 rpp/box.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index 26214eb..fb95d37 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -68,12 +68,12 @@ struct Box {
     [[nodiscard]] Box<T, R> clone() const noexcept
         requires(Clone<T> || Copy_Constructable<T>)
     {
-        if(!data_) return Box{};
+        if(!data_) return Box<T, R>{};
         if constexpr(Clone<T>) {
-            return Box{data_->clone()};
+            return Box<T, R>{data_->clone()};
         } else {
             static_assert(Copy_Constructable<T>);
-            return Box{*data_};
+            return Box<T, R>{*data_};
         }
     }
 
-- 
2.43.0


From e9b83b9426a916c903bdc6d2be93335c27b23099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:42 +0000
Subject: [PATCH 51/64] fix: assigning an Opt its own value or part of it used
 destroyed memory

---
 rpp/opt.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpp/opt.h b/rpp/opt.h
index 8e064ea..fa2dc12 100644
--- a/rpp/opt.h
+++ b/rpp/opt.h
@@ -65,8 +65,10 @@ struct Opt {
     Opt& operator=(T&& value) noexcept
         requires Move_Constructable<T>
     {
+        // value may be (part of) the value of this option.
+        T temp(rpp::move(value));
         clear();
-        value_.construct(rpp::move(value));
+        value_.construct(rpp::move(temp));
         ok_ = true;
         return *this;
     }
-- 
2.43.0


From be283d36822d1cb710f56ea26e17b2fb4abf3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:59 +0000
Subject: [PATCH 52/64] fix: Thread::sleep lasted too little after a signal or
 for delays beyond 2^32 us

---
 rpp/pos/thread_pos.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index bee9967..2fa0007 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -35,7 +35,12 @@ namespace rpp::Thread {
 static_assert(sizeof(Id) == sizeof(pthread_t), "Id != pthread_t");
 
 void sleep(u64 ms) noexcept {
-    usleep(ms * 1000);
+    struct timespec left;
+    left.tv_sec = static_cast<time_t>(ms / 1000);
+    left.tv_nsec = static_cast<long>(ms % 1000) * 1000000;
+    // Continue after a signal handler interrupts the delay.
+    while(nanosleep(&left, &left) != 0 && errno == EINTR) {
+    }
 }
 
 [[nodiscard]] u64 id_len() noexcept {
-- 
2.43.0


From 78a0adddfcc681559c1e567fa61aa1e182554637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:16 +0000
Subject: [PATCH 53/64] fix: cloning a container into another allocator did not
 compile

---
 rpp/heap.h  | 2 ++
 rpp/map.h   | 2 ++
 rpp/queue.h | 2 ++
 rpp/stack.h | 4 +++-
 rpp/vec.h   | 2 ++
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/rpp/heap.h b/rpp/heap.h
index a8a0e4b..ed208b5 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -256,6 +256,8 @@ private:
     u64 length_ = 0;
     u64 capacity_ = 0;
 
+    template<Heapable U, Allocator B>
+    friend struct Heap;
     friend struct Reflect::Refl<Heap>;
 };
 
diff --git a/rpp/map.h b/rpp/map.h
index 876c930..1dcd9aa 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -465,6 +465,8 @@ private:
     u64 usable_ = 0;
     u64 shift_ = 0;
 
+    template<Key L, Move_Constructable W, Allocator B>
+    friend struct Map;
     friend struct Reflect::Refl<Map>;
     template<bool>
     friend struct Iterator;
diff --git a/rpp/queue.h b/rpp/queue.h
index 5045e8c..7b3afb8 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -351,6 +351,8 @@ private:
     u64 last_ = 0;
     u64 capacity_ = 0;
 
+    template<Move_Constructable U, Allocator B>
+    friend struct Queue;
     friend struct Reflect::Refl<Queue>;
     template<bool>
     friend struct Iterator;
diff --git a/rpp/stack.h b/rpp/stack.h
index eac7486..23dc2a1 100644
--- a/rpp/stack.h
+++ b/rpp/stack.h
@@ -36,7 +36,7 @@ struct Stack {
         requires Clone<T> || Copy_Constructable<T>
     {
         Stack<T, B> ret;
-        ret.data_ = data_.clone();
+        ret.data_ = data_.template clone<B>();
         return ret;
     }
 
@@ -99,6 +99,8 @@ struct Stack {
 private:
     Vec<T, A> data_;
 
+    template<Move_Constructable U, Allocator B>
+    friend struct Stack;
     friend struct Reflect::Refl<Stack>;
 };
 
diff --git a/rpp/vec.h b/rpp/vec.h
index b12e1bb..1742dd0 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -267,6 +267,8 @@ private:
     u64 length_ = 0;
     u64 capacity_ = 0;
 
+    template<typename U, Allocator B>
+    friend struct Vec;
     friend struct Reflect::Refl<Vec>;
 };
 
-- 
2.43.0


From 44ec431395bd3ac5f2736e7ac27feb81df9bfc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:27 +0000
Subject: [PATCH 54/64] fix: assigning a Function itself or part of its
 callable lost the callable or used it after destruction

---
 rpp/function.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpp/function.h b/rpp/function.h
index e4e506b..ac60228 100644
--- a/rpp/function.h
+++ b/rpp/function.h
@@ -37,10 +37,12 @@ struct Function<Words, R(Args...)> {
         src.vtable = null;
     }
     Function& operator=(Function&& src) noexcept {
+        // src may be *this or part of the callable destroyed here.
+        Function from(rpp::move(src));
         destruct();
-        if(src.vtable) src.move(storage);
-        vtable = src.vtable;
-        src.vtable = null;
+        if(from.vtable) from.move(storage);
+        vtable = from.vtable;
+        from.vtable = null;
         return *this;
     }
 
-- 
2.43.0


From c7e5f78ad0ef580278fea50e64549eb318fafd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:01 +0000
Subject: [PATCH 55/64] fix: const slices of bool did not compile (an
 initializer list was meant to be built from pointer and length)

---
 rpp/array.h | 2 +-
 rpp/slice.h | 6 +++---
 rpp/vec.h   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rpp/array.h b/rpp/array.h
index c7485d7..cf8ea63 100644
--- a/rpp/array.h
+++ b/rpp/array.h
@@ -102,7 +102,7 @@ struct Array {
         return Slice{static_cast<T*>(data_), N};
     }
     [[nodiscard]] Slice<const T> slice() const noexcept {
-        return Slice{static_cast<const T*>(data_), N};
+        return Slice(static_cast<const T*>(data_), N);
     }
 
 private:
diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..283c803 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -48,7 +48,7 @@ struct Slice {
     operator Slice<const T>() const noexcept
         requires(!Const<T>)
     {
-        return Slice<const T>{data_, length_};
+        return Slice<const T>(data_, length_);
     }
 
     constexpr Slice(const Slice& src) noexcept = default;
@@ -60,7 +60,7 @@ struct Slice {
     constexpr ~Slice() noexcept = default;
 
     [[nodiscard]] constexpr Slice clone() const noexcept {
-        return Slice{data_, length_};
+        return Slice(data_, length_);
     }
 
     [[nodiscard]] constexpr bool empty() const noexcept {
@@ -115,7 +115,7 @@ struct Slice {
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
         assert(start + length <= length_);
-        return Slice{data_ + start, length};
+        return Slice(data_ + start, length);
     }
 
     [[nodiscard]] Slice<u8> to_bytes() noexcept
diff --git a/rpp/vec.h b/rpp/vec.h
index 1742dd0..0992982 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -259,7 +259,7 @@ struct Vec {
         return Slice{data_, length_};
     }
     [[nodiscard]] Slice<const T> slice() const noexcept {
-        return Slice{static_cast<const T*>(data_), length_};
+        return Slice(static_cast<const T*>(data_), length_);
     }
 
 private:
-- 
2.43.0


From b97f794cecf53e26d5c5bb10cd32717b17cbb757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 56/64] fix: Task<void>::then never compiled

The result type was spelled Invoke_Result<F, void>, which no callable satisfies,
so the branch for tasks without a result could not be instantiated.
---
 rpp/async.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index 8fb0f15..ed32d08 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -215,12 +215,13 @@ struct Task {
     template<typename F>
         requires Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
-        if constexpr(Same<R, void>) {
-            co_await *this;
-            co_return (co_await f());
-        } else {
-            co_return (co_await f(co_await *this));
-        }
+        co_return (co_await f(co_await *this));
+    }
+    template<typename F>
+        requires Same<R, void> && Invocable<F> && Is_Task<Invoke_Result<F>>
+    [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F> {
+        co_await *this;
+        co_return (co_await f());
     }
 
 private:
-- 
2.43.0


From a0ed079070f9fd38f9244a43645aaad51e98b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:10 +0000
Subject: [PATCH 57/64] fix: a temporary callable passed to Task::then was
 called after its end

then() is a coroutine that kept only a reference to its argument, so a capturing
temporary was gone once the awaited task suspended.
---
 rpp/async.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index ed32d08..a8fbeef 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -215,13 +215,16 @@ struct Task {
     template<typename F>
         requires Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
-        co_return (co_await f(co_await *this));
+        // Live until called: an rvalue may be gone once this coroutine suspends.
+        F callable = rpp::forward<F>(f);
+        co_return (co_await callable(co_await *this));
     }
     template<typename F>
         requires Same<R, void> && Invocable<F> && Is_Task<Invoke_Result<F>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F> {
+        F callable = rpp::forward<F>(f);
         co_await *this;
-        co_return (co_await f());
+        co_return (co_await callable());
     }
 
 private:
-- 
2.43.0


From 1e632db87305ade8457c398213498afd13621586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:19 +0000
Subject: [PATCH 58/64] fix: Map::try_get did not compile for maps of
 references

Ref{x} with x a Ref copies it, so the result was deduced as Opt<Ref<T>> and not
the declared Opt<Ref<Ref<T>>>.
---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 1dcd9aa..d4a21b1 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -233,7 +233,7 @@ struct Map {
     [[nodiscard]] Opt<Ref<V>> try_get(const K& key) noexcept {
         if(empty()) return {};
         if(auto idx = try_get_<K>(key); idx.ok()) {
-            return Opt{Ref{data_[*idx].data->second}};
+            return Opt<Ref<V>>{Ref<V>{data_[*idx].data->second}};
         }
         return {};
     }
@@ -241,7 +241,7 @@ struct Map {
     [[nodiscard]] Opt<Ref<const V>> try_get(const K& key) const noexcept {
         if(empty()) return {};
         if(auto idx = try_get_<K>(key); idx.ok()) {
-            return Opt{Ref<const V>{data_[*idx].data->second}};
+            return Opt<Ref<const V>>{Ref<const V>{data_[*idx].data->second}};
         }
         return {};
     }
-- 
2.43.0


From aee36a2502029bc5ab8e933d3048df176ab66c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:19 +0000
Subject: [PATCH 59/64] fix: arrays and resized vectors of pairs did not
 compile

The default constructor of Pair was explicit, which {} cannot use for the
elements of an array, although Default_Constructable<Pair> holds.
---
 rpp/pair.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pair.h b/rpp/pair.h
index 26f199b..0db59e3 100644
--- a/rpp/pair.h
+++ b/rpp/pair.h
@@ -10,7 +10,7 @@ namespace rpp {
 template<typename A, typename B>
 struct Pair {
 
-    constexpr explicit Pair() noexcept
+    constexpr Pair() noexcept
         requires Default_Constructable<A> && Default_Constructable<B>
     = default;
 
-- 
2.43.0


From 0302fbe913175550b662c5554b2c6e6335b2a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 60/64] fix: a handle let go from inside the value it owns
 ended it twice or leaked it

---
 rpp/box.h | 12 ++++++------
 rpp/rc.h  | 42 +++++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index fb95d37..7a98b4c 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -40,19 +40,19 @@ struct Box {
         src.data_ = null;
     }
     Box& operator=(Box&& src) noexcept {
-        // src may be part of the value destroyed here.
+        // src and this may be part of the value destroyed here.
         T* data = src.data_;
         src.data_ = null;
-        this->~Box();
+        T* old = data_;
         data_ = data;
+        if(old) A::template destroy<T>(old);
         return *this;
     }
 
     ~Box() noexcept {
-        if(data_) {
-            A::template destroy<T>(data_);
-            data_ = null;
-        }
+        T* old = data_;
+        data_ = null;
+        if(old) A::template destroy<T>(old);
     }
 
     template<typename... Args>
diff --git a/rpp/rc.h b/rpp/rc.h
index a221ba6..d16438f 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -81,11 +81,12 @@ struct Rc {
         src.data_ = null;
     }
     Rc& operator=(Rc&& src) noexcept {
-        // src may be part of the value dropped here.
+        // src and this may be part of the value dropped here.
         Data* data = src.data_;
         src.data_ = null;
-        drop();
+        Data* old = data_;
         data_ = data;
+        drop(old);
         return *this;
     }
 
@@ -118,13 +119,18 @@ struct Rc {
 
 private:
     void drop() noexcept {
-        if(!data_) return;
-        data_->references--;
-        if(data_->references == 0) {
-            data_->value.destruct();
-            A::template destroy<Data>(data_);
-        }
+        // this may be part of the value dropped here.
+        Data* old = data_;
         data_ = null;
+        drop(old);
+    }
+    static void drop(Data* data) noexcept {
+        if(!data) return;
+        data->references--;
+        if(data->references == 0) {
+            data->value.destruct();
+            A::template destroy<Data>(data);
+        }
     }
 
     Data* data_ = null;
@@ -186,11 +192,12 @@ struct Arc {
         src.data_ = null;
     }
     Arc& operator=(Arc&& src) noexcept {
-        // src may be part of the value dropped here.
+        // src and this may be part of the value dropped here.
         Data* data = src.data_;
         src.data_ = null;
-        drop();
+        Data* old = data_;
         data_ = data;
+        drop(old);
         return *this;
     }
 
@@ -223,12 +230,17 @@ struct Arc {
 
 private:
     void drop() noexcept {
-        if(!data_) return;
-        if(data_->references.decr() == 0) {
-            data_->value.destruct();
-            A::template destroy<Data>(data_);
-        }
+        // this may be part of the value dropped here.
+        Data* old = data_;
         data_ = null;
+        drop(old);
+    }
+    static void drop(Data* data) noexcept {
+        if(!data) return;
+        if(data->references.decr() == 0) {
+            data->value.destruct();
+            A::template destroy<Data>(data);
+        }
     }
 
     Data* data_ = null;
-- 
2.43.0


From 3b72d67b32a5856ebd644a753403426467d8318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 61/64] fix: Box::emplace from a part of its own value used
 destroyed memory

---
 rpp/box.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpp/box.h b/rpp/box.h
index 7a98b4c..d38bf9a 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -79,8 +79,10 @@ struct Box {
 
     template<typename... Args>
     void emplace(Args&&... args) noexcept {
-        this->~Box();
+        // args may be part of the value destroyed here.
+        T* old = data_;
         data_ = A::template make<T>(rpp::forward<Args>(args)...);
+        if(old) A::template destroy<T>(old);
     }
 
     [[nodiscard]] T* operator->() noexcept {
-- 
2.43.0


From bf7c139ae5cf612c117b71f4bbfc3c8c6f21c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:23 +0000
Subject: [PATCH 62/64] fix: what an Opt, Variant or Function held goes only
 after its new value is in place

---
 rpp/function.h |  4 ++--
 rpp/opt.h      | 12 ++++++++----
 rpp/variant.h  |  3 ++-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/rpp/function.h b/rpp/function.h
index ac60228..56a1a3c 100644
--- a/rpp/function.h
+++ b/rpp/function.h
@@ -37,9 +37,9 @@ struct Function<Words, R(Args...)> {
         src.vtable = null;
     }
     Function& operator=(Function&& src) noexcept {
-        // src may be *this or part of the callable destroyed here.
+        // src and this may be part of the callable, so that goes last.
         Function from(rpp::move(src));
-        destruct();
+        Function old(rpp::move(*this));
         if(from.vtable) from.move(storage);
         vtable = from.vtable;
         from.vtable = null;
diff --git a/rpp/opt.h b/rpp/opt.h
index fa2dc12..7ec6782 100644
--- a/rpp/opt.h
+++ b/rpp/opt.h
@@ -52,8 +52,9 @@ struct Opt {
     Opt& operator=(Opt&& src) noexcept
         requires Move_Constructable<T>
     {
-        // src may be this option or part of its value.
+        // src and this may be part of the value, so that goes last.
         Opt value(rpp::move(src));
+        Opt old(rpp::move(*this));
         clear();
         if(value.ok_) {
             value_.construct(rpp::move(*value.value_));
@@ -65,8 +66,9 @@ struct Opt {
     Opt& operator=(T&& value) noexcept
         requires Move_Constructable<T>
     {
-        // value may be (part of) the value of this option.
+        // value and this may be part of the value, so that goes last.
         T temp(rpp::move(value));
+        Opt old(rpp::move(*this));
         clear();
         value_.construct(rpp::move(temp));
         ok_ = true;
@@ -83,10 +85,12 @@ struct Opt {
     }
 
     void clear() noexcept {
+        // this may be part of the value.
+        bool had_value = ok_;
+        ok_ = false;
         if constexpr(Must_Destruct<T>) {
-            if(ok_) value_.destruct();
+            if(had_value) value_.destruct();
         }
-        ok_ = false;
     }
 
     Opt clone() const noexcept
diff --git a/rpp/variant.h b/rpp/variant.h
index a7985a8..ffacb76 100644
--- a/rpp/variant.h
+++ b/rpp/variant.h
@@ -61,8 +61,9 @@ struct Variant {
     Variant& operator=(Variant&& src) noexcept
         requires(Move_Constructable<Ts> && ...)
     {
-        // src may be this variant or part of its value.
+        // src and this may be part of the value, so that goes last.
         Variant value(rpp::move(src));
+        Variant old(rpp::move(*this));
         destruct();
         if constexpr((Trivially_Movable<Ts> && ...)) {
             index_ = value.index_;
-- 
2.43.0


From 91fed38e235cad2aa3d052f779a1d3ff1589b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:23 +0000
Subject: [PATCH 63/64] fix: a Task may be dropped from what its coroutine's
 frame keeps alive

---
 rpp/async.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index a8fbeef..c6d03f3 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -154,12 +154,14 @@ struct Task {
         if(handle) {
             auto state = handle.promise().state.exchange(TASK_ABANDONED);
             if(state == TASK_DONE) {
-                handle.destroy();
+                // What ends with the frame may hold this task.
+                auto frame = handle;
+                handle = null;
+                frame.destroy();
             } else if(state != TASK_START) {
                 die("Task abandoned while being waited upon.");
             }
         }
-        handle = null;
     }
 
     Task(const Task&) noexcept = delete;
@@ -170,7 +172,7 @@ struct Task {
         src.handle = null;
     }
     Task& operator=(Task&& src) noexcept {
-        this->~Task();
+        Task old(rpp::move(*this));
         handle = src.handle;
         src.handle = null;
         return *this;
-- 
2.43.0


From 228f0d6ff036dacce5475a9620a553cbc6cc26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:23 +0000
Subject: [PATCH 64/64] fix: a log callback ends after the log's lock is
 released

---
 rpp/impl/log.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 11dc892..cd58131 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -185,11 +185,19 @@ subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noex
 }
 
 void unsubscribe(Token token) noexcept {
-    Thread::Lock lock(g_log_data.lock);
-    g_log_data.callbacks.erase(token);
-    if(g_log_data.callbacks.empty()) {
-        g_log_data.callbacks.~Map();
+    // Ends after the lock is released: what the callback captured may log, as does die().
+    Opt<Function<Callback>> removed;
+    {
+        Thread::Lock lock(g_log_data.lock);
+        if(auto callback = g_log_data.callbacks.try_get(token); callback.ok()) {
+            removed.emplace(rpp::move(**callback));
+            g_log_data.callbacks.erase(token);
+        }
+        if(g_log_data.callbacks.empty()) {
+            g_log_data.callbacks.~Map();
+        }
     }
+    if(!removed.ok()) die("Failed to erase key %!", token);
 }
 
 } // namespace Log
-- 
2.43.0

