From 9a124c520f907e9f9e8a1ee61dd90ccece240232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 01/36] fix: AtomicBitfield::set() returns the previous value
 for every index

The 64-bit field was truncated to `unsigned`, so for bits 32..63 of a
chunk the previous value was always reported as false.
---
 redGrapes/util/bitfield.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 716f42a..048bf72 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -37,7 +37,7 @@ namespace redGrapes
         inline bool set(unsigned idx, bool new_value)
         {
             __INDEX_CALC(idx, chunk_idx, k, mask)
-            unsigned old_val;
+            uint64_t old_val;
 
             switch(new_value)
             {
-- 
2.43.0


From f7bbf22f266099d61d5f63f95d7b743a4ffe3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 02/36] fix: allow activate_task() from threads which are no
 workers

When an external event is notified by the main thread while all workers
are busy, `current_worker` is null.
---
 redGrapes/scheduler/default_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index bf2366f..674b577 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -79,7 +79,8 @@ namespace redGrapes
             if(worker_id < 0)
             {
                 worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
-                if(worker_id == SingletonContext::get().current_worker->get_worker_id())
+                if(SingletonContext::get().current_worker
+                   && worker_id == SingletonContext::get().current_worker->get_worker_id())
                     worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
             }
 
-- 
2.43.0


From 5d5c42ee27b6cdff2de7955153b49149c3ddcb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 03/36] fix: execute_task() uses the waker id of the executing
 thread

Tasks can also be executed by threads which are no workers (see
examples/mpi.cpp), where `current_worker` is null.
---
 redGrapes/dispatch/thread/execute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index 2e2dc25..fc2cadc 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,7 +38,7 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_worker->get_waker_id();
+            event->get_event().waker_id = current_waker_id;
             task.sg_pause(*event);
 
             task.pre_event.up();
-- 
2.43.0


From 03f0f2545bfe86f25014bb6df8ac4f93be1c1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 04/36] fix: do not mark a task as paused if it can not switch
 its stack

A task without stack switching runs to completion in one go. Leaving
`event` set made execute_task() treat the finished task as paused and
execute its body again.
---
 redGrapes/task/task_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/task/task_base.hpp b/redGrapes/task/task_base.hpp
index e9f40e5..510a327 100644
--- a/redGrapes/task/task_base.hpp
+++ b/redGrapes/task/task_base.hpp
@@ -72,10 +72,10 @@ namespace redGrapes
 
         void yield(scheduler::EventPtr event)
         {
-            this->event = event;
-
             if(enable_stack_switching)
             {
+                this->event = event;
+
                 std::optional<boost::context::continuation> old_yield;
                 this->yield_cont.swap(old_yield);
 
-- 
2.43.0


From 46e347081ad7b9911493cd2478241c9a04956223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 05/36] fix: load AtomicList links atomically while iterating

`prev` is concurrently modified by skip_deleted_prev() of other
iterators.
---
 redGrapes/util/atomic_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index f67cc00..16b1841 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -240,7 +240,7 @@ namespace redGrapes
                     if(c)
                     {
                         c->skip_deleted_prev();
-                        c = c->prev;
+                        c = std::atomic_load(&c->prev);
                     }
 
                     return *this;
-- 
2.43.0


From 1896e949b83488b28967e910076327cc51e2257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 06/36] fix: StdAllocator reports exhaustion with
 std::bad_alloc

Objects bigger than a chunk were constructed at address null.
---
 redGrapes/memory/allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redGrapes/memory/allocator.hpp b/redGrapes/memory/allocator.hpp
index 5167b26..3e343bd 100644
--- a/redGrapes/memory/allocator.hpp
+++ b/redGrapes/memory/allocator.hpp
@@ -7,6 +7,7 @@
 #include <spdlog/spdlog.h>
 
 #include <memory>
+#include <new>
 
 namespace redGrapes
 {
@@ -67,6 +68,9 @@ namespace redGrapes
                     n * sizeof(T),
                     boost::core::demangle(typeid(T).name()));
 
+                if(!blk)
+                    throw std::bad_alloc();
+
                 return (T*) blk.ptr;
             }
 
-- 
2.43.0


From 4b36c1174f5e6136879a0c27ccd1ae5409296a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 07/36] fix: TagMatch::task_dependency_type() overrides the
 scheduler interface

The differing signature hid the virtual function, so the dependency type
of sub-schedulers was never consulted.
---
 redGrapes/scheduler/tag_match.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/tag_match.hpp b/redGrapes/scheduler/tag_match.hpp
index 4fd9533..a6f51ef 100644
--- a/redGrapes/scheduler/tag_match.hpp
+++ b/redGrapes/scheduler/tag_match.hpp
@@ -81,7 +81,7 @@ namespace redGrapes
                 return std::nullopt;
             }
 
-            bool task_dependency_type(Task const& a, Task& b)
+            bool task_dependency_type(Task const& a, Task const& b)
             {
                 /// fixme: b or a ?
                 if(auto sub_scheduler = get_matching_scheduler(b.required_scheduler_tags))
-- 
2.43.0


From c5f693ee5ea480907621529890d1492b0f4ab1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 08/36] fix: event state can count more than 65535 incoming
 edges

---
 redGrapes/scheduler/event.cpp | 4 ++--
 redGrapes/scheduler/event.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 566c9c4..30dc7da 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -31,14 +31,14 @@ namespace redGrapes
         }
 
         Event::Event(Event& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id)
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id)
             , followers(memory::Allocator())
         {
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 8ff2c5c..cd7539b 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -91,7 +91,7 @@ namespace redGrapes
             /*! number of incoming edges
              * state == 0: event is reached and can be removed
              */
-            std::atomic_uint16_t state;
+            std::atomic_uint32_t state;
 
             //! waker that is waiting for this event
             WakerId waker_id;
-- 
2.43.0


From 893b853072a75e06710ac8001c918f5f3f29dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 09/36] fix: make Event::waker_id atomic

It is set by the waiting thread while other threads notify the event.
Without an ordering between `waker_id` and `state`, the waiter could miss
the state change and the notifier could miss the waker.
---
 redGrapes/scheduler/event.cpp | 4 ++--
 redGrapes/scheduler/event.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 30dc7da..114f78d 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -32,14 +32,14 @@ namespace redGrapes
 
         Event::Event(Event& other)
             : state((uint32_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id((WakerId) other.waker_id)
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
             : state((uint32_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id((WakerId) other.waker_id)
             , followers(memory::Allocator())
         {
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index cd7539b..be04d5c 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -94,7 +94,7 @@ namespace redGrapes
             std::atomic_uint32_t state;
 
             //! waker that is waiting for this event
-            WakerId waker_id;
+            std::atomic<WakerId> waker_id;
 
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
-- 
2.43.0


From db5e6bed74eb477a26055e10a57492c0a52f2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 10/36] fix: add the edge to the parent when a child task is
 submitted

It was added when a worker initialized the child, at which time the
parent could already be finished and even freed.
---
 redGrapes/task/property/graph.cpp | 7 -------
 redGrapes/task/task_space.cpp     | 7 +++++++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 3680c79..75f1ebc 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -72,13 +72,6 @@ namespace redGrapes
                 }
             }
         }
-
-        // add dependency to parent
-        if(auto parent = this->space->parent)
-        {
-            SPDLOG_TRACE("add event dep to parent");
-            this->post_event.add_follower(parent->get_post_event());
-        }
     }
 
     void GraphProperty::delete_from_resources()
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c889d53..fbc80e8 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -76,8 +76,15 @@ namespace redGrapes
         ++task_count;
 
         if(parent)
+        {
             assert(this->is_superset(*parent, *task));
 
+            // the parent is still running here,
+            // it must not finish before the new child
+            SPDLOG_TRACE("add event dep to parent");
+            task->post_event.add_follower(parent->get_post_event());
+        }
+
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
         {
             r->task_entry = r->resource->users.push(task);
-- 
2.43.0


From e68cbb8e33d11a9f35560d050a3cc72c37be9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 11/36] fix: list each resource only once in unique_resources

A task with two accesses on the same resource registered twice as its
user and then waited for itself.
---
 redGrapes/resource/resource_user.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 489bd05..d69dad8 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -39,7 +39,11 @@ namespace redGrapes
     {
         this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
-        // unique_resources.erase(ResourceEntry{ r, r->users.end() });
+
+        for(auto entry = unique_resources.rbegin(); entry != unique_resources.rend(); ++entry)
+            if(entry->resource == r)
+                return;
+
         unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
     }
 
-- 
2.43.0


From 595c63f563cb98e93bd9c46f8a1efe4d87a8b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:58 +0000
Subject: [PATCH 12/36] fix: copy construction of ChunkedList copies the
 elements

The access list before a property update was always empty, so
update_properties() rejected every demotion.
---
 redGrapes/util/chunked_list.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 84629df..4e0f44f 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -25,6 +25,7 @@
 #include <limits>
 #include <memory>
 #include <optional>
+#include <vector>
 
 namespace redGrapes
 {
@@ -503,7 +504,13 @@ namespace redGrapes
 
         ChunkedList(Allocator&& alloc, ChunkedList const& other) : ChunkedList(std::move(alloc))
         {
-            spdlog::error("copy construct ChunkedList!!");
+            // `other` is iterated backwards, so collect the items first to keep their order
+            std::vector<T> items;
+            for(auto it = other.crbegin(); it != other.crend(); ++it)
+                items.push_back(*it);
+
+            for(auto it = items.rbegin(); it != items.rend(); ++it)
+                push(*it);
         }
 
         /* decrement item_count and in case all items of this chunk are deleted,
-- 
2.43.0


From ea63cea1420853981f71e592940a5725ea9cfa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 13/36] fix: update_graph() keeps the edge to the post-event of
 the parent

---
 redGrapes/task/property/graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 75f1ebc..d1ee61e 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -110,7 +110,9 @@ namespace redGrapes
         for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
         {
             scheduler::EventPtr follower = *it;
-            if(follower.task)
+            // only pre-events of other tasks are data-dependencies,
+            // the edge to the post-event of the parent must be kept
+            if(follower.task && follower.tag == scheduler::T_EVT_PRE)
             {
                 if(!space->is_serial(*this->task, *follower.task))
                 {
-- 
2.43.0


From 45fff26e4f41809ddbd40848b50b87c7dedf5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 14/36] fix: update_graph() removes exactly the edge it
 notifies

erase() drops all edges to the same follower, but the follower got only
notified once and could never become ready.
---
 redGrapes/task/property/graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index d1ee61e..04ef716 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -119,7 +119,7 @@ namespace redGrapes
                     // remove dependency
                     // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
                     // std::end(follower.task->in_edges), this));
-                    post_event.followers.erase(follower);
+                    post_event.followers.remove(it);
 
                     follower.notify();
                 }
-- 
2.43.0


From 5728305bb0f6c34eb89d760efb62a1fd7549346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 15/36] fix: free tasks in the arena they were allocated from

With more workers than PUs, `Worker::alloc` is not the allocator of the
arena with the id of the worker.
---
 redGrapes/task/task_space.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index fbc80e8..e24c228 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -56,8 +56,7 @@ namespace redGrapes
         task->~Task();
 
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
-        SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
-            memory::Block{(uintptr_t) task, sizeof(Task)});
+        memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
-- 
2.43.0


From 13d9024fbc3350055018199fcb8aafcd03987528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 16/36] fix: AtomicList frees chunks with the size they were
 allocated with

Only the first pages of a chunk were unmapped.
---
 redGrapes/util/atomic_list.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 16b1841..eb9c01d 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -104,14 +104,19 @@ namespace redGrapes
 
                 Allocator alloc;
                 T* ptr;
+                size_t n_bytes;
 
-                StaticAlloc(Allocator alloc, size_t n_bytes) : alloc(alloc), ptr((T*) alloc.allocate(n_bytes))
+                StaticAlloc(Allocator alloc, size_t n_bytes)
+                    : alloc(alloc)
+                    , ptr((T*) alloc.allocate(n_bytes))
+                    , n_bytes(n_bytes)
                 {
                 }
 
                 template<typename U>
                 constexpr StaticAlloc(StaticAlloc<U> const& other) noexcept : alloc(other.alloc)
                                                                             , ptr((T*) other.ptr)
+                                                                            , n_bytes(other.n_bytes)
                 {
                 }
 
@@ -122,7 +127,7 @@ namespace redGrapes
 
                 void deallocate(T* p, std::size_t n) noexcept
                 {
-                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = sizeof(T) * n});
+                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = n_bytes});
                 }
             };
 
-- 
2.43.0


From c7450726e14b68ebded7fc7fda5b9b67999630d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 17/36] fix: count bump-allocations before reserving memory

Between reserving a block and counting it, another thread could free the
last counted block and erase the chunk. Conversely, a chunk whose blocks
were all freed before it got full was never erased.
---
 redGrapes/memory/bump_allocator.cpp     | 10 +++++++---
 redGrapes/memory/chunked_bump_alloc.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index ba77e2a..42ff6f2 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -57,14 +57,18 @@ namespace redGrapes
 
         Block BumpAllocator::allocate(size_t n_bytes)
         {
+            // count the allocation before reserving its memory, so that
+            // a full chunk with `count == 0` never contains a live block
+            count++;
+
             uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
             if(addr >= lower_limit)
-            {
-                count++;
                 return Block{addr, n_bytes};
-            }
             else
+            {
+                count--;
                 return Block::null();
+            }
         }
 
         uint16_t BumpAllocator::deallocate(Block blk)
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 20a6e87..deea7e5 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -101,7 +101,13 @@ namespace redGrapes
 
                             // chunk is full, create a new one
                             if(!blk)
+                            {
                                 bump_allocators.allocate_item();
+
+                                // all blocks of this chunk were already freed before it got full
+                                if(chunk->empty())
+                                    bump_allocators.erase(chunk);
+                            }
                         }
                         // no chunk exists, create a new one
                         else
-- 
2.43.0


From dc5cc777352213f5ea92bbf1c7529336f2dddf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 18/36] fix: reject allocations which do not fit into an empty
 chunk

The capacity check ignored the management data inside of the chunk, so
allocate() appended new chunks forever.
---
 redGrapes/memory/chunked_bump_alloc.hpp | 2 +-
 redGrapes/util/atomic_list.hpp          | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index deea7e5..46a465a 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -84,7 +84,7 @@ namespace redGrapes
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
                 size_t alloc_size = roundup_to_poweroftwo(n);
 
-                size_t const chunk_capacity = bump_allocators.get_chunk_capacity();
+                size_t const chunk_capacity = bump_allocators.get_item_capacity();
 
                 if(alloc_size <= chunk_capacity)
                 {
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index eb9c01d..a207ab8 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -152,6 +152,13 @@ namespace redGrapes
                 return chunk_capacity;
             }
 
+            /* how many bytes of each chunk remain for the item to use
+             */
+            constexpr size_t get_item_capacity()
+            {
+                return chunk_capacity - get_controlblock_size() - sizeof(Item);
+            }
+
             constexpr size_t get_chunk_allocsize()
             {
                 return chunk_capacity + get_controlblock_size();
-- 
2.43.0


From 6ed18889d11a2d9c1ef3c81986d3e1045bc3a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 19/36] fix: do not access an event after its task got
 activated

As soon as the task is handed to the scheduler, another worker can run
and free it.
---
 redGrapes/scheduler/event.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 114f78d..184b51c 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -142,13 +142,6 @@ namespace redGrapes
 
             if(task)
             {
-                // pre event ready
-                if(tag == scheduler::T_EVT_PRE && state == 1)
-                {
-                    if(!claimed)
-                        SingletonContext::get().scheduler->activate_task(*task);
-                }
-
                 // post event reached:
                 // no other task can now create dependencies to this
                 // task after deleting it from the resource list
@@ -173,6 +166,15 @@ namespace redGrapes
                     }
             }
 
+            // pre event ready
+            // this must come last, since an activated task can
+            // be executed and freed by another thread at any time
+            if(task && tag == scheduler::T_EVT_PRE && state == 1)
+            {
+                if(!claimed)
+                    SingletonContext::get().scheduler->activate_task(*task);
+            }
+
             // return true if event is ready (state == 1)
             return state == 1;
         }
-- 
2.43.0


From 76e4966621b7508755cc98b4047e3ef4f238bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 20/36] fix: hold a paused task while its edge to the awaited
 event is added

If the event is reached between add_follower() and up(), the task was
activated although execute_task() still modifies its pre-event.
---
 redGrapes/dispatch/thread/execute.cpp | 2 --
 redGrapes/task/property/graph.hpp     | 5 +++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index fc2cadc..e5147cb 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -40,8 +40,6 @@ namespace thread
         {
             event->get_event().waker_id = current_waker_id;
             task.sg_pause(*event);
-
-            task.pre_event.up();
             task.get_pre_event().notify();
         }
         else
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index d7d7cad..159b27f 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -131,6 +131,11 @@ namespace redGrapes
         inline void sg_pause(scheduler::EventPtr event)
         {
             pre_event.state = 1;
+
+            // hold the task until it got notified by the caller,
+            // since `event` can be reached at any time
+            pre_event.up();
+
             event->add_follower(get_pre_event());
         }
 
-- 
2.43.0


From ef06f6fced2bce5bcc18faa60aad54363ed0e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 21/36] fix: do not lose followers that are added while the
 event is reached

add_follower() could check the state before, but append the follower
after the followers were notified, e.g. when a task pauses on an event
of a concurrently running task.
---
 redGrapes/scheduler/event.cpp | 10 +++++++++-
 redGrapes/scheduler/event.hpp |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 184b51c..a54e9fd 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -68,11 +68,13 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "add_follower");
 
+            std::unique_lock<SpinLock> lock(followers_mutex);
+
             if(!is_reached())
             {
                 SPDLOG_TRACE("Event add follower");
-                followers.push(follower);
                 follower->state++;
+                followers.push(follower);
             }
         }
 
@@ -88,6 +90,12 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify_followers");
 
+            // wait for followers which are being added right now.
+            // from here on, add_follower() sees that this event is reached
+            {
+                std::unique_lock<SpinLock> lock(followers_mutex);
+            }
+
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
                 follower->notify();
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index be04d5c..f25411d 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <redGrapes/scheduler/scheduler.hpp>
+#include <redGrapes/sync/spinlock.hpp>
 #include <redGrapes/util/chunked_list.hpp>
 
 #include <spdlog/spdlog.h>
@@ -96,6 +97,9 @@ namespace redGrapes
             //! waker that is waiting for this event
             std::atomic<WakerId> waker_id;
 
+            //! excludes adding a follower while the event is being reached
+            SpinLock followers_mutex;
+
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
 
-- 
2.43.0


From 3491cef868d119136e5b32a08b7b240a348b454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 22/36] fix: ChunkedList::Item::acquire() succeeds only on
 existing items

When the item was removed between reading `iter_offset` and `refcount`,
acquire() returned 0 without taking a reference. When the item was
removed while acquire() held the last reference, it was never destroyed.
---
 redGrapes/util/chunked_list.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 4e0f44f..4f07c0e 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -182,12 +182,16 @@ namespace redGrapes
                 iter_offset_t off = iter_offset.load();
                 refcount_t old_refcount = refcount.load();
 
-                if(off == 0 && old_refcount >= 0)
+                while(off == 0)
                 {
-                    old_refcount = refcount.fetch_add(1);
-                    off = iter_offset.load();
+                    if(old_refcount < 0)
+                        /* item data is already destructed, so
+                         * `iter_offset` was set since we read it
+                         */
+                        return iter_offset.load();
 
-                    if(old_refcount >= 0)
+                    // never increment the refcount of a destructed item
+                    if(refcount.compare_exchange_weak(old_refcount, old_refcount + 1))
                     {
                         /* The item data is not already destructed,
                          * but only when `iter_offset` is still set to `0`
@@ -195,19 +199,16 @@ namespace redGrapes
                          * In case `off > 0`, some thread already called `remove()`
                          * on this iterator position.
                          */
+                        off = iter_offset.load();
 
-                        /* keep others from falsely trying to acquire this item
-                         * if it is deleted already.
-                         */
+                        // this could have been the last reference
                         if(off != 0)
-                            --refcount;
+                            release();
+
+                        return off;
                     }
-                    else
-                        /* item data is already destructed.
-                         * just decrement refcount to keep others from trying to
-                         * acquire this item.
-                         */
-                        --refcount;
+
+                    off = iter_offset.load();
                 }
 
                 return off;
-- 
2.43.0


From b9f5c65148f078c831d331875633267f6d19ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 23/36] fix: ChunkedList constructs and destroys each element
 exactly once

Elements were assigned into uninitialized storage and the destructor was
called for slots which were never used.
---
 redGrapes/util/chunked_list.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 4f07c0e..a3fd0c9 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -146,7 +146,9 @@ namespace redGrapes
 
             ~Item()
             {
-                release<false>();
+                // unused and removed items contain no value
+                if(iter_offset == 0)
+                    release<false>();
             }
 
             /* initialize value of this item.
@@ -160,7 +162,7 @@ namespace redGrapes
                 assert(iter_offset != 0);
                 assert(refcount == 0);
 
-                storage.value = value;
+                new(&storage.value) T(value);
 
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
-- 
2.43.0


From db0efc9f8e3f64d09fa997e5e53d57ea96053a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 24/36] fix: release bump-allocator chunks which were erased
 while being head

No iteration ever passes beyond the current chunk if all blocks are freed
in it, so the erased chunks before it stayed linked forever.
---
 redGrapes/memory/chunked_bump_alloc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 46a465a..df1c12f 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -107,6 +107,9 @@ namespace redGrapes
                                 // all blocks of this chunk were already freed before it got full
                                 if(chunk->empty())
                                     bump_allocators.erase(chunk);
+
+                                // chunks which were erased while they were `head` are still linked
+                                bump_allocators.rbegin().optimize();
                             }
                         }
                         // no chunk exists, create a new one
-- 
2.43.0


From 7b1581919947a974da523f916c2a6258e1371d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 25/36] fix: never drop an access transiently while applying a
 patch

A task which is initialized between the removal of the write- and the
addition of the read-access did not see any conflict with the running
task and could start too early.
---
 redGrapes/task/property/resource.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index 9a2f57e..bad18ed 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -17,7 +17,10 @@
 #include <fmt/format.h>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <cstdarg>
+#include <iterator>
+#include <list>
 #include <stdexcept>
 
 namespace redGrapes
@@ -116,17 +119,22 @@ namespace redGrapes
         {
             ResourceUser before(*this);
 
-            for(auto x : patch.diff)
-            {
-                switch(x.first)
-                {
-                case Patch::DiffType::ADD:
+            // Other tasks check for conflicts with this task concurrently,
+            // so first add the new accesses before removing the old ones.
+            for(auto const& x : patch.diff)
+                if(x.first == Patch::DiffType::ADD)
                     (*this) += x.second;
-                    break;
-                case Patch::DiffType::REMOVE:
-                    (*this) -= x.second;
-                    break;
-                }
+
+            for(auto x = patch.diff.begin(); x != patch.diff.end(); ++x)
+            {
+                // the access is added again later on
+                bool keep = std::any_of(
+                    std::next(x),
+                    patch.diff.end(),
+                    [&x](auto const& y) { return y.first == Patch::DiffType::ADD && y.second == x->second; });
+
+                if(x->first == Patch::DiffType::REMOVE && !keep)
+                    (*this) -= x->second;
             }
 
             if(!before.is_superset_of(*this))
-- 
2.43.0


From 3e7c087c297925dfbd5c6c5925ff81a3059a0579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 26/36] fix: don't skip list items which are still being
 initialized by push

---
 redGrapes/util/chunked_list.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index a3fd0c9..eaef80a 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -591,10 +591,16 @@ namespace redGrapes
                 if(pos.get_item_ptr() == pos.chunk->first_item)
                     pos.item().iter_offset = 1;
 
-                // if we have a predecessor in this chunk, reuse their offset
                 else
-                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->iter_offset + 1;
+                {
+                    Item* pred = pos.get_item_ptr() - 1;
 
+                    /* if the predecessor in this chunk is deleted, reuse their offset.
+                     * otherwise it exists or it may still be initialized by `push()`,
+                     * so it must not be skipped.
+                     */
+                    pos.item().iter_offset = (pred->refcount < 0) ? pred->iter_offset + 1 : 1;
+                }
 
                 /* TODO: scan in other direction for deleted items too,
                     and update their `iter_offset`
-- 
2.43.0


From 2febf6a1b0b4ea4725b4fe54a1d00af56c7fa17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 27/36] fix: don't end list iteration at a newly appended,
 still empty chunk

---
 redGrapes/util/chunked_list.hpp | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index eaef80a..02de0f2 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -370,32 +370,35 @@ namespace redGrapes
              */
             void acquire_next_item()
             {
-                while(is_valid_idx())
+                while(chunk)
                 {
-                    iter_offset_t step = try_acquire();
-                    if(step == 0)
-                    {
-                        // item was successfully acquired.
-                        assert(has_item());
-                        return;
-                    }
-                    else
+                    if(is_valid_idx())
                     {
+                        iter_offset_t step = try_acquire();
+                        if(step == 0)
+                        {
+                            // item was successfully acquired.
+                            assert(has_item());
+                            return;
+                        }
+
                         // item is not existent
                         assert(!has_item());
 
                         // jump to next valid item
                         cur_item = (uintptr_t) (get_item_ptr() - step);
+                    }
 
-                        // goto next chunk if necessary
-                        if(!is_valid_idx())
-                        {
-                            ++chunk;
-                            if(chunk)
-                                cur_item = (uintptr_t) chunk->get_last_item();
-                            else
-                                cur_item = 0;
-                        }
+                    /* goto next chunk if necessary.
+                     * a chunk which was just appended may not contain any items yet
+                     */
+                    if(!is_valid_idx())
+                    {
+                        ++chunk;
+                        if(chunk)
+                            cur_item = (uintptr_t) chunk->get_last_item();
+                        else
+                            cur_item = 0;
                     }
                 }
 
-- 
2.43.0


From 49e44a93264f9e70977a0208e45162a0325f1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 28/36] fix: a pausing task must not replace the thread which
 waits for the event

execute_task() stored the waker id of its worker in the awaited event, so
the main thread, if it waits for the same event, was never woken. The paused
task itself is activated as follower of the event.
---
 redGrapes/dispatch/thread/execute.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index e5147cb..35afcfe 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,7 +38,6 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_waker_id;
             task.sg_pause(*event);
             task.get_pre_event().notify();
         }
-- 
2.43.0


From b451aebd6eb44ee9993269554460191c768b4c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 29/36] fix: release followers which are added while the
 accesses change

A task that is being initialized checks for conflicts and adds itself
as follower under users_mutex. If it saw the accesses from before
update_properties() but became a follower only after update_graph()
had looked at the followers, it was not released although it does not
conflict anymore. Wait for such tasks before iterating the followers.
---
 redGrapes/task/property/graph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 04ef716..1ef0065 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -104,6 +104,13 @@ namespace redGrapes
 
     void GraphProperty::update_graph()
     {
+        // wait for tasks which are being initialized right now, and for which the
+        // former accesses of this task were considered. They are followers from here on
+        for(auto r = this->task->unique_resources.rbegin(); r != this->task->unique_resources.rend(); ++r)
+        {
+            std::unique_lock<SpinLock> lock(r->resource->users_mutex);
+        }
+
         // std::unique_lock< SpinLock > lock( post_event.followers_mutex );
 
         //    for( auto follower : post_event.followers )
-- 
2.43.0


From 6fd289df61306aaac7ae4d87c1c07bf54243c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 30/36] fix: a rejected change of accesses must not take effect

apply_patch() changed the access list before it checked that the task
is only demoted, and left the promoted accesses in place when it threw:
the same update was accepted the second time.
---
 redGrapes/task/property/resource.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index bad18ed..aa05c24 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -115,15 +115,13 @@ namespace redGrapes
             this->rm_resource_access(ra);
         }
 
-        void apply_patch(Patch const& patch)
+        static void apply_diff(ResourceUser& user, Patch const& patch)
         {
-            ResourceUser before(*this);
-
             // Other tasks check for conflicts with this task concurrently,
             // so first add the new accesses before removing the old ones.
             for(auto const& x : patch.diff)
                 if(x.first == Patch::DiffType::ADD)
-                    (*this) += x.second;
+                    user.add_resource_access(x.second);
 
             for(auto x = patch.diff.begin(); x != patch.diff.end(); ++x)
             {
@@ -134,11 +132,20 @@ namespace redGrapes
                     [&x](auto const& y) { return y.first == Patch::DiffType::ADD && y.second == x->second; });
 
                 if(x->first == Patch::DiffType::REMOVE && !keep)
-                    (*this) -= x->second;
+                    user.rm_resource_access(x->second);
             }
+        }
 
-            if(!before.is_superset_of(*this))
+        void apply_patch(Patch const& patch)
+        {
+            // check the result first, a rejected patch must not have any effect
+            ResourceUser after(*this);
+            apply_diff(after, patch);
+
+            if(!this->is_superset_of(after))
                 throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
+
+            apply_diff(*this, patch);
         }
     };
 
-- 
2.43.0


From 6aaf0ea6127f79a7793d38bde72024b01989393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 31/36] fix: a task counts until it is destroyed, so barrier()
 does not return before

---
 redGrapes/task/task_space.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index e24c228..d54f8d9 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -50,7 +50,8 @@ namespace redGrapes
     void TaskSpace::free_task(Task* task)
     {
         TRACE_EVENT("TaskSpace", "free_task()");
-        unsigned count = task_count.fetch_sub(1) - 1;
+        // the task might hold the last reference to this space
+        std::shared_ptr<TaskSpace> self = shared_from_this();
 
         unsigned arena_id = task->arena_id;
         task->~Task();
@@ -58,6 +59,9 @@ namespace redGrapes
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
         memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
+        // only now the task is gone, so barrier() may return
+        unsigned count = task_count.fetch_sub(1) - 1;
+
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
         //  -> never have current_task = nullptr
-- 
2.43.0


From acc128a5dee2016efff3082f0af1fe7ffa945437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:22 +0000
Subject: [PATCH 32/36] fix: keep the whole scope level of a task's access list

The level was truncated to 8 bits, so that from a nesting depth of 256 on
accesses of outer scopes were taken for those of new resources and
update_properties() accepted changes which are not covered.
---
 redGrapes/resource/resource_user.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.hpp b/redGrapes/resource/resource_user.hpp
index 3edf608..e965e88 100644
--- a/redGrapes/resource/resource_user.hpp
+++ b/redGrapes/resource/resource_user.hpp
@@ -51,7 +51,7 @@ namespace redGrapes
         static bool is_superset(ResourceUser const& a, ResourceUser const& b);
         static bool is_serial(ResourceUser const& a, ResourceUser const& b);
 
-        uint8_t scope_level;
+        unsigned scope_level;
 
         ChunkedList<ResourceAccess, 8> access_list;
         ChunkedList<ResourceUsageEntry, 8> unique_resources;
-- 
2.43.0


From ceabdbd892497ccb149bb704217a6853e5d68123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:44 +0000
Subject: [PATCH 33/36] fix: count the references of list elements with 32 bits

With 16 bits, more than 32767 iterators at one element made the counter
negative: the element was taken for removed although it was still referenced.
---
 redGrapes/util/chunked_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 02de0f2..1024b60 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -80,7 +80,7 @@ namespace redGrapes
     struct ChunkedList
     {
         using iter_offset_t = uint16_t;
-        using refcount_t = int16_t;
+        using refcount_t = int32_t;
 
         struct Item
         {
-- 
2.43.0


From 8c3bd871b35b0e49e1d3d7c16d879f2c7363716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:28 +0000
Subject: [PATCH 34/36] fix: do not use an event which is not reached after
 removing an edge

When one edge remains, another thread may remove it at any time, and the task
the event belongs to is destroyed. A waiting thread is only interested in
events which are reached.
---
 redGrapes/scheduler/event.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index a54e9fd..387ab10 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -157,8 +157,9 @@ namespace redGrapes
                     task->delete_from_resources();
             }
 
-            // if event is ready or reached (state ∈ {0,1})
-            if(state <= 1 && this->get_event().waker_id >= 0)
+            // only if the event is reached: otherwise it may be reached by another
+            // thread at any time, and the task it belongs to may be destroyed
+            if(state == 0 && this->get_event().waker_id >= 0)
                 SingletonContext::get().scheduler->wake(this->get_event().waker_id);
 
             if(state == 0)
-- 
2.43.0


From 0d134f2b4dde1251a3e7d2170391e5a8e0136de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:29 +0000
Subject: [PATCH 35/36] fix: align the blocks of the allocator to cache lines

A small allocation made the following blocks misaligned for over-aligned types.
---
 redGrapes/memory/chunked_bump_alloc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index df1c12f..28d665f 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -17,6 +17,7 @@
 #include <boost/core/demangle.hpp>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
@@ -82,7 +83,8 @@ namespace redGrapes
             Block allocate(std::size_t n = 1) noexcept
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
-                size_t alloc_size = roundup_to_poweroftwo(n);
+                // every block is a multiple of a cache line, so that each one is aligned to it
+                size_t alloc_size = std::max(roundup_to_poweroftwo(n), size_t(64));
 
                 size_t const chunk_capacity = bump_allocators.get_item_capacity();
 
-- 
2.43.0


From 97a96406cfeb1eff4763817c2700a3695ab7abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 36/36] fix: compare external events in EventPtr::operator==

Two handles of different external events compared equal, so that
remove_follower() of one removed the edge to another one.
---
 redGrapes/scheduler/event.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index f25411d..51656c4 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -52,7 +52,8 @@ namespace redGrapes
 
             inline bool operator==(EventPtr const& other) const
             {
-                return this->tag == other.tag && this->task == other.task;
+                return this->tag == other.tag && this->task == other.task
+                    && this->external_event == other.external_event;
             }
 
             Event& get_event() const;
-- 
2.43.0

