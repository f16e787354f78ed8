From 08f3aef220a70c1af565ce5ae23b0edaf38abe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 01/27] fix: an algorithm that doesn't use the resource at all
 is O(1), not the worst complexity (0/0)

---
 src/low_level_analysis/low_level_analysis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..7c8fa9b 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,7 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
-    if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
+    if u1 == 0.0 && u2 == 0.0 {
+        // the resource wasn't used at all, regardless of the set size -- "0/0" would, otherwise, be reported as the worst complexity
+        BigOAlgorithmComplexity::O1
+    } else if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
@@ -52,7 +55,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
-    if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
+    if u1 == 0.0 && u2 == 0.0 {
+        // the resource wasn't used at all, regardless of the set size
+        BigOAlgorithmComplexity::O1
+    } else if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
-- 
2.43.0


From 48f039cb0fdf2914961287f15e399309ae0259fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 02/27] fix: don't drop uninitialized ring-buffer slots when
 enqueueing on the first lap

---
 src/metrics_allocator/ring_buffer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..2403d0b 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -58,12 +58,15 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         // reserve the slot
         let reserved_tail = self.reserved_tail.fetch_add(1, Ordering::Relaxed);
         // set the reserved slot contents
-        let mutable_buffer = unsafe {
-            let const_ptr = self.buffer.as_ptr();
-            let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
-            &mut *mut_ptr
-        };
-        mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        unsafe {
+            let slot_ptr = (self.buffer.as_ptr() as *mut Slot).add(reserved_tail as usize % RING_BUFFER_SIZE);
+            if (reserved_tail as usize) < RING_BUFFER_SIZE {
+                // first lap: there is no older element there to be dropped -- the slot wasn't initialized yet
+                slot_ptr.write(element);
+            } else {
+                *slot_ptr = element;
+            }
+        }
 
         // publish the new element for consumption
         loop {
-- 
2.43.0


From d0bf254a6986059e70fd37a6c75279f09ffe39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 03/27] fix: a ring-buffer consumer that was overrun keeps
 yielding the overflow error, as documented

---
 src/metrics_allocator/ring_buffer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 2403d0b..69e81e6 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -126,12 +126,21 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
+            let overflow_error = || RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) };
+            // leave `head` behind if it was overrun, so any further operations will yield the same error
+            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                match self.head.compare_exchange(head, head, Ordering::Relaxed, Ordering::Relaxed) {
+                    Ok(_) => return Err(overflow_error()),
+                    Err(reloaded_head) => { head = reloaded_head; continue },
+                }
+            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
                     if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                        return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+                        self.head.fetch_min(head, Ordering::Relaxed);
+                        return Err(overflow_error());
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
                 },
-- 
2.43.0


From 63e228eebed0b415eba0b527da132992187ed090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/27] fix: allocations & re-allocations refused by the system
 are not accounted for

---
 src/metrics_allocator/metrics_allocator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..0c5cbdf 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -267,20 +267,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let ptr = self.system_allocator.alloc(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let ptr = self.system_allocator.alloc_zeroed(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let new_ptr = self.system_allocator.realloc(ptr, layout, new_size);
+        if !new_ptr.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        new_ptr
     }
 }
 
-- 
2.43.0


From f087170977e662c4286d90981bbef0114feaae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 05/27] fix: min & max used memories must account for the
 levels reached by concurrent (de)allocations

---
 src/metrics_allocator/metrics_allocator.rs | 25 +++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 0c5cbdf..b426990 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -203,24 +203,24 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     fn compute_alloc_metrics(&self, layout: &Layout) {
         self.statistics.allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let previously_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(previously_used_memory.wrapping_add(layout.size()));
     }
 
     /// compute metrics for de-allocation
     fn compute_dealloc_metrics(&self, layout: &Layout) {
         self.statistics.deallocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.deallocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let previously_used_memory = self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(previously_used_memory.wrapping_sub(layout.size()));
     }
 
     /// compute metrics for zeroed allocation
     fn compute_alloc_zeroed_metrics(&self, layout: &Layout) {
         self.statistics.zeroed_allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.zeroed_allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let previously_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(previously_used_memory.wrapping_add(layout.size()));
     }
 
     /// compute metrics for re-allocation
@@ -229,16 +229,17 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         self.statistics.reallocated_originals_bytes.fetch_add(layout.size(), Ordering::Relaxed);
         self.statistics.reallocated_news_bytes.fetch_add(new_size, Ordering::Relaxed);
         if new_size > layout.size() {
-            self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            let previously_used_memory = self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            self.compute_min_and_max_used_memories(previously_used_memory.wrapping_add(new_size-layout.size()));
         } else if new_size < layout.size() {
-            self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            let previously_used_memory = self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            self.compute_min_and_max_used_memories(previously_used_memory.wrapping_sub(layout.size()-new_size));
         }
-        self.compute_min_and_max_used_memories();
     }
 
-    /// helper functions for metrics computation
-    fn compute_min_and_max_used_memories(&self) {
-        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+    /// helper functions for metrics computation -- `current_used_memory` is the level reached by the operation being computed
+    /// (reading it again here could miss that level if other threads changed it meanwhile)
+    fn compute_min_and_max_used_memories(&self, current_used_memory: usize) {
         let mut min_used_memory = self.statistics.min_used_memory.load(Ordering::Relaxed);
         loop {
             if current_used_memory < min_used_memory {
-- 
2.43.0


From d6fbbc322de42cbbfc06108319c6df4b6487f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 06/27] fix: concurrent heap usage while taking save points or
 reading statistics could lose peaks or yield inconsistent min & max

---
 src/metrics_allocator/metrics_allocator.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b426990..994fc2a 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -142,13 +142,16 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     pub fn save_point(&self) -> MetricsAllocatorSavePoint<RING_BUFFER_SIZE> {
         // add the current (min,max) to the ring buffer and start a new counter
         // the new consumer will consume any further saved_points + the current (min,max)
+        // -- swapping assures no concurrent update to (min,max) gets lost
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
         self.used_memory_ring_buffer.enqueue(SavePointRingBufferSlot {
-            min_used_memory: self.statistics.min_used_memory.load(Ordering::Relaxed),
-            max_used_memory: self.statistics.max_used_memory.load(Ordering::Relaxed),
+            min_used_memory: self.statistics.min_used_memory.swap(current_used_memory, Ordering::Relaxed),
+            max_used_memory: self.statistics.max_used_memory.swap(current_used_memory, Ordering::Relaxed),
         });
         let used_memory_ring_buffer_consumer = self.used_memory_ring_buffer.consumer();
-        self.statistics.min_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
-        self.statistics.max_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
+        // include any concurrent change made while the new counters were being set up
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(current_used_memory);
         MetricsAllocatorSavePoint {
             metrics: MetricsAllocatorStatistics {
                 allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed),
@@ -160,7 +163,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed),
                 reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed),
                 reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed),
-                current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+                current_used_memory,
                 min_used_memory:             self.statistics.min_used_memory            .load(Ordering::Relaxed),
                 max_used_memory:             self.statistics.max_used_memory            .load(Ordering::Relaxed),
             },
@@ -183,6 +186,10 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         // compute the current (min,max)
         min = min.min(self.statistics.min_used_memory.load(Ordering::Relaxed));
         max = max.max(self.statistics.max_used_memory.load(Ordering::Relaxed));
+        // concurrent operations change the level before updating (min,max) -- make sure the levels on both ends are covered
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        min = min.min(current_used_memory).min(save_point.metrics.current_used_memory);
+        max = max.max(current_used_memory).max(save_point.metrics.current_used_memory);
         Ok(MetricsAllocatorStatistics::<usize> {
             allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed) - save_point.metrics.allocations_count,
             deallocations_count:         self.statistics.deallocations_count        .load(Ordering::Relaxed) - save_point.metrics.deallocations_count,
@@ -193,7 +200,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
             zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed) - save_point.metrics.zeroed_allocated_bytes,
             reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed) - save_point.metrics.reallocated_originals_bytes,
             reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed) - save_point.metrics.reallocated_news_bytes,
-            current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+            current_used_memory,
             min_used_memory:             min,
             max_used_memory:             max,
         })
-- 
2.43.0


From d3d5b02abbafadf287564314bad791a01910f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 07/27] fix: CRUD passes must run all their iterations, even if
 they aren't a multiple of the number of threads

---
 src/runners/common.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..9084808 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,13 +121,14 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        // -- chunk boundaries are proportionally placed so all iterations are executed even if they are not a multiple of `threads`
+        let i64_range = range.end as i64 .. range.start as i64;
+        let chunk_boundary = |n: u32| (i64_range.start + (i64_range.end-i64_range.start) * n as i64 / threads as i64) as u32;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
-        for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
-            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
+        for n in 0..threads {
+            let chunked_range = chunk_boundary(n)..chunk_boundary(n+1);
+            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range)) );
         }
 
         // wait for them all to finish
-- 
2.43.0


From 0dcb38d7b52dee6abd61e24478f083e885b5aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 08/27] fix: CRUD operations with 0 threads are skipped, as
 documented (instead of dividing by zero)

---
 src/runners/crud.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..14497a8 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -218,6 +218,12 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                                              CRUDComplexityAnalysisError>
                                    where PassResult: Copy {
 
+    // as documented, operations with no threads to run them are skipped
+    let create_iterations_per_pass = if create_threads > 0 {create_iterations_per_pass} else {0};
+    let   read_iterations_per_pass = if   read_threads > 0 {  read_iterations_per_pass} else {0};
+    let update_iterations_per_pass = if update_threads > 0 {update_iterations_per_pass} else {0};
+    let delete_iterations_per_pass = if delete_threads > 0 {delete_iterations_per_pass} else {0};
+
     let mut full_report = String::with_capacity(2048);
 
     // wrap around the original 'OUTPUT' function to capture the [full_report]
-- 
2.43.0


From 3ec80a8a95b872aff91a2251e53cd6cff55f1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 09/27] fix: the number of warm-up iterations overflowed for
 big sets

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 14497a8..dd356b3 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -437,8 +437,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_iterations = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_iterations(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_iterations(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -464,7 +465,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_iterations(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From 589053c3ff48d8eb8dc09e94eab1a9be3dd7adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 10/27] fix: test_crud_algorithms() accepted any algorithm,
 without running it, if no retry attempts were allowed

---
 src/runners/crud.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index dd356b3..9eeed85 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // at least one attempt is due: without any, everything would be accepted
+    let max_retry_attempts = std::cmp::max(1, max_retry_attempts);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From e010cdd1b19460c1687e06ad6f18182fa6dae243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 11/27] fix: retries on small sets skipped the operations
 instead of analysing them again

---
 src/runners/crud.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 9eeed85..1514e43 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -43,7 +43,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     // adapts the 'iterations_per_pass' to the 'attempt' number, so each retry uses slightly different values
     fn adapt(attempt: u32, iterations_per_pass: u32) -> u32 {
         let factor = 10-(((attempt % 15)/3)*2); // [10,8,6,4,2,10,8,6,4,2,...]
-        match attempt {
+        let adapted_iterations_per_pass = match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
                 0 => iterations_per_pass / factor,
@@ -51,7 +51,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
             }
-        }
+        };
+        // never adapt so far that an operation wouldn't run (and, therefore, wouldn't be analysed)
+        std::cmp::max(adapted_iterations_per_pass, std::cmp::min(2, iterations_per_pass))
 
     }
 
-- 
2.43.0


From 8dae7a53257de3eef9dabd488d6427afdf83b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 12/27] fix: reset_fn must be told the number of created
 elements when retrying a CRUD test

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 1514e43..5140333 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -89,7 +89,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                 if attempt < max_retry_attempts-1 {
                     collected_errors.push(crud_analysis_error);
                     OUTPUT(&format!("\nAttempt {} failed. Resetting before retrying", attempt+1));
-                    reset_fn(100);  // 100% of the created elements
+                    reset_fn(if create_threads > 0 {adapted_create_iterations_per_pass * 2} else {0});  // all elements created on both passes
                     OUTPUT("...\n");
                     continue;
                 } else {
-- 
2.43.0


From 84a9b210d8123d72f734463065683ab124f28b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 13/27] fix: small memory variations over a big used memory
 were reported without their sign

---
 src/low_level_analysis/types/types_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..3408687 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -186,8 +186,7 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0


From 89c10f66d7725ca5a0db1151760bbdf0b35ab60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 14/27] fix: the reset done after the async warm-up must
 receive the data the warm-up produced

---
 src/api/builders/regular_async_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/builders/regular_async_builder.rs b/src/api/builders/regular_async_builder.rs
index f3b7d24..f73f7af 100644
--- a/src/api/builders/regular_async_builder.rs
+++ b/src/api/builders/regular_async_builder.rs
@@ -97,7 +97,7 @@ RegularAsyncAnalyzerBuilder<FirstPassFn, FirstPassFut, SecondPassFn, SecondPassF
                 let (_warmup_pass_result, algo_data) = run_async_pass_verbosely("  Warming up: ", ";", algo_data, warmup_fn, OUTPUT).await;
                 // reset again
                 if let Some(reset_fn) = &mut self.reset_fn {
-                    let (_reset_pass_result, algo_data) = run_async_pass_verbosely("  Resetting again: ", ";", None, reset_fn, OUTPUT).await;
+                    let (_reset_pass_result, algo_data) = run_async_pass_verbosely("  Resetting again: ", ";", Some(algo_data), reset_fn, OUTPUT).await;
                     Some(algo_data)     // return the "after second reset" data
                 } else {
                     Some(algo_data)     // return the "after warmup" data
-- 
2.43.0


From e63526e7eb25da30d50dc4e068eeea8d6242ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 15/27] fix: report & tolerance features can be combined with
 the default ones -- 'no_report' > 'report_stderr' > 'report_stdout'; the
 broader tolerance wins

---
 src/features.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index c4d4cf0..17100ed 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -4,7 +4,7 @@
 use std::io::{stdout,stderr,Write};
 use crate::metrics_allocator::MetricsAllocator;
 
-#[cfg(any(feature = "tolerance_10_percent", not(any(feature = "tolerance_25_percent"))))]
+#[cfg(not(feature = "tolerance_25_percent"))]
 /// acceptable proportional variance (acceptable measurement errors) when analysing algorithm's time & space complexities
 pub const PERCENT_TOLERANCE: f64 = 0.10;
 
@@ -12,15 +12,15 @@ pub const PERCENT_TOLERANCE: f64 = 0.10;
 /// acceptable proportional variance (acceptable measurement errors) when analysing algorithm's time & space complexities
 pub const PERCENT_TOLERANCE: f64 = 0.25;
 
-#[cfg(feature = "report_stdout")]
+#[cfg(all(feature = "report_stdout", not(any(feature = "report_stderr", feature = "no_report"))))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = stdout_write;
 
-#[cfg(feature = "report_stderr")]
+#[cfg(all(feature = "report_stderr", not(feature = "no_report")))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = stderr_write;
 
-#[cfg(not(any(feature = "report_stdout", feature = "report_stderr")))]
+#[cfg(any(feature = "no_report", not(any(feature = "report_stdout", feature = "report_stderr"))))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = null_write;
 
-- 
2.43.0


From 4850410dc14727b53abd28759a066f13c29711e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 16/27] verification hooks, guarded by cfg(big_o_verif)

---
 src/api/builders/regular_async_builder.rs          |  6 ++++++
 src/lib.rs                                         | 12 ++++++++++++
 src/utils/measurements/presentable_measurements.rs |  6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/src/api/builders/regular_async_builder.rs b/src/api/builders/regular_async_builder.rs
index f73f7af..954efab 100644
--- a/src/api/builders/regular_async_builder.rs
+++ b/src/api/builders/regular_async_builder.rs
@@ -195,6 +195,12 @@ RegularAsyncAnalyzerBuilder<FirstPassFn, FirstPassFut, SecondPassFn, SecondPassF
 
     }
 
+    /// Verification hook for [Self::test_run()]
+    #[cfg(big_o_verif)]
+    pub async fn verif_test_run(self) {
+        self.test_run().await
+    }
+
     async fn test_run(mut self) {
         println!("## Wonderful!! We are ready to run.");
         println!("## This is the data we got:");
diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..ce6ee72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
 
 
 mod api;
@@ -20,3 +21,14 @@ pub use {
         crud::test_crud_algorithms,
     },
 };
+
+/// Verification hooks -- only compiled with `RUSTFLAGS="--cfg big_o_verif"`:
+/// exposes the custom measurements, which are not publicly reachable yet
+#[cfg(big_o_verif)]
+pub mod verif {
+    pub use crate::utils::measurements::{measurer::*, presentable_measurements::*};
+
+    pub fn value_of(measurement: &PresentableMeasurement) -> f64 {
+        measurement.value
+    }
+}
diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2737e5a..93c877c 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -178,6 +178,12 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
     }
 }
 
+/// Verification hook for [custom_unit_per_second_measurement()]
+#[cfg(big_o_verif)]
+pub fn verif_custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
+    custom_unit_per_second_measurement(value, custom_unit)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0a44614e72819a00fab0daffd7e01e72041bc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 17/27] fix: consumers must acquire the published elements
 before reading them (data race on weakly ordered machines)

---
 src/metrics_allocator/ring_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 69e81e6..eb084fe 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -118,7 +118,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -172,7 +172,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
         let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From f9e04c07ea60b57c13f1a973f02a77eb4b746423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 18/27] fix: displaying a set resizing analysis of 2^31
 elements per pass or more overflowed

---
 src/low_level_analysis/types/types_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 3408687..37c5804 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -139,7 +139,7 @@ impl Display for SetResizingIteratorAlgorithmMeasurements<'_> {
                    2) {:>13}  {:>14}  {:>12}  {:>12.3?}\n",
                self.measurement_name,
                pass_1_time, pass_1_space, self.passes_info.delta_set_size,   Duration::from_secs_f64(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64),
-               pass_2_time, pass_2_space, self.passes_info.delta_set_size*2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
+               pass_2_time, pass_2_space, self.passes_info.delta_set_size as u64 * 2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
     }
 }
 
-- 
2.43.0


From 044f87878dfd9c1fc1e542ca112723f5169f256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 19/27] fix: displaying a measurement of (almost) the longest
 possible duration panicked

---
 src/utils/measurements/presentable_measurements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 93c877c..1e3388d 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -34,7 +34,7 @@ impl Display for PresentableMeasurement {
             ":.2"  => write!(f, "{:.2}{}",  scaled_value, suffix),
             ":.3"  => write!(f, "{:.3}{}",  scaled_value, suffix),
             ":.3e" => write!(f, "{:.3e}{}", scaled_value, suffix),
-            ":D"   => write!(f, "{:?}",     Duration::from_secs_f64(scaled_value)),
+            ":D"   => write!(f, "{:?}",     Duration::try_from_secs_f64(scaled_value).unwrap_or(Duration::MAX)),
             _ => panic!("Unknown format '{format}'. Please update this code")
         }
     }
-- 
2.43.0


From 24bf374b8549812dcc9bedcf69adcb462778e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 20/27] fix: producers concurrently enqueueing more elements
 than the ring-buffer holds overwrote (or dropped as initialized) slots still
 being set

---
 src/metrics_allocator/ring_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index eb084fe..214ee29 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -57,6 +57,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
         // reserve the slot
         let reserved_tail = self.reserved_tail.fetch_add(1, Ordering::Relaxed);
+        // another producer may still be setting the contents of that same slot, one lap behind
+        while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u32 {
+            std::hint::spin_loop();
+        }
         // set the reserved slot contents
         unsafe {
             let slot_ptr = (self.buffer.as_ptr() as *mut Slot).add(reserved_tail as usize % RING_BUFFER_SIZE);
-- 
2.43.0


From a6145c7e97d2086029250ce636a1f37ddc932105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 21/27] fix: a ring-buffer consumer shared by threads could
 work again after having failed due to an overflow

---
 src/metrics_allocator/ring_buffer.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 214ee29..3fec8e7 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,7 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -48,6 +48,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
             head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            overrun: AtomicBool::new(false),
             ring_buffer: self,
         }
     }
@@ -110,6 +111,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
     head: AtomicU32,
+    /// set once an element to be dequeued was overwritten: from then on, this consumer is no longer valid
+    overrun: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -123,6 +126,11 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
             let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+            let overflow_error = || RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) };
+            // once overrun, any further operations (by any thread) yield the same error
+            if self.overrun.load(Ordering::Relaxed) {
+                return Err(overflow_error());
+            }
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -130,20 +138,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
-            let overflow_error = || RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) };
-            // leave `head` behind if it was overrun, so any further operations will yield the same error
-            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                match self.head.compare_exchange(head, head, Ordering::Relaxed, Ordering::Relaxed) {
-                    Ok(_) => return Err(overflow_error()),
-                    Err(reloaded_head) => { head = reloaded_head; continue },
-                }
-            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
                     if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                        self.head.fetch_min(head, Ordering::Relaxed);
+                        self.overrun.store(true, Ordering::Relaxed);
                         return Err(overflow_error());
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
@@ -179,10 +179,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
-        if head == published_tail {
-            Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+        if self.overrun.load(Ordering::Relaxed) || published_tail - head > RING_BUFFER_SIZE as u32 {
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
+        } else if head == published_tail {
+            Ok([&[],&[]])
         } else if head_index < published_tail_index {
             unsafe {
                 // sorcery to get back an array from a MaybeUninit using only const stable functions (as of Rust 1.55)
-- 
2.43.0


From 41c2eed638ce9f7b14cb4e49fa35a4b22818a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 22/27] fix: windows opened by a thread made the ones open in
 other threads lose their peaks

---
 src/metrics_allocator/metrics_allocator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 994fc2a..d482167 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -2,6 +2,7 @@
 
 use std::fmt::{Formatter, Display, Debug};
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::{Mutex, PoisonError};
 use std::alloc::{System, GlobalAlloc, Layout};
 
 use crate::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer, RingBufferOverflowError};
@@ -105,6 +106,9 @@ pub struct MetricsAllocator<'a, const RING_BUFFER_SIZE: usize> {
     system_allocator:        &'a System,
     statistics:              MetricsAllocatorStatistics<AtomicUsize>,
     used_memory_ring_buffer: RingBuffer<SavePointRingBufferSlot<usize>, RING_BUFFER_SIZE>,
+    /// held while moving (min,max) to the ring buffer or gathering them back from there,
+    /// so other threads doing the same won't miss them
+    save_points_lock:        Mutex<()>,
 }
 impl<const RING_BUFFER_SIZE: usize>
 Default
@@ -135,11 +139,13 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 max_used_memory:             AtomicUsize::new(0),
             },
             used_memory_ring_buffer: RingBuffer::new(),
+            save_points_lock: Mutex::new(()),
         }
     }
 
     /// Prepares a new measurement for future allocations, to be inferred by [delta_statistics()](MetricsAllocator::delta_statistics()).
     pub fn save_point(&self) -> MetricsAllocatorSavePoint<RING_BUFFER_SIZE> {
+        let _lock = self.save_points_lock.lock().unwrap_or_else(PoisonError::into_inner);
         // add the current (min,max) to the ring buffer and start a new counter
         // the new consumer will consume any further saved_points + the current (min,max)
         // -- swapping assures no concurrent update to (min,max) gets lost
@@ -174,6 +180,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     /// Returns the allocation statistics between now and the point in time when `save_point` was generated
     /// (with a call to [save_point()](MetricsAllocator::save_point())).
     pub fn delta_statistics(&self, save_point: &MetricsAllocatorSavePoint<RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
+        let _lock = self.save_points_lock.lock().unwrap_or_else(PoisonError::into_inner);
         let mut min = usize::MAX;
         let mut max = usize::MIN;
         // compute (min,max) since the given 'save_point'
-- 
2.43.0


From 840bb17add9f42bcc8c31724a4eda93ea460b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 23/27] verification hooks: rely on less of the internals

---
 src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce6ee72..b3bf0ab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -27,8 +27,4 @@ pub use {
 #[cfg(big_o_verif)]
 pub mod verif {
     pub use crate::utils::measurements::{measurer::*, presentable_measurements::*};
-
-    pub fn value_of(measurement: &PresentableMeasurement) -> f64 {
-        measurement.value
-    }
 }
-- 
2.43.0


From 6d0c40f1ace26c742a29726c399536bc6811026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 24/27] fix: CRUD tests allowed many retries aborted the
 process, by reserving memory for all the errors there could be

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 5140333..519e844 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -60,7 +60,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     // at least one attempt is due: without any, everything would be accepted
     let max_retry_attempts = std::cmp::max(1, max_retry_attempts);
 
-    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
+    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::new();
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
     // the maximum acceptable create, read, update or delete 'expected_*_time_complexity'(ies)
-- 
2.43.0


From c45ada8c22303f7111fa036e7f21961f5350574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 25/27] fix: ring buffers stopped working after 2^32 elements,
 when their u32 counters wrapped around

---
 src/metrics_allocator/ring_buffer.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 3fec8e7..1543602 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,9 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
+#[cfg(test)]
+use std::sync::atomic::AtomicU32;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -19,9 +21,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicU64,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicU64,
     /// the data
     buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
 }
@@ -38,8 +40,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicU64::new(0),
+            published_tail: AtomicU64::new(0),
             buffer: MaybeUninit::uninit(),
         }
     }
@@ -47,7 +49,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicU64::new(self.published_tail.load(Ordering::Relaxed)),
             overrun: AtomicBool::new(false),
             ring_buffer: self,
         }
@@ -59,13 +61,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
         // reserve the slot
         let reserved_tail = self.reserved_tail.fetch_add(1, Ordering::Relaxed);
         // another producer may still be setting the contents of that same slot, one lap behind
-        while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u32 {
+        while reserved_tail - self.published_tail.load(Ordering::Acquire) >= RING_BUFFER_SIZE as u64 {
             std::hint::spin_loop();
         }
         // set the reserved slot contents
         unsafe {
             let slot_ptr = (self.buffer.as_ptr() as *mut Slot).add(reserved_tail as usize % RING_BUFFER_SIZE);
-            if (reserved_tail as usize) < RING_BUFFER_SIZE {
+            if reserved_tail < RING_BUFFER_SIZE as u64 {
                 // first lap: there is no older element there to be dropped -- the slot wasn't initialized yet
                 slot_ptr.write(element);
             } else {
@@ -110,7 +112,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicU64,
     /// set once an element to be dequeued was overwritten: from then on, this consumer is no longer valid
     overrun: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
@@ -142,7 +144,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u64 {
                         self.overrun.store(true, Ordering::Relaxed);
                         return Err(overflow_error());
                     }
@@ -179,7 +181,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
-        if self.overrun.load(Ordering::Relaxed) || published_tail - head > RING_BUFFER_SIZE as u32 {
+        if self.overrun.load(Ordering::Relaxed) || published_tail - head > RING_BUFFER_SIZE as u64 {
             Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head == published_tail {
             Ok([&[],&[]])
-- 
2.43.0


From 4b3f6f216839ae37cd80d7b10bf2b21960810f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 26/27] fix: building custom unit measurements in tests running
 in parallel corrupted the memory

---
 .../measurements/presentable_measurements.rs  | 35 +++++++------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 1e3388d..8b50982 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -3,6 +3,7 @@
 use std::borrow::Cow;
 use std::collections::HashMap;
 use std::fmt::Display;
+use std::sync::{Mutex, PoisonError};
 use std::time::Duration;
 use once_cell::sync::Lazy;
 
@@ -115,16 +116,10 @@ pub fn bytes_per_second_measurement(value: f64) -> PresentableMeasurement {
 /// quantities representing "a quantity of `custom_unit`".
 pub fn custom_unit_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
 
-    static mut AUTO_SCALE_DATA: Option<HashMap<&str, Vec<(f64, f64, Cow<'static, str>, &'static str)>>> = None;
+    static AUTO_SCALE_DATA: Lazy<Mutex<HashMap<&str, &'static [(f64, f64, Cow<'static, str>, &'static str)]>>> = Lazy::new(Mutex::default);
 
-    // non-synchronized one-time cache
-    let auto_scale_data = unsafe {
-        #[allow(static_mut_refs)]
-        // safety: this crate ensures a single thread will call the measurement & report functions.
-        // The alternative would be to use Mutexes, which are not needed in this case
-        &mut AUTO_SCALE_DATA
-    }
-        .get_or_insert_with(HashMap::new)
+    // one-time cache -- synchronized, as measurements may be built by tests running in parallel
+    let auto_scale_data = *AUTO_SCALE_DATA.lock().unwrap_or_else(PoisonError::into_inner)
         .entry(custom_unit)
         .or_insert_with(|| {
             [
@@ -134,12 +129,13 @@ pub fn custom_unit_measurement(value: f64, custom_unit: &'static str) -> Present
             ]
             .into_iter()
             .map(|(threshold, suffix, format)| (threshold, 1.0, Cow::Borrowed(suffix), format))
-            .collect()
+            .collect::<Vec<_>>()
+            .leak()
         });
 
     PresentableMeasurement {
         value,
-        auto_scale: auto_scale_data.as_slice(),
+        auto_scale: auto_scale_data,
 
     }
 }
@@ -148,16 +144,10 @@ pub fn custom_unit_measurement(value: f64, custom_unit: &'static str) -> Present
 /// quantities representing "a rate of `custom_unit` quantities per second".
 fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
 
-    static mut AUTO_SCALE_DATA: Option<HashMap<&str, Vec<(f64, f64, Cow<'static, str>, &'static str)>>> = None;
+    static AUTO_SCALE_DATA: Lazy<Mutex<HashMap<&str, &'static [(f64, f64, Cow<'static, str>, &'static str)]>>> = Lazy::new(Mutex::default);
 
-    // non-synchronized cache per `custom_unit`
-    let auto_scale_data = unsafe {
-        #[allow(static_mut_refs)]
-        // safety: this crate ensures a single thread will call the measurement & report functions.
-        // The alternative would be to use Mutexes, which are not needed in this case
-        &mut AUTO_SCALE_DATA
-    }
-        .get_or_insert_with(HashMap::new)
+    // cache per `custom_unit` -- synchronized, as measurements may be built by tests running in parallel
+    let auto_scale_data = *AUTO_SCALE_DATA.lock().unwrap_or_else(PoisonError::into_inner)
         .entry(custom_unit)
         .or_insert_with(|| {
             [
@@ -169,12 +159,13 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
             ]
             .into_iter()
             .map(|(threshold, rate, suffix, format)| (threshold, rate, Cow::Owned(suffix), format))
-            .collect()
+            .collect::<Vec<_>>()
+            .leak()
         });
 
     PresentableMeasurement {
         value,
-        auto_scale: auto_scale_data.as_slice(),
+        auto_scale: auto_scale_data,
     }
 }
 
-- 
2.43.0


From 2f0c4fcf997d866ea230d685a8122ec51af6c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:27 +0000
Subject: [PATCH 27/27] fix: peeking a ring-buffer consumer shared by threads
 could panic (or report an overflow) on weakly ordered machines

---
 src/metrics_allocator/ring_buffer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1543602..ad6e97a 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -140,7 +140,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
-            match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
+            match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
@@ -177,7 +177,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Relaxed);
+        // (acquires what the thread that advanced the `head` knew: the tail can't be seen behind it)
+        let head = self.head.load(Ordering::Acquire);
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
-- 
2.43.0

