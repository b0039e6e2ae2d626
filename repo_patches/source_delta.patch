From 39bff4ce9d4f8122c5050d5beeca90899a7e8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 01/37] fix: pvalloc fails with ENOMEM when rounding the size
 up to a page would wrap

---
 tcmalloc/tcmalloc.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..75b188a 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1859,6 +1859,11 @@ extern "C" ABSL_CACHELINE_ALIGNED void* TCMallocInternalPvalloc(
   if (size == 0) {     // pvalloc(0) should allocate one page, according to
     size = page_size;  // http://man.free4web.biz/man3/libmpatrol.3.html
   }
+  // Rounding up must not wrap around to a small size.
+  if (ABSL_PREDICT_FALSE(size >
+                         std::numeric_limits<size_t>::max() - page_size + 1)) {
+    return MallocPolicy::handle_oom(size);
+  }
   size = (size + page_size - 1) & ~(page_size - 1);
   return fast_alloc(size, MallocPolicy().AlignAs(page_size));
 }
@@ -2175,6 +2180,10 @@ ABSL_CACHELINE_ALIGNED void* operator new[](size_t size, std::align_val_t align,
     if (size == 0) {                                                           \
       size = page_size;                                                        \
     }                                                                          \
+    if (ABSL_PREDICT_FALSE(                                                    \
+            size > std::numeric_limits<size_t>::max() - page_size + 1)) {      \
+      return MallocPolicy::handle_oom(size);                                   \
+    }                                                                          \
     size = (size + page_size - 1) & ~(page_size - 1);                          \
     return fast_alloc(                                                         \
         size,                                                                  \
-- 
2.43.0


From 78a64b936abfaf978e4ede097462890ae7aa2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 02/37] fix: GetProperties reports backed bytes as
 generic.peak_memory_usage, as GetNumericProperty and GetStats do

---
 tcmalloc/tcmalloc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 75b188a..bb1fa81 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -437,7 +437,7 @@ extern "C" void MallocExtension_Internal_GetProperties(
   (*result)["generic.bytes_in_use_by_app"].value = bytes_in_use_by_app;
   (*result)["generic.heap_size"].value = HeapSizeBytes(stats.pageheap);
   (*result)["generic.peak_memory_usage"].value =
-      static_cast<uint64_t>(stats.peak_stats.sampled_application_bytes);
+      static_cast<uint64_t>(stats.peak_stats.backed_bytes);
   (*result)["generic.realized_fragmentation"].value = static_cast<uint64_t>(
       100. * safe_div(stats.peak_stats.backed_bytes -
                           stats.peak_stats.sampled_application_bytes,
-- 
2.43.0


From 42bc9f16379ab3deee77fad3149aa50f8978323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 03/37] fix: mallinfo counts memory in per-CPU and sharded
 caches as free small blocks

---
 tcmalloc/tcmalloc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index bb1fa81..cb5ce2e 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1134,7 +1134,8 @@ inline struct mallinfo do_mallinfo() {
   // size values will be truncated.
   info.arena = static_cast<int>(stats.pageheap.system_bytes);
   info.fsmblks = static_cast<int>(stats.thread_bytes + stats.central_bytes +
-                                  stats.transfer_bytes);
+                                  stats.transfer_bytes + stats.per_cpu_bytes +
+                                  stats.sharded_transfer_bytes);
   info.fordblks = static_cast<int>(stats.pageheap.free_bytes +
                                    stats.pageheap.unmapped_bytes);
   info.uordblks = static_cast<int>(InUseByApp(stats));
@@ -1153,8 +1154,9 @@ inline struct mallinfo2 do_mallinfo2() {
   memset(&info, 0, sizeof(info));
 
   info.arena = static_cast<size_t>(stats.pageheap.system_bytes);
-  info.fsmblks = static_cast<size_t>(stats.thread_bytes + stats.central_bytes +
-                                     stats.transfer_bytes);
+  info.fsmblks = static_cast<size_t>(
+      stats.thread_bytes + stats.central_bytes + stats.transfer_bytes +
+      stats.per_cpu_bytes + stats.sharded_transfer_bytes);
   info.fordblks = static_cast<size_t>(stats.pageheap.free_bytes +
                                       stats.pageheap.unmapped_bytes);
   info.uordblks = static_cast<size_t>(InUseByApp(stats));
-- 
2.43.0


From b7ff56f60a03a8464511484266074edbf657343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 04/37] fix: tcmalloc.pageheap_unmapped_bytes excludes metadata
 arena bytes, as documented and as in GetProperties

---
 tcmalloc/global_stats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index d7e4e63..c026d0e 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -1049,8 +1049,13 @@ bool GetNumericProperty(const char* name_data, size_t name_size,
     return true;
   }
 
-  if (name == "tcmalloc.pageheap_unmapped_bytes" ||
-      name == "tcmalloc.page_heap_unmapped") {
+  if (name == "tcmalloc.pageheap_unmapped_bytes") {
+    PageHeapSpinLockHolder l;
+    *value = tc_globals.page_allocator().stats().unmapped_bytes;
+    return true;
+  }
+
+  if (name == "tcmalloc.page_heap_unmapped") {
     PageHeapSpinLockHolder l;
     // Arena non-resident bytes aren't on the page heap, but they are unmapped.
     *value = tc_globals.page_allocator().stats().unmapped_bytes +
-- 
2.43.0


From 1f879a0c8cb88e272cf118024dd62b2360e467c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 05/37] fix: a memory limit is met by what is backed, not by
 earlier releases

---
 tcmalloc/huge_page_filler.h |  5 +++++
 tcmalloc/page_allocator.cc  | 40 +++++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/tcmalloc/huge_page_filler.h b/tcmalloc/huge_page_filler.h
index 6ae94b0..4de171c 100644
--- a/tcmalloc/huge_page_filler.h
+++ b/tcmalloc/huge_page_filler.h
@@ -1605,6 +1605,11 @@ inline Length HugePageFiller<TrackerType>::ReleasePages(
     unmapping_unaccounted_ = Length(0);
     subrelease_stats_.num_pages_subreleased += n;
     total_released += n;
+    // When a limit was hit, desired is based on what is backed right now, which
+    // the pages unmapped earlier are not part of: release as much on top.
+    if (hit_limit) {
+      desired = std::max(desired, desired + n);
+    }
   }
 
   if (total_released >= desired) {
diff --git a/tcmalloc/page_allocator.cc b/tcmalloc/page_allocator.cc
index a608ddc..c02ee5a 100644
--- a/tcmalloc/page_allocator.cc
+++ b/tcmalloc/page_allocator.cc
@@ -157,9 +157,19 @@ bool PageAllocator::ShrinkHardBy(Length pages, LimitKind limit_kind) {
   const PageReleaseReason release_reason =
       limit_kind == kHard ? PageReleaseReason::kHardLimitExceeded
                           : PageReleaseReason::kSoftLimitExceeded;
-  Length ret = ReleaseAtLeastNPages(pages, release_reason);
+  // The page heap claims credit for pages it unmapped before this call, so ask
+  // what is backed now rather than adding up what it says it released.
+  auto excess = [&]() ABSL_EXCLUSIVE_LOCKS_REQUIRED(pageheap_lock) {
+    const BackingStats s = stats();
+    const size_t backed =
+        s.system_bytes - s.unmapped_bytes + tc_globals.metadata_bytes();
+    const size_t limit = limits_[limit_kind];
+    return backed > limit ? BytesToLengthCeil(backed - limit) : Length(0);
+  };
+  ReleaseAtLeastNPages(pages, release_reason);
+  pages = excess();
   if (alg_ == HPAA) {
-    if (pages <= ret) {
+    if (pages == Length(0)) {
       // We released target amount.
       return true;
     }
@@ -179,34 +189,34 @@ bool PageAllocator::ShrinkHardBy(Length pages, LimitKind limit_kind) {
       warned_hugepages = true;
     }
     if (has_cold_impl_) {
-      ret += static_cast<HugePageAwareAllocator*>(cold_impl_)
-                 ->ReleaseAtLeastNPagesBreakingHugepages(pages - ret,
-                                                         release_reason);
-      if (ret >= pages) {
+      static_cast<HugePageAwareAllocator*>(cold_impl_)
+          ->ReleaseAtLeastNPagesBreakingHugepages(pages, release_reason);
+      pages = excess();
+      if (pages == Length(0)) {
         return true;
       }
     }
     for (int partition = 0; partition < active_partitions(); partition++) {
-      ret += static_cast<HugePageAwareAllocator*>(normal_impl_[partition])
-                 ->ReleaseAtLeastNPagesBreakingHugepages(pages - ret,
-                                                         release_reason);
-      if (ret >= pages) {
+      static_cast<HugePageAwareAllocator*>(normal_impl_[partition])
+          ->ReleaseAtLeastNPagesBreakingHugepages(pages, release_reason);
+      pages = excess();
+      if (pages == Length(0)) {
         return true;
       }
     }
     for (int partition = 0;
          partition < (sampled_partition_active_ ? kSecurityPartitions : 1);
          partition++) {
-      ret += static_cast<HugePageAwareAllocator*>(sampled_impl_[partition])
-                 ->ReleaseAtLeastNPagesBreakingHugepages(pages - ret,
-                                                         release_reason);
-      if (ret >= pages) {
+      static_cast<HugePageAwareAllocator*>(sampled_impl_[partition])
+          ->ReleaseAtLeastNPagesBreakingHugepages(pages, release_reason);
+      pages = excess();
+      if (pages == Length(0)) {
         return true;
       }
     }
   }
   // Return "true", if we got back under the limit.
-  return (pages <= ret);
+  return pages == Length(0);
 }
 
 size_t PageAllocator::active_partitions() const {
-- 
2.43.0


From 0082c3ddc99c4d7c26ff9fab6d4fe1274b82052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 06/37] fix: a huge page whose release failed is not reported
 as unmapped

---
 tcmalloc/huge_page_filler.h  | 4 ++++
 tcmalloc/huge_page_tracker.h | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/tcmalloc/huge_page_filler.h b/tcmalloc/huge_page_filler.h
index 4de171c..2474b54 100644
--- a/tcmalloc/huge_page_filler.h
+++ b/tcmalloc/huge_page_filler.h
@@ -1327,6 +1327,10 @@ inline TrackerType* HugePageFiller<TrackerType>::Put(
 
         if (ABSL_PREDICT_TRUE(success)) {
           unmapping_unaccounted_ += free_pages - released_pages;
+        } else {
+          // Part of the hugepage is still backed.  Hand all of it back as
+          // backed, we would rather overestimate what is than underestimate it.
+          pt->ClearReleased();
         }
       }
     }
diff --git a/tcmalloc/huge_page_tracker.h b/tcmalloc/huge_page_tracker.h
index 85370c1..30771cc 100644
--- a/tcmalloc/huge_page_tracker.h
+++ b/tcmalloc/huge_page_tracker.h
@@ -198,6 +198,12 @@ class PageTracker : public TList<PageTracker>::Elem {
   // This is the snapshot of the features at the time of the last invocation of
   // RecordFeatures().
   TrackerFeatures features() const { return features_; }
+  // Treats every page as backed again.
+  void ClearReleased() {
+    released_by_page_.ClearRange(0, kPagesPerHugePage.raw_num());
+    released_count_ = 0;
+  }
+
   bool unbroken() const { return unbroken_; }
   void set_unbroken(bool status) { unbroken_ = status; }
 
-- 
2.43.0


From 52e60340f87865e0ed948a7e5256934f57cae26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 07/37] fix: keep what was released too much for later release
 requests

---
 tcmalloc/static_vars.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tcmalloc/static_vars.h b/tcmalloc/static_vars.h
index 1f799c9..aeecff8 100644
--- a/tcmalloc/static_vars.h
+++ b/tcmalloc/static_vars.h
@@ -316,6 +316,7 @@ class ConstantRatePageAllocatorReleaser {
       num_bytes = 0;
     } else {
       num_bytes -= extra_bytes_released_;
+      extra_bytes_released_ = 0;
     }
 
     const Length num_pages = [&] {
@@ -335,15 +336,13 @@ class ConstantRatePageAllocatorReleaser {
                                       .ReleaseAtLeastNPages(num_pages, reason)
                                       .in_bytes();
     if (bytes_released > num_bytes) {
-      extra_bytes_released_ = bytes_released - num_bytes;
+      extra_bytes_released_ += bytes_released - num_bytes;
 
       return num_bytes;
     }
 
-    // The PageHeap wasn't able to release num_bytes.  Don't try to compensate
-    // with a big release next time.
-    extra_bytes_released_ = 0;
-
+    // If the PageHeap wasn't able to release num_bytes, don't try to compensate
+    // with a big release next time: there is nothing extra in this case.
     return bytes_released;
   }
 
-- 
2.43.0


From 9f97735d02bacf3cb2de91524bd1f7703f0d3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 08/37] fix: list only live spans as allocated address ranges

Freeing a span clears the page map entry of its first page only, so its
other pages kept leading to the freed Span, whose range was then listed
again (or tripped the assertion below).
---
 tcmalloc/pagemap.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index b895839..a8cbcf1 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -429,8 +429,10 @@ class PageMap {
       if (s == nullptr || s == &tc_globals.invalid_span()) {
         continue;
       }
-      // Free'd up Span that's not yet removed from PageMap.
-      if (page_id < s->first_page() || s->last_page() < page_id) continue;
+      // Free'd up Span that's not yet removed from PageMap.  Only the first
+      // page of a Span is cleared when it is freed, so its other pages may
+      // still refer to it.
+      if (page_id != s->first_page()) continue;
       CompactSizeClass size_class = sizeclass(page_id);
       TC_ASSERT_EQ(s->first_page().index(), i);
       // As documented, GetAllocatedSpans wants to avoid allocating more memory
-- 
2.43.0


From 0f8bd881206c11ed03b0d0d3edd4af8438c968a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 09/37] fix: do not list freed guarded blocks as allocated
 address ranges

The page map keeps leading to the Span of a guarded block after it was
freed, so GetAllocatedAddressRanges listed its page for ever.
---
 tcmalloc/guarded_page_allocator.h | 8 ++++++++
 tcmalloc/pagemap.h                | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/tcmalloc/guarded_page_allocator.h b/tcmalloc/guarded_page_allocator.h
index 7b4be61..89f3cd2 100644
--- a/tcmalloc/guarded_page_allocator.h
+++ b/tcmalloc/guarded_page_allocator.h
@@ -185,6 +185,14 @@ class GuardedPageAllocator {
     return metadata.allocation_start == addr;
   }
 
+  // Returns whether the slot of ptr holds an allocation that has not been freed.
+  [[nodiscard]] bool IsAllocated(const void* absl_nonnull ptr) const {
+    const SlotMetadata& metadata =
+        data_[GetNearestSlot(absl::bit_cast<uintptr_t>(ptr))];
+    return metadata.allocation_start != 0 &&
+           metadata.dealloc_count.load(std::memory_order_relaxed) == 0;
+  }
+
   // Allows Allocate() to start returning allocations.
   void AllowAllocations() ABSL_LOCKS_EXCLUDED(guarded_page_lock_) {
     AllocationGuardSpinLockHolder h(guarded_page_lock_);
diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index a8cbcf1..07a6b87 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -433,6 +433,12 @@ class PageMap {
       // page of a Span is cleared when it is freed, so its other pages may
       // still refer to it.
       if (page_id != s->first_page()) continue;
+      // The PageMap keeps leading to a guarded Span after it was freed.
+      const auto& gwp_asan = tc_globals.guardedpage_allocator();
+      if (gwp_asan.PointerIsMine(page_id.start_addr()) &&
+          !gwp_asan.IsAllocated(page_id.start_addr())) {
+        continue;
+      }
       CompactSizeClass size_class = sizeclass(page_id);
       TC_ASSERT_EQ(s->first_page().index(), i);
       // As documented, GetAllocatedSpans wants to avoid allocating more memory
-- 
2.43.0


From 17d700cc16f0a8ab937f1fbfb8840e07635c11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 10/37] fix: keep a sampled block's record until its delete
 hooks have seen its stack

---
 tcmalloc/allocation_sampling.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/allocation_sampling.h b/tcmalloc/allocation_sampling.h
index 7db362d..3d39812 100644
--- a/tcmalloc/allocation_sampling.h
+++ b/tcmalloc/allocation_sampling.h
@@ -375,7 +375,6 @@ void MaybeUnsampleAllocation(Static& state, Policy policy,
                               ? MallocHook::Access::Cold
                               : MallocHook::Access::Hot,
   };
-  state.sampled_allocation_recorder().Unregister(sampled_allocation);
 
   // Adjust our estimate of internal fragmentation.
   TC_ASSERT_LE(requested_size, allocated_size);
@@ -390,6 +389,10 @@ void MaybeUnsampleAllocation(Static& state, Policy policy,
   }
   MallocHook::InvokeSampledDeleteHook(sampled_alloc);
 
+  // <sampled_alloc> refers to the stack stored in <sampled_allocation>, which
+  // may be reused for another allocation as soon as it is unregistered.
+  state.sampled_allocation_recorder().Unregister(sampled_allocation);
+
   state.deallocation_samples.ReportFree(sampled_alloc_handle);
 }
 
-- 
2.43.0


From 8defb9c309d95266343828c977f3b17467de2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 11/37] fix: realloc moves a small block that has a span of its
 own because of its alignment

---
 tcmalloc/tcmalloc.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index cb5ce2e..fd245bc 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1601,7 +1601,14 @@ static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* do_realloc(void* old_ptr,
     } else {
       actual_new_size = BytesToLengthCeil(new_size).in_bytes();
     }
-    changes_correct_size = actual_new_size != old_size;
+    // A small block aligned to more than a page has a span of its own, which
+    // sized deallocation does not expect from a block of a small size class.
+    changes_correct_size =
+        actual_new_size != old_size ||
+        (is_small &&
+         tc_globals.pagemap().sizeclass(
+             tcmalloc::tcmalloc_internal::PageIdContainingTagged(old_ptr)) ==
+             0);
   }
 
   if (changes_correct_size || was_sampled || will_sample ||
-- 
2.43.0


From 40bae16f97506a1f705570c43059cc9da8e82099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 12/37] fix: register a sampled allocation before reporting it
 to deallocation profilers

A lifetime or event-trace session that starts between the two steps neither
found the allocation in the recorder nor was listed when it was reported, and
lost it.
---
 tcmalloc/allocation_sampling.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/allocation_sampling.h b/tcmalloc/allocation_sampling.h
index 3d39812..4699474 100644
--- a/tcmalloc/allocation_sampling.h
+++ b/tcmalloc/allocation_sampling.h
@@ -206,13 +206,17 @@ ABSL_ATTRIBUTE_NOINLINE sized_ptr_t SampleifyAllocation(
 
   state.allocation_samples.ReportMalloc(stack_trace);
 
-  state.deallocation_samples.ReportMalloc(stack_trace);
-
   // The SampledAllocation object is visible to readers after this. Readers only
   // care about its various metadata (e.g. stack trace, weight) to generate the
   // heap profile, and won't need any information from Span::Sample() next.
   SampledAllocation* sampled_allocation =
       state.sampled_allocation_recorder().Register(std::move(stack_trace));
+
+  // This must follow Register():  A deallocation profiling session starting
+  // concurrently either finds the allocation in the recorder or is already
+  // listed when we report it (or both, which is harmless).
+  state.deallocation_samples.ReportMalloc(sampled_allocation->sampled_stack);
+
   // No pageheap_lock required. The span is freshly allocated and no one else
   // can access it. It is visible after we return from this allocation path.
   span->Sample(sampled_allocation);
-- 
2.43.0


From 03f7d1f3106bf3d066c258ed1738a3a666ab2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 13/37] fix: a first request of 2^63 bytes or more no longer
 stops a thread from being sampled

---
 tcmalloc/sampler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/sampler.cc b/tcmalloc/sampler.cc
index e471131..3762f3e 100644
--- a/tcmalloc/sampler.cc
+++ b/tcmalloc/sampler.cc
@@ -126,9 +126,9 @@ size_t Sampler::RecordAllocationSlow(size_t k) {
     Init(absl::HashOf(
         static_cast<uint64_t>(absl::base_internal::CycleClock::Now()),
         reinterpret_cast<uintptr_t>(this)));
-    // Avoid missampling 0.
-    bytes_until_sample_ -= k + 1;
-    if (ABSL_PREDICT_TRUE(bytes_until_sample_ >= 0)) {
+    // A huge k must not wrap the counter around to a huge positive value, which
+    // would stop this thread from ever being sampled.
+    if (ABSL_PREDICT_TRUE(TryRecordAllocationFast(k))) {
       return 0;
     }
   }
-- 
2.43.0


From c01b4a9cd3642a00828346bf8b6dec8efd33b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 14/37] fix: report a double free of a guarded block without
 consulting its reused span

---
 tcmalloc/tcmalloc.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index fd245bc..d261e56 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -697,6 +697,12 @@ ABSL_ATTRIBUTE_NOINLINE static void InvokeHooksAndFreePages(
   // rather than a cleaner error.
   bool valid_ptr = true;
   if (ABSL_PREDICT_FALSE(is_gwp_asan_ptr)) {
+    if (ABSL_PREDICT_FALSE(!gwp_asan.IsAllocated(ptr))) {
+      // Double free.  The pagemap still refers to the Span of the freed
+      // allocation, which may have been reused for another one:  Report the
+      // error without consulting it.
+      gwp_asan.Deallocate(ptr);
+    }
     valid_ptr = gwp_asan.PointerIsCorrectlyAligned(ptr);
   } else if (ABSL_PREDICT_FALSE(ptr != span->start_address())) {
     valid_ptr = false;
-- 
2.43.0


From f23de52a2019976fceb4c1a6890f0af6344dc0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 15/37] fix: record NUMA nodes above 31 in the partition's node
 mask

1 << node is an int: node 31 sets the upper half of the 64-bit mask and higher
nodes alias lower ones (undefined behaviour).
---
 tcmalloc/internal/numa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/internal/numa.cc b/tcmalloc/internal/numa.cc
index c9d69d0..4d7804d 100644
--- a/tcmalloc/internal/numa.cc
+++ b/tcmalloc/internal/numa.cc
@@ -126,7 +126,7 @@ bool InitNumaTopology(size_t cpu_to_scaled_partition[kMaxCpus],
 
     // Record this node in partition_to_nodes.
     const size_t partition = NodeToPartition(node, num_partitions);
-    partition_to_nodes[partition] |= 1 << node;
+    partition_to_nodes[partition] |= uint64_t{1} << node;
 
     // cpu_to_scaled_partition_ entries are default initialized to zero, so
     // skip redundantly parsing CPU lists for nodes that map to partition 0.
-- 
2.43.0


From 7bb61d9f1cb28e75cd81bb1530b67b4407c3a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 16/37] fix: keep reading L3 sharing after a CPU without it

An offline CPU has no cache directory; the CPUs behind it all counted as sharing
cache 0 and their caches were not counted.
---
 tcmalloc/internal/cache_topology.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/tcmalloc/internal/cache_topology.cc b/tcmalloc/internal/cache_topology.cc
index d86ef75..cf81d34 100644
--- a/tcmalloc/internal/cache_topology.cc
+++ b/tcmalloc/internal/cache_topology.cc
@@ -61,20 +61,11 @@ void CacheTopology::Init() {
     }
     const int fd = OpenSysfsCacheList(cpu);
     if (fd == -1) {
-      // At some point we reach the number of CPU on the system, and
-      // we should exit. We verify that there was no other problem.
+      // The CPU has no L3 information, e.g. because it is offline. Others may
+      // still have some. We verify that there was no other problem.
       TC_CHECK_EQ(errno, ENOENT);
-      // For aarch64 if
-      // /sys/devices/system/cpu/cpu*/cache/index3/shared_cpu_list is missing
-      // then L3 is assumed to be shared by all CPUs.
-      // TODO(b/210049384): find a better replacement for shared_cpu_list in
-      // this case, e.g. based on numa nodes.
-#ifdef __aarch64__
-      if (l3_count_ == 0) {
-        l3_count_ = 1;
-      }
-#endif
-      return;
+      cpus_to_check.CLR(cpu);
+      continue;
     }
     // The file contains something like:
     //   0-11,22-33
@@ -105,6 +96,17 @@ void CacheTopology::Init() {
       l3_cache_index_[next_cpu] = l3_cache_index_[first_cpu];
     }
   }
+
+  // For aarch64 if
+  // /sys/devices/system/cpu/cpu*/cache/index3/shared_cpu_list is missing
+  // then L3 is assumed to be shared by all CPUs.
+  // TODO(b/210049384): find a better replacement for shared_cpu_list in
+  // this case, e.g. based on numa nodes.
+#ifdef __aarch64__
+  if (l3_count_ == 0) {
+    l3_count_ = 1;
+  }
+#endif
 }
 
 }  // namespace tcmalloc_internal
-- 
2.43.0


From 1ef2aad470e8fe954029f8b6b4f0a7031df2697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 17/37] fix: time series whose epoch is a power of two of ticks
 advance

TimeSeriesTracker divides by multiplying with a 64-bit reciprocal.  For an
epoch of exactly 2^k ticks the reciprocal was 2^64 + 1, truncated to 1, so that
the current epoch was 0 for ever and no record ever left the window.
---
 tcmalloc/internal/timeseries_tracker.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/timeseries_tracker.h b/tcmalloc/internal/timeseries_tracker.h
index fb30c11..ea67035 100644
--- a/tcmalloc/internal/timeseries_tracker.h
+++ b/tcmalloc/internal/timeseries_tracker.h
@@ -56,7 +56,9 @@ class TimeSeriesTracker {
     // See comment in GetCurrentEpoch().
     auto d = static_cast<uint64_t>(absl::ToDoubleSeconds(epoch_length_) *
                                    clock.freq());
-    div_precision_ = 63 + absl::bit_width(d);
+    // bit_width(d - 1) rather than bit_width(d): for a power of two the latter
+    // makes the quotient 2^64, which does not fit epoch_ticks_m_.
+    div_precision_ = 63 + absl::bit_width(d - 1);
     epoch_ticks_m_ =
         static_cast<uint64_t>(
             (static_cast<absl::uint128>(1) << div_precision_) / d) +
-- 
2.43.0


From adfd439db1d5008675a896d937243ff6326b2170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 18/37] fix: a skipped subrelease that opens an epoch forgets
 the former epoch's peak

Otherwise that peak counts as confirmed in the new epoch, and decisions made
in between with a lower requirement are neither confirmed nor pending.
---
 tcmalloc/huge_page_subrelease.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/huge_page_subrelease.h b/tcmalloc/huge_page_subrelease.h
index 36e7a36..778070b 100644
--- a/tcmalloc/huge_page_subrelease.h
+++ b/tcmalloc/huge_page_subrelease.h
@@ -84,7 +84,10 @@ class SkippedSubreleaseCorrectnessTracker {
     SkippedSubreleaseUpdate update;
     update.decision = SkippedSubreleaseDecision(skipped_pages);
     update.num_pages_at_decision = peak_pages;
-    tracker_.Report(update);
+    if (tracker_.Report(update)) {
+      // No peak has been confirmed in this new epoch yet.
+      last_confirmed_peak_ = Length(0);
+    }
   }
 
   void ReportUpdatedPeak(Length current_peak) {
-- 
2.43.0


From b5f76af818c38ed39b32cf5d536cceff04184ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:32 +0000
Subject: [PATCH 19/37] fix: skipped subreleases of the current epoch stay
 pending

Confirming a peak recomputes the pending decisions and left out those of the
current epoch; with none left pending, later peaks were not even considered.
---
 tcmalloc/huge_page_subrelease.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcmalloc/huge_page_subrelease.h b/tcmalloc/huge_page_subrelease.h
index 778070b..7b70534 100644
--- a/tcmalloc/huge_page_subrelease.h
+++ b/tcmalloc/huge_page_subrelease.h
@@ -112,6 +112,7 @@ class SkippedSubreleaseCorrectnessTracker {
             const SkippedSubreleaseEntry& e) {
           // Do not clear any decisions in the current epoch.
           if (offset == 0) {
+            pending_skipped_ += e.decisions;
             return;
           }
 
-- 
2.43.0


From 498f5e75095632c9d0df834735a21e81aafb0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 20/37] fix: rate-limit guarded sampling at intervals whose
 multiples overflow

---
 tcmalloc/guarded_page_allocator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tcmalloc/guarded_page_allocator.cc b/tcmalloc/guarded_page_allocator.cc
index 123c476..6af46da 100644
--- a/tcmalloc/guarded_page_allocator.cc
+++ b/tcmalloc/guarded_page_allocator.cc
@@ -132,13 +132,14 @@ GuardedAllocWithStatus GuardedPageAllocator::TrySample(
     //     ((num_sampled * 10) / num_guarded) * profile_interval
     //
     // This avoids possible overflow if num_sampled or num_guarded grows larger,
-    // when individually multiplied by the intervals. We can avoid floating
-    // point math as well.
+    // when individually multiplied by the intervals. The intervals may be set to
+    // any value: their products are compared as doubles, as they may overflow.
     const int64_t profile_sampling_interval =
         tcmalloc::tcmalloc_internal::Parameters::profile_sampling_interval();
     const int64_t num_sampled = tc_globals.total_sampled_count_.value();
     const int64_t ratio = (num_sampled * 10) / num_guarded;
-    if (guarded_sampling_interval * 10 > ratio * profile_sampling_interval) {
+    if (static_cast<double>(guarded_sampling_interval) * 10 >
+        static_cast<double>(ratio) * profile_sampling_interval) {
       return {nullptr, Profile::Sample::GuardedStatus::RateLimited};
     }
 
-- 
2.43.0


From 6d508c23b1c0922a8cd4f65672cec466ddddeef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 21/37] fix: add a stack to the decaying filter before another
 thread can decay it

---
 tcmalloc/internal/stacktrace_filter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/stacktrace_filter.h b/tcmalloc/internal/stacktrace_filter.h
index 9667640..87d2c8d 100644
--- a/tcmalloc/internal/stacktrace_filter.h
+++ b/tcmalloc/internal/stacktrace_filter.h
@@ -116,10 +116,11 @@ class DecayingStackTraceFilter : public StackTraceFilter<kSize, kHashNum> {
   void Add(absl::Span<void* const> stack_trace, int val) {
     const size_t stack_hash = this->GetFirstHash(stack_trace);
     if (val >= 0) {
-      Decay(stack_hash);
       // Because 0-valued entries denote unused entries, add 1 to be decayed if
-      // this is a non-zero hash (very likely).
+      // this is a non-zero hash (very likely). Add it before the entry enters
+      // the ring: from then on another thread may decay it.
       Base::Add(stack_hash, val + !!stack_hash);
+      Decay(stack_hash);
     } else {
       // Removal.
       Base::Add(stack_hash, val);
-- 
2.43.0


From c7886eaec2b4372c987a70b63b51a496cae75729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 22/37] fix: realized fragmentation must not wrap when the
 sampled demand exceeds the backed bytes

---
 tcmalloc/global_stats.cc | 15 ++++++++++-----
 tcmalloc/global_stats.h  |  3 +++
 tcmalloc/tcmalloc.cc     |  6 ++----
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/tcmalloc/global_stats.cc b/tcmalloc/global_stats.cc
index c026d0e..d68eb6f 100644
--- a/tcmalloc/global_stats.cc
+++ b/tcmalloc/global_stats.cc
@@ -236,6 +236,14 @@ size_t ExternalBytes(const TCMallocStats& stats) {
          stats.arena.bytes_unavailable + stats.arena.bytes_unallocated;
 }
 
+double RealizedFragmentation(const TCMallocStats& stats) {
+  // The demand at peak is estimated from samples and may exceed what was
+  // backed.
+  return 100. * safe_div(StatSub(stats.peak_stats.backed_bytes,
+                                 stats.peak_stats.sampled_application_bytes),
+                         stats.peak_stats.sampled_application_bytes);
+}
+
 size_t HeapSizeBytes(const BackingStats& stats) {
   return StatSub(stats.system_bytes, stats.unmapped_bytes);
 }
@@ -416,7 +424,7 @@ void DumpStats(Printer& out, int level) {
       stats.peak_stats.backed_bytes / MiB,
       uint64_t(stats.peak_stats.sampled_application_bytes),
       stats.peak_stats.sampled_application_bytes / MiB,
-      100. * safe_div(stats.peak_stats.backed_bytes - stats.peak_stats.sampled_application_bytes, stats.peak_stats.sampled_application_bytes),
+      RealizedFragmentation(stats),
       uint64_t(kPageSize),
       uint64_t(kHugePageSize),
       CountAllowedCpus(),
@@ -997,10 +1005,7 @@ bool GetNumericProperty(const char* name_data, size_t name_size,
   if (name == "generic.realized_fragmentation") {
     TCMallocStats stats;
     ExtractTCMallocStats(stats, false);
-    *value = static_cast<uint64_t>(
-        100. * safe_div(stats.peak_stats.backed_bytes -
-                            stats.peak_stats.sampled_application_bytes,
-                        stats.peak_stats.sampled_application_bytes));
+    *value = static_cast<uint64_t>(RealizedFragmentation(stats));
 
     return true;
   }
diff --git a/tcmalloc/global_stats.h b/tcmalloc/global_stats.h
index fb2f1e1..a452d4f 100644
--- a/tcmalloc/global_stats.h
+++ b/tcmalloc/global_stats.h
@@ -71,6 +71,9 @@ uint64_t UnmappedBytes(const TCMallocStats& stats);
 uint64_t PhysicalMemoryUsed(const TCMallocStats& stats);
 uint64_t RequiredBytes(const TCMallocStats& stats);
 size_t ExternalBytes(const TCMallocStats& stats);
+// Memory backed but not used by the application at peak, in percent of the
+// application's (estimated) demand.
+double RealizedFragmentation(const TCMallocStats& stats);
 size_t HeapSizeBytes(const BackingStats& stats);
 size_t LocalBytes(const TCMallocStats& stats);
 size_t SlackBytes(const BackingStats& stats);
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index d261e56..c5c0a90 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -438,10 +438,8 @@ extern "C" void MallocExtension_Internal_GetProperties(
   (*result)["generic.heap_size"].value = HeapSizeBytes(stats.pageheap);
   (*result)["generic.peak_memory_usage"].value =
       static_cast<uint64_t>(stats.peak_stats.backed_bytes);
-  (*result)["generic.realized_fragmentation"].value = static_cast<uint64_t>(
-      100. * safe_div(stats.peak_stats.backed_bytes -
-                          stats.peak_stats.sampled_application_bytes,
-                      stats.peak_stats.sampled_application_bytes));
+  (*result)["generic.realized_fragmentation"].value =
+      static_cast<uint64_t>(RealizedFragmentation(stats));
   // Page Heap Free
   (*result)["tcmalloc.page_heap_free"].value = stats.pageheap.free_bytes;
   (*result)["tcmalloc.pageheap_free_bytes"].value = stats.pageheap.free_bytes;
-- 
2.43.0


From 790a5bcf0fd319e48af3eba141aaae71f34cecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 23/37] fix: sum the insert object misses of the transfer cache
 shards

---
 tcmalloc/transfer_cache.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tcmalloc/transfer_cache.h b/tcmalloc/transfer_cache.h
index 57d8421..1cd8c3c 100644
--- a/tcmalloc/transfer_cache.h
+++ b/tcmalloc/transfer_cache.h
@@ -276,6 +276,7 @@ class ShardedTransferCacheManagerBase {
           shard.transfer_caches[size_class].GetStats();
       stats.insert_hits += shard_stats.insert_hits;
       stats.insert_misses += shard_stats.insert_misses;
+      stats.insert_object_misses += shard_stats.insert_object_misses;
       stats.remove_hits += shard_stats.remove_hits;
       stats.remove_object_hits += shard_stats.remove_object_hits;
       stats.remove_misses += shard_stats.remove_misses;
-- 
2.43.0


From 3c387384d765a4a83d57438686a07cc23eaf05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 24/37] fix: the frontline hit rate must not wrap when fewer
 operations are estimated than objects were requested

---
 tcmalloc/transfer_cache.h | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/tcmalloc/transfer_cache.h b/tcmalloc/transfer_cache.h
index 1cd8c3c..895f4f1 100644
--- a/tcmalloc/transfer_cache.h
+++ b/tcmalloc/transfer_cache.h
@@ -114,6 +114,16 @@ class BackingTransferCache {
   int size_class_ = -1;
 };
 
+// Returns the percentage of objects that the caches in front of the transfer
+// cache served without it.  The number of operations is an estimate and may be
+// lower than the number of objects requested from the transfer cache.
+inline double FrontendHitRate(double estimated_operations,
+                              double objects_requested) {
+  if (estimated_operations <= objects_requested) return 0.;
+  return 100. * (estimated_operations - objects_requested) /
+         estimated_operations;
+}
+
 // This transfer-cache is set up to be sharded per L3 cache. It is backed by
 // the non-sharded "normal" TransferCacheManager.
 template <typename Manager, typename CpuLayout, typename FreeList>
@@ -224,13 +234,9 @@ class ShardedTransferCacheManagerBase {
       sharded_cumulative_bytes += class_bytes;
 
       const auto estimated_frontend_operations = counts[size_class].value();
-      const double hit_rate =
-          estimated_frontend_operations == 0
-              ? 0.
-              : 100. *
-                    (estimated_frontend_operations -
-                     (stats.remove_object_hits + stats.remove_object_misses)) /
-                    estimated_frontend_operations;
+      const double hit_rate = FrontendHitRate(
+          estimated_frontend_operations,
+          stats.remove_object_hits + stats.remove_object_misses);
 
       out.printf(
           "class %3d [ %8zu bytes ] : %8u"
@@ -509,13 +515,9 @@ class TransferCacheManager : public StaticForwarder {
       cumulative_bytes += class_bytes;
 
       const auto estimated_frontend_operations = counts[size_class].value();
-      const double hit_rate = estimated_frontend_operations == 0
-                                  ? 0.
-                                  : 100. *
-                                        (estimated_frontend_operations -
-                                         (tc_stats.remove_object_hits +
-                                          tc_stats.remove_object_misses)) /
-                                        estimated_frontend_operations;
+      const double hit_rate = FrontendHitRate(
+          estimated_frontend_operations,
+          tc_stats.remove_object_hits + tc_stats.remove_object_misses);
 
       out.printf(
           "class %3d [ %8zu bytes ] : %8u"
-- 
2.43.0


From 8e05f8bb342626bc612473a00419ec1269bf0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 25/37] fix: report the filler's unmapped bytes in bytes rather
 than in whole hugepages

---
 tcmalloc/huge_page_filler.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tcmalloc/huge_page_filler.h b/tcmalloc/huge_page_filler.h
index 2474b54..c943175 100644
--- a/tcmalloc/huge_page_filler.h
+++ b/tcmalloc/huge_page_filler.h
@@ -2212,14 +2212,7 @@ inline void HugePageFiller<TrackerType>::PrintInPbtxt(
                 used_pages_in_any_subreleased().raw_num());
   hpaa.PrintI64("filler_used_pages_in_partial_released",
                 used_pages_in_partial_released().raw_num());
-  hpaa.PrintI64(
-      "filler_unmapped_bytes",
-      static_cast<uint64_t>(
-          stats.n_released[AccessDensityPrediction::kPredictionCounts]
-              .raw_num() *
-          safe_div(unmapped_pages(),
-                   stats.n_released[AccessDensityPrediction::kPredictionCounts]
-                       .in_pages())));
+  hpaa.PrintI64("filler_unmapped_bytes", unmapped_pages().in_bytes());
   hpaa.PrintI64(
       "filler_hugepageable_used_bytes",
       static_cast<uint64_t>(
-- 
2.43.0


From 0146b6c761ea7dd6f90adca6207503c7635c7af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 26/37] fix: count the hooks present, not the slots up to the
 last of them

---
 tcmalloc/internal/hook_list.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/hook_list.h b/tcmalloc/internal/hook_list.h
index 8b06bba..9348114 100644
--- a/tcmalloc/internal/hook_list.h
+++ b/tcmalloc/internal/hook_list.h
@@ -77,8 +77,15 @@ class HookList final : HookListBase {
     return priv_end.load(std::memory_order_relaxed) == 0;
   }
 
+  // Number of hooks present.  A removed hook may leave an empty slot in front of
+  // those that remain.
   [[nodiscard]] int size() const {
-    return priv_end.load(std::memory_order_relaxed);
+    const int hooks_end = priv_end.load(std::memory_order_relaxed);
+    int n = 0;
+    for (int i = 0; i < hooks_end; ++i) {
+      if (priv_data[i].load(std::memory_order_relaxed) != T()) ++n;
+    }
+    return n;
   }
 
   template <typename... Args>
-- 
2.43.0


From eb43ddc81b188767dd0dad1aac61b3589e6971a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 27/37] fix: do not abort when drained slabs of the
 small-but-slow build cannot be released

---
 tcmalloc/internal/percpu_tcmalloc.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/tcmalloc/internal/percpu_tcmalloc.h b/tcmalloc/internal/percpu_tcmalloc.h
index 26f12d6..dcc0cf1 100644
--- a/tcmalloc/internal/percpu_tcmalloc.h
+++ b/tcmalloc/internal/percpu_tcmalloc.h
@@ -1512,6 +1512,17 @@ void TcmallocSlab<NumClasses>::ReleaseSlabMetadataForDrainedCpus(
   // We can't allocate while holding the per-cpu spinlocks.
   AllocationGuard enforce_no_alloc;
 
+  const auto [slabs, shift] = GetSlabsAndShift(std::memory_order_relaxed);
+  const size_t slab_size_bytes = 1ULL << static_cast<uint8_t>(shift);
+  TC_CHECK_LT(slab_size_bytes, kHugePageSize);
+
+  // If the slab is not aligned to its own size, freeing any hugepage would tear
+  // through a CPU's data, and we can do nothing.  SlabAlignment() does not
+  // promise more than the alignment of a physical page for small-but-slow.
+  if (!IsAlignedTo(slabs, slab_size_bytes)) {
+    return;
+  }
+
   // Stop all CPUs. They must also be locked, since we are touching the
   // populated bit later.
   for (auto& state : state_) {
@@ -1521,17 +1532,6 @@ void TcmallocSlab<NumClasses>::ReleaseSlabMetadataForDrainedCpus(
   FenceAllCpus();
 
   // See which ones are actually drained, and which hugepages we can free.
-  const auto [slabs, shift] = GetSlabsAndShift(std::memory_order_relaxed);
-  const size_t slab_size_bytes = 1ULL << static_cast<uint8_t>(shift);
-  TC_CHECK_LT(slab_size_bytes, kHugePageSize);
-
-  // If the slab is not aligned to its own size, freeing any hugepage
-  // would tear through a CPU's data, and we can do nothing.
-  if (!IsAlignedTo(slabs, slab_size_bytes)) {
-    TC_BUG("Slabs are not properly aligned");
-    return;
-  }
-
   auto address_to_hugepage_number = [](const void* addr) {
     return reinterpret_cast<uintptr_t>(addr) >> kHugePageShift;
   };
-- 
2.43.0


From 783543f6ed6d235956cf9baae0d48e9c2d65135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 28/37] fix: define TCMalloc_Internal_GetBackSmallAllocations
 as declared

The accessor was defined inside namespace tcmalloc::tcmalloc_internal, so the
extern "C" function declared in parameter_accessors.h stayed an undefined weak
symbol and calling it jumped to address zero.
---
 tcmalloc/parameters.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tcmalloc/parameters.cc b/tcmalloc/parameters.cc
index 8d6e0ed..4e1b26d 100644
--- a/tcmalloc/parameters.cc
+++ b/tcmalloc/parameters.cc
@@ -352,10 +352,6 @@ int32_t Parameters::max_per_cpu_cache_size() {
   return tc_globals.cpu_cache().CacheLimit();
 }
 
-bool TCMalloc_Internal_GetBackSmallAllocations() {
-  return Parameters::back_small_allocations();
-}
-
 int ABSL_ATTRIBUTE_WEAK default_want_disable_dynamic_slabs();
 
 // TODO(b/271475288): remove the default_want_disable_dynamic_slabs opt-out
@@ -466,6 +462,10 @@ bool TCMalloc_Internal_GetReleasePartialAllocPagesEnabled() {
   return Parameters::release_partial_alloc_pages();
 }
 
+bool TCMalloc_Internal_GetBackSmallAllocations() {
+  return Parameters::back_small_allocations();
+}
+
 int32_t TCMalloc_Internal_GetBackSizeThresholdBytes() {
   return Parameters::back_size_threshold_bytes();
 }
-- 
2.43.0


From 410a845da3bd6657be9e0b5ede38d8dbffc0398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:27 +0000
Subject: [PATCH 29/37] fix: judge the size given for a cold block by its tag,
 not by the current hint threshold

In assertion builds a sized delete of a cold block was checked with access hint
0, which counts as cold only while min_hot_access_hint is above 0.  Lowering
the parameter to 0 made valid deletes of live cold blocks abort as
mismatched-size deletes.
---
 tcmalloc/tcmalloc.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index c5c0a90..bfdeca2 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1042,12 +1042,15 @@ bool CorrectSize(const void* ptr, const size_t provided_size, Policy policy) {
   TC_ASSERT_LE(minimum_size, maximum_size);
 
   // Recompute the provided size and how it maps onto a size class.
-  const hot_cold_t access_hint =
+  //
+  // The tag alone tells how the memory was allocated.  The threshold for access
+  // hints may have changed since then.
+  auto [is_small, provided_size_class] =
       ABSL_PREDICT_FALSE(GetMemoryTag(ptr) == MemoryTag::kCold)
-          ? hot_cold_t{0}
-          : hot_cold_t{255};
-  auto [is_small, provided_size_class] = tc_globals.sizemap().GetSizeClass(
-      policy.InSamePartitionAs(ptr).AccessAs(access_hint), provided_size);
+          ? tc_globals.sizemap().GetSizeClass(
+                policy.InSamePartitionAs(ptr).AccessAsCold(), provided_size)
+          : tc_globals.sizemap().GetSizeClass(
+                policy.InSamePartitionAs(ptr).AccessAsHot(), provided_size);
   if (ABSL_PREDICT_FALSE(!is_small)) {
     provided_size_class = 0;
   }
-- 
2.43.0


From ecd93ca36be462e385bf61e9ac3a7d45a0b11816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 30/37] fix: keep a sampled block's security partition in
 realloc

PartitionFromPointer took sampled memory of partition 1 for partition 0, so a
realloc of a sampled block moved it into the other partition's heap.
---
 tcmalloc/common.h    |  1 +
 tcmalloc/tcmalloc.cc | 26 ++++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/common.h b/tcmalloc/common.h
index 936e6e1..fc1d4b2 100644
--- a/tcmalloc/common.h
+++ b/tcmalloc/common.h
@@ -268,6 +268,7 @@ inline size_t PartitionFromPointer(const void* ptr) {
 
   switch (GetMemoryTag(ptr)) {
     case MemoryTag::kNormalP1:
+    case MemoryTag::kSampledP1:
       return 1;
     default:
       return 0;
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index bfdeca2..453f7a0 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1576,6 +1576,29 @@ extern "C" ABSL_CACHELINE_ALIGNED void* TCMallocInternalCalloc(
   return result;
 }
 
+// Returns the partition that the block at ptr belongs to.
+static size_t PartitionForRealloc(const void* ptr, bool was_sampled) {
+  using tcmalloc::tcmalloc_internal::GetMemoryTag;
+  using tcmalloc::tcmalloc_internal::HeapPartitioningMode;
+  using tcmalloc::tcmalloc_internal::MemoryTag;
+  using tcmalloc::tcmalloc_internal::Parameters;
+  // Guarded allocations and, in kLight mode, all sampled allocations of both
+  // security partitions share the memory tagged kSampled.
+  if (tcmalloc::tcmalloc_internal::kSecurityPartitions > 1 && was_sampled &&
+      GetMemoryTag(ptr) == MemoryTag::kSampled &&
+      (Parameters::heap_partitioning_mode() == HeapPartitioningMode::kLight ||
+       tc_globals.guardedpage_allocator().PointerIsMine(ptr))) {
+    return tc_globals.pagemap()
+                       .GetExistingDescriptor(
+                           tcmalloc::tcmalloc_internal::PageIdContaining(ptr))
+                       ->sampled_allocation()
+                       .sampled_stack.token_id == TokenId::kAllocToken0
+               ? 0
+               : 1;
+  }
+  return tcmalloc::tcmalloc_internal::PartitionFromPointer(ptr);
+}
+
 static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* do_realloc(void* old_ptr,
                                                             size_t new_size,
                                                             TokenId token_id) {
@@ -1624,8 +1647,7 @@ static inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* do_realloc(void* old_ptr,
     void* new_ptr = fast_alloc(
         new_size,
         MallocPolicy().InPartitionWithToken(
-            tcmalloc::tcmalloc_internal::PartitionFromPointer(old_ptr),
-            token_id));
+            PartitionForRealloc(old_ptr, was_sampled), token_id));
     if (new_ptr == nullptr) {
       return nullptr;
     }
-- 
2.43.0


From 978fc844e320070a3fa84c47863445a33ae2ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 31/37] fix: read and write thread cache sizes and limits
 atomically

Statistics read the lengths and sizes of other threads' caches, and the
per-thread limits are changed by other threads, while the owner uses
them without a lock: formally data races.  They are relaxed atomics now.
---
 tcmalloc/internal/linked_list.h | 22 +++++++++++++++-------
 tcmalloc/thread_cache.cc        | 31 ++++++++++++++++---------------
 tcmalloc/thread_cache.h         | 21 ++++++++++++++++-----
 3 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/tcmalloc/internal/linked_list.h b/tcmalloc/internal/linked_list.h
index 9161e55..8cb888a 100644
--- a/tcmalloc/internal/linked_list.h
+++ b/tcmalloc/internal/linked_list.h
@@ -21,6 +21,8 @@
 #include <stddef.h>
 #include <stdint.h>
 
+#include <atomic>
+
 #include "absl/base/attributes.h"
 #include "absl/base/optimization.h"
 #include "tcmalloc/internal/config.h"
@@ -61,7 +63,13 @@ inline void* SLL_Pop(void** list) {
 class LinkedList {
  private:
   void* list_ = nullptr;  // Linked list.
-  uint32_t length_ = 0;   // Current length.
+  // Current length.  Only the owner of the list updates it, but other threads
+  // may read it (for statistics) at any time.
+  std::atomic<uint32_t> length_ = 0;
+
+  void ABSL_ATTRIBUTE_ALWAYS_INLINE set_length(uint32_t length) {
+    length_.store(length, std::memory_order_relaxed);
+  }
 
  public:
   constexpr LinkedList() = default;
@@ -73,14 +81,14 @@ class LinkedList {
   LinkedList& operator=(LinkedList&&) = delete;
 
   // Return current length of list
-  size_t length() const { return length_; }
+  size_t length() const { return length_.load(std::memory_order_relaxed); }
 
   // Is list empty?
   bool empty() const { return list_ == nullptr; }
 
   void ABSL_ATTRIBUTE_ALWAYS_INLINE Push(void* ptr) {
     SLL_Push(&list_, ptr);
-    length_++;
+    set_length(length() + 1);
   }
 
   bool ABSL_ATTRIBUTE_ALWAYS_INLINE TryPop(void** ret) {
@@ -91,7 +99,7 @@ class LinkedList {
 
     void* next = SLL_Next(obj);
     list_ = next;
-    length_--;
+    set_length(length() - 1);
 
 #if defined(__GNUC__)
     if (ABSL_PREDICT_TRUE(next)) {
@@ -111,7 +119,7 @@ class LinkedList {
     }
     SLL_SetNext(batch[N - 1], list_);
     list_ = batch[0];
-    length_ += N;
+    set_length(length() + N);
   }
 
   void PopBatch(int N, void** batch) {
@@ -121,8 +129,8 @@ class LinkedList {
       p = SLL_Next(p);
     }
     list_ = p;
-    TC_ASSERT_GE(length_, N);
-    length_ -= N;
+    TC_ASSERT_GE(length(), N);
+    set_length(length() - N);
   }
 };
 
diff --git a/tcmalloc/thread_cache.cc b/tcmalloc/thread_cache.cc
index f3fe430..e4efe58 100644
--- a/tcmalloc/thread_cache.cc
+++ b/tcmalloc/thread_cache.cc
@@ -54,14 +54,14 @@ ABSL_CONST_INIT absl::base_internal::SpinLock ThreadCache::threadcache_lock_(
 
 ThreadCache::ThreadCache(pthread_t tid) {
   threadcache_lock_.AssertHeld();
-  size_ = 0;
+  set_size(0);
 
-  max_size_ = 0;
+  set_max_size(0);
   IncreaseCacheLimitLocked();
-  if (max_size_ == 0) {
+  if (max_size() == 0) {
     // There isn't enough memory to go around.  Just give the minimum to
     // this thread.
-    max_size_ = kMinThreadCacheSize;
+    set_max_size(kMinThreadCacheSize);
 
     // Take unclaimed_cache_space_ negative.
     unclaimed_cache_space_ -= kMinThreadCacheSize;
@@ -104,7 +104,7 @@ void* ThreadCache::FetchFromTransferCache(size_t size_class, size_t byte_size) {
   }
 
   if (--fetch_count > 0) {
-    size_ += byte_size * fetch_count;
+    set_size(size() + byte_size * fetch_count);
     list->PushBatch(fetch_count, batch + 1);
   }
 
@@ -175,7 +175,7 @@ void ThreadCache::ReleaseToTransferCache(FreeList* src, size_t size_class,
                 "not enough space in batch");
   tc_globals.transfer_cache().InsertRange(size_class,
                                           absl::Span<void*>(batch, N));
-  size_ -= delta_bytes;
+  set_size(size() - delta_bytes);
 }
 
 // Release idle memory to the transfer cache
@@ -217,7 +217,7 @@ void ThreadCache::DeallocateSlow(void* ptr, FreeList* list, size_t size_class) {
   if (ABSL_PREDICT_FALSE(list->length() > list->max_length())) {
     ListTooLong(list, size_class);
   }
-  if (size_ >= max_size_) {
+  if (size() >= max_size()) {
     Scavenge();
   }
 }
@@ -231,7 +231,7 @@ void ThreadCache::IncreaseCacheLimitLocked() {
   if (unclaimed_cache_space_ > 0) {
     // Possibly make unclaimed_cache_space_ negative.
     unclaimed_cache_space_ -= kStealAmount;
-    max_size_ += kStealAmount;
+    set_max_size(max_size() + kStealAmount);
     return;
   }
   // Don't hold pageheap_lock too long.  Try to steal from 10 other
@@ -245,11 +245,12 @@ void ThreadCache::IncreaseCacheLimitLocked() {
       next_memory_steal_ = thread_heaps_;
     }
     if (next_memory_steal_ == this ||
-        next_memory_steal_->max_size_ <= kMinThreadCacheSize) {
+        next_memory_steal_->max_size() <= kMinThreadCacheSize) {
       continue;
     }
-    next_memory_steal_->max_size_ -= kStealAmount;
-    max_size_ += kStealAmount;
+    next_memory_steal_->set_max_size(next_memory_steal_->max_size() -
+                                     kStealAmount);
+    set_max_size(max_size() + kStealAmount);
 
     next_memory_steal_ = next_memory_steal_->next_;
     return;
@@ -378,7 +379,7 @@ void ThreadCache::DeleteCache(ThreadCache* heap) {
 
     if (next_memory_steal_ == heap) next_memory_steal_ = heap->next_;
     if (next_memory_steal_ == nullptr) next_memory_steal_ = thread_heaps_;
-    unclaimed_cache_space_ += heap->max_size_;
+    unclaimed_cache_space_ += heap->max_size();
   }
 
   tc_globals.threadcache_allocator().Delete(heap);
@@ -399,9 +400,9 @@ void ThreadCache::RecomputePerThreadCacheSize() {
     // Increasing the total cache size should not circumvent the
     // slow-start growth of max_size_.
     if (ratio < 1.0) {
-      h->max_size_ *= ratio;
+      h->set_max_size(h->max_size() * ratio);
     }
-    claimed += h->max_size_;
+    claimed += h->max_size();
   }
   unclaimed_cache_space_ =
       overall_thread_cache_size_.load(std::memory_order_relaxed) - claimed;
@@ -413,7 +414,7 @@ AllocatorStats ThreadCache::GetStats(uint64_t* total_bytes,
   AllocationGuardSpinLockHolder l(threadcache_lock_);
 
   for (ThreadCache* h = thread_heaps_; h != nullptr; h = h->next_) {
-    *total_bytes += h->size_;
+    *total_bytes += h->size();
     if (class_count) {
       for (int size_class = 0; size_class < kNumClasses; ++size_class) {
         class_count[size_class] += h->list_[size_class].length();
diff --git a/tcmalloc/thread_cache.h b/tcmalloc/thread_cache.h
index 1ef0d32..c1297b2 100644
--- a/tcmalloc/thread_cache.h
+++ b/tcmalloc/thread_cache.h
@@ -200,8 +200,19 @@ class ABSL_CACHELINE_ALIGNED ThreadCache {
 
   FreeList list_[kNumClasses];  // Array indexed by size-class
 
-  size_t size_;      // Combined size of data
-  size_t max_size_;  // size_ > max_size_ --> Scavenge()
+  // Combined size of data.  Only the owning thread updates it, but other
+  // threads may read it (for statistics) at any time.
+  std::atomic<size_t> size_;
+  // size_ > max_size_ --> Scavenge().  Updated with threadcache_lock_ held,
+  // possibly by other threads, but read by the owning thread without it.
+  std::atomic<size_t> max_size_;
+
+  size_t size() const { return size_.load(std::memory_order_relaxed); }
+  void set_size(size_t size) { size_.store(size, std::memory_order_relaxed); }
+  size_t max_size() const { return max_size_.load(std::memory_order_relaxed); }
+  void set_max_size(size_t max_size) {
+    max_size_.store(max_size, std::memory_order_relaxed);
+  }
 
   pthread_t tid_;
   bool in_setspecific_;
@@ -229,7 +240,7 @@ inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* ThreadCache::Allocate(
   FreeList* list = &list_[size_class];
   void* ret;
   if (ABSL_PREDICT_TRUE(list->TryPop(&ret))) {
-    size_ -= allocated_size;
+    set_size(size() - allocated_size);
     return ret;
   }
 
@@ -239,8 +250,8 @@ inline ABSL_ATTRIBUTE_ALWAYS_INLINE void* ThreadCache::Allocate(
 inline void ABSL_ATTRIBUTE_ALWAYS_INLINE
 ThreadCache::Deallocate(void* ptr, size_t size_class) {
   FreeList* list = &list_[size_class];
-  size_ += tc_globals.sizemap().class_to_size(size_class);
-  ssize_t size_headroom = max_size_ - size_ - 1;
+  set_size(size() + tc_globals.sizemap().class_to_size(size_class));
+  ssize_t size_headroom = max_size() - size() - 1;
 
   list->Push(ptr);
   ssize_t list_headroom =
-- 
2.43.0


From cb5f64e7740dc1900e808dc1d4f78da1af6ec41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 32/37] fix: do not overflow when computing the weight of a
 request near 2^63 bytes

---
 tcmalloc/sampler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/sampler.cc b/tcmalloc/sampler.cc
index 3762f3e..b43a287 100644
--- a/tcmalloc/sampler.cc
+++ b/tcmalloc/sampler.cc
@@ -145,8 +145,11 @@ size_t Sampler::RecordAllocationSlow(size_t k) {
   // gives us a weight of T + k - f.
   //
   ssize_t weight;
-  if (ABSL_PREDICT_FALSE(__builtin_ssubl_overflow(
-          sample_interval_, bytes_until_sample_ + kIntervalOffset, &weight))) {
+  ssize_t offset;
+  if (ABSL_PREDICT_FALSE(
+          __builtin_saddl_overflow(bytes_until_sample_, kIntervalOffset,
+                                   &offset) ||
+          __builtin_ssubl_overflow(sample_interval_, offset, &weight))) {
     weight = std::numeric_limits<ssize_t>::max();
   }
   bytes_until_sample_ = PickNextSamplingPoint();
-- 
2.43.0


From cc90cd89420cc691cdfa5c19f47bb985cab0f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:28 +0000
Subject: [PATCH 33/37] fix: list allocated spans without comparing size
 classes that are being changed

---
 tcmalloc/pagemap.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/pagemap.h b/tcmalloc/pagemap.h
index 07a6b87..296c727 100644
--- a/tcmalloc/pagemap.h
+++ b/tcmalloc/pagemap.h
@@ -425,7 +425,9 @@ class PageMap {
     for (std::optional<uintptr_t> i = 0; i.has_value();
          i = map_.get_next_set_page(i.value())) {
       PageId page_id = PageId{i.value()};
-      Span* s = GetDescriptor(page_id);
+      // Spans are being registered and unregistered concurrently: the page's
+      // two copies of the size class need not agree.
+      const auto [s, size_class] = GetDescriptorAndSizeClass(page_id);
       if (s == nullptr || s == &tc_globals.invalid_span()) {
         continue;
       }
@@ -439,7 +441,6 @@ class PageMap {
           !gwp_asan.IsAllocated(page_id.start_addr())) {
         continue;
       }
-      CompactSizeClass size_class = sizeclass(page_id);
       TC_ASSERT_EQ(s->first_page().index(), i);
       // As documented, GetAllocatedSpans wants to avoid allocating more memory
       // for the output vector while holding the pageheap_lock. So, we stop
-- 
2.43.0


From 3ef0cd7fc47c8ce51ef3e759bee18230b1ebdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:37 +0000
Subject: [PATCH 34/37] fix: do not change errno when probing for
 MAP_FIXED_NOREPLACE

---
 tcmalloc/internal/system_allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcmalloc/internal/system_allocator.h b/tcmalloc/internal/system_allocator.h
index 3a44ee9..7733cc3 100644
--- a/tcmalloc/internal/system_allocator.h
+++ b/tcmalloc/internal/system_allocator.h
@@ -563,12 +563,12 @@ void* SystemAllocator<Topology, NormalPartitions>::MmapAlignedLocked(
       GetMemoryTag(reinterpret_cast<void*>(next_addr + size - 1)) != tag) {
     next_addr = RandomMmapHint(size, alignment, tag);
   }
-  const int map_fixed_noreplace_flag = MapFixedNoReplaceFlagAvailable();
-  void* hint;
   // Avoid clobbering errno, especially if an initial mmap fails but a
   // subsequent one succeeds.  If we fail to allocate memory, MallocOomPolicy
   // will set errno for us.
   ErrnoRestorer errno_restorer;
+  const int map_fixed_noreplace_flag = MapFixedNoReplaceFlagAvailable();
+  void* hint;
   for (int i = 0; i < 1000; ++i) {
     hint = reinterpret_cast<void*>(next_addr);
     TC_ASSERT_EQ(GetMemoryTag(hint), tag);
-- 
2.43.0


From 306b005fd8b276812e685075c590b78938ccba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 35/37] fix: releasing drained slab metadata aborts while
 another thread grows its cache

---
 tcmalloc/cpu_cache.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/cpu_cache.h b/tcmalloc/cpu_cache.h
index e13c4dc..911ca0a 100644
--- a/tcmalloc/cpu_cache.h
+++ b/tcmalloc/cpu_cache.h
@@ -1471,7 +1471,10 @@ inline void CpuCache<Forwarder>::TryDrainingCaches()
     freelist_.ReleaseSlabMetadataForDrainedCpus(
         [this](int cpu) { return HasPopulated(cpu); },
         [this](int cpu) {
-          TC_CHECK_EQ(
+          // A concurrent Grow() may have taken bytes from <available> that it
+          // has not used, or not returned, yet:  It runs without the lock, and
+          // returns them once it notices that its restartable sequence failed.
+          TC_CHECK_LE(
               resize_[cpu].available, resize_[cpu].capacity,
               "CPU %u was not actually drained, or available is out of sync",
               cpu);
-- 
2.43.0


From 84466df38943e67997c173bd2c66edba899694bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:40 +0000
Subject: [PATCH 36/37] fix: listing the allocated address ranges could read
 spans already recycled

---
 tcmalloc/central_freelist.cc |  6 +++++-
 tcmalloc/span.cc             |  4 +++-
 tcmalloc/tcmalloc.cc         | 12 ++++++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/tcmalloc/central_freelist.cc b/tcmalloc/central_freelist.cc
index f25b93b..3426470 100644
--- a/tcmalloc/central_freelist.cc
+++ b/tcmalloc/central_freelist.cc
@@ -190,13 +190,17 @@ void StaticForwarder::DeallocateSpans(size_t objects_per_span,
     TC_ASSERT_EQ(tag, GetMemoryTag(s->start_address()));
     allocs[i].r = Range(s->first_page(), s->num_pages());
     allocs[i].donated = s->donated();
-    Span::Delete(s);
   }
   const AccessDensityPrediction density = AccessDensity(objects_per_span);
   SpanAllocInfo span_alloc_info = {.objects_per_span = objects_per_span,
                                    .density = density};
   ReturnAllocsToPageHeap(tag, absl::MakeSpan(allocs, free_spans.size()),
                          span_alloc_info);
+  // The PageMap leads to the spans until they have been returned to the page
+  // heap, and PageMap::GetAllocatedSpans looks at what it leads to.
+  for (Span* const free_span : free_spans) {
+    Span::Delete(free_span);
+  }
 #endif
 }
 
diff --git a/tcmalloc/span.cc b/tcmalloc/span.cc
index 183f6d0..1c60f2d 100644
--- a/tcmalloc/span.cc
+++ b/tcmalloc/span.cc
@@ -47,9 +47,11 @@ void Span::Sample(SampledAllocation* sampled_allocation) {
   TC_CHECK(!sampled_ && sampled_allocation);
   Length pages_per_span = num_pages();
   TC_CHECK_GT(pages_per_span, Length(0));
-  sampled_ = 1;
+  // The span's length must remain readable throughout.
   large_or_sampled_state_.num_pages = pages_per_span.raw_num();
   large_or_sampled_state_.sampled_allocation = sampled_allocation;
+  std::atomic_signal_fence(std::memory_order_release);
+  sampled_ = 1;
 
   // The cast to value matches Unsample.
   tcmalloc_internal::StatsCounter::Value allocated_bytes =
diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index 453f7a0..292654e 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -747,11 +747,15 @@ ABSL_ATTRIBUTE_NOINLINE static void InvokeHooksAndFreePages(
         Range(p, span->num_pages()),
         span->donated(),
     };
+    {
+      PageHeapSpinLockHolder l;
+      tc_globals.page_allocator().Delete(
+          a, GetMemoryTag(ptr),
+          {.objects_per_span = 1, .density = AccessDensityPrediction::kSparse});
+    }
+    // The PageMap leads to the span until it has been returned to the page
+    // heap, and PageMap::GetAllocatedSpans looks at what it leads to.
     Span::Delete(span);
-    PageHeapSpinLockHolder l;
-    tc_globals.page_allocator().Delete(
-        a, GetMemoryTag(ptr),
-        {.objects_per_span = 1, .density = AccessDensityPrediction::kSparse});
 #endif  // TCMALLOC_INTERNAL_LEGACY_LOCKING
   }
   // We expect to crash in GuardedPageAllocator::Delete or in
-- 
2.43.0


From 6e392948b314c7ac0123441ffdf370ed04e95e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 37/37] fix: deviation of lifetimes follows Welford's
 recurrence

The update multiplied the distance to the new mean by the movement of the
mean instead of by the distance to the old mean, so that the reported
standard deviation was too small by the square root of the number of
lifetimes (1/sqrt(2) for two, tending to 0 for many).
---
 tcmalloc/deallocation_profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcmalloc/deallocation_profiler.cc b/tcmalloc/deallocation_profiler.cc
index 97e3210..7754820 100644
--- a/tcmalloc/deallocation_profiler.cc
+++ b/tcmalloc/deallocation_profiler.cc
@@ -679,7 +679,7 @@ void DeallocationProfiler::DeallocationStackTraceTable::AddTrace(
       (life_time_ns - old_mean_ns) / static_cast<double>(v.counts[index] + 1);
   v.variance_life_times_ns[index] +=
       (life_time_ns - v.mean_life_times_ns[index]) *
-      (v.mean_life_times_ns[index] - old_mean_ns);
+      (life_time_ns - old_mean_ns);
 
   v.min_life_times_ns[index] =
       std::min(v.min_life_times_ns[index], life_time_ns);
-- 
2.43.0

