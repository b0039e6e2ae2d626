// The background thread's maintenance actions, one at a time (callers serialise them).
#pragma once
#include "vt.h"
#include "tcmalloc/common.h"
#include "tcmalloc/cpu_cache.h"
#include "tcmalloc/malloc_extension.h"
#include "tcmalloc/static_vars.h"
namespace vt {
inline const char* background_action(Rng& r, int k = -1) {
  using tcmalloc::tcmalloc_internal::tc_globals;
  using tcmalloc::MallocExtension;
  bool pc = MallocExtension::PerCpuCachesActive();
  // The background thread registers itself with rseq before it does anything.
  if (pc && !tcmalloc::tcmalloc_internal::subtle::percpu::IsFast()) pc = false;
  if (k < 0) k = r.below(9);
  if (pc) switch (k) {
    case 0: tc_globals.cpu_cache().ShuffleCpuCaches(); return "shuffle";
    case 1: tc_globals.cpu_cache().TryDrainingCaches(); return "drain";
    case 2: tc_globals.cpu_cache().ResizeSizeClasses(); return "resize_classes";
    case 3: tc_globals.cpu_cache().ResizeSlabIfNeeded(); return "resize_slab";
    case 4: tc_globals.cpu_cache().ResizeSizeClassMaxCapacities(); return "resize_max_capacities";
    case 5: tc_globals.cpu_cache().ClearTouchedCpus(); return "clear_touched";
  }
  switch (k) {
    case 6: tc_globals.sharded_transfer_cache().Plunder(); return "sharded_plunder";
#ifndef TCMALLOC_INTERNAL_SMALL_BUT_SLOW
    case 7: tc_globals.transfer_cache().TryPlunder(); return "plunder";
    case 8: tc_globals.transfer_cache().TryResizingCaches(); return "resize_transfer";
#endif
    default: tc_globals.page_allocator().TreatHugepageTrackers(tcmalloc::tcmalloc_internal::EnableCollapse(r.chance(1, 4))); return "treat_trackers";
  }
}
}  // namespace vt
