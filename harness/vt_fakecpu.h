// Runs the calling thread on CPU numbers of the harness's choosing (the kernel registration is undone meanwhile).
#pragma once
#include <sys/syscall.h>
#include "tcmalloc/internal/percpu.h"
namespace vt { inline thread_local int fake_vcpu = tcmalloc::tcmalloc_internal::subtle::percpu::kCpuIdUninitialized; }
namespace tcmalloc::tcmalloc_internal::subtle::percpu { int VirtualCpu::TestSynchronize() { return vt::fake_vcpu; } }
namespace vt {
struct FakeCpu {
  explicit FakeCpu(int c) {
    using namespace tcmalloc::tcmalloc_internal::subtle::percpu;
    if (!IsFast()) { inconclusive("restartable sequences are not available"); }
    syscall(__NR_rseq, &__rseq_abi, sizeof(__rseq_abi), kRseqUnregister, TCMALLOC_PERCPU_RSEQ_SIGNATURE); SwitchTo(c);
  }
  void SwitchTo(int c) { tcmalloc::tcmalloc_internal::subtle::percpu::__rseq_abi.cpu_id = c; fake_vcpu = c; }
  ~FakeCpu() { using namespace tcmalloc::tcmalloc_internal::subtle::percpu; SwitchTo(kCpuIdUninitialized); IsFast(); }
};
}  // namespace vt
