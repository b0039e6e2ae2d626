// Handlers of the compiler's checks for undefined behaviour. The sanitizer's own runtime allocates, so it cannot be used
// underneath the allocator; these report through the harness instead and end the process.
#pragma once
namespace vt {
struct UbLoc { const char* file; uint32_t line, col; };
inline std::atomic<int> ub_in{0};
inline void ub_report(const char* what, const UbLoc* l, const char* extra, uint64_t a, uint64_t b) {
  if (ub_in.exchange(1)) _exit(10);
  const char* f = l && l->file ? l->file : "?"; for (const char* q = f; *q; q++) if (*q == '/' && q[1]) f = q + 1;
  char key[128]; snprintf(key, sizeof key, "undefined-behaviour:%s@%s:%u", what, f, l ? l->line : 0);
  char bt[400]; int n = 0; bt[0] = 0; void** fp = (void**)__builtin_frame_address(0);
  for (int i = 0; i < 10 && fp && n < 360; i++) { void* ra = fp[1]; if ((uintptr_t)ra < 4096) break; n += snprintf(bt + n, sizeof bt - n, " %p", ra); void** nx = (void**)fp[0]; if (nx <= fp || nx > fp + (1 << 17)) break; fp = nx; }
  say("VIOL %s %s %s (%llx %llx) at %s:%u:%u stack%s", key, what, extra, (unsigned long long)a, (unsigned long long)b, l && l->file ? l->file : "?", l ? l->line : 0, l ? l->col : 0, bt);
  _exit(10);
}
}
#define VT_UB3(name) extern "C" __attribute__((used, no_sanitize("undefined"))) void __ubsan_handle_##name(vt::UbLoc* d, uint64_t a, uint64_t b) { vt::ub_report(#name, d, "", a, b); } extern "C" __attribute__((used, no_sanitize("undefined"))) void __ubsan_handle_##name##_abort(vt::UbLoc* d, uint64_t a, uint64_t b) { vt::ub_report(#name, d, "", a, b); }
extern "C" __attribute__((used, no_sanitize("undefined"))) void __ubsan_handle_type_mismatch_v1(vt::UbLoc* d, uint64_t p) {
  struct D { vt::UbLoc l; const uint16_t* type; unsigned char log_align, kind; }* t = (D*)d; uint64_t al = 1ull << t->log_align;
  vt::ub_report(p == 0 ? "null-pointer" : p & (al - 1) ? "misaligned" : "object-size", d, (const char*)(t->type + 2), p, al); }
extern "C" __attribute__((used, no_sanitize("undefined"))) void __ubsan_handle_type_mismatch_v1_abort(vt::UbLoc* d, uint64_t p) { __ubsan_handle_type_mismatch_v1(d, p); }
VT_UB3(add_overflow) VT_UB3(sub_overflow) VT_UB3(mul_overflow) VT_UB3(negate_overflow) VT_UB3(divrem_overflow) VT_UB3(shift_out_of_bounds) VT_UB3(out_of_bounds) VT_UB3(local_out_of_bounds) VT_UB3(missing_return) VT_UB3(builtin_unreachable) VT_UB3(vla_bound_not_positive) VT_UB3(float_cast_overflow) VT_UB3(load_invalid_value) VT_UB3(invalid_builtin) VT_UB3(nonnull_arg) VT_UB3(nullability_arg) VT_UB3(pointer_overflow) VT_UB3(alignment_assumption) VT_UB3(function_type_mismatch) VT_UB3(implicit_conversion)
#define VT_UBR(name) extern "C" __attribute__((used, no_sanitize("undefined"))) void __ubsan_handle_##name(void*, vt::UbLoc* d) { vt::ub_report(#name, d, "", 0, 0); } extern "C" __attribute__((used, no_sanitize("undefined"))) void __ubsan_handle_##name##_abort(void*, vt::UbLoc* d) { vt::ub_report(#name, d, "", 0, 0); }
VT_UBR(nonnull_return_v1) VT_UBR(nullability_return_v1)
