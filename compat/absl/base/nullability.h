// Compat stand-in for the abseil header missing from libabsl-dev 20220623.
#ifndef VERIF_COMPAT_NULLABILITY_H_
#define VERIF_COMPAT_NULLABILITY_H_
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#define ABSL_POINTERS_DEFAULT_NONNULL
#define ABSL_NULLABILITY_COMPATIBLE
#endif
