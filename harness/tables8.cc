// The size-class tables as compiled when operator new aligns to 8 bytes, under other names.
#undef __STDCPP_DEFAULT_NEW_ALIGNMENT__
#define __STDCPP_DEFAULT_NEW_ALIGNMENT__ 8
#define kSizeClasses vt8_kSizeClasses
#define kExperimentalPow2SizeClasses vt8_kExperimentalPow2SizeClasses
#define kLegacySizeClasses vt8_kLegacySizeClasses
#define kReuseRelaxedBelow64SizeClasses vt8_kReuseRelaxedBelow64SizeClasses
#define List List_a
#define Assumptions Assumptions_a
#include "tcmalloc/size_classes.cc"
#undef List
#undef Assumptions
#define List List_b
#define Assumptions Assumptions_b
#include "tcmalloc/experimental_pow2_size_class.cc"
#undef List
#undef Assumptions
#define List List_c
#define Assumptions Assumptions_c
#include "tcmalloc/legacy_size_classes.cc"
#undef List
#undef Assumptions
#define List List_d
#define Assumptions Assumptions_d
#include "tcmalloc/reuse_relaxed_below_64_size_classes.cc"
