// Stand-in for the parts of abseil nsasm uses, backed by the standard library.
// The abseil that is installed here is built with its own string_view and
// optional types, and most of nsasm does not compile against it.
#pragma once
#define ABSL_MUST_USE_RESULT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_NORETURN __attribute__((noreturn))
#define ABSL_DEPRECATED(m)
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
