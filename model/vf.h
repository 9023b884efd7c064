// Contract-harness language.  A harness is an ordinary C++ function that
// draws unconstrained inputs, assumes a precondition, calls the REAL function
// from /repo and asserts its postcondition.  Compiled twice: through
// clang-IR -> ir2c -> CBMC (all inputs) and natively (replay / random search).
#ifndef VF_H_
#define VF_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include "vf_check.h"
extern "C" {
uint64_t vf_nondet_u64(void);
uint32_t vf_nondet_u32(void);
uint16_t vf_nondet_u16(void);
uint8_t vf_nondet_u8(void);
__attribute__((nomerge)) void vf_assert_impl(bool c, const char* msg);
void vf_assume_impl(bool c);
uint32_t vf_split(void);
void vf_note_choice(uint64_t);
__attribute__((nomerge)) void vf_cover_impl(const char* label);
}
#define VF_ASSERT(c, name) vf_assert_impl(static_cast<bool>(c), name)
#define VF_ASSUME(c) vf_assume_impl(static_cast<bool>(c))
#define VF_COVER(label) vf_cover_impl(label)
#define VF_COVER_IF(c, label) do { if (c) vf_cover_impl(label); } while (0)
#define VF_HARNESS(name) extern "C" void name()
extern "C" __attribute__((weak, noinline)) void vf_unexpected_error() {
  vf_assert_impl(false, "legal input is accepted: no error status is produced");
  vf_assume_impl(false);
  __builtin_unreachable();
}
namespace vf {
// From here on every operation has to succeed.
inline void MustSucceed(bool on = true) { vf_must_succeed = on; }
inline uint64_t u64() { return vf_nondet_u64(); }
inline uint32_t u32() { return vf_nondet_u32(); }
inline uint16_t u16() { return vf_nondet_u16(); }
inline uint8_t u8() { return vf_nondet_u8(); }
inline int64_t i64() { return static_cast<int64_t>(vf_nondet_u64()); }
inline int32_t i32() { return static_cast<int32_t>(vf_nondet_u32()); }
inline int16_t i16() { return static_cast<int16_t>(vf_nondet_u16()); }
inline int8_t i8() { return static_cast<int8_t>(vf_nondet_u8()); }
inline bool boolean() { return (vf_nondet_u8() & 1) != 0; }
inline float f32() { uint32_t b = vf_nondet_u32(); float f; std::memcpy(&f, &b, 4); return f; }
inline double f64() { uint64_t b = vf_nondet_u64(); double f; std::memcpy(&f, &b, 8); return f; }
#ifdef VF_NATIVE
uint64_t ranged_abs(uint64_t lo, uint64_t hi, int bits);
// Case split: the verifier runs once per value in [lo, hi].
inline uint32_t split(uint32_t lo, uint32_t hi) { return static_cast<uint32_t>(ranged_abs(lo, hi, 32)); }
template <class T> T range(T lo, T hi) { return static_cast<T>(ranged_abs(static_cast<uint64_t>(lo), static_cast<uint64_t>(hi), sizeof(T) * 8)); }
#else
inline uint32_t split(uint32_t, uint32_t) { const uint32_t k = vf_split(); vf_note_choice(k); return k; }
template <class T> inline T any() {
  if constexpr (sizeof(T) == 1) return static_cast<T>(vf_nondet_u8());
  else if constexpr (sizeof(T) == 2) return static_cast<T>(vf_nondet_u16());
  else if constexpr (sizeof(T) == 4) return static_cast<T>(vf_nondet_u32());
  else return static_cast<T>(vf_nondet_u64());
}
template <class T> inline T range(T lo, T hi) {
  T x = any<T>();
  VF_ASSUME(x >= lo && x <= hi);
  return x;
}
#endif
}  // namespace vf
#endif
