// Contracts for iamf/common/utils/numeric_utils.{h,cc} and the PCM byte packer
// in iamf/common/utils (C22 Q formats, C23 sample normalisation, C24 PCM bytes,
// C25 checked arithmetic and casts).
// VF-SOURCES: iamf/common/utils/numeric_utils.cc
#include "vf.h"
#include <cmath>
#include <limits>
#include "iamf/common/utils/numeric_utils.h"
using namespace iamf_tools;

// ---------------------------------------------------------------- C22
// @prop C22
// @desc FloatToQ7_8: ok iff value in [-128, 128-1/256]; |result/256 - value| < 1/256; exact when representable; never above value for value>=0; result untouched on failure
VF_HARNESS(q78_from_float) {
  const float v = vf::f32();
  const int16_t before = vf::i16();
  int16_t q = before;
  const bool ok = FloatToQ7_8(v, q).ok();
  const bool representable = v >= -128.0f && v <= 127.99609375f;  // false for NaN
  VF_ASSERT(ok == representable, "accepted iff representable in Q7.8");
  if (!ok) {
    VF_ASSERT(q == before, "output untouched on failure");
    VF_COVER("rejected");
    return;
  }
  const double diff = static_cast<double>(v) * 256.0 - static_cast<double>(q);
  VF_ASSERT(diff > -1.0 && diff < 1.0, "within one quantum");
  if (v >= 0) VF_ASSERT(diff >= 0.0, "floored for non-negative input");
  VF_COVER_IF(v < 0, "accepted negative");
  VF_COVER_IF(diff != 0, "accepted inexact");
}
// @prop C22
// @desc FloatToQ7_8 on negative input: the documented floor
VF_HARNESS(q78_floor_negative) {
  const float v = vf::f32();
  VF_ASSUME(v >= -128.0f && v < 0.0f);
  int16_t q = 0;
  VF_ASSERT(FloatToQ7_8(v, q).ok(), "accepted");
  VF_COVER("end");
  VF_ASSERT(static_cast<double>(q) <= static_cast<double>(v) * 256.0, "negative value floored as documented");
}
// @prop C22
// @desc every int16 Q7.8 code survives Q7_8ToFloat then FloatToQ7_8; Q7_8ToFloat(q)*256 == q exactly
VF_HARNESS(q78_round_trip) {
  const int16_t q = vf::i16();
  const float f = Q7_8ToFloat(q);
  VF_ASSERT(static_cast<double>(f) * 256.0 == static_cast<double>(q), "exact value");
  int16_t back = vf::i16();
  VF_ASSERT(FloatToQ7_8(f, back).ok(), "representable");
  VF_ASSERT(back == q, "round trip");
  VF_COVER("end");
}
// @prop C22
// @desc FloatToQ0_8: ok iff 0<=value<1; floored; frame
VF_HARNESS(q08_from_float) {
  const float v = vf::f32();
  const uint8_t before = vf::u8();
  uint8_t q = before;
  const bool ok = FloatToQ0_8(v, q).ok();
  VF_ASSERT(ok == (v >= 0.0f && v < 1.0f), "accepted iff representable in Q0.8");
  if (!ok) {
    VF_ASSERT(q == before, "output untouched on failure");
    VF_COVER("rejected");
    return;
  }
  const double diff = static_cast<double>(v) * 256.0 - static_cast<double>(q);
  VF_ASSERT(diff >= 0.0 && diff < 1.0, "floored");
  VF_COVER("accepted");
}
// @prop C22
// @desc every uint8 Q0.8 code survives Q0_8ToFloat then FloatToQ0_8
VF_HARNESS(q08_round_trip) {
  const uint8_t q = vf::u8();
  const float f = Q0_8ToFloat(q);
  VF_ASSERT(static_cast<double>(f) * 256.0 == static_cast<double>(q), "exact value");
  uint8_t back = vf::u8();
  VF_ASSERT(FloatToQ0_8(f, back).ok(), "representable");
  VF_ASSERT(back == q, "round trip");
  VF_COVER("end");
}

// ---------------------------------------------------------------- C23
// @prop C23
// @desc Int32ToNormalizedFloatingPoint<double>(v) * 2^31 == v exactly; in [-1,1)
VF_HARNESS(norm_double_exact) {
  const int32_t v = vf::i32();
  const double d = Int32ToNormalizedFloatingPoint<double>(v);
  VF_ASSERT(d * 2147483648.0 == static_cast<double>(v), "exact scaling by 2^-31");
  VF_ASSERT(d >= -1.0 && d < 1.0, "range");
  VF_COVER_IF(v < 0, "negative");
  VF_COVER_IF(v == 2147483647, "max");
}
// @prop C23
// @desc Int32ToNormalizedFloatingPoint<float>(v) is the float nearest to v/2^31; in [-1,1]
VF_HARNESS(norm_float_nearest) {
  const int32_t v = vf::i32();
  const float d = Int32ToNormalizedFloatingPoint<float>(v);
  VF_ASSERT(static_cast<double>(d) * 2147483648.0 == static_cast<double>(static_cast<float>(v)), "nearest float");
  VF_ASSERT(d >= -1.0f && d <= 1.0f, "range");
  VF_COVER_IF(v < 0, "negative");
  VF_COVER_IF(v > 0, "positive");
}
// @prop C23
// @desc NormalizedFloatingPointToInt32<double> inverts Int32ToNormalizedFloatingPoint<double> for every int32
VF_HARNESS(norm_round_trip_double) {
  const int32_t v = vf::i32();
  int32_t back = vf::i32();
  VF_ASSERT(NormalizedFloatingPointToInt32<double>(Int32ToNormalizedFloatingPoint<double>(v), back).ok(), "ok");
  VF_ASSERT(back == v, "lossless");
  VF_COVER("end");
}
// @prop C23
// @desc float round trip is exact for every 24-bit sample (left-justified)
VF_HARNESS(norm_round_trip_float24) {
  const int32_t v = static_cast<int32_t>(vf::u32() & 0xffffff00u);
  int32_t back = vf::i32();
  VF_ASSERT(NormalizedFloatingPointToInt32<float>(Int32ToNormalizedFloatingPoint<float>(v), back).ok(), "ok");
  VF_ASSERT(back == v, "lossless for 24-bit samples");
  VF_COVER("end");
}
template <class T> static void ToInt32Contract(T v) {
  const int32_t before = vf::i32();
  int32_t r = before;
  const bool ok = NormalizedFloatingPointToInt32<T>(v, r).ok();
  const bool finite = v - v == 0;  // false for NaN and the infinities
  VF_ASSERT(ok == finite, "ok iff finite");
  if (!ok) {
    VF_ASSERT(r == before, "output untouched on failure");
    VF_COVER("rejected");
    return;
  }
  const double d = static_cast<double>(v);
  if (d <= -1.0) {
    VF_ASSERT(r == std::numeric_limits<int32_t>::min(), "saturates low");
    VF_COVER("saturated low");
  } else if (d >= 1.0) {
    VF_ASSERT(r == std::numeric_limits<int32_t>::max(), "saturates high");
    VF_COVER("saturated high");
  } else {
    const double scaled = d * 2147483648.0;
    const double e = scaled - static_cast<double>(r);
    VF_ASSERT(e > -1.0 && e < 1.0, "within one step");
    VF_ASSERT(!(d > 0) || r >= 0, "sign kept (positive)");
    VF_ASSERT(!(d < 0) || r <= 0, "sign kept (negative)");
    VF_COVER("in range");
  }
}
// @prop C23
// @desc NormalizedFloatingPointToInt32<float>: ok iff finite; saturating; |scaled-result|<1; frame
VF_HARNESS(norm_to_int32_float) { ToInt32Contract<float>(vf::f32()); }
// @prop C23
// @desc NormalizedFloatingPointToInt32<double>: same
VF_HARNESS(norm_to_int32_double) { ToInt32Contract<double>(vf::f64()); }
// @prop C23
// @desc NormalizedFloatingPointToInt32<double> is monotone
VF_HARNESS(norm_monotone) {
  const double a = vf::f64(), b = vf::f64();
  VF_ASSUME(a <= b && a - a == 0 && b - b == 0);
  int32_t ra = 0, rb = 0;
  VF_ASSERT(NormalizedFloatingPointToInt32<double>(a, ra).ok() && NormalizedFloatingPointToInt32<double>(b, rb).ok(), "ok");
  VF_ASSERT(ra <= rb, "monotone");
  VF_COVER_IF(ra < rb, "strict");
}
// @prop C23
// @desc ClipDoubleToInt32: fails iff NaN; saturates; otherwise truncates toward zero; frame
VF_HARNESS(clip_double) {
  const double v = vf::f64();
  const int32_t before = vf::i32();
  int32_t r = before;
  const bool ok = ClipDoubleToInt32(v, r).ok();
  VF_ASSERT(ok == (v == v), "fails iff NaN");
  if (!ok) {
    VF_ASSERT(r == before, "output untouched on failure");
    VF_COVER("nan");
    return;
  }
  if (v >= 2147483647.0) {
    VF_ASSERT(r == 2147483647, "saturates high");
    VF_COVER("high");
  } else if (v <= -2147483648.0) {
    VF_ASSERT(r == std::numeric_limits<int32_t>::min(), "saturates low");
    VF_COVER("low");
  } else {
    const double e = v - static_cast<double>(r);
    VF_ASSERT(e > -1.0 && e < 1.0, "within one");
    VF_COVER_IF(e != 0, "inexact");
  }
}

// ---------------------------------------------------------------- C24
// @prop C24
// @desc LittleEndianBytesToInt32: ok iff 1..4 bytes; left-justified value; frame
VF_HARNESS(le_bytes) {
  uint8_t b[6];
  for (auto& x : b) x = vf::u8();
  const size_t n = vf::range<size_t>(0, 6);
  const int32_t before = vf::i32();
  int32_t out = before;
  const bool ok = LittleEndianBytesToInt32(absl::MakeConstSpan(b, n), out).ok();
  VF_ASSERT(ok == (n >= 1 && n <= 4), "ok iff 1..4 bytes");
  if (!ok) {
    VF_ASSERT(out == before, "output untouched on failure");
    VF_COVER("rejected");
    return;
  }
  uint32_t e = 0;
  for (size_t i = 0; i < n; i++) e |= static_cast<uint32_t>(b[i]) << (8 * (4 - n + i));
  VF_ASSERT(static_cast<uint32_t>(out) == e, "left-justified little-endian value");
  VF_COVER_IF(n == 1, "one byte");
  VF_COVER_IF(n == 4, "four bytes");
}
// @prop C24
// @desc BigEndianBytesToInt32: ok iff 1..4 bytes; left-justified value; frame
VF_HARNESS(be_bytes) {
  uint8_t b[6];
  for (auto& x : b) x = vf::u8();
  const size_t n = vf::range<size_t>(0, 6);
  const int32_t before = vf::i32();
  int32_t out = before;
  const bool ok = BigEndianBytesToInt32(absl::MakeConstSpan(b, n), out).ok();
  VF_ASSERT(ok == (n >= 1 && n <= 4), "ok iff 1..4 bytes");
  if (!ok) {
    VF_ASSERT(out == before, "output untouched on failure");
    VF_COVER("rejected");
    return;
  }
  uint32_t e = 0;
  for (size_t i = 0; i < n; i++) e |= static_cast<uint32_t>(b[i]) << (24 - 8 * i);
  VF_ASSERT(static_cast<uint32_t>(out) == e, "left-justified big-endian value");
  VF_COVER_IF(n == 1, "one byte");
  VF_COVER_IF(n == 4, "four bytes");
}
// @prop C24
// @desc any span length at all (0..2^32) other than 1..4 is rejected before a byte is read
VF_HARNESS(le_bytes_any_length) {
  uint8_t b[4];
  for (auto& x : b) x = vf::u8();
  const size_t n = vf::u64();
  VF_ASSUME((n == 0 || n > 4) && n < (1ull << 40));
  const int32_t before = vf::i32();
  int32_t out = before;
  VF_ASSERT(!LittleEndianBytesToInt32(absl::Span<const uint8_t>(b, n), out).ok(), "rejected");
  VF_ASSERT(out == before, "output untouched on failure");
  VF_COVER("end");
}

// ---------------------------------------------------------------- C25
// @prop C25
// @desc AddUint32CheckOverflow: ok iff the mathematical sum fits; exact; frame
VF_HARNESS(add_u32) {
  const uint32_t a = vf::u32(), b = vf::u32(), before = vf::u32();
  uint32_t r = before;
  const bool ok = AddUint32CheckOverflow(a, b, r).ok();
  const uint64_t sum = static_cast<uint64_t>(a) + b;
  VF_ASSERT(ok == (sum <= 0xffffffffull), "ok iff sum fits");
  VF_ASSERT(r == (ok ? static_cast<uint32_t>(sum) : before), "exact sum, untouched on overflow");
  VF_COVER_IF(ok, "fits");
  VF_COVER_IF(!ok, "overflow");
}
template <class I, class O> static void CastContract(I in) {
  O out{};
  const O before = out;
  const bool ok = StaticCastIfInRange<I, O>("f", in, out).ok();
  const __int128 wide = in;
  const bool fits = wide >= static_cast<__int128>(std::numeric_limits<O>::min()) && wide <= static_cast<__int128>(std::numeric_limits<O>::max());
  VF_ASSERT(ok == fits, "ok iff representable");
  if (ok) VF_ASSERT(static_cast<__int128>(out) == wide, "value kept");
  else VF_ASSERT(out == before, "output untouched on failure");
  VF_COVER_IF(ok, "ok");
  constexpr bool always = static_cast<__int128>(std::numeric_limits<I>::min()) >= static_cast<__int128>(std::numeric_limits<O>::min()) && static_cast<__int128>(std::numeric_limits<I>::max()) <= static_cast<__int128>(std::numeric_limits<O>::max());
  if constexpr (!always) VF_COVER_IF(!ok, "rejected");
}
template <class In> void CastAll(In x) {
  CastContract<In, int8_t>(x); CastContract<In, uint8_t>(x); CastContract<In, int16_t>(x); CastContract<In, uint16_t>(x);
  CastContract<In, int32_t>(x); CastContract<In, uint32_t>(x); CastContract<In, int64_t>(x); CastContract<In, uint64_t>(x);
}
// @prop C25
// @desc StaticCastIfInRange<uint32_t,uint8_t>
VF_HARNESS(cast_u32_u8) { CastContract<uint32_t, uint8_t>(vf::u32()); }
// @prop C25
// @desc StaticCastIfInRange<uint32_t,uint16_t>
VF_HARNESS(cast_u32_u16) { CastContract<uint32_t, uint16_t>(vf::u32()); }
// @prop C25
// @desc StaticCastIfInRange<int32_t,int16_t>
VF_HARNESS(cast_i32_i16) { CastContract<int32_t, int16_t>(vf::i32()); }
// @prop C25
// @desc StaticCastIfInRange<int32_t,int8_t>
VF_HARNESS(cast_i32_i8) { CastContract<int32_t, int8_t>(vf::i32()); }
// @prop C25
// @desc StaticCastIfInRange<size_t,uint8_t>
VF_HARNESS(cast_size_u8) { CastContract<size_t, uint8_t>(vf::u64()); }
// @prop C25
// @desc StaticCastIfInRange<size_t,uint32_t>
VF_HARNESS(cast_size_u32) { CastContract<size_t, uint32_t>(vf::u64()); }
// @prop C25
// @desc StaticCastIfInRange<uint32_t,bool>
VF_HARNESS(cast_u32_bool) { CastContract<uint32_t, bool>(vf::u32()); }
// @prop C25
// @desc StaticCastIfInRange between every pair of 8, 16, 32 and 64 bit integer types
// @split 0 7
VF_HARNESS(cast_all_pairs) {
  switch (vf::split(0, 7)) {
    case 0: CastAll<int8_t>(vf::i8()); break;
    case 1: CastAll<uint8_t>(vf::u8()); break;
    case 2: CastAll<int16_t>(vf::i16()); break;
    case 3: CastAll<uint16_t>(vf::u16()); break;
    case 4: CastAll<int32_t>(vf::i32()); break;
    case 5: CastAll<uint32_t>(vf::u32()); break;
    case 6: CastAll<int64_t>(vf::i64()); break;
    case 7: CastAll<uint64_t>(vf::u64()); break;
  }
}
// @prop C25
// @desc StaticCastIfInRange<char,uint8_t> keeps every byte pattern
VF_HARNESS(cast_char_u8) {
  const char c = static_cast<char>(vf::i8());
  uint8_t out = 0;
  VF_ASSERT((StaticCastIfInRange<char, uint8_t>("f", c, out).ok()), "every char accepted");
  VF_ASSERT(out == static_cast<uint8_t>(c), "same bits");
  VF_COVER_IF(out >= 0x80, "high bit");
}
// @prop C25
// @desc StaticCastSpanIfInRange<uint32_t,uint8_t>: ok iff sizes equal and every element fits; copied elementwise; nothing written on size mismatch
// @bound spans of 0..4 elements
VF_HARNESS(cast_span_u32_u8) {
  uint32_t in[4];
  uint8_t out[4], before[4];
  for (auto& x : in) x = vf::u32();
  for (int i = 0; i < 4; i++) out[i] = before[i] = vf::u8();
  const size_t n = vf::range<size_t>(0, 4), m = vf::range<size_t>(0, 4);
  const bool ok = StaticCastSpanIfInRange<uint32_t, uint8_t>("f", absl::MakeConstSpan(in, n), absl::MakeSpan(out, m)).ok();
  bool fits = n == m;
  if (n == m) for (size_t i = 0; i < n; i++) fits = fits && in[i] <= 255;
  VF_ASSERT(ok == fits, "ok iff equal sizes and all fit");
  for (size_t i = 0; i < 4; i++) {
    if (ok && i < n) VF_ASSERT(out[i] == in[i], "copied");
    if (n != m || i >= m) VF_ASSERT(out[i] == before[i], "frame");
  }
  VF_COVER_IF(ok && n == 4, "copied four");
  VF_COVER_IF(!ok && n == m, "element rejected");
}
