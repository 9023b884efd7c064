// Contracts of WriteBitBuffer (real code, real std::vector).
// VF-ATTR: fs 64
// VF-ATTR: cbmc -DVF_MEM_VLA
// VF-SOURCES: iamf/common/write_bit_buffer.cc iamf/common/leb_generator.cc
#include "vf.h"
#include <memory>
#include <string>
#include "iamf/common/leb_generator.h"
#include "iamf/common/write_bit_buffer.h"
using namespace iamf_tools;
namespace {
// A writer holding `bits` already written bits of value `v`.
struct Pre {
  WriteBitBuffer wb;
  int bits;
  uint64_t v;
  explicit Pre(int n, int64_t cap = 24) : wb(cap), bits(n), v(vf::u64()) {
    v &= (1ull << n) - 1;
    VF_ASSERT(wb.WriteUnsignedLiteral64(v, n).ok(), "prefix written");
    Check(0, 0);
  }
  // The buffer holds exactly the prefix, then n bits of value d, then zero padding.
  void Check(int n, uint64_t d) {
    const int total = bits + n;
    VF_ASSERT(wb.bit_offset() == total, "bit offset");
    VF_ASSERT(wb.IsByteAligned() == (total % 8 == 0), "alignment query");
    const auto& b = wb.bit_buffer();
    VF_ASSERT(b.size() == static_cast<size_t>((total + 7) / 8), "buffer holds exactly the written bits");
    if (b.size() > 12) return;
    unsigned __int128 want = v;
    want = n >= 64 ? (want << 32 << 32) | d : (want << n) | d;
    want <<= (8 - total % 8) % 8;
    const int size = static_cast<int>(b.size());
    for (int i = 0; i < 12; i++)
      if (i < size) VF_ASSERT(b[i] == static_cast<uint8_t>(want >> (8 * (size - 1 - i))), "written bits, MSB first, earlier bits kept");
  }
};
}  // namespace
// @prop C02
// @desc growing the buffer: an n-bit write into a full buffer keeps the earlier bits
// @bound 7 bits already written, n in {1, 2, 9, 17}
// @split 0 3
VF_HARNESS(write_grow) {
  const uint32_t k = vf::split(0, 3);
  Pre p(7, 0);
  const int n = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 9 : 17;
  const uint32_t d = vf::u32() & ((1u << n) - 1);
  VF_ASSERT(p.wb.WriteUnsignedLiteral(d, n).ok(), "written");
  p.Check(n, d);
  VF_COVER("end");
}
// @prop C02
// @desc WriteUnsignedLiteral(data,n): ok iff n==0 or (0<n<=32 and data<2^n); appends exactly the n bits MSB first, keeps earlier bits; on failure nothing changes
// @bound 0..15 bits already written
// @split 0 15
// @cost 30
VF_HARNESS(write_u32) {
  Pre p(vf::split(0, 15));
  const uint32_t d = vf::u32();
  const int n = vf::i32();
  const bool ok = p.wb.WriteUnsignedLiteral(d, n).ok();
  VF_ASSERT(ok == (n == 0 || (n > 0 && n <= 32 && (n == 32 || (d >> n) == 0))), "ok iff the value fits in n<=32 bits");
  if (ok) p.Check(n, n == 0 ? 0 : d);
  else p.Check(0, 0);
  VF_COVER_IF(ok && n == 32, "32 bits");
  VF_COVER_IF(!ok && n == 5, "too big");
  VF_COVER_IF(!ok && n == 33, "too wide");
  VF_COVER_IF(!ok && n < 0, "negative");
}
// @prop C02
// @desc WriteUnsignedLiteral64(data,n): same with n<=64
// @bound 0..15 bits already written
// @split 0 15
// @cost 60
VF_HARNESS(write_u64) {
  Pre p(vf::split(0, 15));
  const uint64_t d = vf::u64();
  const int n = vf::i32();
  const bool ok = p.wb.WriteUnsignedLiteral64(d, n).ok();
  VF_ASSERT(ok == (n == 0 || (n > 0 && n <= 64 && (n == 64 || (d >> n) == 0))), "ok iff the value fits in n<=64 bits");
  if (ok) p.Check(n, n == 0 ? 0 : d);
  else p.Check(0, 0);
  VF_COVER_IF(ok && n == 64, "64 bits");
  VF_COVER_IF(!ok && n == 63, "too big");
}
// @prop C03
// @desc WriteSigned16/9/8 and WriteBoolean: two's complement in exactly 16/9/8/1 bits; WriteSigned9 ok iff value in [-256,255]; frame on failure
// @bound 0..7 bits already written
// @split 0 31
VF_HARNESS(write_signed) {
  const uint32_t k = vf::split(0, 31);
  Pre p(k % 8);
  const int16_t d = vf::i16();
  const uint32_t raw = static_cast<uint16_t>(d);
  switch (k / 8) {
    case 0: VF_ASSERT(p.wb.WriteSigned16(d).ok(), "always ok"); p.Check(16, raw); VF_COVER_IF(d < 0, "negative 16"); break;
    case 1: {
      const bool ok = p.wb.WriteSigned9(d).ok();
      VF_ASSERT(ok == (d >= -256 && d <= 255), "ok iff representable in 9 bits");
      if (ok) p.Check(9, raw & 0x1ff);
      else p.Check(0, 0);
      VF_COVER_IF(d == -256, "minimum");
      VF_COVER_IF(d == 256, "too large");
      break;
    }
    case 2: VF_ASSERT(p.wb.WriteSigned8(static_cast<int8_t>(d)).ok(), "always ok"); p.Check(8, raw & 0xff); VF_COVER_IF((d & 0x80) != 0, "negative 8"); break;
    default: VF_ASSERT(p.wb.WriteBoolean((d & 1) != 0).ok(), "always ok"); p.Check(1, raw & 1); VF_COVER("bool"); break;
  }
}
// @prop C03
// @desc WriteUint8Span: appends the bytes at any bit offset, with and without reallocation
// @bound spans of 0..2 bytes, 0..7 bits already written
// @split 0 47
// @cost 30
VF_HARNESS(write_span) {
  const uint32_t kk = vf::split(0, 47), k = kk % 24;
  Pre p(k % 8, kk < 24 ? 24 : 0);
  uint8_t b[4];
  for (auto& x : b) x = vf::u8();
  const int n = k / 8;
  VF_ASSERT(p.wb.WriteUint8Span(absl::MakeConstSpan(b, n)).ok(), "always ok");
  uint64_t d = 0;
  for (int i = 0; i < n; i++) d = d << 8 | b[i];
  p.Check(8 * n, d);
  VF_COVER("end");
}
// @prop C03
// @desc WriteString: bytes then a NUL; refused, writing nothing, when it contains a NUL
// @bound strings of 0..3 bytes, 0/3 bits already written
// @split 0 7
// @inline 100000
VF_HARNESS(write_string) {
  const uint32_t k = vf::split(0, 7);
  Pre p(k % 2 ? 3 : 0);
  const int n = k / 2;
  char c[4] = {0, 0, 0, 0};
  bool nul = false;
  uint64_t d = 0;
  for (int i = 0; i < n; i++) {
    c[i] = static_cast<char>(vf::u8());
    nul = nul || c[i] == 0;
    d = d << 8 | static_cast<uint8_t>(c[i]);
  }
  const std::string s(c, n);
  const bool ok = p.wb.WriteString(s).ok();
  VF_ASSERT(ok == !nul, "ok iff no embedded NUL");
  if (ok) { p.Check(8 * n + 8, d << 8); VF_COVER("written"); }
  else { p.Check(0, 0); VF_COVER("refused"); }
}
// @prop C03
// @desc WriteString: strings over 127 bytes are refused and nothing is written; 127 bytes are accepted
// @bound 0..16 bits of prefix, lengths 126..129 of a fixed character
// @split 126 129
// @unwind 131
// @cost 20
// @inline 100000
VF_HARNESS(write_string_limit) {
  const int n = vf::split(126, 129);
  const std::string s(static_cast<size_t>(n), 'a');
  WriteBitBuffer wb(200);
  const bool ok = wb.WriteString(s).ok();
  VF_ASSERT(ok == (n <= 127), "ok iff at most 127 bytes");
  VF_ASSERT(wb.bit_offset() == (ok ? 8 * n + 8 : 0), "size written");
  VF_COVER("end");
}
// @prop C05
// @desc WriteIso14496_1Expanded: shortest big-endian base-128 encoding of any uint32
// @bound byte-aligned start (write_span covers byte runs after every bit prefix)
// @inline 100000
VF_HARNESS(write_iso) {
  Pre p(0);
  const uint32_t d = vf::u32();
  VF_ASSERT(p.wb.WriteIso14496_1Expanded(d).ok(), "always ok");
  int k = 1;
  for (int i = 1; i < 5; i++) if ((static_cast<uint64_t>(d) >> (7 * i)) != 0) k = i + 1;
  uint64_t want = 0;
  for (int i = 4; i >= 0; i--) if (i < k) want = want << 8 | ((d >> (7 * i)) & 0x7f) | (i > 0 ? 0x80 : 0);
  p.Check(8 * k, want);
  VF_COVER_IF(k == 5, "five bytes");
  VF_COVER_IF(k == 1, "one byte");
}
// @prop C04
// @desc WriteUleb128 with the minimal generator: shortest little-endian base-128 encoding of any uint32
// @bound byte-aligned start (write_span covers byte runs after every bit prefix)
// @inline 100000
VF_HARNESS(write_uleb_min) {
  Pre p(0);
  const uint32_t d = vf::u32();
  VF_ASSERT(p.wb.WriteUleb128(d).ok(), "always ok");
  int k = 1;
  for (int i = 1; i < 5; i++) if ((static_cast<uint64_t>(d) >> (7 * i)) != 0) k = i + 1;
  uint64_t want = 0;
  for (int i = 0; i < 5; i++) if (i < k) want = want << 8 | ((static_cast<uint64_t>(d) >> (7 * i)) & 0x7f) | (i < k - 1 ? 0x80 : 0);
  p.Check(8 * k, want);
  VF_COVER_IF(k == 5, "five bytes");
  VF_COVER_IF(k == 1, "one byte");
}
// @prop C04
// @desc LebGenerator::Uleb128ToUint8Vector in minimum mode: output is the unique shortest encoding, decodes to the value
VF_HARNESS(leb_minimum) {
  auto g = LebGenerator::Create(LebGenerator::GenerationMode::kMinimum, vf::i8());
  VF_ASSERT(g != nullptr, "created");
  const uint32_t d = vf::u32();
  std::vector<uint8_t> b;
  VF_ASSERT(g->Uleb128ToUint8Vector(d, b).ok(), "always ok");
  const size_t k = b.size();
  VF_ASSERT(k >= 1 && k <= 5, "1..5 bytes");
  uint64_t v = 0;
  for (size_t i = 0; i < 5; i++) if (i < k) {
    v |= static_cast<uint64_t>(b[i] & 0x7f) << (7 * i);
    VF_ASSERT(((b[i] & 0x80) != 0) == (i + 1 < k), "continuation bits");
  }
  VF_ASSERT(v == d, "decodes to the value");
  VF_ASSERT(k == 1 || (b[k - 1] & 0x7f) != 0, "no shorter encoding exists");
  VF_COVER_IF(k == 5, "five");
}
// @prop C04
// @desc LebGenerator in fixed mode: creation ok iff size in 1..8; encoding has exactly that many bytes and decodes to the value; refused iff the value needs more
// @split 0 7
VF_HARNESS(leb_fixed) {
  const int8_t size = static_cast<int8_t>(1 + vf::split(0, 7));
  auto g = LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, size);
  VF_ASSERT(g != nullptr, "created");
  const uint32_t d = vf::u32();
  std::vector<uint8_t> b;
  const bool ok = g->Uleb128ToUint8Vector(d, b).ok();
  VF_ASSERT(ok == (size >= 5 || (static_cast<uint64_t>(d) >> (7 * size)) == 0), "ok iff the value fits");
  if (!ok) { VF_COVER("refused"); return; }
  VF_ASSERT(b.size() == static_cast<size_t>(size), "exactly the fixed size");
  uint64_t v = 0;
  for (size_t i = 0; i < 8; i++) if (i < b.size()) {
    v |= static_cast<uint64_t>(b[i] & 0x7f) << (7 * i);
    VF_ASSERT(((b[i] & 0x80) != 0) == (i + 1 < b.size()), "continuation bits");
  }
  VF_ASSERT(v == d, "decodes to the value");
  VF_COVER("encoded");
}
// @prop C04
// @desc LebGenerator::Create in fixed mode fails outside 1..8
VF_HARNESS(leb_create) {
  const int8_t size = vf::i8();
  auto g = LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, size);
  VF_ASSERT((g != nullptr) == (size >= 1 && size <= 8), "created iff 1..8");
  VF_COVER_IF(size == 9, "nine");
  VF_COVER_IF(size == 8, "eight");
}
