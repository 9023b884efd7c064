// Contracts of the composite readers (signed, bool, span, string, ULEB128,
// ISO 14496-1 expanded), checked against the contract of ReadUnsignedLiteral
// instead of its body: they hold for any source length, position and capacity.
// VF-SOURCES: iamf/common/read_bit_buffer.cc
// VF-OVERRIDE: model/rb_literal_contract.cc
// VF-DEFS: -DVF_TAPE_MAX=130
#include "vf.h"
#include <string>
#include "tape.h"
#include "iamf/common/read_bit_buffer.h"
using namespace iamf_tools;
namespace {
struct Rb : public ReadBitBuffer {
  Rb() : ReadBitBuffer(0, 0) {
    vf_tape::rd.total = vf::range<int64_t>(0, 1ll << 60);
    vf_tape::rd.pos = vf::range<int64_t>(0, 1ll << 60);
    VF_ASSUME(vf_tape::rd.pos <= vf_tape::rd.total);
    start = vf_tape::rd.pos;
    left = vf_tape::rd.total - start;
  }
  absl::Status LoadBytesToBuffer(int64_t, int64_t) override { return absl::InternalError(""); }
  int64_t start, left;
};
uint64_t TapeVal(int i) { return vf_tape::rd.t[i].v; }
int64_t Used(const Rb& r) { return vf_tape::rd.pos - r.start; }
}  // namespace
// @prop C03
// @desc ReadSigned8: two's complement of the next 8 bits; fails iff fewer remain; frame
VF_HARNESS(signed8) {
  Rb r;
  const int8_t before = vf::i8();
  int8_t o = before;
  const bool ok = r.ReadSigned8(o).ok();
  VF_ASSERT(ok == (r.left >= 8), "ok iff 8 bits remain");
  if (!ok) { VF_ASSERT(o == before && Used(r) == 0, "frame"); VF_COVER("rejected"); return; }
  const int v = static_cast<int>(TapeVal(0));
  VF_ASSERT(vf_tape::rd.n == 1 && Used(r) == 8, "consumes exactly 8 bits");
  VF_ASSERT(o == (v >= 128 ? v - 256 : v), "two's complement");
  VF_COVER_IF(o < 0, "negative");
}
// @prop C03
// @desc ReadSigned9: two's complement of the next 9 bits; fails iff fewer remain; frame
VF_HARNESS(signed9) {
  Rb r;
  const int16_t before = vf::i16();
  int16_t o = before;
  const bool ok = r.ReadSigned9(o).ok();
  VF_ASSERT(ok == (r.left >= 9), "ok iff 9 bits remain");
  if (!ok) { VF_ASSERT(o == before && Used(r) == 0, "frame"); VF_COVER("rejected"); return; }
  const int v = static_cast<int>(TapeVal(0));
  VF_ASSERT(vf_tape::rd.n == 1 && Used(r) == 9, "consumes exactly 9 bits");
  VF_ASSERT(o == (v >= 256 ? v - 512 : v), "two's complement");
  VF_COVER_IF(o == -256, "minimum");
  VF_COVER_IF(o == 255, "maximum");
}
// @prop C03
// @desc ReadSigned16: two's complement of the next 16 bits; fails iff fewer remain; frame
VF_HARNESS(signed16) {
  Rb r;
  const int16_t before = vf::i16();
  int16_t o = before;
  const bool ok = r.ReadSigned16(o).ok();
  VF_ASSERT(ok == (r.left >= 16), "ok iff 16 bits remain");
  if (!ok) { VF_ASSERT(o == before && Used(r) == 0, "frame"); VF_COVER("rejected"); return; }
  const int v = static_cast<int>(TapeVal(0));
  VF_ASSERT(vf_tape::rd.n == 1 && Used(r) == 16, "consumes exactly 16 bits");
  VF_ASSERT(o == (v >= 32768 ? v - 65536 : v), "two's complement");
  VF_COVER_IF(o < 0, "negative");
}
// @prop C03
// @desc ReadBoolean: the next bit; frame
VF_HARNESS(boolean) {
  Rb r;
  const bool before = vf::boolean();
  bool o = before;
  const bool ok = r.ReadBoolean(o).ok();
  VF_ASSERT(ok == (r.left >= 1), "ok iff a bit remains");
  if (!ok) { VF_ASSERT(o == before && Used(r) == 0, "frame"); VF_COVER("rejected"); return; }
  VF_ASSERT(vf_tape::rd.n == 1 && Used(r) == 1, "consumes exactly one bit");
  VF_ASSERT(o == (TapeVal(0) == 1), "value");
  VF_COVER("read");
}
// @prop C03
// @desc ReadUint8Span: fills the span with the next bytes, in order; writes nothing beyond it
// @bound spans of 0..16 bytes
// @split 0 16
VF_HARNESS(byte_span) {
  Rb r;
  uint8_t out[17];
  for (auto& x : out) x = 0xa5;
  const size_t n = vf::split(0, 16);
  const bool ok = r.ReadUint8Span(absl::MakeSpan(out, n)).ok();
  VF_ASSERT(ok == (r.left >= 8 * static_cast<int64_t>(n)), "ok iff the bytes exist");
  if (ok) {
    VF_ASSERT(Used(r) == 8 * static_cast<int64_t>(n), "consumes exactly the bytes");
    for (int i = 0; i < 16; i++) if (static_cast<size_t>(i) < n) VF_ASSERT(out[i] == TapeVal(i), "byte");
    VF_COVER_IF(n == 16, "sixteen");
  } else VF_COVER("rejected");
  for (int i = 0; i < 17; i++) if (static_cast<size_t>(i) >= n) VF_ASSERT(out[i] == 0xa5, "frame");
}
// @prop C03
// @desc ReadString: the bytes before the first NUL; consumes the NUL; fails when the source ends first
// @bound strings of at most 20 bytes
// @cost 50
VF_HARNESS(string) {
  Rb r;
  VF_ASSUME(r.left < 8 * 21);
  std::string out = "zz";
  const bool ok = r.ReadString(out).ok();
  const int k = vf_tape::rd.n;
  VF_ASSERT(Used(r) == 8 * static_cast<int64_t>(k), "reads whole bytes");
  int zero = -1;
  for (int i = 20; i >= 0; i--) if (i < k && TapeVal(i) == 0) zero = i;
  if (ok) {
    VF_ASSERT(k >= 1 && zero == k - 1, "stops right after the first NUL");
    VF_ASSERT(out.size() == static_cast<size_t>(k - 1), "length");
    const int i = vf::range<int>(0, 20);
    if (i < k - 1) VF_ASSERT(static_cast<uint8_t>(out[i]) == TapeVal(i), "bytes");
    VF_COVER_IF(k == 19, "heap string");
    VF_COVER_IF(k == 1, "empty string");
  } else {
    VF_ASSERT(zero == -1 && r.left < 8 * static_cast<int64_t>(k + 1), "fails only without a terminator");
    VF_COVER_IF(k == 3, "truncated");
  }
}
// @prop C04
// @desc ReadULeb128: little-endian base-128; accepts <=8 bytes decoding below 2^32, rejects longer, larger or truncated; reports the encoded size; consumes exactly it
VF_HARNESS(uleb) {
  Rb r;
  uint32_t out = vf::u32();
  int8_t size = vf::i8();
  const bool with_size = vf::boolean();
  const bool ok = (with_size ? r.ReadULeb128(out, size) : r.ReadULeb128(out)).ok();
  const int k = vf_tape::rd.n;
  VF_ASSERT(k <= 8 && Used(r) == 8 * k, "reads at most 8 bytes");
  uint64_t v = 0;
  bool early = false;
  for (int i = 0; i < 8; i++) if (i < k) {
    v |= (TapeVal(i) & 0x7f) << (7 * i);
    if (i < k - 1 && TapeVal(i) < 128) early = true;
  }
  const bool last = k > 0 && TapeVal(k - 1) < 128;
  VF_ASSERT(!early, "never reads past the last byte of the value");
  if (ok) {
    VF_ASSERT(last && v <= 0xffffffffull, "accepted values are terminated and below 2^32");
    VF_ASSERT(out == v, "value");
    if (with_size) VF_ASSERT(size == k, "encoded size");
    VF_COVER_IF(k == 8, "padded to 8 bytes");
    VF_COVER_IF(v == 0xffffffffull, "maximum");
  } else {
    VF_ASSERT((k == 8 && !last) || v > 0xffffffffull || r.left < 8 * (k + 1), "rejected only when too long, too large or truncated");
    VF_COVER_IF(k == 8, "too long");
    VF_COVER_IF(k == 5 && last, "too large");
    VF_COVER_IF(k == 0, "truncated");
  }
}
// @prop C05
// @desc ReadIso14496_1Expanded: big-endian base-128; accepts <=8 bytes decoding to at most max_class_size; consumes exactly the encoding
VF_HARNESS(iso_expanded) {
  Rb r;
  uint32_t out = vf::u32();
  const uint32_t max = vf::u32();
  const bool ok = r.ReadIso14496_1Expanded(max, out).ok();
  const int k = vf_tape::rd.n;
  VF_ASSERT(k <= 8 && Used(r) == 8 * k, "reads at most 8 bytes");
  uint64_t v = 0;
  bool early = false;
  for (int i = 0; i < 8; i++) if (i < k) {
    v = v << 7 | (TapeVal(i) & 0x7f);
    if (i < k - 1 && TapeVal(i) < 128) early = true;
  }
  const bool last = k > 0 && TapeVal(k - 1) < 128;
  VF_ASSERT(!early, "never reads past the last byte of the value");
  if (ok) {
    VF_ASSERT(last && v <= max, "accepted values are terminated and within the class size");
    VF_ASSERT(out == v, "value");
    VF_COVER_IF(k == 8, "padded to 8 bytes");
    VF_COVER_IF(v == 0xffffffffull, "maximum");
  } else {
    VF_ASSERT((k == 8 && !last) || v > max || r.left < 8 * (k + 1), "rejected only when too long, too large or truncated");
    VF_COVER_IF(k == 8, "too long");
    VF_COVER_IF(k == 1 && last, "too large");
    VF_COVER_IF(k == 0, "truncated");
  }
}
