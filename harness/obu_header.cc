// OBU header: wire format, flags, size limits, peeking; and the framing of a
// payload inside an OBU.
// VF-SOURCES: model/io_contract.cc iamf/obu/obu_header.cc iamf/obu/obu_base.cc iamf/common/leb_generator.cc iamf/common/utils/numeric_utils.cc
#include "vf_open.h"
#include "iamf/common/leb_generator.h"
#include "iamf/obu/obu_base.h"
#include "iamf/obu/obu_header.h"
using namespace iamf_tools;
namespace {
constexpr uint32_t kTwoMb = 1u << 21;
bool Audio(int t) { return t >= 5 && t <= 23; }
bool RedundantOk(int t) { return !(Audio(t) || t == 3 || t == 4); }
bool FlagOk(int t) { return Audio(t) || t == 4 || t == 2; }
bool MinFits(uint32_t v, int n) { return n >= 5 || v < (1u << (7 * n)); }
struct H {
  int type;
  bool redundant, flag, ext;
  uint32_t obu_size, trim_end, trim_start, ext_size;
  int n_obu, n_end, n_start, n_ext;
  uint8_t e[4];
  bool trims() const { return Audio(type) && flag; }
};
H Make(int type, int flags) {
  H h;
  h.type = type;
  h.redundant = vf::boolean();
  h.flag = flags & 1;
  h.ext = flags & 2;
  return h;
}
uint32_t Sized(int& n) {
  const uint32_t v = vf::u32();
  n = vf::range<int>(1, 8);
  VF_ASSUME(MinFits(v, n));
  return v;
}
// The wire of a header; `ext_bytes` bytes of extension follow its size.
void Wire(H& h, int ext_bytes) {
  io::Bits(5, h.type);
  io::Bits(1, h.redundant);
  io::Bits(1, h.flag);
  io::Bits(1, h.ext);
  h.obu_size = io::UlebN(h.obu_size, h.n_obu);
  if (h.trims()) {
    io::UlebN(h.trim_end, h.n_end);
    io::UlebN(h.trim_start, h.n_start);
  }
  if (h.ext) {
    io::UlebN(h.ext_size, h.n_ext);
    for (int i = 0; i < ext_bytes; i++) io::Bits(8, h.e[i]);
  }
}
void Draw(H& h) {
  h.obu_size = Sized(h.n_obu);
  h.trim_end = h.trim_start = h.ext_size = 0;
  h.n_end = h.n_start = h.n_ext = 0;
  if (h.trims()) {
    h.trim_end = Sized(h.n_end);
    h.trim_start = Sized(h.n_start);
  }
  if (h.ext) h.ext_size = Sized(h.n_ext);
  for (int i = 0; i < 4; i++) h.e[i] = vf::u8();
}
int64_t Payload(const H& h) {
  return static_cast<int64_t>(h.obu_size) - h.n_end - h.n_start - h.n_ext - static_cast<int64_t>(h.ext_size);
}
bool UnderTwoMb(const H& h) { return static_cast<int64_t>(h.obu_size) + h.n_obu + 1 <= kTwoMb; }
bool FlagsOk(const H& h) { return !(h.redundant && !RedundantOk(h.type)) && !(h.flag && !FlagOk(h.type)); }
void CheckFields(const ObuHeader& o, const H& h) {
  VF_ASSERT(o.obu_type == h.type && o.obu_redundant_copy == h.redundant && o.type_specific_flag == h.flag, "type and flags kept");
  VF_ASSERT(o.num_samples_to_trim_at_end == h.trim_end && o.num_samples_to_trim_at_start == h.trim_start, "trimming kept in its two fields");
  VF_ASSERT(o.GetExtensionHeaderFlag() == h.ext && o.extension_header_bytes.has_value() == h.ext, "extension presence");
  VF_ASSERT(o.GetObuTrimmingStatusFlag() == h.trims(), "trimming flag only for audio frames");
  VF_ASSERT(o.GetOptionalFieldsFlag() == (h.type == 2 && h.flag), "optional fields flag only for mix presentations");
  VF_ASSERT(o.GetIsKeyFrame() == (h.type == 4 && !h.flag), "key frame only for temporal delimiters");
}
}  // namespace
// @prop C07 C08
// @desc header read, every type and flag combination, no extension: accepted iff the flags are legal for the type, the OBU is at most 2 MB and the payload size is not negative; fields and payload size exact
// @split 0 63
VF_HARNESS(header_read) {
  const uint32_t k = vf::split(0, 63);
  H h = Make(k / 2, k % 2);
  Draw(h);
  Wire(h, 0);
  io::Reader rb;
  ObuHeader o;
  int64_t payload = vf::i64();
  const bool ok = o.ReadAndValidate(rb, payload).ok();
  VF_ASSERT(ok == (UnderTwoMb(h) && Payload(h) >= 0 && FlagsOk(h)), "accepted iff legal");
  if (ok) {
    VF_ASSERT(payload == Payload(h), "payload size is obu_size less the other fields it counts");
    CheckFields(o, h);
    VF_ASSERT(io::AllRead(), "whole header consumed");
  }
  VF_COVER("end");
}
// @prop C07 C08
// @desc header read with an extension header: same, the extension bytes are kept
// @bound extension headers of 0, 1 or 3 bytes (implausible ones: header_ext_too_big)
// @split 0 32
VF_HARNESS(header_read_ext) {
  const uint32_t k = vf::split(0, 32);
  const int kind = k / 3;
  static constexpr uint8_t kTypes[] = {0, 2, 2, 3, 4, 4, 5, 5, 14, 23, 31}, kFlags[] = {0, 0, 1, 0, 0, 1, 0, 1, 1, 1, 0}, kSizes[] = {0, 1, 3};
  H h = Make(kTypes[kind], kFlags[kind] | 2);
  Draw(h);
  h.ext_size = kSizes[k % 3];
  Wire(h, h.ext_size);
  VF_ASSUME(UnderTwoMb(h) && Payload(h) >= 0 && FlagsOk(h));
  vf::MustSucceed();
  io::Reader rb;
  ObuHeader o;
  int64_t payload = vf::i64();
  const bool ok = o.ReadAndValidate(rb, payload).ok();
  VF_ASSERT(ok && payload == Payload(h), "payload size is obu_size less the other fields it counts");
  CheckFields(o, h);
  VF_ASSERT(o.GetExtensionHeaderSize() == h.ext_size && o.extension_header_bytes->size() == h.ext_size, "extension size");
  for (uint32_t i = 0; i < h.ext_size; i++) VF_ASSERT((*o.extension_header_bytes)[i] == h.e[i], "extension bytes");
  VF_ASSERT(io::AllRead(), "whole header consumed");
  VF_COVER("end");
}
// @prop C08
// @desc header read with an extension header of any claimed size which obu_size cannot hold: refused
// @split 0 10
// @cbmc -DVF_FILL_MAX=7
VF_HARNESS(header_ext_too_big) {
  const uint32_t k = vf::split(0, 10);
  static constexpr uint8_t kTypes[] = {0, 2, 2, 3, 4, 4, 5, 5, 14, 23, 31}, kFlags[] = {0, 0, 1, 0, 0, 1, 0, 1, 1, 1, 0};
  H h = Make(kTypes[k], kFlags[k] | 2);
  Draw(h);
  Wire(h, 0);
  VF_ASSUME(!UnderTwoMb(h) || Payload(h) < 0);
  io::Reader rb;
  ObuHeader o;
  int64_t payload = vf::i64();
  const bool ok = o.ReadAndValidate(rb, payload).ok();
  VF_ASSERT(!ok, "refused");
  VF_ASSERT(!o.extension_header_bytes.has_value(), "nothing is allocated for an implausible extension");
  VF_COVER("end");
}
// @prop C08
// @desc peeking: type and total size (obu_size + its own size + 1, no wrap) of any header; the read position is restored
// @split 0 7
VF_HARNESS(header_peek) {
  H h = Make(vf::range<int>(0, 31), 0);
  h.flag = vf::boolean();
  h.ext = vf::boolean();
  h.n_obu = vf::split(0, 7) + 1;
  h.obu_size = vf::u32();
  VF_ASSUME(MinFits(h.obu_size, h.n_obu));
  io::Bits(5, h.type);
  io::Bits(1, h.redundant);
  io::Bits(1, h.flag);
  io::Bits(1, h.ext);
  io::UlebN(h.obu_size, h.n_obu);
  io::Bits(8);
  io::Reader rb;
  const auto m = ObuHeader::PeekObuTypeAndTotalObuSize(rb);
  VF_ASSERT(m.ok(), "peeked");
  if (!m.ok()) return;
  VF_ASSERT(m->obu_type == h.type, "type");
  VF_ASSERT(m->total_obu_size == static_cast<int64_t>(h.obu_size) + h.n_obu + 1, "total size");
  VF_ASSERT(rb.Tell() == 0, "nothing consumed");
  VF_COVER("end");
}
// @prop C08
// @desc peeking into truncated data: ResourceExhausted, position restored
// @split 0 4
VF_HARNESS(header_peek_short) {
  io::Bits(5);
  io::Bits(1);
  io::Bits(1);
  io::Bits(1);
  io::Cut(vf::split(0, 4));
  io::Reader rb;
  const auto m = ObuHeader::PeekObuTypeAndTotalObuSize(rb);
  VF_ASSERT(!m.ok() && m.status().code() == absl::StatusCode::kResourceExhausted, "not enough data reported as such");
  VF_ASSERT(rb.Tell() == 0, "nothing consumed");
  VF_COVER("end");
}
// @prop C07
// @desc a header cut anywhere is refused
// @split 0 95
VF_HARNESS(header_short) {
  const uint32_t k = vf::split(0, 95);
  const int cut = k % 12;
  H h = Make(k / 48 ? 9 : 30, (k / 12) % 4);
  Draw(h);
  h.ext_size = h.ext ? 2 : 0;
  Wire(h, h.ext_size);
  if (cut >= io::rd.n) return;
  io::Cut(cut);
  io::Reader rb;
  ObuHeader o;
  int64_t payload = vf::i64();
  VF_ASSERT(!o.ReadAndValidate(rb, payload).ok(), "refused");
  VF_COVER_IF(cut < 5, "end");
}
namespace {
struct WriteCase {
  H h;
  ObuHeader o;
  int64_t payload;
  LebGenerator* g;
  bool want;
};
// fixed 0: minimal LEB128s.
WriteCase& MakeWrite(int type, int flags, int fixed, int ext) {
  io::exact_leb = true;
  auto& c = *new WriteCase;
  H& h = c.h;
  h = Make(type, flags);
  h.trim_end = vf::u32();
  h.trim_start = vf::u32();
  h.ext_size = ext;
  for (int i = 0; i < 4; i++) h.e[i] = vf::u8();
  c.payload = vf::i64();
  c.g = new LebGenerator(fixed ? LebGenerator::GenerationMode::kFixedSize : LebGenerator::GenerationMode::kMinimum, static_cast<int8_t>(fixed));
  c.o.obu_type = static_cast<ObuType>(h.type);
  c.o.obu_redundant_copy = h.redundant;
  c.o.type_specific_flag = h.flag;
  c.o.num_samples_to_trim_at_end = h.trim_end;
  c.o.num_samples_to_trim_at_start = h.trim_start;
  if (h.ext) c.o.extension_header_bytes = std::vector<uint8_t>(h.e, h.e + h.ext_size);
  bool leb_ok = true;
  const auto Size = [&](uint32_t v) {
    const int m = io::MinLeb(v);
    leb_ok = leb_ok && (!fixed || m <= fixed);
    return fixed ? fixed : m;
  };
  h.n_end = h.trims() ? Size(h.trim_end) : 0;
  h.n_start = h.trims() ? Size(h.trim_start) : 0;
  h.n_ext = h.ext ? Size(h.ext_size) : 0;
  const int64_t fields = h.n_end + h.n_start + h.n_ext + static_cast<int64_t>(h.ext_size);
  const bool fits = c.payload >= 0 && c.payload <= 0xffffffffll - fields;
  h.obu_size = static_cast<uint32_t>(static_cast<uint64_t>(c.payload) + static_cast<uint64_t>(fields));
  h.n_obu = Size(h.obu_size);
  c.want = fits && leb_ok && UnderTwoMb(h) && FlagsOk(h);
  return c;
}
void CheckAccept(WriteCase& c) {
  io::sizes_only = true;
  WriteBitBuffer wb(64, *c.g);
  const bool ok = c.o.ValidateAndWrite(c.payload, wb).ok();
  VF_ASSERT(ok == c.want, "written iff legal");
  VF_COVER_IF(!ok, "refused");
  VF_COVER_IF(ok, "written");
}
void CheckWire(WriteCase& c) {
  VF_ASSUME(c.want);
  vf::MustSucceed();
  WriteBitBuffer wb(64, *c.g);
  const bool ok = c.o.ValidateAndWrite(c.payload, wb).ok();
  VF_ASSERT(ok, "written");
  Wire(c.h, c.h.ext_size);
  io::Written("the header on the wire is the specified one");
  VF_COVER("end");
}
constexpr uint8_t kWTypes[] = {0, 1, 2, 2, 3, 4, 4, 5, 5, 6, 6, 14, 23, 23, 24, 28, 31}, kWFlags[] = {0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 1, 1, 0, 1, 0, 0, 0};
}  // namespace
// @prop C07 C08
// @desc header write, minimal LEB128s, every type and flag, every payload size: written iff the flags are legal and the OBU is at most 2 MB
// @bound no extension header
// @split 0 63
// @allowvacuous
VF_HARNESS(header_write_accept) {
  const uint32_t k = vf::split(0, 63);
  CheckAccept(MakeWrite(k / 2, k % 2, 0, 0));
}
// @prop C07 C08
// @desc header write with fixed-size LEB128s of 1..8 bytes: written iff additionally every value fits
// @bound extension header of 0 or 2 bytes; types 5 and 27
// @split 0 31
VF_HARNESS(header_write_fixed_accept) {
  const uint32_t k = vf::split(0, 31);
  const int f = k / 8;  // plain, trimming, extension, both
  CheckAccept(MakeWrite(f & 1 ? 5 : 27, f, k % 8 + 1, f >= 2 ? 2 : 0));
}
// @prop C07
// @desc legal header write: obu_size counts exactly trimming, extension and payload; the wire is the specified one
// @bound extension header absent or of 0 or 3 bytes; 17 type and flag combinations
// @split 0 50
VF_HARNESS(header_write) {
  const uint32_t k = vf::split(0, 50);
  const int e = k % 3;
  CheckWire(MakeWrite(kWTypes[k / 3], kWFlags[k / 3] | (e ? 2 : 0), 0, e == 2 ? 3 : 0));
}
// @prop C07
// @desc legal header write with fixed-size LEB128s: the wire is the specified one
// @bound extension header of 0 or 2 bytes; types 5 and 27
// @split 0 31
// @allowvacuous
VF_HARNESS(header_write_fixed) {
  const uint32_t k = vf::split(0, 31);
  const int f = k / 8;
  CheckWire(MakeWrite(f & 1 ? 5 : 27, f, k % 8 + 1, f >= 2 ? 2 : 0));
}
// @prop C33
// @desc temporal-unit OBU types: audio frames, parameter blocks and temporal delimiters
VF_HARNESS(temporal_unit_types) {
  for (int t = 0; t < 32; t++)
    VF_ASSERT(ObuHeader::IsTemporalUnitObuType(static_cast<ObuType>(t)) == (t >= 3 && t <= 23), "temporal unit types");
  VF_COVER("end");
}
namespace {
// An OBU whose known payload is `bits` bits.
class TestObu : public ObuBase {
 public:
  TestObu(const ObuHeader& h, int bits) : ObuBase(h, kObuIaReserved30), bits(bits) {}
  void PrintObu() const override {}
  int bits;
  uint64_t v = 0;
  int64_t seen_size = -1;
  absl::Status Read(int64_t size, ReadBitBuffer& rb) { return ReadAndValidatePayload(size, rb); }
 protected:
  absl::Status ValidateAndWritePayload(WriteBitBuffer& wb) const override { return wb.WriteUnsignedLiteral64(v, bits); }
 private:
  absl::Status ReadAndValidatePayloadDerived(int64_t size, ReadBitBuffer& rb) override {
    seen_size = size;
    return rb.ReadUnsignedLiteral(bits, v);
  }
};
}  // namespace
// @prop C09
// @desc reading a payload: what the syntax leaves unread becomes the footer, byte for byte; nothing past the payload is consumed; a syntax longer than the payload or leaving a partial byte is refused
// @bound payloads of 0..4 bytes, known syntax of 0, 1, 7, 8, 16, 20, 24, 32 or 40 bits, 5 bytes on the wire
// @split 0 44
VF_HARNESS(payload_read) {
  const uint32_t k = vf::split(0, 44);
  static constexpr uint8_t kBits[] = {0, 1, 7, 8, 16, 20, 24, 32, 40};
  const int size = k / 9, bits = kBits[k % 9];
  uint64_t all = 0;
  for (int i = 0; i < 5; i++) all = all << 8 | io::Bits(8);
  io::Reader rb;
  TestObu* o = new TestObu(ObuHeader(), bits);
  const bool ok = o->Read(size, rb).ok();
  const bool want = bits <= 8 * size && bits % 8 == 0;
  VF_ASSERT(ok == want, "accepted iff the syntax fits into the payload in whole bytes");
  if (!ok) return;
  VF_ASSERT(o->seen_size == size, "the syntax is told the payload size");
  VF_ASSERT(rb.Tell() == 8 * size, "exactly the payload is consumed");
  VF_ASSERT(o->v == (bits ? all >> (40 - bits) : 0), "known syntax");
  VF_ASSERT(static_cast<int>(o->footer_.size()) == size - bits / 8, "footer size");
  if (static_cast<int>(o->footer_.size()) != size - bits / 8) return;
  for (int i = bits / 8; i < size; i++) VF_ASSERT(o->footer_[i - bits / 8] == static_cast<uint8_t>(all >> (32 - 8 * i)), "footer bytes in order");
  VF_COVER("end");
}
// @prop C09
// @desc a payload cut short on the wire is refused
// @bound payloads of 1..4 bytes
// @split 0 15
VF_HARNESS(payload_short) {
  const uint32_t k = vf::split(0, 15);
  const int size = k / 4 + 1, have = k % 4;
  if (have >= size) return;
  for (int i = 0; i < have; i++) io::Bits(8);
  io::Reader rb;
  TestObu* o = new TestObu(ObuHeader(), 8);
  VF_ASSERT(!o->Read(size, rb).ok(), "refused");
  VF_COVER_IF(size > have, "end");
}
// @prop C09
// @desc writing an OBU: header with obu_size = payload + footer, payload, footer; a payload which is not whole bytes is refused
// @bound payload of 0, 1, 8, 13, 24 or 64 bits, footer of 0..2 bytes
// @split 0 17
VF_HARNESS(obu_write) {
  const uint32_t k = vf::split(0, 17);
  static constexpr uint8_t kBits[] = {0, 1, 8, 13, 24, 64};
  const int foot = k / 6, bits = kBits[k % 6];
  ObuHeader h;
  h.obu_redundant_copy = vf::boolean();
  TestObu* o = new TestObu(h, bits);
  o->v = bits % 8 ? 1 : bits ? io::Mask(bits, vf::u64()) : 0;
  vf::MustSucceed(bits % 8 == 0);
  uint8_t f[3];
  for (int i = 0; i < foot; i++) {
    f[i] = vf::u8();
    o->footer_.push_back(f[i]);
  }
  WriteBitBuffer wb(64);
  const bool ok = static_cast<const ObuBase*>(o)->ValidateAndWriteObu(wb).ok();
  VF_ASSERT(ok == (bits % 8 == 0), "written iff the payload is whole bytes");
  if (!ok) return;
  io::Bits(5, 30);
  io::Bits(1, h.obu_redundant_copy);
  io::Bits(2, 0);
  io::Uleb(bits / 8 + foot);
  if (bits) io::Bits(bits, o->v);
  for (int i = 0; i < foot; i++) io::Bits(8, f[i]);
  io::Written("header, payload, footer");
  VF_COVER("end");
}
