// The small OBUs: sequence header, audio frame, temporal delimiter, arbitrary, metadata.
// VF-SOURCES: model/io_contract.cc iamf/obu/ia_sequence_header.cc iamf/obu/audio_frame.cc iamf/obu/arbitrary_obu.cc iamf/obu/metadata_obu.cc iamf/obu/obu_header.cc iamf/obu/obu_base.cc iamf/common/leb_generator.cc iamf/common/utils/numeric_utils.cc
#include "vf_open.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/temporal_delimiter.h"
using namespace iamf_tools;
namespace {
constexpr uint32_t kIamf = 0x69616d66;
ObuHeader Header(int type) {
  ObuHeader h;
  h.obu_type = static_cast<ObuType>(type);
  return h;
}
bool Writes(const ObuBase& o, WriteBitBuffer& wb) { return o.ValidateAndWritePayload(wb).ok(); }
}  // namespace
// @prop C10
// @desc sequence header read: accepted iff the code is "iamf" and the primary profile is a known one; any additional profile; profiles kept; bytes after them are the footer
// @bound 0 or 2 bytes after the known fields
// @split 0 1
VF_HARNESS(seq_read) {
  const int extra = vf::split(0, 1) * 2;
  const uint32_t code = io::Bits(32);
  const uint8_t primary = io::Bits(8), additional = io::Bits(8);
  uint8_t f[2];
  for (int i = 0; i < extra; i++) f[i] = io::Bits(8);
  io::Reader rb;
  auto* o = new absl::StatusOr<IASequenceHeaderObu>(IASequenceHeaderObu::CreateFromBuffer(Header(31), 6 + extra, rb));
  VF_ASSERT(o->ok() == (code == kIamf && primary <= 5), "accepted iff legal");
  if (!o->ok()) return;
  VF_ASSERT(static_cast<uint8_t>((*o)->GetPrimaryProfile()) == primary && static_cast<uint8_t>((*o)->GetAdditionalProfile()) == additional, "each profile kept");
  VF_ASSERT((*o)->header_.obu_type == kObuIaSequenceHeader, "type");
  VF_ASSERT(static_cast<int>((*o)->footer_.size()) == extra, "footer size");
  VF_COVER("accepted");
}
// @prop C10
// @desc sequence header cut short or with too small a claimed size: refused
// @split 0 5
VF_HARNESS(seq_short) {
  const int k = vf::split(0, 5);
  io::Bits(32, kIamf);
  io::Bits(8, 0);
  io::Bits(8, 0);
  if (k < 3) io::Cut(k);
  io::Reader rb;
  auto* o = new absl::StatusOr<IASequenceHeaderObu>(IASequenceHeaderObu::CreateFromBuffer(Header(31), k < 3 ? 6 : k, rb));
  VF_ASSERT(!o->ok(), "refused");
  VF_COVER("end");
}
// @prop C10
// @desc sequence header write: written iff the primary profile is a known one, as "iamf", primary, additional
VF_HARNESS(seq_write) {
  const uint8_t primary = vf::u8(), additional = vf::u8();
  auto* o = new IASequenceHeaderObu(Header(31), static_cast<ProfileVersion>(primary), static_cast<ProfileVersion>(additional));
  WriteBitBuffer wb(64);
  const bool ok = Writes(*o, wb);
  VF_ASSERT(ok == (primary <= 5) && o->Validate().ok() == (primary <= 5), "written iff legal");
  VF_COVER_IF(!ok, "refused");
  if (!ok) return;
  io::Bits(32, kIamf);
  io::Bits(8, primary);
  io::Bits(8, additional);
  io::Written("the payload is the specified one");
  VF_COVER("written");
}
// @prop C18
// @desc audio frame read: substream id from the payload (type 5) or from the type; all remaining payload bytes are the frame, in order; write reproduces the payload
// @bound frames of 2 bytes; 0..3 bytes for type 5
// @split 0 21
VF_HARNESS(frame_read) {
  const uint32_t k = vf::split(0, 21);
  const int type = k < 19 ? 5 + k : 5, n = k < 19 ? 2 : k == 21 ? 3 : k - 19;
  const bool explicit_id = type == 5;
  uint32_t id = type - 6;
  if (explicit_id) id = io::Uleb();
  uint8_t d[3];
  for (int i = 0; i < n; i++) d[i] = io::Bits(8);
  ObuHeader h = Header(type);
  h.type_specific_flag = vf::boolean();
  h.num_samples_to_trim_at_end = vf::u32();
  h.num_samples_to_trim_at_start = vf::u32();
  vf::MustSucceed();
  io::Reader rb;
  auto* o = new absl::StatusOr<AudioFrameObu>(AudioFrameObu::CreateFromBuffer(h, n + explicit_id, rb));
  VF_ASSERT(o->ok() && (*o)->GetSubstreamId() == id, "substream id");
  VF_ASSERT((*o)->header_ == h, "header kept");
  VF_ASSERT(static_cast<int>((*o)->audio_frame_.size()) == n && (*o)->footer_.empty(), "the frame is everything after the id");
  for (int i = 0; i < n; i++) VF_ASSERT((*o)->audio_frame_[i] == d[i], "frame bytes in order");
  VF_ASSERT(io::AllRead(), "whole payload consumed");
  WriteBitBuffer wb(64);
  VF_ASSERT(Writes(**o, wb), "written");
  io::Written("writing reproduces the payload");
  VF_COVER("end");
}
// @prop C18
// @desc audio frame whose claimed size cannot hold the id, or which is cut short: refused
// @split 0 3
VF_HARNESS(frame_short) {
  const uint32_t k = vf::split(0, 3);
  io::UlebN(vf::u32() & 127, k == 0 ? 2 : 1);
  io::Bits(8);
  io::Reader rb;
  const int64_t size = k == 0 ? 1 : k == 1 ? 0 : 3;
  if (k == 3) io::Cut(0);
  auto* o = new absl::StatusOr<AudioFrameObu>(AudioFrameObu::CreateFromBuffer(Header(5), size, rb));
  VF_ASSERT(!o->ok(), "refused");
  VF_COVER("end");
}
// @prop C18
// @desc an audio frame made for substream id: ids 0..17 use the implicit types, every other id type 5 with the id in the payload
// @bound frame of 2 bytes
// @split 0 19
VF_HARNESS(frame_write) {
  const uint32_t k = vf::split(0, 19);
  const uint32_t id = k < 18 ? k : vf::range<uint32_t>(18, 0xffffffffu);
  const uint8_t d[2] = {vf::u8(), vf::u8()};
  vf::MustSucceed();
  auto* o = new AudioFrameObu(Header(9), id, absl::MakeConstSpan(d, k == 19 ? 0 : 2));
  VF_ASSERT(o->header_.obu_type == (k < 18 ? 6 + static_cast<int>(k) : 5), "type for the id");
  VF_ASSERT(o->GetSubstreamId() == id, "id kept");
  WriteBitBuffer wb(64);
  VF_ASSERT(Writes(*o, wb), "written");
  if (k >= 18) io::Uleb(id);
  for (int i = 0; i < (k == 19 ? 0 : 2); i++) io::Bits(8, d[i]);
  io::Written("id iff it is not implied, then the frame");
  VF_COVER("end");
}
// @prop C18
// @desc temporal delimiter: no payload of its own; bytes claimed by its size are the footer; header flag kept
// @bound 0..2 claimed bytes
// @split 0 2
VF_HARNESS(delimiter) {
  const int n = vf::split(0, 2);
  uint8_t f[2];
  for (int i = 0; i < n; i++) f[i] = io::Bits(8);
  ObuHeader h = Header(4);
  h.type_specific_flag = vf::boolean();
  vf::MustSucceed();
  io::Reader rb;
  auto* o = new absl::StatusOr<TemporalDelimiterObu>(TemporalDelimiterObu::CreateFromBuffer(h, n, rb));
  VF_ASSERT(o->ok() && (*o)->header_ == h, "header kept");
  VF_ASSERT(static_cast<int>((*o)->footer_.size()) == n, "unknown bytes kept");
  for (int i = 0; i < n; i++) VF_ASSERT((*o)->footer_[i] == f[i], "in order");
  WriteBitBuffer wb(64);
  VF_ASSERT(Writes(**o, wb), "written");
  io::Reset();
  io::Written("no payload");
  VF_COVER("end");
}
// @prop C18
// @desc arbitrary OBUs: exactly those with the asked hook are written, in list order, whole; one marked invalid makes the write fail
// @bound two OBUs of 1 and 2 bytes
// @split 0 3
VF_HARNESS(arbitrary) {
  const uint32_t k = vf::split(0, 3);
  using H = ArbitraryObu::InsertionHook;
  const H h0 = k & 1 ? H::kInsertionHookAfterCodecConfigs : H::kInsertionHookAfterDescriptors;
  const H h1 = k & 2 ? H::kInsertionHookAfterCodecConfigs : H::kInsertionHookBeforeDescriptors;
  const uint8_t a = vf::u8(), b[2] = {vf::u8(), vf::u8()};
  vf::MustSucceed();
  auto* l = new std::list<ArbitraryObu>();
  l->emplace_back(kObuIaReserved25, ObuHeader(), absl::MakeConstSpan(&a, 1), h0);
  l->emplace_back(kObuIaReserved30, ObuHeader(), absl::MakeConstSpan(b, 2), h1);
  WriteBitBuffer wb(64);
  VF_ASSERT(ArbitraryObu::WriteObusWithHook(H::kInsertionHookAfterCodecConfigs, *l, wb).ok(), "written");
  if (k & 1) { io::Bits(5, 25); io::Bits(3, 0); io::Uleb(1); io::Bits(8, a); }
  if (k & 2) { io::Bits(5, 30); io::Bits(3, 0); io::Uleb(2); io::Bits(8, b[0]); io::Bits(8, b[1]); }
  io::Written("exactly the OBUs with that hook, in order");
  VF_COVER("end");
}
// @prop C18
// @desc an arbitrary OBU is written iff it is not marked as invalidating the bitstream
VF_HARNESS(arbitrary_invalid) {
  const bool bad = vf::boolean();
  const uint8_t a = vf::u8();
  auto* o = new ArbitraryObu(kObuIaReserved25, ObuHeader(), absl::MakeConstSpan(&a, 1), ArbitraryObu::kInsertionHookAfterDescriptors, std::nullopt, bad);
  WriteBitBuffer wb(64);
  const bool ok = Writes(*o, wb);
  VF_ASSERT(ok == !bad, "refused iff it invalidates the bitstream");
  VF_COVER_IF(ok, "written");
  VF_COVER_IF(!ok, "refused");
}
namespace {
absl::StatusOr<MetadataObu>* ReadMeta(int64_t size) {
  io::Reader rb;
  return new absl::StatusOr<MetadataObu>(MetadataObu::CreateFromBuffer(Header(24), size, rb));
}
}  // namespace
// @prop C17
// @desc ITU-T T.35 metadata: country code, its extension byte iff 0xff, then every remaining byte of the payload; write reproduces it
// @bound 0..3 payload bytes
// @split 0 7
VF_HARNESS(meta_t35) {
  const uint32_t k = vf::split(0, 7);
  const bool ext = k & 4;
  const int n = k & 3;
  io::Uleb(1);
  uint8_t code = 0xff;
  if (!ext) code = vf::range<uint8_t>(0, 254);
  io::Bits(8, code);
  const uint8_t x = ext ? io::Bits(8) : 0;
  uint8_t d[3];
  for (int i = 0; i < n; i++) d[i] = io::Bits(8);
  vf::MustSucceed();
  auto* o = ReadMeta(2 + ext + n);
  VF_ASSERT(o->ok() && (*o)->GetMetadataType() == kMetadataTypeITUT_T35, "type");
  const auto& m = std::get<MetadataITUTT35>((*o)->GetMetadataVariant());
  VF_ASSERT(m.itu_t_t35_country_code == code, "country code");
  VF_ASSERT(m.itu_t_t35_country_code_extension_byte.has_value() == ext && (!ext || *m.itu_t_t35_country_code_extension_byte == x), "extension byte iff 0xff");
  VF_ASSERT(static_cast<int>(m.itu_t_t35_payload_bytes.size()) == n && (*o)->footer_.empty(), "payload size inferred");
  for (int i = 0; i < n; i++) VF_ASSERT(m.itu_t_t35_payload_bytes[i] == d[i], "payload bytes");
  WriteBitBuffer wb(64);
  VF_ASSERT(Writes(**o, wb), "written");
  io::Written("writing reproduces the payload");
  VF_COVER("end");
}
// @prop C17
// @desc ITU-T T.35 metadata whose claimed size cannot hold its fields is refused
// @split 0 4
VF_HARNESS(meta_t35_short) {
  const uint32_t k = vf::split(0, 4);  // 0..2: size with extension; 3, 4: without
  io::Uleb(1);
  uint8_t code = 0xff;
  if (k >= 3) code = vf::range<uint8_t>(0, 254);
  io::Bits(8, code);
  for (int i = 0; i < 4; i++) io::Bits(8);
  auto* o = ReadMeta(k < 3 ? k : k - 3);
  VF_ASSERT(!o->ok(), "refused");
  VF_COVER("end");
}
// @prop C17
// @desc writing ITU-T T.35 metadata with code 0xff needs the extension byte; a stray extension byte is not written
VF_HARNESS(meta_t35_write) {
  MetadataITUTT35 m;
  m.itu_t_t35_country_code = vf::u8();
  const bool has = vf::boolean();
  const uint8_t x = vf::u8();
  if (has) m.itu_t_t35_country_code_extension_byte = x;
  auto* o = new MetadataObu(MetadataObu::Create(Header(24), m));
  VF_ASSERT(o->GetMetadataType() == kMetadataTypeITUT_T35, "type follows the content");
  WriteBitBuffer wb(64);
  const bool ok = Writes(*o, wb);
  VF_ASSERT(ok == (m.itu_t_t35_country_code != 0xff || has), "refused iff the byte is missing");
  VF_ASSERT(!ok || wb.bit_offset() == (m.itu_t_t35_country_code == 0xff ? 24 : 16), "extension byte written iff 0xff");
  VF_COVER_IF(ok && has, "written");
  VF_COVER_IF(!ok, "refused");
}
// @prop C17
// @desc IAMF tags: count, then name and value of each in order; write reproduces them; following bytes are the footer
// @bound 0..3 tags, names and values of 0..2 characters
// @split 0 15
VF_HARNESS(meta_tags) {
  const uint32_t k = vf::split(0, 15);
  const int n = k % 4, len = (k / 4) % 2, extra = k / 8;
  io::Uleb(2);
  io::Bits(8, n);
  uint64_t name[3], value[3];
  for (int i = 0; i < n; i++) {
    name[i] = io::Str(len + (i == 1), vf::u64());
    value[i] = io::Str(1 + (i == 2) - (len && i == 0), vf::u64());
    for (int c = 0; c < len + (i == 1); c++) VF_ASSUME(static_cast<uint8_t>(name[i] >> (8 * c)) != 0);
    for (int c = 0; c < 1 + (i == 2) - (len && i == 0); c++) VF_ASSUME(static_cast<uint8_t>(value[i] >> (8 * c)) != 0);
  }
  const int tokens = io::rd.n;
  if (extra) io::Bits(8);
  vf::MustSucceed();
  auto* o = ReadMeta(io::Bytes());
  VF_ASSERT(o->ok() && (*o)->GetMetadataType() == kMetadataTypeIamfTags, "type");
  const auto& m = std::get<MetadataIamfTags>((*o)->GetMetadataVariant());
  VF_ASSERT(static_cast<int>(m.tags.size()) == n && static_cast<int>((*o)->footer_.size()) == extra, "tags and footer");
  for (int i = 0; i < n; i++) {
    const int a = len + (i == 1), b = 1 + (i == 2) - (len && i == 0);
    VF_ASSERT(static_cast<int>(m.tags[i].tag_name.size()) == a && static_cast<int>(m.tags[i].tag_value.size()) == b, "lengths");
    for (int c = 0; c < a; c++) VF_ASSERT(static_cast<uint8_t>(m.tags[i].tag_name[c]) == static_cast<uint8_t>(name[i] >> (8 * c)), "name");
    for (int c = 0; c < b; c++) VF_ASSERT(static_cast<uint8_t>(m.tags[i].tag_value[c]) == static_cast<uint8_t>(value[i] >> (8 * c)), "value");
  }
  WriteBitBuffer wb(64);
  VF_ASSERT(Writes(**o, wb), "written");
  io::Cut(tokens);
  io::Written("writing reproduces the payload");
  VF_COVER("end");
}
// @prop C17
// @desc metadata of a reserved type: accepted, the type kept, its content kept as footer
// @bound 2 bytes of content
VF_HARNESS(meta_reserved) {
  const uint32_t t = vf::u32();
  VF_ASSUME(t != 1 && t != 2);
  io::Uleb(t);
  const uint8_t a = io::Bits(8), b = io::Bits(8);
  auto* o = ReadMeta(3);
  VF_ASSERT(o->ok(), "accepted");
  if (!o->ok()) return;
  VF_ASSERT(static_cast<uint32_t>((*o)->GetMetadataType()) == t, "type kept");
  VF_ASSERT((*o)->footer_.size() == 2 && (*o)->footer_[0] == a && (*o)->footer_[1] == b, "content kept");
  VF_COVER("end");
}
