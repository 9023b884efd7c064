// Codec Config OBU payload: the four decoder configs, their wire format and restrictions.
// VF-SOURCES: model/io_contract.cc iamf/obu/codec_config.cc iamf/obu/decoder_config/lpcm_decoder_config.cc iamf/obu/decoder_config/opus_decoder_config.cc iamf/obu/decoder_config/flac_decoder_config.cc iamf/obu/decoder_config/aac_decoder_config.cc iamf/obu/obu_base.cc iamf/obu/obu_header.cc iamf/common/leb_generator.cc
// VF-DEFS: -DIAMF_TOOLS_DISABLE_AAC_DECODER
#include "vf_open.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/obu_header.h"
using namespace iamf_tools;
namespace {
using Id = CodecConfig::CodecId;
constexpr uint32_t kIpcm = 0x6970636d, kOpus = 0x4f707573, kFlac = 0x664c6143, kAac = 0x6d703461;
struct Common { uint32_t id, nspf; int16_t roll; };
Common Head(uint32_t codec) {
  Common c;
  c.id = io::Uleb();
  io::Bits(32, codec);
  c.nspf = io::Uleb();
  c.roll = io::S16();
  return c;
}
bool GoodFrame(const Common& c) { return c.nspf >= 1 && c.nspf <= 96000; }
absl::StatusOr<CodecConfigObu> Read() {
  io::Reader rb;
  return CodecConfigObu::CreateFromBuffer(ObuHeader(), io::Bytes(), rb);
}
void CheckCommon(const CodecConfigObu& o, const Common& c, uint32_t codec, uint32_t rate, uint32_t in_rate, uint32_t depth) {
  VF_ASSERT(o.GetCodecConfigId() == c.id && o.GetNumSamplesPerFrame() == c.nspf, "id and frame size kept");
  VF_ASSERT(static_cast<uint32_t>(o.GetCodecConfig().codec_id) == codec && o.GetCodecConfig().audio_roll_distance == c.roll, "codec and roll distance kept");
  VF_ASSERT(o.GetOutputSampleRate() == rate && o.GetInputSampleRate() == in_rate && o.GetBitDepthToMeasureLoudness() == depth, "derived rates and bit depth");
  VF_ASSERT(io::AllRead(), "whole payload consumed");
}
// Writing an accepted object reproduces the wire.
void CheckWrite(const CodecConfigObu& o) {
  WriteBitBuffer wb(64);
  const bool ok = static_cast<const ObuBase&>(o).ValidateAndWritePayload(wb).ok();
  VF_ASSERT(ok, "an accepted codec config can be written");
  if (ok) io::Written("written payload is the specified one");
}
}  // namespace
// The object is never destroyed: what it frees is outside these contracts.
bool Accepts() {
  io::Reader rb;
  auto* o = new absl::StatusOr<CodecConfigObu>(CodecConfigObu::CreateFromBuffer(ObuHeader(), io::Bytes(), rb));
  return o->ok();
}
struct Lpcm { uint8_t flags, size; uint32_t rate; };
bool Want(const Common& c, Lpcm& l) {
  l.flags = io::Bits(8);
  l.size = io::Bits(8);
  l.rate = io::Bits(32);
  return GoodFrame(c) && c.roll == 0 && l.flags <= 1 && (l.size == 16 || l.size == 24 || l.size == 32) &&
         (l.rate == 16000 || l.rate == 32000 || l.rate == 44100 || l.rate == 48000 || l.rate == 96000);
}
// @prop C11
// @desc LPCM codec config: accepted iff frame size, roll distance and format are legal
VF_HARNESS(codec_lpcm_accept) {
  const Common c = Head(kIpcm);
  Lpcm l;
  const bool want = Want(c, l);
  const bool ok = Accepts();
  VF_ASSERT(ok == want, "accepted iff legal");
  VF_COVER_IF(!want, "rejected");
  VF_COVER_IF(want, "accepted");
}
// @prop C11
// @desc LPCM codec config: a legal one is accepted; fields and derived values; write reproduces the payload
VF_HARNESS(codec_lpcm) {
  const Common c = Head(kIpcm);
  Lpcm l;
  VF_ASSUME(Want(c, l));
  vf::MustSucceed();
  const auto o = Read();
  VF_COVER("accepted");
  CheckCommon(*o, c, kIpcm, l.rate, l.rate, l.size);
  VF_ASSERT(o->IsLossless(), "LPCM is lossless");
  const auto& d = std::get<LpcmDecoderConfig>(o->GetCodecConfig().decoder_config);
  VF_ASSERT(d.sample_format_flags_bitmask_ == l.flags && d.sample_size_ == l.size && d.sample_rate_ == l.rate && d.IsLittleEndian() == (l.flags == 1), "LPCM fields kept");
  CheckWrite(*o);
}
