// LPCM decoding: LpcmDecoder, SampleProcessorBase framing, SubstreamChannelCount.
// VF-SOURCES: iamf/cli/codec/lpcm_decoder.cc iamf/common/utils/numeric_utils.cc iamf/obu/decoder_config/lpcm_decoder_config.cc iamf/obu/substream_channel_count.cc iamf/common/read_bit_buffer.cc iamf/common/write_bit_buffer.cc iamf/common/leb_generator.cc
#include "vf.h"
#include <memory>
#include <vector>
#include "iamf/cli/codec/lpcm_decoder.h"
#include "iamf/obu/decoder_config/lpcm_decoder_config.h"
#include "iamf/obu/substream_channel_count.h"
using namespace iamf_tools;
namespace {
LpcmDecoderConfig Config(uint8_t flags, uint8_t size, uint32_t rate) {
  LpcmDecoderConfig c;
  c.sample_format_flags_bitmask_ = static_cast<LpcmDecoderConfig::LpcmFormatFlagsBitmask>(flags);
  c.sample_size_ = size;
  c.sample_rate_ = rate;
  return c;
}
// The sample a byte group stands for, left-justified in 32 bits.
int32_t Sample(const uint8_t* b, int bytes, bool little) {
  uint32_t v = 0;
  for (int i = 0; i < 4; i++) if (i < bytes) {
    const int byte = little ? bytes - 1 - i : i;
    v |= static_cast<uint32_t>(b[byte]) << (24 - 8 * i);
  }
  return static_cast<int32_t>(v);
}
void CheckFrame(DecoderBase& d, const uint8_t* data, size_t n, int bps, size_t ch, bool little, uint32_t max_ticks) {
  const bool ok = d.DecodeAudioFrame(absl::MakeConstSpan(data, n)).ok();
  const bool whole = n % (bps * ch) == 0;
  const size_t ticks = n / (bps * ch);
  VF_ASSERT(ok == (whole && ticks <= max_ticks), "accepts exactly whole frames no longer than configured");
  if (!ok) { VF_COVER("rejected"); return; }
  const auto out = d.ValidDecodedSamples();
  VF_ASSERT(out.size() == ch, "one vector per channel");
  for (size_t c = 0; c < ch; c++) {
    VF_ASSERT(out[c].size() == ticks, "one sample per tick");
    for (size_t t = 0; t < ticks; t++) {
      const int32_t s = Sample(data + (t * ch + c) * bps, bps, little);
      VF_ASSERT(out[c][t] * 2147483648.0 == static_cast<double>(s), "sample value and place");
    }
  }
  VF_COVER("decoded");
}
}  // namespace
// @prop C26
// @desc LpcmDecoder::Create: ok iff the config is one of the defined ones (endianness flag, 16/24/32 bits, listed rates), for any channel count and frame size
VF_HARNESS(lpcm_create) {
  const uint8_t flags = vf::u8(), size = vf::u8();
  const uint32_t rate = vf::u32();
  const auto c = Config(flags, size, rate);
  auto d = LpcmDecoder::Create(c, vf::boolean() ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled(), vf::u32());
  const bool want = flags <= 1 && (size == 16 || size == 24 || size == 32) &&
                    (rate == 16000 || rate == 32000 || rate == 44100 || rate == 48000 || rate == 96000);
  VF_ASSERT(d.ok() == want, "created iff the config is valid");
  VF_COVER_IF(want && size == 24, "24 bit");
  VF_COVER_IF(!want, "rejected");
}
// @prop C26
// @desc DecodeAudioFrame: whole frames only; channel-interleaved samples of the configured width and byte order land at [channel][tick]
// @bound frames of 0..16 bytes
// @split 0 101
// @cost 20
VF_HARNESS(lpcm_decode) {
  const uint32_t k = vf::split(0, 101);
  const int bps = 2 + static_cast<int>(k % 3);
  const size_t ch = 1 + (k / 3) % 2;
  const size_t n = k / 6;
  const bool little = vf::boolean();
  const uint32_t max_ticks = vf::u32();
  auto d = LpcmDecoder::Create(Config(little ? 1 : 0, static_cast<uint8_t>(8 * bps), 48000),
                               ch == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled(), max_ticks);
  VF_ASSUME(d.ok());
  uint8_t data[17];
  for (size_t i = 0; i < n; i++) data[i] = vf::u8();
  CheckFrame(**d, data, n, bps, ch, little, max_ticks);
}
// @prop C26
// @desc decoding is memoryless: after any earlier frame, accepted or not, the next frame decodes to its own samples with its own shape
// @bound two frames of up to 2 ticks, decoder configured for 1 or 2 ticks
// @split 0 35
// @cost 5
VF_HARNESS(lpcm_decode_twice) {
  const uint32_t k = vf::split(0, 35);
  const size_t t0 = k % 3, t1 = (k / 3) % 3;
  const size_t ch = 1 + (k / 9) % 2;
  const uint32_t max_ticks = 1 + (k / 18) % 2;
  const int bps = 2;
  const bool little = t0 == t1;
  auto d = LpcmDecoder::Create(Config(little ? 1 : 0, static_cast<uint8_t>(8 * bps), 48000),
                               ch == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled(), max_ticks);
  VF_ASSUME(d.ok());
  uint8_t data[16];
  for (int i = 0; i < 16; i++) data[i] = vf::u8();
  (void)(*d)->DecodeAudioFrame(absl::MakeConstSpan(data, t0 * bps * ch));
  CheckFrame(**d, data + 8, t1 * bps * ch, bps, ch, little, max_ticks);
}
// @prop C26
// @desc SubstreamChannelCount: exactly 1 (mono) or 2 (coupled) channels; every other count is refused
VF_HARNESS(substream_channel_count) {
  const int n = vf::i32();
  const auto c = SubstreamChannelCount::Create(n);
  VF_ASSERT(c.ok() == (n == 1 || n == 2), "ok iff 1 or 2");
  if (c.ok()) VF_ASSERT(c->num_channels() == static_cast<size_t>(n), "count kept");
  VF_ASSERT(SubstreamChannelCount::MakeSingular().num_channels() == 1, "mono");
  VF_ASSERT(SubstreamChannelCount::MakeCoupled().num_channels() == 2, "coupled");
  VF_COVER_IF(c.ok(), "ok");
  VF_COVER_IF(n < 0, "negative");
}
