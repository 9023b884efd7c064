// Probe report -> JSON.  probe_json.cc is included so that its internal
// functions can be put under contract as well.
// VF-DEFS: -I@VERIF@/model/json -finline-hint-functions
// VF-ATTR: unwind 600
// VF-ATTR: outline N6vfjson(4Feed|4Walk|6Record|4Slot|2H)
// VF-ATTR: maxunwind 700
#include "vf.h"
#include "vf_text.h"
#include "vf_json.h"
#include "iamf/cli/probe_json.cc"
using namespace iamf_tools;
using namespace vfjson;
namespace {
const P kRoot{kSeed};
CodecConfigReport Codec(P p) {
  CodecConfigReport c;
  c.id = Int<uint32_t>(p / "id");
  c.codec_id = Str(p / "codec_id");
  c.codec_id_raw = Int<uint32_t>(p / "codec_id_raw");
  c.num_samples_per_frame = Int<uint32_t>(p / "num_samples_per_frame");
  c.audio_roll_distance = Int<int16_t>(p / "audio_roll_distance");
  c.output_sample_rate = Int<uint32_t>(p / "output_sample_rate");
  c.input_sample_rate = Int<uint32_t>(p / "input_sample_rate");
  c.bit_depth = Int<int>(p / "bit_depth");
  if (On()) {
    const P q = p / "opus";
    OpusDecoderConfigReport o;
    o.version = Int<uint8_t>(q / "version");
    o.output_channel_count = Int<uint8_t>(q / "output_channel_count");
    o.pre_skip = Int<uint16_t>(q / "pre_skip");
    o.input_sample_rate = Int<uint32_t>(q / "input_sample_rate");
    o.output_gain = Flt(q / "output_gain");
    o.output_gain_q7_8 = Int<int16_t>(q / "output_gain_q7_8");
    o.mapping_family = Int<uint8_t>(q / "mapping_family");
    c.opus = o;
  } else Absent(p / "opus" / "version");
  if (On()) {
    const P q = p / "lpcm";
    LpcmDecoderConfigReport l;
    l.sample_format = Str(q / "sample_format");
    l.sample_format_raw = Int<uint8_t>(q / "sample_format_raw");
    l.sample_size = Int<uint8_t>(q / "sample_size");
    l.sample_rate = Int<uint32_t>(q / "sample_rate");
    c.lpcm = l;
  } else Absent(p / "lpcm" / "sample_rate");
  if (On()) {
    const P q = p / "aac";
    AacDecoderConfigReport a;
    a.object_type_indication = Int<uint8_t>(q / "object_type_indication");
    a.stream_type = Int<uint8_t>(q / "stream_type");
    a.upstream = Bool(q / "upstream");
    a.reserved = Bool(q / "reserved");
    a.buffer_size_db = Int<uint32_t>(q / "buffer_size_db");
    a.max_bitrate = Int<uint32_t>(q / "max_bitrate");
    a.average_bit_rate = Int<uint32_t>(q / "average_bit_rate");
    a.audio_object_type = Int<uint8_t>(q / "audio_object_type");
    a.sample_frequency_index = Str(q / "sample_frequency_index");
    a.sample_frequency_index_raw = Int<uint8_t>(q / "sample_frequency_index_raw");
    a.channel_configuration = Int<uint8_t>(q / "channel_configuration");
    c.aac = a;
  } else Absent(p / "aac" / "stream_type");
  if (On()) {
    const P q = p / "flac" / "metadata_blocks";
    FlacDecoderConfigReport f;
    const int n = Len(q);
    f.metadata_blocks.reserve(2);
    for (int i = 0; i < n; i++) {
      FlacMetaBlockReport b;
      const P r = q[i];
      b.block_type = Str(r / "block_type");
      b.block_type_raw = Int<uint8_t>(r / "block_type_raw");
      b.is_stream_info = On();
      if (b.is_stream_info) {
        b.minimum_block_size = Int<uint16_t>(r / "minimum_block_size");
        b.maximum_block_size = Int<uint16_t>(r / "maximum_block_size");
        b.minimum_frame_size = Int<uint32_t>(r / "minimum_frame_size");
        b.maximum_frame_size = Int<uint32_t>(r / "maximum_frame_size");
        b.sample_rate = Int<uint32_t>(r / "sample_rate");
        b.number_of_channels = Int<uint8_t>(r / "number_of_channels");
        b.bits_per_sample = Int<uint8_t>(r / "bits_per_sample");
        b.total_samples_in_stream = Int<uint64_t>(r / "total_samples_in_stream");
      } else Absent(r / "sample_rate");
      f.metadata_blocks.push_back(b);
    }
    c.flac = f;
  }
  return c;
}
ChannelAudioLayerReport Layer(P p) {
  ChannelAudioLayerReport l;
  l.loudspeaker_layout = Str(p / "loudspeaker_layout");
  l.loudspeaker_layout_raw = Int<uint8_t>(p / "loudspeaker_layout_raw");
  l.substream_count = Int<uint8_t>(p / "substream_count");
  l.coupled_substream_count = Int<uint8_t>(p / "coupled_substream_count");
  l.output_gain_is_present_flag = Bool(p / "output_gain_is_present_flag");
  l.recon_gain_is_present_flag = Bool(p / "recon_gain_is_present_flag");
  l.output_gain_flag = Int<uint8_t>(p / "output_gain_flag");
  l.output_gain = Flt(p / "output_gain");
  l.output_gain_q7_8 = Int<int16_t>(p / "output_gain_q7_8");
  if (On()) l.expanded_loudspeaker_layout = Str(p / "expanded_loudspeaker_layout");
  else Absent(p / "expanded_loudspeaker_layout");
  if (On()) l.expanded_loudspeaker_layout_raw = Int<uint8_t>(p / "expanded_loudspeaker_layout_raw");
  else Absent(p / "expanded_loudspeaker_layout_raw");
  return l;
}
template <class T> std::vector<T> Ints(P p) {
  std::vector<T> v;
  const int n = Len(p);
  v.reserve(2);
  for (int i = 0; i < n; i++) v.push_back(Int<T>(p[i]));
  return v;
}
std::vector<std::string> Strs(P p) {
  std::vector<std::string> v;
  const int n = Len(p);
  v.reserve(2);
  for (int i = 0; i < n; i++) v.push_back(Str(p[i]));
  return v;
}
// Written through a reference: returned in registers, value and flag would be
// one symbolic integer.
template <class T> void OptInt(std::optional<T>& o, P p) {
  if (On()) o = Int<T>(p);
  else Absent(p);
}
void OptFlt(std::optional<float>& o, P p) {
  if (On()) o = Flt(p);
  else Absent(p);
}
AudioElementReport Element(P p) {
  AudioElementReport a;
  a.id = Int<uint32_t>(p / "id");
  a.type = Str(p / "type");
  a.type_raw = Int<uint8_t>(p / "type_raw");
  a.reserved = Int<uint8_t>(p / "reserved");
  a.codec_config_id = Int<uint32_t>(p / "codec_config_id");
  a.num_substreams = Int<uint32_t>(p / "num_substreams");
  a.substream_ids = Ints<uint32_t>(p / "substream_ids");
  const int np = Len(p / "params");
  a.params.reserve(2);
  for (int i = 0; i < np; i++) {
    const P q = (p / "params")[i];
    AudioElementParamReport r;
    r.param_type = Str(q / "param_type");
    r.param_type_raw = Int<uint32_t>(q / "param_type_raw");
    r.parameter_id = Int<uint32_t>(q / "parameter_id");
    r.parameter_rate = Int<uint32_t>(q / "parameter_rate");
    r.param_definition_mode = Int<uint8_t>(q / "param_definition_mode");
    r.duration = Int<uint32_t>(q / "duration");
    r.constant_subblock_duration = Int<uint32_t>(q / "constant_subblock_duration");
    a.params.push_back(r);
  }
  const int nl = On() ? 2 : 0;
  a.scalable_layers.reserve(2);
  for (int i = 0; i < nl; i++) a.scalable_layers.push_back(Layer((p / "scalable_layers")[i]));
  if (On()) {
    const P q = p / "ambisonics";
    AmbisonicsReport r;
    r.mode = Str(q / "mode");
    r.mode_raw = Int<uint8_t>(q / "mode_raw");
    OptInt(r.order, q / "order");
    if (On()) {
      AmbisonicsMonoReport m;
      m.output_channel_count = Int<uint8_t>(q / "mono" / "output_channel_count");
      m.substream_count = Int<uint8_t>(q / "mono" / "substream_count");
      m.channel_mapping = Ints<uint8_t>(q / "mono" / "channel_mapping");
      r.mono = m;
    } else Absent(q / "mono" / "substream_count");
    if (On()) {
      AmbisonicsProjectionReport m;
      m.output_channel_count = Int<uint8_t>(q / "projection" / "output_channel_count");
      m.substream_count = Int<uint8_t>(q / "projection" / "substream_count");
      m.coupled_substream_count = Int<uint8_t>(q / "projection" / "coupled_substream_count");
      m.demixing_matrix = Ints<int16_t>(q / "projection" / "demixing_matrix");
      r.projection = m;
    } else Absent(q / "projection" / "substream_count");
    a.ambisonics = r;
  } else Absent(p / "ambisonics" / "mode");
  if (On()) a.channel_layout = Str(p / "channel_layout");
  else Absent(p / "channel_layout");
  OptInt(a.channel_layout_raw, p / "channel_layout_raw");
  OptInt(a.expanded_channel_layout_raw, p / "expanded_channel_layout_raw");
  OptInt(a.ambisonics_order, p / "ambisonics_order");
  OptInt(a.ambisonics_channels, p / "ambisonics_channels");
  OptInt(a.num_channels, p / "num_channels");
  return a;
}
MixGainParamDefinitionReport Gain(P p) {
  MixGainParamDefinitionReport g;
  const P q = p / "param_definition";
  g.param_definition.parameter_id = Int<uint32_t>(q / "parameter_id");
  g.param_definition.parameter_rate = Int<uint32_t>(q / "parameter_rate");
  g.param_definition.param_definition_mode = Int<uint8_t>(q / "param_definition_mode");
  g.param_definition.duration = Int<uint32_t>(q / "duration");
  g.param_definition.constant_subblock_duration = Int<uint32_t>(q / "constant_subblock_duration");
  g.default_mix_gain = Flt(p / "default_mix_gain");
  g.default_mix_gain_q7_8 = Int<int16_t>(p / "default_mix_gain_q7_8");
  return g;
}
SubMixReport SubMix(P p) {
  SubMixReport s;
  const int na = Len(p / "audio_elements");
  s.audio_elements.reserve(2);
  for (int i = 0; i < na; i++) {
    const P q = (p / "audio_elements")[i];
    SubMixAudioElementReport a;
    a.audio_element_id = Int<uint32_t>(q / "audio_element_id");
    a.localized_element_annotations = Strs(q / "localized_element_annotations");
    const P r = q / "rendering_config";
    a.rendering_config.headphones_rendering_mode = Str(r / "headphones_rendering_mode");
    a.rendering_config.headphones_rendering_mode_raw = Int<uint8_t>(r / "headphones_rendering_mode_raw");
    a.rendering_config.binaural_filter_profile = Str(r / "binaural_filter_profile");
    a.rendering_config.binaural_filter_profile_raw = Int<uint8_t>(r / "binaural_filter_profile_raw");
    a.element_mix_gain = Gain(q / "element_mix_gain");
    s.audio_elements.push_back(a);
  }
  s.output_mix_gain = Gain(p / "output_mix_gain");
  const int nl = Len(p / "layouts");
  s.layouts.reserve(2);
  for (int i = 0; i < nl; i++) {
    MixPresentationLayoutReport l;
    const P q = (p / "layouts")[i] / "loudness_layout", r = (p / "layouts")[i] / "loudness";
    l.loudness_layout.layout_type = Str(q / "layout_type");
    l.loudness_layout.layout_type_raw = Int<uint8_t>(q / "layout_type_raw");
    if (On()) l.loudness_layout.sound_system = Str(q / "sound_system");
    else Absent(q / "sound_system");
    OptInt(l.loudness_layout.sound_system_raw, q / "sound_system_raw");
    l.loudness.info_type = Int<uint8_t>(r / "info_type");
    l.loudness.true_peak_present = Bool(r / "true_peak_present");
    l.loudness.anchored_loudness_present = Bool(r / "anchored_loudness_present");
    l.loudness.has_layout_extension = Bool(r / "has_layout_extension");
    l.loudness.integrated_loudness = Flt(r / "integrated_loudness");
    l.loudness.digital_peak = Flt(r / "digital_peak");
    OptFlt(l.loudness.true_peak, r / "true_peak");
    const int ne = On() ? 2 : 0;
    l.loudness.anchored_loudness_elements.reserve(2);
    for (int k = 0; k < ne; k++) {
      const P t = (r / "anchored_loudness_elements")[k];
      AnchoredLoudnessElementReport e;
      e.anchor_element = Str(t / "anchor_element");
      e.anchor_element_raw = Int<uint8_t>(t / "anchor_element_raw");
      e.anchored_loudness = Flt(t / "anchored_loudness");
      e.anchored_loudness_q7_8 = Int<int16_t>(t / "anchored_loudness_q7_8");
      l.loudness.anchored_loudness_elements.push_back(e);
    }
    s.layouts.push_back(l);
  }
  return s;
}
MixPresentationReport Mix(P p, int sub_mixes) {
  MixPresentationReport m;
  m.id = Int<uint32_t>(p / "id");
  m.count_label = Int<uint32_t>(p / "count_label");
  m.num_sub_mixes = Int<uint32_t>(p / "num_sub_mixes");
  const int na = Len(p / "annotations");
  m.annotations.reserve(2);
  for (int i = 0; i < na; i++) {
    std::string lang = Str((p / "annotations")[i] / "language"), label = Str((p / "annotations")[i] / "label");
    m.annotations.push_back({lang, label});
  }
  if (sub_mixes == 0) Expect(p / "sub_mixes", kEmptyArray, 0);
  m.sub_mixes.reserve(2);
  for (int i = 0; i < sub_mixes; i++) m.sub_mixes.push_back(SubMix((p / "sub_mixes")[i]));
  const int nt = Len(p / "tags");
  m.tags.reserve(2);
  for (int i = 0; i < nt; i++) {
    MixPresentationTagReport t;
    t.tag_name = Str((p / "tags")[i] / "tag_name");
    t.tag_value = Str((p / "tags")[i] / "tag_value");
    m.tags.push_back(t);
  }
  m.layouts = Strs(p / "layouts");
  OptFlt(m.integrated_loudness_lkfs, p / "integrated_loudness_lkfs");
  OptFlt(m.digital_peak_dbfs, p / "digital_peak_dbfs");
  OptFlt(m.true_peak_dbfs, p / "true_peak_dbfs");
  return m;
}
ParameterSubblockReport Subblock(P p) {
  ParameterSubblockReport s;
  s.subblock_duration = Int<uint32_t>(p / "subblock_duration");
  if (On()) {
    const P q = p / "mix_gain";
    MixGainAnimationReport m;
    m.animation_type = Str(q / "animation_type");
    m.animation_type_raw = Int<uint32_t>(q / "animation_type_raw");
    m.start_point_value = Flt(q / "start_point_value");
    m.start_point_value_q7_8 = Int<int16_t>(q / "start_point_value_q7_8");
    if (On()) {
      m.end_point_value = Flt(q / "end_point_value");
      m.end_point_value_q7_8 = Int<int16_t>(q / "end_point_value_q7_8");
    } else Absent(q / "end_point_value");
    if (On()) {
      m.control_point_value = Flt(q / "control_point_value");
      m.control_point_value_q7_8 = Int<int16_t>(q / "control_point_value_q7_8");
    } else Absent(q / "control_point_value");
    OptInt(m.control_point_relative_time, q / "control_point_relative_time");
    s.mix_gain = m;
  } else Absent(p / "mix_gain" / "animation_type");
  if (On()) {
    DemixingInfoReport d;
    d.dmixp_mode = Str(p / "demixing" / "dmixp_mode");
    d.dmixp_mode_raw = Int<uint8_t>(p / "demixing" / "dmixp_mode_raw");
    d.reserved = Int<uint8_t>(p / "demixing" / "reserved");
    s.demixing = d;
  } else Absent(p / "demixing" / "reserved");
  if (On()) {
    const P q = p / "recon_gain" / "layers";
    ReconGainInfoReport r;
    const int n = Len(q);
    r.layers.reserve(2);
    for (int i = 0; i < n; i++) {
      ReconGainForLayerReport l;
      l.layer_index = Int<uint8_t>(q[i] / "layer_index");
      l.recon_gain_flag = Int<uint32_t>(q[i] / "recon_gain_flag");
      l.recon_gain = Ints<uint8_t>(q[i] / "recon_gain");
      r.layers.push_back(l);
    }
    s.recon_gain = r;
  }
  return s;
}
TemporalUnitScanReport Scan(P p) {
  TemporalUnitScanReport s;
  s.temporal_unit_count = Int<uint32_t>(p / "temporal_unit_count");
  s.audio_frame_count = Int<uint32_t>(p / "audio_frame_count");
  s.parameter_block_count = Int<uint32_t>(p / "parameter_block_count");
  s.temporal_delimiter_count = Int<uint32_t>(p / "temporal_delimiter_count");
  s.audio_frame_parse_errors = Int<uint32_t>(p / "audio_frame_parse_errors");
  s.parameter_block_parse_errors = Int<uint32_t>(p / "parameter_block_parse_errors");
  s.bytes_consumed = Int<size_t>(p / "bytes_consumed");
  s.stopped_reason = Str(p / "stopped_reason");
  OptInt(s.total_samples, p / "total_samples");
  OptInt(s.output_sample_rate, p / "output_sample_rate");
  if (On()) s.duration_seconds = Dbl(p / "duration_seconds");
  else Absent(p / "duration_seconds");
  const int nf = Len(p / "audio_frames_by_substream");
  s.audio_frames_by_substream.reserve(2);
  for (int i = 0; i < nf; i++) {
    const P q = (p / "audio_frames_by_substream")[i];
    AudioFrameSummaryReport f;
    f.substream_id = Int<uint32_t>(q / "substream_id");
    f.codec_config_id = Int<uint32_t>(q / "codec_config_id");
    f.frame_count = Int<uint32_t>(q / "frame_count");
    f.total_samples = Int<uint64_t>(q / "total_samples");
    s.audio_frames_by_substream.push_back(f);
  }
  const int nb = Len(p / "parameter_blocks");
  s.parameter_blocks.reserve(2);
  for (int i = 0; i < nb; i++) {
    const P q = (p / "parameter_blocks")[i];
    ParameterBlockReport b;
    b.parameter_id = Int<uint32_t>(q / "parameter_id");
    b.param_type = Str(q / "param_type");
    b.param_type_raw = Int<uint32_t>(q / "param_type_raw");
    b.start_timestamp = Int<uint64_t>(q / "start_timestamp");
    b.end_timestamp = Int<uint64_t>(q / "end_timestamp");
    b.duration = Int<uint32_t>(q / "duration");
    b.constant_subblock_duration = Int<uint32_t>(q / "constant_subblock_duration");
    const int n = Len(q / "subblocks");
    b.subblocks.reserve(2);
    for (int k = 0; k < n; k++) b.subblocks.push_back(Subblock((q / "subblocks")[k]));
    s.parameter_blocks.push_back(b);
  }
  return s;
}
// The report around the part under contract.
ProbeReport& Report(uint32_t pattern_index) {
  pattern = static_cast<int>(pattern_index);
  part = 0;
  num_want = 0;
  ProbeReport& r = *new ProbeReport;
  r.primary_profile = Str(kRoot / "primary_profile");
  r.primary_profile_raw = Int<uint8_t>(kRoot / "primary_profile_raw");
  r.additional_profile = Str(kRoot / "additional_profile");
  r.additional_profile_raw = Int<uint8_t>(kRoot / "additional_profile_raw");
  r.descriptor_bytes_consumed = Int<size_t>(kRoot / "descriptor_bytes_consumed");
  OptInt(r.descriptor_total_samples, kRoot / "descriptor_total_samples");
  if (On()) r.descriptor_duration_seconds = Dbl(kRoot / "descriptor_duration_seconds");
  else Absent(kRoot / "descriptor_duration_seconds");
  return r;
}
// Number of list entries under a pattern: none, two, or one.
uint32_t Copies(uint32_t k) { return k == 0 ? 0 : k == 1 ? 2 : 1; }
void Finish(const ProbeReport& r) {
  if (r.codec_configs.empty()) Expect(kRoot / "codec_configs", kEmptyArray, 0);
  if (r.audio_elements.empty()) Expect(kRoot / "audio_elements", kEmptyArray, 0);
  if (r.mix_presentations.empty()) Expect(kRoot / "mix_presentations", kEmptyArray, 0);
  const auto& text = *new std::string(ProbeReportToJson(r));
  Check(text);
  VF_COVER("printed");
}
}  // namespace
// @prop C37
// @desc report header and 0..2 codec configs with any mix of decoder configs: well-formed JSON, every key carries its field
// @bound four presence patterns (none, all, two alternating) of optional parts, up to 2 elements per list
// @split 0 3
VF_HARNESS(json_codec) {
  const uint32_t k = vf::split(0, 3);
  ProbeReport& r = Report(k);
  r.codec_configs.reserve(2);
  for (uint32_t i = 0; i < Copies(k); i++) r.codec_configs.push_back(Codec((kRoot / "codec_configs")[i]));
  Finish(r);
}
// @prop C37
// @desc audio elements
// @bound four presence patterns (none, all, two alternating) of optional parts, up to 2 elements per list
// @split 0 3
VF_HARNESS(json_element) {
  const uint32_t k = vf::split(0, 3);
  ProbeReport& r = Report(k);
  r.audio_elements.reserve(2);
  for (uint32_t i = 0; i < Copies(k + 1); i++) r.audio_elements.push_back(Element((kRoot / "audio_elements")[i]));
  Finish(r);
}
// @prop C37
// @desc mix presentations
// @bound four presence patterns (none, all, two alternating) of optional parts, up to 2 elements per list
// @split 0 3
VF_HARNESS(json_mix) {
  const uint32_t k = vf::split(0, 3);
  ProbeReport& r = Report(k);
  r.mix_presentations.reserve(2);
  r.mix_presentations.push_back(Mix((kRoot / "mix_presentations")[0], static_cast<int>(Copies(k))));
  if (k == 0) r.mix_presentations.push_back(Mix((kRoot / "mix_presentations")[1], 0));
  Finish(r);
}
// @prop C37
// @desc temporal unit scan
// @bound four presence patterns (none, all, two alternating) of optional parts, up to 2 elements per list
// @split 0 3
VF_HARNESS(json_scan) {
  ProbeReport& r = Report(vf::split(0, 3));
  r.temporal_unit_scan = Scan(kRoot / "temporal_unit_scan");
  Finish(r);
}
// @prop C37
// @desc string escaping: every byte, and every pair of bytes of distinct kinds, decodes back to itself; the output has no raw control characters
// @split 0 7
VF_HARNESS(json_escape) {
  static const unsigned char kKinds[] = {'\\', '"', '\n', 1, 'a', 255};
  constexpr int kK = sizeof(kKinds), kAll = 256 + kK * kK;
  const int part = static_cast<int>(vf::split(0, 7));
  for (int i = part * kAll / 8; i < (part + 1) * kAll / 8; i++) {
    char s[4];
    s[0] = static_cast<char>(i < 256 ? i : kKinds[(i - 256) / kK]);
    s[1] = static_cast<char>(i < 256 ? 'y' : kKinds[(i - 256) % kK]);
    vftext::num_nodes = 0;
    const std::string& t = *new std::string(J(absl::string_view(s, 2)));
    ps = Parser();
    num_items = 0;
    slots[Slot(kSeed)] = 0;
    Walk(t.data(), t.size());
    uint64_t h = kSeed;
    for (int k = 0; k < 2; k++) h = H(h, static_cast<unsigned char>(s[k]));
    VF_ASSERT(ps.s == kDone && num_items == 1 && items[0].kind == kString && items[0].v == h, "an escaped string decodes to itself");
  }
  VF_COVER("escaped");
}
