// BW64/RIFF reader (C38).  bw64_reader.cc is included: its internal functions
// are under contract too.  The XML parser is replaced by its contract: it
// records what it is given and returns an arbitrary verdict.
// VF-DEFS: -include @VERIF@/model/vf_istream.h -finline-hint-functions
// VF-ATTR: fs 100
// VF-ATTR: unwind 80
#include "vf.h"
#include "iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc"
using namespace iamf_tools::adm_to_user_metadata;
namespace {
constexpr long kCap = 80;
uint8_t buf[kCap];
long len;
// Parser contract ghosts.
int xml_calls;
char xml_bytes[8];
size_t xml_size;
int32_t xml_threshold;
AdmFileType xml_type;
bool xml_ok, xml_barred;

void U32(long at, uint32_t v) { for (int i = 0; i < 4; i++) buf[at + i] = static_cast<uint8_t>(v >> (8 * i)); }
void U16(long at, uint16_t v) { for (int i = 0; i < 2; i++) buf[at + i] = static_cast<uint8_t>(v >> (8 * i)); }
void Tag(long at, const char* t) { for (int i = 0; i < 4; i++) buf[at + i] = static_cast<uint8_t>(t[i]); }
void Riff() { Tag(0, "RIFF"); U32(4, vf::u32()); Tag(8, "WAVE"); len = 12; }
// Appends a chunk header; returns the position of its data.
long Head(const char* name, uint32_t size) { Tag(len, name); U32(len + 4, size); len += 8; return len; }
void Noise(long n) { for (long i = 0; i < n; i++) buf[len + i] = vf::u8(); len += n; }
struct Fmt { uint16_t tag, ch; uint32_t rate, avg; uint16_t align, bits; };
Fmt AnyFmt() { return {vf::u16(), vf::u16(), vf::u32(), vf::u32(), vf::u16(), vf::u16()}; }
Fmt GoodFmt() {
  Fmt f = AnyFmt();
  VF_ASSUME(f.ch != 0 && f.rate != 0 && (f.bits == 16 || f.bits == 24 || f.bits == 32));
  return f;
}
void PutFmt(const Fmt& f) {
  U16(len, f.tag); U16(len + 2, f.ch); U32(len + 4, f.rate); U32(len + 8, f.avg); U16(len + 12, f.align); U16(len + 14, f.bits);
  len += 16;
}
bool SameFmt(const FormatInfoChunk& a, const Fmt& f) {
  return a.format_tag == f.tag && a.num_channels == f.ch && a.samples_per_sec == f.rate && a.avg_bytes_per_sec == f.avg && a.block_align == f.align && a.bits_per_sample == f.bits;
}
}  // namespace
namespace iamf_tools {
namespace adm_to_user_metadata {
absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml, int32_t threshold, AdmFileType type) {
  VF_ASSERT(!xml_barred, "the parser is not consulted for an illegal format");
  if (xml_barred) { VF_ASSUME(false); __builtin_unreachable(); }
  xml_calls++;
  xml_size = xml.size();
  for (size_t i = 0; i < xml.size() && i < sizeof(xml_bytes); i++) xml_bytes[i] = xml[i];
  xml_threshold = threshold;
  xml_type = type;
  vf::MustSucceed(false);
  if (!xml_ok) return absl::UnimplementedError("parser verdict");
  ADM a;
  a.file_type = type;
  return a;
}
}  // namespace adm_to_user_metadata
}  // namespace iamf_tools

// @prop C38
// @desc RIFF header: every source of up to 16 bytes
// @split 0 16
VF_HARNESS(bw64_riff) {
  len = vf::split(0, 16);
  for (int i = 0; i < 16; i++) buf[i] = vf::u8();
  std::vf_istream_source in(buf, len);
  auto r = Bw64Reader::BuildFromStream(vf::i32(), in);
  VF_ASSERT(!r.ok() && xml_calls == 0, "a source without chunks is refused");
  const bool riff = len >= 12 && buf[0] == 'R' && buf[1] == 'I' && buf[2] == 'F' && buf[3] == 'F' && buf[8] == 'W' && buf[9] == 'A' && buf[10] == 'V' && buf[11] == 'E';
  VF_COVER_IF(len < 12 || riff, "RIFF/WAVE or short");
  VF_ASSERT((r.status().code() == absl::StatusCode::kInvalidArgument) == !riff, "not RIFF/WAVE iff invalid argument");
  VF_ASSERT(!riff || r.status().code() == absl::StatusCode::kFailedPrecondition, "RIFF/WAVE without chunks: missing fmt");
}

namespace {
const char* const kNames[3] = {"fmt ", "axml", "data"};
// A file of the chunks kind[i] with declared sizes size[i]; one whose size
// exceeds 5 reaches past the end of the file and is the last.
void IndexCase(int n, const int* kind, const uint32_t* declared, int tail) {
  Riff();
  size_t size[3], off[3];
  bool have[3] = {false, false, false};
  for (int i = 0; i < n; i++) {
    const uint32_t s = declared[i];
    const long at = Head(kNames[kind[i]], s);
    have[kind[i]] = true; size[kind[i]] = s; off[kind[i]] = static_cast<size_t>(at) - 8;
    if (s > 5) { Noise(3); tail = 0; break; }
    Noise(s + (s & 1));
  }
  Noise(tail);
  std::vf_istream_source in(buf, len);
  Bw64Reader::ChunksOffsetMap m = CreateChunksOffsetMap(in);
  VF_ASSERT(m.size() == static_cast<size_t>(have[0] + have[1] + have[2]), "exactly the chunks of the file are indexed");
  for (int k = 0; k < 3; k++) {
    auto c = ::iamf_tools::adm_to_user_metadata::GetChunkInfo(kNames[k], m);
    VF_ASSERT(c.ok() == have[k], "a chunk is found iff the file has it");
    if (!c.ok()) { VF_ASSERT(c.status().code() == absl::StatusCode::kFailedPrecondition, "missing chunk: failed precondition"); }
    else VF_ASSERT(c->size == size[k] && c->offset == off[k], "declared size and header position of the last such chunk");
  }
}
}  // namespace

// @prop C38
// @desc chunk index: every sequence of three chunks out of three names; sizes 0..5, odd ones padded; sizes past the end; up to 7 stray bytes
// @split 0 26
VF_HARNESS(bw64_index) {
  const uint32_t c = vf::split(0, 26);
  const int kind[3] = {static_cast<int>(c % 3), static_cast<int>(c / 3 % 3), static_cast<int>(c / 9)};
  static const uint32_t kSizes[][3] = {{0, 1, 2}, {3, 4, 5}, {1, 1, 1}, {2, 5, 0}, {4, 0, 3}, {2, 3, 100}, {1, 0x7fffffffu, 0}, {0x80000001u, 0, 0}, {3, 2, 0xffffffffu}};
  int tail = 0;
  for (const auto& s : kSizes) { IndexCase(3, kind, s, tail); tail = (tail + 3) % 8; }
  IndexCase(0, kind, kSizes[0], 7);
  IndexCase(1, kind, kSizes[2], 2);
  VF_COVER("end");
}

// @prop C38
// @desc fmt chunk: every content, declared size and truncation
VF_HARNESS(bw64_fmt) {
  Riff();
  const uint32_t s = vf::u32();
  const long at = Head("fmt ", s);
  const Fmt f = AnyFmt();
  PutFmt(f);
  const int cut = vf::range<uint8_t>(0, 16);
  len = at + 16 - cut;
  std::vf_istream_source in(buf, len);
  Bw64Reader::ChunksOffsetMap m;
  m["fmt "] = {s, static_cast<size_t>(at - 8)};
  if (vf::boolean()) { char c; in.seekg(1000); in.read(&c, 1); }
  auto r = ReadFmtChunk(m, in);
  const bool whole = cut == 0 && s >= 16;
  const bool legal = f.ch != 0 && f.rate != 0 && (f.bits == 16 || f.bits == 24 || f.bits == 32);
  VF_COVER_IF(r.ok(), "accepted");
  VF_COVER_IF(whole && !legal, "illegal content");
  VF_COVER_IF(cut > 0 && s >= 16, "truncated file");
  VF_ASSERT(r.ok() == (whole && legal), "accepted iff complete and legal");
  VF_ASSERT(s >= 16 || r.status().code() == absl::StatusCode::kInvalidArgument, "short chunk: invalid argument");
  VF_ASSERT(!(s >= 16 && cut > 0) || r.status().code() == absl::StatusCode::kOutOfRange, "truncated file: out of range");
  VF_ASSERT(!whole || legal || r.status().code() == absl::StatusCode::kInvalidArgument, "illegal content: invalid argument");
  if (r.ok()) VF_ASSERT(SameFmt(*r, f), "every field is the file's");
}

// @prop C38
// @desc axml chunk: declared sizes 0..9 and beyond (up to 2^32-1) against files of 0..16 bytes
// @split 0 15
VF_HARNESS(bw64_axml) {
  static const uint32_t kSizes[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 256u << 20, (256u << 20) + 1, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  const uint32_t s = kSizes[vf::split(0, 15)];
  for (int i = 0; i < 16; i++) buf[i] = vf::u8();
  for (long at = 0; at <= 8; at += 4) {
    for (len = 0; len <= 16; len++) {
      std::vf_istream_source in(buf, len);
      Bw64Reader::ChunksOffsetMap m;
      m["axml"] = {s, static_cast<size_t>(at)};
      if (len & 1) { char c; in.seekg(len); in.read(&c, 1); }
      const bool fits = at + 8 + static_cast<long>(s) <= len;
      auto r = ReadAxml(m, in);
      VF_ASSERT(r.ok() == fits, "extracted iff the file holds all of it");
      if (!r.ok()) { VF_ASSERT(r.status().code() == absl::StatusCode::kInvalidArgument, "refused as invalid argument"); }
      else {
        VF_ASSERT(r->size() == s, "exactly the declared size");
        for (uint32_t i = 0; i < s; i++) VF_ASSERT((*r)[i] == static_cast<char>(buf[at + 8 + i]), "exactly the chunk's bytes");
      }
    }
  }
  VF_COVER("end");
}

// @prop C38
// @desc whole files: fmt, axml and an optional dbmd chunk in any order; what the XML parser is given and how its verdict is used
// @split 0 29
VF_HARNESS(bw64_build) {
  const uint32_t which = vf::split(0, 29), order = which % 6, mode = which / 6;
  const bool dolby = mode >= 2, fit = mode != 4;
  xml_ok = mode == 0 || mode == 2;
  xml_barred = !fit;
  static const int kOrder[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  Riff();
  Fmt f = GoodFmt();
  if (mode == 0) {  // accepted plain files: fixed format values
    static const uint32_t kFormats[6][3] = {{1, 1, 16}, {2, 44100, 24}, {65535, 48000, 32}, {6, 96000, 16}, {8, 192000, 24}, {12, 0xffffffffu, 32}};
    f.ch = kFormats[order][0]; f.rate = kFormats[order][1]; f.bits = kFormats[order][2];
  }
  uint8_t xml[3];
  for (int i = 0; i < 3; i++) xml[i] = vf::u8();
  for (int i = 0; i < 3; i++) {
    const int k = kOrder[order][i];
    if (k == 0) { Head("fmt ", 16); PutFmt(f); }
    else if (k == 1) { Head("axml", 3); for (int j = 0; j < 3; j++) buf[len++] = xml[j]; buf[len++] = 0; }
    else { Head(dolby ? "dbmd" : "data", 1); buf[len++] = vf::u8(); buf[len++] = 0; }
  }
  VF_ASSUME(fit == (!dolby || (f.bits == 24 && (f.rate == 48000 || f.rate == 96000))));
  const int32_t threshold = vf::i32();
  std::vf_istream_source in(buf, len);
  vf::MustSucceed(fit && dolby);
  auto r = Bw64Reader::BuildFromStream(threshold, in);
  vf::MustSucceed(false);
  VF_COVER("end");
  VF_ASSERT(r.ok() == (fit && xml_ok), "accepted iff the format suits the file type and the XML parses");
  VF_ASSERT(xml_calls == (fit ? 1 : 0), "the parser is consulted once, after the format check");
  if (!fit) { VF_ASSERT(r.status().code() == absl::StatusCode::kInvalidArgument, "illegal Dolby format: invalid argument"); }
  else {
    VF_ASSERT(xml_size == 3 && xml_bytes[0] == static_cast<char>(xml[0]) && xml_bytes[1] == static_cast<char>(xml[1]) && xml_bytes[2] == static_cast<char>(xml[2]), "the parser is given exactly the axml bytes");
    VF_ASSERT(xml_threshold == threshold, "the importance threshold is passed on");
    VF_ASSERT(xml_type == (dolby ? kAdmFileTypeDolby : kAdmFileTypeDefault), "the file type follows from the dbmd chunk");
    if (!xml_ok) VF_ASSERT(r.status().code() == absl::StatusCode::kUnimplemented, "the parser's error is returned");
  }
  if (r.ok()) {
    VF_ASSERT(SameFmt(r->format_info_, f) && r->adm_.file_type == xml_type, "the reader holds the format and the parsed ADM");
    auto a = r->GetChunkInfo("axml");
    VF_ASSERT(a.ok() && a->size == 3, "the index is kept");
  }
}
