// Class-invariant contracts of ReadBitBuffer for a source of ANY length, a
// buffer of ANY capacity and ANY reader position.  GhostReader implements the
// pure virtual LoadBytesToBuffer() by its contract only: it checks the
// precondition and delivers the ghost source content in a 2-byte window
// around the read position.
// VF-ATTR: fs 64
// VF-ATTR: cbmc -DVF_MEM_VLA
// VF-SOURCES: iamf/common/read_bit_buffer.cc
#include "vf.h"
#include "iamf/common/read_bit_buffer.h"
using namespace iamf_tools;
namespace {
constexpr int kWin = 2;
struct GhostReader : public ReadBitBuffer {
  uint8_t w[kWin];
  bool content = true;
  int64_t base;  // first source byte of the window
  GhostReader(size_t cap, int64_t bits) : ReadBitBuffer(cap, bits) {}
  absl::Status LoadBytesToBuffer(int64_t start, int64_t n) override {
    VF_ASSERT(start >= 0 && n >= 0, "load: non-negative range");
    VF_ASSERT(static_cast<uint64_t>(n) <= bit_buffer_.size(), "load: fits the buffer");
    VF_ASSERT(start + n <= source_size_bits_ / 8, "load: inside the source");
    Fill(start, n);
    return absl::OkStatus();
  }
  void Fill(int64_t start, int64_t n) {
    if (!content) return;
    for (int k = 0; k < kWin; k++) {
      const int64_t i = base + k - start;
      if (i >= 0 && i < n) bit_buffer_[i] = w[k];
    }
  }
  // An arbitrary state satisfying the class invariant, positioned at `pos`.
  void Havoc(int64_t pos) {
    for (auto& x : w) x = vf::u8();
    base = pos / 8;
    const int64_t cap = bit_buffer_.size();
    const int64_t loaded = vf::range<int64_t>(0, cap);
    const int64_t first = vf::i64();
    VF_ASSUME(first >= 0 && first <= source_size_bits_ / 8 && loaded <= source_size_bits_ / 8 - first);
    VF_ASSUME(first * 8 <= pos && pos <= (first + loaded) * 8);
    source_bit_offset_ = (first + loaded) * 8;
    buffer_size_bits_ = loaded * 8;
    buffer_bit_offset_ = pos - first * 8;
    is_position_valid_ = vf::boolean();
    Fill(first, loaded);
  }
  void CheckInvariant() {
    VF_ASSERT(buffer_bit_offset_ >= 0 && buffer_bit_offset_ <= buffer_size_bits_, "inv: offset inside the loaded bits");
    VF_ASSERT(buffer_size_bits_ % 8 == 0 && static_cast<uint64_t>(buffer_size_bits_) <= 8 * bit_buffer_.size(), "inv: loaded bits fit");
    VF_ASSERT(source_bit_offset_ % 8 == 0 && source_bit_offset_ <= source_size_bits_ && buffer_size_bits_ <= source_bit_offset_, "inv: source offset");
  }
};
uint64_t Expected(const GhostReader& r, int64_t pos, int n) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++)
    if (i < n) {
      const int64_t q = pos % 8 + i;
      v = v << 1 | ((r.w[q / 8] >> (7 - q % 8)) & 1);
    }
  return v;
}
}  // namespace
// @prop C06
// @desc Seek(p): ok iff a position is valid and 0<=p<=source size; then Tell()==p; invariant kept; failure leaves the position
// @unwind 4
VF_HARNESS(seek_any_source) {
  const size_t cap = vf::range<size_t>(1, 1u << 28);
  const int64_t bytes = vf::range<int64_t>(0, 1ll << 50);
  GhostReader r(cap, bytes * 8);
  const int64_t pos = vf::range<int64_t>(0, 1ll << 53);
  VF_ASSUME(pos <= bytes * 8);
  r.Havoc(pos);
  const int64_t here = r.Tell();
  VF_ASSERT(here == pos, "Tell reports the position");
  const int64_t p = vf::i64();
  const bool ok = r.Seek(p).ok();
  VF_ASSERT(ok == (p >= 0 && p <= bytes * 8), "ok iff inside the source");
  r.CheckInvariant();
  VF_ASSERT(r.Tell() == (ok ? p : pos), "position");
  VF_ASSERT(r.NumBytesAvailable() <= bytes, "bytes available");
  VF_COVER_IF(ok && p > pos, "forward");
  VF_COVER_IF(ok && p < pos, "backward");
  VF_COVER_IF(!ok, "rejected");
}
// @prop C06
// @desc NumBytesAvailable = whole bytes left; IsDataAvailable iff positive; queries do not move the reader
// @unwind 4
VF_HARNESS(available_any_source) {
  const size_t cap = vf::range<size_t>(1, 1u << 28);
  const int64_t bytes = vf::range<int64_t>(0, 1ll << 50);
  GhostReader r(cap, bytes * 8);
  const int64_t pos = vf::range<int64_t>(0, 1ll << 53);
  VF_ASSUME(pos <= bytes * 8);
  r.Havoc(pos);
  VF_ASSERT(r.NumBytesAvailable() == (bytes * 8 - pos) / 8, "whole bytes left");
  VF_ASSERT(r.IsDataAvailable() == (bytes * 8 - pos >= 8), "data available iff a whole byte is left");
  VF_ASSERT(r.Tell() == pos, "queries keep the position");
  VF_COVER_IF(pos % 8 != 0, "unaligned");
  VF_COVER_IF(pos == bytes * 8, "at end");
}
