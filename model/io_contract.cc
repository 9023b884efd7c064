// ReadBitBuffer and WriteBitBuffer by contract, on the ghost wire of io.h.
// The contracts are the ones proved on the real code by the bits_* harnesses.
#include "io.h"
#include <string>
#include "vf_open.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
namespace iamf_tools {
using io::rd;
ReadBitBuffer::ReadBitBuffer(size_t, int64_t) {}
template <class T> static absl::Status Lit(int n, T& out) {
  if (n < 0 || n > static_cast<int>(sizeof(T) * 8)) return absl::InvalidArgumentError("");
  uint64_t v = 0;
  if (!io::Take(rd, n, v)) return absl::ResourceExhaustedError("");
  out = static_cast<T>(v);
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint64_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint32_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint16_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint8_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadSigned16(int16_t& out) {
  uint16_t v;
  if (!Lit(16, v).ok()) return absl::ResourceExhaustedError("");
  out = static_cast<int16_t>(v);
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadSigned8(int8_t& out) {
  uint8_t v;
  if (!Lit(8, v).ok()) return absl::ResourceExhaustedError("");
  out = static_cast<int8_t>(v);
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadSigned9(int16_t& out) {
  uint16_t v;
  if (!Lit(9, v).ok()) return absl::ResourceExhaustedError("");
  out = static_cast<int16_t>(static_cast<uint16_t>(v << 7)) / 128;
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadBoolean(bool& out) {
  uint8_t v;
  if (!Lit(1, v).ok()) return absl::ResourceExhaustedError("");
  out = v != 0;
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadString(std::string& out) {
  io::Tok k;
  out = "";
  if (!io::Next(rd, io::kStr, k)) return absl::ResourceExhaustedError("");
  for (int i = 0; i < k.w; i++) out.push_back(static_cast<char>(k.v >> (8 * i)));
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadULeb128(DecodedUleb128& out, int8_t& size) {
  io::Tok k;
  if (!io::Next(rd, io::kUleb, k)) return absl::ResourceExhaustedError("");
  out = static_cast<DecodedUleb128>(k.v);
  size = static_cast<int8_t>(io::Width(k) / 8);
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadULeb128(DecodedUleb128& out) {
  int8_t size;
  return ReadULeb128(out, size);
}
absl::Status ReadBitBuffer::ReadIso14496_1Expanded(uint32_t max, uint32_t& out) {
  io::Tok k;
  if (!io::Next(rd, io::kIso, k)) return absl::ResourceExhaustedError("");
  if (k.v > max) return absl::InvalidArgumentError("");
  out = static_cast<uint32_t>(k.v);
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadUint8Span(absl::Span<uint8_t> out) {
  for (size_t i = 0; i < out.size(); i++)
    if (!Lit(8, out[i]).ok()) return absl::ResourceExhaustedError("");
  return absl::OkStatus();
}
bool ReadBitBuffer::IsDataAvailable() const { return rd.pos < rd.len; }
int64_t ReadBitBuffer::NumBytesAvailable() const { return (rd.len - rd.pos) / 8; }
int64_t ReadBitBuffer::Tell() { return rd.pos; }
absl::Status ReadBitBuffer::Seek(int64_t position) {
  if (position < 0) return absl::InvalidArgumentError("");
  if (position > rd.len) return absl::ResourceExhaustedError("");
  io::Rewind();
  while (rd.pos < position && rd.cur < rd.n) {
    const int64_t w = io::Width(rd.t[rd.cur]);
    if (rd.pos + w > position) {
      rd.used = static_cast<int>(position - rd.pos);
      rd.pos = position;
    } else {
      rd.pos += w;
      rd.cur++;
    }
  }
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::IgnoreBytes(int64_t n) {
  if (n < 0) return absl::InvalidArgumentError("");
  return Seek(rd.pos + 8 * n);
}

// --- writer
static io::Writer& Of(const void* self) {
  for (int i = 0; i < io::writers; i++)
    if (io::wr[i].self == self) return io::wr[i];
  VF_ASSERT(false, "engine: writer known to the contract");
  return io::wr[0];
}
WriteBitBuffer::WriteBitBuffer(int64_t, const LebGenerator& g) : leb_generator_(g), bit_buffer_(), bit_offset_(0) {
  int k = 0;
  while (k < io::writers && io::wr[k].self != this) k++;  // a writer at the address of a dead one replaces it
  VF_ASSERT(k < io::kWriters, "engine: writer pool large enough");
  if (k == io::writers) io::writers++;
  io::Writer& w = io::wr[k];
  w.w.n = 0;
  w.w.len = 0;
  w.data = nullptr;
  w.self = this;
  bit_buffer_.reserve(io::kMax);
}
// bit_buffer() has the right size; its bytes are abstract.
static void Grow(const void* self, std::vector<uint8_t>& buf, int64_t& off) {
  io::Writer& w = Of(self);
  off = w.w.len;
  if (io::exact_leb) {
    // symbolic size: only the length of the buffer is moved
    if (w.self && buf.capacity() == 0) buf.reserve(io::kMax);
    VF_ASSERT((off + 7) / 8 <= io::kMax, "engine: ghost buffer large enough");
    uint8_t** const v = reinterpret_cast<uint8_t**>(&buf);  // begin, end
    v[1] = v[0] + (off + 7) / 8;
  } else {
    while (static_cast<int64_t>(buf.size()) * 8 < off) buf.push_back(0);
  }
  w.data = buf.data();
}
absl::Status WriteBitBuffer::WriteUnsignedLiteral64(uint64_t data, int n) {
  if (n < 0 || n > 64) return absl::InvalidArgumentError("");
  if (n == 0) return absl::OkStatus();
  if (n < 64 && (data >> n) != 0) return absl::InvalidArgumentError("");
  io::Append(Of(this).w, io::kBits, n, data);
  Grow(this, bit_buffer_, bit_offset_);
  return absl::OkStatus();
}
absl::Status WriteBitBuffer::WriteUnsignedLiteral(uint32_t data, int n) {
  if (n > 32) return absl::InvalidArgumentError("");
  return WriteUnsignedLiteral64(data, n);
}
absl::Status WriteBitBuffer::WriteSigned16(int16_t d) { return WriteUnsignedLiteral64(static_cast<uint16_t>(d), 16); }
absl::Status WriteBitBuffer::WriteSigned9(int16_t d) {
  if (d < -256 || d > 255) return absl::InvalidArgumentError("");
  return WriteUnsignedLiteral64(static_cast<uint16_t>(d) & 0x1ff, 9);
}
absl::Status WriteBitBuffer::WriteSigned8(int8_t d) { return WriteUnsignedLiteral64(static_cast<uint8_t>(d), 8); }
absl::Status WriteBitBuffer::WriteBoolean(bool d) { return WriteUnsignedLiteral64(d ? 1 : 0, 1); }
absl::Status WriteBitBuffer::WriteString(const std::string& s) {
  uint64_t v = 0;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == 0) return absl::InvalidArgumentError("");
    if (i < 8) v |= static_cast<uint64_t>(static_cast<uint8_t>(s[i])) << (8 * i);
  }
  if (s.size() > 127) return absl::InvalidArgumentError("");
  io::Append(Of(this).w, io::kStr, static_cast<int>(s.size()), v);
  Grow(this, bit_buffer_, bit_offset_);
  return absl::OkStatus();
}
absl::Status WriteBitBuffer::WriteUleb128(DecodedUleb128 v) {
  int bytes = 0;
  if (io::exact_leb) {
    bytes = io::MinLeb(v);
    if (leb_generator_.generation_mode_ == LebGenerator::GenerationMode::kFixedSize) {
      if (bytes > leb_generator_.fixed_size_) return absl::InvalidArgumentError("");
      bytes = leb_generator_.fixed_size_;
    }
  }
  io::Append(Of(this).w, io::kUleb, bytes, v);
  Grow(this, bit_buffer_, bit_offset_);
  return absl::OkStatus();
}
absl::Status WriteBitBuffer::WriteIso14496_1Expanded(uint32_t v) {
  io::Append(Of(this).w, io::kIso, 0, v);
  Grow(this, bit_buffer_, bit_offset_);
  return absl::OkStatus();
}
absl::Status WriteBitBuffer::WriteUint8Span(absl::Span<const uint8_t> s) {
  for (int i = 0; i < io::writers; i++) {
    const io::Writer& o = io::wr[i];
    if (!s.empty() && o.self != this && o.data == s.data()) {
      VF_ASSERT(static_cast<int64_t>(s.size()) * 8 == o.w.len, "another writer's buffer is copied whole");
      // the whole of another writer's buffer
      for (int j = 0; j < o.w.n; j++) io::Append(Of(this).w, o.w.t[j].kind, o.w.t[j].w, o.w.t[j].v);
      Grow(this, bit_buffer_, bit_offset_);
      return absl::OkStatus();
    }
  }
  for (size_t i = 0; i < s.size(); i++) io::Append(Of(this).w, io::kBits, 8, s[i]);
  Grow(this, bit_buffer_, bit_offset_);
  return absl::OkStatus();
}
void WriteBitBuffer::Reset() {
  bit_offset_ = 0;
  bit_buffer_.clear();
  Of(this).w.n = 0;
  Of(this).w.len = 0;
}
}  // namespace iamf_tools
