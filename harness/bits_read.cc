// Contracts of the public ReadBitBuffer API on real Memory/Stream buffers.
// VF-ATTR: fs 64
// VF-ATTR: cbmc -DVF_MEM_VLA
// VF-SOURCES: iamf/common/read_bit_buffer.cc
#include "vf.h"
#include <limits>
#include <string>
#include "iamf/common/read_bit_buffer.h"
using namespace iamf_tools;
namespace {
template <int N> struct Src {
  uint8_t b[N];
  Src() { for (auto& x : b) x = vf::u8(); }
  // The n bits starting at bit p, MSB first (0 <= p, n <= 64, p + n <= 8N).
  uint64_t Bits(int p, int n) const {
    unsigned __int128 all = 0;
    for (int i = 0; i < N; i++) all = all << 8 | b[i];
    const uint64_t v = static_cast<uint64_t>(all >> (8 * N - p - n));
    return n >= 64 ? v : v & ((1ull << n) - 1);
  }
  absl::Span<const uint8_t> span(size_t n = N) const { return absl::MakeConstSpan(b, n); }
};
}  // namespace

// @prop C01
// @desc ReadUnsignedLiteral(n,uint64) for every n: ok iff 0<=n<=64 (the source is long enough); value = next n bits MSB first; position advances by n; failure leaves output and position
// @bound source of 9 bytes, start bit 0..7
// @split 0 7
// @cost 60
VF_HARNESS(read_u64) {
  Src<9> s;
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(s.span());
  const int p = vf::split(0, 7);
  rb->Tell();
  VF_ASSERT(rb->Seek(p).ok(), "seek");
  const int n = vf::i32();
  const uint64_t before = vf::u64();
  uint64_t out = before;
  const bool ok = rb->ReadUnsignedLiteral(n, out).ok();
  VF_ASSERT(ok == (n >= 0 && n <= 64), "ok iff the width is valid");
  VF_ASSERT(rb->Tell() == (ok ? p + n : p), "position");
  VF_ASSERT(out == (ok ? s.Bits(p, n) : before), "value, untouched on failure");
  VF_COVER_IF(ok && n == 64, "64 bits");
  VF_COVER_IF(ok && n == 0, "zero bits");
  VF_COVER_IF(!ok, "rejected");
}
// @prop C01
// @desc reads that run past the end are refused and leave output and position; reads that fit succeed
// @bound source of 0..3 bytes
// @split 0 3
// @cost 30
VF_HARNESS(read_short) {
  Src<3> s;
  const size_t len = vf::split(0, 3);
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(s.span(len));
  const int p = vf::range<int>(0, static_cast<int>(len) * 8);
  rb->Tell();
  VF_ASSERT(rb->Seek(p).ok(), "seek");
  const int n = vf::i32();
  const uint64_t before = vf::u64();
  uint64_t out = before;
  const bool ok = rb->ReadUnsignedLiteral(n, out).ok();
  VF_ASSERT(ok == (n >= 0 && n <= 64 && p + n <= static_cast<int>(len) * 8), "ok iff the bits exist");
  VF_ASSERT(rb->Tell() == (ok ? p + n : p), "position");
  if (ok) VF_ASSERT(out == s.Bits(p, n), "value");
  else VF_ASSERT(out == before, "untouched on failure");
  VF_COVER_IF(!ok && n == 64, "not enough");
  VF_COVER_IF(ok && p == static_cast<int>(len) * 8, "nothing left");
}
// @prop C01
// @desc two consecutive reads consume adjacent bits
// @bound source of 6 bytes, two reads of 0..20 bits
// @cost 20
VF_HARNESS(read_two) {
  Src<6> s;
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(s.span());
  const int n1 = vf::range<int>(0, 20), n2 = vf::range<int>(0, 20);
  uint64_t o1 = 0, o2 = 0;
  VF_ASSERT(rb->ReadUnsignedLiteral(n1, o1).ok(), "first read");
  VF_ASSERT(rb->Tell() == n1, "position 1");
  VF_ASSERT(rb->ReadUnsignedLiteral(n2, o2).ok(), "second read");
  VF_ASSERT(rb->Tell() == n1 + n2, "position 2");
  VF_ASSERT(o1 == s.Bits(0, n1), "value 1");
  VF_ASSERT(o2 == s.Bits(n1, n2), "value 2");
  VF_COVER("end");
}
template <class T> static void Narrow(int max) {
  Src<6> s;
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(s.span());
  const int p = vf::split(0, 15);
  rb->Tell();
  VF_ASSERT(rb->Seek(p).ok(), "seek");
  const int n = vf::i32();
  const T before = static_cast<T>(vf::u64());
  T out = before;
  const bool ok = rb->ReadUnsignedLiteral(n, out).ok();
  VF_ASSERT(ok == (n >= 0 && n <= max && p + n <= 48), "ok iff n fits the output type and the bits exist");
  VF_ASSERT(out == (ok ? static_cast<T>(s.Bits(p, n)) : before), "value, untouched on failure");
  VF_ASSERT(rb->Tell() == (ok ? p + n : p), "position");
  VF_COVER_IF(ok && n == max && p == 5, "full width unaligned");
  VF_COVER_IF(!ok && n == max + 1, "too wide");
}
// @prop C01
// @desc 8-bit overload
// @bound source of 6 bytes, start bit 0..15
// @split 0 15
VF_HARNESS(read_u8) { Narrow<uint8_t>(8); }
// @prop C01
// @desc 16-bit overload
// @bound source of 6 bytes, start bit 0..15
// @split 0 15
VF_HARNESS(read_u16) { Narrow<uint16_t>(16); }
// @prop C01
// @desc 32-bit overload
// @bound source of 6 bytes, start bit 0..15
// @split 0 15
// @cost 20
VF_HARNESS(read_u32) { Narrow<uint32_t>(32); }
// @prop C01 C06
// @desc stream buffer: same value contract whatever the internal capacity (chunked loading)
// @bound source of 5 bytes, capacity 1..4 bytes, read of 0..24 bits at bit 0..9
// @split 1 4
// @cost 60
VF_HARNESS(read_chunked) {
  Src<5> s;
  auto rb = StreamBasedReadBitBuffer::Create(vf::split(1, 4));
  VF_ASSERT(rb != nullptr, "created");
  VF_ASSERT(rb->PushBytes(s.span()).ok(), "pushed");
  const int p = vf::range<int>(0, 9);
  uint64_t skip = 0, out = 0;
  VF_ASSERT(rb->ReadUnsignedLiteral(p, skip).ok(), "skip");
  const int n = vf::range<int>(0, 24);
  VF_ASSERT(rb->ReadUnsignedLiteral(n, out).ok(), "read");
  VF_ASSERT(out == s.Bits(p, n), "value");
  VF_ASSERT(rb->Tell() == p + n, "position");
  VF_COVER_IF(n == 24 && p == 5, "unaligned over several chunks");
}
// @prop C06
// @desc stream buffer history push/read/flush/push/read: bits come out in push order, Flush loses nothing unread, never re-delivers, and Tell restarts relative to the flushed prefix
// @bound pushes of 1..2 and 0/2 bytes, capacity 1..4, reads of 0..16 and 0..17 bits
// @split 0 15
// @cost 100
VF_HARNESS(stream_history) {
  Src<4> s;
  const uint32_t k = vf::split(0, 15);
  const size_t a = 1 + k % 2, b = k / 2 % 2 * 2;
  auto rb = StreamBasedReadBitBuffer::Create(1 + k / 4);
  VF_ASSERT(rb->PushBytes(absl::MakeConstSpan(s.b, a)).ok(), "push 1");
  const int n1 = vf::range<int>(0, 16);
  uint64_t o1 = 0, o2 = 0;
  const bool ok1 = rb->ReadUnsignedLiteral(n1, o1).ok();
  VF_ASSERT(ok1 == (n1 <= static_cast<int>(8 * a)), "read 1 ok iff pushed");
  const int64_t pos = ok1 ? n1 : 0;
  VF_ASSERT(rb->Tell() == pos, "position 1");
  rb->Flush();
  VF_ASSERT(rb->Tell() == pos % 8, "position restarts after the flushed whole bytes");
  VF_ASSERT(rb->PushBytes(absl::MakeConstSpan(s.b + a, b)).ok(), "push 2");
  const int64_t total = 8 * static_cast<int64_t>(a + b);
  VF_ASSERT(rb->NumBytesAvailable() == (total - pos) / 8, "bytes available");
  const int n2 = vf::range<int>(0, 17);
  const bool ok2 = rb->ReadUnsignedLiteral(n2, o2).ok();
  VF_ASSERT(ok2 == (pos + n2 <= total), "read 2 ok iff pushed");
  if (ok1) VF_ASSERT(o1 == s.Bits(0, n1), "value 1");
  if (ok2) VF_ASSERT(o2 == s.Bits(pos, n2), "value 2 continues where read 1 stopped");
  VF_COVER_IF(ok1 && ok2 && n1 == 13 && n2 == 17, "crosses the push boundary");
  VF_COVER_IF(!ok2, "starved");
}
// @prop C06
// @desc Flush disables Seek until the next Tell
// @bound source of 3 bytes, capacity 1..4
// @split 1 4
VF_HARNESS(stream_flush_disables_seek) {
  Src<3> s;
  auto rb = StreamBasedReadBitBuffer::Create(vf::split(1, 4));
  VF_ASSERT(rb->PushBytes(s.span()).ok(), "push");
  uint64_t o = 0;
  const int n = vf::range<int>(0, 24);
  VF_ASSERT(rb->ReadUnsignedLiteral(n, o).ok(), "read");
  rb->Flush();
  const int64_t p = vf::i64();
  VF_ASSERT(!rb->Seek(p).ok(), "seek refused after flush");
  const int64_t t = rb->Tell();
  VF_ASSERT(t == n % 8, "position");
  VF_ASSERT(rb->Seek(p).ok() == (p >= 0 && p <= 24 - 8 * (n / 8)), "seek allowed again after Tell");
  VF_COVER("end");
}
// @prop C06
// @desc creation: negative capacity refused
// @bound capacity at most 4
// @split 0 5
VF_HARNESS(stream_create) {
  const uint32_t k = vf::split(0, 5);
  const int64_t cap = k == 0 ? vf::range<int64_t>(std::numeric_limits<int64_t>::min(), -1) : k - 1;
  auto rb = StreamBasedReadBitBuffer::Create(cap);
  VF_ASSERT((rb != nullptr) == (cap >= 0), "created iff capacity non-negative");
  VF_COVER_IF(cap == -1, "negative");
  VF_COVER_IF(cap == 0, "zero");
}
