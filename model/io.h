// Ghost wire: the abstract state of ReadBitBuffer / WriteBitBuffer in the
// contracts their callers are checked against.  A wire is a sequence of tokens
// (kind, width, value).  The harness spells out the wire the specification
// prescribes (Bits/Uleb/...); the reader contract delivers it, the writer
// contract records what is written, Written() compares.
//   Bits(w,v)  w-bit big-endian field        Uleb(v)  unsigned LEB128
//   Iso(v)     ISO 14496-1 expandable size   Str(n,v) n characters packed in v
// A run of Bits tokens is one bit string: it may be read and written in any
// grouping.  The size of a ULEB128 / expandable size is abstracted to one byte
// on both sides unless it is given (UlebN) or io::exact_leb is set, which makes
// the writer contract use the size its LebGenerator prescribes.
#ifndef VF_IO_H_
#define VF_IO_H_
#include "vf.h"
#include "iamf/common/read_bit_buffer.h"
namespace io {
#ifndef VF_IO_MAX
#define VF_IO_MAX 96
#endif
constexpr int kMax = VF_IO_MAX;
constexpr int kWriters = 4;
constexpr int64_t kUlebBits = 8;
enum Kind : uint8_t { kBits, kUleb, kIso, kStr };
struct Tok { uint64_t v; int w; uint8_t kind; };
struct Wire {
  Tok t[kMax];
  int n = 0;         // tokens
  int cur = 0;       // next token to read
  int used = 0;      // bits of it already read
  int64_t pos = 0;   // bits before the cursor
  int64_t len = 0;   // bits on the wire
};
inline Wire rd;
struct Writer {
  const void* self = nullptr;
  const uint8_t* data = nullptr;  // its buffer after the last write
  Wire w;
};
inline Writer wr[kWriters];
inline int writers = 0;
inline bool exact_leb = false;
inline bool sizes_only = false;  // the writer contract keeps the size, not the content
inline int64_t Width(const Tok& k) { return k.kind == kBits ? k.w : k.kind == kStr ? 8 * (k.w + 1) : k.w ? 8 * k.w : kUlebBits; }
inline int MinLeb(uint32_t v) { return v < (1u << 7) ? 1 : v < (1u << 14) ? 2 : v < (1u << 21) ? 3 : v < (1u << 28) ? 4 : 5; }
inline void Put(Wire& x, uint8_t kind, int w, uint64_t v) {
  VF_ASSERT(x.n < kMax, "engine: ghost wire large enough");
  if (x.n >= kMax) return;
  x.t[x.n].kind = kind;
  x.t[x.n].w = w;
  x.t[x.n].v = v;
  x.len += Width(x.t[x.n]);
  x.n++;
}
// A writer appends.
inline void Append(Wire& x, uint8_t kind, int w, uint64_t v) {
  if (sizes_only) {
    Tok t;
    t.v = v;
    t.w = w;
    t.kind = kind;
    x.len += Width(t);
  } else {
    Put(x, kind, w, v);
  }
}
inline uint64_t Mask(int w, uint64_t v) { return w >= 64 ? v : v & ((1ull << w) - 1); }
// The wire of the specification.
inline uint64_t Bits(int w, uint64_t v) { v = Mask(w, v); Put(rd, kBits, w, v); return v; }
inline uint64_t Bits(int w) { return Bits(w, vf::u64()); }
inline int16_t S16(int16_t v) { Put(rd, kBits, 16, static_cast<uint16_t>(v)); return v; }
inline int16_t S16() { return S16(vf::i16()); }
inline uint32_t Uleb(uint32_t v) { Put(rd, kUleb, 0, v); return v; }
inline uint32_t Uleb() { return Uleb(vf::u32()); }
inline uint32_t UlebN(uint32_t v, int bytes) { Put(rd, kUleb, bytes, v); return v; }
inline uint32_t Iso(uint32_t v) { Put(rd, kIso, 0, v); return v; }
inline uint64_t Str(int n, uint64_t v) {
  v = n >= 8 ? v : Mask(8 * n, v);
  Put(rd, kStr, n, v);
  return v;
}
inline void Reset() { rd.n = rd.cur = rd.used = 0; rd.pos = rd.len = 0; }
inline void Rewind() { rd.cur = rd.used = 0; rd.pos = 0; }
// Keeps only the first n tokens.
inline void Cut(int n) {
  while (rd.n > n) { rd.n--; rd.len -= Width(rd.t[rd.n]); }
}
inline int64_t Bytes() { return rd.len / 8; }
inline bool AllRead() { return rd.cur == rd.n; }
// Bit string reader over a wire. False: the wire ends first.
inline bool Take(Wire& x, int n, uint64_t& v) {
  uint64_t r = 0;
  int got = 0;
  if (n > 0 && x.cur < x.n && x.used == 0 && x.t[x.cur].kind == kBits && x.t[x.cur].w == n) {
    v = x.t[x.cur].v;
    x.cur++;
    x.pos += n;
    return true;
  }
  while (got < n) {
    if (x.cur >= x.n) return false;
    const Tok& k = x.t[x.cur];
    VF_ASSERT(k.kind == kBits, "a fixed-width field is read only where the wire has one");
    if (k.kind != kBits) return false;
    const int left = k.w - x.used;
    const int m = left < n - got ? left : n - got;
    r = m >= 64 ? k.v : (r << m) | ((k.v >> (left - m)) & ((1ull << m) - 1));
    got += m;
    x.used += m;
    x.pos += m;
    if (x.used == k.w) { x.cur++; x.used = 0; }
  }
  v = r;
  return true;
}
// The next token as a whole.  False: the wire ends first.
inline bool Next(Wire& x, uint8_t kind, Tok& out) {
  if (x.cur >= x.n) return false;
  VF_ASSERT(x.used == 0 && x.t[x.cur].kind == kind, "a variable-length field is read only where the wire has one of that kind");
  out = x.t[x.cur];
  if (x.used != 0 || out.kind != kind) return false;
  x.pos += Width(out);
  x.cur++;
  return true;
}
// The wire writer 0 produced is the specified one, from the start.
inline void Written(const char* what) {
  Wire& w = wr[0].w;
  w.cur = w.used = 0;
  w.pos = 0;
  VF_ASSERT(writers >= 1 && w.len == rd.len, what);
  if (w.len != rd.len) return;
  for (int i = 0; i < rd.n; i++) {
    const Tok& k = rd.t[i];
    if (k.kind == kBits) {
      uint64_t v = 0;
      const bool ok = Take(w, k.w, v);
      VF_ASSERT(ok && v == k.v, what);
    } else {
      Tok o{};
      const bool ok = Next(w, k.kind, o);
      VF_ASSERT(ok && o.w == k.w && o.v == k.v, what);
    }
  }
}
// A reader over the wire.
class Reader : public iamf_tools::ReadBitBuffer {
 public:
  Reader() : iamf_tools::ReadBitBuffer(0, 0) {}
 protected:
  absl::Status LoadBytesToBuffer(int64_t, int64_t) override { return absl::OkStatus(); }
};
}  // namespace io
#endif
