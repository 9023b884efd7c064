// Contract of ReadBitBuffer::ReadUnsignedLiteral (proved on the real code by
// the C01 harnesses), used in place of its body when its callers are checked:
//   fails, leaving output and position, iff n<0, n>width of the output type or
//   fewer than n bits remain; otherwise yields some n-bit value and advances
//   by n.
#ifndef VF_TAPE_MAX
#define VF_TAPE_MAX 16
#endif
#include "tape.h"
#include "iamf/common/read_bit_buffer.h"
namespace iamf_tools {
template <class T> static absl::Status Lit(int n, T& out) {
  using namespace vf_tape;
  if (n < 0 || n > static_cast<int>(sizeof(T) * 8)) return absl::InvalidArgumentError("");
  if (rd.pos + n > rd.total) return absl::ResourceExhaustedError("");
  uint64_t v = vf::u64();
  if (n < 64) v &= (1ull << n) - 1;
  if (nonzero) VF_ASSUME(v != 0);
  Put(rd, n, v, kBits);
  rd.pos += n;
  out = static_cast<T>(v);
  return absl::OkStatus();
}
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint64_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint32_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint16_t& out) { return Lit(n, out); }
absl::Status ReadBitBuffer::ReadUnsignedLiteral(int n, uint8_t& out) { return Lit(n, out); }
}  // namespace iamf_tools
