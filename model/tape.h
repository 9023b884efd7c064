// Ghost bit tape: the abstract state of ReadBitBuffer / WriteBitBuffer in the
// contracts their callers are checked against.  A tape is a sequence of tokens
// (width in bits, value); position = sum of the widths before the cursor.
#ifndef VF_TAPE_H_
#define VF_TAPE_H_
#include "vf.h"
namespace vf_tape {
constexpr int kMax = VF_TAPE_MAX;
enum Kind : uint8_t { kBits, kUleb, kIso };
struct Tok { uint64_t v; int16_t w; uint8_t kind; };
struct Tape {
  Tok t[kMax];
  int n = 0;        // tokens on the tape
  int cur = 0;      // next token to read
  int64_t pos = 0;  // bits before `cur`
  int64_t total = 0;
};
// Tokens delivered to the reader.
inline Tape rd;
// Tokens produced by the writer.
inline Tape wr;
// true: reads draw arbitrary values (appended to rd); false: reads replay rd.
inline bool fresh = true;
// Restricts fresh values to non-zero ones (a case split of some contracts).
inline bool nonzero = false;
inline void Put(Tape& t, int w, uint64_t v, uint8_t kind) {
  VF_ASSUME(t.n < kMax);
  t.t[t.n].v = v;
  t.t[t.n].w = static_cast<int16_t>(w);
  t.t[t.n].kind = kind;
  t.n++;
}
}  // namespace vf_tape
#endif
