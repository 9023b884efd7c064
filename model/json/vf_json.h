// A push JSON parser over text trees (RFC 8259): checks syntax and records the
// scalar found at every path.  Paths are FNV hashes of "/key" and "/#index".
#ifndef VF_JSON_H_
#define VF_JSON_H_
#include "vf.h"
#include "vf_text.h"
namespace vfjson {
constexpr uint64_t kSeed = 1469598103934665603ull;
__attribute__((noinline)) inline uint64_t H(uint64_t h, unsigned char c) { return (h ^ c) * 1099511628211ull; }
__attribute__((noinline)) inline uint64_t HS(uint64_t h, const char* s) {
  for (; *s; s++) h = H(h, static_cast<unsigned char>(*s));
  return h;
}
enum Kind : uint8_t { kNum, kFloat, kString, kTrue, kFalse, kNull, kEmptyArray, kEmptyObject };
struct Item { uint64_t path; uint64_t v; uint8_t kind; };
constexpr int kMaxItems = 500;
__attribute__((noinline)) inline Item items[kMaxItems];
__attribute__((noinline)) inline int num_items = 0;
enum State : uint8_t { kValue, kValueOrEnd, kKeyOrEnd, kKey, kColon, kCommaOrEnd, kInString, kInEscape, kInHex, kInWord, kDone };
struct Ctx { uint64_t path; int count; bool object; };
struct Parser {
  Ctx st[16];
  int depth = 0;
  State s = kValue;
  bool is_key = false, bad = false;
  uint64_t path = kSeed, str = kSeed;
  unsigned hex = 0;
  int hexn = 0;
  const char* word = nullptr;
  uint8_t word_kind = 0;
};
__attribute__((noinline)) inline Parser ps;
__attribute__((noinline)) inline void Bad() {
  VF_ASSERT(false, "output is well-formed JSON");
  ps.bad = true;
}
// Open-addressed table of item numbers, by path.
constexpr unsigned kSlots = 512;
inline int16_t slots[kSlots];
__attribute__((noinline)) inline unsigned Slot(uint64_t path) {
  unsigned i = static_cast<unsigned>((path ^ (path >> 32)) % kSlots);
  while (slots[i] != 0 && items[slots[i] - 1].path != path) i = (i + 1) % kSlots;
  return i;
}
__attribute__((noinline)) inline void Record(uint8_t kind, uint64_t v) {
  if (num_items >= kMaxItems) { VF_ASSERT(false, "engine: item table large enough"); return; }
  const unsigned i = Slot(ps.path);
  VF_ASSERT(slots[i] == 0, "no member is repeated");
  items[num_items] = {ps.path, v, kind};
  slots[i] = static_cast<int16_t>(++num_items);
}
__attribute__((noinline)) inline void AfterValue() { ps.s = ps.depth == 0 ? kDone : kCommaOrEnd; }
__attribute__((noinline)) inline uint64_t IndexPath(const Ctx& c) { return H(HS(c.path, "/#"), static_cast<unsigned char>('0' + c.count)); }
__attribute__((noinline)) inline void Open(bool object) {
  if (ps.depth >= 15) { Bad(); return; }
  Ctx& c = ps.st[ps.depth++];
  c.path = ps.path;
  c.count = 0;
  c.object = object;
  ps.s = object ? kKeyOrEnd : kValueOrEnd;
  if (!object) ps.path = IndexPath(c);
}
__attribute__((noinline)) inline void Close(bool object) {
  if (ps.depth == 0 || ps.st[ps.depth - 1].object != object) { Bad(); return; }
  const Ctx& c = ps.st[--ps.depth];
  ps.path = c.path;
  if (c.count == 0) Record(object ? kEmptyObject : kEmptyArray, 0);
  AfterValue();
}
__attribute__((noinline)) inline void StartValue() { if (ps.depth > 0) ps.st[ps.depth - 1].count++; }
__attribute__((noinline)) inline void EndString() {
  if (ps.is_key) {
    ps.path = ps.str;
    ps.s = kColon;
  } else {
    Record(kString, ps.str);
    AfterValue();
  }
}
__attribute__((noinline)) inline void StrChar(unsigned char c) { ps.str = H(ps.str, c); }
__attribute__((noinline)) inline void Feed(unsigned char c) {
  if (ps.bad) return;
  switch (ps.s) {
    case kInString:
      if (c == '"') EndString();
      else if (c == '\\') ps.s = kInEscape;
      else if (c < 0x20) Bad();
      else StrChar(c);
      return;
    case kInEscape: {
      ps.s = kInString;
      switch (c) {
        case '"': case '\\': case '/': StrChar(c); return;
        case 'b': StrChar(8); return;
        case 'f': StrChar(12); return;
        case 'n': StrChar(10); return;
        case 'r': StrChar(13); return;
        case 't': StrChar(9); return;
        case 'u': ps.s = kInHex; ps.hex = 0; ps.hexn = 0; return;
        default: Bad(); return;
      }
    }
    case kInHex: {
      unsigned d;
      if (c >= '0' && c <= '9') d = c - '0';
      else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
      else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
      else { Bad(); return; }
      ps.hex = ps.hex * 16 + d;
      if (++ps.hexn == 4) {
        if (ps.hex >= 0x80) { Bad(); return; }  // only ASCII is ever escaped
        StrChar(static_cast<unsigned char>(ps.hex));
        ps.s = kInString;
      }
      return;
    }
    case kInWord:
      if (c != static_cast<unsigned char>(*ps.word)) { Bad(); return; }
      if (*++ps.word == 0) { Record(ps.word_kind, 0); AfterValue(); }
      return;
    default: break;
  }
  if (c == ' ' || c == '\n' || c == '\t' || c == '\r') return;
  switch (ps.s) {
    case kValueOrEnd:
      if (c == ']') { Close(false); return; }
      [[fallthrough]];
    case kValue:
      if (c == '{' || c == '[') { StartValue(); Open(c == '{'); return; }
      if (c == '"') { StartValue(); ps.is_key = false; ps.str = kSeed; ps.s = kInString; return; }
      if (c == 't' || c == 'f' || c == 'n') {
        StartValue();
        ps.word = c == 't' ? "rue" : c == 'f' ? "alse" : "ull";
        ps.word_kind = c == 't' ? kTrue : c == 'f' ? kFalse : kNull;
        ps.s = kInWord;
        return;
      }
      Bad();
      return;
    case kKeyOrEnd:
      if (c == '}') { Close(true); return; }
      [[fallthrough]];
    case kKey:
      if (c != '"') { Bad(); return; }
      ps.is_key = true;
      ps.str = H(ps.st[ps.depth - 1].path, '/');
      ps.s = kInString;
      return;
    case kColon:
      if (c != ':') { Bad(); return; }
      ps.s = kValue;
      return;
    case kCommaOrEnd: {
      Ctx& t = ps.st[ps.depth - 1];
      if (c == ',') {
        ps.s = t.object ? kKey : kValue;
        if (!t.object) ps.path = IndexPath(t);
        return;
      }
      if (c == '}' || c == ']') { Close(c == '}'); return; }
      Bad();
      return;
    }
    default: Bad(); return;
  }
}
__attribute__((noinline)) inline void FeedNumber(uint8_t kind, uint64_t v) {
  if (ps.bad) return;
  if (ps.s != kValue && ps.s != kValueOrEnd) { Bad(); return; }
  StartValue();
  Record(kind, v);
  AfterValue();
}
__attribute__((noinline)) inline void Walk(const char* p, unsigned long n) {
  for (unsigned long i = 0; i < n; i++) {
    if (p[i] == vftext::kMark && i + 3 < n && p[i + 1] == vftext::kMark2) {
      const vftext::Node* x = vftext::nodes[p[i + 2] + (p[i + 3] << 7)];
      i += 3;
      for (int k = 0; k < x->n; k++) {
        const vftext::Piece& q = x->p[k];
        if (q.kind == vftext::kInt) FeedNumber(kNum, q.v);
        else if (q.kind == vftext::kFlt) FeedNumber(kFloat, q.v);
        else Walk(q.p, q.n);
      }
    } else {
      Feed(static_cast<unsigned char>(p[i]));
    }
  }
}
// ---- expectations --------------------------------------------------------
__attribute__((noinline)) inline Item want[kMaxItems];
__attribute__((noinline)) inline int num_want = 0;
struct P {
  uint64_t h;
  P operator/(const char* key) const { return {HS(H(h, '/'), key)}; }
  P operator[](int i) const { return {H(HS(h, "/#"), static_cast<unsigned char>('0' + i))}; }
};
__attribute__((noinline)) inline void Expect(P p, uint8_t kind, uint64_t v) { want[num_want++] = {p.h, v, kind}; }
template <class T> T Int(P p) {
  const T x = vf::any<T>();
  Expect(p, kNum, static_cast<uint64_t>(static_cast<int64_t>(x)));
  return x;
}
__attribute__((noinline)) inline float Flt(P p) {
  const float f = vf::f32();
  VF_ASSUME(f - f == 0);
  const double d = f;
  uint64_t v;
  std::memcpy(&v, &d, 8);
  Expect(p, kFloat, v);
  return f;
}
__attribute__((noinline)) inline double Dbl(P p) {
  const double d = vf::f64();
  VF_ASSUME(d - d == 0);
  uint64_t v;
  std::memcpy(&v, &d, 8);
  Expect(p, kFloat, v);
  return d;
}
__attribute__((noinline)) inline int str_id = 0;
__attribute__((noinline)) inline std::string Str(P p) {
  char s[5] = {'a', '"', static_cast<char>('A' + str_id % 26), static_cast<char>('a' + str_id / 26), 0};
  str_id++;
  Expect(p, kString, HS(kSeed, s));
  return std::string(s, 4);
}
// Presence pattern of the k-th optional part.
__attribute__((noinline)) inline int pattern = 0, part = 0;
__attribute__((noinline)) inline bool On() {
  const int i = part++;
  switch (pattern) {
    case 0: return false;
    case 1: return true;
    case 2: return i & 1;
    case 3: return !(i & 1);
    case 4: return (i >> 1) & 1;
    default: return !((i >> 1) & 1);
  }
}
__attribute__((noinline)) inline bool Bool(P p) {
  const bool b = On();
  Expect(p, b ? kTrue : kFalse, 0);
  return b;
}
__attribute__((noinline)) inline int Len(P p) {
  const int n = On() ? 2 : On() ? 1 : 0;
  if (n == 0) Expect(p, kEmptyArray, 0);
  return n;
}
constexpr uint8_t kAbsent = 99;
__attribute__((noinline)) inline void Absent(P p) { Expect(p, kAbsent, 0); }
__attribute__((noinline)) inline void Check(const std::string& text) {
  ps = Parser();
  num_items = 0;
  std::memset(slots, 0, sizeof slots);
  Walk(text.data(), text.size());
  VF_ASSERT(ps.s == kDone && !ps.bad, "output is one complete JSON value");
  for (int i = 0; i < num_want; i++) {
    const int16_t n = slots[Slot(want[i].path)];
    if (want[i].kind == kAbsent) {
      VF_ASSERT(n == 0, "an absent field is not printed");
    } else {
      VF_ASSERT(n != 0, "every present field is printed");
      if (n != 0) VF_ASSERT(items[n - 1].kind == want[i].kind && items[n - 1].v == want[i].v, "a key carries the value of its report field");
    }
  }
}
}  // namespace vfjson
#endif
