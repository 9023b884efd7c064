// absl::StrCat & co. by contract: the text is kept as a tree of pieces, the
// decimal rendering of a number is one opaque piece carrying the number.  A
// std::string refers to a tree by a four byte handle, so texts stay small and
// numbers stay fully symbolic.
#ifndef VF_TEXT_H_
#define VF_TEXT_H_
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "vf_check.h"
namespace vftext {
enum PieceKind : unsigned char { kLit, kStr, kInt, kFlt };
struct Piece { PieceKind kind; const char* p; unsigned long n; unsigned long v; };
struct Node { int n = 0; Piece* p = nullptr; };
inline Node* nodes[600];
inline int num_nodes = 0;
constexpr char kMark = '\x01', kMark2 = '\x02';
__attribute__((noinline)) inline std::string Handle(Node* x) {
  const int id = num_nodes++;
  VF_LIBCHECK(id < 600, "engine: text tree large enough");
  nodes[id] = x;
  std::string s;
  s.push_back(kMark);
  s.push_back(kMark2);
  s.push_back(static_cast<char>(id & 127));
  s.push_back(static_cast<char>(id >> 7));
  return s;
}
__attribute__((noinline)) inline Piece Keep(const char* d, unsigned long n) {
  char* c = new char[n + 1];
  for (unsigned long i = 0; i < n; i++) c[i] = d[i];
  return {kStr, c, n, 0};
}
inline Piece Of(const std::string& s) { return Keep(s.data(), s.size()); }
inline Piece Of(std::string_view s) { return Keep(s.data(), s.size()); }
template <unsigned long N> inline Piece Of(const char (&s)[N]) { return {kLit, s, N - 1, 0}; }
inline Piece Of(double d) {
  unsigned long v;
  __builtin_memcpy(&v, &d, 8);
  return {kFlt, nullptr, 0, v};
}
inline Piece Of(float f) { return Of(static_cast<double>(f)); }
template <class T> inline std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, Piece> Of(T t) {
  return {kInt, nullptr, 0, static_cast<unsigned long>(static_cast<long>(t))};
}
template <class... A> __attribute__((noinline)) inline std::string Cat(const A&... a) {
  Node* x = new Node;
  x->n = sizeof...(A);
  x->p = new Piece[sizeof...(A) + 1]{Of(a)..., Piece{}};
  return Handle(x);
}
}  // namespace vftext
namespace absl {
template <class... A> inline std::string StrCat(const A&... a) { return vftext::Cat(a...); }
template <class... A> inline void StrAppend(std::string* s, const A&... a) { *s = vftext::Cat(*s, a...); }
template <class C> inline std::string StrJoin(const C& c, std::string_view sep) {
  vftext::Node* x = new vftext::Node;
  const unsigned long n = c.size();
  x->p = new vftext::Piece[2 * n + 1];
  for (unsigned long i = 0; i < n; i++) {
    if (i) x->p[x->n++] = vftext::Of(sep);
    x->p[x->n++] = vftext::Of(c[i]);
  }
  return vftext::Handle(x);
}
// Only the conversions %x and %0Nx of one unsigned argument below 2^16.
inline void StrAppendFormat(std::string* s, std::string_view f, unsigned v) {
  for (unsigned long i = 0; i < f.size(); i++) {
    if (f[i] != '%') { s->push_back(f[i]); continue; }
    i++;
    int width = 1;
    if (i < f.size() && f[i] == '0') { i++; width = f[i++] - '0'; }
    VF_LIBCHECK(i < f.size() && f[i] == 'x' && v < 65536, "engine: format conversion modelled");
    bool on = false;
    for (int d = 3; d >= 0; d--) {
      const unsigned h = (v >> (4 * d)) & 15;
      on = on || h != 0 || d < width;
      if (on) s->push_back(static_cast<char>(h < 10 ? '0' + h : 'a' + (h - 10)));
    }
  }
}
template <class... A> std::string StrFormat(std::string_view, const A&...) { VF_LIBFAIL("engine: StrFormat not modelled"); }
}  // namespace absl
#endif
