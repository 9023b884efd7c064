// Contract stand-in for std::istream (pre-included, so that the real reader is
// compiled against it): a seekable byte source with the failbit / eofbit rules
// of [istream.unformatted] and [istream::seekg].  Whether seeking past the end
// fails (string streams) or succeeds (files) is left open.  Native replays use
// the real std::istringstream.
#ifndef VF_ISTREAM_H_
#define VF_ISTREAM_H_
#include <fstream>
#include <iostream>
#include <istream>
#include <sstream>
#include <string>
#ifdef VF_NATIVE
namespace std {
class vf_istream_source : public std::istringstream {
 public:
  vf_istream_source(const unsigned char* d, long n) : std::istringstream(std::string(reinterpret_cast<const char*>(d), n)) {}
};
}  // namespace std
#else
extern "C" unsigned char vf_nondet_u8(void);
namespace std {
class vf_istream {
 public:
  vf_istream(const unsigned char* d, long n) : d_(d), n_(n) {}
  explicit operator bool() const { return !fail_; }
  bool operator!() const { return fail_; }
  bool good() const { return !fail_ && !eof_; }
  bool fail() const { return fail_; }
  bool eof() const { return eof_; }
  bool bad() const { return false; }
  void clear() {
    fail_ = eof_ = false;
    if (unmoved_) pos_ = back_;
    unmoved_ = false;
  }
  vf_istream& read(char* out, std::streamsize k) {
    count_ = 0;
    if (fail_ || eof_) { fail_ = true; return *this; }
    for (std::streamsize i = 0; i < k; ++i) {
      if (pos_ >= n_) { eof_ = fail_ = true; return *this; }
      out[i] = static_cast<char>(d_[pos_++]);
      ++count_;
    }
    return *this;
  }
  int get() {
    char c;
    return read(&c, 1) ? static_cast<unsigned char>(c) : -1;
  }
  vf_istream& ignore(std::streamsize k = 1) {
    count_ = 0;
    if (fail_ || eof_) { fail_ = true; return *this; }
    const long rest = pos_ < n_ ? n_ - pos_ : 0;
    if (k > rest) { pos_ += rest; count_ = rest; eof_ = true; }
    else { pos_ += k; count_ = k; }
    return *this;
  }
  std::streamsize gcount() const { return count_; }
  long tellg() { return fail_ ? -1 : pos_; }
  vf_istream& seekg(long p) { return To(p); }
  vf_istream& seekg(long off, std::ios_base::seekdir dir) {
    return To(off + (dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos_ : n_));
  }

 private:
  vf_istream& To(long p) {
    eof_ = false;
    if (fail_) return *this;
    if (p < 0) { fail_ = true; return *this; }
    // A failed seek leaves the position; that shows only after clear().
    if (p > n_ && (vf_nondet_u8() & 1)) { fail_ = unmoved_ = true; back_ = pos_; }
    pos_ = p;
    return *this;
  }
  const unsigned char* d_;
  long n_, pos_ = 0, count_ = 0;
  long back_ = 0;
  bool fail_ = false, eof_ = false, unmoved_ = false;
};
using vf_istream_source = vf_istream;
}  // namespace std
#define istream vf_istream
#endif
#endif
