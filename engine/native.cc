// Native runtime of the contract harnesses: replays a draw list or searches
// randomly.  Exit 0: held, 77: precondition not met (replay), 1: violated.
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <vector>

struct VfReg { const char* n; void (*f)(); };
extern const VfReg vf_registry[];
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace {
struct AssumeFailed {};
bool replay_mode;
std::vector<uint64_t> given;
std::vector<uint64_t> log_;
uint64_t state;
const char* dump_path;
uint64_t Rng() {
  uint64_t z = (state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Dump() {
  if (!dump_path) return;
  FILE* f = fopen(dump_path, "w");
  if (!f) return;
  for (auto v : log_) fprintf(f, "%llu\n", (unsigned long long)v);
  fclose(f);
}
uint64_t Mask(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
uint64_t Draw(int bits, uint64_t lo, uint64_t hi) {
  uint64_t v;
  if (replay_mode) {
    v = log_.size() < given.size() ? given[log_.size()] : 0;
    v &= Mask(bits);
  } else {
    uint64_t span = hi - lo;
    uint64_t r = Rng();
    switch (r % 8) {
      case 0: v = lo + (Rng() % 4 <= span ? Rng() % 4 % (span == ~0ull ? 4 : span + 1) : 0); break;
      case 1: v = hi - (span == 0 ? 0 : Rng() % 3 % (span == ~0ull ? 3 : span + 1)); break;
      case 2: { uint64_t k = Rng() % (bits + 1); uint64_t c = (k >= 64 ? 0 : (1ull << k)) + Rng() % 3 - 1; c &= Mask(bits);
                v = (c >= lo && c <= hi) ? c : (span == ~0ull ? c : lo + c % (span + 1)); break; }
      case 3: { uint64_t k = Rng() % bits; uint64_t c = Rng() & Mask(k + 1); v = (c >= lo && c <= hi) ? c : (span == ~0ull ? c : lo + c % (span + 1)); break; }
      default: { uint64_t c = Rng(); v = span == ~0ull ? c : lo + c % (span + 1); }
    }
  }
  log_.push_back(v);
  return v;
}
}  // namespace

extern "C" {
uint64_t vf_nondet_u64(void) { return Draw(64, 0, ~0ull); }
uint32_t vf_nondet_u32(void) { return (uint32_t)Draw(32, 0, 0xffffffffu); }
uint16_t vf_nondet_u16(void) { return (uint16_t)Draw(16, 0, 0xffff); }
uint8_t vf_nondet_u8(void) { return (uint8_t)Draw(8, 0, 0xff); }
[[noreturn]] void vf_native_fail(const char* msg) {
  printf("VF-VIOLATED: %s\n", msg);
  fflush(stdout);
  Dump();
  _exit(1);
}
void vf_assert_impl(bool c, const char* msg) { if (!c) vf_native_fail(msg); }
void vf_assume_impl(bool c) { if (!c) throw AssumeFailed(); }
void vf_cover_impl(const char*) {}
}
namespace vf {
uint64_t ranged_abs(uint64_t lo, uint64_t hi, int bits) {
  // signed types arrive as sign-extended 64-bit values: work modulo 2^bits.
  uint64_t m = Mask(bits), span = (hi - lo) & m;
  if (replay_mode) {
    uint64_t v = Draw(bits, 0, m);
    if (((v - lo) & m) > span) throw AssumeFailed();
    return v;
  }
  uint64_t off = Draw(bits, 0, span);
  uint64_t v = (lo + off) & m;
  log_.back() = v;
  return v;
}
}  // namespace vf

static void OnDeath() { printf("VF-VIOLATED: sanitizer\n"); fflush(stdout); Dump(); }

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  void (*f)() = nullptr;
  for (const VfReg* r = vf_registry; r->n; ++r) if (!strcmp(r->n, argv[2])) f = r->f;
  if (!f) { fprintf(stderr, "no harness\n"); return 2; }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(OnDeath);
  if (!strcmp(argv[1], "replay")) {
    replay_mode = true;
    FILE* in = fopen(argv[3], "r");
    unsigned long long v;
    while (in && fscanf(in, "%llu", &v) == 1) given.push_back(v);
    try { f(); } catch (AssumeFailed&) { printf("precondition not met\n"); return 77; }
    catch (std::exception& e) { printf("VF-VIOLATED: exception %s\n", e.what()); return 1; }
    printf("contract held\n");
    return 0;
  }
  uint64_t seed = strtoull(argv[3], 0, 10);
  double secs = atof(argv[4]);
  dump_path = argc > 5 ? argv[5] : nullptr;
  auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0, rej = 0;
  while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
    for (int k = 0; k < 50; ++k) {
      state = seed * 0x2545F4914F6CDD1Dull + n * 0x9E3779B97F4A7C15ull;
      ++n;
      log_.clear();
      try { f(); } catch (AssumeFailed&) { ++rej; }
      catch (std::exception& e) { printf("VF-VIOLATED: exception %s\n", e.what()); Dump(); return 1; }
    }
  }
  printf("executions %llu rejected %llu\n", (unsigned long long)n, (unsigned long long)rej);
  return 0;
}
