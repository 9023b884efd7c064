// Prints the matrices InitPrecomputedGains() builds, as C arrays indexed by layout pair.
#include <cstdio>
#include "gains_layouts.h"
#include "iamf/cli/renderer/gains/precomputed_gains.h"
extern "C" void vf_native_fail(const char* m) { fputs(m, stderr); _Exit(3); }
extern "C" void vf_unexpected_error() { _Exit(3); }
int main() {
  const auto g = iamf_tools::InitPrecomputedGains();
  std::string table;
  size_t n = 0, total = 0;
  for (const auto& [in, m] : g) total += m.size();
  for (int i = 0; i < kNum; i++)
    for (int j = 0; j < kNum; j++) {
      size_t nrows = 0, cols = 0;
      const auto a = g.find(kLayouts[i].name);
      if (a != g.end()) {
        const auto b = a->second.find(kLayouts[j].name);
        if (b != a->second.end()) {
          printf("inline constexpr double kRef%d_%d[] = {", i, j);
          nrows = b->second.size();
          cols = nrows ? b->second[0].size() : 0;
          for (const auto& r : b->second) {
            if (r.size() != cols) cols = 99999;  // not rectangular: fails the dimension obligation
            for (double v : r) printf("%a,", v);
          }
          printf("};\n");
          n++;
        }
      }
      char b[200];
      if (nrows) snprintf(b, sizeof b, "{%zu,%zu,kRef%d_%d},\n", nrows, cols, i, j);
      else snprintf(b, sizeof b, "{0,0,0},\n");
      table += b;
    }
  printf("struct GainRef { unsigned rows, cols; const double* v; };\ninline constexpr GainRef kGainRefs[] = {\n%s};\ninline constexpr int kUnlistedRefs = %zu;\n", table.c_str(), total - n);
}
