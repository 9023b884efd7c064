// Precomputed downmix gains: table, decompression, lookup.
// VF-GEN: vf_gains_ref.inc model/gen_gains.cc iamf/cli/renderer/gains/precomputed_gains.cc
// VF-SOURCES: iamf/cli/renderer/gains/get_gains.cc iamf/cli/renderer/gains/precomputed_compressed_gains.cc iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.cc
#include "vf.h"
#include <string>
#include <vector>
#include "gains_layouts.h"
#include "vf_gains_ref.inc"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.h"
using namespace iamf_tools;
// @prop C31
// @desc GetGainsForLayoutPair: for every pair of layout names, a matrix is delivered iff the pair is in the uncompressed reference table, has inputs x outputs entries and equals the reference to 1e-6
// @split 0 19
// @maxunwind 2000
// @unwind 250
// @cost 100
// @fs 200
VF_HARNESS(gains_pairs) {
  const int k = vf::split(0, kNum - 1);
  const Layout in = kLayouts[k];
  VF_ASSERT(kUnlistedRefs == 0, "the reference has known layouts only");
  for (int o = 0; o < kNum; o++) {
    const Layout out = kLayouts[o];
    const GainRef ref = kGainRefs[k * kNum + o];
    const auto& got = *new absl::StatusOr<std::vector<std::vector<double>>>(GetGainsForLayoutPair(in.name, out.name));
    VF_ASSERT(got.ok() == (ref.rows != 0), "gains exist exactly for the supported pairs");
    if (!got.ok() || !ref.rows) continue;
    VF_ASSERT(static_cast<int>(ref.rows) == in.channels && static_cast<int>(ref.cols) == out.channels, "reference has the layouts' dimensions");
    if (static_cast<int>(ref.rows) != in.channels || static_cast<int>(ref.cols) != out.channels) continue;
    VF_ASSERT(got->size() == ref.rows, "one row per input channel");
    if (got->size() != ref.rows) continue;
    for (unsigned i = 0; i < ref.rows; i++) {
      VF_ASSERT((*got)[i].size() == ref.cols, "one column per output channel");
      if ((*got)[i].size() != ref.cols) continue;
      for (unsigned j = 0; j < ref.cols; j++) {
        const double d = (*got)[i][j] - ref.v[i * ref.cols + j];
        VF_ASSERT(d <= 1e-6 && d >= -1e-6, "gain equals the uncompressed reference");
      }
    }
  }
  VF_COVER("compared");
}
namespace {
using Matrix = absl::StatusOr<std::vector<std::vector<double>>>;
const Matrix& Decompress(const char* in, const char* out, const CompressedMatrix& m) { return *new Matrix(DecompressMatrix(in, out, m)); }
constexpr double kBook[] = {0, 0.5, 0.57735026918962576, 0.70710678118654752, 0.81649658092772603, 0.85355339059327376, 1, 1.1547005383792515, 1.2071067811865475, 1.2247448713915890};
}  // namespace
// @prop C31
// @desc DecompressMatrix, dense data of any values: row-major into an inputs x outputs matrix, for every layout against mono
// @split 0 39
// @unwind 30
VF_HARNESS(gains_dense) {
  const uint32_t k = vf::split(0, 2 * kNum - 1);
  const Layout l = kLayouts[k / 2];
  const bool rows = k % 2;
  CompressedMatrix m;
  float v[25];
  for (int i = 0; i < 25; i++) {
    v[i] = vf::f32();
    VF_ASSUME(v[i] == v[i]);
  }
  m.dense_data.assign(v, v + l.channels);
  const Matrix& got = rows ? Decompress(l.name, "0+1+0", m) : Decompress("0+1+0", l.name, m);
  VF_ASSERT(got.ok(), "dense data of known layouts decompresses");
  if (!got.ok()) return;
  const size_t n = l.channels;
  VF_ASSERT(got->size() == (rows ? n : 1) && (*got)[0].size() == (rows ? 1 : n), "inputs x outputs");
  if (!(got->size() == (rows ? n : 1) && (*got)[0].size() == (rows ? 1 : n))) return;
  for (size_t i = 0; i < n; i++) VF_ASSERT((rows ? (*got)[i][0] : (*got)[0][i]) == static_cast<double>(v[i]), "row-major gains, widened exactly");
  VF_COVER("dense");
}
// @prop C31
// @desc DecompressMatrix, any sparse blob of 0..8 bytes for stereo to stereo: rejected iff too short, odd, or listing more elements than it has; otherwise listed elements hold their codebook value, all others 0
// @bound blobs of up to 8 bytes
// @split 0 8
// @unwind 30
VF_HARNESS(gains_sparse) {
  const size_t n = vf::split(0, 8);
  uint8_t b[10];
  for (size_t i = 0; i < n; i++) b[i] = vf::u8();
  CompressedMatrix m;
  m.sparse_blob.assign(b, b + n);
  const Matrix& got = Decompress("0+2+0", "0+2+0", m);
  const bool shape = n == 0 || (n >= 2 && n % 2 == 0);
  const size_t nz = n >= 2 ? (n - 2) / 2 : 0;
  const bool want = shape && (n == 0 || static_cast<size_t>(b[0]) + b[1] <= nz);
  VF_ASSERT(got.ok() == want, "decompresses iff the blob is consistent");
  VF_COVER("decompressed");
  if (!got.ok() || !want) return;
  double e[2][2] = {{0, 0}, {0, 0}};
  if (n > 0)
    for (size_t k = 0; k < nz; k++) {
      if (k >= static_cast<size_t>(b[0]) + b[1]) break;
      const uint8_t col = b[2 + k], val = b[2 + nz + k];
      if (col < 2 && val < 10) e[k < b[0] ? 0 : 1][col] = kBook[val];
    }
  VF_ASSERT(got->size() == 2 && (*got)[0].size() == 2 && (*got)[1].size() == 2, "2 x 2");
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) {
      const double d = (*got)[i][j] - e[i][j];
      VF_ASSERT(d <= 1e-9 && d >= -1e-9, "listed gains and zeros elsewhere");
    }
}
// @prop C31
// @unwind 6
// @fs 200
// @desc unknown layout names, empty, prefixes, extensions and near misses of known ones, are refused
// @bound six unknown names
VF_HARNESS(gains_unknown) {
  static const char* const kNames[] = {"", "A5", "A00", "0+3+0", "0+2+", "a1"};
  for (const char* name : kNames) {
    const auto& a = *new Matrix(GetGainsForLayoutPair(name, "0+2+0"));
    const auto& b = *new Matrix(GetGainsForLayoutPair("A0", name));
    VF_ASSERT(a.status().code() == absl::StatusCode::kNotFound && b.status().code() == absl::StatusCode::kNotFound, "no gains for an unknown layout");
  }
  VF_COVER("unknown");
}
