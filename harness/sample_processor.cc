// SampleProcessorBase: the push / flush protocol and the shape checks.
// VF-SOURCES: iamf/cli/sample_processor_base.cc
#include "vf.h"
#include <vector>
#include "iamf/cli/sample_processor_base.h"
using namespace iamf_tools;
namespace {
constexpr size_t kMaxCh = 3;
// The derived half of the contract: it records what it is given and emits an
// arbitrary number (0 or 1) of arbitrary samples per channel.
class Probe : public SampleProcessorBase {
 public:
  Probe(size_t max_in, size_t ch) : SampleProcessorBase(max_in, ch, max_in) {}
  int pushes = 0, flushes = 0;
  const absl::Span<const InternalSampleType>* seen = nullptr;
  size_t seen_size = 0;
  bool clean = true, emit = false, fail = false;
  double value[kMaxCh];
 protected:
  absl::Status Do() {
    for (size_t c = 0; c < num_channels_; c++) {
      if (!output_channel_time_samples_[c].empty()) clean = false;
      if (emit && c < kMaxCh) output_channel_time_samples_[c].push_back(value[c]);
    }
    return fail ? absl::UnknownError("") : absl::OkStatus();
  }
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const InternalSampleType>> s) override {
    pushes++;
    seen = s.data();
    seen_size = s.size();
    return Do();
  }
  absl::Status FlushDerived() override {
    flushes++;
    return Do();
  }
};
void Step(Probe& p, bool& flushed, size_t ch, size_t max_in) {
  const int pushes = p.pushes, flushes = p.flushes;
  p.clean = true;
  p.emit = max_in > 0 && vf::boolean();
  p.fail = vf::boolean();
  for (size_t c = 0; c < kMaxCh; c++) p.value[c] = static_cast<double>(vf::i8());
  bool called;
  if (vf::boolean()) {
    const absl::Status s = p.Flush();
    called = !flushed;
    VF_ASSERT(p.pushes == pushes && p.flushes == flushes + (called ? 1 : 0), "flush reaches the processor exactly when it is the first");
    if (flushed) VF_ASSERT(s.code() == absl::StatusCode::kFailedPrecondition, "second flush is a failed precondition");
    if (called) VF_ASSERT(s.ok() == !p.fail, "flush status passes through");
    VF_COVER_IF(flushed, "second flush");
    VF_COVER_IF(called, "flush");
    flushed = true;
  } else {
    static const double buf[4] = {};
    const size_t n = vf::range<uint32_t>(0, kMaxCh + 1);
    absl::Span<const InternalSampleType> spans[kMaxCh + 1];
    bool good = n == ch;
    for (size_t c = 0; c < kMaxCh + 1; c++) {
      const size_t len = vf::range<uint32_t>(0, 4);
      spans[c] = absl::Span<const InternalSampleType>(buf, len);
      if (c < n && (len != spans[0].size() || len > max_in)) good = false;
    }
    const absl::Status s = p.PushFrame(absl::Span<const absl::Span<const InternalSampleType>>(spans, n));
    called = good && !flushed;
    VF_ASSERT(p.flushes == flushes && p.pushes == pushes + (called ? 1 : 0), "a frame reaches the processor exactly when not flushed and well shaped");
    if (flushed) VF_ASSERT(s.code() == absl::StatusCode::kFailedPrecondition, "push after flush is a failed precondition");
    if (called) {
      VF_ASSERT(p.seen == spans && p.seen_size == ch, "the frame is handed on unchanged");
      VF_ASSERT(s.ok() == !p.fail, "push status passes through");
    } else {
      VF_ASSERT(!s.ok(), "an ill-shaped frame is refused");
    }
    VF_COVER_IF(flushed, "push after flush");
    VF_COVER_IF(called, "push");
    VF_COVER_IF(!good, "bad shape");
  }
  if (called) {
    VF_ASSERT(p.clean, "output of the previous call is gone before the processor runs");
    const auto out = p.GetOutputSamplesAsSpan();
    VF_ASSERT(out.size() == ch, "one output span per channel");
    for (size_t c = 0; c < ch; c++) {
      VF_ASSERT(out[c].size() == (p.emit ? 1u : 0u), "output holds what the last call produced");
      if (p.emit) VF_ASSERT(out[c][0] == p.value[c], "output samples are the produced ones");
    }
    VF_COVER_IF(p.emit, "emitted");
  }
}
}  // namespace
// Prefixes that reach every (flushed, output pending) state of the processor.
void Prefix(Probe& p, uint32_t kind, size_t ch, bool& flushed) {
  static const double buf[1] = {};
  absl::Span<const InternalSampleType> spans[kMaxCh];
  for (size_t c = 0; c < kMaxCh; c++) spans[c] = absl::Span<const InternalSampleType>(buf, 0);
  for (size_t c = 0; c < kMaxCh; c++) p.value[c] = 1;
  p.fail = vf::boolean();
  p.emit = true;
  if (kind & 1) (void)p.PushFrame(absl::Span<const absl::Span<const InternalSampleType>>(spans, ch));
  if (kind & 2) {
    (void)p.Flush();
    flushed = true;
  }
}
// @prop C27
// @desc after any (flushed, pending output) state: a frame of any shape reaches the processor iff well shaped and before the first flush; output is that of the last call
// @bound 0..3 channels, maximum frame lengths 1 and 3, frames of up to 4 samples
// @split 0 31
VF_HARNESS(sample_processor_step) {
  const uint32_t k = vf::split(0, 31);
  const size_t ch = k % 4, max_in = (k / 4) % 2 ? 3 : 1;
  Probe p(max_in, ch);
  VF_ASSERT(p.GetNumChannels() == ch, "channel count kept");
  bool flushed = false;
  Prefix(p, k / 8, ch, flushed);
  Step(p, flushed, ch, max_in);
}
