From 2b2ea8e96fb667291dbdae4ef7fd2be19dc50e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:01 +0000
Subject: [PATCH 1/3] fix: compare mathematical values in StaticCastIfInRange

The built-in comparison converted negative values when the types differ in
signedness: int32_t{-1} was accepted as a uint32_t and every uint32_t was
refused as an int8_t.
---
 iamf/common/utils/numeric_utils.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/iamf/common/utils/numeric_utils.h b/iamf/common/utils/numeric_utils.h
index b284e90..4eefa96 100644
--- a/iamf/common/utils/numeric_utils.h
+++ b/iamf/common/utils/numeric_utils.h
@@ -18,6 +18,7 @@
 #include <limits>
 #include <string>
 #include <type_traits>
+#include <utility>
 
 #include "absl/status/status.h"
 #include "absl/strings/str_cat.h"
@@ -98,7 +99,17 @@ absl::Status StaticCastIfInRange(absl::string_view field_name, InputType input,
       std::is_same_v<InputType, char> && std::is_same_v<OutputType, uint8_t>;
   constexpr OutputType kMinOutput = std::numeric_limits<OutputType>::min();
   constexpr OutputType kMaxOutput = std::numeric_limits<OutputType>::max();
-  bool is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  bool is_in_range = false;
+  if constexpr (std::is_integral_v<InputType> &&
+                std::is_integral_v<OutputType>) {
+    // Compare the mathematical values. The built-in operators could convert a
+    // negative value to a large unsigned one. Unary plus promotes types like
+    // `bool` and `char`, which are not allowed in the comparison functions.
+    is_in_range = std::cmp_less_equal(+kMinOutput, +input) &&
+                  std::cmp_less_equal(+input, +kMaxOutput);
+  } else {
+    is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  }
 
   if (is_in_range || is_char_to_raw_bytes) [[likely]] {
     output = static_cast<OutputType>(input);
-- 
2.43.0


From a510a38cad161aea77736632c4569a66e5a26b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:57 +0000
Subject: [PATCH 2/3] fix: compute the peeked total OBU size in 64 bits

obu_size + size_of_obu_size + 1 wrapped for obu_size near 2^32, although
the result is stored in an int64_t.
---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..0c5fd8a 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -211,7 +211,8 @@ absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
   int8_t size_of_obu_size = 0;
   RETURN_IF_NOT_OK(rb.ReadULeb128(obu_size, size_of_obu_size));
   // The extra byte is for the `obu_type` field + the three boolean fields.
-  output_header_metadata.total_obu_size = obu_size + size_of_obu_size + 1;
+  output_header_metadata.total_obu_size =
+      static_cast<int64_t>(obu_size) + size_of_obu_size + 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 594d92c6b5d18e707ac75d7d9099ec2646755d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:57 +0000
Subject: [PATCH 3/3] fix: compute the OBU payload size in 64 bits

The sum of the field sizes wrapped in uint32_t for extension_header_size
near 2^32: an implausibly large extension header was not refused and was
allocated.
---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index 0c5fd8a..0ecba45 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -194,7 +194,8 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           DecodedUleb128 extension_header_bytes_size) {
   return static_cast<int64_t>(obu_size) -
          (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+          extension_header_size_size +
+          static_cast<int64_t>(extension_header_bytes_size));
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
-- 
2.43.0

