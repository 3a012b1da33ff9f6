From 61377598d41714c5c7a2003683e82f42c03596b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 01/14] fix: keep wrapped elements when a dynamic ring grows

DynamicRing::resize enlarged the buffer in place, so readable elements that
wrapped around the end of the old buffer were read back from positions that
had never been written.
---
 framework/core/include/plain/basic/ring.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..90c1bad 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -242,6 +242,13 @@ using cookie_func_t = std::function<void()>;
     mask_.store(size - 1, std::memory_order_relaxed);
   }
 
+  // Copy the readable elements to the position they have in a bigger buffer.
+  void copy_to(T *buffer, std::size_t size) const noexcept {
+    const auto head = head_.load(std::memory_order_relaxed);
+    for (auto i = tail_.load(std::memory_order_relaxed); i != head; ++i)
+      buffer[i & (size - 1)] = buffer_[i & mask_];
+  }
+
  private:
   virtual bool resize(size_t) { return false; }
 
@@ -306,8 +313,13 @@ class DynamicRing : public Ring<T, fake_tso> {
     if (size == 0) {
       buffer_.clear();
       size = SIZE;
+      buffer_.resize(size);
+    } else {
+      // The readable elements may wrap around the end of the old buffer.
+      std::vector<T> buffer(size);
+      this->copy_to(buffer.data(), size);
+      buffer_.swap(buffer);
     }
-    buffer_.resize(size);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From 2842f07ba58cb05b4804704584f1d450cce49975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 02/14] fix: sign extend one byte rpc integers

Packer writes small negative int16/int32/int64 values as one raw byte, but
Unpacker read that byte back as unsigned.
---
 framework/core/src/net/rpc/unpacker.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..d64ce97 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
-- 
2.43.0


From dd7a08e7fc56b907e5bc90a90dd4eb2150c9334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 03/14] fix: tag rpc unsigned values that equal an unsigned
 type tag

A raw 2, 4, 6 or 8 was taken for a Uint8/Uint16/Uint32/Uint64 tag when it was
read back.
---
 framework/core/src/net/rpc/packer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..2fbe510 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -56,7 +56,11 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  const bool is_tag = value == std::to_underlying(Type::Uint8) ||
+    value == std::to_underlying(Type::Uint16) ||
+    value == std::to_underlying(Type::Uint32) ||
+    value == std::to_underlying(Type::Uint64);
+  if (value <= 0x7f && !is_tag) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From 8ba1ed88421328698ceae68a9f1ac533f2c8ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:32 +0000
Subject: [PATCH 04/14] fix: unpack rpc unsigned integers exactly

The multi byte forms were added to whatever the output already held, and a
uint64_t read from a Uint32 skipped one byte of the following value.
---
 framework/core/src/net/rpc/unpacker.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index d64ce97..4203e9e 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -117,6 +117,7 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint16_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
@@ -134,16 +135,17 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint32_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
     for (auto i = sizeof(uint32_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      value += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      value += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint8)) {
@@ -157,6 +159,7 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint64_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
     for (auto i = sizeof(uint64_t); i > 0; --i) {
@@ -169,7 +172,6 @@ void Unpacker::unpack(uint64_t &value) noexcept {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-- 
2.43.0


From 4b5adb35c54f89f75118c1e1534b91602a299818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:48 +0000
Subject: [PATCH 05/14] fix: pack the smallest rpc integers without overflow

std::abs of the most negative value overflows: INT32_MIN was packed as an
int16_t and every int64_t took the nine byte form.
---
 framework/core/include/plain/net/rpc/packer.h | 14 ++------------
 framework/core/src/net/rpc/packer.cc          |  7 ++++---
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/packer.h b/framework/core/include/plain/net/rpc/packer.h
index ee3bbda..b83180c 100644
--- a/framework/core/include/plain/net/rpc/packer.h
+++ b/framework/core/include/plain/net/rpc/packer.h
@@ -130,21 +130,11 @@ class PLAIN_API Packer {
  public:
 
   std::bitset<64> twos_complement(int64_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint64_t>(value)};
-    }
+    return {static_cast<uint64_t>(value)};
   }
 
   std::bitset<32> twos_complement(int32_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint32_t>(value)};
-    }
+    return {static_cast<uint32_t>(value)};
   }
 
   std::bitset<16> twos_complement(int16_t value) noexcept {
diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 2fbe510..9bf7c20 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -27,7 +27,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value > std::numeric_limits<int16_t>::min() &&
+      value <= std::numeric_limits<int16_t>::max()) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
@@ -41,8 +42,8 @@ void Packer::pack(int32_t value) noexcept {
 }
 
 void Packer::pack(int64_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int32_t>::min()) &&
-      value != std::numeric_limits<int64_t>::min()) {
+  if (value > std::numeric_limits<int32_t>::min() &&
+      value <= std::numeric_limits<int32_t>::max()) {
     pack(static_cast<int32_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int64));
-- 
2.43.0


From eacb31c440e7314410f3406f51908b3538f6e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 06/14] fix: clearing a packet flag clears that flag, not the
 readable one

---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..04f77bd 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From 86756a7bad5aab74768e3da1620e971c6fe6dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 07/14] fix: an empty string written to a packet gets its
 length like any other

---
 framework/core/src/net/packet/basic.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 04f77bd..517b909 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -32,7 +32,6 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
 
 size_t Basic::write(std::string_view str) {
   if (!impl_->have_flag(kWriteableFlag)) return 0;
-  if (str.size() == 0) return 0;
   const auto *buffer = reinterpret_cast<const std::byte *>(str.data());
   auto size = str.size();
   *this << static_cast<uint32_t>(size);
-- 
2.43.0


From b3453f68668c4ac3a72d79b39ef5262b3580805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 08/14] fix: the line codec no longer leaves the rpc end mark
 in the payload

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..f65135e 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -126,7 +126,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (pos > 0) {
     p->set_writeable(true);
     if (p->is_call_request() || p->is_call_response() || p->is_call_notify()) { // Rpc
-      p->write(bytes.data() + 2, pos - 2);
+      p->write(bytes.data() + 2, pos - 4);
     } else {
       p->write(bytes.data(), pos);
     }
-- 
2.43.0


From 1a0ba5ebf37199d425a8c52538ea707f9f06bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 09/14] fix: the line codec holds lines to the configured
 length limit

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index f65135e..0089a7b 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -92,7 +92,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
   bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  auto readed = input->peek(bytes.data(), packet_limit.max_length);
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From 6baa5fcda9fb04d62cfc29bca15785b696188d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:59 +0000
Subject: [PATCH 10/14] fix: rpc floats and doubles travel as their exact bits

---
 framework/core/src/net/rpc/packer.cc   | 76 +++++---------------------
 framework/core/src/net/rpc/unpacker.cc | 76 ++++++++------------------
 2 files changed, 36 insertions(+), 116 deletions(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 9bf7c20..b58232c 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
 
 using plain::net::rpc::Packer;
 
@@ -117,73 +118,22 @@ void Packer::pack(bool value) noexcept {
 }
 
 void Packer::pack(float value) noexcept {
-  double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
-  } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
-    serialized_object_.emplace_back(std::to_underlying(Type::Float32));
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
-      serialized_object_.emplace_back(
-        uint8_t(ieee754_float32 >> (8U * (i - 1)) & 0xff));
-    }
+  static_assert(std::numeric_limits<float>::is_iec559);
+  const auto ieee754_float32 = std::bit_cast<uint32_t>(value);
+  serialized_object_.emplace_back(std::to_underlying(Type::Float32));
+  for (auto i = sizeof(ieee754_float32); i > 0; --i) {
+    serialized_object_.emplace_back(
+      uint8_t(ieee754_float32 >> (8U * (i - 1)) & 0xff));
   }
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
-  } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
-    serialized_object_.emplace_back(std::to_underlying(Type::Float64));
-    for (auto i = sizeof(ieee754_float64); i > 0; --i) {
-      serialized_object_.emplace_back(
-        uint8_t(ieee754_float64 >> (8U * (i - 1)) & 0xff));
-    }
+  static_assert(std::numeric_limits<double>::is_iec559);
+  const auto ieee754_float64 = std::bit_cast<uint64_t>(value);
+  serialized_object_.emplace_back(std::to_underlying(Type::Float64));
+  for (auto i = sizeof(ieee754_float64); i > 0; --i) {
+    serialized_object_.emplace_back(
+      uint8_t(ieee754_float64 >> (8U * (i - 1)) & 0xff));
   }
 }
 
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 4203e9e..9ac5a5f 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,6 +1,6 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
-#include <cmath>
 
 using plain::net::rpc::Unpacker;
 
@@ -200,37 +200,22 @@ void Unpacker::unpack(bool &value) noexcept {
 void Unpacker::unpack(float &value) noexcept {
   if (data() == std::to_underlying(Type::Float32)) {
     increment();
-    uint32_t _data = 0;
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
-      _data += data() << 8 * (i - 1);
+    uint32_t bits = 0;
+    for (auto i = sizeof(bits); i > 0; --i) {
+      bits |= uint32_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(bits);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
       value = float(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
       value = float(val);
     }
@@ -240,39 +225,24 @@ void Unpacker::unpack(float &value) noexcept {
 void Unpacker::unpack(double &value) noexcept {
   if (data() == std::to_underlying(Type::Float64)) {
     increment();
-    uint64_t _data = 0;
-    for (auto i = sizeof(uint64_t); i > 0; --i) {
-      _data += uint64_t(data()) << 8 * (i - 1);
+    uint64_t bits = 0;
+    for (auto i = sizeof(bits); i > 0; --i) {
+      bits |= uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(bits);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     }
   }
 }
-- 
2.43.0


From 2e8ece7e56d915eed2d08a9af40f150d45188308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:59 +0000
Subject: [PATCH 11/14] fix: an rpc array longer than the std::array it is
 unpacked into no longer overruns it

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..66d6ff1 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -149,6 +149,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      vec.resize(array.size());
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
-- 
2.43.0


From 27c899345e33df9a4a96820dd39d9c53b089a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:59 +0000
Subject: [PATCH 12/14] fix: unpacking an rpc object keeps an error met before
 it

---
 framework/core/include/plain/net/rpc/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 66d6ff1..9a8fc5d 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -90,7 +90,7 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (recursive_unpacker.error_) error_ = recursive_unpacker.error_;
     }
 
   }
-- 
2.43.0


From d1bb46a9f5b5c0a9e529b17687fecfd28f518cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:55 +0000
Subject: [PATCH 13/14] fix: unpacking a truncated rpc array or map stops at
 the first error

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 9a8fc5d..b9a6103 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -116,7 +116,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -168,7 +168,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From b9953046f3067472d5d167fd0ca2f3e108091662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:28 +0000
Subject: [PATCH 14/14] fix: when_any misses a result that finishes while it
 registers

StateBasic::when_any returned the status it had read before its exchange
lost to the producer, so a result finished in that window neither resumed
the consumer nor was reported as done.
---
 framework/core/src/concurrency/result/detail/state.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..ccdf904 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,7 +91,10 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
+  if (!idle) {
+    assert_done();
+    return ProcessStatus::ProducerDone;
+  }
   return status;
 }
 
-- 
2.43.0

