From 37fb8edc3239060a77ee1e05aa1e6c2d685ba6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 01/27] fix: a failed read leaves the bit stream reader
 consistent

readUnsignedBitsImpl consumed the cached bits and moved the position before it found out that the buffer
does not hold the remaining ones. The cache and the position were inconsistent afterwards and later reads
returned bits from wrong positions.
---
 runtime/src/zserio/BitStreamReader.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..5b1b38f 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -229,11 +229,11 @@ inline void throwEof()
 }
 
 /** Loads next 32/64 bits to 32/64 bit-cache. */
-inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
+inline void loadCacheNext(ReaderContext& ctx)
 {
     static const uint8_t cacheBitSize = sizeof(BaseType) * 8;
 
-    // ctx.bitIndex is always byte aligned and ctx.cacheNumBits is always zero in this call
+    // ctx.bitIndex is always byte aligned, the cache is exhausted and at least one bit is available in this call
     const size_t byteIndex = ctx.bitIndex >> 3U;
     if (ctx.bufferBitSize >= ctx.bitIndex + cacheBitSize)
     {
@@ -247,11 +247,6 @@ inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
     }
     else
     {
-        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
-        {
-            throwEof();
-        }
-
         ctx.cacheNumBits = static_cast<uint8_t>(ctx.bufferBitSize - ctx.bitIndex);
 
         // buffer must be always available in full bytes, even if some last bits are not used
@@ -297,13 +292,19 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
     BaseType value = 0;
     if (ctx.cacheNumBits < numBits)
     {
+        // check before the context is touched, a failed read must not break the consistency of the bit cache
+        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
+        {
+            throwEof();
+        }
+
         // read all remaining cache bits
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
 
         // load next piece of buffer into cache
-        loadCacheNext(ctx, numBits);
+        loadCacheNext(ctx);
 
         // add the remaining bits to the result
         // if numBits is sizeof(BaseType) * 8 here, value is already 0 (see MASK_TABLE[0])
-- 
2.43.0


From 4569496121def7bfba68a95af3145b5908a24863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 02/27] fix: check of the declared bit size of a stream buffer
 does not overflow

(bufferBitSize + 7) wrapped around for the biggest sizes, which were then accepted for any buffer.
---
 runtime/src/zserio/BitStreamReader.cpp | 5 +++--
 runtime/src/zserio/BitStreamWriter.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 5b1b38f..bc0da16 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -385,10 +385,11 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t neededByteSize = bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0);
+    if (buffer.size() < neededByteSize)
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << neededByteSize << "')!";
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..1492ed1 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -339,10 +339,11 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    const size_t neededByteSize = bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0);
+    if (buffer.size() < neededByteSize)
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << neededByteSize << "')!";
     }
 }
 
-- 
2.43.0


From ee7661219c6a284f72878a6e86530ecf0267c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:28 +0000
Subject: [PATCH 03/27] fix: alignTo works for skips of more than 64 bits

The number of bits to skip was truncated to 8 bits and handed to a single 64-bit read or write, so that aligning
to more than 64 bits threw an exception or moved to a wrong position.
---
 runtime/src/zserio/BitStreamReader.cpp | 8 ++++++--
 runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index bc0da16..08bfd17 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -867,8 +867,12 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        size_t skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            (void)readUnsignedBits64(64);
+        }
+        (void)readUnsignedBits64(static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 1492ed1..b7876d6 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -534,8 +534,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        size_t skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeUnsignedBits64(0, 64);
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From 050b983d15ff5a2294a9fecf46d0a4e404ddd51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 04/27] fix: writer checks the capacity for byte sequences of
 512 MiB and more

The length in bits was calculated in 32 bits, so that writing long bytes or strings to an aligned position passed
the capacity check and was copied behind the end of the write buffer.
---
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index b7876d6..7160098 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -485,7 +485,7 @@ void BitStreamWriter::writeBytes(BytesView data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<size_t>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.end(), m_buffer.begin() + beginBitPosition / 8);
@@ -511,7 +511,7 @@ void BitStreamWriter::writeString(std::string_view data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<size_t>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.begin() + len, m_buffer.data() + beginBitPosition / 8);
-- 
2.43.0


From 7f8ad9af1f3658d71ad9da5de2cc0db022a53a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 05/27] fix: size of a signed varint does not negate the
 minimum value

---
 runtime/src/zserio/Types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Types.cpp b/runtime/src/zserio/Types.cpp
index 573783d..581fdc6 100644
--- a/runtime/src/zserio/Types.cpp
+++ b/runtime/src/zserio/Types.cpp
@@ -112,7 +112,8 @@ static BitSize bitSizeOfVarIntImpl(
 template <typename T>
 static uint64_t convertToAbsValue(typename T::ValueType value)
 {
-    return static_cast<uint64_t>((value < 0) ? -value : value);
+    const uint64_t unsignedValue = static_cast<uint64_t>(static_cast<int64_t>(value));
+    return (value < 0) ? UINT64_C(0) - unsignedValue : unsignedValue;
 }
 
 BitSize bitSizeOf(VarInt16 value, BitSize)
-- 
2.43.0


From f54e290dccf424e7309ee5b926d97d38bb91ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 06/27] fix: varsize of more than 31 bits is rejected and not
 truncated

---
 runtime/src/zserio/BitStreamReader.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 08bfd17..3d77bd8 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -811,14 +811,15 @@ VarSize BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    const uint64_t fullResult = static_cast<uint64_t>(result) << 8U |
+            static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
+    if (fullResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << fullResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(fullResult);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From 8016550b5c9a61964a11a34556793ddc926a206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 07/27] fix: too large numbers become half precision infinity
 and NaN stays NaN

---
 runtime/src/zserio/FloatUtil.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..2368e76 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -108,16 +108,21 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            significand16 = 1; // NaN must not become infinity
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
-- 
2.43.0


From 3a2f8379d91a81e6795bc4f7ec57293776b53c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 08/27] fix: bit buffer refuses every bit size beyond its bytes

---
 runtime/src/zserio/BitBuffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..804749e 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -278,7 +278,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -293,7 +293,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0);
     if (buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
@@ -312,7 +312,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0);
     if (m_buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
-- 
2.43.0


From 4917deb6054522d3efcfd83ef32ce214f40a5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 09/27] fix: order of bit buffers is consistent with their
 equality

---
 runtime/src/zserio/BitBuffer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 804749e..6671e44 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -407,6 +407,11 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
+    if ((first1 == last1) && (first2 == last2))
+    {
+        return m_bitSize < other.m_bitSize;
+    }
+
     return (first1 == last1) && (first2 != last2);
 }
 
-- 
2.43.0


From bc565c32575c28bea055ca9804b1b8b71ff6a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 10/27] fix: offset initialization of bit buffers compiles

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 6671e44..6cd7725 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -596,7 +596,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From aeda3ac57975147831ebbb14a8a543957738a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:01 +0000
Subject: [PATCH 11/27] fix: hash code of bit buffers of 2 GiB and more

---
 runtime/src/zserio/BitBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 6cd7725..d966b6d 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -424,7 +424,8 @@ uint32_t BasicBitBuffer<ALLOC>::hashCode() const
     {
         if (byteSize > 1)
         {
-            auto lastIt = m_buffer.begin() + static_cast<int>(byteSize) - 1;
+            using DifferenceType = typename std::vector<uint8_t, ALLOC>::iterator::difference_type;
+            auto lastIt = m_buffer.begin() + static_cast<DifferenceType>(byteSize) - 1;
             for (auto it = m_buffer.begin(); it != lastIt; ++it)
             {
                 result = calcHashCode(result, *it);
-- 
2.43.0


From e7f0dfdaba12e579a01aea2af7dd79cfc482512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 12/27] fix: size comparison of packed arrays does not overflow

---
 runtime/src/zserio/DeltaContext.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 130c222..268f2ac 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -212,10 +212,11 @@ private:
     {
         if (isFlagSet(IS_PACKED_FLAG))
         {
-            const BitSize deltaBitSize = static_cast<BitSize>(m_maxBitNumber + (m_maxBitNumber > 0 ? 1 : 0));
-            const BitSize packedBitSizeWithDescriptor = 1 + MAX_BIT_NUMBER_BITS + // descriptor
+            // calculated in 64 bits, the packed size of a long array doesn't need to fit into BitSize
+            const uint64_t deltaBitSize = static_cast<uint64_t>(m_maxBitNumber + (m_maxBitNumber > 0 ? 1 : 0));
+            const uint64_t packedBitSizeWithDescriptor = static_cast<uint64_t>(1 + MAX_BIT_NUMBER_BITS) + // descriptor
                     m_firstElementBitSize + (m_numElements - 1) * deltaBitSize;
-            const BitSize unpackedBitSizeWithDescriptor = static_cast<BitSize>(1 + m_unpackedBitSize);
+            const uint64_t unpackedBitSizeWithDescriptor = static_cast<uint64_t>(m_unpackedBitSize) + 1;
             if (packedBitSizeWithDescriptor >= unpackedBitSizeWithDescriptor)
             {
                 resetFlag(IS_PACKED_FLAG);
-- 
2.43.0


From 29542fd3b3cb2f6448b19f25db497c723496570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 13/27] fix: packed writing of floating point fields takes a
 writer

---
 runtime/src/zserio/DeltaContext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 268f2ac..ed21dbe 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -491,7 +491,7 @@ BitSize bitSizeOf(DeltaContext&, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value, Bit
 }
 
 template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
-void write(DeltaContext&, BitStreamReader& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
+void write(DeltaContext&, BitStreamWriter& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
 {
     write(writer, value);
 }
-- 
2.43.0


From e545920fc2cf8c7975e06ae43156745d691876fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:19 +0000
Subject: [PATCH 14/27] fix: convertFloatToString of NaN converted it to an
 integer (undefined operation)

Appending a NaN to an exception message printed an arbitrary number; NaN is
now written as text, as infinities already are.
---
 runtime/src/zserio/StringConvertUtil.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..0308962 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -130,6 +130,11 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         integerPartString = "-Inf";
         floatingPartString = nullptr;
     }
+    else if (value != value)
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
     else
     {
         const int64_t integerPart = static_cast<int64_t>(value);
-- 
2.43.0


From 2caf603a463b7cc8c9f63d85c1cf5e3836eca35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 15/27] fix: equal floating point values have equal hash codes

Positive and negative zero compare equal but hashed to different codes, so
that hashed containers could hold both.
---
 runtime/src/zserio/HashCodeUtil.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/HashCodeUtil.h b/runtime/src/zserio/HashCodeUtil.h
index 54726af..7662076 100644
--- a/runtime/src/zserio/HashCodeUtil.h
+++ b/runtime/src/zserio/HashCodeUtil.h
@@ -75,7 +75,8 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    // positive and negative zero are equal
+    return calcHashCode(seedValue, convertFloatToUInt32(value == 0.0F ? 0.0F : value));
 }
 
 /**
@@ -88,7 +89,8 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    // positive and negative zero are equal
+    return calcHashCode(seedValue, convertDoubleToUInt64(value == 0.0 ? 0.0 : value));
 }
 
 /**
-- 
2.43.0


From 441276d3512a1dae455a89c057d742d6e271ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:16 +0000
Subject: [PATCH 16/27] fix: two variants without a value compare equal

A variant without a value (moved from) was neither equal to, less than nor
greater than another one, not even equal to itself.
---
 runtime/src/zserio/Variant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..a27ed17 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -423,6 +423,10 @@ public:
         {
             return false;
         }
+        if (valueless_by_exception())
+        {
+            return other.valueless_by_exception();
+        }
 
         bool ret = false;
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
-- 
2.43.0


From 528b18e7c9f33dbec5da977b94770fdf861b06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 17/27] fix: assigning an optional its own value used the value
 after destroying it

operator=(U&&) always emplaced, which destroys the contained value before the
new one is constructed from it.
---
 runtime/src/zserio/Optional.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..7b87536 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -350,6 +350,15 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
+        // the value may be (a part of) the contained one, which must not be destroyed before it is used
+        if constexpr (std::is_assignable_v<T&, U>)
+        {
+            if (has_value())
+            {
+                this->value() = std::forward<U>(value);
+                return *this;
+            }
+        }
         emplace(std::forward<U>(value));
         return *this;
     }
-- 
2.43.0


From 6051b016b4d78b57318ae29e850f3508edda3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 18/27] fix: swapping heap optionals with different allocators
 kept each block with its allocator

The storage pointers were swapped also when the allocators differ and are not
swapped, so that each block was freed by the other allocator.
---
 runtime/src/zserio/Optional.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index 7b87536..5a2a162 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -495,6 +495,18 @@ public:
      */
     void swap(BasicOptional& other)
     {
+        if constexpr (detail::is_optional_heap_allocated_v<T> &&
+                !AllocTraits::propagate_on_container_swap::value)
+        {
+            if (!(get_allocator_ref() == other.get_allocator_ref()))
+            {
+                // storage must stay with its allocator, swap only the values
+                BasicOptional tmp(std::move(*this), get_allocator_ref());
+                *this = std::move(other);
+                other = std::move(tmp);
+                return;
+            }
+        }
         m_data.swap(other.m_data);
         if constexpr (AllocTraits::propagate_on_container_swap::value)
         {
-- 
2.43.0


From f4d84f4c6476a67c92706e3d7be8fb0d95072ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 19/27] fix: a copy of any that throws leaked the heap holder
 or left a dangling one

The heap holder was not freed when copying or moving the value threw. A
throwing in-place copy left the storage overwritten, which was then taken for
a pointer to a heap holder.
---
 runtime/src/zserio/Any.h | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..e5b8abc 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -186,7 +186,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +206,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -601,7 +617,16 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                // the holder without a value, which has been left there, doesn't need to be destroyed
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
-- 
2.43.0


From d9831c7275030a60c517d591fffe41dd8bfaf752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 20/27] fix: any and variant claimed to hold a value after its
 construction threw

The holder without a value stayed, so that hasValue() and the index of a
variant reported a value; visiting or comparing such a variant dereferenced a
null pointer.
---
 runtime/src/zserio/Any.h | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index e5b8abc..a90783a 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -127,6 +127,11 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    bool hasValue() const noexcept
+    {
+        return m_typedHolder.has_value();
+    }
+
     T& get()
     {
         return m_typedHolder.value();
@@ -502,7 +507,19 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            if (!holder->hasValue())
+            {
+                clearHolder();
+            }
+            throw;
+        }
     }
 
     /**
@@ -513,8 +530,19 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            if (!holder->hasValue())
+            {
+                clearHolder();
+            }
+            throw;
+        }
     }
 
     /**
-- 
2.43.0


From 7ebd0f2bed9a7a570a2670acec6ef5ac27fc256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 21/27] fix: swapping any with propagating allocators freed
 storage by the other allocator

The contents were moved to storage of the old allocators before the allocators
were swapped.
---
 runtime/src/zserio/Any.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index a90783a..d0285a3 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -480,14 +480,17 @@ public:
         else
         {
             BasicAny tmp(std::move(*this), get_allocator_ref());
+            if constexpr (AllocTraits::propagate_on_container_swap::value)
+            {
+                // storage must stay with its allocator
+                set_allocator(other.get_allocator_ref());
+            }
             move(std::move(other));
-            other.move(std::move(tmp));
-
             if constexpr (AllocTraits::propagate_on_container_swap::value)
             {
-                using std::swap;
-                swap(get_allocator_ref(), other.get_allocator_ref());
+                other.set_allocator(tmp.get_allocator_ref());
             }
+            other.move(std::move(tmp));
         }
     }
 
-- 
2.43.0


From 3a4789d5df07b6d5f6591e17fe387d2b56b31257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 22/27] fix: a swap of variants that throws left an index of
 another alternative

After a swap that failed half way a variant reported the index of its old
value with the value of the other variant, and visiting it dereferenced a null
pointer.
---
 runtime/src/zserio/Variant.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index a27ed17..dfb1a41 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -346,7 +346,17 @@ public:
      */
     void swap(BasicVariant& other)
     {
-        m_data.swap(other.m_data);
+        try
+        {
+            m_data.swap(other.m_data);
+        }
+        catch (...)
+        {
+            // only one of the values may have been moved, so that the indexes wouldn't match the values
+            m_data.reset();
+            other.m_data.reset();
+            throw;
+        }
         std::swap(m_index, other.m_index);
     }
 
-- 
2.43.0


From 0c3c2cd148e1cec2c11238b50164644b764b84ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:19 +0000
Subject: [PATCH 23/27] fix: initializeOffsets of arrays of dynamic bit fields

Offset initialisation of a (packed) array of dynamic bit fields did not
compile because only views of generated objects were supported.
---
 runtime/src/zserio/DeltaContext.h | 6 ++++++
 runtime/src/zserio/View.h         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index ed21dbe..8a271e5 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -442,6 +442,12 @@ BitSize bitSizeOf(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSi
     return deltaContext.bitSizeOf(view);
 }
 
+template <typename T>
+BitSize initializeOffsets(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSize bitPosition)
+{
+    return bitSizeOf(deltaContext, view, bitPosition);
+}
+
 template <typename T>
 void write(DeltaContext& deltaContext, BitStreamWriter& writer, View<DynIntWrapper<T>> view)
 {
diff --git a/runtime/src/zserio/View.h b/runtime/src/zserio/View.h
index 45a5103..488b73b 100644
--- a/runtime/src/zserio/View.h
+++ b/runtime/src/zserio/View.h
@@ -240,6 +240,12 @@ BitSize bitSizeOf(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize =
     return view.numBits();
 }
 
+template <typename VALUE_TYPE>
+BitSize initializeOffsets(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize bitPosition)
+{
+    return bitSizeOf(view, bitPosition);
+}
+
 template <typename VALUE_TYPE>
 void write(BitStreamWriter& writer, const View<detail::DynIntWrapper<VALUE_TYPE>>& view)
 {
-- 
2.43.0


From 044df281e60eafcfe4733e91548637fa0654827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:15 +0000
Subject: [PATCH 24/27] fix: array length and preallocation checks do not
 overflow

The product of a length given by the schema and the element size was
calculated modulo 2^64, a huge length passed the check of the size, and
std::length_error was thrown by reserve instead of CppRuntimeException.
---
 runtime/src/zserio/ArrayView.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index a0b0405..934123f 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -603,15 +603,14 @@ void read(BitStreamReader& reader, Vector<T, ALLOC>& rawArray, detail::array_own
     if constexpr (std::is_base_of_v<NumericArrayTraits<T>, ARRAY_TRAITS>)
     {
         const size_t elementSize = ARRAY_TRAITS::bitSizeOf();
-        if (reader.getBitPosition() + readLength * static_cast<uint64_t>(elementSize) >
-                reader.getBufferBitSize())
+        if (readLength > (reader.getBufferBitSize() - reader.getBitPosition()) / elementSize)
         {
             throw CppRuntimeException("ArrayView: Array size exceeds available buffer!");
         }
     }
 
     size_t reserve = readLength;
-    if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+    if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
     {
         reserve = reader.getMaxArrayPreallocation() / sizeof(T);
     }
@@ -824,7 +823,7 @@ void readPacked(BitStreamReader& reader, Vector<T, ALLOC>& rawArray,
         rawArray.clear();
 
         size_t reserve = readLength;
-        if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+        if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
         {
             reserve = reader.getMaxArrayPreallocation() / sizeof(T);
         }
-- 
2.43.0


From 9f0afc8cf066c435856a63f72a953ed1f4fddf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:22 +0000
Subject: [PATCH 25/27] fix: JsonDecoder: decode \u0080 to \u00ff as
 characters, not as bytes of invalid UTF-8

---
 runtime/src/zserio/JsonDecoder.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..676c896 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -296,8 +296,17 @@ bool BasicJsonDecoder<ALLOC>::decodeUnicodeEscape(std::string_view input,
 
     const uint32_t characterInt = (static_cast<uint32_t>(hex1) << 4U) | static_cast<uint32_t>(hex2);
     using char_traits = std::char_traits<char>;
-    const char character = char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt));
-    value.push_back(character);
+    if (characterInt < 0x80U)
+    {
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt)));
+    }
+    else
+    {
+        // two bytes in UTF-8
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(0xC0U | (characterInt >> 6U))));
+        value.push_back(
+                char_traits::to_char_type(static_cast<char_traits::int_type>(0x80U | (characterInt & 0x3FU))));
+    }
 
     return true;
 }
-- 
2.43.0


From c1dde1e92d32e4eb3f08d4ffd53892dbdcd21918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:22 +0000
Subject: [PATCH 26/27] fix: JsonDecoder: do not read behind the text when a
 number is at its end

---
 runtime/src/zserio/JsonDecoder.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 676c896..da5068e 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -405,19 +405,22 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
         return DecoderResult(1, get_allocator());
     }
 
+    // the conversion functions need a terminated string and must not see what follows the number
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.data(), numChars, get_allocator());
+
     // for decodeSigned and decodeUnsigned, we know that all numChars will be processed because checkNumber
     // already checked this
     if (isDouble)
     {
-        return decodeDouble(input, numChars);
+        return decodeDouble(number, numChars);
     }
     else if (isSigned)
     {
-        return decodeSigned(input);
+        return decodeSigned(number);
     }
     else
     {
-        return decodeUnsigned(input);
+        return decodeUnsigned(number);
     }
 }
 
-- 
2.43.0


From 1e209d9c3c978d22a118c5c543a667a308dbf85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:22 +0000
Subject: [PATCH 27/27] fix: JsonTokenizer: a value at the end of a chunk was
 lost if the chunk before ended in whitespace

---
 runtime/src/zserio/JsonTokenizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..93b04a1 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -234,6 +234,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            m_token = JsonToken::UNKNOWN; // a value (END_OF_FILE could remain from the end of the last chunk)
             return false; // we are at the end of chunk => read more
         }
 
-- 
2.43.0

