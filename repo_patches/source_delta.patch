From d12d2e0ebf98acc8874a70a38741eae68d91d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 001/101] fix: bit-level reads of the C runtime check the end
 of the buffer before reading it

BitStream_ReadBit, BitStream_ReadPartialByte and BitStream_PeekBit loaded the
current byte (and, when a field crosses a byte boundary, the next one) before
comparing the position with the buffer size, so decoding a truncated message
read one byte past the end of the caller's buffer.
---
 asn1crt/asn1crt_encoding.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..6f795ad 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -229,6 +229,9 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
+
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -242,6 +245,9 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
+
 	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 }
 
@@ -497,6 +503,9 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
+
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
@@ -510,6 +519,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 		totalBitsForNextByte = totalBits - 8;
 		*v = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << totalBitsForNextByte);
 		bitstream_fetch_data_if_required(pBitStrm);
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBitsForNextByte));
 		*v &= masksb[nbits];
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 246f4631ed1c5c58c6503216aadbaa4a06b71de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 002/101] fix: appending bits overwrites whatever the buffer
 held before

BitStream_AppendPartialByte (when crossing a byte boundary),
BitStream_AppendByteArray (middle bytes) and BitStream_AppendNBitZero merged
the new bits with the previous contents of the buffer. The output was only
right when the buffer was zeroed, which is not the case in streaming mode
after the first pushData(), nor with BitStream_AttachBuffer().
BitStream_AppendByteArray also touched the byte after the end of the buffer
when called on a byte boundary.
---
 asn1crt/asn1crt_encoding.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 6f795ad..2b5fb2e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -163,19 +163,12 @@ void BitStream_AppendBitZero(BitStream* pBitStrm)
 
 void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 {
-	int totalBits = pBitStrm->currentBit + nbits;
-	int totalBytes = totalBits / 8;
-	pBitStrm->currentBit = totalBits % 8;
-	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
-		pBitStrm->currentByte = pBitStrm->count;
-		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+	while (nbits >= 8) {
+		BitStream_AppendByte(pBitStrm, 0, FALSE);
+		nbits -= 8;
 	}
+	if (nbits > 0)
+		BitStream_AppendPartialByte(pBitStrm, 0, (byte)nbits, FALSE);
 }
 
 void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
@@ -337,17 +330,23 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
 
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        }
     }
 
     for (int i = 1; i < arr_len - 1; i++) {
         byte v = arr[i];
         byte v1 = (byte)(v >> cb);
         byte v2 = (byte)(v << ncb);
+        pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
         pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        }
     }
     if (arr_len - 1 > 0) {
         byte v = arr[arr_len - 1];
@@ -487,7 +486,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 509cfb03830c680c0f083db8c01dda36b0652efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 003/101] fix: streaming mode transfers octet strings that
 cross the end of the buffer

With ASN1SCC_STREAMING, an octet string (or any byte run) that did not fit in
the rest of the small buffer was truncated, repeated or rejected: the copy
loops did not advance the source/destination pointer, the unaligned reader
never triggered fetchData(), the unaligned writer refused the data although
pushData() makes room, and BitStream_ReadByte wanted both bytes in the same
buffer. The copy loops also never ended when no push/fetch parameter is set.
---
 asn1crt/asn1crt_encoding.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 2b5fb2e..a739786 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -321,8 +321,10 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
     byte mask = (byte)~masksb[ncb];
     byte nmask = (byte)~mask;
     //if (pBitStrm->currentByte + (int)arr_len + (cb > 0 ? 1 : 0) >= pBitStrm->count)
+#ifndef ASN1SCC_STREAMING
     if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
         return FALSE;
+#endif
 
     if (arr_len> 0) {
         byte v = arr[0];
@@ -371,6 +373,11 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 	int requiredBytes = (cb > 0) ? 2 : 1;
 	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
 
+	//in streaming mode the next byte may come from the next buffer
+	if (requiredBytes == 2 && pBitStrm->fetchDataPrm != NULL) {
+		requiredBytes = 1;
+	}
+
 	if (availableBytes < requiredBytes) {
 		return FALSE;
 	}
@@ -381,6 +388,8 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 	if (cb > 0) {
         // we need to read bits from the next byte
 		int ncb = 8 - cb;						
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 	}
 
@@ -391,24 +400,15 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 
 
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
-    int cb = pBitStrm->currentBit;
-    int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
-	byte* wb = arr;
-
 #ifndef ASN1SCC_STREAMING
-    if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
+    if ( (pBitStrm->currentByte + arr_len)*8 + pBitStrm->currentBit > pBitStrm->count*8)
         return FALSE;
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
-		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
-		wb++;
+		if (!BitStream_ReadByte(pBitStrm, &arr[i]))
+			return FALSE;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
@@ -1410,7 +1410,10 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 				remainingBytesToSend :
 				pBitStrm->count - pBitStrm->currentByte;
 
+			if (currentBatch <= 0)
+				return FALSE;
 			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
+			arr += currentBatch;
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
 			remainingBytesToSend -= currentBatch;
@@ -1451,7 +1454,10 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
                 remainingBytesToRead :
                 pBitStrm->count - pBitStrm->currentByte;
 
+            if (currentBatch <= 0)
+                return FALSE;
             memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
+            arr += currentBatch;
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
             remainingBytesToRead -= currentBatch;
-- 
2.43.0


From 510bf79404e865190c4cf2077e04bb324cf85303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 004/101] fix: a null-terminated bit string of maximum size
 zero can be decoded

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index a739786..81fe7f7 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1374,7 +1374,7 @@ int BitStream_checkBitPatternPresent(BitStream* pBitStrm, const byte bit_termina
 flag BitStream_ReadBits_nullterminated(BitStream* pBitStrm, const byte bit_terminated_pattern[], size_t bit_terminated_pattern_size_in_bits, byte* BuffToWrite, int nMaxReadBits, int *bitsRead)
 {
 
-	int checkBitPatternPresentResult = 0;
+	int checkBitPatternPresentResult = 1;
 	*bitsRead = 0;
 	int ret = TRUE;
 	flag bitVal;
-- 
2.43.0


From d2979441aa89008dd160450f3642854c6a3710af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 005/101] fix: REAL minus zero is encoded as minus zero

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 81fe7f7..888c36a 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1163,12 +1163,12 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 		return;
 	}
 
-	if (v == 0.0)
+	if (v == 0.0 && !signbit(v))
 	{
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
 		return;
 	}
-	if (v == -0.0) {
+	if (v == 0.0) {
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
 		return;
-- 
2.43.0


From 90178f781ebead32aeade5f943b2cf8669410873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 006/101] fix: BER and XER REAL functions compile when
 FP_WORD_SIZE is 4

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 asn1crt/asn1crt_encoding_xer.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4355355..35faefa 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -308,7 +308,7 @@ flag BerDecodeBoolean(ByteStream* pByteStrm, BerTag tag, flag *value, int *pErrC
 	return TRUE;
 }
 
-flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, double value, int *pErrCode) {
+flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, asn1Real value, int *pErrCode) {
 	byte buf[100];
 	BitStream tmp;
 	byte length;
@@ -338,7 +338,7 @@ flag BerEncodeReal(ByteStream* pByteStrm, BerTag tag, double value, int *pErrCod
 
 }
 
-flag BerDecodeReal(ByteStream* pByteStrm, BerTag tag, double *value, int *pErrCode) {
+flag BerDecodeReal(ByteStream* pByteStrm, BerTag tag, asn1Real *value, int *pErrCode) {
 	/*  int length=0;
 	byte buf[100];*/
 	BitStream tmp;
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index c248cbd..1d4f2d3 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -801,7 +801,7 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 	return TRUE;
 }
 
-flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, double* value, int *pErrCode)
+flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real* value, int *pErrCode)
 {
 	char tmp[256];
 	memset(tmp, 0x0, sizeof(tmp));
-- 
2.43.0


From 4136ddb87db09035c5188bc165c40d07740f3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 007/101] fix: REAL values close to zero survive encoding and
 decoding

Subnormal numbers got the implicit bit of normal ones, and decoding divided by
2^|exponent|, which overflows to infinity for exponents below -1023.
---
 asn1crt/asn1crt_encoding.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 888c36a..8d0f84f 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1109,14 +1109,14 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 
 #if FP_WORD_SIZE==8
 	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
-	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #else
 	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
-
-	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #endif
+	*mantissa = ll & MantBitMask;
+	if ((ll & ExpoBitMask) != 0)
+		(*mantissa) |= MantisaExtraBit;
+	else
+		(*exponent)++;	/* subnormal number: no implicit bit */
 }
 
 asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
@@ -1124,25 +1124,18 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
-	if (mantissa == 0)
-		return 0.0;
+	/* scale the value itself: 2^|exponent| alone may be out of range when the result is not */
+	asn1Real ret = (asn1Real)mantissa;
 
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
+	while (exponent > 0 && ret != 0.0 && ret + ret != ret) {
+		ret = ret * 2.0;
+		exponent--;
 	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	while (exponent < 0 && ret != 0.0) {
+		ret = ret / 2.0;
+		exponent++;
 	}
+	return ret;
 #endif
 }
 
-- 
2.43.0


From 1a93b38852c2c3547c0f92635d7d8f7f4a9c38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 008/101] fix: decoding a REAL is bounded and exact for every
 binary encoding

Large exponents took up to 2^31 loop iterations and overflowed, mantissas lost
bits when scaled or longer than 8 octets (4 with WORD_SIZE 4), exponents with an
explicit length and non binary encodings were misread.
---
 asn1crt/asn1crt_encoding.c | 34 ++++++++++++++++++++++++----------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 8d0f84f..d200b77 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1119,7 +1119,7 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 		(*exponent)++;	/* subnormal number: no implicit bit */
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
@@ -1268,14 +1268,16 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int sign = 1;
 	/*int base=2;*/
 	int F;
-	unsigned factor = 1;
 	int expLen;
 	int exponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
+	int scale;
 	int i;
 
+	if (!(header & 0x80))
+		return FALSE;	/* not a binary encoding */
 	if (header & 0x40)
 		sign = -1;
 	if (header & 0x10) {
@@ -1288,11 +1290,17 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 	F = (header & 0x0C) >> 2;
-	factor <<= F;
-
 	expLen = (header & 0x03) + 1;
+	if (expLen == 4) {
+		/* the next octet holds the length of the exponent */
+		byte b = 0;
+		if (length < 1 || !BitStream_ReadByte(pBitStrm, &b))
+			return FALSE;
+		length--;
+		expLen = b;
+	}
 
-	if (expLen>length)
+	if (expLen == 0 || expLen>length)
 		return FALSE;
 	expIsNegative = BitStream_PeekBit(pBitStrm);
 	exponent = expIsNegative ? 0xFFFFFFFF : 0;
@@ -1300,21 +1308,27 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		exponent = exponent << 8 | b;
+		/* beyond 16 bits the value is zero or infinity, whatever follows */
+		if (exponent >= -0x10000 && exponent <= 0xFFFF)
+			exponent = (int)((unsigned)exponent << 8 | b);
 	}
 
 	length -= expLen;
+	scale = expFactor * exponent + F;
 
 	for (i = 0; i<length; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		N = N << 8 | b;
+		if (N >> 56)
+			scale += 8;	/* more precision than fits: keep the most significant octets */
+		else
+			N = N << 8 | b;
 	}
 
 
-	/*  *v = N*factor * pow(base,exp);*/
-	*v = GetDoubleByMantissaAndExp(N*factor, expFactor*exponent);
+	/*  *v = N * 2^F * pow(base,exp);*/
+	*v = GetDoubleByMantissaAndExp(N, scale);
 
 	if (sign<0)
 		*v = -(*v);
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..abd7aff 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From 9f5edfc3df0f2ee9c694ba877e40f139f3808147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 009/101] fix: the mantissa of a REAL is encoded in full when
 WORD_SIZE is 4

---
 asn1crt/asn1crt_encoding.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index d200b77..a310a88 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -730,12 +730,10 @@ int GetLengthInBytesOfUInt(asn1SccUint64 v)
 {
 	int ret = 0;
 	asn1SccUint32 v32 = (asn1SccUint32)v;
-#if WORD_SIZE==8
 	if (v>0xFFFFFFFF) {
 		ret = 4;
 		v32 = (asn1SccUint32)(v >> 32);
 	}
-#endif
 
 	if (v32<0x100)
 		return ret + 1;
@@ -1214,9 +1212,8 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 
 
 	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
-
+	while (nManLen-- > 0)
+		BitStream_AppendByte0(pBitStrm, (byte)(mantissa >> (8 * nManLen)));
 }
 
 flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, asn1Real* v);
-- 
2.43.0


From 6f536cd75cc9c92778ea07ab2a11bdb4a713f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 010/101] fix: decoding an octet string fails when its contents
 are cut off

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index a310a88..fc0c652 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1640,7 +1640,7 @@ flag BitStream_EncodeOctetString(BitStream* pBitStrm, const byte* arr, int nCoun
 flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
 	flag ret = TRUE;
 	if (asn1SizeMax < 65536) {
-		asn1SccSint nCountL;
+		asn1SccSint nCountL = 0;
 		if (asn1SizeMin < asn1SizeMax) {
 			ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCountL, asn1SizeMin, asn1SizeMax);
 		}
@@ -1651,7 +1651,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From 0477a157d18ea6039273478e51b55d62a7911c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 011/101] fix: empty octet and bit strings with a large or no
 size limit can be decoded

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index fc0c652..b83e0ca 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1600,7 +1600,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1788,7 +1788,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From 85ade9d0b6dc612399e7b71e3b5c9b242c60f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 012/101] fix: BCD integers of more than 16 digits with an
 embedded length can be decoded

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..8d412de 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -604,7 +604,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
+	if (nNibbles > (WORD_SIZE == 8 ? 20 : 10))	/* digits of the largest value */
 		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
-- 
2.43.0


From 6782c61be974f1080168609e7831a4c9df2c49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 013/101] fix: 64 bit ACN integers are sign extended and bounds
 checked when WORD_SIZE is 4

---
 asn1crt/asn1crt_encoding_acn.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 8d412de..7a8d51f 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -213,8 +213,10 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    pBitStrm->currentByte += (8 - WORD_SIZE);
-
+#if WORD_SIZE!=8
+	if (!BitStream_ReadBitPattern_ignore_value(pBitStrm, (8 - WORD_SIZE) * 8))
+		return FALSE;
+#endif
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
 
@@ -253,10 +255,11 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    flag ret;
-	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
-    pBitStrm->currentByte += (8 - WORD_SIZE);
-    return ret;
+	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
+#if WORD_SIZE!=8
+	ret = ret && BitStream_ReadBitPattern_ignore_value(pBitStrm, (8 - WORD_SIZE) * 8);
+#endif
+	return ret;
 }
 
 
@@ -349,7 +352,15 @@ void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 
 void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#if WORD_SIZE!=8
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, int2uint(intVal));
+#else
+	Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#endif
 }
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(BitStream* pBitStrm, asn1SccSint intVal)
@@ -364,7 +375,15 @@ void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
+#if WORD_SIZE!=8
+	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, int2uint(intVal));
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+#else
 	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, int2uint(intVal));
+#endif
 }
 
 
-- 
2.43.0


From c18f77bd7a9c8b300494345a0fea2b1a9cf8d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 014/101] fix: decimal ACN integers are rejected, not misread,
 when malformed or too large

Non digits were taken for digits or aborted the program, and numbers beyond
the word size wrapped around.
---
 StgC/LangGeneric_c.fs          |  2 +
 asn1crt/asn1crt_encoding_acn.c | 71 ++++++++++++++++++----------------
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index 7f06813..ca072c6 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -482,6 +482,8 @@ type LangGeneric_c() =
                 "Acn_Enc_Int_BCD_ConstSize"
                 "Acn_Enc_Int_BCD_VarSize_LengthEmbedded"
                 "Acn_Enc_Int_BCD_VarSize_NullTerminated"
+                "Acn_AppendDecimalDigit"
+                "Acn_ApplySign"
                 "Acn_Enc_SInt_ASCII_ConstSize"
                 "Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded"
                 "Acn_Enc_SInt_ASCII_VarSize_NullTerminated"
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 7a8d51f..c732f9d 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -583,6 +583,30 @@ void Acn_Enc_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int enco
 
 
 
+/* appends one decimal digit; fails when it is not a digit or the result does not fit */
+static flag Acn_AppendDecimalDigit(asn1SccUint* pIntVal, int digit)
+{
+	if (digit < 0 || digit > 9)
+		return FALSE;
+	if (*pIntVal > ((asn1SccUint)MAX_INT - (asn1SccUint)digit) / 10)
+		return FALSE;
+	*pIntVal = *pIntVal * 10 + (asn1SccUint)digit;
+	return TRUE;
+}
+
+/* applies the sign of a decimal number; fails when the result does not fit */
+static flag Acn_ApplySign(asn1SccSint* pIntVal, asn1SccUint absVal, flag isNegative)
+{
+	const asn1SccUint maxPositive = (asn1SccUint)MAX_INT / 2;
+	if (absVal > maxPositive + (isNegative ? 1 : 0))
+		return FALSE;
+	if (isNegative && absVal > 0)
+		*pIntVal = -(asn1SccSint)(absVal - 1) - 1;
+	else
+		*pIntVal = (asn1SccSint)absVal;
+	return TRUE;
+}
+
 flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int encodedSizeInNibbles)
 {
 	byte digit;
@@ -593,9 +617,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AppendDecimalDigit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInNibbles--;
 	}
@@ -655,10 +678,8 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 			return FALSE;
 		if (digit>9)
 			break;
-
-		ret *= 10;
-		ret += digit;
-
+		if (!Acn_AppendDecimalDigit(&ret, digit))
+			return FALSE;
 	}
 	*pIntVal = ret;
 
@@ -713,11 +734,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
-		digit = (byte)((int)digit - '0');
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AppendDecimalDigit(&ret, (int)digit - '0'))
+			return FALSE;
 
 		encodedSizeInBytes--;
 	}
@@ -730,17 +748,11 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 {
 	byte digit;
 	asn1SccUint ret = 0;
-	int sign = 1;
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	if (digit == '+')
-		sign = 1;
-	else if (digit == '-')
-		sign = -1;
-	else {
-		ASSERT_OR_RETURN_FALSE(0);
-	}
+	if (digit != '+' && digit != '-')
+		return FALSE;
 	encodedSizeInBytes--;
 
 
@@ -748,10 +760,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)ret;
-
-	*pIntVal = sign*(*pIntVal);
-	return TRUE;
+	return Acn_ApplySign(pIntVal, ret, digit == '-');
 
 }
 
@@ -890,10 +899,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
 
-		digit = (byte)((int)digit - '0');
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AppendDecimalDigit(&ret, (int)digit - '0'))
+			return FALSE;
 	}
 
 	*pIntVal = ret;
@@ -910,17 +917,15 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)ret;
-	if (isNegative)
-		*pIntVal = -(*pIntVal);
-	return TRUE;
+	return Acn_ApplySign(pIntVal, ret, isNegative);
 }
 
 
-- 
2.43.0


From ded301097fbc9b90aa0213fc6fc6b77b5a196d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 015/101] fix: decoding a cut off input that needs alignment
 fails instead of aborting

---
 asn1crt/asn1crt_encoding_acn.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index c732f9d..616a56f 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -12,8 +12,9 @@ static flag RequiresReverse(void)
 
 void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
-		pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
+	if (bEncode)
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
+			pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
 
 	if (pBitStrm->currentBit != 0)
 	{
@@ -29,12 +30,15 @@ void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 
 void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT16 - 1));
+	if (bEncode)
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
+			(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
+			& (NO_OF_BITS_IN_INT16 - 1));
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
 	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
+	if (!bEncode && pBitStrm->currentByte > pBitStrm->count)
+		pBitStrm->currentByte = pBitStrm->count;	/* cut off input: the next read fails */
 
 	if (bEncode)
 		bitstream_push_data_if_required(pBitStrm);
@@ -46,12 +50,15 @@ void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 
 void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT32 - 1));
+	if (bEncode)
+		CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
+			(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
+			& (NO_OF_BITS_IN_INT32 - 1));
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
 	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
+	if (!bEncode && pBitStrm->currentByte > pBitStrm->count)
+		pBitStrm->currentByte = pBitStrm->count;	/* cut off input: the next read fails */
 
 	if (bEncode)
 		bitstream_push_data_if_required(pBitStrm);
-- 
2.43.0


From d92b37ae53ff3f18a7ada901dbe30214fd977542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 016/101] fix: a string with a multi byte terminator cannot
 overflow its buffer when it is too long

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 616a56f..aadd09b 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1365,7 +1365,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From afa79a9e90496ef833c0807ecab029d5fec668b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 017/101] fix: ACN integers that do not fit the declared C type
 are rejected, not truncated

---
 asn1crt/asn1crt_encoding_acn.c | 292 ++++++++++++++++-----------------
 1 file changed, 146 insertions(+), 146 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index aadd09b..8e1ba15 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1506,586 +1506,586 @@ asn1SccSint milbus_decode(asn1SccSint val)
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
-- 
2.43.0


From 8e229d3b262f16075af4d521a93f527c21bd0123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 018/101] fix: 64 bit ACN integers that do not fit are
 rejected, not truncated, when WORD_SIZE is 4

---
 asn1crt/asn1crt_encoding_acn.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 8e1ba15..a34189c 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -221,8 +221,9 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
 #if WORD_SIZE!=8
-	if (!BitStream_ReadBitPattern_ignore_value(pBitStrm, (8 - WORD_SIZE) * 8))
-		return FALSE;
+	asn1SccUint high = 0;
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, &high, 8 - WORD_SIZE) || high != 0)
+		return FALSE;	/* cut off, or too large for asn1SccUint */
 #endif
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
@@ -264,7 +265,8 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
 {
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 #if WORD_SIZE!=8
-	ret = ret && BitStream_ReadBitPattern_ignore_value(pBitStrm, (8 - WORD_SIZE) * 8);
+	asn1SccUint high = 0;
+	ret = ret && Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, &high, 8 - WORD_SIZE) && high == 0;
 #endif
 	return ret;
 }
@@ -452,8 +454,18 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint* pIntVal)
 {
 	asn1SccUint tmp = 0;
+#if WORD_SIZE!=8
+	asn1SccUint high = 0;
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &high))
+		return FALSE;
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &tmp))
+		return FALSE;
+	if (high != (tmp > MAX_INT / 2 ? MAX_INT : 0))
+		return FALSE;	/* does not fit in asn1SccSint */
+#else
 	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &tmp))
 		return FALSE;
+#endif
 	*pIntVal = uint2int(tmp, WORD_SIZE);
 	return TRUE;
 }
@@ -479,8 +491,18 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint* pIntVal)
 {
 	asn1SccUint tmp = 0;
+#if WORD_SIZE!=8
+	asn1SccUint high = 0;
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &tmp))
+		return FALSE;
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &high))
+		return FALSE;
+	if (high != (tmp > MAX_INT / 2 ? MAX_INT : 0))
+		return FALSE;	/* does not fit in asn1SccSint */
+#else
 	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &tmp))
 		return FALSE;
+#endif
 	*pIntVal = uint2int(tmp, WORD_SIZE);
 	return TRUE;
 }
-- 
2.43.0


From 1749cc28ab1982279bb6c3351bec66c3d8d3fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 019/101] fix: the padding bits of the last byte are zero in
 streaming mode

---
 asn1crt/asn1crt_encoding.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index b83e0ca..030fc05 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1814,6 +1814,7 @@ void bitstream_fetch_data_if_required(BitStream* pStrm) {
 void bitstream_push_data_if_required(BitStream* pStrm) {
 	if (pStrm->currentByte == pStrm->count && pStrm->pushDataPrm != NULL) {
 		pushData(pStrm, pStrm->pushDataPrm);
+		memset(pStrm->buf, 0x0, (size_t)pStrm->count);
 		pStrm->currentByte = 0;
 	}
 }
-- 
2.43.0


From f2677c50a584dbcd6b7b88be79216c446f0ff536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 020/101] fix: intersecting a range that has MIN or MAX as a
 bound with a bounded range

---
 CommonTypes/CommonTypes.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 10707bf..63ccc18 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -983,12 +983,12 @@ let rec uperIntersection r1 r2 (l:SrcLoc) =
     | (PosInf(a), PosInf(b))        -> PosInf(max a b)
     | (PosInf(a), NegInf(b))        -> if a<=b then Concrete(a,b) else emptyTypeError l
     | (PosInf(a1), Concrete(a,b))   -> if a1>b then emptyTypeError l
-                                        elif a1<=a then r1
+                                        elif a1<=a then r2
                                         else Concrete(a1,b)
     | (NegInf(a), NegInf(b))        -> NegInf(min a b)
     | (NegInf(a), PosInf(b))        -> if a>=b then Concrete(b,a) else emptyTypeError l
     | (NegInf(a1), Concrete(a,b))   -> if a1<a then emptyTypeError l
-                                        elif a1<b then Concrete(a1,b)
+                                        elif a1<b then Concrete(a,a1)
                                         else r2
     | (Concrete(a1,b1), Concrete(a2,b2)) -> if a1<=a2 && a2<=b1 && b1<=b2 then Concrete(a2,b1)
                                             elif a2<=a1 && a1<=b2 && b2<=b1 then Concrete(a1, b2)
-- 
2.43.0


From 1197ede1b0400fbdd66939ac03677101688f5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 021/101] fix: enumeration indices follow the ascending order
 of the values

---
 BackendAst/DAstUPer.fs            | 2 +-
 FrontEndAst/AcnCreateFromAntlr.fs | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 92517dc..f74e857 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -319,7 +319,7 @@ let createEnumeratedFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:C
         match r.args.isEnumEfficientEnabled o.items.Length with
         | false ->
             let items =
-                o.items |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
+                o.items |> List.sortBy(fun itm -> itm.definitionValue) |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
             let nBits = (GetNumberOfBitsForNonNegativeInteger (nMax-nMin))
             let funcBodyContent = Enumerated pp td items nMin nMax nBits errCode.errCodeName nLastItemIndex sFirstItemName codec
             {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index e3a3ba7..8fc7166 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -771,7 +771,11 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
         | false -> allocatedValuesToAllEnumItems items, false
         | true -> allocatedValuesToAllEnumItems items, true
     let uperSizeInBits = GetNumberOfBitsForNonNegativeInteger(BigInteger((Seq.length items) - 1))
-    let items = items0|> List.mapi mapItem
+    // X.691 13.1: an enumeration value is encoded as its index in the ascending order of the values
+    let uperIndex (itm:Asn1Ast.NamedItem) =
+        let value (x:Asn1Ast.NamedItem) = Asn1Ast.GetValueAsInt x._value.Value asn1
+        items0 |> List.filter(fun x -> value x < value itm) |> List.length
+    let items = items0|> List.map (fun itm -> mapItem (uperIndex itm) itm)
 
     let acnProperties =
         match acnErrLoc with
-- 
2.43.0


From 2dd93b641270e4ed819a136a42395aea78200774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 022/101] fix: which constraint makes an INTEGER extensible,
 its root and its size

---
 BackendAst/DAstUPer.fs            |  7 ++++---
 FrontEndAst/AcnCreateFromAntlr.fs | 13 +++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index f74e857..76fcf0e 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -172,7 +172,8 @@ let getIntfuncBodyByCons (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Commo
     let IntUnconstrainedMax     = lm.uper.IntUnconstrainedMax
     let IntRootExt              = lm.uper.IntRootExt
     let IntRootExt2             = lm.uper.IntRootExt2
-    let rootCons = cons |> List.choose(fun x -> match x with RangeRootConstraint(_, a) |RangeRootConstraint2(_, a,_) -> Some(x) |_ -> None)
+    // only the last constraint makes the type extensible (X.680 50.8)
+    let rootCons = cons |> List.tryLast |> Option.toList |> List.choose(fun x -> match x with RangeRootConstraint(_, a) |RangeRootConstraint2(_, a,_) -> Some(x) |_ -> None)
 
     let suffix = getIntDecFuncSuffix intClass
     let castPp encFuncBits = castPp r lm codec pp intClass encFuncBits
@@ -202,13 +203,13 @@ let getIntfuncBodyByCons (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Commo
         match rootCons with
         | []                            -> IntBod uperRange false
         | (RangeRootConstraint (_, a))::rest      ->
-            let uperR    = uPER.getIntTypeConstraintUperRange [a]  errLoc
+            let uperR    = uPER.getIntTypeConstraintUperRange ((cons |> List.take (cons.Length - 1))@[a])  errLoc
             let cc,_ = DastValidate2.integerConstraint2ValidationCodeBlock r lm intClass a 0
             let cc = DastValidate2.ValidationBlockAsStringExpr (cc p)
             let rootBody, _,_, intEncodingType = IntBod uperR true
             IntRootExt pp (getValueByConstraint uperR) cc rootBody errCode.errCodeName codec, false, false, intEncodingType
         | (RangeRootConstraint2(_,a,_))::rest  ->
-            let uperR    = uPER.getIntTypeConstraintUperRange [a]  errLoc
+            let uperR    = uPER.getIntTypeConstraintUperRange ((cons |> List.take (cons.Length - 1))@[a])  errLoc
             let cc,_ = DastValidate2.integerConstraint2ValidationCodeBlock r lm intClass a 0
             let cc = DastValidate2.ValidationBlockAsStringExpr (cc p)
             let rootBody, _,_, intEncodingType = IntBod uperR true
diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 8fc7166..da3d88d 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -242,7 +242,8 @@ let private mergeInteger (asn1:Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Langua
     let declare_PosIntegerNoRTL    (l:ProgrammingLanguage)     = (asn1.args.getBasicLang l).declare_PosIntegerNoRTL
 
     let acnErrLoc0 = match acnErrLoc with Some a -> a | None -> loc
-    let rootCons = cons |> List.filter(fun c -> match c with RangeRootConstraint _  | RangeRootConstraint2 _ -> true | _ -> false)
+    // only the last constraint makes the type extensible (X.680 50.8)
+    let rootCons = cons |> List.tryLast |> Option.toList |> List.filter(fun c -> match c with RangeRootConstraint _  | RangeRootConstraint2 _ -> true | _ -> false)
     let uperRange    = uPER.getIntTypeConstraintUperRange cons  loc
     let thisTypeUperRange = uPER.getIntTypeConstraintUperRange thisTypeCons loc
     let intClass = getIntEncodingClassByUperRange asn1.args thisTypeUperRange
@@ -260,9 +261,13 @@ let private mergeInteger (asn1:Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Langua
     let uperMinSizeInBits, uperMaxSizeInBits =
         match rootCons with
         | []  -> uPER.getRequiredBitsForIntUperEncoding asn1.args.integerSizeInBytes uperRange
-        | _   ->
-            let mn,mx = uPER.getRequiredBitsForIntUperEncoding asn1.args.integerSizeInBytes uperRange
-            1I + mn, 1I + mx
+        | RangeRootConstraint(_, a)::_ | RangeRootConstraint2(_, a, _)::_   ->
+            // extension bit, then a root value or a value encoded as an unconstrained integer
+            let rootRange = uPER.getIntTypeConstraintUperRange ((cons |> List.take (cons.Length - 1))@[a]) loc
+            let rootMin,rootMax = uPER.getRequiredBitsForIntUperEncoding asn1.args.integerSizeInBytes rootRange
+            let extMin,extMax = uPER.getRequiredBitsForIntUperEncoding asn1.args.integerSizeInBytes Full
+            1I + (min rootMin extMin), 1I + (max rootMax extMax)
+        | _   -> raise(BugErrorException "")
 
     let isUnsigned = intClass.IsPositive
         (*
-- 
2.43.0


From c79ad8dc170e9ced1edb4b1a53b8e1ead098a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 023/101] fix: characters of a 7-bit alphabet are encoded by
 value

---
 BackendAst/Acn/AcnStrings.fs | 6 +++---
 BackendAst/DAstUPer.fs       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BackendAst/Acn/AcnStrings.fs b/BackendAst/Acn/AcnStrings.fs
index 152d90c..a88ef52 100644
--- a/BackendAst/Acn/AcnStrings.fs
+++ b/BackendAst/Acn/AcnStrings.fs
@@ -45,7 +45,7 @@ let createStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFiel
                 let extField = getExternalField lm r deps t.id
                 let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
                 let encDecStatement =
-                    match o.uperCharSet.Length = 128 with
+                    match o.uperCharSet.Length > 64 with
                     | false ->
                         let arrAsciiCodes = o.uperCharSet |> Array.map(fun x -> BigInteger (System.Convert.ToInt32 x))
                         Acn_String_CharIndex_External_Field_Determinant pp errCode.errCodeName ( o.maxSize.acn) arrAsciiCodes (BigInteger o.uperCharSet.Length) extField td nBits codec
@@ -100,7 +100,7 @@ let createAcnStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
         let pp, resultExpr = joinedOrAsIdentifier lm codec p
         let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
         let internalItem =
-            match o.uperCharSet.Length = 128 with
+            match o.uperCharSet.Length > 64 with     // 7 bits: the character's own value is encoded (X.691 30.5.4)
             | true  -> InternalItem_string_no_alpha pp errCode.errCodeName i codec
             | false ->
                 let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
@@ -157,7 +157,7 @@ let createAcnStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                     let extField = getExternalField lm r deps typeId
                     let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (t.str.uperCharSet.Length-1))
                     let encDecStatement =
-                        match t.str.uperCharSet.Length = 128 with
+                        match t.str.uperCharSet.Length > 64 with
                         | false ->
                             let arrAsciiCodes = t.str.uperCharSet |> Array.map(fun x -> BigInteger (System.Convert.ToInt32 x))
                             Acn_String_CharIndex_External_Field_Determinant pp errCode.errCodeName ( t.str.maxSize.acn) arrAsciiCodes (BigInteger t.str.uperCharSet.Length) extField td nBits codec
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 76fcf0e..2cc92ba 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -450,7 +450,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
 
         let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
         let internalItem =
-            match o.uperCharSet.Length = 128 with
+            match o.uperCharSet.Length > 64 with     // 7 bits: the character's own value is encoded (X.691 30.5.4)
             | true  -> InternalItem_string_no_alpha (p.accessPath.joined lm.lg) errCode.errCodeName i codec
             | false ->
                 let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
-- 
2.43.0


From 11db61921446c8205d642ad0506749fa29d27265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 024/101] fix: IsConstraintValid accepts characters that
 NumericString does not have

---
 BackendAst/DastValidate2.fs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index c298bf5..0f2be6e 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -677,7 +677,9 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Acn
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
 let createStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.StringType) (typeDefinition:TypeDefinitionOrReference) (us:State)  =
-    let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
+    // NumericString values consist of digits and spaces even when there is no alphabet constraint
+    let numericAlphabet = if o.isNumeric then [AlphabetConstraint ("", RangeSingleValueConstraint ("", " 0123456789"))] else []
+    let fncs, ns = (numericAlphabet@o.cons) |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs) typeDefinition ns.alphaFuncs [] [] [] (Some errorCodeComment) ns
 
-- 
2.43.0


From e6fb525494dd017ac016ac8bce8d76d2f204bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 025/101] fix: the values of a constrained INTEGER are sets of
 intervals, only the root of a constraint followed by another one counts

---
 FrontEndAst/uPER.fs | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/FrontEndAst/uPER.fs b/FrontEndAst/uPER.fs
index 54039c2..9b62133 100644
--- a/FrontEndAst/uPER.fs
+++ b/FrontEndAst/uPER.fs
@@ -36,9 +36,47 @@ let getRangeTypeConstraintUperRange (c:RangeTypeConstraint<'v1,'v1>) funcNext fu
 
 
 let getIntTypeConstraintUperRange (cons:IntegerTypeConstraint list) (l:SrcLoc) =
-    let getIntTypeConstraintUperRange (c:IntegerTypeConstraint) (l:SrcLoc) =
-        getRangeTypeConstraintUperRange c (fun x -> x + 1I) (fun x -> x - 1I) l |> fst
-    cons |> List.fold(fun s c -> uperIntersection s (getIntTypeConstraintUperRange c l) l) Full
+    // The permitted values are a list of intervals (None stands for MIN/MAX), so that e.g. (0..3|6..9)(0..5) is 0..3.
+    // The range used by uPER is the hull of these intervals.
+    let lower a b = match a, b with Some x, Some y -> Some (max x y) | Some x, None | None, Some x -> Some x | None, None -> None
+    let upper a b = match a, b with Some x, Some y -> Some (min x y) | Some x, None | None, Some x -> Some x | None, None -> None
+    let intersection (s1:(BigInteger option*BigInteger option) list) (s2:(BigInteger option*BigInteger option) list) =
+        [for (a1,b1) in s1 do
+            for (a2,b2) in s2 do
+                match lower a1 a2, upper b1 b2 with
+                | Some a, Some b when a > b -> ()
+                | a, b                      -> yield (a,b)]
+    let all = [(None, None)]
+    let intervals (c:IntegerTypeConstraint) =
+        foldRangeTypeConstraint
+            (fun _ r1 r2 b s      -> r1@r2, s)
+            (fun _ r1 r2 s        -> intersection r1 r2, s)
+            (fun _ r s            -> all, s)
+            (fun _ r1 r2 s        -> r1, s)
+            (fun _ r s            -> all, s)
+            (fun _ r1 r2 s        -> all, s)
+            (fun _ v  s           -> [(Some v, Some v)],s)
+            (fun _ v1 v2  minIsIn maxIsIn s  -> intersection [(Some (if minIsIn then v1 else v1 + 1I), None)] [(None, Some (if maxIsIn then v2 else v2 - 1I))], s)
+            (fun _ v1 minIsIn  s  -> [(Some (if minIsIn then v1 else v1 + 1I), None)], s)
+            (fun _ v2 maxIsIn s   -> [(None, Some (if maxIsIn then v2 else v2 - 1I))], s)
+            c
+            0 |> fst
+    // a constraint which is followed by another one is not extensible any more, only its root matters (X.680 50.8)
+    let rec root c =
+        match c with
+        | RangeRootConstraint (_, r) | RangeRootConstraint2 (_, r, _)  -> root r
+        | _                                                            -> c
+    let last = cons.Length - 1
+    match cons |> List.mapi(fun i c -> intervals (if i < last then root c else c)) |> List.fold intersection all with
+    | []    -> emptyTypeError l
+    | sets  ->
+        let mn = if sets |> List.exists(fun (a,_) -> a.IsNone) then None else sets |> List.map(fun (a,_) -> a.Value) |> List.min |> Some
+        let mx = if sets |> List.exists(fun (_,b) -> b.IsNone) then None else sets |> List.map(fun (_,b) -> b.Value) |> List.max |> Some
+        match mn, mx with
+        | Some a, Some b  -> Concrete (a,b)
+        | Some a, None    -> PosInf a
+        | None, Some b    -> NegInf b
+        | None, None      -> Full
 
 let getRealTypeConstraintUperRange (cons:RealTypeConstraint list) (l:SrcLoc) =
     let getRealTypeConstraintUperRange (c:RealTypeConstraint) (l:SrcLoc) =
-- 
2.43.0


From 73a773204415a073d6fea9b2a35c3ff4bb860078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 026/101] fix: default value of a BIT STRING of variable size
 has its number of bits, not of bytes

---
 BackendAst/DAstInitialize.fs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 9095f0f..4f124b5 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -483,15 +483,15 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes =
+        let bytes, nBits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList
-            | OctetStringValue iv   -> iv
+            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, iv.Length
+            | OctetStringValue iv   -> iv, 8 * iv.Length
             | _                     -> raise(BugErrorException "UnexpectedValue")
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger arrsBytes.Length) arrsBytes
+        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger nBits) arrsBytes
 
     let anonyms =
         o.AllCons |>
-- 
2.43.0


From 7a0219fa6bddf725f6f63c92a94668a83f14c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 027/101] fix: an ENUMERATED with ALL EXCEPT constraint
 accepted values that are not enumerated

---
 FrontEndAst/CreateAsn1AstFromAntlrTree.fs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
index ff6095a..5b4adef 100644
--- a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
+++ b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
@@ -560,11 +560,9 @@ let rec CreateType integerSizeInBytes (tasParameters : TemplateParameter list) (
                 let userConstraints = userConstraints0 |> List.choose(fun x -> x)
                 match asn1Kind with
                 | Enumerated(itms)  ->
-                    match userConstraints with
-                    | _::_     -> return userConstraints
-                    | []    ->
-                        let! dc = createDefaultConstraintsForEnumeratedTypes tree itms
-                        return [dc]
+                    // the default constraint is needed in all cases, since e.g. (ALL EXCEPT a) alone permits values that are not enumerated
+                    let! dc = createDefaultConstraintsForEnumeratedTypes tree itms
+                    return dc::userConstraints
                 | _                 -> return userConstraints
             }
 
-- 
2.43.0


From faccf9a56247e01cd6caaf65b7735e2861b7dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 028/101] fix: size constraints combined by EXCEPT on types of
 fixed size

---
 BackendAst/DastValidate2.fs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 0f2be6e..02d9e07 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -193,13 +193,19 @@ let foldSizeRangeTypeConstraint (r:Asn1AcnAst.AstRoot)   (lm:LanguageMacros)  ge
         st
 
 
-let foldSizableConstraint (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) hasCount compareSingValueFunc  getSizeFunc  (c:SizableTypeConstraint<'v>) st =
+// a size constraint on a type of fixed size needs no code: its result is known
+let evalSizeConstraintOfFixedSize (c:PosIntTypeConstraint) (fixedSize:BigInteger) =
+    match Asn1Fold.evalRangeCon c (uint32 fixedSize) with
+    | true  -> VCBTrue
+    | false -> VCBFalse
+
+let foldSizableConstraint (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (fixedSize:BigInteger option) compareSingValueFunc  getSizeFunc  (c:SizableTypeConstraint<'v>) st =
     foldSizableTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
         (fun _ v  s           -> (fun p -> compareSingValueFunc p v) ,s)
         (fun _ intCon s       ->
-            match hasCount with
-            | true  -> foldSizeRangeTypeConstraint r lm getSizeFunc intCon s
-            | false -> (fun p -> VCBTrue), s)
+            match fixedSize with
+            | None    -> foldSizeRangeTypeConstraint r lm getSizeFunc intCon s
+            | Some n  -> (fun p -> evalSizeConstraintOfFixedSize intCon n), s)
         c
         st
 
@@ -357,7 +363,7 @@ let octetStringConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot) (l:Language
         match o.isFixedSize with
         | true   -> VCBExpression (octet_fix_string_equal (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath) o.minSize.uper (v.Length.AsBigInt) octArrLiteral)
         | false  -> VCBExpression (octet_var_string_equal (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath)  (v.Length.AsBigInt) octArrLiteral)
-    let fnc, ns = foldSizableConstraint r l (not o.isFixedSize) compareSingleValueFunc getSizeFunc c st
+    let fnc, ns = foldSizableConstraint r l (if o.isFixedSize then Some o.minSize.uper else None) compareSingleValueFunc getSizeFunc c st
     fnc, ns
 
 let bitStringConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (typeId:ReferenceToType) (o:Asn1AcnAst.BitString) (equalFunc:EqualFunction) (c:BitStringConstraint) st =
@@ -372,7 +378,7 @@ let bitStringConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot)  (l:LanguageM
         match o.isFixedSize with
         | true   -> VCBExpression (bit_fix_string_equal (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath) o.minSize.uper (v.Value.Length.AsBigInt) octArrLiteral bitArrLiteral)
         | false  -> VCBExpression (bit_var_string_equal (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath)  (v.Value.Length.AsBigInt) octArrLiteral bitArrLiteral)
-    let fnc, ns = foldSizableConstraint r l (not o.isFixedSize) compareSingleValueFunc getSizeFunc c st
+    let fnc, ns = foldSizableConstraint r l (if o.isFixedSize then Some o.minSize.uper else None) compareSingleValueFunc getSizeFunc c st
     fnc, ns
 
 
@@ -532,7 +538,7 @@ and sequenceOfConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot) (l:LanguageM
         (fun _ intCon s       ->
             match o.isFixedSize with
             | false  -> foldSizeRangeTypeConstraint r l getSizeFunc intCon s
-            | true  -> (fun p -> VCBTrue), s)
+            | true  -> (fun p -> evalSizeConstraintOfFixedSize intCon o.minSize.uper), s)
         (fun _ c loc s ->
             (fun (p:CodegenScope) ->
                 let ii = p.accessPath.SequenceOfLevel + 1
-- 
2.43.0


From bef90c74be8752b221c852367100029c56b75b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 029/101] fix: C constants of BIT STRING and of SEQUENCE
 without present components

A BIT STRING value assignment stored the number of bytes as the number of bits;
a SEQUENCE value with every component absent did not compile.
---
 StgC/variables_c.stg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/variables_c.stg b/StgC/variables_c.stg
index 678c752..9818d49 100644
--- a/StgC/variables_c.stg
+++ b/StgC/variables_c.stg
@@ -53,7 +53,7 @@ PrintOctetStringValue(td/*:FE_SizeableTypeDefinition*/,bIsFixedSize, arruBytes,
 >>
 
 PrintBitStringValue(td/*:FE_SizeableTypeDefinition*/,bIsFixedSize, arrsBits, nCount, arruBytes, nBytesCount) ::= <<
-<PrintBitOrOctetStringValue(bIsFixedSize=bIsFixedSize, arruBytes=arruBytes, nCount=nBytesCount)>
+<PrintBitOrOctetStringValue(bIsFixedSize=bIsFixedSize, arruBytes=arruBytes, nCount=nCount)>
 >>
 
 
@@ -169,7 +169,7 @@ PrintSequenceValueChild(sName, sInnerValue) ::= ".<sName> = <sInnerValue>"
 PrintSequenceValue_child_exists(sName, sExistsBit) ::= ".<sName> = <sExistsBit>"
 
 PrintSequenceValue(td/*:FE_SequenceTypeDefinition*/, sTasName, arrsChildren, arrsOptionalPresentFields) ::= <<{
-    <arrsChildren:{ch|<ch>}; separator=",\n"><if(arrsOptionalPresentFields)>,
+    <arrsChildren:{ch|<ch>}; separator=",\n"><if(arrsOptionalPresentFields)><if(arrsChildren)>,<endif>
     .exist = {
         <arrsOptionalPresentFields; separator=",\n">
     }
-- 
2.43.0


From 84a7dd01c09d8d311afd4262a37bb78f54215b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 030/101] fix: quotes and backslashes in character string
 values and alphabets

A quote is written twice in an ASN.1 cstring and was kept doubled; in C and Scala it was then
dropped, and backslashes and apostrophes were not escaped.
---
 BackendAst/DAstAsn1.fs                    |  2 +-
 BackendAst/DAstInitialize.fs              |  2 +-
 BackendAst/DAstVariables.fs               | 15 ++++++++++++++-
 BackendAst/DastValidate2.fs               | 11 ++++++-----
 BackendAst/PrintAsn1.fs                   |  2 +-
 CommonTypes/CommonTypes.fs                |  2 +-
 FrontEndAst/CreateAsn1AstFromAntlrTree.fs |  2 +-
 7 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/BackendAst/DAstAsn1.fs b/BackendAst/DAstAsn1.fs
index d292b07..778b006 100644
--- a/BackendAst/DAstAsn1.fs
+++ b/BackendAst/DAstAsn1.fs
@@ -28,7 +28,7 @@ let rec printAsn1Value (v:Asn1AcnAst.Asn1Value) =
     | Asn1AcnAst.RealValue           v       -> stg_asn1.Print_RealValue v.Value
     | Asn1AcnAst.StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (v.Replace("\"","\"\""))
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     | Asn1AcnAst.BooleanValue        v       -> stg_asn1.Print_BooleanValue v.Value
     | Asn1AcnAst.BitStringValue      v       -> stg_asn1.Print_BitStringValue v.Value
diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 4f124b5..d57ce2e 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -341,7 +341,7 @@ let createIA5StringInitFunc (r:Asn1AcnAst.AstRoot)  (lm:LanguageMacros) (t:Asn1A
         |> Array.tryFind(fun x -> x >= 32I && x <= 126I)
     let sFirstNonNullChar =
         match firstPrintableAsciiCode with
-        | Some c  -> sprintf "'%c'" (char (int c))
+        | Some c  -> DAstVariables.printCharLiteral lm (char (int c))
         | None    -> "'\0'"
     let testCaseFuncs =
         let seqOfCase (nSize:BigInteger)  =
diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index 3f69700..360e4af 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -34,6 +34,19 @@ let printBitStringValueAsCompoundLiteral  (lm:LanguageMacros) curProgramUnitName
     let bytes = lm.lg.bitStringValueToByteArray v
     printOct td (o.minSize.uper = o.maxSize.uper) bytes o.minSize.uper
 
+// the text between the quotes of a string literal of the target language
+let escapeStringLiteral (lm:LanguageMacros) (sv:string) =
+    match lm.lg.hasModules with
+    | true  -> sv.Replace("\"","\"\"")                        // Ada doubles the quote
+    | false -> sv.Replace("\\","\\\\").Replace("\"","\\\"")  // C and Scala escape it
+
+// a character literal of the target language
+let printCharLiteral (lm:LanguageMacros) (c:char) =
+    match lm.lg.hasModules, c with
+    | false, '\\'   -> @"'\\'"
+    | false, '\''   -> @"'\''"
+    | _             -> sprintf "'%c'" c
+
 let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v:StringValue) =
     let (parts,_) = v
     let vStr = CommonTypes.StringValue2String parts
@@ -42,7 +55,7 @@ let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v
         parts |>
         List.map(fun s ->
             match s with
-            | CStringValue  sv -> lm.vars.PrintSingleStringValue (sv.Replace("\"","\"\""))
+            | CStringValue  sv -> lm.vars.PrintSingleStringValue (escapeStringLiteral lm sv)
             | SpecialCharacter  CarriageReturn -> lm.vars.PrintCR ()
             | SpecialCharacter  LineFeed       -> lm.vars.PrintLF ()
             | SpecialCharacter  HorizontalTab  -> lm.vars.PrintHT ()
diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 02d9e07..772dfc9 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -211,24 +211,25 @@ let foldSizableConstraint (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (fixedSize:
 
 let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (typeId:ReferenceToType)   (c:IA5StringConstraint) (us0:State) =
     let print_AlphabetCheckFunc = lm.isvalid.Print_AlphabetCheckFunc
+    let stringLiteral (v:String) = (DAstVariables.escapeStringLiteral lm v).IDQ
     let stringContainsChar    (v:String)  =
         let newStr =
             if v.Length>1 then
-                v.IDQ
+                stringLiteral v
             elif v.Length = 1 then
                 let c = v.ToCharArray()[0]
                 if   c = CommonTypes.CharCR  then lm.vars.PrintCR ()
                 elif c = CommonTypes.CharLF  then lm.vars.PrintLF ()
                 elif c = CommonTypes.CharHT  then lm.vars.PrintHT ()
                 elif c = CommonTypes.CharNul then lm.vars.PrintStringValueNull ()
-                else v.IDQ
+                else stringLiteral v
             else
-                v.IDQ
+                stringLiteral v
         lm.isvalid.stringContainsChar newStr
 
     let alphaFuncName = ToC (((typeId.AcnAbsPath |> Seq.skip 1 |> Seq.StrJoin("-")).Replace("#","elm")) + "_CharsAreValid")
     let foldRangeCharCon (lm:LanguageMacros)   (c:CharTypeConstraint)  st =
-        let valToStrFunc1 v = v.ToString().ISQ
+        let valToStrFunc1 (v:char) = DAstVariables.printCharLiteral lm v
         foldRangeTypeConstraint   (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
             (fun _ (v:string)  s  -> (fun p -> VCBExpression (stringContainsChar v (p.accessPath.joined lm.lg))) ,s)
             (fun _ v1 v2  minIsIn maxIsIn s   ->
@@ -239,7 +240,7 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
             st
 
     foldStringTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
-        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) v.IDQ))  ,s)
+        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) (stringLiteral v)))  ,s)
         (fun _ intCon s     -> foldSizeRangeTypeConstraint r lm (fun l p -> lm.isvalid.StrLen (p.accessPath.joined lm.lg)) intCon s)
         (fun _ alphcon (s:State)      ->
             let alphaBody p =
diff --git a/BackendAst/PrintAsn1.fs b/BackendAst/PrintAsn1.fs
index 23af3bc..b20b9fb 100644
--- a/BackendAst/PrintAsn1.fs
+++ b/BackendAst/PrintAsn1.fs
@@ -24,7 +24,7 @@ let rec PrintAsn1Value (v:Asn1Value) =
     |RealValue(v)            -> stg_asn1.Print_RealValue v.Value
     |StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (v.Replace("\"","\"\""))
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     |TimeValue v             ->
         stg_asn1.Print_TimeValue (asn1DateTimeValueToString  v.Value)
diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 63ccc18..4bc1625 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -1094,7 +1094,7 @@ type SingleStringValue =
             | SpecialCharacter NullCharacter -> new String(Char.MinValue, 1)
         member this.AsAsn1 =
             match this with
-            | CStringValue  v -> "\"" + v + "\""
+            | CStringValue  v -> "\"" + v.Replace("\"","\"\"") + "\""
             | SpecialCharacter CarriageReturn -> "cr"
             | SpecialCharacter LineFeed -> "lf"
             | SpecialCharacter HorizontalTab -> "ht"
diff --git a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
index 5b4adef..8aad1bb 100644
--- a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
+++ b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
@@ -178,7 +178,7 @@ let rec CreateValue integerSizeInBytes (astRoot:list<ITree>) (tree:ITree ) : Res
                 | asn1Parser.TRUE                   -> Ok (BooleanValue(tree.GetValueL true))
                 | asn1Parser.FALSE                  -> Ok (BooleanValue(tree.GetValueL false))
                 | asn1Parser.StringLiteral          ->
-                    let text = tree.Text.Substring(1, tree.Text.Length-2)
+                    let text = tree.Text.Substring(1, tree.Text.Length-2).Replace("\"\"", "\"")   //a quote is written twice in a cstring
                     Ok (StringValue({ StringLoc.Value = text; Location = tree.Location}))
                 | asn1Parser.NULL                   -> Ok NullValue
                 | asn1Parser.BitStringLiteral       -> Ok (BitStringValue(tree.GetValueL(GetActualString(tree.Text))))
-- 
2.43.0


From 3637099a70c4bd162ceb4c77959b1e46640339b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 031/101] fix: fixed size lists of 64K items or more end with a
 zero length octet; stop at the first refused item

---
 BackendAst/DAstUPer.fs | 8 +++-----
 StgC/uper_c.stg        | 7 ++++---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 2cc92ba..4e6c671 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -387,11 +387,9 @@ let handleFixedSizeFragmentation (lm:LanguageMacros) (p:CodegenScope) (codec:Com
 
     let bRemainingItemsWithinByte = r.nRemainingItemsVar <= C_127
     let parts=
-        match r.nRemainingItemsVar > 0I with
-        | true  ->
-            let part = fixedSize_Fragmentation_sqf_remaining (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) internalItem_funcBody bRemainingItemsWithinByte r.nRemainingItemsVar sCurOffset sBLI sRemainingItemsVar bIsBitStringType errCode.errCodeName codec
-            parts@[part]
-        | false -> parts
+        // X.691 11.9.3.8.3: the last fragment is always followed by a length determinant, which is zero if no items remain
+        let part = fixedSize_Fragmentation_sqf_remaining (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) internalItem_funcBody bRemainingItemsWithinByte r.nRemainingItemsVar sCurOffset sBLI sRemainingItemsVar bIsBitStringType errCode.errCodeName codec
+        parts@[part]
 
     let createLv = lm.lg.uper.createLv
 
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b020e43..468842d 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -685,7 +685,7 @@ for(<sBlockIndex> = 0; ret && <sBlockIndex> \< <nBlocks64K>; <sBlockIndex>++) {
         *pErrCode = ret ? 0 : <sErrCodeName>;
 
 	    <else>
-	    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+	    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 		    <sInternalItem>
 	    }
 
@@ -708,7 +708,7 @@ if (ret) {
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>); <sBLI>++) {
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurBlockSize> + <sCurOffset>)); <sBLI>++) {
 	    <sInternalItem>
     }
 
@@ -728,13 +728,14 @@ ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &<sRemainingItemsVar>, 0,
 ret = ret && ((0x8000 & <sRemainingItemsVar>) > 0) && ( (0x7FFF & <sRemainingItemsVar>) == <nRemainingItemsVar>);
 
 <endif>
+*pErrCode = ret ? 0 : <sErrCodeName>;
 if (ret) {
     <if(bIsBitStringType)>
     ret = BitStream_ReadBits(pBitStrm, &<p><sAcc>arr[<sCurOffset>/8], (int)<nRemainingItemsVar>);
     *pErrCode = ret ? 0 : <sErrCodeName>;
 
     <else>
-    for(<sBLI>=(int)<sCurOffset>; <sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>); <sBLI>++)
+    for(<sBLI>=(int)<sCurOffset>; ret && (<sBLI> \< (int)(<sCurOffset> + <nRemainingItemsVar>)); <sBLI>++)
     {
 	    <sInternalItem>
     }
-- 
2.43.0


From 13b3a1cb2921a8c15e87eb724b260481efeb1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 032/101] fix: names of equally named enumerants and
 alternatives inside components whose name is part of theirs

---
 FrontEndAst/EnsureUniqueEnumNames.fs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/FrontEndAst/EnsureUniqueEnumNames.fs b/FrontEndAst/EnsureUniqueEnumNames.fs
index c0879a5..d00512a 100644
--- a/FrontEndAst/EnsureUniqueEnumNames.fs
+++ b/FrontEndAst/EnsureUniqueEnumNames.fs
@@ -21,6 +21,17 @@ open Language
 
 type private State =  string list
 
+//Returns the innermost name of the path in key that is not already part of curName.
+//When all of them are (e.g. component b with alternative cb), only the part of curName
+//that precedes the original name is considered.
+let private tryGetNewPrefix (key:list<string>) (origName:string) (curName:string) =
+    let names = key |> List.rev |> List.map ToC
+    match names |> List.tryFind(fun x -> not (curName.Contains x)) with
+    | Some prefix  -> Some prefix
+    | None         ->
+        let curPrefix = if curName.EndsWith origName then curName.Substring(0, curName.Length - origName.Length) else curName
+        names |> List.tryFind(fun x -> not (curPrefix.Contains x))
+
 
 let rec private handleEnumChoices (r:AstRoot) (renamePolicy:EnumRenamePolicy)=
     let doubleEnumNames = seq {
@@ -43,11 +54,10 @@ let rec private handleEnumChoices (r:AstRoot) (renamePolicy:EnumRenamePolicy)=
                     match state |> Seq.exists (ch.present_when_name.icompare) with
                     | false     -> ch.present_when_name
                     | true      ->
-                        let aaaa = key |> List.rev |> List.map ToC |> Seq.skipWhile(fun x -> ch.present_when_name.Contains x) |> Seq.toList
                         let newPrefix =
-                            match aaaa with
-                            | z1::_ -> z1
-                            | []    ->
+                            match tryGetNewPrefix key (ToC2 ch.Name.Value) ch.present_when_name with
+                            | Some prefix -> prefix
+                            | None        ->
                                 let errMsg = sprintf "Choice ch.present_when_name = '%s', key=%A, state='%A'" ch.present_when_name key state
                                 raise (SemanticError(old.Location,errMsg))
                         newPrefix + "_" + ch.present_when_name
@@ -231,7 +241,7 @@ let rec private handleEnums (r:AstRoot) (renamePolicy:EnumRenamePolicy) ((lang,
                         match state |> Seq.exists ((r.args.getBasicLang lang).cmp (lm.lg.getNamedItemBackendName0 old)) with
                         | false     -> lm.lg.getNamedItemBackendName0 old
                         | true      ->
-                            let newPrefix = key |> List.rev |> List.map ToC |> Seq.skipWhile(fun x -> (lm.lg.getNamedItemBackendName0 old).Contains x) |> Seq.head
+                            let newPrefix = tryGetNewPrefix key (ToC2 old.Name.Value) (lm.lg.getNamedItemBackendName0 old) |> Option.get
                             newPrefix + "_" + (lm.lg.getNamedItemBackendName0 old)
                     lm.lg.setNamedItemBackendName0 old newUniqueName
                 let newItems =
-- 
2.43.0


From 1722e98ff67008f70681de6ee6e1a989cb464956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 033/101] fix: alignment and enumeration values of the type an
 ACN inserted field refers to

---
 FrontEndAst/AcnCreateFromAntlr.fs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index da3d88d..c9f0231 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -945,21 +945,23 @@ let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:
         AcnNullType ({AcnNullType.acnProperties=acnProperties; acnAlignment=acnAlignment; Location = acnErrLoc; acnMinSizeInBits=acnMinSizeInBits; acnMaxSizeInBits = acnMaxSizeInBits; defaultValue="0"}), us
     | AcnPrmRefType (md,ts)->
         let asn1Type0 = Asn1Ast.GetBaseTypeByName md ts asn1
-        let baseProps =
+        let baseEncodingSpecs =
             acn.files |>
             List.collect(fun f -> f.modules) |>
             List.filter(fun acm -> acm.name.Value = md.Value) |>
             List.collect(fun acm -> acm.typeAssignments) |>
             List.filter(fun act -> act.name.Value = ts.Value) |>
-            List.collect(fun act -> act.typeEncodingSpec.acnProperties)
+            List.map(fun act -> act.typeEncodingSpec)
+        let baseProps = baseEncodingSpecs |> List.collect(fun spec -> spec.acnProperties)
         let props =
             match props with
             | []    -> baseProps
             | _     -> props
+        let acnAlignment = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
         match asn1Type0.Kind with
         | Asn1Ast.Enumerated nmItems    ->
             let cons =  asn1Type0.Constraints |> List.collect (fixConstraint asn1) |> List.map (ConstraintsMapping.getEnumConstraint asn1 asn1Type0)
-            let enumerated, ns = mergeEnumerated asn1 lms nmItems (None, ts.Location) (Some ts.Location) (Some {AcnTypeEncodingSpec.acnProperties = props; children = []; loc=ts.Location; comments = []; position=(ts.Location, ts.Location); antlrSubTree=None}) props cons [] (AcnPrmGetTypeDefinition (curPath,md.Value,ts.Value)) us
+            let enumerated, ns = mergeEnumerated asn1 lms nmItems (None, ts.Location) (Some ts.Location) (Some {AcnTypeEncodingSpec.acnProperties = props; children = (baseEncodingSpecs |> List.collect(fun spec -> spec.children)); loc=ts.Location; comments = []; position=(ts.Location, ts.Location); antlrSubTree=None}) props cons [] (AcnPrmGetTypeDefinition (curPath,md.Value,ts.Value)) us
             AcnReferenceToEnumerated({AcnReferenceToEnumerated.modName = md; tasName = ts; enumerated = enumerated; acnAlignment= acnAlignment}), ns
         | Asn1Ast.IA5String
         | Asn1Ast.NumericString  ->
-- 
2.43.0


From 8b19c4d2b149757ffa981d509770f402f4da5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 034/101] fix: encode-values of enumerations with negative
 values

---
 BackendAst/Acn/AcnEnum.fs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 0874148..3e9b018 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -32,6 +32,7 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
     let EnumeratedEncValues                 = lm.acn.EnumeratedEncValues
     let Enumerated_item                     = lm.acn.Enumerated_item
     let IntFullyConstraintPos               = lm.uper.IntFullyConstraintPos
+    let IntFullyConstraint                  = lm.uper.IntFullyConstraint
     let Enumerated_no_switch                = lm.acn.EnumeratedEncValues_no_switch
 
     let min = o.items |> List.map(fun x -> x.acnEncodeValue) |> Seq.min
@@ -64,7 +65,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
                     | Some tasInfo ->
                         lm.lg.generateIntFullyConstraintRangeAssert (ToC (r.args.TypePrefix + tasInfo.tasName)) p codec
                     | None -> None
-                let funcBody = IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                let funcBody =
+                    match min >= 0I with
+                    | true  -> IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                    | false -> IntFullyConstraint (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName codec
                 Some({UPERFuncBodyResult.funcBody = funcBody; errCodes = [errCode]; localVariables= []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]})
             AcnPrimitives.createAcnIntegerFunctionInternal r lm codec (Concrete (min,max)) intTypeClass o.acnEncodingClass uperInt sAsn1Constraints acnMinSizeInBits acnMaxSizeInBits unitsOfMeasure typeDefinitionName (None, None)
         let funcBodyContent =
-- 
2.43.0


From 87998831e5ca955b4f7883084b9d322dc288271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 035/101] fix: BCD encoding of zero has one digit

---
 asn1crt/asn1crt_encoding_acn.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a34189c..5d8aa3c 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -575,8 +575,9 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1
 //return values is in nibbles
 static int Acn_Get_Int_Size_BCD(asn1SccUint intVal)
 {
-	int ret = 0;
-	while (intVal>0)
+	/* zero has one digit */
+	int ret = 1;
+	while (intVal>9)
 	{
 		intVal /= 10;
 		ret++;
-- 
2.43.0


From 6a94555e9be772e052c68d7e07d5eb27c0a57d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 036/101] fix: true-value and false-value of ACN inserted
 booleans

---
 BackendAst/Acn/AcnPrimitives.fs | 75 +++++++++++++++++----------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 53c8fe4..ed4ba77 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -286,51 +286,52 @@ let nestChildItems (lm:LanguageMacros) (codec:CommonTypes.Codec) children =
     DAstUtilFunctions.nestItems lm.isvalid.JoinItems2 children
 
 
+//The body shared by ASN.1 booleans and ACN inserted booleans
+let private booleanFuncBody (lm:LanguageMacros) (codec:CommonTypes.Codec) (encodingPattern: AcnBooleanEncoding option) (errCode:ErrorCode) (p:CodegenScope) =
+    let Boolean         = lm.uper.Boolean
+    let acnBoolean      = lm.acn.Boolean
+    let BooleanTrueFalse = lm.acn.BooleanTrueFalse
+
+    let pvalue, ptr, resultExpr =
+        match codec, lm.lg.decodingKind with
+        | Decode, Copy ->
+            let resExpr = p.accessPath.asIdentifier
+            resExpr, resExpr, Some resExpr
+        | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
+    match encodingPattern with
+    | None ->
+        let pp, resultExpr = adaptArgument lm codec p
+        Boolean pp errCode.errCodeName codec, resultExpr
+    | Some (TrueValueEncoding pattern)  ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
+        let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (FalseValueEncoding pattern) ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
+        let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
+        let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
+        let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
+        let nSize = trPattern.Value.Length
+        BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+
 let createAcnBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec)  (typeId : ReferenceToType) (o:Asn1AcnAst.AcnBoolean)  (us:State)  =
     AcnPrimitiveFactory.createAcnOnlyPrimitive codec typeId us (fun errCode ->
         fun (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) ->
-            let pp, resultExpr = adaptArgument lm codec p
-            let Boolean         = lm.uper.Boolean
-            let funcBodyContent = Boolean pp errCode.errCodeName codec
+            let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties.encodingPattern errCode p
             let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux "BOOLEAN" "BOOLEAN" None o.acnMinSizeInBits o.acnMaxSizeInBits None
             Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]; icdResult = Some icd})
 
 let createBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Boolean) (typeDefinition:TypeDefinitionOrReference) (baseTypeUperFunc : AcnFunction option) (isValidFunc: IsValidFunction option) (us:State)  =
     let funcBody (errCode:ErrorCode) (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) =
-        let Boolean         = lm.uper.Boolean
-        let acnBoolean      = lm.acn.Boolean
-        let BooleanTrueFalse = lm.acn.BooleanTrueFalse
-
-        let funcBodyContent, resultExpr=
-            let pvalue, ptr, resultExpr =
-                match codec, lm.lg.decodingKind with
-                | Decode, Copy ->
-                    let resExpr = p.accessPath.asIdentifier
-                    resExpr, resExpr, Some resExpr
-                | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
-            match o.acnProperties.encodingPattern with
-            | None ->
-                let pp, resultExpr = adaptArgument lm codec p
-                Boolean pp errCode.errCodeName codec, resultExpr
-            | Some (TrueValueEncoding pattern)  ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
-                let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (FalseValueEncoding pattern) ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
-                let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
-                let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
-                let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
-                let nSize = trPattern.Value.Length
-                BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+        let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties.encodingPattern errCode p
         let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux (getASN1Name t) (getASN1Name t) None o.acnMinSizeInBits o.acnMaxSizeInBits t.unitsOfMeasure
         let aux = lm.lg.generateBooleanAuxiliaries r ACN t o nestingScope p.accessPath codec
         Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=aux; icdResult = Some icd}
-- 
2.43.0


From 0116aca8dfe13e19326747b1ecb01cde9bbd51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 037/101] fix: no declaration for mapping functions of the run
 time library

---
 BackendAst/Acn/AcnPrimitives.fs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index ed4ba77..689d1a2 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -17,6 +17,9 @@ open AcnHelpers
 
 type AcnIntegerFuncBody = ErrorCode -> ((AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) -> NestingScope -> CodegenScope -> (AcnFuncBodyResult option)
 
+//mapping functions that are provided by the run time library
+let private runtimeMappingFunctions = ["milbus"]
+
 let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
                                      (lm:LanguageMacros)
                                      (codec:CommonTypes.Codec)
@@ -65,6 +68,7 @@ let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
     let userDefinedFunctions =
         match soMF with
         | None -> []
+        | Some s when runtimeMappingFunctions |> Seq.exists ((=) s)  -> []   //already declared by the run time library
         | Some s ->
             [UserMappingFunction (mappingFunctionDeclaration typeName s codec)]
 
@@ -149,8 +153,7 @@ let getMappingFunctionModule (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (soMapFu
         match soMapFuncName with
         | None  -> None
         | Some sMapFuncName ->
-            let knownMappingFunctions = ["milbus"]
-            match knownMappingFunctions |> Seq.exists ((=) sMapFuncName) with
+            match runtimeMappingFunctions |> Seq.exists ((=) sMapFuncName) with
             | true  -> Some (acn_a.rtlModuleName() )
             | false -> r.args.mappingFunctionsModule
 
-- 
2.43.0


From c81e17aeec28c9342b8f6195b8b976c54af7595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 038/101] fix: object identifiers whose second arc is 40 or
 more, truncated object identifiers (C)

---
 asn1crt/asn1crt.c               | 2 +-
 asn1crt/asn1crt_encoding_uper.c | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..accc069 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -116,7 +116,7 @@ void ObjectIdentifier_Init(Asn1ObjectIdentifier *pVal) {
 }
 
 flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
-	return (pVal->nCount >= 2) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
+	return (pVal->nCount >= 2) && (pVal->values[0] <= 2) && (pVal->values[0] == 2 || pVal->values[1] <= 39);
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index e92b5a2..c674391 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -95,10 +95,12 @@ static flag ObjectIdentifier_subidentifiers_uper_decode(BitStream* pBitStrm, asn
 
 		bLastOctet = ((curByte & 0x80) == 0);
 		curOctetValue = curByte & 0x7F;
+		if ((*siValue) > ((asn1SccUint)-1 >> 7))
+			return FALSE; /* does not fit */
 		(*siValue) <<= 7;
 		(*siValue) |= curOctetValue;
 	}
-	return TRUE;
+	return bLastOctet; /* false when the contents end inside a subidentifier */
 }
 
 static flag ObjectIdentifier_uper_decode_length(BitStream* pBitStrm, asn1SccSint* totalSize) {
@@ -127,8 +129,9 @@ flag ObjectIdentifier_uper_decode(BitStream* pBitStrm, Asn1ObjectIdentifier *pVa
 	if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
 		return FALSE;
 	pVal->nCount = 2;
-	pVal->values[0] = si / 40;
-	pVal->values[1] = si % 40;
+	/* X.690 8.19.4: the second arc is below 40 unless the first one is 2 */
+	pVal->values[0] = si < 80 ? si / 40 : 2;
+	pVal->values[1] = si - pVal->values[0] * 40;
 	while (totalSize > 0 && pVal->nCount < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
 		if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
-- 
2.43.0


From fe326384ef6a0d5301557e9ccd78dfcb22b1fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 039/101] fix: object identifiers whose second arc is 40 or
 more, length 128, truncation (Ada)

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 10 +++++++---
 ADA_RTL2/src/adaasn1rtl.adb               |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 98067da..490ed38 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -439,7 +439,7 @@ is
       UPER_Dec_ConstraintWholeNumberInt
         (bs, length, 0, 255, 8, result.Success);
       if result.Success then
-         if length > 16#80# then
+         if length >= 16#80# then
             length := (length - 16#80#) * 16#100#;
             UPER_Dec_ConstraintWholeNumberInt
               (bs, len2, 0, 255, 8, result.Success);
@@ -559,6 +559,8 @@ is
          i       := i + 1;
 
       end loop;
+      --  the contents must not end inside a subidentifier
+      Result.Success := Result.Success and bLastOctet;
 
    end ObjectIdentifier_subidentifiers_uper_decode;
 
@@ -618,8 +620,10 @@ is
            (bs, totalSize, si, Result);
          if Result.Success then
             val.Length     := 2;
-            val.values (1) := si / 40;
-            val.values (2) := si mod 40;
+            --  X.690 8.19.4: the second arc is below 40 unless the first one
+            --  is 2
+            val.values (1) := (if si < 80 then si / 40 else 2);
+            val.values (2) := si - val.values (1) * 40;
 
             while Result.Success and totalSize > 0 and
               val.Length < OBJECT_IDENTIFIER_MAX_LENGTH
diff --git a/ADA_RTL2/src/adaasn1rtl.adb b/ADA_RTL2/src/adaasn1rtl.adb
index 855bc4c..9d893db 100644
--- a/ADA_RTL2/src/adaasn1rtl.adb
+++ b/ADA_RTL2/src/adaasn1rtl.adb
@@ -54,7 +54,7 @@ is
    is
    begin
       return val.Length >= 2 and then val.values (1) <= 2
-        and then val.values (2) <= 39;
+        and then (val.values (1) = 2 or else val.values (2) <= 39);
    end ObjectIdentifier_isValid;
 
    function RelativeOID_isValid (val : Asn1ObjectIdentifier) return Boolean is
-- 
2.43.0


From c90b6de53fa3f401369873420eb15145570c18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 040/101] fix: object identifiers whose second arc is 40 or
 more, long arcs, truncation (Scala)

---
 asn1scala/src/main/scala/asn1scala/asn1jvm.scala         | 2 +-
 .../src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala    | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm.scala
index 16615d1..a2fba4a 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm.scala
@@ -516,7 +516,7 @@ def ObjectIdentifier_Init(): Asn1ObjectIdentifier = {
 }
 
 def ObjectIdentifier_isValid(pVal: Asn1ObjectIdentifier): Boolean = {
-    return (pVal.nCount >= 2) && (pVal.values(0) <= 2) && (pVal.values(1) <= 39)
+    return (pVal.nCount >= 2) && (pVal.values(0) <= 2) && (pVal.values(0) == 2 || pVal.values(1) <= 39)
 }
 
 def RelativeOID_isValid (pVal: Asn1ObjectIdentifier): Boolean = {
diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala
index 38f6372..752dcc3 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala
@@ -66,7 +66,7 @@ case class UPER private [asn1scala](base: Codec) {
          decreases(siValue)
          val curByte: UByte = (siValue % 128).toByte.toRawUByte
          siValue = siValue / 128
-         lastOctet = siValue.toInt == 0
+         lastOctet = siValue == 0
          tmp(nSize) = curByte
          nSize += 1
 
@@ -150,6 +150,8 @@ case class UPER private [asn1scala](base: Codec) {
          siValue = siValue << 7
          siValue |= curOctetValue
       ).invariant(true) // TODO
+      // the contents must not end inside a subidentifier
+      assert(bLastOctet)
 
       (pRemainingOctets, ULong.fromRaw(siValue))
    }
@@ -172,8 +174,9 @@ case class UPER private [asn1scala](base: Codec) {
       var (totalSize, si) = objectIdentifier_subIdentifiers_decode(objectIdentifier_decode_length())
 
       pVal.nCount = 2
-      pVal.values(0) = si.toRaw / 40
-      pVal.values(1) = si.toRaw % 40
+      // X.690 8.19.4: the second arc is below 40 unless the first one is 2
+      pVal.values(0) = if si.toRaw >= 0 && si.toRaw < 80 then si.toRaw / 40 else 2
+      pVal.values(1) = si.toRaw - pVal.values(0) * 40
       (while totalSize > 0 && pVal.nCount < OBJECT_IDENTIFIER_MAX_LENGTH do
          decreases(OBJECT_IDENTIFIER_MAX_LENGTH - pVal.nCount)
 
-- 
2.43.0


From 38cc0648195a3e17507d56004dc25a7b3a126865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 041/101] fix: packet data field of up to 65536 octets

---
 .../wrappers/c/PacketLength.c                                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/PacketLength.c b/PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/PacketLength.c
index e02cd72..1399148 100644
--- a/PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/PacketLength.c
+++ b/PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c/PacketLength.c
@@ -51,7 +51,7 @@ static bool checkMaximumPacketLength(const size_t length,
                                      const size_t maxLength,
                                      int* const errCode)
 {
-  if (length > maxLength || length > MaxAllowedPacketDataSize)
+  if (length > maxLength || length - PrimaryHeaderSize > MaxAllowedPacketDataSize)
     return Asn1PuscLib_returnError(errCode, Asn1PuscLib_ErrorCodes_MessageTooLong);
   return true;
 }
-- 
2.43.0


From e12d5961d4cac80aa5ab9a22648992e0128d609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 042/101] fix: BER byte stream access one byte past the end

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 35faefa..e7f89d4 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -13,7 +13,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v);
 
 static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 
 	pStrm->buf[pStrm->currentByte] = v;
@@ -22,7 +22,7 @@ static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 }
 
 static flag ByteStream_GetByte(ByteStream* pStrm, byte* v) {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 	*v = pStrm->buf[pStrm->currentByte];
 	pStrm->currentByte++;
-- 
2.43.0


From faf3c2beedc747db6def9fb7e1fe47fe8c9ee66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 043/101] fix: BER decoders refuse impossible lengths

---
 asn1crt/asn1crt_encoding_ber.c | 48 +++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index e7f89d4..c576b6b 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -4,6 +4,7 @@
 #include <math.h>
 #include <float.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "asn1crt_encoding_ber.h"
@@ -92,7 +93,7 @@ flag BerDecodeTag(ByteStream* pByteStrm, BerTag tag, int *pErrCode) {
 		tgCopy >>= 8;
 		tagSize++;
 	}
-	PrimitiveBit = (BerTag)(0x20 << ((tagSize - 1) * 8));
+	PrimitiveBit = (BerTag)0x20 << ((tagSize - 1) * 8);
 
 	while (tagSize>0) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
@@ -162,6 +163,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
+		if (ret > (unsigned int)(INT_MAX >> 8)) {
+			*pErrCode = ERR_BER_LENGTH_MISMATCH;
+			return FALSE;
+		}
 		ret <<= 8;
 		ret |= curByte;
 	}
@@ -250,6 +255,11 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 1 || length > WORD_SIZE) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length; i++) {
 		byte curByte;
 
@@ -393,14 +403,17 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 0 || length > maxLength) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxLength)
-			value[i] = (char)curByte;
+		value[i] = (char)curByte;
 	}
 
 	return TRUE;
@@ -482,23 +495,28 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 1 || length - 1 > maxBytesLen) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (!ByteStream_GetByte(pByteStrm, &lastByteUnusedBits)) {
 		*pErrCode = ERR_INSUFFICIENT_DATA;
 		return FALSE;
 	}
 
+	if (lastByteUnusedBits > 7 || (length - 1) * 8 - lastByteUnusedBits > maxBitCount || (length - 1) * 8 < lastByteUnusedBits) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length - 1; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxBytesLen) {
-			nbitCnt += 8;
-			value[i] = curByte;
-		}
-		else {
-			lastByteUnusedBits = 0;
-		}
+		nbitCnt += 8;
+		value[i] = curByte;
 	}
 
 	nbitCnt -= lastByteUnusedBits;
@@ -541,16 +559,20 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 0 || length > maxOctCount) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (octCount != NULL)
-		*octCount = length <= maxOctCount ? length : maxOctCount;
+		*octCount = length;
 
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
-		if (i<maxOctCount)
-			value[i] = curByte;
+		value[i] = curByte;
 	}
 
 	return TRUE;
-- 
2.43.0


From 975d411a81108fcec1b19b7ce2518c146a0eb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 044/101] fix: REAL special values followed by further contents
 octets

---
 asn1crt/asn1crt_encoding.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 030fc05..da5429d 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1234,6 +1234,9 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
 	if (!BitStream_ReadByte(pBitStrm, &header))
 		return FALSE;
 
+	if (length != 1 && (header & 0xC0) == 0x40)
+		return FALSE;	/* special values have no further octets */
+
 	if (header == 0x40)
 	{
 		*v = INFINITY;
-- 
2.43.0


From fc55ff8c5729127fdc234e4bee6901b8114ea0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 045/101] fix: XER text appended after what the buffer already
 held

---
 asn1crt/asn1crt_encoding_xer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 1d4f2d3..ecbc66e 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -101,7 +101,7 @@ flag ByteStream_AppendString(ByteStream* pStrm, const char* v)
 	if (pStrm->currentByte + len >= pStrm->count)
 		return FALSE;
 
-	strcat((char*)&pStrm->buf[pStrm->currentByte], v);
+	strcpy((char*)&pStrm->buf[pStrm->currentByte], v);
 	pStrm->currentByte += len;
 	return TRUE;
 }
-- 
2.43.0


From babf35e226ca29f054c00133e8982cd58ac23f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 046/101] fix: XER attributes: separation, and unexpected, long
 or many attributes

---
 asn1crt/asn1crt_encoding_xer.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index ecbc66e..2752df0 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -207,13 +207,17 @@ Token LA(ByteStream* pByteStrm) {
 
 
 
-void AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
+flag AddAttribute(XmlAttributeArray* pAttrArray, const char* attr, const char* val)
 {
-	assert(((unsigned)pAttrArray->nCount) < (sizeof(XmlAttributeArray) - sizeof(int)) / sizeof(XmlAttribute));
+	if (((unsigned)pAttrArray->nCount) >= sizeof(pAttrArray->attrs) / sizeof(XmlAttribute))
+		return FALSE;
+	if (strlen(attr) >= sizeof(pAttrArray->attrs[0].Name) || strlen(val) >= sizeof(pAttrArray->attrs[0].Value))
+		return FALSE;
 
 	strcpy(pAttrArray->attrs[pAttrArray->nCount].Name, attr);
 	strcpy(pAttrArray->attrs[pAttrArray->nCount].Value, val);
 	pAttrArray->nCount++;
+	return TRUE;
 }
 
 /*
@@ -391,7 +395,10 @@ flag Xer_DecodeAttributes(ByteStream* pByteStrm, XmlAttributeArray* pAttrs, int
 			*pErrCode = ERR_INVALID_XML_FILE; /* +++ */
 			return FALSE;
 		}
-		AddAttribute(pAttrs, t1.Value, t2.Value);
+		if (pAttrs != NULL && !AddAttribute(pAttrs, t1.Value, t2.Value)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 	}
 	return TRUE;
 }
@@ -414,6 +421,8 @@ flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag
 		return FALSE;
 	if (pAttrs != NULL) {
 		for (i = 0; i<pAttrs->nCount; i++) {
+			if (!ByteStream_AppendString(pByteStrm, " "))
+				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, pAttrs->attrs[i].Name))
 				return FALSE;
 			if (!ByteStream_AppendString(pByteStrm, "="))
-- 
2.43.0


From e112693d0de07e14b714efec498b1755fd442b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 047/101] fix: XER REAL: lost digits, small numbers, infinities
 and NaN

---
 asn1crt/asn1crt_encoding_xer.c | 56 +++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 2752df0..98f993c 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -22,28 +22,27 @@ char* UInt2String(asn1SccUint v) {
 }
 
 char* Double2String(double v) {
-	if (fabs(v) < 1e-17)
+	if (isnan(v))
+		return "<NOT-A-NUMBER/>";
+	if (isinf(v))
+		return v > 0 ? "<PLUS-INFINITY/>" : "<MINUS-INFINITY/>";
+	if (v == 0)
 		return "0";
 
 	static char tmp[256];
+	char *pExp;
 	int exponent = 0;
+	int precision = 1;
 
-	while (fabs(v) >= 10) {
-		v /= 10;
-		exponent++;
-	}
-
-	while (fabs(v) < 1) {
-		v *= 10;
-		exponent--;
-	}
+	/* the fewest digits that read back as the same number */
+	do {
+		snprintf(tmp, sizeof(tmp), "%.*e", precision, v);
+		precision++;
+	} while (precision <= 16 && strtod(tmp, NULL) != v);
 
-	if (fabs(fabs(v) - llabs((asn1SccSint)v)) < 1e-17) {
-		snprintf(tmp, sizeof(tmp), "%.1fE%d", v, exponent);
-	}
-	else {
-		snprintf(tmp, sizeof(tmp), "%.17gE%d", v, exponent);
-	}
+	pExp = strchr(tmp, 'e');
+	exponent = atoi(pExp + 1);
+	sprintf(pExp, "E%d", exponent);
 
 	return tmp;
 }
@@ -813,11 +812,32 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real* value, int *pErrCode)
 {
 	char tmp[256];
+	char special[256];
+	char *pEnd;
+	int save = pByteStrm->currentByte;
 	memset(tmp, 0x0, sizeof(tmp));
+
+	/* <elementTag><PLUS-INFINITY/></elementTag> */
+	if (Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode) && Xer_LA_NextElementTag(pByteStrm, special)) {
+		if (strcmp(special, "PLUS-INFINITY") == 0)
+			*value = INFINITY;
+		else if (strcmp(special, "MINUS-INFINITY") == 0)
+			*value = -INFINITY;
+		else if (strcmp(special, "NOT-A-NUMBER") == 0)
+			*value = NAN;
+		else
+			return FALSE;
+		return Xer_DecodePrimitiveElement(pByteStrm, special, tmp, sizeof(tmp), pErrCode) &&
+			Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
+	}
+	pByteStrm->currentByte = save;
+
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = atof(tmp);
-	return TRUE;
+	if (strspn(tmp, "0123456789+-.eE \t\r\n") != strlen(tmp))
+		return FALSE;
+	*value = strtod(tmp, &pEnd);
+	return pEnd != tmp && strspn(pEnd, " \t\r\n") == strlen(pEnd);
 }
 
 
-- 
2.43.0


From fb63c287a451dd5421f449c5c876118b05cf81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 048/101] fix: XER INTEGER: text that is no number, or a number
 out of range, accepted

---
 asn1crt/asn1crt_encoding_xer.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 98f993c..e0336b2 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -6,6 +6,7 @@
 #include <ctype.h>
 #include <stdlib.h>
 #include <inttypes.h>
+#include <errno.h>
 
 #include "asn1crt_encoding_xer.h"
 
@@ -738,21 +739,29 @@ flag Xer_DecodeNull(ByteStream* pByteStrm, const char* elementTag, NullType* val
 flag Xer_DecodeInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccSint* value, int *pErrCode)
 {
 	char tmp[256];
+	char *pEnd;
+	long long v;
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = atoll(tmp);
-	return TRUE;
+	errno = 0;
+	v = strtoll(tmp, &pEnd, 10);
+	*value = (asn1SccSint)v;
+	return pEnd != tmp && strspn(pEnd, " \t\r\n") == strlen(pEnd) && errno == 0 && *value == v;
 }
 
 flag Xer_DecodePosInteger(ByteStream* pByteStrm, const char* elementTag, asn1SccUint* value, int *pErrCode)
 {
 	char tmp[256];
+	char *pEnd;
+	unsigned long long v;
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
-	*value = strtoull(tmp, NULL, 10);
-	return TRUE;
+	errno = 0;
+	v = strtoull(tmp, &pEnd, 10);
+	*value = (asn1SccUint)v;
+	return pEnd != tmp && strspn(pEnd, " \t\r\n") == strlen(pEnd) && errno == 0 && *value == v && strchr(tmp, '-') == NULL;
 }
 
 flag Xer_DecodeBoolean(ByteStream* pByteStrm, const char* elementTag, flag* value, int *pErrCode)
-- 
2.43.0


From d5e0587d26d0a0960c7e7af69de38fd788346d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 049/101] fix: XER strings holding <, > or &

---
 BackendAst/DAstXer.fs          |  2 +-
 asn1crt/asn1crt_encoding_xer.c | 45 +++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index ebfb317..e4e7230 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -52,7 +52,7 @@ let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
 let getMaxSizeInBytesForXER_Real        = 50I
 let getMaxSizeInBytesForXER_NullType    = 0I
-let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize
+let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize * 5I // every character may be an escape, e.g. &amp;
 let getMaxSizeInBytesForXER_NumericString   maxSize = maxSize
 
 let getMaxSizeInBytesForXER  (xmlTag:XerTag) (contentSize:BigInteger) : BigInteger =
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index e0336b2..67b7420 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -266,6 +266,25 @@ flag Xer_EncodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 
 
 
+/* reads what follows the & of a predefined entity, e.g. lt; */
+flag DecodeEntity(ByteStream* pByteStrm, char* pDecodedChar)
+{
+	static const char* const names[] = { "lt;", "gt;", "amp;", "quot;", "apos;" };
+	static const char chars[] = { '<', '>', '&', '"', '\'' };
+	unsigned i;
+
+	for (i = 0; i < sizeof(chars); i++) {
+		long len = (long)strlen(names[i]);
+		if (pByteStrm->currentByte + len <= pByteStrm->count &&
+			memcmp(&pByteStrm->buf[pByteStrm->currentByte], names[i], (size_t)len) == 0) {
+			pByteStrm->currentByte += (int)len;
+			*pDecodedChar = chars[i];
+			return TRUE;
+		}
+	}
+	return FALSE;
+}
+
 flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, char* pDecodedValue, size_t maxLen, int *pErrCode)
 {
 	size_t written = 0;
@@ -323,10 +342,15 @@ flag Xer_DecodePrimitiveElement(ByteStream* pByteStrm, const char* elementTag, c
 			*pErrCode = ERR_INVALID_XML_FILE;
 			return FALSE;
 		}
+		if (c == '&' && !DecodeEntity(pByteStrm, &c)) {
+			*pErrCode = ERR_INVALID_XML_FILE;
+			return FALSE;
+		}
 
 		*pDecodedValue = c;
 		pDecodedValue++;
 		written++;
+		c = 0x0;
 	}
 
 	PushBackChar(pByteStrm);
@@ -613,7 +637,26 @@ flag Xer_EncodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real valu
 
 flag Xer_EncodeString(ByteStream* pByteStrm, const char* elementTag, const char* value, int *pErrCode, int level)
 {
-	return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+	char tmp[2] = { 0x0, 0x0 };
+
+	if (value == NULL || strpbrk(value, "<>&") == NULL)
+		return Xer_EncodePrimitiveElement(pByteStrm, elementTag, value, pErrCode, level);
+
+	if (!ByteStream_PutSpace(pByteStrm, level))
+		return FALSE;
+	if (!Xer_EncodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode, -1))
+		return FALSE;
+	for (; *value != 0x0; value++) {
+		tmp[0] = *value;
+		if (!ByteStream_AppendString(pByteStrm, *value == '<' ? "&lt;" : *value == '>' ? "&gt;" : *value == '&' ? "&amp;" : tmp))
+			return FALSE;
+	}
+	if (!Xer_EncodeComplexElementEnd(pByteStrm, elementTag, pErrCode, -1))
+		return FALSE;
+	if (level >= 0)
+		if (!ByteStream_PutNL(pByteStrm))
+			return FALSE;
+	return TRUE;
 }
 
 flag Xer_EncodeOctetString(ByteStream* pByteStrm, const char* elementTag, const byte value[], int nCount, int *pErrCode, int level)
-- 
2.43.0


From 4fc167504923c6a86892f068dfb8c597e080e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 050/101] fix: XER OCTET and BIT STRING decoding: overflow,
 excess length, digits, long values

---
 asn1crt/asn1crt_encoding_xer.c | 104 ++++++++++++++++++---------------
 asn1crt/asn1crt_encoding_xer.h |   2 +-
 2 files changed, 59 insertions(+), 47 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 67b7420..697cc22 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -916,29 +916,40 @@ flag CharToNibble(char c, byte* pNibble) {
 	return FALSE;
 }
 
-flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+/* moves past <elementTag/>, when that is what comes next */
+flag Xer_DecodeEmptyElement(ByteStream* pByteStrm, const char* elementTag)
 {
-	char tmp[1024];
-	int len = 0;
-	int i;
-	int j = 0;
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
-		return FALSE;
-
-	len = (int)strlen(tmp);
+	Token t;
+	int save = (int)pByteStrm->currentByte;
 
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
+	if (NT(pByteStrm).TokenID == '<') {
+		t = NT(pByteStrm);
+		if (t.TokenID == WORD_ID && strcmp(t.Value, elementTag) == 0 &&
+			NT(pByteStrm).TokenID == '/' && NT(pByteStrm).TokenID == '>')
+			return TRUE;
 	}
+	pByteStrm->currentByte = save;
+	return FALSE;
+}
 
-	len = j;
+flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+{
+	int i = 0;
+	char c;
+
+	if (Xer_DecodeEmptyElement(pByteStrm, elementTag)) {
+		if (nCount != NULL)
+			*nCount = 0;
+		return nCount != NULL || bufferMaxSize == 0;
+	}
+	if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
+		return FALSE;
 
-	for (i = 0; i<len && i / 2 < bufferMaxSize; i++) {
+	while (GetNextChar(pByteStrm, &c) && c != '<') {
 		byte nibble;
-		if (!CharToNibble(tmp[i], &nibble))
+		if (isspace((unsigned char)c))
+			continue;
+		if (i / 2 >= bufferMaxSize || !CharToNibble(c, &nibble))
 			return FALSE;
 		if (i % 2 == 0) {
 			value[i / 2] = (byte)(nibble << 4);
@@ -946,11 +957,16 @@ flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte v
 		else {
 			value[i / 2] |= nibble;
 		}
+		i++;
 	}
+	PushBackChar(pByteStrm);
+
 	if (nCount != NULL)
-		*nCount = len / 2 + len % 2;
+		*nCount = i / 2 + i % 2;
+	else if (i / 2 + i % 2 != bufferMaxSize)
+		return FALSE;
 
-	return TRUE;
+	return Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
 }
 
 
@@ -1008,42 +1024,38 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 
 
 
-flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
+flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int maxBits, int* nCount, int *pErrCode)
 {
-	char tmp[2048];
-	int len = 0;
-	int i;
-	int bytes;
-	int j = 0;
-
-	memset(tmp, 0x0, sizeof(tmp));
-	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
-		return FALSE;
+	int i = 0;
+	char c;
 
-	len = (int)strlen(tmp);
-	for (i = 0; i<len; i++) {
-		if (isspace(tmp[i]))
-			continue;
-		tmp[j++] = tmp[i];
+	if (Xer_DecodeEmptyElement(pByteStrm, elementTag)) {
+		if (nCount != NULL)
+			*nCount = 0;
+		return nCount != NULL || maxBits == 0;
 	}
-	len = j;
-
-	bytes = len / 8;
-	if (len % 8)
-		bytes++;
-
-	memset(value, 0x0, (size_t)bytes);
+	if (!Xer_DecodeComplexElementStart(pByteStrm, elementTag, NULL, pErrCode))
+		return FALSE;
 
+	memset(value, 0x0, (size_t)((maxBits + 7) / 8));
 
-	for (i = 0; i<len && i / 8 < bufferMaxSize; i++) {
-		byte curVal = (byte)(tmp[i] - '0');
+	while (GetNextChar(pByteStrm, &c) && c != '<') {
 		int curBit = 7 - i % 8;
-		value[i / 8] |= (byte)(curVal << curBit);
+		if (isspace((unsigned char)c))
+			continue;
+		if (i >= maxBits || (c != '0' && c != '1'))
+			return FALSE;
+		value[i / 8] |= (byte)((c - '0') << curBit);
+		i++;
 	}
+	PushBackChar(pByteStrm);
+
 	if (nCount != NULL)
-		*nCount = len;
+		*nCount = i;
+	else if (i != maxBits)
+		return FALSE;
 
-	return TRUE;
+	return Xer_DecodeComplexElementEnd(pByteStrm, elementTag, pErrCode);
 }
 
 
diff --git a/asn1crt/asn1crt_encoding_xer.h b/asn1crt/asn1crt_encoding_xer.h
index 764ed43..33fc8df 100644
--- a/asn1crt/asn1crt_encoding_xer.h
+++ b/asn1crt/asn1crt_encoding_xer.h
@@ -29,7 +29,7 @@ flag Xer_DecodeEnumerated(ByteStream* pByteStrm, const char* elementTag, char* v
 flag Xer_DecodeReal(ByteStream* pByteStrm, const char* elementTag, asn1Real* value, int *pErrCode);
 flag Xer_DecodeString(ByteStream* pByteStrm, const char* elementTag, char* value, size_t valSize, int *pErrCode);
 flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode);
-flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode);
+flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int maxBits, int* nCount, int *pErrCode);
 flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, Asn1ObjectIdentifier *pVal, int *pErrCode);
 
 flag Xer_EncodeComplexElementStart(ByteStream* pByteStrm, const char* elementTag, XmlAttributeArray* pAttrs, int *pErrCode, int level);
-- 
2.43.0


From b2a3a06e9b97d719c0a05a5a60ff910c38a7a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 051/101] fix: XER OBJECT IDENTIFIER decoding

---
 BackendAst/DAstXer.fs          |  3 ++-
 asn1crt/asn1crt_encoding_xer.c | 27 ++++++++++++++++++---------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index e4e7230..f539e18 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -51,6 +51,7 @@ let getMaxSizeInBytesForXER_Enumerated (itemNames : string list) =
 let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
 let getMaxSizeInBytesForXER_Real        = 50I
+let getMaxSizeInBytesForXER_ObjectIdentifier = 20I * 21I // OBJECT_IDENTIFIER_MAX_LENGTH arcs of up to 20 digits, and the dots
 let getMaxSizeInBytesForXER_NullType    = 0I
 let getMaxSizeInBytesForXER_IA5String   maxSize = maxSize * 5I // every character may be an escape, e.g. &amp;
 let getMaxSizeInBytesForXER_NumericString   maxSize = maxSize
@@ -188,7 +189,7 @@ let createObjectIdentifierFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (c
         let xmlTag = xmlTag |> orElse (XerLiteralConstant "ObjectIdentifier")
         let pp = match codec with CommonTypes.Encode -> lm.lg.getPointer p.accessPath | CommonTypes.Decode -> lm.lg.getPointer p.accessPath
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
-        let contentSize = getMaxSizeInBytesForXER_Real
+        let contentSize = getMaxSizeInBytesForXER_ObjectIdentifier
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
         let bodyStm = ObjectIdentifier pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 697cc22..20db531 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -978,7 +978,6 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 	int len = 0;
 	int i;
 	int j = 0;
-	char delim[] = ".";
 	memset(tmp, 0x0, sizeof(tmp));
 	if (!Xer_DecodePrimitiveElement(pByteStrm, elementTag, tmp, sizeof(tmp), pErrCode))
 		return FALSE;
@@ -991,18 +990,28 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 		tmp[j++] = tmp[i];
 	}
 
-	len = j;
+	tmp[j] = 0x0;
 
-	char *ptr = strtok(tmp, delim);
-	i = 0;
-	while (ptr != NULL && i < OBJECT_IDENTIFIER_MAX_LENGTH)
+	char *ptr = tmp;
+	for (i = 0; i < OBJECT_IDENTIFIER_MAX_LENGTH; i++)
 	{
-		pVal->values[i++] = atoll(tmp);
-
-		ptr = strtok(NULL, delim);
+		unsigned long long v;
+		if (!isdigit((unsigned char)*ptr))
+			return FALSE;
+		errno = 0;
+		v = strtoull(ptr, &ptr, 10);
+		pVal->values[i] = (asn1SccUint)v;
+		pVal->nCount = i + 1;
+		if (errno != 0 || pVal->values[i] != v)
+			return FALSE;
+		if (*ptr == 0x0)
+			return TRUE;
+		if (*ptr != '.')
+			return FALSE;
+		ptr++;
 	}
 
-	return TRUE;
+	return FALSE;
 }
 
 
-- 
2.43.0


From 367effe110d4767cb5f5be77b529e88aedc2aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 052/101] fix: XER unknown enumeration labels, refused
 alternatives and element counts, comments

---
 BackendAst/DAstXer.fs          |  2 +-
 StgC/xer_c.stg                 | 10 +++++++---
 asn1crt/asn1crt_encoding_xer.c |  9 ++++++---
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index f539e18..432aa34 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -46,7 +46,7 @@ let private aux (s:string) = 2 * (s.Length + 1) + 1 |> BigInteger
 let getMaxSizeInBytesForXER_boolean ()  =  BigInteger ("<false/>".Length)  //<>
 let getMaxSizeInBytesForXER_Integer ()  =  BigInteger (System.Int64.MinValue.ToString().Length)
 let getMaxSizeInBytesForXER_Enumerated (itemNames : string list) =
-    let maxName = itemNames |>  Seq.max
+    let maxName = itemNames |>  Seq.maxBy (fun (s:string) -> s.Length)
     aux maxName
 let getMaxSizeInBytesForXER_BitString   maxSize = maxSize * 8I
 let getMaxSizeInBytesForXER_OctetString maxSize = maxSize * 2I
diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index dc2ad4d..013a727 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -202,6 +202,7 @@ Enumerated_decode(p, sTag, nLevel, arrsItems, soCheckExp, sErrCode) ::= <<
     if (ret) {
         <arrsItems; separator="\n">
 	    else {
+		    ret = FALSE;
 		    *pErrCode = <sErrCode>; /*COVERAGE_IGNORE*/
 	    }
     } else {
@@ -277,7 +278,8 @@ if (ret) {
     }
 }
 <if(bFixedSize)>
-*pErrCode = (ret && <sI> == <nSizeMax>) ? 0 : <sErrCode>;
+ret = ret && <sI> == <nSizeMax>;
+*pErrCode = ret ? 0 : <sErrCode>;
 
 <else>
 <if(soCheckExp)><soCheckExp><endif>
@@ -433,8 +435,10 @@ ret = Xer_DecodeComplexElementStart(pByteStrm, <sTag>, NULL, pErrCode);
 *pErrCode = ret ? 0 : <sErrCode>;
 if (ret) {
     <sMainBody>
-    ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
-	*pErrCode = ret ? 0 : <sErrCode>;
+    if (ret) {
+        ret = Xer_DecodeComplexElementEnd(pByteStrm, <sTag>, pErrCode);
+	    *pErrCode = ret ? 0 : <sErrCode>;
+    }
 }
 >>
 
diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 20db531..87c3924 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -1396,9 +1396,12 @@ flag OnXmlComment(int c, int l1, ByteStream* pStrm, ByteStream* pTmpStrm, FILE*
 	(void)pTmpStrm;
 	(void)pStrm;
 
-	if (c == '-' && l1 == '>') {
-		fgetc(xmlFile); //discard l1 i.e. '>';
-		*pNewState = PreviousState;
+	if (c == '-' && l1 == '-') {
+		fgetc(xmlFile); //discard l1
+		//a comment ends at two dashes that are followed by '>'
+		while ((c = fgetc(xmlFile)) == '-') {
+		}
+		*pNewState = c == '>' ? PreviousState : XmlComment;
 	}
 	else {
 		*pNewState = XmlComment;
-- 
2.43.0


From 631b71e3fbb5cad88099f9cc528e86dd41ac0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 053/101] fix: signed overflow when the smallest integer is
 converted

---
 asn1crt/asn1crt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index accc069..9290a39 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -26,7 +26,7 @@ const asn1SccUint32 ber_aux[] = {
 asn1SccUint int2uint(asn1SccSint v) {
     asn1SccUint ret = 0;
     if (v < 0) {
-        ret = (asn1SccUint)(-v - 1);
+        ret = (asn1SccUint)(-(v + 1));
         ret = ~ret;
     }
     else {
-- 
2.43.0


From f399717aeef740bc9fe8d92a1613befc7ed15028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 054/101] fix: integers without content octets and
 semi-constrained values that do not fit the type

---
 asn1crt/asn1crt_encoding.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index da5429d..433d82e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -954,6 +954,7 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 {
 	asn1SccSint nBytes;
 	int i;
+	asn1SccUint uv = 0;
 	*v = 0;
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
@@ -963,9 +964,12 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*v = (*v << 8) | b;
+		uv = (uv << 8) | b;
 	}
-	*v += min;
+	/* the value does not fit in the signed type */
+	if (uv > (((asn1SccUint)-1) >> 1) - (asn1SccUint)min)
+		return FALSE;
+	*v = (asn1SccSint)(uv + (asn1SccUint)min);
 	return TRUE;
 }
 
@@ -984,6 +988,9 @@ flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 			return FALSE;
 		*v = (*v << 8) | b;
 	}
+	/* the value does not fit in the type */
+	if (*v > ((asn1SccUint)-1) - min)
+		return FALSE;
 	*v += min;
 	return TRUE;
 }
@@ -1015,7 +1022,7 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 
 	valIsNegative = BitStream_PeekBit(pBitStrm);
-- 
2.43.0


From 71c463e58cdba61b376d93b24fcbc7efe0a17365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 055/101] fix: fragmented octet and bit strings below their
 minimum size are refused

---
 asn1crt/asn1crt_encoding.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 433d82e..5a90b6e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1666,6 +1666,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 	}
 	else {
 		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax);
+		ret = ret && *nCount >= asn1SizeMin;
 	}
 	return ret;
 }
@@ -1798,7 +1799,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= asn1SizeMin) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From 168e7515c6746cee751c21ac1505471ec013071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 056/101] fix: XER octet and bit strings at the end of the
 input

---
 asn1crt/asn1crt_encoding_xer.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 87c3924..724c377 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -935,7 +935,7 @@ flag Xer_DecodeEmptyElement(ByteStream* pByteStrm, const char* elementTag)
 flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte value[], int bufferMaxSize, int* nCount, int *pErrCode)
 {
 	int i = 0;
-	char c;
+	char c = 0x0;
 
 	if (Xer_DecodeEmptyElement(pByteStrm, elementTag)) {
 		if (nCount != NULL)
@@ -959,7 +959,8 @@ flag Xer_DecodeOctetString(ByteStream* pByteStrm, const char* elementTag, byte v
 		}
 		i++;
 	}
-	PushBackChar(pByteStrm);
+	if (c == '<')
+		PushBackChar(pByteStrm);
 
 	if (nCount != NULL)
 		*nCount = i / 2 + i % 2;
@@ -1036,7 +1037,7 @@ flag Xer_DecodeObjectIdentifier(ByteStream* pByteStrm, const char* elementTag, A
 flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte value[], int maxBits, int* nCount, int *pErrCode)
 {
 	int i = 0;
-	char c;
+	char c = 0x0;
 
 	if (Xer_DecodeEmptyElement(pByteStrm, elementTag)) {
 		if (nCount != NULL)
@@ -1057,7 +1058,8 @@ flag Xer_DecodeBitString(ByteStream* pByteStrm, const char* elementTag, byte val
 		value[i / 8] |= (byte)((c - '0') << curBit);
 		i++;
 	}
-	PushBackChar(pByteStrm);
+	if (c == '<')
+		PushBackChar(pByteStrm);
 
 	if (nCount != NULL)
 		*nCount = i;
-- 
2.43.0


From 7c01750d192e07641a18d2a794570e7a7c8ebc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 057/101] fix: Ada: minus zero is encoded and decoded as minus
 zero

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 2 +-
 ADA_RTL2/src/adaasn1rtl-encoding.ads      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 490ed38..0ed1307 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -372,7 +372,7 @@ is
                   RealVal := NaN;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif Header = 16#43# then
-                  RealVal := -0.0;
+                  RealVal := Asn1Real'Copy_Sign (0.0, -1.0);
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif (Header and 16#80#) > 0 then
                   UPER_Dec_Real_AsBinary
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.ads b/ADA_RTL2/src/adaasn1rtl-encoding.ads
index f8d55c1..0bc2730 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.ads
@@ -95,9 +95,9 @@ is
    function isNaN (r : Asn1Real) return Boolean is
    (r /= 0.0 and then (not (r < 0.0)) and then (not (r > 0.0)));
    function isPosZero (r : Asn1Real) return Boolean is
-     (r >= 0.0 and then r <= 0.0);
+     (r = 0.0 and then Asn1Real'Copy_Sign (1.0, r) > 0.0);
    function isNegZero (r : Asn1Real) return Boolean is
-     (r >= -0.0 and then r <= -0.0);
+     (r = 0.0 and then Asn1Real'Copy_Sign (1.0, r) < 0.0);
 
    function GetExponent (V : Asn1Real) return Asn1Int;
    function GetMantissa (V : Asn1Real) return Asn1UInt;
-- 
2.43.0


From c24ac22379276bf6ea5ccd538b6c46da57c6088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 058/101] fix: Ada: REAL values below 2**-1023 or with a scaled
 mantissa of more than 64 bits decode to the value sent

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 0ed1307..933c6c0 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -253,7 +253,10 @@ is
    is
       pragma SPARK_Mode (Off);
    begin
-      return (Asn1Real (Factor * N) * Asn1Real (base)**Exp);
+      return
+        Asn1Real'Scaling
+          (Asn1Real (Factor) * Asn1Real (N),
+           (if base = 16 then 4 elsif base = 8 then 3 else 1) * Exp);
    end CalcReal;
 
    procedure UPER_Dec_Real_AsBinary_aux
-- 
2.43.0


From 4bc5405d84a9ce1ef6517d4896065a568c8a154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 059/101] fix: Ada: REAL contents that are too long or use a
 reserved form are refused

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 933c6c0..243b112 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -289,8 +289,8 @@ is
 
          if Result.Success and Length - ExpLen <= Asn1UInt'Size / 8 then
             Dec_UInt (bs, Integer (Length - ExpLen), N, Result.Success);
-            if Result.Success and Exp > Asn1Int (Integer'First) and
-              Exp < Asn1Int (Integer'Last)
+            if Result.Success and Exp > Asn1Int (Integer'First / 4) and
+              Exp < Asn1Int (Integer'Last / 4)
             then
                RealVal := CalcReal (Factor, N, Base, Integer (Exp));
 
@@ -299,7 +299,11 @@ is
                end if;
 
                Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
+            else
+               Result.Success := False;
             end if;
+         else
+            Result.Success := False;
          end if;
       end if;
    end UPER_Dec_Real_AsBinary_aux;
@@ -365,19 +369,21 @@ is
          if Length > 0 then
             BitStream_DecodeByte (bs, Header, Result.Success);
             if Result.Success then
-               if Header = 16#40# then
+               if Header = 16#40# and Length = 1 then
                   RealVal := PLUS_INFINITY;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif Header = 16#41# then
+               elsif Header = 16#41# and Length = 1 then
                   RealVal := MINUS_INFINITY;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif Header = 16#42# then
+               elsif Header = 16#42# and Length = 1 then
                   RealVal := NaN;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif Header = 16#43# then
+               elsif Header = 16#43# and Length = 1 then
                   RealVal := Asn1Real'Copy_Sign (0.0, -1.0);
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
-               elsif (Header and 16#80#) > 0 then
+               elsif (Header and 16#80#) > 0 and
+                 (Header and 16#30#) /= 16#30#
+               then
                   UPER_Dec_Real_AsBinary
                     (bs, Header, Length - 1, RealVal, Result);
                else
@@ -390,6 +396,8 @@ is
          else
             Result := ASN1_RESULT'(Success => True, ErrorCode => 0);
          end if;
+      else
+         Result.Success := False;
       end if;
    end UPER_Dec_Real;
 
-- 
2.43.0


From a46ea11dd243c0d13a8dfdcd16c70ac8834e24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 060/101] fix: Ada: infinities and NaN decode into single
 precision REAL

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb  | 12 ++++++++----
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 13d464f..6166447 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -1709,8 +1709,10 @@ is
         (Off, "condition is always True");
 
       Result.Success := Result.Success and then
-        Asn1Real (Standard.Float'First) <= v and then
-        v <= Asn1Real (Standard.Float'Last);
+        (isNaN (v) or else v = PLUS_INFINITY or else v = MINUS_INFINITY
+         or else
+           (Asn1Real (Standard.Float'First) <= v and then
+            v <= Asn1Real (Standard.Float'Last)));
 
       pragma Warnings
         (On, "condition can only be False if invalid values present");
@@ -1837,8 +1839,10 @@ is
         (Off, "condition is always True");
 
       Result.Success := Result.Success and then
-        Asn1Real (Standard.Float'First) <= v and then
-        v <= Asn1Real (Standard.Float'Last);
+        (isNaN (v) or else v = PLUS_INFINITY or else v = MINUS_INFINITY
+         or else
+           (Asn1Real (Standard.Float'First) <= v and then
+            v <= Asn1Real (Standard.Float'Last)));
 
       pragma Warnings
         (On, "condition can only be False if invalid values present");
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 243b112..8774344 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -415,8 +415,10 @@ is
         (Off, "condition is always True");
 
       Result.Success := Result.Success and then
-        Asn1Real (Standard.Float'First) <= v and then
-        v <= Asn1Real (Standard.Float'Last);
+        (isNaN (v) or else v = PLUS_INFINITY or else v = MINUS_INFINITY
+         or else
+           (Asn1Real (Standard.Float'First) <= v and then
+            v <= Asn1Real (Standard.Float'Last)));
 
       pragma Warnings
         (On, "condition can only be False if invalid values present");
-- 
2.43.0


From 6a53e2d8d9e33ed12678a917fbf785fe4c8c40d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 061/101] fix: Ada: null-terminated ASCII integers that are too
 large or not terminated are refused

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 6166447..e6f4e96 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -1561,7 +1561,8 @@ is
          intDigit := Character'Pos (Ch) - Character'Pos ('0');
 
          Result.Success :=
-           intDigit >= 0 and intDigit <= 9 and IntVal < Powers_of_10 (i - 1);
+           intDigit >= 0 and then intDigit <= 9 and then
+           IntVal <= (Asn1UInt'Last - Asn1UInt (intDigit)) / 10;
          if Result.Success then
             IntVal := IntVal * 10;
             IntVal := IntVal + Asn1UInt (intDigit);
@@ -1569,6 +1570,8 @@ is
          exit when not Result.Success;
          exit when nullChars (nullChars'First .. nullChars'Last) =
            tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First));
+         --  the last digit that fits must be followed by the terminator
+         Result.Success := i < Max_Int_Digits;
       end loop;
 
       if not Result.Success then
-- 
2.43.0


From b8112c06d0715b760cf6961d3351e2199f8667ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 062/101] fix: Ada: a null-terminated string of maximum length
 without its terminator is refused

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 10 ++++++++++
 ADA_RTL2/src/adaasn1rtl-encoding-acn.ads |  3 +--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index e6f4e96..f961a1f 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2186,6 +2186,16 @@ is
          I          := I + 1;
       end loop;
 
+      --  a string of maximum length must be followed by the terminator, too
+      if null_characters (null_characters'First .. null_characters'Last) /=
+        tmp
+          (tmp'First ..
+             tmp'First + (null_characters'Last - null_characters'First))
+      then
+         Result :=
+           ASN1_RESULT'(Success => False, ErrorCode => ERR_INCORRECT_STREAM);
+      end if;
+
    end Acn_Dec_String_Ascii_Null_Terminated;
 
    procedure Acn_Enc_String_Ascii_Internal_Field_Determinant
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
index 8b1ba8d..356a918 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
@@ -1424,8 +1424,7 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 -
           (strVal'Length - 1 + null_characters'Length) * 8,
-      Post => Result.Success and
-      bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
+      Post => bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       bs.Current_Bit_Pos <=
         bs'Old.Current_Bit_Pos +
           (strVal'Length - 1 + null_characters'Length) * 8;
-- 
2.43.0


From 854ba4d42f962f0c537c3ff6b472b3fc21875445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 063/101] fix: Ada: character indexes are limited by the
 character set, not by the size of the string

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index f961a1f..cdb1f4b 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2410,7 +2410,8 @@ is
               bs.Current_Bit_Pos'Loop_Entry + (I - strVal'First) * nCharSize);
 
          Dec_ConstraintWholeNumberInt
-           (bs, charIndex, 0, Integer (asn1Max), nCharSize, Result.Success);
+           (bs, charIndex, 0, charSet'Last - charSet'First, nCharSize,
+            Result.Success);
          if Result.Success and charIndex + charSet'First <= charSet'Last then
             strVal (I) := charSet (charIndex + charSet'First);
          else
-- 
2.43.0


From 268f4436475fc44b3dc6202d930a132f718e8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 064/101] fix: Ada: object identifiers without contents or with
 components that do not fit are refused

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 8774344..25bf611 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -566,6 +566,9 @@ is
          remainingOctets := remainingOctets - 1;
          bLastOctet      := (curByte and 16#80#) = 0;
          curOctetValue   := Asn1UInt (curByte and 16#7F#);
+         if siValue > Shift_Right (Asn1UInt'Last, 7) then
+            Result.Success := False;
+         end if;
          siValue         := Shift_Left (siValue, 7);
 
          siValue := siValue or curOctetValue;
@@ -627,8 +630,9 @@ is
       ObjectIdentifier_Init (val);
 
       ObjectIdentifier_uper_decode_length (bs, totalSize, Result);
+      Result.Success := Result.Success and totalSize > 0;
 
-      if Result.Success and totalSize > 0 then
+      if Result.Success then
          ObjectIdentifier_subidentifiers_uper_decode
            (bs, totalSize, si, Result);
          if Result.Success then
-- 
2.43.0


From 2e7648591b9e86e690c80ac790c4a6815b9c0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 065/101] fix: Ada: fragmented octet and bit strings of every
 length decode, and blocks beyond the maximum size are refused

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 33 ++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 25bf611..17b5990 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -887,6 +887,9 @@ is
 
          nLengthTmp1 := nLengthTmp1 + nCurBlockSize1;
          success     := nLengthTmp1 <= asn1SizeMax;
+         if not success then
+            return;
+         end if;
          i1          := nCurOffset1;
          while i1 <= nCurOffset1 + nCurBlockSize1 - 1 and success loop
             BitStream_DecodeByte (bs, data (i1), success);
@@ -916,9 +919,12 @@ is
             i1 := i1 + 1;
          end loop;
          nLengthTmp1 := nLengthTmp1 + nRemainingItemsVar1;
+      else
+         success := False;
       end if;
 
-      if nLengthTmp1 >= asn1SizeMin and nLengthTmp1 <= asn1SizeMax then
+      if success and nLengthTmp1 >= asn1SizeMin and nLengthTmp1 <= asn1SizeMax
+      then
          data_length := nLengthTmp1;
 
       else
@@ -1061,12 +1067,15 @@ is
             nCurBlockSize1 := 16#4000#;
          end if;
 
-         BitStream_ReadBits
-           (bs,
-            data
-              (data'First + nCurOffset1 / 8 ..
-                   data'First + (nCurOffset1 + nCurBlockSize1) / 8 - 1),
-            nCurBlockSize1, success);
+         success := nLengthTmp1 + nCurBlockSize1 <= asn1SizeMax;
+         if success then
+            BitStream_ReadBits
+              (bs,
+               data
+                 (data'First + nCurOffset1 / 8 ..
+                      data'First + (nCurOffset1 + nCurBlockSize1) / 8 - 1),
+               nCurBlockSize1, success);
+         end if;
 
          if success then
             nLengthTmp1 := nLengthTmp1 + nCurBlockSize1;
@@ -1098,14 +1107,18 @@ is
               (bs,
                data
                  (data'First + nCurOffset1 / 8 ..
-                      data'First + (nCurOffset1 + nRemainingItemsVar1) / 8 -
-                      1),
+                      data'First + (nCurOffset1 + nRemainingItemsVar1 + 6) / 8
+                      - 1),
                nRemainingItemsVar1, success);
 
             nLengthTmp1 := nLengthTmp1 + nRemainingItemsVar1;
+         else
+            success := False;
          end if;
 
-         if success and nLengthTmp1 >= 1 and nLengthTmp1 <= asn1SizeMax then
+         if success and nLengthTmp1 >= asn1SizeMin and
+           nLengthTmp1 <= asn1SizeMax
+         then
             data_length := nLengthTmp1;
 
          else
-- 
2.43.0


From ca29ce7273f4e9da38adaa7392b3e3d700a7dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 066/101] fix: Scala: denormal and infinite REAL values are
 encoded as they are

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala  | 4 ++--
 asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
index 330d36b..dbbb4a1 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
@@ -819,7 +819,7 @@ case class Codec(bitStream: BitStream) {
       val vVal = java.lang.Double.doubleToRawLongBits(vValDouble)
       require({
          val rawExp = (vVal & ExpoBitMask) >>> DoubleNoOfMantissaBits
-         rawExp >= 0 &&& rawExp <= ((1 << 11) - 2) // 2046, 2047 is the infinity case - never end up here with infinity
+         rawExp >= 0 &&& rawExp <= ((1 << 11) - 1) // 2047 is the infinity case
       })
       require({
          val (exponent, mantissa) = CalculateMantissaAndExponent(vVal)
@@ -870,7 +870,7 @@ case class Codec(bitStream: BitStream) {
       // Require from CalculateMantissaAndExponent
       require({
          val rawExp = (vVal & ExpoBitMask) >>> DoubleNoOfMantissaBits
-         rawExp >= 0 &&& rawExp <= ((1 << 11) - 2) // 2046, 2047 is the infinity case - never end up here with infinity
+         rawExp >= 0 &&& rawExp <= ((1 << 11) - 1) // 2047 is the infinity case
       })
       require({
          val (exponent, mantissa) = CalculateMantissaAndExponent(vVal)
diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
index 4b7db30..0de7524 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
@@ -242,12 +242,15 @@ def GetLengthForEncodingSigned(v: Long): Int = {
 def CalculateMantissaAndExponent(doubleAsLong64: Long): (UInt, ULong) = {
    require({
       val rawExp = (doubleAsLong64 & ExpoBitMask) >>> DoubleNoOfMantissaBits
-      rawExp >= 0 &&& rawExp <= ((1 << 11) - 2) // 2046, 2047 is the infinity case - never end up here with infinity
+      rawExp >= 0 &&& rawExp <= ((1 << 11) - 1) // 2047 is the infinity case, the result is not used then
    })
 
-   val exponent = ((doubleAsLong64 & ExpoBitMask) >>> DoubleNoOfMantissaBits).toInt - DoubleBias.toInt - DoubleNoOfMantissaBits.toInt
+   val rawExp = ((doubleAsLong64 & ExpoBitMask) >>> DoubleNoOfMantissaBits).toInt
+   // subnormal numbers have the exponent of the smallest normal number and no implicit bit
+   val exponent = (if rawExp == 0 then 1 else rawExp) - DoubleBias.toInt - DoubleNoOfMantissaBits.toInt
    var mantissa = doubleAsLong64 & MantissaBitMask
-   mantissa = mantissa | MantissaExtraBit
+   if rawExp != 0 then
+      mantissa = mantissa | MantissaExtraBit
 
    (UInt.fromRaw(exponent), ULong.fromRaw(mantissa))
 
-- 
2.43.0


From a085ae4b69fbe51e30c826de03d3b3866c0073b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 067/101] fix: Scala: REAL special values, negative exponents
 and unnormalised mantissas are decoded, also at the end of the buffer

---
 .../main/scala/asn1scala/asn1jvm_Codec.scala  | 59 ++++++++-----------
 .../main/scala/asn1scala/asn1jvm_Helper.scala |  9 ++-
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
index dbbb4a1..fdc612a 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
@@ -1034,9 +1034,8 @@ case class Codec(bitStream: BitStream) {
       // get length
       val length = readByte().toRaw
       if(length >= 0
-            && length != 1 // Otherwise there's only the space for the header SAM
             && length <= DoubleMaxLengthOfSentBytes
-            && BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit,1 + length.toInt)) then
+            && BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit,length.toInt)) then
 
          // 8.5.2 PLUS-ZERO
          if length == 0 then
@@ -1052,22 +1051,22 @@ case class Codec(bitStream: BitStream) {
          // SAM here I don't think we should require that, but more exit if
          // that's not the case, but we can discuss
 
-         if((header.unsignedToInt & 0x80) != 0x80) then
-            //  "only binary mode supported"
-            0L
+         // 8.5.9 PLUS-INFINITY
+         if header == 0x40 && length == 1 then
+            DoublePosInfBitString
+         // 8.5.9 MINUS-INFINITY
+         else if header == 0x41 && length == 1 then
+            DoubleNegInfBitString
+         // 8.5.9 NOT-A-NUMBER
+         else if header == 0x42 && length == 1 then
+            DoubleNotANumber
+         // 8.5.3 MINUS-ZERO
+         else if header == 0x43 && length == 1 then
+            DoubleNegZeroBitString
          else
-            // 8.5.9 PLUS-INFINITY
-            if header == 0x40 then
-               DoublePosInfBitString
-            // 8.5.9 MINUS-INFINITY
-            else if header == 0x41 then
-               DoubleNegInfBitString
-            // 8.5.9 NOT-A-NUMBER
-            else if header == 0x42 then
-               DoubleNotANumber
-            // 8.5.3 MINUS-ZERO
-            else if header == 0x43 then
-               DoubleNegZeroBitString
+            if((header.unsignedToInt & 0x80) != 0x80) then
+               //  "only binary mode supported"
+               0L
             // Decode 8.5.7
             else
                check((header.unsignedToInt & 0x80) == 0x80)
@@ -1106,8 +1105,8 @@ case class Codec(bitStream: BitStream) {
       assert(expFactor == 1 || expFactor == 3 || expFactor == 4)
 
       // 8.5.7.3 Factor F
-      val factor: Long = 1 << ((header.toRaw & 0x0C) >>> 2)
-      assert(factor <= 8)
+      val factor: Int = (header.toRaw & 0x0C) >>> 2
+      assert(factor >= 0 && factor <= 3)
 
       // 8.5.7.4 Length of Exponent
       val expLen = (header.toRaw & 0x03) + 1
@@ -1138,8 +1137,8 @@ case class Codec(bitStream: BitStream) {
       check(BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit,lengthVal - expLen))
 
       // SAM guard if for the exponent read from the bitstream
-      // assert(exponent < (Int.MaxValue / 4) && exponent >= -1)
-      if(exponent >= (Int.MaxValue / 4) || exponent <= -1) then
+      // assert(exponent < (Int.MaxValue / 8) && exponent > -(Int.MaxValue / 8))
+      if(exponent >= (Int.MaxValue / 8) || exponent <= -(Int.MaxValue / 8)) then
          0L
       else
          // decode mantissa parts
@@ -1158,20 +1157,14 @@ case class Codec(bitStream: BitStream) {
             BitStream.invariant(bitStream.currentBit, bitStream.currentByte, bitStream.buf.length) &&
             BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, length - j))
 
-         // assert(N < (Long.MaxValue / 8) && N >= 0) // TODO Check the doc to see if N has a max value, otherwise there is a bug here
-         // SAM guard if for the mantissa read from the bitstream
-         if(N >= (Long.MaxValue / 8) || N < 0) then
-            0L
-         else
-            val x1: ULong = (N * factor).toRawULong
-            val x2: Int = expFactor * exponent
-            var v: Long = GetDoubleBitStringByMantissaAndExp(x1, x2)
+         // 8.5.7.3: M = S * N * 2^F
+         var v: Long = GetDoubleBitStringByMantissaAndExp(N.toRawULong, expFactor * exponent + factor)
 
-            // 8.5.7.1 Set Sign bit
-            if (header.toRaw & 0x40) > 0 then
-               v |= SignBitMask
+         // 8.5.7.1 Set Sign bit
+         if (header.toRaw & 0x40) > 0 then
+            v |= SignBitMask
 
-            v
+         v
    }
 
    def encodeOctetString_no_length(arr: Array[UByte], nCount: Int): Unit = {
diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
index 0de7524..333af29 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
@@ -257,8 +257,15 @@ def CalculateMantissaAndExponent(doubleAsLong64: Long): (UInt, ULong) = {
 }//.ensuring((e, m) => (-DoubleBias - DoubleNoOfMantissaBits).toInt.toRawUInt <= e &&& e <= (DoubleBias - DoubleNoOfMantissaBits).toInt.toRawUInt
    //&&& 0.toRawULong <= m &&& m <= (MantissaBitMask | MantissaExtraBit).toRawULong)
 
+/**
+ * The bits of the double closest to mantissa * 2^exponentVal, whether or not the mantissa is normalised
+ */
+@extern
 def GetDoubleBitStringByMantissaAndExp(mantissa: ULong, exponentVal: Int): Long = {
-   ((exponentVal + DoubleBias + DoubleNoOfMantissaBits) << DoubleNoOfMantissaBits) | (mantissa.toRaw & MantissaBitMask)
+   val m = mantissa.toRaw
+   // the bit shifted out is kept as a sticky bit, so that the conversion rounds only once
+   val d = if m >= 0 then m.toDouble else ((m >>> 1) | (m & 1)).toDouble * 2.0
+   java.lang.Double.doubleToRawLongBits(java.lang.Math.scalb(d, exponentVal))
 }
 
 /**
-- 
2.43.0


From 895ea5c5ccfcd78ab20519cc9f6ac705c63cc050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 068/101] fix: Scala: the first two arcs of an object
 identifier share one subidentifier

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala
index 752dcc3..414d37a 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_UPER.scala
@@ -88,7 +88,7 @@ case class UPER private [asn1scala](base: Codec) {
       var i: Int = 0
       totalSize = objectIdentifier_subIdentifiers_encode(tmp, totalSize, (pVal.values(0) * 40 + pVal.values(1)).toRawULong)
 
-      i = 0
+      i = 2 // the first two arcs are one subidentifier
       while i < pVal.nCount do
          decreases(pVal.nCount - i)
          totalSize = objectIdentifier_subIdentifiers_encode(tmp, totalSize, pVal.values(i).toRawULong)
-- 
2.43.0


From d15d900f1cece8c8ef94022b6cd1c860bd3e7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 069/101] fix: Scala: null-terminated strings and numbers are
 decoded up to their terminator

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
index 0e094ef..98623fe 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
@@ -1353,9 +1353,7 @@ case class ACN(base: Codec) {
    def dec_UInt_ASCII_VarSize_NullTerminated(null_characters: Array[Byte], null_characters_size: Int): ULong = {
       var digit: Byte = 0
       var ret: Long = 0
-      val tmp: Array[Byte] = Array.fill(10)(0)
-
-      val sz: Int = if null_characters_size < 10 then null_characters_size else 10
+      val tmp: Array[Byte] = Array.fill(null_characters_size)(0)
 
       //read null_character_size characters into the tmp buffer
       var j: Int = 0
@@ -1858,7 +1856,7 @@ case class ACN(base: Codec) {
       val strVal: Array[ASCIIChar] = Array.fill(max.toInt + 1)(0.toRawUByte)
       var endReached = false
       var i: Int = 0
-      (while i <= max && endReached do
+      (while i <= max && !endReached do
          val decodedCharacter = readByte()
          if decodedCharacter != null_character then
             strVal(i) = decodedCharacter
-- 
2.43.0


From 32d3608794476a1f464bec04780c88c69f6c3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 070/101] fix: Scala: positive numbers with an embedded length
 keep a leading zero octet when their top bit is set

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
index 98623fe..0512b1e 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
@@ -1103,7 +1103,7 @@ case class ACN(base: Codec) {
          decreases(nBytes - i)
          val ub = readByte().toRaw
 
-         if i == 0 && (ub.unsignedToInt) > 0 then
+         if i == 0 && ub < 0 then
             v = Long.MaxValue
             isNegative = true
 
-- 
2.43.0


From 5d6f281cea64696e4edbe81b55e6b11e4b06e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 071/101] fix: Scala: zero has one BCD digit

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
index 0512b1e..ae22167 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
@@ -1120,8 +1120,8 @@ case class ACN(base: Codec) {
    //return values is in nibbles
    def get_Int_Size_BCD(intVal: ULong): Int = {
       var intVar = intVal.toRaw
-      var ret: Int = 0
-      while intVar > 0 do
+      var ret: Int = 1 // zero has one digit
+      while intVar > 9 do
          intVar /= 10
          ret += 1
 
-- 
2.43.0


From 199a567a4b64135e002434921ddc9e54c02f76ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 072/101] fix: Scala: the length of a string ends at its first
 NUL

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
index ae22167..c0ac542 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
@@ -1720,7 +1720,7 @@ case class ACN(base: Codec) {
    }
 
    def enc_String_Ascii_Internal_Field_Determinant(max: Long, min: Long, strVal: Array[ASCIIChar]): Unit = {
-      val strLen: Int = strVal.length
+      val strLen: Int = strVal.indexOfOrLength(CHAR_0000.toRawUByte)
       encodeConstrainedWholeNumber(if strLen <= max then strLen else max, min, max)
       enc_String_Ascii_private(max, strVal)
    }
@@ -1771,7 +1771,7 @@ case class ACN(base: Codec) {
 
    @opaque @inlineOnce
    def enc_String_CharIndex_Internal_Field_Determinant(max: Long, allowedCharSet: Array[UByte], min: Long, strVal: Array[ASCIIChar]): Unit = {
-      val strLen: Int = strVal.length
+      val strLen: Int = strVal.indexOfOrLength(CHAR_0000.toRawUByte)
       encodeConstrainedWholeNumber(if strLen <= max then strLen else max, min, max)
       enc_String_CharIndex_private(max, allowedCharSet, strVal)
       ()
@@ -1823,7 +1823,7 @@ case class ACN(base: Codec) {
          0x6E, 0x6F, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77,
          0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F
       )
-      val strLen: Int = strVal.length
+      val strLen: Int = strVal.indexOfOrLength(CHAR_0000.toRawUByte)
       encodeConstrainedWholeNumber(if strLen <= max then strLen else max, min, max)
       enc_String_CharIndex_private(max, UByte.fromArrayRaws(allowedCharSet), strVal)
       ()
-- 
2.43.0


From b317045bc30e0b2e8b0484fe867736799f0adfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 073/101] fix: Scala: the room needed by an octet string is
 counted in octets

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
index fdc612a..ec58c44 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
@@ -1826,9 +1826,9 @@ case class Codec(bitStream: BitStream) {
       require( nCount < Int.MaxValue / 8 - 2 - (nCount / 0x4000) )
       require(
          if(asn1SizeMax < 65536) then
-            BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, nCount + GetBitCountUnsigned(stainless.math.wrapping(asn1SizeMax - asn1SizeMin).toRawULong))
+            BitStream.validate_offset_bits(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, 8L * nCount + GetBitCountUnsigned(stainless.math.wrapping(asn1SizeMax - asn1SizeMin).toRawULong))
          else
-            BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, nCount + 8 * (nCount / 0x4000) + 2)
+            BitStream.validate_offset_bytes(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, nCount + (nCount / 0x4000) + 2)
          )
 
       if asn1SizeMax < 65536 then
-- 
2.43.0


From 94d76a34606b5378eba8bf86a6fc169c178e6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 074/101] fix: Scala: exponents of 128 and more are not written
 in one octet

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
index ec58c44..70be675 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
@@ -825,7 +825,7 @@ case class Codec(bitStream: BitStream) {
          val (exponent, mantissa) = CalculateMantissaAndExponent(vVal)
          val nManLen: Int = GetLengthForEncodingUnsigned(mantissa)
          val compactExp = RemoveLeadingFFBytesIfNegative(exponent.toRaw)
-         val nExpLen: Int = GetLengthForEncodingUnsigned(compactExp.toLong.toRawULong)
+         val nExpLen: Int = GetLengthForEncodingSigned(exponent.toRaw.toLong) // two's complement
          nExpLen >= 1 && nExpLen <= 2 && nManLen <= 7 &&
          (if (vVal == DoublePosZeroBitString ) then
             BitStream.validate_offset_bits(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, 8)
@@ -876,7 +876,7 @@ case class Codec(bitStream: BitStream) {
          val (exponent, mantissa) = CalculateMantissaAndExponent(vVal)
          val nManLen: Int = GetLengthForEncodingUnsigned(mantissa)
          val compactExp = RemoveLeadingFFBytesIfNegative(exponent.toRaw)
-         val nExpLen: Int = GetLengthForEncodingUnsigned(compactExp.toLong.toRawULong)
+         val nExpLen: Int = GetLengthForEncodingSigned(exponent.toRaw.toLong) // two's complement
          nExpLen >= 1 && nExpLen <= 2 && nManLen <= 7 &&
          (if (vVal == DoublePosZeroBitString ) then
             BitStream.validate_offset_bits(bitStream.buf.length, bitStream.currentByte, bitStream.currentBit, 8)
@@ -948,7 +948,7 @@ case class Codec(bitStream: BitStream) {
          assert(nManLen <= 7) // 52 bit
 
          val compactExp = RemoveLeadingFFBytesIfNegative(exponent.toRaw)
-         val nExpLen: Int = GetLengthForEncodingUnsigned(compactExp.toLong.toRawULong)
+         val nExpLen: Int = GetLengthForEncodingSigned(exponent.toRaw.toLong) // two's complement
          assert(nExpLen >= 1 && nExpLen <= 2)
 
          // 8.5.7.4
-- 
2.43.0


From 75aeb4791022972126df35c037982f0768c40921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 075/101] fix: Scala: decimal digits of unsigned numbers of
 2^63 and more

---
 .../scala/asn1scala/asn1jvm_Codec_ACN.scala   | 35 ++++++++++---------
 .../main/scala/asn1scala/asn1jvm_Helper.scala |  7 ++++
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
index c0ac542..7643910 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec_ACN.scala
@@ -1119,10 +1119,10 @@ case class ACN(base: Codec) {
 
    //return values is in nibbles
    def get_Int_Size_BCD(intVal: ULong): Int = {
-      var intVar = intVal.toRaw
+      var intVar = divideByTen(intVal)._1
       var ret: Int = 1 // zero has one digit
-      while intVar > 9 do
-         intVar /= 10
+      while intVar.toRaw != 0 do
+         intVar = divideByTen(intVar)._1
          ret += 1
 
       ret
@@ -1130,16 +1130,17 @@ case class ACN(base: Codec) {
 
 
    def enc_Int_BCD_ConstSize(intVal: ULong, encodedSizeInNibbles: Int): Unit = {
-      var intVar = intVal.toRaw
+      var intVar = intVal
       var totalNibbles: Int = 0
       val tmp: Array[Byte] = Array.fill(100)(0)
 
       assert(100 >= encodedSizeInNibbles)
 
-      while intVar > 0 do
-         tmp(totalNibbles) = (intVar % 10).cutToByte
+      while intVar.toRaw != 0 do
+         val (quotient, digit) = divideByTen(intVar)
+         tmp(totalNibbles) = digit
          totalNibbles += 1
-         intVar /= 10
+         intVar = quotient
 
       assert(encodedSizeInNibbles >= totalNibbles)
 
@@ -1207,16 +1208,17 @@ case class ACN(base: Codec) {
    }
 
    def enc_UInt_ASCII_ConstSize(intVal: ULong, encodedSizeInBytes: Int): Unit = {
-      var intVar = intVal.toRaw
+      var intVar = intVal
       var totalNibbles: Int = 0
       val tmp: Array[Byte] = Array.fill(100)(0)
 
       assert(100 >= encodedSizeInBytes)
 
-      while intVar > 0 do
-         tmp(totalNibbles) = (intVar % 10).cutToByte
+      while intVar.toRaw != 0 do
+         val (quotient, digit) = divideByTen(intVar)
+         tmp(totalNibbles) = digit
          totalNibbles += 1
-         intVar /= 10
+         intVar = quotient
 
       assert(encodedSizeInBytes >= totalNibbles)
 
@@ -1271,17 +1273,18 @@ case class ACN(base: Codec) {
 
 
    def getIntegerDigits(intVal: ULong): (Array[Byte], Byte) = {
-      var intVar = intVal.toRaw
+      var intVar = intVal
       val digitsArray100: Array[Byte] = Array.fill(100)(0)
       val reversedDigitsArray: Array[Byte] = Array.fill(100)(0)
       var totalDigits: Byte = 0
 
 
-      if intVar > 0 then
-         while intVar > 0 && totalDigits < 100 do
-            reversedDigitsArray(totalDigits) = (CHAR_ZERO + (intVar % 10)).toByte
+      if intVar.toRaw != 0 then
+         while intVar.toRaw != 0 && totalDigits < 100 do
+            val (quotient, digit) = divideByTen(intVar)
+            reversedDigitsArray(totalDigits) = (CHAR_ZERO + digit).toByte
             totalDigits = (totalDigits + 1).toByte
-            intVar /= 10
+            intVar = quotient
 
          var i: Int = totalDigits - 1
          while i >= 0 do
diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
index 333af29..2a1b585 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Helper.scala
@@ -268,6 +268,13 @@ def GetDoubleBitStringByMantissaAndExp(mantissa: ULong, exponentVal: Int): Long
    java.lang.Double.doubleToRawLongBits(java.lang.Math.scalb(d, exponentVal))
 }
 
+/**
+ * Unsigned division by ten: the quotient and the last decimal digit
+ */
+@extern @pure
+def divideByTen(v: ULong): (ULong, Byte) =
+   (ULong.fromRaw(java.lang.Long.divideUnsigned(v.toRaw, 10)), java.lang.Long.remainderUnsigned(v.toRaw, 10).toByte)
+
 /**
 Helper function for REAL encoding
 
-- 
2.43.0


From 434b1db9f1ddac7620601a05763c30c2d7b2842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 076/101] fix: Scala: the room needed by a bit string is
 counted in bits

---
 asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
index 70be675..3ed07af 100644
--- a/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
+++ b/asn1scala/src/main/scala/asn1scala/asn1jvm_Codec.scala
@@ -1871,7 +1871,7 @@ case class Codec(bitStream: BitStream) {
       require(asn1SizeMin >= 0)
       require(asn1SizeMax >= 0)
       require(asn1SizeMin <= asn1SizeMax)
-      require(arr.length >= nCount)
+      require(nCount <= 8L * arr.length)
       require(nCount <= asn1SizeMax)
       require(nCount >= 0)
       require(asn1SizeMax < Int.MaxValue)
@@ -1923,7 +1923,7 @@ case class Codec(bitStream: BitStream) {
       require(nCount <= asn1SizeMax)
       require(nCount >= 0)
       require(nCount >= asn1SizeMin) // TODO SAM check
-      require(nCount <= arr.length)
+      require(nCount <= 8L * arr.length)
       require(asn1SizeMax < Int.MaxValue)
       require(nRemainingItemsVar1 >= 0)
       require(nCurOffset1 >= 0)
-- 
2.43.0


From edf3ac3a698128c3dbcdb4fe3c3df3a8f40645c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:19 +0000
Subject: [PATCH 077/101] fix: Ada: bits left in the next octet do not show
 through a partial byte

---
 ADA_RTL2/src/adaasn1rtl-encoding.adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.adb b/ADA_RTL2/src/adaasn1rtl-encoding.adb
index b59a06c..88a940e 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.adb
@@ -336,7 +336,7 @@ is
             if totalBitsForNextByte > 0 then
                Current_Byte := Current_Byte + 1;
 
-               mask := not MASKSB (8 - totalBitsForNextByte);
+               mask := MASKSB (8 - totalBitsForNextByte);
 
                bs.Buffer (Current_Byte) := bs.Buffer (Current_Byte) and mask;
                bs.Buffer (Current_Byte) :=
-- 
2.43.0


From 2287bc99fc4b25dbb2cdc1395995896a089e37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 078/101] fix: -x with a path writes the back end's tree beside
 the front end's

---
 asn1scc/Program.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1scc/Program.fs b/asn1scc/Program.fs
index 30ab0bb..f3f76f8 100644
--- a/asn1scc/Program.fs
+++ b/asn1scc/Program.fs
@@ -489,7 +489,7 @@ let main0 argv =
                 TL "GenerateRTL.exportRTL" (fun () -> GenerateRTL.exportRTL dirInfo r.lang args lm generatedContent)
                 match args.AstXmlAbsFileName with
                 | ""    -> ()
-                | _     -> DAstExportToXml.exportFile r acnDeps ("backend_" + args.AstXmlAbsFileName)
+                | _     -> DAstExportToXml.exportFile r acnDeps (Path.Combine(Path.GetDirectoryName args.AstXmlAbsFileName, "backend_" + Path.GetFileName args.AstXmlAbsFileName))
                 )
 
 
-- 
2.43.0


From c543cd4b13e3dab8e7de85ce0e6add37dbe48022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:15 +0000
Subject: [PATCH 079/101] fix: references to types with an OBJECT IDENTIFIER or
 a time call that type's functions

---
 FrontEndAst/TypesEquivalence.fs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FrontEndAst/TypesEquivalence.fs b/FrontEndAst/TypesEquivalence.fs
index 7971302..dfa3596 100644
--- a/FrontEndAst/TypesEquivalence.fs
+++ b/FrontEndAst/TypesEquivalence.fs
@@ -13,6 +13,8 @@ let rec uperEquivalence (t1:Asn1Type) (t2:Asn1Type) =
     | BitString bs1, BitString bs2          -> bs1.cons = bs2.cons
     | Boolean _, Boolean _                  -> true
     | Enumerated e1, Enumerated e2          -> e1.items = e2.items &&  e1.cons = e2.cons
+    | ObjectIdentifier o1, ObjectIdentifier o2 -> o1.relativeObjectId = o2.relativeObjectId && o1.cons = o2.cons
+    | TimeType t1, TimeType t2              -> t1.timeClass = t2.timeClass && t1.cons = t2.cons
     | SequenceOf sqof1, SequenceOf sqof2    -> 
         sqof1.cons = sqof2.cons && (uperEquivalence sqof1.child sqof2.child)
     | Sequence sq1, Sequence sq2    ->
-- 
2.43.0


From ae616078081fc71561ff9198e43e0daa317577a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 080/101] fix: Ada: the default of a BIT STRING is set bit by
 bit

---
 BackendAst/DAstInitialize.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index d57ce2e..e0d28bc 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -485,8 +485,8 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
         let bytes, nBits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList, iv.Length
-            | OctetStringValue iv   -> iv, 8 * iv.Length
+            | BitStringValue iv     -> lm.lg.bitStringValueToByteArray iv |> Seq.toList, iv.Length
+            | OctetStringValue iv   -> lm.lg.bitStringValueToByteArray (iv |> Seq.map(fun b -> System.Convert.ToString(int b, 2).PadLeft(8, '0')) |> Seq.StrJoin "") |> Seq.toList, 8 * iv.Length
             | _                     -> raise(BugErrorException "UnexpectedValue")
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
-- 
2.43.0


From 2b5bb9af08f0e5bde398ce0dc4d5a4e41b6aefcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:39 +0000
Subject: [PATCH 081/101] fix: Ada: subnormal reals are written with their own
 mantissa

---
 ADA_RTL2/src/adaasn1rtl-encoding.adb | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.adb b/ADA_RTL2/src/adaasn1rtl-encoding.adb
index 88a940e..010fbb7 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.adb
@@ -12,9 +12,6 @@ is
        (0 => 16#00#, 1 => 16#01#, 2 => 16#03#, 3 => 16#07#, 4 => 16#0F#,
         5 => 16#1F#, 6 => 16#3F#, 7 => 16#7F#);
 
-   MantissaFactor : constant Asn1Real :=
-     Asn1Real (Interfaces.Unsigned_64 (2)**Asn1Real'Machine_Mantissa);
-
    function To_UInt (IntVal : Asn1Int) return Asn1UInt is
       ret : Asn1UInt;
    begin
@@ -95,7 +92,11 @@ is
       --  due to the fact that Examiner has not yet implement the Exponent
       --  attribute
    begin
-      return Asn1Int (Asn1Real'Exponent (V) - Asn1Real'Machine_Mantissa);
+      --  subnormal numbers have the exponent of the smallest normal number
+      return
+        Asn1Int
+          (Integer'Max (Asn1Real'Exponent (V), Asn1Real'Machine_Emin) -
+           Asn1Real'Machine_Mantissa);
    end GetExponent;
 
    function GetMantissa (V : Asn1Real) return Asn1UInt is
@@ -103,7 +104,7 @@ is
       --  due to the fact that Examiner has not yet implement the Fraction
       --  attribute
    begin
-      return Asn1UInt (Asn1Real'Fraction (V) * MantissaFactor);
+      return Asn1UInt (Asn1Real'Scaling (V, -Integer (GetExponent (V))));
    end GetMantissa;
 
    function Zero return Asn1Real;
-- 
2.43.0


From dc37e62613a41585e9ff51e82bca6c813c8b0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:39 +0000
Subject: [PATCH 082/101] fix: Ada: a string is compared with a single value up
 to its end

---
 StgAda/isvalid_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index eec41b2..e644871 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -47,7 +47,7 @@ GetEnumIndexByName(sEnumValuesArray, sEnumValuesArrayCount, sExp, bBinarySearch)
 
 
 ExpEqual(sExp1, sExp2) ::= "(<sExp1> = <sExp2>)"
-ExpStringEqual(sExp1, sExp2) ::= "(<sExp1> = <sExp2>)"
+ExpStringEqual(sExp1, sExp2) ::= "<rtlModuleName()>.String_Equal(<sExp1>, <sExp2> & <rtlModuleName()>.NUL)"
 ExpGt(sExp1, sExp2) ::= "(<sExp1> \> <sExp2>)"
 ExpGte(sExp1, sExp2) ::= "(<sExp1> \>= <sExp2>)"
 ExpLt(sExp1, sExp2) ::= "(<sExp1> \< <sExp2>)"
-- 
2.43.0


From fb4438fe036f9d2a8f594582f0e07c1e4cecef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:39 +0000
Subject: [PATCH 083/101] fix: Ada: extensible INTEGER types held in an
 unsigned type

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 17 +++++++++++++++++
 ADA_RTL2/src/adaasn1rtl-encoding-uper.ads | 22 ++++++++++++++++++++++
 BackendAst/DAstUPer.fs                    |  4 ++--
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 17b5990..fcbb0e6 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -167,6 +167,23 @@ is
       Enc_UnConstraintWholeNumber (bs, IntVal);
    end UPER_Enc_UnConstraintWholeNumber;
 
+   procedure UPER_Enc_UnConstraintWholeNumber
+     (bs : in out Bitstream; IntVal : Asn1UInt)
+   is
+   begin
+      Enc_UnConstraintWholeNumber (bs, To_Int (IntVal));
+   end UPER_Enc_UnConstraintWholeNumber;
+
+   procedure UPER_Dec_UnConstraintWholeNumber
+     (bs : in out Bitstream; IntVal : out Asn1UInt; Result : out Boolean)
+   is
+      Ret : Asn1Int;
+   begin
+      Dec_UnConstraintWholeNumber (bs, Ret, Result);
+      Result := Result and Ret >= 0;
+      IntVal := (if Result then Asn1UInt (Ret) else 0);
+   end UPER_Dec_UnConstraintWholeNumber;
+
    procedure UPER_Dec_UnConstraintWholeNumber
      (bs : in out Bitstream; IntVal : out Asn1Int; Result : out Boolean)
    is
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads b/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
index 8c6aa83..8b32cad 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.ads
@@ -214,6 +214,28 @@ is
       Post => bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       bs.Current_Bit_Pos <= bs'Old.Current_Bit_Pos + (Asn1UInt'Size + 8);
 
+   --  values of an extensible INTEGER held in an unsigned type
+   procedure UPER_Enc_UnConstraintWholeNumber
+     (bs : in out Bitstream; IntVal : Asn1UInt) with
+      Depends => (bs => (bs, IntVal)),
+      Pre     => bs.Current_Bit_Pos < Natural'Last - (Asn1UInt'Size + 8)
+      and then bs.Size_In_Bytes < Positive'Last / 8
+      and then bs.Current_Bit_Pos <=
+        bs.Size_In_Bytes * 8 - (Asn1UInt'Size + 8)
+      and then IntVal <= Asn1UInt (Asn1Int'Last),
+      Post => bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
+      bs.Current_Bit_Pos <= bs'Old.Current_Bit_Pos + (Asn1UInt'Size + 8);
+
+   procedure UPER_Dec_UnConstraintWholeNumber
+     (bs : in out Bitstream; IntVal : out Asn1UInt; Result : out Boolean) with
+      Depends => ((IntVal, bs, Result) => bs),
+      Pre     => bs.Current_Bit_Pos < Natural'Last - (Asn1UInt'Size + 8)
+      and then bs.Size_In_Bytes < Positive'Last / 8
+      and then bs.Current_Bit_Pos <=
+        bs.Size_In_Bytes * 8 - (Asn1UInt'Size + 8),
+      Post => bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
+      bs.Current_Bit_Pos <= bs'Old.Current_Bit_Pos + (Asn1UInt'Size + 8);
+
    procedure UPER_Dec_UnConstraintWholeNumber
      (bs : in out Bitstream; IntVal : out Asn1Int; Result : out Boolean) with
       Depends => ((IntVal, bs, Result) => bs),
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 4e6c671..9347553 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -186,9 +186,9 @@ let getIntfuncBodyByCons (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Commo
     let IntBod (uperRange: uperRange<BigInteger>) (extCon: bool) : string * bool * bool * Asn1IntegerEncodingType option =
         match uperRange with
         | Concrete (min, max) when min=max -> IntNoneRequired (lm.lg.getValue p.accessPath) (lm.lg.intValueToString min intClass) errCode.errCodeName codec, codec=Decode, true, None
-        | Concrete (min, max) when intClass.IsPositive && (not extCon) -> IntFullyConstraintPos (castPp ((int r.args.integerSizeInBytes)*8)) min max (GetNumberOfBitsForNonNegativeInteger (max-min)) suffix errCode.errCodeName rangeAssert codec, false, false, Some (FullyConstrainedPositive (min, max))
+        | Concrete (min, max) when intClass.IsPositive && min >= 0I -> IntFullyConstraintPos (castPp ((int r.args.integerSizeInBytes)*8)) min max (GetNumberOfBitsForNonNegativeInteger (max-min)) suffix errCode.errCodeName rangeAssert codec, false, false, Some (FullyConstrainedPositive (min, max))
         | Concrete (min, max) -> IntFullyConstraint (castPp ((int r.args.integerSizeInBytes)*8)) min max (GetNumberOfBitsForNonNegativeInteger (max-min)) suffix errCode.errCodeName codec, false, false, Some (FullyConstrained (min, max))
-        | PosInf a  when a>=0I && (not extCon) -> IntSemiConstraintPos pp a  errCode.errCodeName codec, false, false, Some (SemiConstrainedPositive a)
+        | PosInf a  when a>=0I && (intClass.IsPositive || not extCon) -> IntSemiConstraintPos pp a  errCode.errCodeName codec, false, false, Some (SemiConstrainedPositive a)
         | PosInf a -> IntSemiConstraint pp a  errCode.errCodeName codec, false, false, Some (SemiConstrained a)
         | NegInf max -> IntUnconstrainedMax pp max None errCode.errCodeName codec, false, false, Some (UnconstrainedMax max)
         | Full -> IntUnconstrained pp errCode.errCodeName false codec, false, false, Some Unconstrained
-- 
2.43.0


From b121091e5ac98111d2e3bde12bc78c0a7ec64e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 084/101] fix: Ada: operators of ACN present-when expressions

---
 StgAda/LangGeneric_a.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index c2ef6dd..d65ef64 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -107,10 +107,10 @@ type LangGeneric_a() =
         override this.supportsStaticVerification = true
         override this.emptyStatement = "null;"
         override this.bitStreamName = "adaasn1rtl.encoding.BitStreamPtr"
-        override this.unaryNotOperator    = "not"
+        override this.unaryNotOperator    = "not "
         override this.modOp               = "mod"
         override this.eqOp                = "="
-        override this.neqOp               = "<>"
+        override this.neqOp               = "/="
         override this.andOp               = "and"
         override this.orOp                = "or"
         override this.initMethod           = InitMethod.Function
-- 
2.43.0


From 890e84b449c8aa2edf922520877acf9c19aec931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 085/101] fix: Ada: decoding a type of no bits reports success

---
 StgAda/acn_a.stg  | 4 ++++
 StgAda/uper_a.stg | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 16e9c82..2543f9b 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -108,6 +108,10 @@ pragma Unreferenced(bs);
 <endif>
     <arrsLocalVariables; separator="\n">
 begin
+    -- a type of no bits reads nothing
+    pragma Warnings (Off, "useless assignment to ""result""*");
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+    pragma Warnings (On, "useless assignment to ""result""*");
     <sContent>
 end <sFuncName>_aux;
 <if(bVarNameIsUnreferenced)>
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 1f79326..b76dfc9 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -126,6 +126,10 @@ begin
     -- <sVarName> := <soInitFuncName>;
 
     <endif>
+    -- a type of no bits reads nothing
+    pragma Warnings (Off, "useless assignment to ""result""*");
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+    pragma Warnings (On, "useless assignment to ""result""*");
     <sContent>
 end <sFuncName>_aux;
 <if(bVarNameIsUnreferenced)>
-- 
2.43.0


From b0e051dfe6d4f5def2d30bf8d3857266881123ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 086/101] fix: Ada: signed encodings of inserted fields of an
 unsigned type

---
 BackendAst/Acn/AcnPrimitives.fs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 689d1a2..3bd9874 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -89,6 +89,11 @@ let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
         let sSsuffix = DAstUPer.getIntDecFuncSuffix intClass
         let castPp encFuncBits = DAstUPer.castPp r lm codec pp intClass encFuncBits
         let word_size_in_bits = (int r.args.integerSizeInBytes)*8
+        // the signed encodings of a value held in an unsigned type: Ada does not convert by itself
+        let castSignedPp encFuncBits =
+            match lm.lg.hasModules && intClass.IsPositive && sSsuffix = "" && soMF.IsNone with
+            | true  -> lm.lg.castExpression pp (lm.typeDef.Declare_Integer())
+            | false -> castPp encFuncBits
 
         // Helpers that absorb the common argument shape of the integer macros.
         // The macros fall into 6 shapes; collapsing them here turns each match
@@ -97,11 +102,15 @@ let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
         let unsignedFixedWidth macro width =
             Some (macro (castPp width) sSsuffix errCode.errCodeName soMF soMFM (max 0I nUperMin) (uIntActualMax width) codec, [errCode], false, false)
         let signedFixedWidth macro width =
-            Some (macro (castPp width) sSsuffix errCode.errCodeName soMF soMFM (sIntActualMin width) (sIntActualMax width) codec, [errCode], false, false)
+            Some (macro (castSignedPp width) sSsuffix errCode.errCodeName soMF soMFM (sIntActualMin width) (sIntActualMax width) codec, [errCode], false, false)
         let unsignedVarWidth (bitSize: BigInteger) =
             Some (PositiveInteger_ConstSize (castPp word_size_in_bits) sSsuffix errCode.errCodeName bitSize soMF soMFM (max 0I nUperMin) (uIntActualMax (int bitSize)) codec, [errCode], false, false)
         let signedVarWidth (bitSize: BigInteger) =
-            Some (TwosComplement_ConstSize (castPp word_size_in_bits) sSsuffix errCode.errCodeName soMF soMFM bitSize (sIntActualMin (int bitSize)) (sIntActualMax (int bitSize)) codec, [errCode], false, false)
+            Some (TwosComplement_ConstSize (castSignedPp word_size_in_bits) sSsuffix errCode.errCodeName soMF soMFM bitSize (sIntActualMin (int bitSize)) (sIntActualMax (int bitSize)) codec, [errCode], false, false)
+        let asciiSignedConst (size: BigInteger) =
+            Some (ASCII_ConstSize (castSignedPp word_size_in_bits) sSsuffix errCode.errCodeName soMF soMFM nUperMin nUperMax (size / 8I) codec, [errCode], false, false)
+        let asciiSignedVarSize (nullBytes: byte list) =
+            Some (ASCII_VarSize_NullTerminated (castSignedPp word_size_in_bits) sSsuffix errCode.errCodeName soMF soMFM nUperMin nUperMax nullBytes codec, [errCode], false, false)
         let asciiOrBcdConst macro (size: BigInteger) bitsPerDigit =
             Some (macro (castPp word_size_in_bits) sSsuffix errCode.errCodeName soMF soMFM nUperMin nUperMax (size / bitsPerDigit) codec, [errCode], false, false)
         let asciiVarSize macro (nullBytes: byte list) =
@@ -130,8 +139,8 @@ let createAcnIntegerFunctionInternal (r:Asn1AcnAst.AstRoot)
             | Asn1AcnAst.TwosComplement_ConstSize_little_endian_64     -> signedFixedWidth TwosComplement_ConstSize_little_endian_64     64
             | Asn1AcnAst.TwosComplement_ConstSize bitSize              -> signedVarWidth bitSize
 
-            | Asn1AcnAst.ASCII_ConstSize size                          -> asciiOrBcdConst ASCII_ConstSize        size 8I
-            | Asn1AcnAst.ASCII_VarSize_NullTerminated nullBytes        -> asciiVarSize    ASCII_VarSize_NullTerminated      nullBytes
+            | Asn1AcnAst.ASCII_ConstSize size                          -> asciiSignedConst size
+            | Asn1AcnAst.ASCII_VarSize_NullTerminated nullBytes        -> asciiSignedVarSize nullBytes
             | Asn1AcnAst.ASCII_UINT_ConstSize size                     -> asciiOrBcdConst ASCII_UINT_ConstSize   size 8I
             | Asn1AcnAst.ASCII_UINT_VarSize_NullTerminated nullBytes   -> asciiVarSize    ASCII_UINT_VarSize_NullTerminated nullBytes
             | Asn1AcnAst.BCD_ConstSize size                            -> asciiOrBcdConst BCD_ConstSize          size 4I
-- 
2.43.0


From ad5b4a6447c5cf10e54a31be150810bcee304abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 087/101] fix: generated XER decoders know how many characters
 a string holds

The decoders passed sizeof of the parameter, which is a pointer for a
type assignment of its own: strings of eight characters or more were
refused.
---
 BackendAst/DAstXer.fs         | 2 +-
 CommonTypes/AbstractMacros.fs | 2 +-
 StgAda/xer_a.stg              | 4 ++--
 StgC/xer_c.stg                | 6 +++---
 StgScala/xer_scala.stg        | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/BackendAst/DAstXer.fs b/BackendAst/DAstXer.fs
index 432aa34..37c352a 100644
--- a/BackendAst/DAstXer.fs
+++ b/BackendAst/DAstXer.fs
@@ -245,7 +245,7 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
         let nLevel = BigInteger (t.id.AcnAbsPath.Length - 2)
         let contentSize = getMaxSizeInBytesForXER_IA5String o.maxSize.uper
         let totalSize = getMaxSizeInBytesForXER xmlTag contentSize
-        let bodyStm = String pp xmlTag.p nLevel (checkExp isValidFunc p) errCode.errCodeName codec
+        let bodyStm = String pp xmlTag.p nLevel o.maxSize.uper (checkExp isValidFunc p) errCode.errCodeName codec
         Some {XERFuncBodyResult.funcBody = bodyStm; errCodes= [errCode]; localVariables=[];encodingSizeInBytes=totalSize}
     let soSparkAnnotations = None
     createXerFunction_any r lm codec t typeDefinition  isValidFunc  funcBody  soSparkAnnotations us
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 6a9b91a..c83c485 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -538,7 +538,7 @@ Generated by the C stg macros with the following command
         abstract member ObjectIdentifier : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member TimeType : p:string -> sTimeSubType:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Null : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
-        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
+        abstract member String : p:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member Enumerated_item : p:string -> sTag:string -> nLevel:BigInteger -> sItemID:string -> sXerValue:string -> sErrCode:string -> bFirst:bool -> codec:Codec -> string;
         abstract member Enumerated : p:string -> sTag:string -> nLevel:BigInteger -> arrsItems:seq<string> -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
         abstract member OctetString : p:string -> sAcc:string -> sTag:string -> nLevel:BigInteger -> nSizeMax:BigInteger -> bIsFixedSize:bool -> soCheckExp:string option -> sErrCode:string -> codec:Codec -> string;
diff --git a/StgAda/xer_a.stg b/StgAda/xer_a.stg
index 2f63a3f..a19ac2d 100644
--- a/StgAda/xer_a.stg
+++ b/StgAda/xer_a.stg
@@ -150,12 +150,12 @@ ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_EncodeString(bs, <sTag>, <p>, ret, <nLevel>);
 ret.ErrorCode := <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 adaasn1rtl.encoding.xer.Xer_DecodeString(bs, <sTag>, <p>, ret);
 <if(soCheckExp)><soCheckExp><endif>
 ret.ErrorCode := (if ret.Success then 0 else <sErrCode>);
diff --git a/StgC/xer_c.stg b/StgC/xer_c.stg
index 013a727..3faecb0 100644
--- a/StgC/xer_c.stg
+++ b/StgC/xer_c.stg
@@ -160,13 +160,13 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
-ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
+ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, <nSizeMax>+1, pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
 >>
diff --git a/StgScala/xer_scala.stg b/StgScala/xer_scala.stg
index 0703302..51480c3 100644
--- a/StgScala/xer_scala.stg
+++ b/StgScala/xer_scala.stg
@@ -160,12 +160,12 @@ ret = Xer_DecodeNull(pByteStrm, <sTag>, <p>, pErrCode);
 
 
 
-String_encode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_encode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_EncodeString(pByteStrm, <sTag>, <p>, pErrCode, <nLevel>);
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-String_decode(p, sTag, nLevel, soCheckExp, sErrCode) ::= <<
+String_decode(p, sTag, nLevel, nSizeMax, soCheckExp, sErrCode) ::= <<
 ret = Xer_DecodeString(pByteStrm, <sTag>, <p>, sizeof(<p>), pErrCode);
 <if(soCheckExp)><soCheckExp><endif>
 *pErrCode = ret  ? 0 : <sErrCode>;
-- 
2.43.0


From 5a600263f58c6d8c2a9c21cd7bd270e850db323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 088/101] fix: XER decoding does not move past the end of a
 stream whose comment is not closed

---
 asn1crt/asn1crt_encoding_xer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_xer.c b/asn1crt/asn1crt_encoding_xer.c
index 724c377..b91c1d9 100644
--- a/asn1crt/asn1crt_encoding_xer.c
+++ b/asn1crt/asn1crt_encoding_xer.c
@@ -146,7 +146,8 @@ Token NT(ByteStream* pByteStrm) {
 		while (pByteStrm->currentByte < pByteStrm->count &&
 			!((pByteStrm->buf[pByteStrm->currentByte - 1] == '?') && (pByteStrm->buf[pByteStrm->currentByte] == '>')))
 			pByteStrm->currentByte++;
-		pByteStrm->currentByte++;
+		if (pByteStrm->currentByte < pByteStrm->count)
+			pByteStrm->currentByte++;
 		while (pByteStrm->currentByte < pByteStrm->count && isspace(pByteStrm->buf[pByteStrm->currentByte]))
 			pByteStrm->currentByte++;
 	}
@@ -161,7 +162,8 @@ Token NT(ByteStream* pByteStrm) {
 		while (pByteStrm->currentByte < pByteStrm->count &&
 			!((pByteStrm->buf[pByteStrm->currentByte - 2] == '-') && (pByteStrm->buf[pByteStrm->currentByte - 1] == '-') && (pByteStrm->buf[pByteStrm->currentByte] == '>')))
 			pByteStrm->currentByte++;
-		pByteStrm->currentByte++;
+		if (pByteStrm->currentByte < pByteStrm->count)
+			pByteStrm->currentByte++;
 		while (pByteStrm->currentByte < pByteStrm->count && isspace(pByteStrm->buf[pByteStrm->currentByte]))
 			pByteStrm->currentByte++;
 	}
-- 
2.43.0


From 6fd9786673b066ca5faefbdceb30fd678cc4ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 089/101] fix: -slim: extension values of an extensible INTEGER
 are decoded into a value of their own

---
 StgC/uper_c.stg | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 468842d..5a40881 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -221,7 +221,14 @@ IntRootExt_decode(p, nMin, sRootBaseConstraint, sIntBody, sErrCode) ::=<<
 	    if (extBit==0) { /* ext bit is zero ==> value is expected with root range*/
 		    <sIntBody>
 	    } else {
-		    <IntUnconstrained_decode(p=p, sErrCode = sErrCode, bCoverageIgnore="true")>
+		    /* the type of the value may be narrower than the type of an unconstrained integer */
+		    asn1SccSint extValue = 0;
+		    <IntUnconstrained_decode(p="&extValue", sErrCode = sErrCode, bCoverageIgnore="true")>
+		    if (ret) {
+			    *(<p>) = extValue;
+			    ret = (asn1SccSint)(*(<p>)) == extValue;
+			    *pErrCode = ret ? 0 : <sErrCode>;
+		    }
 	    }
     }
 }
-- 
2.43.0


From 63a9004bcfdc3c8fa73b3dbef9dc15898196244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:47 +0000
Subject: [PATCH 090/101] fix: truncated little endian IEEE754-1985-32 REALs
 are refused, and -slim decodes REALs into the type they have

---
 BackendAst/Acn/AcnPrimitives.fs |  4 ++--
 BackendAst/DAstUPer.fs          |  4 ++--
 StgC/acn_c.stg                  | 22 ++++++++++++++++++++--
 StgC/uper_c.stg                 | 11 ++++++++++-
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 3bd9874..3f19d11 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -227,9 +227,9 @@ let createRealFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedField
 
     let sSuffix =
         match o.getClass r.args with
-        | ASN1SCC_REAL   -> ""
+        | ASN1SCC_REAL   -> null
         | ASN1SCC_FP32   -> "_fp32"
-        | ASN1SCC_FP64   -> ""
+        | ASN1SCC_FP64   -> null
 
     let sAsn1Constraints =
         let sTmpCons = o.AllCons |> List.map (DastValidate2.printRangeConAsAsn1 (fun z -> z.ToString())) |> Seq.StrJoin ""
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 9347553..c79601d 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -242,9 +242,9 @@ let createRealFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:CommonT
     let cls = o.getClass r.args
     let sSuffix =
         match cls with
-        | ASN1SCC_REAL   -> ""
+        | ASN1SCC_REAL   -> null
         | ASN1SCC_FP32   -> "_fp32"
-        | ASN1SCC_FP64   -> ""
+        | ASN1SCC_FP64   -> null
 
     let funcBody (errCode:ErrorCode) (nestingScope: NestingScope) (p:CodegenScope) (fromACN: bool) =
         let pp, resultExpr = adaptArgument lm codec p
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..2bae239 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -332,7 +332,16 @@ ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated<sSsuffix>(pBitStrm, <p>, (byte[]
 
 Real_32_big_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_big_endian(pBitStrm, <p>);"
 Real_32_big_endian_decode(p, sSuffix, sErrCode) ::= <<
-ret = Acn_Dec_Real_IEEE754_32_big_endian<sSuffix>(pBitStrm, <p>);
+<if(sSuffix)>
+{
+    /* depending on where its encoding is given, the value is stored in a float or in an asn1Real */
+    asn1Real realValue = 0;
+    ret = Acn_Dec_Real_IEEE754_32_big_endian(pBitStrm, &realValue);
+    *(<p>) = realValue;
+}
+<else>
+ret = Acn_Dec_Real_IEEE754_32_big_endian(pBitStrm, <p>);
+<endif>
 <A(sErrCode)>
 >>
 
@@ -344,7 +353,16 @@ ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, <p>);
 
 Real_32_little_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, <p>);"
 Real_32_little_endian_decode(p, sSuffix, sErrCode) ::= <<
-Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
+<if(sSuffix)>
+{
+    /* depending on where its encoding is given, the value is stored in a float or in an asn1Real */
+    asn1Real realValue = 0;
+    ret = Acn_Dec_Real_IEEE754_32_little_endian(pBitStrm, &realValue);
+    *(<p>) = realValue;
+}
+<else>
+ret = Acn_Dec_Real_IEEE754_32_little_endian(pBitStrm, <p>);
+<endif>
 <A(sErrCode)>
 >>
 
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 5a40881..496bd83 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -264,7 +264,16 @@ ret = BitStream_ReadBit(pBitStrm, <p>);
 
 Real_encode(p, sSuffix, sErrCode) ::= "BitStream_EncodeReal(pBitStrm, <p>);"
 Real_decode(p, sSuffix, sErrCode) ::= <<
-ret = BitStream_DecodeReal<sSuffix>(pBitStrm, <p>);
+<if(sSuffix)>
+{
+    /* depending on where its encoding is given, the value is stored in a float or in an asn1Real */
+    asn1Real realValue = 0;
+    ret = BitStream_DecodeReal(pBitStrm, &realValue);
+    *(<p>) = realValue;
+}
+<else>
+ret = BitStream_DecodeReal(pBitStrm, <p>);
+<endif>
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-- 
2.43.0


From 076f1eb017f34f2ac167f0299502f32cd0a2448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 091/101] fix: -slim: signed encodings of determinants that are
 never negative link

---
 BackendAst/Acn/AcnEnum.fs              |  2 +-
 FrontEndAst/AcnCreateFromAntlr.fs      |  2 +-
 FrontEndAst/Asn1AcnAstUtilFunctions.fs | 19 ++++++++++++++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 3e9b018..2aa712e 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -39,7 +39,7 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
     let max = o.items |> List.map(fun x -> x.acnEncodeValue) |> Seq.max
     let sFirstItemName = lm.lg.getNamedItemBackendName (Some defOrRef) o.items.Head
     let uperRange = (Concrete (min,max))
-    let intTypeClass = getIntEncodingClassByUperRange r.args uperRange
+    let intTypeClass = getIntEncodingClassByAcnEncoding r.args o.acnEncodingClass uperRange
     let rtlIntType = (DAstTypeDefinition.getIntegerTypeByClass lm intTypeClass)()
     let nLastItemIndex      = BigInteger(Seq.length o.items) - 1I
 
diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index c9f0231..17bfb92 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -1001,7 +1001,7 @@ let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:
             let checkIntHasEnoughSpace asn1Min asn1Max =
                 checkIntHasEnoughSpace acnEncodingClass acnProperties.mappingFunction.IsSome ts.Location asn1Min asn1Max
 
-            let  intClass = getIntEncodingClassByUperRange asn1.args uperRange
+            let  intClass = getIntEncodingClassByAcnEncoding asn1.args acnEncodingClass uperRange
             AcnInteger ({AcnInteger.acnProperties=acnProperties; acnAlignment=acnAlignment; acnEncodingClass = acnEncodingClass;  Location = ts.Location; acnMinSizeInBits=acnMinSizeInBits; acnMaxSizeInBits = acnMaxSizeInBits;cons=cons;withcons=[];isUnsigned=isUnsigned; uperRange= uperRange; intClass=intClass; defaultValue="0"; checkIntHasEnoughSpace=checkIntHasEnoughSpace; inheritInfo=Some {InheritanceInfo.modName=md.Value; tasName=ts.Value;hasAdditionalConstraints=false;}}), us
         | _                               ->
             let newParma  =
diff --git a/FrontEndAst/Asn1AcnAstUtilFunctions.fs b/FrontEndAst/Asn1AcnAstUtilFunctions.fs
index 649c59c..a02bf0f 100644
--- a/FrontEndAst/Asn1AcnAstUtilFunctions.fs
+++ b/FrontEndAst/Asn1AcnAstUtilFunctions.fs
@@ -389,6 +389,23 @@ let getIntEncodingClassByUperRange (args:CommandLineSettings) (uperRange:BigInte
     | PosInf  _                    -> foo int64 int32 fat_int
     | Full                         -> foo int64 int32 fat_int
 
+// the signed encodings (two's complement, ASCII with a sign) of a value that is never negative are decoded
+// to a signed type: under -slim the run time has these decoders for the signed types only
+let getIntEncodingClassByAcnEncoding (args:CommandLineSettings) (acnEncodingClass:IntEncodingClass) (uperRange:BigIntegerUperRange) =
+    match acnEncodingClass, uperRange with
+    | (TwosComplement_ConstSize_8
+      | TwosComplement_ConstSize_big_endian_16
+      | TwosComplement_ConstSize_little_endian_16
+      | TwosComplement_ConstSize_big_endian_32
+      | TwosComplement_ConstSize_little_endian_32
+      | TwosComplement_ConstSize_big_endian_64
+      | TwosComplement_ConstSize_little_endian_64
+      | TwosComplement_ConstSize _
+      | ASCII_ConstSize _
+      | ASCII_VarSize_NullTerminated _), Concrete (a, b) when args.slim && a >= 0I && b <= BigInteger System.Int64.MaxValue ->
+        getIntEncodingClassByUperRange args (Concrete (-1I, b))
+    | _ -> getIntEncodingClassByUperRange args uperRange
+
 
 type Integer with
     member this.AllCons  = this.cons@this.withcons
@@ -434,7 +451,7 @@ type IntegerClass with
 
 
 let getAcnIntegerClass (args:CommandLineSettings) (i:AcnInteger) =
-    getIntEncodingClassByUperRange args i.uperRange
+    getIntEncodingClassByAcnEncoding args i.acnEncodingClass i.uperRange
 
 type ObjectIdentifier with
     member this.AllCons  = this.cons@this.withcons
-- 
2.43.0


From d38f4fe899b74709581c873ffaeff5808c5564a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 092/101] fix: -wordSize 4: the announced size of a REAL covers
 its mantissa

---
 FrontEndAst/AcnCreateFromAntlr.fs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 17bfb92..609f822 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -334,7 +334,8 @@ let private mergeReal (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Language
             }
         | None  -> {RealAcnProperties.encodingProp = None; endiannessProp = None }
     let uperRange    = uPER.getRealTypeConstraintUperRange cons loc
-    let uperMaxSizeInBits=(5I+asn1.args.integerSizeInBytes)*8I
+    // the mantissa takes as many bytes as the floating point type allows, whatever the size of the integers
+    let uperMaxSizeInBits=(5I+(max asn1.args.integerSizeInBytes asn1.args.floatingPointSizeInBytes))*8I
     let uperMinSizeInBits=8I
     let alignment = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
     let acnEncodingClass,  acnMinSizeInBits, acnMaxSizeInBits= AcnEncodingClasses.GetRealEncodingClass alignment loc acnProperties uperMinSizeInBits uperMaxSizeInBits
-- 
2.43.0


From aeb01563753cf9ef25fc0b41a5b17eaf24111b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 093/101] fix: -eee: constrained enumerations keep the values
 of their own, and the tables precede the functions that use them

---
 BackendAst/Acn/AcnEnum.fs         |  5 ++++-
 BackendAst/GenerateFiles.fs       | 17 +++++++++--------
 CommonTypes/AbstractMacros.fs     |  4 ++--
 FrontEndAst/DAstTypeDefinition.fs |  4 ++--
 StgAda/spec_a.stg                 |  4 ++--
 StgC/header_c.stg                 | 20 ++++++++++++++++----
 StgScala/header_scala.stg         |  4 ++--
 7 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 2aa712e..6d4fa56 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -78,7 +78,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
                 let resultExpr, errCodes, auxiliaries =
                     intAcnFuncBdResult.resultExpr, intAcnFuncBdResult.errCodes, intAcnFuncBdResult.auxiliaries
                 let mainContent, localVariables =
-                    match r.args.isEnumEfficientEnabled o.items.Length  with
+                    let encodedAsDefined = not o.encodeValues || o.items |> List.forall(fun it -> it.acnEncodeValue = it.definitionValue)
+                    // the arrays of the values are private to the module that defines the type
+                    let definedHere = (lm.lg.getEnumTypeDefinition o.typeDef).programUnit = ToC p.modName
+                    match r.args.isEnumEfficientEnabled o.items.Length && encodedAsDefined && definedHere with
                     | false ->
                         let arrItems =
                             o.items |>
diff --git a/BackendAst/GenerateFiles.fs b/BackendAst/GenerateFiles.fs
index 5820349..310d69a 100644
--- a/BackendAst/GenerateFiles.fs
+++ b/BackendAst/GenerateFiles.fs
@@ -204,16 +204,18 @@ let private printUnit (r:DAst.AstRoot)  (lm:LanguageMacros) (encodings: CommonTy
         File.WriteAllText(testcase_specFileName, tstCasesHdrContent.Replace("\r",""))
 
     //source file
+    //the private definitions come first: a function may use those of any type of the module
+    let arrsPrivateDefinitions =
+        tases |> List.choose(fun t ->
+            match t.Type.typeDefinitionOrReference with
+            | TypeDefinition td -> td.privateTypeDefinition
+            | ReferenceToExistingDefinition _   -> None) |> List.map(fun d -> lm.src.printTass [d])
     let arrsTypeAssignments =
-        tases |> List.map(fun t ->
+        arrsPrivateDefinitions @
+        (tases |> List.map(fun t ->
             let typeAssignmentInfo = t.Type.id.tasInfo.Value
             let f cl = {Caller.typeId = typeAssignmentInfo; funcType = cl}
 
-            let privateDefinition =
-                match t.Type.typeDefinitionOrReference with
-                | TypeDefinition td -> td.privateTypeDefinition
-                | ReferenceToExistingDefinition _   -> None
-
             let initialize =
                 match r.callersSet |> Set.contains (f InitFunctionType) with
                 | true -> 
@@ -272,12 +274,11 @@ let private printUnit (r:DAst.AstRoot)  (lm:LanguageMacros) (encodings: CommonTy
                 else []
 
             let allProcs =
-                (privateDefinition |> Option.toList) @
                 eqFuncs @ isValidFuncs @ special_init_funcs @
                 (init_globals |> Option.toList) @
                 (initialize |> Option.toList) @
                 uperEncDec @ ancEncDec @ xerEncDec
-            lm.src.printTass allProcs)
+            lm.src.printTass allProcs))
 
 
     let arrsValueAssignments, arrsSourceAnonymousValues =
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index c83c485..2a16d22 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -60,8 +60,8 @@ Generated by the C stg macros with the following command
         abstract member Define_new_enumerated_item_macro : td:FE_EnumeratedTypeDefinition -> sAsn1Name:string -> sCName:string -> string;
         abstract member Define_new_enumerated : td:FE_EnumeratedTypeDefinition -> arrsEnumNames:seq<string> -> arrsEnumNamesAndValues:seq<string> -> nIndexMax:BigInteger -> arrsResolvingMacros:seq<string> -> string;
         abstract member Define_subType_enumerated : td:FE_EnumeratedTypeDefinition -> prTd:FE_EnumeratedTypeDefinition -> soParentTypePackage:string option -> string;
-        abstract member Define_new_enumerated_private : td:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> string;
-        abstract member Define_subType_enumerated_private : td:FE_EnumeratedTypeDefinition -> prTd:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> string;
+        abstract member Define_new_enumerated_private : td:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> bAllValid:bool -> string;
+        abstract member Define_subType_enumerated_private : td:FE_EnumeratedTypeDefinition -> prTd:FE_EnumeratedTypeDefinition -> arrsValidEnumNames:seq<string> -> arrsEnumNames:seq<string> -> bAllValid:bool -> string;
         abstract member Define_new_ia5string : td:FE_StringTypeDefinition -> nMin:BigInteger -> nMax:BigInteger -> nCMax:BigInteger -> arrnAlphaChars:seq<BigInteger> -> string;
         abstract member Define_subType_ia5string : td:FE_StringTypeDefinition -> prTd:FE_StringTypeDefinition -> soParentTypePackage:string option -> string;
         abstract member Define_new_octet_string : td:FE_SizeableTypeDefinition -> nMin:BigInteger -> nMax:BigInteger -> bFixedSize:bool -> arrsInvariants:seq<string> -> string;
diff --git a/FrontEndAst/DAstTypeDefinition.fs b/FrontEndAst/DAstTypeDefinition.fs
index 6f8da17..a3d5ab5 100644
--- a/FrontEndAst/DAstTypeDefinition.fs
+++ b/FrontEndAst/DAstTypeDefinition.fs
@@ -399,7 +399,7 @@ let createEnumerated_u (args:CommandLineSettings) (lm:LanguageMacros)  (id:Refer
                 match args.isEnumEfficientEnabled items.Length with
                 | false -> None
                 | true  ->
-                    let ret = define_new_enumerated_private td arrsValidEnumNames arrsEnumNames
+                    let ret = define_new_enumerated_private td arrsValidEnumNames arrsEnumNames (arrsValidEnumNames = arrsEnumNames)
                     match System.String.IsNullOrWhiteSpace ret with
                     | true  -> None
                     | false -> Some ret
@@ -411,7 +411,7 @@ let createEnumerated_u (args:CommandLineSettings) (lm:LanguageMacros)  (id:Refer
                 match args.isEnumEfficientEnabled items.Length with
                 | false -> None
                 | true  ->
-                    let ret = define_subType_enumerated_private td subDef arrsValidEnumNames arrsEnumNames
+                    let ret = define_subType_enumerated_private td subDef arrsValidEnumNames arrsEnumNames (arrsValidEnumNames = arrsEnumNames)
                     match System.String.IsNullOrWhiteSpace ret with
                     | true  -> None
                     | false -> Some ret
diff --git a/StgAda/spec_a.stg b/StgAda/spec_a.stg
index 76c6070..d72fc62 100644
--- a/StgAda/spec_a.stg
+++ b/StgAda/spec_a.stg
@@ -187,10 +187,10 @@ Define_subType_enumerated(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_Enumerat
 <define_subtype(thisType=td.index_range, parentType=prTd.index_range, soParentTypePackage=soParentTypePackage)>
 >>
 
-Define_new_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames) ::= <<
+Define_new_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames, bAllValid) ::= <<
 >>
 
-Define_subType_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames) ::= <<
+Define_subType_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames, bAllValid) ::= <<
 >>
 
 
diff --git a/StgC/header_c.stg b/StgC/header_c.stg
index f47abff..463afea 100644
--- a/StgC/header_c.stg
+++ b/StgC/header_c.stg
@@ -140,28 +140,40 @@ Define_subType_enumerated(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_Enumerat
 typedef <prTd.typeName> <td.typeName>;
 >>
 
-Define_new_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames) ::= <<
+Define_new_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames, bAllValid) ::= <<
 static const asn1SccSint <td.values_array>[] = {
     <arrsValidEnumNames:{it|<it>}; wrap, anchor, separator=",">
 };
 
 #define <td.values_array_count> <arrsValidEnumNames.Length>
 
+<if(bAllValid)>
 #define <td.encoded_values_array> <td.values_array>
+<else>
+static const asn1SccSint <td.encoded_values_array>[] = {
+    <arrsEnumNames:{it|<it>}; wrap, anchor, separator=",">
+};
+<endif>
 
 #define <td.encoded_values_array_count> <arrsEnumNames.Length>
 >>
 
-Define_subType_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames) ::= <<
+Define_subType_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames, bAllValid) ::= <<
 static const asn1SccSint <td.values_array>[] = {
     <arrsValidEnumNames:{it|<it>}; wrap, anchor, separator=",">
 };
 
 #define <td.values_array_count> <arrsValidEnumNames.Length>
 
-#define <td.encoded_values_array> <prTd.encoded_values_array>
+<if(bAllValid)>
+#define <td.encoded_values_array> <td.values_array>
+<else>
+static const asn1SccSint <td.encoded_values_array>[] = {
+    <arrsEnumNames:{it|<it>}; wrap, anchor, separator=",">
+};
+<endif>
 
-#define <td.encoded_values_array_count> <prTd.encoded_values_array_count>
+#define <td.encoded_values_array_count> <arrsEnumNames.Length>
 >>
 
 /***********************************       STRING    ************************************************************/
diff --git a/StgScala/header_scala.stg b/StgScala/header_scala.stg
index 5eb00b2..9daf64d 100644
--- a/StgScala/header_scala.stg
+++ b/StgScala/header_scala.stg
@@ -127,10 +127,10 @@ Define_subType_enumerated(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_Enumerat
 typedef <prTd.typeName> <td.typeName>
 >>
 
-Define_new_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames) ::= <<
+Define_new_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames, bAllValid) ::= <<
 >>
 
-Define_subType_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames) ::= <<
+Define_subType_enumerated_private(td/*:FE_EnumeratedTypeDefinition*/, prTd/*:FE_EnumeratedTypeDefinition*/, arrsValidEnumNames, arrsEnumNames, bAllValid) ::= <<
 >>
 
 /***********************************       STRING    ************************************************************/
-- 
2.43.0


From 28e43f705b62adecabebd9e0941b75bae4c6b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:48 +0000
Subject: [PATCH 094/101] fix: -acnDeferred: determinants of enumerated types

---
 BackendAst/Acn/AcnChoice.fs        | 12 ++++++------
 BackendAst/Acn/AcnExternalField.fs |  9 +++++++++
 StgAda/LangGeneric_a.fs            | 14 ++++++--------
 StgC/LangGeneric_c.fs              | 14 ++++++--------
 4 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/BackendAst/Acn/AcnChoice.fs b/BackendAst/Acn/AcnChoice.fs
index 419a827..f9ed4ee 100644
--- a/BackendAst/Acn/AcnChoice.fs
+++ b/BackendAst/Acn/AcnChoice.fs
@@ -182,12 +182,12 @@ let createChoiceFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFiel
 
 
                         let enmItem = enm.enm.items |> List.find(fun itm -> itm.Name.Value = child.Name.Value)
-                        // In deferred mode, the case discriminant is the deferred ref's
-                        // .Value field (Asn1UInt) rather than the enum-typed determinant,
-                        // so case branches must use the ACN-encoded integer literal.
-                        // In legacy mode keep the enum literal name (preserves byte-identity).
+                        // In deferred mode, when the determinant is a parameter, the case discriminant is the
+                        // deferred ref's .Value field (Asn1UInt), into which the decoded enumerated value was
+                        // copied: case branches must use the integer of the enumerated item.
+                        // Otherwise the discriminant is the enum-typed determinant: keep the enum literal name.
                         let enmCaseName =
-                            if r.args.acnDeferred && codec = Decode then enmItem.acnEncodeValue.ToString()
+                            if r.args.acnDeferred && codec = Decode && isParameterDeterminant deps t.id then enmItem.definitionValue.ToString()
                             else lm.lg.getNamedItemBackendName (Some (getDefOrRef enm)) enmItem
                         Some (choiceChild_Enum (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) enmCaseName (lm.lg.presentWhenName (Some defOrRef) child) childContent_funcBody sChildName sChildTypeDef sChoiceTypeName sChildInitExpr codec)
                     | CEC_presWhen  ->
@@ -243,7 +243,7 @@ let createChoiceFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFiel
                 // range. In legacy mode the discriminant is the enum type and
                 // when-others would be redundant — Ada flags it as a warning,
                 // which becomes an error under -gnatwe.
-                let bIsDeferred = r.args.acnDeferred
+                let bIsDeferred = r.args.acnDeferred && isParameterDeterminant deps t.id
                 choice_Enum pp access childrenStatements extField errCode.errCodeName bIsDeferred codec, resultExpr
             | CEC_presWhen    -> choice_preWhen pp  access childrenStatements errCode.errCodeName codec, resultExpr
         let choiceContent = lm.lg.generateChoiceProof r ACN t o choiceContent p.accessPath codec
diff --git a/BackendAst/Acn/AcnExternalField.fs b/BackendAst/Acn/AcnExternalField.fs
index c25bd8e..70842f7 100644
--- a/BackendAst/Acn/AcnExternalField.fs
+++ b/BackendAst/Acn/AcnExternalField.fs
@@ -122,5 +122,14 @@ let getExternalFieldTypeChoicePresentWhen (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAs
 let getExternalField (lm:LanguageMacros) (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFieldDependencies) asn1TypeIdWithDependency =
     getExternalField0 lm r deps asn1TypeIdWithDependency (fun z -> true)
 
+/// the external field of the type is a parameter of it, not an ACN child
+let isParameterDeterminant (deps:Asn1AcnAst.AcnInsertedFieldDependencies) asn1TypeIdWithDependency =
+    match deps.acnDependencies |> List.tryFind (fun d -> d.asn1Type = asn1TypeIdWithDependency) with
+    | Some d ->
+        match d.determinant with
+        | Asn1AcnAst.AcnParameterDeterminant _ -> true
+        | Asn1AcnAst.AcnChildDeterminant _     -> false
+    | None   -> false
+
 let getExternalFieldType (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFieldDependencies) asn1TypeIdWithDependency =
     getExternalField0Type r deps asn1TypeIdWithDependency (fun z -> true)
diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index d65ef64..59ff6ac 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -405,12 +405,9 @@ type LangGeneric_a() =
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToEnumerated enm ->
                 match enm.enumerated.acnEncodingClass with
                 | Asn1AcnAst.Integer_uPER ->
-                    let nItems = enm.enumerated.items.Length
-                    if nItems <= 1 then
-                        Some (q "Acn_InitDet_ConstSize", q "Acn_PatchDet_ConstSize", Some 0I, 0I)
-                    else
-                        let nBits = bigint (int (System.Math.Ceiling(System.Math.Log(float nItems, 2.0))))
-                        Some (q "Acn_InitDet_ConstSize", q "Acn_PatchDet_ConstSize", Some nBits, 0I)
+                    // the encoded value is constrained by the smallest and the greatest one
+                    let minValue = enm.enumerated.items |> List.map (fun i -> i.acnEncodeValue) |> List.min
+                    Some (q "Acn_InitDet_ConstSize", q "Acn_PatchDet_ConstSize", Some enm.enumerated.acnMaxSizeInBits, minValue)
                 | _ -> mapIntEncoding enm.enumerated.acnEncodingClass
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToIA5String ref ->
                 let nChars = ref.str.maxSize.acn
@@ -420,14 +417,15 @@ type LangGeneric_a() =
         override this.computeDeferredFallbackValue (acnType: Asn1AcnAst.AcnInsertedType) (uperMinOffset: BigInteger) : string =
             match acnType with
             | Asn1AcnAst.AcnInsertedType.AcnInteger _ ->
-                if uperMinOffset > 0I then uperMinOffset.ToString() else "0"
+                // the value is written as it is (the offset has been subtracted)
+                "0"
             | Asn1AcnAst.AcnInsertedType.AcnBoolean _ -> "0"
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToEnumerated enm ->
                 // Ada is strictly typed: Asn1UInt(<enum_literal>) is illegal.
                 // Use the enum's ACN-encoded integer value so the cast in the
                 // fallback PatchDet macro becomes Asn1UInt(<n>) — valid Ada.
                 match enm.enumerated.items with
-                | firstItem :: _ -> firstItem.acnEncodeValue.ToString()
+                | firstItem :: _ -> (firstItem.acnEncodeValue - uperMinOffset).ToString()
                 | [] -> "0"
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToIA5String _ -> "\"\""
             | _ -> "0"
diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index ca072c6..cf27ef5 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -830,12 +830,9 @@ type LangGeneric_c() =
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToEnumerated enm ->
                 match enm.enumerated.acnEncodingClass with
                 | Asn1AcnAst.Integer_uPER ->
-                    let nItems = enm.enumerated.items.Length
-                    if nItems <= 1 then
-                        Some ("Acn_InitDet_ConstSize", "Acn_PatchDet_ConstSize", Some 0I, 0I)
-                    else
-                        let nBits = bigint (int (System.Math.Ceiling(System.Math.Log(float nItems, 2.0))))
-                        Some ("Acn_InitDet_ConstSize", "Acn_PatchDet_ConstSize", Some nBits, 0I)
+                    // the encoded value is constrained by the smallest and the greatest one
+                    let minValue = enm.enumerated.items |> List.map (fun i -> i.acnEncodeValue) |> List.min
+                    Some ("Acn_InitDet_ConstSize", "Acn_PatchDet_ConstSize", Some enm.enumerated.acnMaxSizeInBits, minValue)
                 | _ -> mapIntEncoding enm.enumerated.acnEncodingClass
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToIA5String ref ->
                 let nChars = ref.str.maxSize.acn
@@ -845,11 +842,12 @@ type LangGeneric_c() =
         override this.computeDeferredFallbackValue (acnType: Asn1AcnAst.AcnInsertedType) (uperMinOffset: BigInteger) : string =
             match acnType with
             | Asn1AcnAst.AcnInsertedType.AcnInteger _ ->
-                if uperMinOffset > 0I then uperMinOffset.ToString() else "0"
+                // the value is written as it is (the offset has been subtracted)
+                "0"
             | Asn1AcnAst.AcnInsertedType.AcnBoolean _ -> "0"
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToEnumerated enm ->
                 match enm.enumerated.items with
-                | firstItem :: _ -> this.getNamedItemBackendName None firstItem
+                | firstItem :: _ -> (firstItem.acnEncodeValue - uperMinOffset).ToString()
                 | [] -> "0"
             | Asn1AcnAst.AcnInsertedType.AcnReferenceToIA5String _ -> "\"\""
             | _ -> "0"
-- 
2.43.0


From 9543347e0d649c1d7fb4bcbd995809e19fdcc1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 095/101] fix: uPER: an OCTET STRING whose length is truncated
 is refused

---
 StgC/uper_c.stg | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 496bd83..f9c11b4 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -534,7 +534,8 @@ octet_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sEr
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
 *pErrCode = ret ? 0 : <sErrCode>;
 <p><sAcc>nCount = (long)nCount;
-ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+ret = ret && BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+*pErrCode = ret ? 0 : <sErrCode>;
 >>
 
 
-- 
2.43.0


From 1e241bfb5b70a62ff63444c8070f653c747f7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 096/101] fix: cyclic value assignments and WITH COMPONENT on
 other types are reported with their place

---
 FrontEndAst/MapParamAstToNonParamAst.fs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/MapParamAstToNonParamAst.fs b/FrontEndAst/MapParamAstToNonParamAst.fs
index 73e10fd..f0c7b77 100644
--- a/FrontEndAst/MapParamAstToNonParamAst.fs
+++ b/FrontEndAst/MapParamAstToNonParamAst.fs
@@ -339,7 +339,7 @@ and MapAsn1Constraint (r:ParameterizedAsn1Ast.AstRoot) (t: ParameterizedAsn1Ast.
         match akind with
         | ParameterizedAsn1Ast.SequenceOf(child)    ->
             Asn1Ast.WithComponentConstraint(s, (MapAsn1Constraint r child typeScope (visitConstraint cs) c), loc)
-        | _                                         ->        raise(SemanticError(emptyLocation,"Unexpected constraint type"))
+        | _                                         ->        raise(SemanticError(loc,"Unexpected constraint type"))
     | ParameterizedAsn1Ast.WithComponentsConstraint(s, ncs)    ->
         Asn1Ast.WithComponentsConstraint(s, ncs|> foldMap (fun cs c ->
                                                                 let newC = MapNamedConstraint r t typeScope (visitConstraint cs) c
@@ -442,7 +442,24 @@ let MapFile (r:ParameterizedAsn1Ast.AstRoot) (f:ParameterizedAsn1Ast.Asn1File) :
 
 
 
+/// a value assignment whose value is, through other value assignments, the value itself
+let private checkCyclicValues (r:ParameterizedAsn1Ast.AstRoot) =
+    let rec follow (start:StringLoc) visited (v:ParameterizedAsn1Ast.Asn1Value) =
+        match v.Kind with
+        | ParameterizedAsn1Ast.RefValue(md, vasName)    ->
+            match r.Files |> List.collect(fun f -> f.Modules) |> List.tryFind(fun m -> m.Name = md) |> Option.bind(fun m -> m.ValueAssignments |> List.tryFind(fun z -> z.Name = vasName)) with
+            | None      -> ()
+            | Some _ when visited |> List.contains (md.Value, vasName.Value) ->
+                raise(SemanticError(start.Location, sprintf "Cyclic value assignment detected: value '%s' depends on itself" vasName.Value))
+            | Some vas  -> follow start ((md.Value, vasName.Value)::visited) vas.Value
+        | _             -> ()
+    for f in r.Files do
+        for m in f.Modules do
+            for vas in m.ValueAssignments do
+                follow vas.Name [] vas.Value
+
 let DoWork (r:ParameterizedAsn1Ast.AstRoot) : Asn1Ast.AstRoot =
+    checkCyclicValues r
     let r = RemoveParameterizedTypes.DoWork r
     let files = r.Files |> List.map (MapFile r)
     {
-- 
2.43.0


From 26893188a063fae63a1f7e5437d0e2a2b81cf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 097/101] fix: lexical errors are reported

---
 FrontEndAst/AntlrParse.fs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/FrontEndAst/AntlrParse.fs b/FrontEndAst/AntlrParse.fs
index fa075ed..72ca6b8 100644
--- a/FrontEndAst/AntlrParse.fs
+++ b/FrontEndAst/AntlrParse.fs
@@ -11,7 +11,7 @@ open CommonTypes
 open System.Collections.Generic
 open System.Linq
 
-let antlrParse (lexer: ICharStream -> (#ITokenSource* asn1Parser.AntlrError list) ) treeParser (name: string, inputs : Input seq) = 
+let antlrParse (lexer: ICharStream -> (#ITokenSource* (unit -> asn1Parser.AntlrError list)) ) treeParser (name: string, inputs : Input seq) = 
     let concatenateStreams (streams : Stream seq) =
         let spaceAscii = (byte 32)
         let memStream = new MemoryStream()
@@ -27,13 +27,14 @@ let antlrParse (lexer: ICharStream -> (#ITokenSource* asn1Parser.AntlrError list
     let antlrStream = new ANTLRInputStream(inputStream)
     antlrStream.SourceName <- name
 
-    let lexerTokens, lexerErrors  = lexer(antlrStream)
+    let lexerTokens, getLexerErrors  = lexer(antlrStream)
     let tokenStream = new CommonTokenStream(lexerTokens)
     let tokens = tokenStream.GetTokens().Cast<IToken>() |> Seq.toArray
     let tree, parcerErrors = treeParser(tokenStream);
     let b:ITree = tree
     
-    let allErrors = parcerErrors@lexerErrors
+    //the lexer reads its input while the parser is working, so its errors are not known before
+    let allErrors = (getLexerErrors ())@parcerErrors
     {CommonTypes.AntlrParserResult.fileName = name; CommonTypes.AntlrParserResult.rootItem=tree; CommonTypes.AntlrParserResult.tokens=tokens}, allErrors
 
 
@@ -48,7 +49,7 @@ let asn1treeParser (tokenStream:CommonTokenStream)=
 
 let asn1Lexer (f:ICharStream) =
     let lexer = new asn1Lexer(f)
-    lexer, lexer.errorList |> Seq.toList
+    lexer, (fun () -> lexer.errorList |> Seq.toList)
 
 let acnTreeGeneric func (tokenStream:CommonTokenStream)  =
     let p = new acnParser(tokenStream)
@@ -67,7 +68,7 @@ let acnTreeParser (tokenStream:CommonTokenStream)=
 
 let acnLexer (f:ICharStream) =
     let lexer = new acnLexer(f)
-    lexer, lexer.errorList |> Seq.toList
+    lexer, (fun () -> lexer.errorList |> Seq.toList)
 
 
 let formatSemanticError (loc:SrcLoc) (msg:string) =
-- 
2.43.0


From 4ee330d7ec11ca624b1548240f0e8989a99b1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:46 +0000
Subject: [PATCH 098/101] fix: syntax errors at the end of a file are reported
 at its last token

---
 FrontEndAst/AntlrParse.fs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AntlrParse.fs b/FrontEndAst/AntlrParse.fs
index 72ca6b8..0496bc0 100644
--- a/FrontEndAst/AntlrParse.fs
+++ b/FrontEndAst/AntlrParse.fs
@@ -34,7 +34,12 @@ let antlrParse (lexer: ICharStream -> (#ITokenSource* (unit -> asn1Parser.AntlrE
     let b:ITree = tree
     
     //the lexer reads its input while the parser is working, so its errors are not known before
-    let allErrors = (getLexerErrors ())@parcerErrors
+    //the end of the file has no line: what is missing there is reported at the last token
+    let atLastToken (e:asn1Parser.AntlrError) =
+        match tokenStream.GetTokens().Cast<IToken>() |> Seq.filter(fun t -> t.Line > 0 && not (System.String.IsNullOrWhiteSpace t.Text)) |> Seq.tryLast with
+        | Some t when e.line <= 0 -> asn1Parser.AntlrError(t.Line, t.CharPositionInLine, e.filePath, e.msg)
+        | _                       -> e
+    let allErrors = (getLexerErrors ())@(parcerErrors |> List.map atLastToken)
     {CommonTypes.AntlrParserResult.fileName = name; CommonTypes.AntlrParserResult.rootItem=tree; CommonTypes.AntlrParserResult.tokens=tokens}, allErrors
 
 
-- 
2.43.0


From 2d5e0e1bcbc5623bb483e97397e763d177c1c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:25 +0000
Subject: [PATCH 099/101] fix: a wrong number of ACN arguments is reported in
 the ACN file

---
 FrontEndAst/AcnCreateFromAntlr.fs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 609f822..34a907f 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -1535,7 +1535,8 @@ let rec private mergeType  (asn1:Asn1Ast.AstRoot) (acn:AcnAst) (typeIdsSet : Map
 
             if not (baseTypeAcnParams.Length = acnArgs.Length) then
                 let errMsg = sprintf "ACN parameters and arguments do not match. Expected %d parameters but got %d arguments. Reftype is %s" baseTypeAcnParams.Length acnArgs.Length rf.tasName.Value
-                raise(SemanticError(rf.tasName.Location, errMsg))
+                let errLoc = match acnType with Some z -> z.loc | None -> rf.tasName.Location
+                raise(SemanticError(errLoc, errMsg))
 
             let baseTypeAcnEncSpec =
                 match acnTypeAssign with
-- 
2.43.0


From e2b9eb751c05f395c08cafc14fa0d09e923655da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:39 +0000
Subject: [PATCH 100/101] fix: NumericString values are checked to be numeric

---
 FrontEndAst/CheckAsn1.fs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 2ce284c..181acec 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -60,7 +60,8 @@ let rec TypeValueMatch (t:Asn1Type) (typeNames:(StringLoc*StringLoc)list) (v:Asn
         match vas.Type.Kind with
         | ReferenceType ref    -> [(ref.modName,ref.tasName)]
         | _                         -> []
-    let isNumeric s = true
+    let isNumeric (parts:SingleStringValue list, _:SrcLoc) =
+        parts |> List.forall(fun p -> match p with CStringValue s -> s |> Seq.forall(fun c -> c = ' ' || (c >= '0' && c <= '9')) | _ -> false)
     let typesMatch =
         match typeNames, valueTypeNames with
         | [], []    -> true
-- 
2.43.0


From 0ad8ef2ba62a6bc5620a588fd5c2ba9702822f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 101/101] fix: a comment in the last line of a file needs no
 line end

---
 FrontEndAst/AntlrParse.fs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/FrontEndAst/AntlrParse.fs b/FrontEndAst/AntlrParse.fs
index 0496bc0..4a0959f 100644
--- a/FrontEndAst/AntlrParse.fs
+++ b/FrontEndAst/AntlrParse.fs
@@ -13,16 +13,15 @@ open System.Linq
 
 let antlrParse (lexer: ICharStream -> (#ITokenSource* (unit -> asn1Parser.AntlrError list)) ) treeParser (name: string, inputs : Input seq) = 
     let concatenateStreams (streams : Stream seq) =
-        let spaceAscii = (byte 32)
+        let newLineAscii = (byte 10)
         let memStream = new MemoryStream()
-        streams |> Seq.iter (fun s -> s.CopyTo(memStream); memStream.WriteByte(spaceAscii))
+        //a comment in the last line ends with the file
+        let endLine () = if memStream.Length > 0L && memStream.GetBuffer().[int memStream.Length - 1] <> newLineAscii then memStream.WriteByte(newLineAscii)
+        streams |> Seq.iter (fun s -> s.CopyTo(memStream); endLine ())
         memStream.Position <- (int64 0)
         memStream :> Stream
 
-    let inputStream =
-        match Seq.length inputs > 1 with
-        | true -> inputs |> Seq.map (fun i -> i.contents) |> concatenateStreams
-        | false -> inputs |> Seq.head |> (fun i -> i.contents)
+    let inputStream = inputs |> Seq.map (fun i -> i.contents) |> concatenateStreams
     
     let antlrStream = new ANTLRInputStream(inputStream)
     antlrStream.SourceName <- name
-- 
2.43.0

