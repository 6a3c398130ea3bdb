// C05: every decoding function on arbitrary bytes, truncations and start positions.
// Oracle: terminates, no access outside the input, the result object and its stated capacity (ASAN, exact-size heap
// blocks), a result inside the bounds it was given, cursor inside the input on success, input untouched, and
// the outcome is a function of the bits consumed only (same result when the input ends there or continues otherwise).
#include "codec.hpp"
#include "asn1crt_encoding_uper.h"
#include "asn1crt_encoding_ber.h"
#include "asn1crt_encoding_xer.h"
#include <cmath>
#include <climits>
typedef asn1SccSint I; typedef asn1SccUint U; typedef std::vector<uint8_t> V8;
enum Lay { BITS, ASC, OCT, BER, XER };
struct Ent { std::string name; Lay lay; bool peek; std::function<int(BitStream*, V8*)> b; std::function<int(ByteStream*, V8*, int*)> y; V8 head; };
static std::vector<Ent> E;
static const char* g_why = "";
static void put(V8* h, const void* p, size_t n) { h->insert(h->end(), (const uint8_t*)p, (const uint8_t*)p + n); }
template<class T> struct Obj { Buf b; T* p; Obj() : b(sizeof(T), 0x5A), p((T*)b.p) {} };
static int bad(const char* w) { g_why = w; return DEC_WRONG; }
static void B(const std::string& n, std::function<int(BitStream*, V8*)> f, Lay l = BITS, bool peek = false) { E.push_back({n, l, peek, f, nullptr, {}}); }
static void Y(const std::string& n, Lay l, std::function<int(ByteStream*, V8*, int*)> f, V8 head = {}, bool peek = false) { E.push_back({n, l, peek, nullptr, f, head}); }
static Lay lay(const std::string& n) { return n.find("ASCII") != std::string::npos || n.find("BCD") != std::string::npos ? ASC : BITS; }
template<class T> static void N(const std::string& n, flag (*f)(BitStream*, T*)) { B(n, [f](BitStream* s, V8* h) -> int { Obj<T> o; if (!f(s, o.p)) return DEC_FAIL; put(h, o.p, sizeof(T)); return DEC_OK; }, lay(n)); }
template<class T> static void N(const std::string& n, flag (*f)(BitStream*, T*, int), std::vector<int> a) { for (int k : a) B(n + "(" + std::to_string(k) + ")", [f, k](BitStream* s, V8* h) -> int { Obj<T> o; if (!f(s, o.p, k)) return DEC_FAIL; put(h, o.p, sizeof(T)); return DEC_OK; }, lay(n)); }
template<class T> static void N(const std::string& n, flag (*f)(BitStream*, T*, const byte*, size_t)) { static const byte t[3][4] = {{0}, {13, 10}, {0xFF, '0', '0'}}; for (int k = 0; k < 3; k++) B(n + "[" + std::to_string(k) + "]", [f, k](BitStream* s, V8* h) -> int { Obj<T> o; if (!f(s, o.p, t[k], (size_t)k + 1)) return DEC_FAIL; put(h, o.p, sizeof(T)); return DEC_OK; }, ASC); }
template<class T> static void R(const std::string& n, flag (*f)(BitStream*, T*, T, T), std::vector<std::pair<T, T>> a) { for (auto k : a) B(n + "(" + std::to_string(k.first) + ".." + std::to_string(k.second) + ")", [f, k](BitStream* s, V8* h) -> int { Obj<T> o; if (!f(s, o.p, k.first, k.second)) return DEC_FAIL; put(h, o.p, sizeof(T)); if (*o.p < k.first || *o.p > k.second) return bad("a value outside the range was delivered"); return DEC_OK; }); }
template<class T> static void M(const std::string& n, flag (*f)(BitStream*, T*, T), std::vector<T> a) { for (auto k : a) B(n + "(" + std::to_string(k) + "..)", [f, k](BitStream* s, V8* h) -> int { Obj<T> o; if (!f(s, o.p, k)) return DEC_FAIL; put(h, o.p, sizeof(T)); if (*o.p < k) return bad("a value below the minimum was delivered"); return DEC_OK; }); }
static void str(const std::string& n, long max, std::function<flag(BitStream*, char*)> f, const char* allowed = nullptr) { B(n, [=](BitStream* s, V8* h) -> int { Buf b(max + 1, 0x5A); if (!f(s, (char*)b.p)) return DEC_FAIL; void* z = memchr(b.p, 0, max + 1); if (!z) return bad("the string is not terminated"); put(h, b.p, (uint8_t*)z - b.p); if (allowed) for (uint8_t* c = b.p; *c; c++) if (!strchr(allowed, *c)) return bad("a character outside the set"); return DEC_OK; }, ASC); }
static void fixed(const std::string& n, long cap, std::function<flag(BitStream*, byte*)> f) { B(n, [=](BitStream* s, V8* h) -> int { Buf b(cap, 0); if (!f(s, b.p)) return DEC_FAIL; put(h, b.p, cap); return DEC_OK; }); }
static void sized(const std::string& n, long cap, long lo, long hi, bool bits, std::function<flag(BitStream*, byte*, int*)> f, Lay l = OCT) { B(n, [=](BitStream* s, V8* h) -> int { static std::map<long, std::unique_ptr<Buf>> big; std::unique_ptr<Buf> own; Buf* q; if (cap > 1000) { auto& m = big[cap]; if (!m) m.reset(new Buf(cap)); q = m.get(); } else { own.reset(new Buf(cap)); q = own.get(); } Buf& b = *q; Obj<int> c; *c.p = 0; if (!f(s, b.p, c.p)) return DEC_FAIL; if (*c.p < lo || *c.p > hi) return bad("a length outside the bounds was delivered"); put(h, c.p, sizeof(int)); put(h, b.p, bits ? *c.p / 8 : *c.p); return DEC_OK; }, l); }
#define n_(f, ...) N(#f, f, ##__VA_ARGS__)
#define I8_(f, ...) n_(f##Int8, ##__VA_ARGS__)
#define S3_(f, ...) N(#f "Int8", f##Int8, ##__VA_ARGS__); N(#f "Int16", f##Int16, ##__VA_ARGS__); N(#f "Int32", f##Int32, ##__VA_ARGS__)
#define U3_(f, ...) N(#f "UInt8", f##UInt8, ##__VA_ARGS__); N(#f "UInt16", f##UInt16, ##__VA_ARGS__); N(#f "UInt32", f##UInt32, ##__VA_ARGS__)
static void table() {
    const int W = WORD_SIZE * 8; std::vector<int> nb = {1, 3, 7, 8, 9, 16, 17, W - 1, W}, nd = {1, 2, 5, 9, 10, W == 64 ? 19 : 10, 20, 21, 40};
    n_(BitStream_ReadBit); n_(BitStream_ReadByte); n_(BitStream_DecodeNonNegativeInteger, {0, 1, 7, 8, 9, 31, 32, W});
    for (int k = 1; k < 9; k++) B("BitStream_ReadPartialByte(" + std::to_string(k) + ")", [k](BitStream* s, V8* h) -> int { Obj<byte> o; if (!BitStream_ReadPartialByte(s, o.p, (byte)k)) return DEC_FAIL; put(h, o.p, 1); return *o.p >> k ? bad("more bits than asked for") : DEC_OK; });
    B("BitStream_PeekBit", [](BitStream* s, V8*) -> int { if (s->currentByte >= s->count) return DEC_FAIL; BitStream_PeekBit(s); return DEC_OK; }, BITS, true);
    for (int k : {0, 1, 7, 8, 9, 20}) fixed("BitStream_ReadBits(" + std::to_string(k) + ")", (k + 7) / 8, [k](BitStream* s, byte* p) { return BitStream_ReadBits(s, p, k); });
    for (int k : {0, 1, 2, 3, 17}) { fixed("BitStream_ReadByteArray(" + std::to_string(k) + ")", k, [k](BitStream* s, byte* p) { return BitStream_ReadByteArray(s, p, k); }); fixed("BitStream_DecodeOctetString_no_length(" + std::to_string(k) + ")", k, [k](BitStream* s, byte* p) { return BitStream_DecodeOctetString_no_length(s, p, k); }); }
    static const byte P[4] = {0x80, 0x7F, 0xFF, 0x30}; for (int k : {1, 3, 8, 9, 16, 20}) {
        B("BitStream_checkBitPatternPresent(" + std::to_string(k) + ")", [k](BitStream* s, V8* h) -> int { Buf p((k + 7) / 8); memcpy(p.p, P, p.n); if (k % 8) p.p[k / 8] &= (byte)(0xFF << (8 - k % 8)); size_t q = posbits(*s); int r = BitStream_checkBitPatternPresent(s, p.p, (size_t)k); if (r < 0 || r > 2) return bad("undocumented result"); if (r != 2 && posbits(*s) != q) return bad("the position moved without a match"); if (r == 0 && q + (size_t)k <= (size_t)s->count * 8) return bad("end of input reported too early"); h->push_back((uint8_t)r); return r == 2 ? DEC_OK : DEC_FAIL; });
        for (int m : {0, 1, 8, 13, 24}) sized("BitStream_ReadBits_nullterminated(" + std::to_string(k) + "," + std::to_string(m) + ")", (m + 7) / 8, 0, m, true, [k, m](BitStream* s, byte* q, int* c) { Buf p((k + 7) / 8); memcpy(p.p, P, p.n); if (k % 8) p.p[k / 8] &= (byte)(0xFF << (8 - k % 8)); return BitStream_ReadBits_nullterminated(s, p.p, (size_t)k, q, m, c); }, BITS);
        B("BitStream_ReadBitPattern(" + std::to_string(k) + ")", [k](BitStream* s, V8* h) -> int { Buf p((k + 7) / 8); memcpy(p.p, P, p.n); if (k % 8) p.p[k / 8] &= (byte)(0xFF << (8 - k % 8)); Obj<flag> o; if (!BitStream_ReadBitPattern(s, p.p, k, o.p)) return DEC_FAIL; h->push_back(*o.p != 0); return DEC_OK; });
        B("BitStream_ReadBitPattern_ignore_value(" + std::to_string(k) + ")", [k](BitStream* s, V8*) -> int { return BitStream_ReadBitPattern_ignore_value(s, k) ? DEC_OK : DEC_FAIL; }); }
    n_(BitStream_DecodeUnConstraintWholeNumber); I lo = W == 64 ? (I)LLONG_MIN : (I)INT_MIN, hi = W == 64 ? (I)LLONG_MAX : (I)INT_MAX; U um = (U)-1;
    M<I>("BitStream_DecodeSemiConstraintWholeNumber", BitStream_DecodeSemiConstraintWholeNumber, {0, 1, -1, 100, -129, lo, hi, (I)(hi - 100)}); M<U>("BitStream_DecodeSemiConstraintPosWholeNumber", BitStream_DecodeSemiConstraintPosWholeNumber, {0, 1, 200, um, (U)(um - 100), (U)hi});
    R<I>("BitStream_DecodeConstraintWholeNumber", BitStream_DecodeConstraintWholeNumber, {{0, 0}, {5, 5}, {-3, 1}, {0, 5}, {0, 127}, {-128, 127}, {1, 256}, {0, 256}, {-70000, 70001}, {lo, hi}, {lo, 0}, {lo, lo + 2}, {hi - 2, hi}, {0, hi}, {-1, hi}});
    R<U>("BitStream_DecodeConstraintPosWholeNumber", BitStream_DecodeConstraintPosWholeNumber, {{0, 0}, {7, 7}, {0, 5}, {3, 130}, {1, 256}, {0, 65536}, {0, um}, {1, um}, {um - 2, um}, {(U)hi, um}});
    R<int8_t>("BitStream_DecodeConstraintWholeNumberInt8", BitStream_DecodeConstraintWholeNumberInt8, {{-128, 127}, {-3, 2}, {0, 100}, {5, 5}, {126, 127}}); R<int16_t>("BitStream_DecodeConstraintWholeNumberInt16", BitStream_DecodeConstraintWholeNumberInt16, {{-32768, 32767}, {-300, 200}, {0, 30000}}); R<int32_t>("BitStream_DecodeConstraintWholeNumberInt32", BitStream_DecodeConstraintWholeNumberInt32, {{INT_MIN, INT_MAX}, {-70000, 3}, {0, 2000000000}});
    R<uint8_t>("BitStream_DecodeConstraintPosWholeNumberUInt8", BitStream_DecodeConstraintPosWholeNumberUInt8, {{0, 255}, {3, 200}, {0, 0}, {254, 255}}); R<uint16_t>("BitStream_DecodeConstraintPosWholeNumberUInt16", BitStream_DecodeConstraintPosWholeNumberUInt16, {{0, 65535}, {10, 60000}}); R<uint32_t>("BitStream_DecodeConstraintPosWholeNumberUInt32", BitStream_DecodeConstraintPosWholeNumberUInt32, {{0, 0xFFFFFFFFu}, {1, 4000000000u}});
    n_(BitStream_DecodeReal); n_(BitStream_DecodeReal_fp32);
    for (auto k : std::vector<std::pair<int, int>>{{0, 0}, {0, 1}, {0, 10}, {3, 10}, {5, 5}, {0, 255}, {0, 300}, {0, 65535}, {0, 65536}, {0, 70000}, {20000, 70000}, {65540, 65540}}) { std::string n = "(" + std::to_string(k.first) + ".." + std::to_string(k.second) + ")"; int a = k.first, z = k.second;
        sized("BitStream_DecodeOctetString" + n, z, a, z, false, [=](BitStream* s, byte* p, int* c) { return BitStream_DecodeOctetString(s, p, c, a, z); }); sized("BitStream_DecodeBitString" + n, (z + 7) / 8, a, z, true, [=](BitStream* s, byte* p, int* c) { return BitStream_DecodeBitString(s, p, c, a, z); });
        if (!a) sized("BitStream_DecodeOctetString_fragmentation" + n, z, 0, z, false, [=](BitStream* s, byte* p, int* c) { return BitStream_DecodeOctetString_fragmentation(s, p, c, z); }); }
    for (int rel = 0; rel < 2; rel++) B(rel ? "RelativeOID_uper_decode" : "ObjectIdentifier_uper_decode", [rel](BitStream* s, V8* h) -> int { Obj<Asn1ObjectIdentifier> o; if (!(rel ? RelativeOID_uper_decode : ObjectIdentifier_uper_decode)(s, o.p)) return DEC_FAIL; if (o.p->nCount < 0 || o.p->nCount > OBJECT_IDENTIFIER_MAX_LENGTH) return bad("a count outside the array"); put(h, o.p->values, sizeof o.p->values[0] * o.p->nCount); return DEC_OK; }, OCT);
    n_(Acn_Dec_Int_PositiveInteger_ConstSize, nb); n_(Acn_Dec_Int_TwosComplement_ConstSize, nb); U3_(Acn_Dec_Int_PositiveInteger_ConstSize, nb); S3_(Acn_Dec_Int_TwosComplement_ConstSize, nb); N("Acn_Dec_Length", Acn_Dec_Length, {1, 5, 8, 16, W});
    n_(Acn_Dec_Int_PositiveInteger_ConstSize_8); n_(Acn_Dec_Int_TwosComplement_ConstSize_8); n_(Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8); n_(Acn_Dec_Int_TwosComplement_ConstSize_8Int8);
#define END_(e) n_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_16); n_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_32); n_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_64); n_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_16); n_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_32); n_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_64); \
    n_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_16UInt16); n_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_16UInt8); U3_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_32); U3_(Acn_Dec_Int_PositiveInteger_ConstSize_##e##_64); n_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_16Int16); n_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_16Int8); S3_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_32); S3_(Acn_Dec_Int_TwosComplement_ConstSize_##e##_64)
    END_(big_endian); END_(little_endian);
    n_(Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded); U3_(Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded); n_(Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded); S3_(Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded);
    n_(Acn_Dec_Int_BCD_ConstSize, nd); U3_(Acn_Dec_Int_BCD_ConstSize, nd); n_(Acn_Dec_Int_BCD_VarSize_LengthEmbedded); U3_(Acn_Dec_Int_BCD_VarSize_LengthEmbedded); n_(Acn_Dec_Int_BCD_VarSize_NullTerminated); U3_(Acn_Dec_Int_BCD_VarSize_NullTerminated);
    n_(Acn_Dec_SInt_ASCII_ConstSize, nd); S3_(Acn_Dec_SInt_ASCII_ConstSize, nd); n_(Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded); S3_(Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded); n_(Acn_Dec_SInt_ASCII_VarSize_NullTerminated); S3_(Acn_Dec_SInt_ASCII_VarSize_NullTerminated);
    n_(Acn_Dec_UInt_ASCII_ConstSize, nd); U3_(Acn_Dec_UInt_ASCII_ConstSize, nd); n_(Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded); U3_(Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded); n_(Acn_Dec_UInt_ASCII_VarSize_NullTerminated); U3_(Acn_Dec_UInt_ASCII_VarSize_NullTerminated);
    n_(Acn_Dec_Real_IEEE754_32_big_endian); n_(Acn_Dec_Real_IEEE754_64_big_endian); n_(Acn_Dec_Real_IEEE754_32_little_endian); n_(Acn_Dec_Real_IEEE754_64_little_endian); n_(Acn_Dec_Real_IEEE754_32_big_endian_fp32); n_(Acn_Dec_Real_IEEE754_32_little_endian_fp32);
    static byte set5[] = "AB019", set1[] = "7"; static const byte T[12] = {0x30, 0x39, 0x30, 0x39, 0xFF, 1, 2, 3, 4, 5, 6, 7};
    for (long m : {0, 1, 3, 12}) { std::string q = "(" + std::to_string(m) + ")"; str("Acn_Dec_String_Ascii_FixSize" + q, m, [m](BitStream* s, char* c) { return Acn_Dec_String_Ascii_FixSize(s, m, c); }); for (char z : {'\0', '9', '\xFF'}) str("Acn_Dec_String_Ascii_Null_Terminated[" + std::to_string(z) + "]" + q, m, [m, z](BitStream* s, char* c) { return Acn_Dec_String_Ascii_Null_Terminated(s, m, z, c); });
        for (int k : {1, 2, 4, 10}) str("Acn_Dec_String_Ascii_Null_Terminated_mult[" + std::to_string(k) + "]" + q, m, [m, k](BitStream* s, char* c) { return Acn_Dec_String_Ascii_Null_Terminated_mult(s, m, T, (size_t)k, c); });
        for (I e : {(I)0, (I)1, (I)(m - 1), (I)m, (I)(m + 1), (I)255, (I)100000, (I)-1, (I)lo, (I)hi}) { if (m != 3 && e != (I)m && e != (I)(m == 12 ? 255 : m + 1)) continue; std::string z = "[" + std::to_string(e) + "]" + q; str("Acn_Dec_String_Ascii_External_Field_Determinant" + z, m, [m, e](BitStream* s, char* c) { return Acn_Dec_String_Ascii_External_Field_Determinant(s, m, e, c); }); str("Acn_Dec_IA5String_CharIndex_External_Field_Determinant" + z, m, [m, e](BitStream* s, char* c) { return Acn_Dec_IA5String_CharIndex_External_Field_Determinant(s, m, e, c); });
            str("Acn_Dec_String_CharIndex_External_Field_Determinant5" + z, m, [m, e](BitStream* s, char* c) { return Acn_Dec_String_CharIndex_External_Field_Determinant(s, m, set5, 5, e, c); }, "AB019"); str("Acn_Dec_String_CharIndex_External_Field_Determinant1" + z, m, [m, e](BitStream* s, char* c) { return Acn_Dec_String_CharIndex_External_Field_Determinant(s, m, set1, 1, e, c); }, "7"); }
        str("Acn_Dec_String_CharIndex_FixSize" + q, m, [m](BitStream* s, char* c) { return Acn_Dec_String_CharIndex_FixSize(s, m, set5, 5, c); }, "AB019");
        for (I l : {(I)0, (I)m}) { std::string z = "[" + std::to_string(l) + "]" + q; str("Acn_Dec_String_Ascii_Internal_Field_Determinant" + z, m, [m, l](BitStream* s, char* c) { return Acn_Dec_String_Ascii_Internal_Field_Determinant(s, m, l, c); }); str("Acn_Dec_String_CharIndex_Internal_Field_Determinant" + z, m, [m, l](BitStream* s, char* c) { return Acn_Dec_String_CharIndex_Internal_Field_Determinant(s, m, set5, 5, l, c); }, "AB019"); str("Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant" + z, m, [m, l](BitStream* s, char* c) { return Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(s, m, l, c); }); } }
    // ---- BER: the tag is given; the input starts with it
    for (BerTag t : {(BerTag)0x02, (BerTag)0xBF1F}) { V8 hd; if (t > 255) hd.push_back(0xBF); hd.push_back((uint8_t)t); std::string q = t > 255 ? "[2]" : "[1]";
        Y("BerDecodeTag" + q, BER, [t](ByteStream* s, V8*, int* e) -> int { return BerDecodeTag(s, t, e) ? DEC_OK : DEC_FAIL; }, hd); Y("NextTagMatches" + q, BER, [t](ByteStream* s, V8*, int*) -> int { NextTagMatches(s, t); return DEC_OK; }, hd, true);
        Y("BerDecodeInteger" + q, BER, [t](ByteStream* s, V8* h, int* e) -> int { Obj<I> o; if (!BerDecodeInteger(s, t, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(I)); return DEC_OK; }, hd); Y("BerDecodeBoolean" + q, BER, [t](ByteStream* s, V8* h, int* e) -> int { Obj<flag> o; if (!BerDecodeBoolean(s, t, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(flag)); return DEC_OK; }, hd);
        Y("BerDecodeReal" + q, BER, [t](ByteStream* s, V8* h, int* e) -> int { Obj<asn1Real> o; if (!BerDecodeReal(s, t, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(asn1Real)); return DEC_OK; }, hd); Y("BerDecodeNull" + q, BER, [t](ByteStream* s, V8*, int* e) -> int { return BerDecodeNull(s, t, e) ? DEC_OK : DEC_FAIL; }, hd);
        for (int m : {0, 1, 3, 200}) { std::string z = q + "(" + std::to_string(m) + ")";
            Y("BerDecodeIA5String" + z, BER, [t, m](ByteStream* s, V8* h, int* e) -> int { Buf b(m, 0x5A); if (!BerDecodeIA5String(s, t, (char*)b.p, m, e)) return DEC_FAIL; put(h, b.p, m); return DEC_OK; }, hd);
            Y("BerDecodeOctetString" + z, BER, [t, m](ByteStream* s, V8* h, int* e) -> int { Buf b(m); Obj<int> c; if (!BerDecodeOctetString(s, t, b.p, c.p, m, e)) return DEC_FAIL; if (*c.p < 0 || *c.p > m) return bad("a length outside the bounds was delivered"); put(h, c.p, 4); put(h, b.p, *c.p); return DEC_OK; }, hd);
            Y("BerDecodeBitString" + z, BER, [t, m](ByteStream* s, V8* h, int* e) -> int { Buf b((m + 7) / 8); Obj<int> c; if (!BerDecodeBitString(s, t, b.p, c.p, m, e)) return DEC_FAIL; if (*c.p < 0 || *c.p > m) return bad("a length outside the bounds was delivered"); put(h, c.p, 4); put(h, b.p, *c.p / 8); return DEC_OK; }, hd); } }
    Y("BerDecodeLength", BER, [](ByteStream* s, V8* h, int* e) -> int { Obj<int> o; if (!BerDecodeLength(s, o.p, e)) return DEC_FAIL; put(h, o.p, 4); return DEC_OK; }); Y("BerDecodeTwoZeroes", BER, [](ByteStream* s, V8*, int* e) -> int { return BerDecodeTwoZeroes(s, e) ? DEC_OK : DEC_FAIL; }); Y("LA_Next_Two_Bytes_00", BER, [](ByteStream* s, V8*, int*) -> int { LA_Next_Two_Bytes_00(s); return DEC_OK; }, {}, true);
    // ---- XER
    for (const char* tag : {"a", ""}) { std::string q = *tag ? "" : "[no tag]";
        Y("Xer_DecodeNull" + q, XER, [tag](ByteStream* s, V8*, int* e) -> int { Obj<NullType> o; return Xer_DecodeNull(s, tag, o.p, e) ? DEC_OK : DEC_FAIL; }); Y("Xer_DecodeInteger" + q, XER, [tag](ByteStream* s, V8* h, int* e) -> int { Obj<I> o; if (!Xer_DecodeInteger(s, tag, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(I)); return DEC_OK; }); Y("Xer_DecodePosInteger" + q, XER, [tag](ByteStream* s, V8* h, int* e) -> int { Obj<U> o; if (!Xer_DecodePosInteger(s, tag, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(U)); return DEC_OK; });
        Y("Xer_DecodeBoolean" + q, XER, [tag](ByteStream* s, V8* h, int* e) -> int { Obj<flag> o; if (!Xer_DecodeBoolean(s, tag, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(flag)); return DEC_OK; }); Y("Xer_DecodeReal" + q, XER, [tag](ByteStream* s, V8* h, int* e) -> int { Obj<asn1Real> o; if (!Xer_DecodeReal(s, tag, o.p, e)) return DEC_FAIL; put(h, o.p, sizeof(asn1Real)); return DEC_OK; });
        Y("Xer_DecodeEnumerated" + q, XER, [tag](ByteStream* s, V8* h, int* e) -> int { Buf b(1024, 0x5A); if (!Xer_DecodeEnumerated(s, tag, (char*)b.p, e)) return DEC_FAIL; void* z = memchr(b.p, 0, b.n); if (!z) return bad("the name is not terminated"); put(h, b.p, (uint8_t*)z - b.p); return DEC_OK; });
        for (int m : {0, 1, 3, 200}) { std::string z = q + "(" + std::to_string(m) + ")"; Y("Xer_DecodeString" + z, XER, [tag, m](ByteStream* s, V8* h, int* e) -> int { Buf b(m + 1, 0x5A); if (!Xer_DecodeString(s, tag, (char*)b.p, (size_t)m + 1, e)) return DEC_FAIL; void* p = memchr(b.p, 0, m + 1); if (!p) return bad("the string is not terminated"); put(h, b.p, (uint8_t*)p - b.p); return DEC_OK; });
            Y("Xer_DecodeOctetString" + z, XER, [tag, m](ByteStream* s, V8* h, int* e) -> int { Buf b(m); Obj<int> c; if (!Xer_DecodeOctetString(s, tag, b.p, m, c.p, e)) return DEC_FAIL; if (*c.p < 0 || *c.p > m) return bad("a length outside the bounds was delivered"); put(h, b.p, *c.p); return DEC_OK; });
            Y("Xer_DecodeBitString" + z, XER, [tag, m](ByteStream* s, V8* h, int* e) -> int { Buf b((m + 7) / 8); Obj<int> c; if (!Xer_DecodeBitString(s, tag, b.p, m, c.p, e)) return DEC_FAIL; if (*c.p < 0 || *c.p > m) return bad("a length outside the bounds was delivered"); put(h, b.p, *c.p / 8); return DEC_OK; }); }
        Y("Xer_DecodeObjectIdentifier" + q, XER, [tag](ByteStream* s, V8* h, int* e) -> int { Obj<Asn1ObjectIdentifier> o; if (!Xer_DecodeObjectIdentifier(s, tag, o.p, e)) return DEC_FAIL; if (o.p->nCount < 0 || o.p->nCount > OBJECT_IDENTIFIER_MAX_LENGTH) return bad("a count outside the array"); put(h, o.p->values, sizeof o.p->values[0] * o.p->nCount); return DEC_OK; }); }
    Y("Xer_DecodeComplexElementStart", XER, [](ByteStream* s, V8*, int* e) -> int { return Xer_DecodeComplexElementStart(s, "a", NULL, e) ? DEC_OK : DEC_FAIL; }); Y("Xer_DecodeComplexElementEnd", XER, [](ByteStream* s, V8*, int* e) -> int { return Xer_DecodeComplexElementEnd(s, "a", e) ? DEC_OK : DEC_FAIL; });
    Y("Xer_DecodeComplexElementStart[attributes]", XER, [](ByteStream* s, V8* h, int* e) -> int { Obj<XmlAttributeArray> o; o.p->nCount = 0; if (!Xer_DecodeComplexElementStart(s, "a", o.p, e)) return DEC_FAIL; if (o.p->nCount < 0 || o.p->nCount > (int)(sizeof o.p->attrs / sizeof o.p->attrs[0])) return bad("a count outside the array"); for (int i = 0; i < o.p->nCount; i++) { if (!memchr(o.p->attrs[i].Name, 0, sizeof o.p->attrs[i].Name) || !memchr(o.p->attrs[i].Value, 0, sizeof o.p->attrs[i].Value)) return bad("an attribute is not terminated"); put(h, o.p->attrs[i].Name, strlen(o.p->attrs[i].Name)); } return DEC_OK; });
    Y("Xer_NextEndElementIs", XER, [](ByteStream* s, V8*, int*) -> int { Xer_NextEndElementIs(s, "a"); return DEC_OK; }, {}, true); Y("Xer_NextStartElementIs", XER, [](ByteStream* s, V8*, int*) -> int { Xer_NextStartElementIs(s, "a"); return DEC_OK; }, {}, true);
    Y("Xer_LA_NextElementTag", XER, [](ByteStream* s, V8*, int*) -> int { Buf b(100, 0x5A); if (Xer_LA_NextElementTag(s, (char*)b.p) && !memchr(b.p, 0, 100)) return bad("the name is not terminated"); return DEC_OK; }, {}, true);
}
// one call: result, position in bits, digest of the result
static int call(const Ent& e, const uint8_t* in, size_t n, size_t off, size_t* end, V8* h, bool* changed, bool* noerr) {
    Buf b(n); if (n) memcpy(b.p, in, n); int r; h->clear(); *noerr = false; trans();
    if (e.b) { BitStream s; at(s, b.p, n, off); r = e.b(&s, h); *end = posbits(s); *changed = (n && memcmp(b.p, in, n)) || s.buf != b.p || s.count != (long)n; }
    else { ByteStream s; memset(&s, 0, sizeof s); ByteStream_AttachBuffer(&s, b.p, (long)n); s.currentByte = (long)(off / 8); int err = 0; r = e.y(&s, h, &err); *end = (size_t)s.currentByte * 8; *noerr = e.lay == BER && r == DEC_FAIL && !err; *changed = (n && memcmp(b.p, in, n)) || s.buf != b.p; }
    return r;
}
static void one(const Ent& e, const V8& in, size_t off) {
    size_t end, end2; static V8 h, h2; bool ch, ne; static std::string kk; static const Ent* last; if (last != &e) last = &e, kk = e.name.substr(0, e.name.find_first_of("([")); const char* k = kk.c_str();
    int r = call(e, in.data(), in.size(), off, &end, &h, &ch, &ne);
    if (ch) { viol(k, "input %s changed", hex(in.data(), in.size()).c_str()); return; } if (ne) { viol(k, "input %s at bit %zu: failed without an error code", hex(in.data(), in.size()).c_str(), off); return; }
    if (r == DEC_WRONG) { viol(k, "%s: input %s at bit %zu: %s", e.name.c_str(), hex(in.data(), in.size()).c_str(), off, g_why); return; } if (r == DEC_FAIL) { traced(); return; }
    if (e.peek) { if (end != off) viol(k, "looking ahead moved the position"); else traced(); return; }
    if (end < off || end > in.size() * 8) { viol(k, "%s: input %s at bit %zu: succeeded with the position at bit %zu of %zu", e.name.c_str(), hex(in.data(), in.size()).c_str(), off, end, in.size() * 8); return; }
    if (e.lay == XER && e.name.find("[no tag]") != std::string::npos) { traced(); return; } // untagged content ends where the next tag opens
    // the same bits, then another continuation
    static V8 y; y = in; for (size_t i = end / 8; i < y.size(); i++) y[i] ^= i == end / 8 ? 0xFF >> end % 8 : 0xFF; r = call(e, y.data(), y.size(), off, &end2, &h2, &ch, &ne);
    if (r != DEC_OK || end2 != end || h != h2) { viol(k, "%s: input %s at bit %zu: the result depends on what follows the %zu bits read", e.name.c_str(), hex(in.data(), in.size()).c_str(), off, end - off); return; }
    size_t n = (end + 7) / 8; if (n < y.size()) { r = call(e, y.data(), n, off, &end2, &h2, &ch, &ne); if (r != DEC_OK || end2 != end || h != h2) { viol(k, "%s: input %s at bit %zu: rejected when the input ends after the %zu bits read", e.name.c_str(), hex(in.data(), in.size()).c_str(), off, end - off); return; } }
    traced();
}
static void words(const Ent& e, const char* what, const V8& al, int minl, int maxl, std::vector<size_t> offs, const V8& head = {}) {
    for (size_t off : offs) for (int L = minl; L <= maxl; L++) { uint64_t t = 1; for (int i = 0; i < L; i++) t *= al.size(); for (uint64_t c = 0; c < t; c++) { MC_CASE("%s at bit %lld length %d code %llu", what, off, L, c); static V8 in; static const uint8_t pre[3] = {0xB6, 0xDB, 0x6D}; in.assign(pre, pre + (off + 7) / 8); if (off % 8) in.back() &= (uint8_t)(0xFF << (8 - off % 8)); if (off % 8) in.back() |= (uint8_t)(c * 37) & ((1 << (8 - off % 8)) - 1); in.insert(in.end(), head.begin(), head.end()); uint64_t q = c; for (int i = 0; i < L; i++) { in.push_back(al[q % al.size()]); q /= al.size(); } one(e, in, off); } }
}
static void longer(const Ent& e, const V8& fill, std::vector<size_t> offs, const V8& head = {}) { // any first octet, a run, any last octet of a few
    static const uint8_t last[] = {0, 0x30, 0x39, 0x0A, 0x0D, 0xFF, 0x7F, 0x01}; for (size_t off : offs) for (int f = 0; f < 256; f++) { if (!g_thorough && off % 8 && f % 15) continue; for (size_t u = 0; u < fill.size(); u++) for (int n : {3, 4, 7, 8, 9, 10, 12, 15, 17, 18, 19, 20, 21, 22, 33, 64, 127, 129, 200, 256, 300}) for (size_t z = 0; z < sizeof last; z++) { if (!g_thorough && ((z >= 3 && n > 22) || (n > 10 && f > 41 && f % 16 && f % 16 < 15))) continue; MC_CASE("first octet %x, %d octets of %x, last %x, at bit %lld", f, n, fill[u], last[z], off); V8 in((off + 7) / 8, 0xA5); in.insert(in.end(), head.begin(), head.end()); in.push_back((uint8_t)f); in.insert(in.end(), n, fill[u]); in.push_back(last[z]); one(e, in, off); } }
}
static void frags(const Ent& e, bool bits) { // sequences of fragment headers, each followed by what it announces or by less
    static const int hd[] = {0x00, 0x01, 0x05, 0x7F, 0x8000, 0x8080, 0x8100, 0xBFFF, 0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xFF}; const int K = 15;
    for (size_t off : {(size_t)0, (size_t)3}) for (int L = 1; L <= (g_thorough ? 4 : 3); L++) { int t = 1; for (int i = 0; i < L; i++) t *= K; for (int c = 0; c < t; c++) for (int cut = 0; cut < 3; cut++) { { int q = c; bool skip = false; for (int i = 0; i < L; i++) { int h = hd[q % K]; q /= K; if (i + 1 < L && (h < 0xC1 || h > 0xC4)) skip = true; } if (skip) continue; } MC_CASE("%d length headers, code %d, cut %d, at bit %lld", L, c, cut, off); Bits m = prefix_bits((int)off); int q = c; for (int i = 0; i < L; i++) { int h = hd[q % K]; q /= K; long n; if (h > 0xFF || (h & 0xC0) == 0x80) { m.u((uint64_t)h, 16); n = h & 0x3FFF; } else { m.u((uint64_t)h, 8); n = h < 0x80 ? h : (h & 0x3F) * 16384L; if (n > 81920) n = 81920; } if (i + 1 == L) n = cut == 0 ? n : cut == 1 ? n - 1 : 0; if (!bits) n *= 8; size_t z = m.size(); m.b.resize(z + n); for (long k = 0; k < n; k++) m.b[z + k] = "1001010110010"[k % 13] - 48; } one(e, m.pack(), off); } }
}
static const char* TOK[] = {"<", ">", "/", "a", "=", "\"", " ", "<a>", "</a>", "<a/>", "1", "-", "<!--", "-->", "&", "&amp;", "\n", ".", "\xFF", "\t", "<?", "?>", "'", "true", "<true/>", "E", "+", "9999999999999999999999", "AF0", "x='", "b"};
static void xml(const Ent& e) {
    const int K = sizeof TOK / sizeof *TOK; for (int pre = 0; pre < 3; pre++) for (int L = 0; L <= (g_thorough ? 4 : 3); L++) { int t = 1; for (int i = 0; i < L; i++) t *= K; for (int c = 0; c < t; c++) for (int post = 0; post < 3; post++) { MC_CASE("prefix %d, %d tokens, code %d, suffix %d", pre, L, c, post); std::string x = pre == 1 ? "<a>" : pre == 2 ? "<a " : ""; int q = c; for (int i = 0; i < L; i++) { x += TOK[q % K]; q /= K; } x += post == 1 ? "</a>" : post == 2 ? "></a>" : ""; one(e, V8(x.begin(), x.end()), 0); } }
    for (int pre = 0; pre < 6; pre++) for (int i = 0; i < K; i++) for (int n : {2, 3, 49, 50, 51, 98, 99, 100, 101, 150, 254, 255, 256, 257, 500, 1022, 1023, 1024, 1025, 2000}) for (int post = 0; post < 5; post++) { MC_CASE("prefix %d, token %d repeated %d times, suffix %d", pre, i, n, post); static const char* p0[] = {"", "<a>", "<a ", "<", "<a x=\"", "<!--"}; static const char* p1[] = {"", "</a>", ">", "\"></a>", "-->"}; std::string x = p0[pre]; for (int k = 0; k < n; k++) x += TOK[i]; x += p1[post]; one(e, V8(x.begin(), x.end()), 0); }
}
int main(int argc, char** argv) {
    table(); std::vector<Task> t; V8 all(256); for (int i = 0; i < 256; i++) all[i] = (uint8_t)i;
    static const V8 mid = {0x00, 0x01, 0x02, 0x08, 0x0A, 0x0D, 0x2B, 0x2D, 0x30, 0x39, 0x7F, 0x80, 0x81, 0xFF}, few = {0x00, 0x39, 0x04, 0xFF}, ascii = {'0', '9', '-', '+', 0x00, 0x0D, 0x0A, 0x02, 0x14, 0x99, 0xFF}, ber = {0x00, 0x01, 0x02, 0x03, 0x05, 0x07, 0x7F, 0x80, 0x81, 0x82, 0x84, 0xC0, 0xFF};
    for (size_t i = 0; i < E.size(); i++) { const Ent* e = &E[i]; std::string n = e->name;
        if (e->lay == XER) { t.push_back({n, [=] { words(*e, "octets", all, 0, 2, {0}); xml(*e); }}); continue; }
        bool by = e->lay == BER; t.push_back({n, [=] { bool th = g_thorough; V8 hd = e->head;
            words(*e, "octets", all, 0, 1, by ? std::vector<size_t>{0, 16} : std::vector<size_t>{0, 1, 2, 3, 4, 5, 6, 7, 8, 13}); words(*e, "two octets", all, 2, 2, by ? std::vector<size_t>{0} : th ? std::vector<size_t>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<size_t>{0}, hd);
            words(*e, "octets of the alphabet", by ? ber : e->lay == ASC ? ascii : mid, 3, 3, by ? std::vector<size_t>{0, 16} : std::vector<size_t>{0, 3}, hd); words(*e, "octets of the alphabet", by ? ber : e->lay == ASC ? ascii : mid, 4, th ? 5 : 4, {(size_t)(by ? 0 : 3)}, hd); words(*e, "octets of the small alphabet", few, 5, th ? 9 : 6, by ? std::vector<size_t>{0} : std::vector<size_t>{0, 1}, hd);
            longer(*e, e->lay == ASC ? V8{0x30, 0x39, 0x99, 0x00, 0xFF, 0x35} : V8{0x00, 0xFF, 0x80, 0x55}, by ? std::vector<size_t>{0} : std::vector<size_t>{0, 5}, hd); if (n.find("70000") != n.npos || n.find("6554") != n.npos || n.find("65536") != n.npos || n.find("_fragmentation(0..10)") != n.npos) frags(*e, n.find("BitString") != std::string::npos);
        }}); }
    return run(argc, argv, t);
}
