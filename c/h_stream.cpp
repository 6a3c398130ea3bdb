// C09: streaming build: any sequence of items through a buffer of any size == the plain bit list.
#include "codec.hpp"
typedef asn1SccUint U; typedef asn1SccSint I;
static std::vector<uint8_t> g_sent; static const std::vector<uint8_t>* g_in; static size_t g_pos; static int g_calls;
extern "C" void pushData(BitStream* s, void* prm) { g_calls++; if (prm != &g_sent) viol("push", "push function called with a foreign parameter"); g_sent.insert(g_sent.end(), s->buf, s->buf + s->count); memset(s->buf, 0xCD, s->count); }
extern "C" void fetchData(BitStream* s, void* prm) { g_calls++; if (prm != &g_in) viol("fetch", "fetch function called with a foreign parameter"); size_t n = std::min((size_t)s->count, g_in->size() - g_pos); memset(s->buf, 0xEE, s->count); memcpy(s->buf, g_in->data() + g_pos, n); g_pos += n; if (n < (size_t)s->count) s->count = (long)n; }
struct Item { std::string name; int al; std::function<void(Bits&)> model; std::function<bool(BitStream*)> enc; std::function<bool(BitStream*)> dec; };
static uint8_t pat(size_t i) { return (uint8_t)(i * 151 + (i >> 8) * 29 + 0x35); }
static std::vector<Item> items() {
    std::vector<Item> v;
    for (int b = 0; b < 2; b++) v.push_back({b ? "bit1" : "bit0", 0, [=](Bits& m) { m.bit(b); }, [=](BitStream* s) { BitStream_AppendBit(s, b); return true; }, [=](BitStream* s) { flag x = 2; return BitStream_ReadBit(s, &x) && (int)x == b; }});
    for (int n : {3, 7}) v.push_back({"partial" + std::to_string(n), 0, [=](Bits& m) { m.u(0x55, n); }, [=](BitStream* s) { BitStream_AppendPartialByte(s, 0x55 & ((1 << n) - 1), (byte)n, FALSE); return true; }, [=](BitStream* s) { byte x = 0; return BitStream_ReadPartialByte(s, &x, (byte)n) && x == (0x55 & ((1 << n) - 1)); }});
    v.push_back({"byte", 0, [=](Bits& m) { m.u(0xA7, 8); }, [=](BitStream* s) { return BitStream_AppendByte0(s, 0xA7) != 0; }, [=](BitStream* s) { byte x = 0; return BitStream_ReadByte(s, &x) && x == 0xA7; }});
    v.push_back({"byteN", 0, [=](Bits& m) { m.u(0x58 ^ 0xFF, 8); }, [=](BitStream* s) { BitStream_AppendByte(s, 0x58, TRUE); return true; }, [=](BitStream* s) { byte x = 0; return BitStream_ReadByte(s, &x) && x == 0xA7; }});
    for (int n : {13, 37}) v.push_back({"bits" + std::to_string(n), 0, [=](Bits& m) { uint8_t d[8]; for (int i = 0; i < 8; i++) d[i] = pat(i); m.bitsof(d, n); }, [=](BitStream* s) { Buf d((n + 7) / 8); for (int i = 0; i < (n + 7) / 8; i++) d.p[i] = pat(i); BitStream_AppendBits(s, d.p, n); return true; }, [=](BitStream* s) { Buf d((n + 7) / 8); if (!BitStream_ReadBits(s, d.p, n)) return false; for (int i = 0; i < n; i++) { uint8_t q = pat(i / 8); if (getbit(d.p, i) != ((q >> (7 - i % 8)) & 1)) return false; } return true; }});
    for (int one = 0; one < 2; one++) v.push_back({one ? "ones19" : "zeros19", 0, [=](Bits& m) { for (int i = 0; i < 19; i++) m.bit(one); }, [=](BitStream* s) { if (one) BitStream_AppendNBitOne(s, 19); else BitStream_AppendNBitZero(s, 19); return true; }, [=](BitStream* s) { asn1SccUint x = 5; return BitStream_DecodeNonNegativeInteger(s, &x, 19) && x == (one ? 0x7FFFFu : 0u); }});
    v.push_back({"array5", 0, [=](Bits& m) { for (int i = 0; i < 5; i++) m.u(pat(i), 8); }, [=](BitStream* s) { Buf d(5); for (int i = 0; i < 5; i++) d.p[i] = pat(i); return BitStream_AppendByteArray(s, d.p, 5) != 0; }, [=](BitStream* s) { Buf d(5); if (!BitStream_ReadByteArray(s, d.p, 5)) return false; for (int i = 0; i < 5; i++) if (d.p[i] != pat(i)) return false; return true; }});
    for (int n : {1, 4, 23}) v.push_back({"octets" + std::to_string(n), 0, [=](Bits& m) { for (int i = 0; i < n; i++) m.u(pat(i), 8); }, [=](BitStream* s) { Buf d(n); for (int i = 0; i < n; i++) d.p[i] = pat(i); return BitStream_EncodeOctetString_no_length(s, d.p, n) != 0; }, [=](BitStream* s) { Buf d(n); if (!BitStream_DecodeOctetString_no_length(s, d.p, n)) return false; for (int i = 0; i < n; i++) if (d.p[i] != pat(i)) return false; return true; }});
    v.push_back({"octetstring", 0, [=](Bits& m) { m.u(3, 3); for (int i = 0; i < 3; i++) m.u(pat(i), 8); }, [=](BitStream* s) { Buf d(3); for (int i = 0; i < 3; i++) d.p[i] = pat(i); return BitStream_EncodeOctetString(s, d.p, 3, 0, 7) != 0; }, [=](BitStream* s) { Buf d(7); int n = 0; if (!BitStream_DecodeOctetString(s, d.p, &n, 0, 7) || n != 3) return false; for (int i = 0; i < 3; i++) if (d.p[i] != pat(i)) return false; return true; }});
    v.push_back({"bitstring", 0, [=](Bits& m) { m.u(11, 4); for (int i = 0; i < 11; i++) m.bit((pat(i / 8) >> (7 - i % 8)) & 1); }, [=](BitStream* s) { Buf d(2); for (int i = 0; i < 2; i++) d.p[i] = pat(i); return BitStream_EncodeBitString(s, d.p, 11, 0, 15) != 0; }, [=](BitStream* s) { Buf d(2); int n = 0; if (!BitStream_DecodeBitString(s, d.p, &n, 0, 15) || n != 11) return false; for (int i = 0; i < 11; i++) if (getbit(d.p, i) != ((pat(i / 8) >> (7 - i % 8)) & 1)) return false; return true; }});
    v.push_back({"int", 0, [=](Bits& m) { m.u(0x1234 + 5, 17); }, [=](BitStream* s) { BitStream_EncodeConstraintWholeNumber(s, 0x1234, -5, 70000); return true; }, [=](BitStream* s) { I x = 0; return BitStream_DecodeConstraintWholeNumber(s, &x, -5, 70000) && x == 0x1234; }});
    v.push_back({"unconstrained", 0, [=](Bits& m) { m.u(4, 8).u((uint32_t)-123456789, 32); }, [=](BitStream* s) { BitStream_EncodeUnConstraintWholeNumber(s, -123456789); return true; }, [=](BitStream* s) { I x = 0; return BitStream_DecodeUnConstraintWholeNumber(s, &x) && x == -123456789; }});
    v.push_back({"semi", 0, [=](Bits& m) { m.u(3, 8).u(0x123456, 24); }, [=](BitStream* s) { BitStream_EncodeSemiConstraintWholeNumber(s, 0x123456 - 9, -9); return true; }, [=](BitStream* s) { I x = 0; return BitStream_DecodeSemiConstraintWholeNumber(s, &x, -9) && x == 0x123456 - 9; }});
    v.push_back({"real", 0, [=](Bits& m) { m.u(9, 8).u(0x80, 8).u(0xCC, 8).u(0x10000000000001ull, 56); }, [=](BitStream* s) { BitStream_EncodeReal(s, 1.0 + 1.0 / 4503599627370496.0); return true; }, [=](BitStream* s) { asn1Real x = 0; return BitStream_DecodeReal(s, &x) && x == 1.0 + 1.0 / 4503599627370496.0; }});
    v.push_back({"acn12", 0, [=](Bits& m) { m.u(0xABC, 12); }, [=](BitStream* s) { Acn_Enc_Int_PositiveInteger_ConstSize(s, 0xABC, 12); return true; }, [=](BitStream* s) { U x = 0; return Acn_Dec_Int_PositiveInteger_ConstSize(s, &x, 12) && x == 0xABC; }});
    v.push_back({"acnle32", 0, [=](Bits& m) { m.u(0x78, 8).u(0x56, 8).u(0x34, 8).u(0xF2, 8); }, [=](BitStream* s) { Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(s, (I)(int32_t)0xF2345678); return true; }, [=](BitStream* s) { I x = 0; return Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(s, &x) && x == (I)(int32_t)0xF2345678; }});
    v.push_back({"two11", 0, [=](Bits& m) { m.u((uint64_t)-700, 11); }, [=](BitStream* s) { Acn_Enc_Int_TwosComplement_ConstSize(s, -700, 11); return true; }, [=](BitStream* s) { I x = 0; return Acn_Dec_Int_TwosComplement_ConstSize(s, &x, 11) && x == -700; }});
    v.push_back({"bcdnull", 0, [=](Bits& m) { m.u(0x90817F, 24); }, [=](BitStream* s) { Acn_Enc_Int_BCD_VarSize_NullTerminated(s, 90817); return true; }, [=](BitStream* s) { U x = 0; return Acn_Dec_Int_BCD_VarSize_NullTerminated(s, &x) && x == 90817; }});
    v.push_back({"asciinull", 0, [=](Bits& m) { for (char c : {'-', '4', '0', '2'}) m.u(c, 8); m.u(0x0D0A, 16); }, [=](BitStream* s) { static const byte t[2] = {13, 10}; Acn_Enc_SInt_ASCII_VarSize_NullTerminated(s, -402, t, 2); return true; }, [=](BitStream* s) { static const byte t[2] = {13, 10}; I x = 0; return Acn_Dec_SInt_ASCII_VarSize_NullTerminated(s, &x, t, 2) && x == -402; }});
    v.push_back({"string", 0, [=](Bits& m) { m.u('o', 8).u('k', 8).u(0, 8); }, [=](BitStream* s) { char c[6] = "ok"; Acn_Enc_String_Ascii_Null_Terminated(s, 5, 0, c); return true; }, [=](BitStream* s) { char c[6]; return Acn_Dec_String_Ascii_Null_Terminated(s, 5, 0, c) && !strcmp(c, "ok"); }});
    v.push_back({"ia5", 0, [=](Bits& m) { m.u(2, 3).u('o', 7).u('k', 7); }, [=](BitStream* s) { char c[6] = "ok"; Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(s, 5, 0, c); return true; }, [=](BitStream* s) { char c[6]; return Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(s, 5, 0, c) && !strcmp(c, "ok"); }});
    v.push_back({"pattern", 0, [=](Bits& m) { m.u(0x2B5, 10); }, [=](BitStream* s) { static const byte p[2] = {0xAD, 0x40}; BitStream_AppendBits(s, p, 10); return true; }, [=](BitStream* s) { static const byte p[2] = {0xAD, 0x40}; flag b = 0; return BitStream_ReadBitPattern(s, p, 10, &b) && b; }});
    v.push_back({"null9", 0, [=](Bits& m) { m.u(0x1D3, 9); }, [=](BitStream* s) { static const byte p[2] = {0xE9, 0x80}; BitStream_AppendBits(s, p, 9); return true; }, [=](BitStream* s) { return BitStream_ReadBitPattern_ignore_value(s, 9) != 0; }});
    v.push_back({"ieee64", 0, [=](Bits& m) { m.u(0xC004000000000000ull, 64); }, [=](BitStream* s) { Acn_Enc_Real_IEEE754_64_big_endian(s, -2.5); return true; }, [=](BitStream* s) { asn1Real x = 0; return Acn_Dec_Real_IEEE754_64_big_endian(s, &x) && x == (asn1Real)-2.5; }});
    v.push_back({"align8", 8, [=](Bits& m) { while (m.size() % 8) m.bit(0); }, [=](BitStream* s) { Acn_AlignToNextByte(s, TRUE); return true; }, [=](BitStream* s) { Acn_AlignToNextByte(s, FALSE); return true; }});
    v.push_back({"align16", 16, [=](Bits& m) { while (m.size() % 16) m.bit(0); }, [=](BitStream* s) { Acn_AlignToNextWord(s, TRUE); return true; }, [=](BitStream* s) { Acn_AlignToNextWord(s, FALSE); return true; }});
    v.push_back({"align32", 32, [=](Bits& m) { while (m.size() % 32) m.bit(0); }, [=](BitStream* s) { Acn_AlignToNextDWord(s, TRUE); return true; }, [=](BitStream* s) { Acn_AlignToNextDWord(s, FALSE); return true; }});
    v.push_back({"oid", 0, [=](Bits& m) { m.u(5, 8).u(0x2A, 8).u(0x86, 8).u(0x48, 8).u(0x86, 8).u(0x0D, 8); }, [=](BitStream* s) { Asn1ObjectIdentifier o; ObjectIdentifier_Init(&o); o.nCount = 4; o.values[0] = 1; o.values[1] = 2; o.values[2] = 840; o.values[3] = 0x30D; ObjectIdentifier_uper_encode(s, &o); return true; }, [=](BitStream* s) { Asn1ObjectIdentifier o; ObjectIdentifier_Init(&o); return ObjectIdentifier_uper_decode(s, &o) && o.nCount == 4 && o.values[0] == 1 && o.values[1] == 2 && o.values[2] == 840 && o.values[3] == 0x30D; }});
    return v;
}
// alignment to 2 or 4 bytes is relative to the buffer, so it only works in buffers of a multiple of that size: own key
static void seq(const std::vector<Item>& IT, const std::vector<int>& q, int off, int size) {
    const char* key = IT[q.back()].name.c_str(); for (int i : q) if (IT[i].al > 8 && size % (IT[i].al / 8)) key = "align-in-odd-buffer"; Bits m = prefix_bits(off); for (int i : q) IT[i].model(m); auto want = m.pack(); if (want.empty()) return;
    // encode through a buffer of `size` bytes
    g_sent.clear(); Buf b(size, 0xCD); BitStream s; BitStream_Init2(&s, b.p, size, &g_sent, NULL); Bits pre = prefix_bits(off);
    for (int i = 0; i < off; i++) BitStream_AppendBit(&s, pre.b[i]);
    for (int i : q) { trans(); if (!IT[i].enc(&s)) { viol(key, "encoding %s through a %d byte buffer refused", IT[i].name.c_str(), size); return; } }
    std::vector<uint8_t> out = g_sent; size_t tail = (size_t)BitStream_GetLength(&s); if (tail > (size_t)size) { viol(key, "stream position %zu behind the buffer of %d bytes", tail, size); return; } out.insert(out.end(), b.p, b.p + tail);
    if (out != want) { viol(key, "buffer of %d bytes delivered %s, one buffer gives %s", size, hex(out.data(), out.size()).c_str(), hex(want.data(), want.size()).c_str()); return; }
    // decode through a buffer of `size` bytes; first chunk is in the buffer, the rest is fetched
    size_t n0 = std::min((size_t)size, want.size()); Buf r(size, 0xEE); memcpy(r.p, want.data(), n0); g_in = &want; g_pos = n0; BitStream d; BitStream_AttachBuffer2(&d, r.p, (long)n0, NULL, &g_in);
    for (int i = 0; i < off; i++) { flag x; BitStream_ReadBit(&d, &x); }
    for (int i : q) { trans(); if (!IT[i].dec(&d)) { viol(key, "decoding %s through a %d byte buffer fails or gives another value", IT[i].name.c_str(), size); return; } }
    traced();
}
int main(int argc, char** argv) {
    static std::vector<Item> IT = items(); std::vector<Task> T; int N = (int)IT.size();
    for (int a = 0; a < N; a++) {
        T.push_back({"pair-" + IT[a].name, [=] { for (int b = -1; b < N; b++) for (int off = 0; off < 8; off++) for (int size = 1; size <= (g_thorough ? 40 : 33); size++) { MC_CASE("items %d,%d offset %d buffer of %d bytes", a, b, off, size); std::vector<int> q = {a}; if (b >= 0) q.push_back(b); q.push_back(4); seq(IT, q, off, size); } }});
        T.push_back({"triple-" + IT[a].name, [=] { for (int b = 0; b < N; b++) for (int c = 0; c < N; c++) for (int off : g_thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 5}) for (int size : g_thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24} : std::vector<int>{1, 2, 3, 4, 5, 8}) { MC_CASE("items %d,%d,%d offset %d buffer of %d bytes", a, b, c, off, size); seq(IT, {a, b, c}, off, size); } }});
    }
    // long strings: every length around multiples of the buffer size, fragmentation included
    for (int off = 0; off < 8; off++) T.push_back({"long-off" + std::to_string(off), [=] { std::set<int> L; for (int n = 0; n < 70; n++) L.insert(n); if (off % 3 == 0) for (int n : {16383, 16384, 16385, 32768, 65536, 70000}) L.insert(n);
        for (int n : L) for (int kind = 0; kind < 3; kind++) for (int size : {1, 2, 3, 5, 8, 16, 17, 64, 1000}) { if (n > 100 && size < 16) continue; if (kind == 2 && n > 100) continue; MC_CASE("long kind %d length %d offset %d buffer of %d bytes", kind, n, off, size);
            Item it; it.name = kind == 0 ? "fragmented" : kind == 1 ? "fragmentedbits" : "raw"; it.al = 0; std::vector<uint8_t> d(n + 1); for (int i = 0; i <= n; i++) d[i] = pat(i);
            auto frag = [=](Bits& m) { int left = n, pos = 0; auto put = [&](int k) { if (kind == 1) for (int i = 0; i < k; i++) m.bit(getbit(d.data(), pos + i)); else m.bytes(d.data() + pos, k); pos += k; left -= k; }; while (left >= 16384) { int c = std::min(4, left / 16384); m.u(0xC0 + c, 8); put(c * 16384); } if (left < 128) m.u(left, 8); else m.u(0x8000 | left, 16); put(left); };
            it.model = [=](Bits& m) { if (kind == 2) m.bytes(d.data(), n); else frag(m); };
            it.enc = [=](BitStream* s) { Buf x(n); memcpy(x.p, d.data(), n); return kind == 0 ? BitStream_EncodeOctetString(s, x.p, n, 0, 80000) != 0 : kind == 1 ? BitStream_EncodeBitString(s, x.p, n, 0, 80000) != 0 : BitStream_EncodeOctetString_no_length(s, x.p, n) != 0; };
            it.dec = [=](BitStream* s) { Buf x(80000); int c = n; bool ok = kind == 0 ? BitStream_DecodeOctetString(s, x.p, &c, 0, 80000) : kind == 1 ? BitStream_DecodeBitString(s, x.p, &c, 0, 80000) : BitStream_DecodeOctetString_no_length(s, x.p, n); if (!ok || c != n) return false; if (kind == 1) { for (int i = 0; i < n; i++) if (getbit(x.p, i) != getbit(d.data(), i)) return false; return true; } return memcmp(x.p, d.data(), n) == 0; };
            seq({it, IT[4]}, {0, 1}, off, size); } }});
    // a BIT STRING that ends with a bit pattern: the decoder looks ahead, which only works inside one buffer (own key when it straddles two)
    for (int off = 0; off < 8; off++) T.push_back({"lookahead-off" + std::to_string(off), [=] { for (int n = 0; n <= 24; n++) for (int pn : {4, 8, 11, 16}) for (int size = 1; size <= 12; size++) { MC_CASE("bit string of %d bits ended by a pattern of %d bits, offset %d, buffer of %d bytes", n, pn, off, size);
        static const byte PT[4][2] = {{0xF0, 0}, {0xFF, 0}, {0xFF, 0xE0}, {0xFF, 0xFF}}; const byte* pt = PT[pn == 4 ? 0 : pn == 8 ? 1 : pn == 11 ? 2 : 3]; bool straddle = false; size_t total = (size_t)(off + n + pn + 7) / 8;
        for (int i = 0; i <= n; i++) { size_t p = off + i, chunk = p / 8 / size, end = std::min(total, (chunk + 1) * size) * 8; if (p + pn > end) straddle = true; }
        Item it; it.name = straddle ? "lookahead-across-buffers" : "bitsnull"; it.al = 0; it.model = [=](Bits& m) { for (int i = 0; i < n; i++) m.bit((i % 3 == 1 && i < n - 1)); m.u((1u << pn) - 1, pn); };
        it.enc = [=](BitStream* s) { for (int i = 0; i < n; i++) BitStream_AppendBit(s, (i % 3 == 1 && i < n - 1)); BitStream_AppendBits(s, pt, pn); return true; };
        it.dec = [=](BitStream* s) { Buf d(3); int k = -1; if (!BitStream_ReadBits_nullterminated(s, pt, pn, d.p, 24, &k) || k != n) return false; for (int i = 0; i < n; i++) if (getbit(d.p, i) != ((i % 3 == 1 && i < n - 1))) return false; return true; };
        seq({it, IT[4]}, {0}, off, size); } }});
    return run(argc, argv, T);
}
