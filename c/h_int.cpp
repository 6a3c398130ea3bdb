// C01: uPER whole-number encodings (X.691 10.3-10.8, 12.2) of the C runtime
#include "codec.hpp"
#include <algorithm>
typedef asn1SccUint U; typedef asn1SccSint I;
static const int WB = WORD_SIZE * 8;
static U umax() { return (U)~(U)0; }
static I smin() { return (I)((U)1 << (WB - 1)); }
static I smax() { return (I)~((U)1 << (WB - 1)); }

// X.691: minimum bits for range; value-min as non-negative-binary-integer
static Bits ref_con(U v, U min, U max) { Bits b; U r = max - min; b.u((uint64_t)(U)(v - min), bitlen(r)); return b; }
static int ulen(uint64_t v) { int n = 1; while (v >>= 8) n++; return n; }
static Bits ref_semi(U v, U min) { U d = v - min; Bits b; b.u(ulen(d), 8); b.u(d, 8 * ulen(d)); return b; }
static int slen(int64_t v) { int n = 1; while (n < 8 && !(v >= -((int64_t)1 << (8 * n - 1)) && v < ((int64_t)1 << (8 * n - 1)))) n++; return n; }
static Bits ref_unc(int64_t v) { Bits b; int n = slen(v); b.u(n, 8); b.u((uint64_t)v, 8 * n); return b; }

static std::vector<U> UB() { std::vector<U> r; for (auto v : ubound(WB)) r.push_back((U)v); return r; }
static std::vector<I> SB() { std::vector<I> r; for (auto v : sbound(WB)) r.push_back((I)v); return r; }

// values inside [0,r]: everything when small, else boundaries
static std::vector<U> inside(U r, bool dense) {
    std::set<U> s; if (r <= (dense ? 600u : 40u)) { for (U i = 0; i <= r; i++) s.insert(i); }
    else { for (int k = 0; k <= WB; k++) for (int d = -1; d <= 1; d++) { U v = (k >= WB ? 0 : (U)1 << k) + (U)(I)d; if (v <= r) s.insert(v); } s.insert(r); s.insert(r - 1); s.insert(r / 2); s.insert(r / 3); s.insert(r - r / 3); s.insert((U)0xA5A5A5A5A5A5A5A5ull % r); s.insert((U)0x0123456789ABCDEFull % r); }
    return std::vector<U>(s.begin(), s.end());
}
static void one_signed(const char* key, int off, I v, I min, I max, bool dec) {
    Bits e = ref_con((U)v, (U)min, (U)max);
    if (!chk_enc(key, off, e, [&](BitStream* s) { BitStream_EncodeConstraintWholeNumber(s, v, min, max); return true; })) return;
    if (dec) chk_dec(key, off, e, [&](BitStream* s) -> int { I x = 77; if (!BitStream_DecodeConstraintWholeNumber(s, &x, min, max)) return DEC_FAIL; return x == v ? DEC_OK : DEC_WRONG; });
#define NARROW(T, F, LO, HI) if (min >= LO && max <= HI) chk_dec(key, off, e, [&](BitStream* s) -> int { T x = 77; if (!F(s, &x, (T)min, (T)max)) return DEC_FAIL; return (I)x == v ? DEC_OK : DEC_WRONG; });
    if (dec) { NARROW(int8_t, BitStream_DecodeConstraintWholeNumberInt8, -128, 127) NARROW(int16_t, BitStream_DecodeConstraintWholeNumberInt16, -32768, 32767) NARROW(int32_t, BitStream_DecodeConstraintWholeNumberInt32, -2147483648LL, 2147483647LL) }
}
static void one_unsigned(const char* key, int off, U v, U min, U max) {
    Bits e = ref_con(v, min, max);
    if (!chk_enc(key, off, e, [&](BitStream* s) { BitStream_EncodeConstraintPosWholeNumber(s, v, min, max); return true; })) return;
    chk_dec(key, off, e, [&](BitStream* s) -> int { U x = 77; if (!BitStream_DecodeConstraintPosWholeNumber(s, &x, min, max)) return DEC_FAIL; return x == v ? DEC_OK : DEC_WRONG; });
#define NARROWU(T, F, HI) if (max <= HI) chk_dec(key, off, e, [&](BitStream* s) -> int { T x = 77; if (!F(s, &x, (T)min, (T)max)) return DEC_FAIL; return (U)x == v ? DEC_OK : DEC_WRONG; });
    NARROWU(uint8_t, BitStream_DecodeConstraintPosWholeNumberUInt8, 255u) NARROWU(uint16_t, BitStream_DecodeConstraintPosWholeNumberUInt16, 65535u) NARROWU(uint32_t, BitStream_DecodeConstraintPosWholeNumberUInt32, 4294967295u)
}
// codes that stand for no value of the range must be rejected, by every decoder
static void reject(int off, U code, I min, I max, bool sgn) {
    U r = (U)max - (U)min; Bits e; e.u(code, bitlen(r)); Bits full = prefix_bits(off); full.cat(e); auto v = full.pack(1); Buf b(v.size()); memcpy(b.p, v.data(), v.size());
    auto go = [&](const char* w, auto f) { BitStream s; at(s, b.p, b.n, off); trans(); if (f(&s)) viol("reject", "%s at offset %d accepted code %llu outside the range", w, off, (unsigned long long)code); };
    if (sgn) {
        go("DecodeConstraintWholeNumber", [&](BitStream* s) { I x; return BitStream_DecodeConstraintWholeNumber(s, &x, min, max); });
        if (min >= -128 && max <= 127) go("..Int8", [&](BitStream* s) { int8_t x; return BitStream_DecodeConstraintWholeNumberInt8(s, &x, (int8_t)min, (int8_t)max); });
        if (min >= -32768 && max <= 32767) go("..Int16", [&](BitStream* s) { int16_t x; return BitStream_DecodeConstraintWholeNumberInt16(s, &x, (int16_t)min, (int16_t)max); });
        if (min >= -2147483648LL && max <= 2147483647LL) go("..Int32", [&](BitStream* s) { int32_t x; return BitStream_DecodeConstraintWholeNumberInt32(s, &x, (int32_t)min, (int32_t)max); });
    } else {
        U mi = (U)min, ma = (U)max;
        go("DecodeConstraintPosWholeNumber", [&](BitStream* s) { U x; return BitStream_DecodeConstraintPosWholeNumber(s, &x, mi, ma); });
        if (ma <= 255u) go("..UInt8", [&](BitStream* s) { uint8_t x; return BitStream_DecodeConstraintPosWholeNumberUInt8(s, &x, (uint8_t)mi, (uint8_t)ma); });
        if (ma <= 65535u) go("..UInt16", [&](BitStream* s) { uint16_t x; return BitStream_DecodeConstraintPosWholeNumberUInt16(s, &x, (uint16_t)mi, (uint16_t)ma); });
        if (ma <= 4294967295u) go("..UInt32", [&](BitStream* s) { uint32_t x; return BitStream_DecodeConstraintPosWholeNumberUInt32(s, &x, (uint32_t)mi, (uint32_t)ma); });
    }
}
int main(int argc, char** argv) {
    std::vector<Task> T;
    // 1. small ranges completely: every (min, range<=17/34), every value, every offset
    for (int off = 0; off < 8; off++) T.push_back({"con-small-off" + std::to_string(off), [=] {
        int R = g_thorough ? 70 : 20;
        for (int r = 0; r <= R; r++) for (I min : {(I)0, (I)1, (I)-1, (I)-3, (I)-128, (I)(127 - r), (I)-32768, (I)(32767 - r), smin(), (I)(smin() + 1), (I)(smax() - r), (I)1000, (I)(-r / 2)}) for (int d = 0; d <= r; d++) {
            I max = (I)((U)min + r), v = (I)((U)min + d);
            { if (begin_case("signed v=%d in (%d..%d) off=%d", v, min, max, off)) one_signed("con", off, v, min, max, true); }
            U um = (U)min; if ((U)(um + r) >= um) { if (begin_case("unsigned v=%u in (%u..%u) off=%d", um + d, um, um + r, off)) one_unsigned("conpos", off, um + d, um, um + r); }
        } }});
    // 2. boundary ranges x boundary values
    for (int part = 0; part < 16; part++) T.push_back({"con-bound-" + std::to_string(part), [=] {
        auto ranges = UB(); for (size_t i = 0; i < ranges.size(); i++) { if ((int)(i % 16) != part) continue; U r = ranges[i];
            std::set<U> mins; for (U m : {(U)0, (U)1, (U)7, (U)(umax() - r), (U)smin(), (U)smax(), (U)(U)-1, (U)(U)-128, (U)(0 - r / 2), (U)(smax() - r), (U)((U)smin() - r - 1), (U)(0 - r)}) mins.insert(m);
            for (U m : mins) for (U d : inside(r, g_thorough)) {
                bool so = (I)(m + r) >= (I)m, uo = m + r >= m;
                for (int k = 0; k < (g_thorough ? 8 : 2); k++) { int off = g_thorough ? k : (int)((d * 5 + i * 3 + k * 4) % 8);
                    if (so) { if (begin_case("signed v=%d in (%d..%d) off=%d", (I)(m + d), (I)m, (I)(m + r), off)) one_signed("con", off, (I)(m + d), (I)m, (I)(m + r), true); }
                    if (uo) { if (begin_case("unsigned v=%u in (%u..%u) off=%d", m + d, m, m + r, off)) one_unsigned("conpos", off, m + d, m, m + r); } } } } }});
    // 3. out-of-range codes
    for (int part = 0; part < 4; part++) T.push_back({"con-reject-" + std::to_string(part), [=] {
        auto ranges = UB(); std::set<U> rs(ranges.begin(), ranges.end()); for (U r = 1; r <= 70; r++) rs.insert(r); size_t i = 0;
        for (U r : rs) { if ((int)(i++ % 4) != part || r == 0) continue; int n = bitlen(r); U top = n >= WB ? umax() : ((U)1 << n) - 1; if (top == r) continue;
            std::set<U> codes; if (top - r <= 40) for (U c = r + 1; c <= top && c; c++) codes.insert(c); else for (int k = 0; k < WB; k++) { U c = r + 1 + (((U)1 << k) - 1); if (c > r && c <= top) codes.insert(c); } codes.insert(r + 1); codes.insert(top);
            for (U m : {(U)0, (U)1, (U)(umax() - r), (U)smin(), (U)-1, (U)-128, (U)(255 - r), (U)(127 - r), (U)(65535 - r), (U)(smax() - r)}) for (U c : codes) for (int off : {0, 3, 7}) {
                if ((I)(m + r) >= (I)m) { if (begin_case("signed code=%u in (%d..%d) off=%d", c, (I)m, (I)(m + r), off)) reject(off, c, (I)m, (I)(m + r), true); }
                if (m + r >= m) { if (begin_case("unsigned code=%u in (%u..%u) off=%d", c, m, m + r, off)) reject(off, c, (I)m, (I)(m + r), false); } } } }});
    // 4. unconstrained / semi-constrained
    for (int off = 0; off < 8; off++) T.push_back({"unc-off" + std::to_string(off), [=] {
        std::set<I> vs; for (I v : SB()) vs.insert(v); for (I v = -66000; v <= 66000; v += (v > -700 && v < 700) || g_thorough ? 1 : 37) vs.insert(v);
        for (I v : vs) { MC_CASE("unconstrained v=%d off=%d", v, off); Bits e = ref_unc(v);
            const char* key = v >= 0 ? "unc" : "unc-neg";
            if (chk_enc(key, off, e, [&](BitStream* s) { BitStream_EncodeUnConstraintWholeNumber(s, v); return true; }))
                chk_dec(key, off, e, [&](BitStream* s) -> int { I x = 77; if (!BitStream_DecodeUnConstraintWholeNumber(s, &x)) return DEC_FAIL; return x == v ? DEC_OK : DEC_WRONG; }); }
        std::vector<I> mins; for (I m : {(I)0, (I)1, (I)-1, (I)255, (I)-256, (I)70000, smin(), (I)(smin() + 1), (I)(smax() - 1), smax()}) mins.push_back(m);
        for (I m : mins) for (U d : inside(umax(), false)) { 
            if ((I)((U)m + d) >= m) { if (begin_case("semi signed v=%d min=%d off=%d", (I)((U)m + d), m, off)) { I v = (I)((U)m + d); Bits e = ref_semi((U)v, (U)m);
                if (chk_enc("semi", off, e, [&](BitStream* s) { BitStream_EncodeSemiConstraintWholeNumber(s, v, m); return true; }))
                    chk_dec("semi", off, e, [&](BitStream* s) -> int { I x = 77; if (!BitStream_DecodeSemiConstraintWholeNumber(s, &x, m)) return DEC_FAIL; return x == v ? DEC_OK : DEC_WRONG; }); } }
            if ((U)m + d >= (U)m) { if (begin_case("semi unsigned v=%u min=%u off=%d", (U)m + d, (U)m, off)) { U v = (U)m + d; Bits e = ref_semi(v, (U)m);
                if (chk_enc("semipos", off, e, [&](BitStream* s) { BitStream_EncodeSemiConstraintPosWholeNumber(s, v, (U)m); return true; }))
                    chk_dec("semipos", off, e, [&](BitStream* s) -> int { U x = 77; if (!BitStream_DecodeSemiConstraintPosWholeNumber(s, &x, (U)m)) return DEC_FAIL; return x == v ? DEC_OK : DEC_WRONG; }); } } } }});
    // 5. non-minimal and oversized length octets of (semi-)unconstrained numbers
    T.push_back({"unc-noncanon", [=] {
        for (int n = 0; n <= 255; n++) for (U v : {(U)0, (U)1, (U)0x7f, (U)0x80, (U)0xffff, umax(), (U)smin()}) for (int off : {0, 1, 4, 7}) for (int kind = 0; kind < 3; kind++) {
            MC_CASE("length octet %d value %x kind=%d off=%d", n, v, kind, off);
            Bits full = prefix_bits(off); full.u(n, 8); I sv = (I)v; for (int i = n - 1; i >= 0; i--) full.u(i >= WORD_SIZE ? (kind == 0 && sv < 0 ? 0xff : 0) : (v >> (8 * i)) & 0xff, 8);
            auto p = full.pack(0); Buf b(p.size()); memcpy(b.p, p.data(), p.size()); BitStream s; at(s, b.p, b.n, off); trans();
            U tr = n >= WORD_SIZE ? v : n == 0 ? 0 : v & (((U)1 << (8 * n)) - 1); I st = n >= WORD_SIZE ? sv : n == 0 ? 0 : (I)(tr | ((tr >> (8 * n - 1)) & 1 ? ~(((U)1 << (8 * n)) - 1) : 0));
            if (kind == 0) { I x = 0; bool ok = BitStream_DecodeUnConstraintWholeNumber(&s, &x); if (n == 0) continue; if (n > WORD_SIZE ? ok : (!ok || x != st)) viol("noncanon", "unconstrained: accepted=%d value=%lld expected %lld", ok, (long long)x, (long long)st); else if (ok && posbits(s) != full.size()) viol("noncanon", "consumed %zu of %zu", posbits(s), full.size()); }
            if (kind == 1) { U x = 0; bool ok = BitStream_DecodeSemiConstraintPosWholeNumber(&s, &x, 0); if (n == 0) continue; if (n > WORD_SIZE ? ok : (!ok || x != tr)) viol("noncanon", "semi pos: accepted=%d value=%llu", ok, (unsigned long long)x); }
            if (kind == 2) { I x = 0; bool ok = BitStream_DecodeSemiConstraintWholeNumber(&s, &x, 0); if (n == 0) continue; if (n > WORD_SIZE || tr > ((U)-1) / 2 ? ok : (!ok || (U)x != tr)) viol("noncanon", "semi: accepted=%d value=%lld", ok, (long long)x); } } }});
    // 6. raw non-negative-binary-integer and helpers
    T.push_back({"nonneg", [=] {
        for (U v : UB()) for (int off = 0; off < 8; off++) { MC_CASE("nonneg v=%u off=%d", v, off); int n = bitlen(v); Bits e; e.u(v, n);
            chk_enc("nonneg", off, e, [&](BitStream* s) { BitStream_EncodeNonNegativeInteger(s, v); return true; });
            for (int extra : {0, 1, 5, 8}) { if (n + extra > WB) continue; Bits x; x.u(v, n + extra); chk_dec("nonneg", off, x, [&](BitStream* s) -> int { U y; if (!BitStream_DecodeNonNegativeInteger(s, &y, n + extra)) return DEC_FAIL; return y == v ? DEC_OK : DEC_WRONG; }); }
            trans(3); if (GetNumberOfBitsForNonNegativeInteger(v) != n) viol("helper", "GetNumberOfBits(%llu)", (unsigned long long)v);
            if (GetLengthInBytesOfUInt(v) != ulen(v)) viol("helper", "GetLengthInBytesOfUInt(%llu)=%d", (unsigned long long)v, GetLengthInBytesOfUInt(v));
            if (GetLengthInBytesOfSInt((I)v) != slen((I)v)) viol("helper", "GetLengthInBytesOfSInt(%lld)=%d", (long long)(I)v, GetLengthInBytesOfSInt((I)v));
            for (int nb = 1; nb <= WORD_SIZE; nb++) { U m = nb == WORD_SIZE ? umax() : ((U)1 << (8 * nb)) - 1; U t = v & m; I want = (I)((t >> (8 * nb - 1)) & 1 ? t | ~m : t); trans(); if (uint2int(t, nb) != want) viol("helper", "uint2int(%llu,%d)=%lld", (unsigned long long)t, nb, (long long)uint2int(t, nb)); }
            if (int2uint((I)v) != v) viol("helper", "int2uint(%lld)", (long long)(I)v); } }});
    return run(argc, argv, T);
}
