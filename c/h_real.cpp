// C03: uPER REAL.  Encoding: exact value, valid X.690 8.5 binary encoding; decoding: nearest value of every encoding.
#include "codec.hpp"
#include <cmath>
#include <cfloat>
extern "C" flag BitStream_DecodeReal_fp32(BitStream*, float*);
#if FP_WORD_SIZE == 8
typedef uint64_t RB; enum { EB = 11, MB = 52, BIAS = 1023 };
#else
typedef uint32_t RB; enum { EB = 8, MB = 23, BIAS = 127 };
#endif
static asn1Real mk(RB b) { asn1Real r; memcpy(&r, &b, sizeof r); return r; }
static RB raw(asn1Real r) { RB b; memcpy(&b, &r, sizeof b); return b; }

// independent description of a representable number as an X.690 encoding: un-normalised mantissa N (implicit bit included), exponent e
static Bits model(RB b) {
    Bits r; int s = b >> (EB + MB) & 1; int ef = (int)((b >> MB) & ((1u << EB) - 1)); RB m = b & (((RB)1 << MB) - 1);
    if (ef == (1 << EB) - 1) { r.u(1, 8).u(m ? 0x42 : s ? 0x41 : 0x40, 8); return r; }
    if (!ef && !m) { if (s) r.u(1, 8).u(0x43, 8); else r.u(0, 8); return r; }
    uint64_t N; int e;
    if (ef) { N = m | ((RB)1 << MB); e = ef - BIAS - MB; } else { N = m; e = 1 - BIAS - MB; }
    int el = (e >= -128 && e <= 127) ? 1 : 2, ml = (bitlen(N) + 7) / 8;
    r.u(1 + el + ml, 8).u(0x80 | s << 6 | (el - 1), 8).u((uint64_t)(int64_t)e & (el == 1 ? 0xff : 0xffff), el * 8).u(N, ml * 8);
    return r;
}
// does this encoding (as bits) denote exactly the number b?  Any legal un/normalised form is accepted.
static bool denotes(const Bits& x, RB b) {
    auto v = x.pack(); if (x.size() % 8 || v.empty() || v[0] != v.size() - 1) return false;
    Bits m = model(b); auto w = m.pack(); if (v == w) return true;
    if (w.size() <= 2 || v.size() < 4) return false;
    auto parse = [](const std::vector<uint8_t>& z, int& s, uint64_t& N, long& e) {
        uint8_t h = z[1]; if (!(h & 0x80)) return false; s = h >> 6 & 1; int base = h >> 4 & 3, F = h >> 2 & 3, el = (h & 3) + 1; size_t p = 2;
        if (base == 3) return false; if (el == 4) { el = z[p++]; } if (!el || el > 4 || p + el >= z.size()) return false;
        long ex = (int8_t)z[p]; for (int i = 1; i < el; i++) ex = ex * 256 + z[p + i]; p += el; N = 0; for (; p < z.size(); p++) { if (N >> 56) return false; N = N << 8 | z[p]; }
        e = ex * (base == 0 ? 1 : base == 1 ? 3 : 4) + F; while (N && !(N & 1)) { N >>= 1; e++; } return N != 0; };
    int s1, s2; uint64_t n1, n2; long e1, e2;
    return parse(v, s1, n1, e1) && parse(w, s2, n2, e2) && s1 == s2 && n1 == n2 && e1 == e2;
}
static bool same(asn1Real a, asn1Real b) { return (std::isnan(a) && std::isnan(b)) || raw(a) == raw(b); }

static std::vector<RB> mants() {
    std::set<RB> s; RB full = ((RB)1 << MB) - 1;
    for (int i = 0; i < MB; i++) { s.insert((RB)1 << i); s.insert(((RB)1 << i) - 1); s.insert(full & ~(((RB)1 << i) - 1)); s.insert(full ^ ((RB)1 << i)); }
    s.insert(full); s.insert(full / 3); s.insert(full / 3 * 2); s.insert(0);
    return std::vector<RB>(s.begin(), s.end());
}
static void one(RB b, const std::vector<int>& offs) {
    asn1Real v = mk(b); Bits want = model(b);
    for (int off : offs) {
        // encode into an exact-size buffer of the model's length; another legal form of the same number is also accepted
        Bits full = prefix_bits(off); full.cat(want); Buf buf((full.size() + 7) / 8 + 2); auto pre = prefix_bits(off).pack(); memcpy(buf.p, pre.data(), pre.size());
        BitStream s; at(s, buf.p, buf.n, off); trans(); BitStream_EncodeReal(&s, v);
        Bits got; for (size_t i = off; i < posbits(s); i++) got.bit(getbit(buf.p, i));
        if (!denotes(got, b)) { viol("enc", "encoding at bit offset %d is %s, expected %s", off, got.str().c_str(), want.str().c_str()); return; }
        if (!(Bits::of(buf.p, off) == prefix_bits(off))) { viol("enc", "bits before the value changed"); return; }
        if (!chk_dec("dec", off, got, [&](BitStream* s) { asn1Real r; memset(&r, 0xA5, sizeof r); if (!BitStream_DecodeReal(s, &r)) return (int)DEC_FAIL; return same(r, v) ? (int)DEC_OK : (int)DEC_WRONG; })) return;
#if FP_WORD_SIZE == 8
        float f = (float)v;
        if (!chk_dec("dec32", off, got, [&](BitStream* s) { float r = -7; if (!BitStream_DecodeReal_fp32(s, &r)) return (int)DEC_FAIL; return (std::isnan(r) && std::isnan(f)) || (r == f && std::signbit(r) == std::signbit(f)) ? (int)DEC_OK : (int)DEC_WRONG; }, false)) return;
#endif
    }
}
static void roundtrip(int part, int parts) {
    auto M = mants(); std::vector<int> offs = g_thorough ? std::vector<int>{0, 1, 4, 7} : std::vector<int>{0, 3};
    for (int ef = part; ef < (1 << EB); ef += parts) for (RB m : M) for (int s = 0; s < 2; s++) {
        MC_CASE("real sign=%ld exponentfield=%ld mantissa=%ld", s, ef, (int64_t)m);
        one((RB)s << (EB + MB) | (RB)ef << MB | m, offs);
    }
}
#if FP_WORD_SIZE == 4
static void allfloats(int part, int parts) {   // every 32-bit float, thorough only
    for (uint64_t b = part; b < (1ull << 32); b += parts) { MC_CASE("float bits=%ld", (int64_t)b);
        uint32_t x = (uint32_t)b; asn1Real v = mk(x), r = 0; uint8_t t[16]; memset(t, 0, sizeof t); BitStream s; BitStream_Init(&s, t, sizeof t); trans(2); BitStream_EncodeReal(&s, v);
        long n = s.currentByte; at(s, t, n, 0); if (!BitStream_DecodeReal(&s, &r) || !same(v, r)) viol("float", "float %08x does not survive", x); }
}
#endif
// every legal way of writing a number: base, scale factor, exponent length and value, mantissa length and value
static void foreign(int base, int part, int parts) {
    auto ubs = std::vector<uint64_t>{0, 1, 2, 3, 0x7f, 0x80, 0xff};
    std::set<uint64_t> ms(ubs.begin(), ubs.end()); for (int i = 8; i <= 64; i++) { uint64_t t = i == 64 ? ~0ull : (1ull << i) - 1; ms.insert(t); ms.insert(t >> 1); ms.insert((t >> 1) + 1); ms.insert(t & ~0xffull); ms.insert((t >> 1) + 2); }
    std::vector<uint64_t> MV(ms.begin(), ms.end());
    std::set<long> es; for (long c : {0L, 1L, 8L, 127L, 128L, 255L, 256L, 1023L, 1074L, 1100L, 1200L, 32767L, 32768L, 65535L, 65536L, 8388607L, 8388608L, 2147483647L, 149L, 126L, 300L, 400L}) for (int d = -1; d <= 1; d++) { es.insert(c + d); es.insert(-c + d); }
    int idx = 0;
    for (int F = 0; F < 4; F++) for (long e : es) {
        if (idx++ % parts != part) continue;
        for (int el = 1; el <= 5; el++) {
            if (el < 5 ? !(e >= -(1L << (8 * el - 1)) && e < (1L << (8 * el - 1))) : 0) continue;
            for (uint64_t N : MV) for (int extra = 0; extra < 3; extra++) for (int s = 0; s < 2; s++) {
                int ml = (bitlen(N) + 7) / 8; if (extra == 1) ml++; if (!ml) continue;
                Bits x; int lf = el > 3; int len = 1 + lf + el + ml + (extra == 2 ? 1 : 0);
                MC_CASE("foreign base=%ld F=%ld explen=%ld exp=%ld mantissa=%ld mlen=%ld trailing0=%ld sign=%ld", base, F, el, e, (int64_t)N, ml, extra == 2, s);
                x.u(len, 8).u(0x80 | s << 6 | base << 4 | F << 2 | (lf ? 3 : el - 1), 8); if (lf) x.u(el, 8);
                for (int i = el - 1; i >= 0; i--) x.u((uint64_t)((e >> (i * 8 > 63 ? 63 : i * 8)) & 0xff), 8);
                x.u(0, ml > 8 ? (ml - 8) * 8 : 0); x.u(N, (ml > 8 ? 8 : ml) * 8); long sc = e * (base == 0 ? 1 : base == 1 ? 3 : 4) + F;
                if (extra == 2) { x.u(0, 8); sc += 8; }
                if (sc > 200000) sc = 200000; if (sc < -200000) sc = -200000;
                long double ex = ldexpl((long double)N, (int)(sc > 16000 && N ? 16000 : sc));
                if (N && sc < -16000) ex = 0;
                asn1Real want = (asn1Real)ex; if (s) want = -want;
                long double back = std::isinf(want) ? INFINITY : (long double)(s ? -want : want);
                bool exact = N == 0 || (std::isfinite(want) && back == ex) || (std::isinf(want) && sc > 1100);
                chk_dec("foreign", 0, x, [&](BitStream* st) { asn1Real r = 3; if (!BitStream_DecodeReal(st, &r)) return (int)DEC_FAIL;
                    if (same(r, want) || (r == 0 && want == 0)) return (int)DEC_OK;
                    if (!exact && (r == std::nextafter(want, (asn1Real)INFINITY) || r == std::nextafter(want, (asn1Real)-INFINITY))) return (int)DEC_OK;
                    return (int)DEC_WRONG; }, extra == 0 && s == 0);
            }
        }
    }
}
// decimal encodings and reserved special values must not be taken for numbers
static void reject() {
    for (int h = 0; h < 0x80; h++) for (int len = 1; len < 6; len++) { if (h >= 0x40 && h <= 0x43 && len == 1) continue;
        MC_CASE("header=%ld len=%ld", h, len); Bits x; x.u(len, 8).u(h, 8); for (int i = 1; i < len; i++) x.u(0x31, 8);
        auto v = x.pack(); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, 0); asn1Real r; trans(); if (BitStream_DecodeReal(&s, &r)) viol("nonbinary", "accepted as %g", (double)r); }
}
int main(int argc, char** argv) {
    std::vector<Task> t;
    for (int i = 0; i < 16; i++) t.push_back({"rt" + std::to_string(i), [i] { roundtrip(i, 16); }});
    for (int b = 0; b < 3; b++) for (int i = 0; i < 4; i++) t.push_back({"foreign" + std::to_string(b) + "_" + std::to_string(i), [=] { foreign(b, i, 4); }});
    t.push_back({"reject", [] { reject(); }});
#if FP_WORD_SIZE == 4
    for (int i = 0; i < argc; i++) if (!strcmp(argv[i], "--thorough")) { for (int k = 0; k < 32; k++) t.push_back({"all" + std::to_string(k), [k] { allfloats(k, 32); }}); break; }
#endif
    return run(argc, argv, t);
}
