// C07: ACN strings, boolean/null bit patterns, IEEE 754 reals and alignment of the C runtime.
#include "codec.hpp"
#include <cmath>
typedef asn1SccUint U; typedef asn1SccSint I;
static const byte T1[] = {0}, T2[] = {0x0D, 0x0A}, T3[] = {'A', 'A', 'B'}, T4[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 250};
static const byte* TP[] = {T1, T2, T3, T4}; static const size_t TN[] = {1, 2, 3, 10};
static Bits txt(const std::string& s) { Bits b; for (char c : s) b.u((uint8_t)c, 8); return b; }
enum Kind { A_FIX, A_NULL, A_MULT, A_EXT, A_INT, C_FIX, C_EXT, C_INT, I_EXT, I_INT, NK };
static const char* KN[] = {"ascii_fix", "ascii_null", "ascii_mult", "ascii_ext", "ascii_int", "index_fix", "index_ext", "index_int", "ia5_ext", "ia5_int"};
static byte CS[256]; static int idx(byte c, int n) { for (int i = 0; i < n; i++) if (CS[i] == c) return i; return -1; }
static void charset(int n) { for (int i = 0; i < n; i++) CS[i] = n <= 60 ? (byte)('A' + i) : (byte)(i + 1); }
static void enc(Kind k, BitStream* s, I mn, I mx, int t, int cs, const char* v) {
    switch (k) {
        case A_FIX: Acn_Enc_String_Ascii_FixSize(s, mx, v); break;
        case A_NULL: Acn_Enc_String_Ascii_Null_Terminated(s, mx, (char)t, v); break;
        case A_MULT: Acn_Enc_String_Ascii_Null_Terminated_mult(s, mx, TP[t], TN[t], v); break;
        case A_EXT: Acn_Enc_String_Ascii_External_Field_Determinant(s, mx, v); break;
        case A_INT: Acn_Enc_String_Ascii_Internal_Field_Determinant(s, mx, mn, v); break;
        case C_FIX: Acn_Enc_String_CharIndex_FixSize(s, mx, CS, cs, v); break;
        case C_EXT: Acn_Enc_String_CharIndex_External_Field_Determinant(s, mx, CS, cs, v); break;
        case C_INT: Acn_Enc_String_CharIndex_Internal_Field_Determinant(s, mx, CS, cs, mn, v); break;
        case I_EXT: Acn_Enc_IA5String_CharIndex_External_Field_Determinant(s, mx, v); break;
        default: Acn_Enc_IA5String_CharIndex_Internal_Field_Determinant(s, mx, mn, v); break;
    }
}
static flag dec(Kind k, BitStream* s, I mn, I mx, int t, int cs, I n, char* v) {
    switch (k) {
        case A_FIX: return Acn_Dec_String_Ascii_FixSize(s, mx, v);
        case A_NULL: return Acn_Dec_String_Ascii_Null_Terminated(s, mx, (char)t, v);
        case A_MULT: return Acn_Dec_String_Ascii_Null_Terminated_mult(s, mx, TP[t], TN[t], v);
        case A_EXT: return Acn_Dec_String_Ascii_External_Field_Determinant(s, mx, n, v);
        case A_INT: return Acn_Dec_String_Ascii_Internal_Field_Determinant(s, mx, mn, v);
        case C_FIX: return Acn_Dec_String_CharIndex_FixSize(s, mx, CS, cs, v);
        case C_EXT: return Acn_Dec_String_CharIndex_External_Field_Determinant(s, mx, CS, cs, n, v);
        case C_INT: return Acn_Dec_String_CharIndex_Internal_Field_Determinant(s, mx, CS, cs, mn, v);
        case I_EXT: return Acn_Dec_IA5String_CharIndex_External_Field_Determinant(s, mx, n, v);
        default: return Acn_Dec_IA5String_CharIndex_Internal_Field_Determinant(s, mx, mn, v);
    }
}
static Bits model(Kind k, I mn, I mx, int t, int cs, const std::string& v) {
    Bits b; if (k == A_INT || k == C_INT || k == I_INT) b.u(v.size() - mn, bitlen(mx - mn));
    if (k >= I_EXT) for (char c : v) b.u((uint8_t)c, 7); else if (k >= C_FIX) for (char c : v) b.u(idx((byte)c, cs), bitlen(cs - 1)); else b.cat(txt(v));
    if (k == A_NULL) b.u(t, 8); if (k == A_MULT) b.bytes(TP[t], TN[t]); return b;
}
// exact-size value buffers: max+1 characters, one byte more is an ASAN report
static void one(Kind k, I mn, I mx, int t, int cs, const std::string& v, int off) {
    Buf in(mx + 1); memset(in.p, 0, mx + 1); memcpy(in.p, v.data(), v.size()); Bits b = model(k, mn, mx, t, cs, v);
    if (!chk_enc(KN[k], off, b, [&](BitStream* s) { enc(k, s, mn, mx, t, cs, (const char*)in.p); return true; })) return;
    chk_dec(KN[k], off, b, [&](BitStream* s) { Buf o(mx + 1, 0x7B); if (!dec(k, s, mn, mx, t, cs, v.size(), (char*)o.p)) return (int)DEC_FAIL; return memcmp(o.p, in.p, mx + 1) ? (int)DEC_WRONG : (int)DEC_OK; });
}
static std::vector<std::string> words(const std::string& al, int mn, int mx) { std::vector<std::string> r, cur = {""}; for (int n = 0; n <= mx; n++) { if (n >= mn) r.insert(r.end(), cur.begin(), cur.end()); std::vector<std::string> nx; for (auto& w : cur) for (char c : al) nx.push_back(w + c); cur = nx; } return r; }
static void strings(Kind k, int off) {
    bool fix = k == A_FIX || k == C_FIX; std::vector<int> ts = {0}; if (k == A_NULL) ts = {0, 0x0A, 'Z', 0xFF}; if (k == A_MULT) ts = {0, 1, 2, 3};
    std::vector<int> css = {1}; if (k == C_FIX || k == C_EXT || k == C_INT) css = {1, 2, 3, 4, 5, 7, 8, 9, 26, 60, 64, 65, 100, 127}; int M = g_thorough ? 5 : 4;
    for (int t : ts) for (int cs : css) { charset(cs);
        std::string al; if (k >= C_FIX && k < I_EXT) { al += (char)CS[0]; if (cs > 1) al += (char)CS[cs - 1]; if (cs > 2) al += (char)CS[cs / 2]; } else if (k >= I_EXT) al = std::string("a\x01\x7f"); else al = std::string("aA\r\x7f\x01", 5);
        for (int mx = 0; mx <= M; mx++) for (int mn = fix ? mx : 0; mn <= mx; mn++) { auto ws = words(al, mn, mx);
            for (size_t i = 0; i < ws.size(); i++) { MC_CASE("kind %d size %d..%d terminator %d charset %d word %lld off %d", k, mn, mx, t, cs, (long long)i, off);
                if (k == A_MULT) { std::string x = ws[i] + std::string((const char*)TP[t], TN[t]); if (x.find(std::string((const char*)TP[t], TN[t])) != ws[i].size()) continue; }
                one(k, mn, mx, t, cs, ws[i], off); } }
        for (int mx : {20, 127, 128, 255, 300}) for (int n : {0, 1, mx / 2, mx - 1, mx}) { if (fix && n != mx) continue; MC_CASE("kind %d size 0..%d terminator %d charset %d n %d off %d", k, mx, t, cs, n, off); std::string w; for (int i = 0; i < n; i++) w += k >= C_FIX && k < I_EXT ? (char)CS[(i * 7 + 1) % cs] : (char)('a' + i % 23); one(k, fix ? mx : 0, mx, t, cs, w, off); }
    }
}
// arbitrary input: what the decoder accepts is exactly what the model reads, and never overruns the value
static void arbitrary(Kind k, int off) {
    charset(5); int cs = 5; std::vector<int> ts = {0}; if (k == A_NULL) ts = {0, 'Z'}; if (k == A_MULT) ts = {0, 1, 2};
    std::vector<int> al = {0, 'A', 'B', 'Z', 0x0D, 0x0A, 0xFF}; int L = g_thorough ? 6 : 5;
    for (int t : ts) for (int mx = 0; mx <= 3; mx++) for (int mn = 0; mn <= mx; mn++) for (int ext = -1; ext <= (k == A_EXT || k == C_EXT || k == I_EXT ? mx : -1); ext++) {
        bool ek = k == A_EXT || k == C_EXT || k == I_EXT; if (ek && ext < 0) continue; if ((ek || k == A_NULL || k == A_MULT) && mn) continue; if ((k == A_FIX || k == C_FIX) && mn != mx) continue;
        for (int n = 0; n <= L; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
            for (uint64_t c = 0; c < tot; c++) { MC_CASE("kind %d size %d..%d terminator %d determinant %d input n=%d code=%llu off=%d", k, mn, mx, t, ext, n, c, off);
                Bits full = prefix_bits(off); uint64_t q = c; for (int i = 0; i < n; i++) { full.u(al[q % al.size()], 8); q /= al.size(); } auto v = full.pack(0); size_t nb = v.size() * 8; while (full.size() < nb) full.bit(0);
                // model
                size_t p = off; bool bad = false; auto rd = [&](int w) { uint64_t x = 0; for (int i = 0; i < w; i++) { if (p >= nb) { bad = true; return (uint64_t)0; } x = x << 1 | full.b[p++]; } return x; };
                std::string w; bool acc = true;
                if (k == A_NULL || k == A_MULT) { const byte tb = (byte)t; const byte* tp = k == A_NULL ? &tb : TP[t]; size_t tn = k == A_NULL ? 1 : TN[t];
                    for (;;) { size_t save = p; bool m = true; for (size_t j = 0; j < tn && m; j++) m = rd(8) == tp[j] && !bad; if (m) break; if (bad && p + 0 >= 0) { bad = false; } p = save; char ch = (char)rd(8); if (bad) { acc = false; break; } w += ch; if ((int)w.size() > mx) { acc = false; break; } }
                } else { I cnt = k == A_FIX || k == C_FIX ? mx : ek ? ext : 0; if (!ek && k != A_FIX && k != C_FIX) { cnt = (I)rd(bitlen(mx - mn)) + mn; if (bad || cnt > mx) acc = false; }
                    for (I i = 0; i < cnt && acc; i++) { uint64_t x; if (k >= I_EXT) { x = rd(7); w += (char)x; } else if (k >= C_FIX) { x = rd(3); if (x >= (uint64_t)cs) acc = false; else w += (char)CS[x]; } else { x = rd(8); w += (char)x; } if (bad) acc = false; } }
                Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, off); Buf o(mx + 1, 0x7B); trans(); bool ok = dec(k, &s, mn, mx, t, cs, ext, (char*)o.p);
                if (ok != acc) { viol(KN[k], "decoder %s %s", ok ? "accepted" : "rejected", hex(v.data(), v.size()).c_str()); continue; }
                if (ok && (posbits(s) != p || memcmp(o.p, w.data(), w.size()) || o.p[w.size()])) { viol(KN[k], "decoder read %s differently (consumed %zu of %zu bits)", hex(v.data(), v.size()).c_str(), posbits(s), p); continue; }
                traced(); } } }
}
// determinant values outside the declared size never make the decoder leave the value buffer
static void wild(Kind k) {
    charset(5); for (I mx = 0; mx <= 5; mx++) for (I ext : {(I)mx + 1, (I)mx + 2, (I)100, (I)65536, (I)-1, (I)-2, (I)((U)1 << (WORD_SIZE * 8 - 1)), (I)~((U)1 << (WORD_SIZE * 8 - 1))}) for (int len : {0, 1, 8, 200}) { MC_CASE("kind %d max %lld determinant %lld input of %d bytes", k, (long long)mx, (long long)ext, len); Buf b(len, 0x24); BitStream s; at(s, b.p, len, 0); Buf o(mx + 1, 0x7B); trans(); dec(k, &s, 0, mx, 0, 5, ext, (char*)o.p); bool z = false; for (I i = 0; i <= mx; i++) z |= !o.p[i]; if (!z) viol("unterminated", "value buffer has no terminator after decoding"); else traced(); }
}
static const char PATTERN_DOC[] = "boolean patterns";
static void patterns(int off) {
    (void)PATTERN_DOC;
    for (int n = 1; n <= (g_thorough ? 12 : 9); n++) for (uint64_t pat = 0; pat < (1ull << n); pat++) {
        Bits pb; pb.u(pat, n); auto pp = pb.pack(); Buf P(pp.size()); memcpy(P.p, pp.data(), pp.size());
        Bits nb; nb.u(~pat, n); auto np = nb.pack(); Buf N(np.size()); memcpy(N.p, np.data(), np.size());
        std::vector<uint64_t> in; if (n <= 6 || g_thorough) for (uint64_t i = 0; i < (1ull << n); i++) in.push_back(i); else { in = {pat, ~pat, pat ^ 1, pat ^ (1ull << (n - 1)), pat ^ (1ull << (n / 2)), 0, ~0ull}; }
        for (uint64_t x : in) { x &= (1ull << n) - 1; MC_CASE("pattern n=%d true=%llx input=%llx off=%d", n, pat, x, off); Bits e; e.u(x, n);
            chk_dec("pattern", off, e, [&](BitStream* s) { flag b = 2; if (!BitStream_ReadBitPattern(s, P.p, n, &b)) return (int)DEC_FAIL; return (int)b == (x == pat) ? (int)DEC_OK : (int)DEC_WRONG; });
            chk_dec("null", off, e, [&](BitStream* s) { return BitStream_ReadBitPattern_ignore_value(s, n) ? (int)DEC_OK : (int)DEC_FAIL; });
            uint64_t inv = ~pat & ((1ull << n) - 1);
            if (x == pat || x == inv) chk_dec("truefalse", off, e, [&](BitStream* s) { flag b = 2; if (!BitStream_DecodeTrueFalseBoolean(s, P.p, N.p, n, &b)) return (int)DEC_FAIL; return (int)b == (x == pat) ? (int)DEC_OK : (int)DEC_WRONG; });
            else { Bits full = prefix_bits(off); full.cat(e); auto v = full.pack(1); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, off); flag f = 2; trans(); if (BitStream_DecodeTrueFalseBoolean(&s, P.p, N.p, n, &f)) viol("truefalse", "accepted %llx which is neither the true pattern %llx nor the false pattern", (unsigned long long)x, (unsigned long long)pat); } } }
    for (int n : {13, 16, 17, 24, 31, 32, 33, 64, 65, 100}) for (int flip = -1; flip < n; flip++) { MC_CASE("long pattern n=%d flip=%d off=%d", n, flip, off); Bits pb; for (int i = 0; i < n; i++) pb.bit((i * i + i / 3) % 3 == 1); auto pp = pb.pack(); Buf P(pp.size()); memcpy(P.p, pp.data(), pp.size()); Bits e = pb; if (flip >= 0) e.b[flip] ^= 1;
        chk_dec("pattern", off, e, [&](BitStream* s) { flag b = 2; if (!BitStream_ReadBitPattern(s, P.p, n, &b)) return (int)DEC_FAIL; return (int)b == (flip < 0) ? (int)DEC_OK : (int)DEC_WRONG; });
        chk_dec("null", off, e, [&](BitStream* s) { return BitStream_ReadBitPattern_ignore_value(s, n) ? (int)DEC_OK : (int)DEC_FAIL; }); }
}
template<class T> static bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || memcmp(&a, &b, sizeof a) == 0; }
static void reals(int off) {
    std::vector<uint32_t> f; for (int sg = 0; sg < 2; sg++) for (int e = 0; e < 256; e++) for (uint32_t m : {0u, 1u, 2u, 0x400000u, 0x7FFFFFu, 0x123456u, 0x2AAAAAu, 0x555555u}) f.push_back((uint32_t)sg << 31 | (uint32_t)e << 23 | m);
    for (uint32_t u : f) { MC_CASE("float bits %08x off %d", u, off); float x; memcpy(&x, &u, 4); bool nan = std::isnan(x); asn1Real r = (asn1Real)x;
        for (int little = 0; little < 2; little++) { Bits b; if (little) for (int i = 0; i < 4; i++) b.u(u >> (8 * i) & 255, 8); else b.u(u, 32);
            if (!nan && !chk_enc("ieee32", off, b, [&](BitStream* s) { little ? Acn_Enc_Real_IEEE754_32_little_endian(s, r) : Acn_Enc_Real_IEEE754_32_big_endian(s, r); return true; })) break;
            if (!chk_dec("ieee32", off, b, [&](BitStream* s) { asn1Real y = 7; if (!(little ? Acn_Dec_Real_IEEE754_32_little_endian(s, &y) : Acn_Dec_Real_IEEE754_32_big_endian(s, &y))) return (int)DEC_FAIL; return same(y, r) ? (int)DEC_OK : (int)DEC_WRONG; })) break;
            if (!chk_dec("ieee32f", off, b, [&](BitStream* s) { float y = 7; if (!(little ? Acn_Dec_Real_IEEE754_32_little_endian_fp32(s, &y) : Acn_Dec_Real_IEEE754_32_big_endian_fp32(s, &y))) return (int)DEC_FAIL; return same(y, x) ? (int)DEC_OK : (int)DEC_WRONG; })) break; } }
    for (int sg = 0; sg < 2; sg++) for (int e = 0; e < 2048; e += (g_thorough ? 1 : 3)) for (uint64_t m : {0ull, 1ull, 0x8000000000000ull, 0xFFFFFFFFFFFFFull, 0x123456789ABCDull, 0x10000000ull, 0x0FFFFFFFull, 0x20000000ull}) { uint64_t u = (uint64_t)sg << 63 | (uint64_t)e << 52 | m; MC_CASE("double bits %016llx off %d", u, off); double x; memcpy(&x, &u, 8); if (std::isnan(x)) continue;
#if FP_WORD_SIZE == 8
        asn1Real r = x; { float n = (float)x; uint32_t w; memcpy(&w, &n, 4); Bits b; b.u(w, 32); if (!chk_enc("ieee32round", off, b, [&](BitStream* s) { Acn_Enc_Real_IEEE754_32_big_endian(s, r); return true; })) continue; }
#else
        asn1Real r = (asn1Real)x; if ((double)r != x) continue;
#endif
        for (int little = 0; little < 2; little++) { Bits b; if (little) for (int i = 0; i < 8; i++) b.u(u >> (8 * i) & 255, 8); else b.u(u, 64);
            if (!chk_enc("ieee64", off, b, [&](BitStream* s) { little ? Acn_Enc_Real_IEEE754_64_little_endian(s, r) : Acn_Enc_Real_IEEE754_64_big_endian(s, r); return true; })) break;
            if (!chk_dec("ieee64", off, b, [&](BitStream* s) { asn1Real y = 7; if (!(little ? Acn_Dec_Real_IEEE754_64_little_endian(s, &y) : Acn_Dec_Real_IEEE754_64_big_endian(s, &y))) return (int)DEC_FAIL; return same(y, r) ? (int)DEC_OK : (int)DEC_WRONG; })) break; } }
}
static void align() {
    typedef void (*F)(BitStream*, flag); F fs[] = {Acn_AlignToNextByte, Acn_AlignToNextWord, Acn_AlignToNextDWord}; int un[] = {8, 16, 32};
    for (int k = 0; k < 3; k++) for (int pos = 0; pos <= 80; pos++) for (int tail = 0; tail < 3; tail++) { MC_CASE("align to %d bits at bit %d, %d bits follow", un[k], pos, tail * 9);
        size_t tgt = (pos + un[k] - 1) / un[k] * un[k], tot = tgt + tail * 9; Bits full; for (int i = 0; i < pos; i++) full.bit(i % 3 != 1); while (full.size() < tgt) full.bit(0); for (int i = 0; i < tail * 9; i++) full.bit(1); auto want = full.pack();
        Buf b(want.size()); for (int i = 0; i < pos; i++) setbit(b.p, i, full.b[i]); BitStream s; at(s, b.p, b.n, pos); trans(); fs[k](&s, TRUE); for (int i = 0; i < tail * 9; i++) BitStream_AppendBitOne(&s);
        if (posbits(s) != tot || memcmp(b.p, want.data(), want.size())) { viol("align", "encode reached bit %zu, expected %zu: %s", posbits(s), tot, hex(b.p, b.n).c_str()); continue; }
        BitStream r; at(r, b.p, b.n, pos); trans(); fs[k](&r, FALSE); if (posbits(r) != tgt) { viol("align", "decode reached bit %zu, expected %zu", posbits(r), tgt); continue; }
        bool bad = false; for (int i = 0; i < tail * 9; i++) { flag v = 0; if (!BitStream_ReadBit(&r, &v) || !v) bad = true; } if (bad) { viol("align", "data after alignment is misread"); continue; }
        // any truncation: alignment does not leave the buffer and the next read fails
        for (size_t n = (pos + 7) / 8; n * 8 < tgt; n++) { Buf c(n); memcpy(c.p, want.data(), n); BitStream q; at(q, c.p, n, pos); trans(); fs[k](&q, FALSE); flag v; if (BitStream_ReadBit(&q, &v)) { viol("align", "a read past the end of a %zu byte input succeeded", n); break; } }
        traced(); }
}
int main(int argc, char** argv) {
    std::vector<Task> T;
    for (int off = 0; off < 8; off++) { std::string o = std::to_string(off);
        for (int k = 0; k < NK; k++) { T.push_back({std::string("str-") + KN[k] + o, [=] { strings((Kind)k, off); }}); if (off == 0 || off == 5) T.push_back({std::string("any-") + KN[k] + o, [=] { arbitrary((Kind)k, off); }}); }
        T.push_back({"real" + o, [=] { reals(off); }}); T.push_back({"pattern" + o, [=] { patterns(off); }}); }
    for (int k : {(int)A_EXT, (int)C_EXT, (int)I_EXT}) T.push_back({std::string("wild-") + KN[k], [=] { wild((Kind)k); }});
    T.push_back({"align", [] { align(); }});
    return run(argc, argv, T);
}
