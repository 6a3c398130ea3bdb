// C11: BER primitives of the C runtime.
#include "codec.hpp"
#include "asn1crt_encoding_ber.h"
#include <cmath>
#include <climits>
typedef std::vector<uint8_t> V8; typedef asn1SccSint I; typedef asn1SccUint U;
static void bs(ByteStream& s, uint8_t* p, long n, long pos = 0) { memset(&s, 0, sizeof s); ByteStream_AttachBuffer(&s, p, n); s.currentByte = pos; }
static V8 tagb(BerTag t) { V8 r; int n = 1; while (n < (int)sizeof(BerTag) && t >> (8 * n)) n++; for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(t >> (8 * i))); return r; }
static void len(V8& r, size_t n) { if (n < 128) { r.push_back((uint8_t)n); return; } int k = 1; while (n >> (8 * k)) k++; r.push_back((uint8_t)(0x80 | k)); for (int i = k - 1; i >= 0; i--) r.push_back((uint8_t)(n >> (8 * i))); }
static V8 tlv(BerTag t, const V8& c) { V8 r = tagb(t); len(r, c.size()); r.insert(r.end(), c.begin(), c.end()); return r; }
static V8 ints(__int128 v, int least = 1) { V8 r; int n = least; while (v < -((__int128)1 << (8 * n - 1)) || v >= (__int128)1 << (8 * n - 1)) n++; for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(v >> (8 * i))); return r; }
// the mantissa as it stands in the floating point number (BER does not prescribe an odd one)
static void raw(double d, uint64_t& k, int& e) {
#if FP_WORD_SIZE == 8
    uint64_t w; memcpy(&w, &d, 8); int x = (int)(w >> 52 & 2047); k = (w & 0xFFFFFFFFFFFFFull) | (x ? 1ull << 52 : 0); e = (x ? x : 1) - 1075;
#else
    float f = (float)d; uint32_t w; memcpy(&w, &f, 4); int x = (int)(w >> 23 & 255); k = (w & 0x7FFFFFu) | (x ? 1u << 23 : 0); e = (x ? x : 1) - 150;
#endif
}
static V8 realc(double d, bool odd = true) { if (d == 0) return std::signbit(d) ? V8{0x43} : V8{}; if (std::isinf(d)) return V8{(uint8_t)(d < 0 ? 0x41 : 0x40)}; int e; double m = frexp(fabs(d), &e); uint64_t k = (uint64_t)ldexp(m, 53); e -= 53; while (odd ? !(k & 1) : false) { k >>= 1; e++; } if (!odd) raw(d, k, e); V8 ex = ints(e), r; r.push_back((uint8_t)(0x80 | (d < 0 ? 0x40 : 0) | (ex.size() - 1))); r.insert(r.end(), ex.begin(), ex.end()); int n = 1; while (n < 8 && k >> (8 * n)) n++; for (int i = n - 1; i >= 0; i--) r.push_back((uint8_t)(k >> (8 * i))); return r; }
// encoder: exact bytes at any position, refusal (and no write outside) in every buffer that is too small
template<class E> static bool enc(const char* key, const V8& x, E e) {
    for (long pos : {0, 3}) { Buf b(x.size() + pos, 0xCC); ByteStream s; bs(s, b.p, b.n, pos); int err = 0; trans(); if (!e(&s, &err)) { viol(key, "encoding into a buffer of exactly %zu octets failed", x.size()); return false; }
        if (s.currentByte != (long)b.n || memcmp(b.p + pos, x.data(), x.size())) { viol(key, "wrote %s expected %s (position %ld)", hex(b.p + pos, x.size()).c_str(), hex(x.data(), x.size()).c_str(), s.currentByte - pos); return false; } for (long i = 0; i < pos; i++) if (b.p[i] != 0xCC) { viol(key, "octets before the position changed"); return false; } }
    for (size_t n = 0; n < x.size(); n = (n > 12 && n + 12 < x.size()) ? n * 2 + 12 < x.size() ? n * 2 : x.size() - 8 : n + 1) { Buf b(n, 0); ByteStream s; bs(s, b.p, n); int err = 0; trans(); if (e(&s, &err)) { viol(key, "encoding %zu octets into a buffer of %zu succeeded", x.size(), n); return false; } if (!err) { viol(key, "failed without an error code"); return false; } }
    traced(); return true;
}
// decoder: d(stream) returns DEC_*; exact consumption with anything after, refusal of every truncation
template<class D> static bool dec(const char* key, const V8& x, D d) {
    for (int tail = 0; tail < 3; tail++) { V8 v = x; for (int i = 0; i < tail * 2; i++) v.push_back(tail == 1 ? 0 : 0xFF); for (long pos : {0, 2}) { Buf b(v.size() + pos, 0x77); memcpy(b.p + pos, v.data(), v.size()); ByteStream s; bs(s, b.p, b.n, pos); int err = 0; trans(); int r = d(&s, &err); if (r != DEC_OK) { viol(key, "decoding %s: %s", hex(x.data(), std::min<size_t>(x.size(), 30)).c_str(), r == DEC_FAIL ? "rejected" : "another value"); return false; } if (s.currentByte != pos + (long)x.size()) { viol(key, "decoding consumed %ld of %zu octets", s.currentByte - pos, x.size()); return false; } if (memcmp(b.p + pos, v.data(), v.size())) { viol(key, "input changed"); return false; } } }
    for (size_t n = 0; n < x.size(); n = (n > 12 && n + 12 < x.size()) ? n * 2 + 12 < x.size() ? n * 2 : x.size() - 8 : n + 1) { Buf b(n); memcpy(b.p, x.data(), n); ByteStream s; bs(s, b.p, n); int err = 0; trans(); if (d(&s, &err) != DEC_FAIL) { viol(key, "accepted %zu of %zu octets", n, x.size()); return false; } if (!err) { viol(key, "failed without an error code"); return false; } }
    traced(); return true;
}
static std::vector<BerTag> tags() { std::vector<BerTag> t = {0x01, 0x02, 0x1E, 0x22, 0x30, 0x80, 0xA1, 0xFF, 0x5F21, 0x5F01, 0x1F7F, 0xBF1F, 0xDF8101, 0x3F817F, 0xBF81FF7F, 0x5F818001, 0x0201, 0x010203, 0x01020304}; if (sizeof(BerTag) == 8) { t.push_back((BerTag)0x5F81828304ull); t.push_back((BerTag)0x1F8182838405ull); t.push_back((BerTag)0xBF81828384858607ull); } return t; }
static void tagsT() {
    auto T = tags(); for (size_t i = 0; i < T.size(); i++) { { for (int once = 0; once < 1; once++) { MC_CASE("tag %llx", T[i]); V8 x = tagb(T[i]); enc("tag", x, [&](ByteStream* s, int* e) { return BerEncodeTag(s, T[i], e); }); dec("tag", x, [&](ByteStream* s, int* e) { return BerDecodeTag(s, T[i], e) ? DEC_OK : DEC_FAIL; }); } }
        // every single bit change and every other tag
        std::vector<V8> in; V8 x = tagb(T[i]); for (size_t k = 0; k < x.size() * 8; k++) { V8 y = x; y[k / 8] ^= 0x80 >> k % 8; in.push_back(y); } for (auto u : T) in.push_back(tagb(u)); in.push_back({}); in.push_back({0, 0}); 
        for (size_t k = 0; k < in.size(); k++) for (int tail = 0; tail < 3; tail++) { MC_CASE("expected tag %llx input %lld tail %d", T[i], k, tail); V8 y = in[k]; for (int q = 0; q < tail * 4; q++) y.push_back(tail == 1 ? 0 : x[std::min((size_t)q, x.size() - 1)]); bool m = y.size() >= x.size(); for (size_t q = 0; q < x.size() && m; q++) m = q ? y[q] == x[q] : (y[q] | 0x20) == (x[q] | 0x20);
            Buf b(y.size()); memcpy(b.p, y.data(), y.size()); ByteStream s; bs(s, b.p, b.n); int e = 0; trans(3); bool l = NextTagMatches(&s, T[i]); if (l != m || s.currentByte) { viol("nexttag", "look ahead for the tag is %d, expected %d (position %ld)", l, m, s.currentByte); continue; } bool z = LA_Next_Two_Bytes_00(&s), zm = y.size() >= 2 && !y[0] && !y[1]; if (z != zm || s.currentByte) { viol("twozeros", "look ahead for the end of contents is %d, expected %d", z, zm); continue; } bool r = BerDecodeTag(&s, T[i], &e); if (r != m || (!r && !e) || (r && s.currentByte != (long)x.size())) { viol("tag", "tag %s read as %llx: %d, expected %d", hex(y.data(), y.size()).c_str(), (unsigned long long)T[i], r, m); continue; }
            e = 0; bs(s, b.p, b.n); r = BerDecodeTwoZeroes(&s, &e); if (r != zm || (!r && !e) || (r && s.currentByte != 2)) { viol("twozeros", "end of contents octets: %d, expected %d", r, zm); continue; } traced(); } }
    for (int a = 0; a < 2; a++) { MC_CASE("indefinite length %d", a); V8 x = a ? V8{0, 0} : V8{0x80}; enc("indefinite", x, [&](ByteStream* s, int* e) { return a ? BerEncodeLengthEnd(s, e) : BerEncodeLengthStart(s, e); }); }
}
static bool rdlen(const V8& v, size_t& p, int64_t& n, bool& either) { if (p >= v.size()) return false; int c = v[p++]; if (c < 128) { n = c; return true; } if (c == 128) { n = -1; return true; } if (c == 255) either = true; n = 0; bool big = false; for (int i = 0; i < (c & 127); i++) { if (p >= v.size()) return false; n = n << 8 | v[p++]; if (n > INT_MAX) { big = true; n = (int64_t)INT_MAX + 1; } } if (big) return false; return true; }
static void lengths() {
    static const int al[] = {0, 1, 2, 0x7F, 0x80, 0x81, 0xFF}; int K = 7, L = g_thorough ? 6 : 5;
    for (int f = 0; f < 256; f++) for (int n = 0; n <= ((f & 127) > 8 || f < 128 ? 1 : L); n++) { uint64_t t = 1; for (int i = 0; i < n; i++) t *= K; for (uint64_t c = 0; c < t; c++) { MC_CASE("length octet %x and %d octets code %llu", f, n, c); V8 v = {(uint8_t)f}; uint64_t q = c; for (int i = 0; i < n; i++) { v.push_back((uint8_t)al[q % K]); q /= K; } size_t p = 0; int64_t m = 0; bool ei = false, ok = rdlen(v, p, m, ei); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); ByteStream s; bs(s, b.p, b.n); int e = 0, g = 12345; trans(); bool r = BerDecodeLength(&s, &g, &e); if (r && !ok) viol("length", "length %s accepted as %d", hex(v.data(), v.size()).c_str(), g); else if (!r && ok && !ei) viol("length", "length %s refused", hex(v.data(), v.size()).c_str()); else if (r && (g != m || s.currentByte != (long)p)) viol("length", "length %s read as %d, expected %lld", hex(v.data(), v.size()).c_str(), g, (long long)m); else if (!r && !e) viol("length", "no error code"); else traced(); } }
    for (int k = 9; k < 128; k++) for (int lz = 0; lz <= 5; lz++) { MC_CASE("length of %d octets, last %d not zero", k, lz); V8 v = {(uint8_t)(0x80 | k)}; for (int i = 0; i < k; i++) v.push_back(i >= k - lz ? 0x11 : 0); size_t p = 0; int64_t m = 0; bool ei = false, ok = rdlen(v, p, m, ei); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); ByteStream s; bs(s, b.p, b.n); int e = 0, g = 12345; trans(); bool r = BerDecodeLength(&s, &g, &e); if ((r && !ok) || (!r && ok && !ei) || (r && g != m)) viol("length", "length %s: accepted %d as %d", hex(v.data(), v.size()).c_str(), r, g); else traced(); }
}
static void numbers(BerTag t) {
    std::set<I> vs; int W = WORD_SIZE * 8; for (int s = 0; s < W; s++) for (int d = -2; d <= 2; d++) { U u = ((U)1 << s) + (U)(I)d; vs.insert((I)u); vs.insert((I)(0 - u)); } for (int i = -300; i <= 300; i++) vs.insert(i);
    if (g_thorough) for (int i = -70000; i <= 70000; i++) vs.insert(i);
    for (I v : vs) { MC_CASE("INTEGER %lld tag %llx", v, t); V8 x = tlv(t, ints(v)); if (!enc("integer", x, [&](ByteStream* s, int* e) { return BerEncodeInteger(s, t, v, e); })) continue; dec("integer", x, [&](ByteStream* s, int* e) { I r = 99; if (!BerDecodeInteger(s, t, &r, e)) return DEC_FAIL; return r == v ? DEC_OK : DEC_WRONG; }); }
    for (int v = 0; v < 2; v++) { MC_CASE("BOOLEAN %d tag %llx", v, t); V8 x = tlv(t, {(uint8_t)(v ? 255 : 0)}); enc("boolean", x, [&](ByteStream* s, int* e) { return BerEncodeBoolean(s, t, v, e); }); dec("boolean", x, [&](ByteStream* s, int* e) { flag r = !v; if (!BerDecodeBoolean(s, t, &r, e)) return DEC_FAIL; return r == v ? DEC_OK : DEC_WRONG; }); }
    for (int v = 0; v < 1; v++) { MC_CASE("NULL tag %llx", t); V8 x = tlv(t, {}); enc("null", x, [&](ByteStream* s, int* e) { return BerEncodeNull(s, t, e); }); dec("null", x, [&](ByteStream* s, int* e) { return BerDecodeNull(s, t, e) ? DEC_OK : DEC_FAIL; }); }
    std::vector<double> ds = {0.0, -0.0, INFINITY, -INFINITY}; 
#if FP_WORD_SIZE == 8
    for (int e = -1074; e < 1024; e += g_thorough ? 1 : 5) for (double m : {1.0, 1.5, 1.0 + 0x1p-20, 1.0 + 0x1p-52, 2.0 - 0x1p-52, 1.3}) { double d = ldexp(m, e); if (d == 0 || std::isinf(d)) continue; ds.push_back(d); ds.push_back(-d); }
#else
    for (int e = -149; e < 128; e++) for (double m : {1.0, 1.5, 1.0 + 0x1p-20, 1.0 + 0x1p-23, 2.0 - 0x1p-23}) { double d = (float)ldexp(m, e); if (d == 0 || std::isinf(d)) continue; ds.push_back(d); ds.push_back(-d); }
#endif
    for (size_t i = 0; i < ds.size(); i++) { uint64_t w; memcpy(&w, &ds[i], 8); MC_CASE("REAL bits %llx tag %llx", w, t); asn1Real v = (asn1Real)ds[i]; V8 x = tlv(t, realc(ds[i])); { Buf b(64); ByteStream s; bs(s, b.p, 64); int e = 0; BerEncodeReal(&s, t, v, &e); V8 y = tlv(t, realc(ds[i], false)); if (s.currentByte == (long)y.size() && !memcmp(b.p, y.data(), y.size())) x = y; } if (!enc("real", x, [&](ByteStream* s, int* e) { return BerEncodeReal(s, t, v, e); })) continue; dec("real", x, [&](ByteStream* s, int* e) { asn1Real r = 99; if (!BerDecodeReal(s, t, &r, e)) return DEC_FAIL; return memcmp(&r, &v, sizeof r) == 0 ? DEC_OK : DEC_WRONG; }); }
}
static uint8_t pat(size_t i) { return (uint8_t)(i * 151 + (i >> 8) * 29 + 0x35); }
static void strings(BerTag t) {
    std::set<size_t> ns; for (size_t i = 0; i <= (g_thorough ? 300 : 40); i++) ns.insert(i); for (size_t c : {127, 128, 255, 256, 1000, 65535, 65536}) for (int d = -1; d <= 1; d++) ns.insert(c + d);
    for (size_t n : ns) for (long sl : {0, 1, 7, -1}) { if (sl < 0 && !n) continue; long mx = (long)n + sl; MC_CASE("strings of %lld octets, bound %ld, tag %llx", n, mx, t); Buf d(n); for (size_t i = 0; i < n; i++) d.p[i] = pat(i); V8 x = tlv(t, V8(d.p, d.p + n));
        if (!sl && (!enc("octets", x, [&](ByteStream* s, int* e) { return BerEncodeOctetString(s, t, d.p, (int)n, e); }) || !enc("ia5", x, [&](ByteStream* s, int* e) { return BerEncodeIA5String(s, t, (const char*)d.p, (int)n, e); }))) continue;
        auto od = [&](ByteStream* s, int* e) { Buf o(mx, 0x4D); int c = -7; if (!BerDecodeOctetString(s, t, o.p, &c, (int)mx, e)) return (int)DEC_FAIL; return c == (int)n && !memcmp(o.p, d.p, n) ? (int)DEC_OK : (int)DEC_WRONG; };
        auto id = [&](ByteStream* s, int* e) { Buf o(mx, 0x4D); if (!BerDecodeIA5String(s, t, (char*)o.p, (int)mx, e)) return (int)DEC_FAIL; for (long i = (long)n; i < mx; i++) if (o.p[i]) return (int)DEC_WRONG; return !memcmp(o.p, d.p, n) ? (int)DEC_OK : (int)DEC_WRONG; };
        if (sl >= 0) { if (dec("octets", x, od)) dec("ia5", x, id); continue; }
        for (int k = 0; k < 2; k++) { Buf b(x.size()); memcpy(b.p, x.data(), x.size()); ByteStream s; bs(s, b.p, b.n); int e = 0; trans(); if ((k ? id(&s, &e) : od(&s, &e)) != DEC_FAIL || !e) { viol("bound", "a string of %zu octets accepted with bound %ld", n, mx); break; } } traced(); }
    std::set<size_t> bn; for (size_t i = 0; i <= (g_thorough ? 200 : 41); i++) bn.insert(i); for (size_t c : {1008, 1016, 2032, 2040, 65528}) for (int d = -1; d <= 9; d++) bn.insert(c + d);
    for (size_t n : bn) for (long sl : {0, 1, 3, 8, 13, -1, -8}) { long mx = (long)n + sl; if (mx < 0) continue; MC_CASE("bit string of %lld bits, bound %ld, tag %llx", n, mx, t); size_t nb = (n + 7) / 8; Buf d(nb); for (size_t i = 0; i < nb; i++) d.p[i] = pat(i); V8 c = {(uint8_t)((8 - n % 8) % 8)}; c.insert(c.end(), d.p, d.p + nb); V8 x = tlv(t, c);
        if (!sl) { Buf d2(nb); memcpy(d2.p, d.p, nb); if (!enc("bits", x, [&](ByteStream* s, int* e) { return BerEncodeBitString(s, t, d2.p, (int)n, e); })) continue; }
        auto bd = [&](ByteStream* s, int* e) { Buf o((mx + 7) / 8, 0x4D); int k = -7; if (!BerDecodeBitString(s, t, o.p, &k, (int)mx, e)) return (int)DEC_FAIL; if (k != (int)n) return (int)DEC_WRONG; for (size_t i = 0; i < n; i++) if (getbit(o.p, i) != getbit(d.p, i)) return (int)DEC_WRONG; return (int)DEC_OK; };
        if (sl >= 0) { dec("bits", x, bd); continue; }
        Buf b(x.size()); memcpy(b.p, x.data(), x.size()); ByteStream s; bs(s, b.p, b.n); int e = 0; trans(); if (bd(&s, &e) != DEC_FAIL || !e) viol("bound", "a bit string of %zu bits accepted with bound %ld", n, mx); else traced(); }
}
// every octet string over the alphabet after a right tag: accepted exactly when it is a well formed encoding inside the bound
static void arbitrary(int k) {
    static const int al[] = {0, 1, 2, 3, 4, 7, 8, 9, 0x40, 0x7F, 0x80, 0x81, 0x82, 0xC0, 0xFF}; int K = 15, L = g_thorough ? 6 : 5; const BerTag t = 0x5F21;
    for (int n = 0; n <= L; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= K; for (uint64_t c = 0; c < tot; c++) for (int mx = 0; mx <= (k >= 4 ? 3 : 0); mx++) { MC_CASE("decoder %d input of %d octets code %llu bound %d", k, n, c, mx); V8 v = {0x5F, 0x21}; uint64_t q = c; for (int i = 0; i < n; i++) { v.push_back((uint8_t)al[q % K]); q /= K; }
        size_t p = 2; int64_t m = 0; bool either = false, ok = rdlen(v, p, m, either); if (ok && m < 0) ok = false; if (ok && p - 2 > 1 + (m > 127)) either = true; if (ok && p + m > v.size()) ok = false; V8 con; if (ok) con.assign(v.begin() + p, v.begin() + p + m);
        Buf b(v.size()); memcpy(b.p, v.data(), v.size()); ByteStream s; bs(s, b.p, b.n); int e = 0; bool r = false, same = true; trans();
        if (k == 0) { I g = 5; r = BerDecodeInteger(&s, t, &g, &e); if (ok && con.empty()) ok = false; if (ok && con.size() > WORD_SIZE) { V8 h = con; while (h.size() > 1 && ((h[0] == 0 && h[1] < 128) || (h[0] == 255 && h[1] > 127))) h.erase(h.begin()); if (h.size() <= WORD_SIZE) either = true; if (h.size() > WORD_SIZE) ok = false; } if (ok) { if (con.size() > 1 && ((con[0] == 0 && con[1] < 128) || (con[0] == 255 && con[1] > 127))) either = true; __int128 x = con[0] & 128 ? -1 : 0; for (auto o : con) x = x << 8 | o; same = (I)x == g; } }
        else if (k == 1) { flag g = 0; r = BerDecodeBoolean(&s, t, &g, &e); if (ok && con.size() != 1) ok = false; if (ok) same = g == (con[0] != 0); }
        else if (k == 2) { r = BerDecodeNull(&s, t, &e); if (ok && con.size()) ok = false; }
        else if (k == 3) { asn1Real g = 5; r = BerDecodeReal(&s, t, &g, &e); if (ok && con.size()) { either = true; double x = 0; bool kn = false; if (con.size() == 1 && con[0] >= 0x40 && con[0] <= 0x43) { kn = con[0] != 0x42; x = con[0] == 0x40 ? INFINITY : con[0] == 0x41 ? -INFINITY : -0.0; either = con[0] == 0x42 || p > 3; } else if (con[0] & 0x80 && (con[0] & 3) < 3 && (con[0] & 0x30) == 0 && con.size() > 2u + (con[0] & 3)) { int el = (con[0] & 3) + 1; int64_t ex = con[1] & 128 ? -1 : 0; for (int i = 0; i < el; i++) ex = ex * 256 + con[1 + i]; double mm = 0; for (size_t i = 1 + el; i < con.size(); i++) mm = mm * 256 + con[i]; x = ldexp(mm, (int)ex + (con[0] >> 2 & 3)); if (con[0] & 0x40) x = -x; kn = true; } if (r && kn && !(x == (double)g || (asn1Real)x == g)) same = false; } else if (ok) same = g == 0; if (!ok && p > 3) either = true; }
        else if (k == 4) { Buf o(mx, 9); int g = -1; r = BerDecodeOctetString(&s, t, o.p, &g, mx, &e); if (ok && (int64_t)con.size() > mx) ok = false; if (ok) same = g == (int)con.size() && !memcmp(o.p, con.data(), con.size()); if (r && (g < 0 || g > mx)) same = false; }
        else if (k == 5) { Buf o(mx, 9); r = BerDecodeIA5String(&s, t, (char*)o.p, mx, &e); if (ok && (int64_t)con.size() > mx) ok = false; if (ok) same = !memcmp(o.p, con.data(), con.size()); }
        else { int mb = mx * 5; Buf o((mb + 7) / 8, 9); int g = -1; r = BerDecodeBitString(&s, t, o.p, &g, mb, &e); if (ok && (con.empty() || con[0] > 7 || (con.size() == 1 && con[0]))) ok = false; if (ok) { int nb = (int)(con.size() - 1) * 8 - con[0]; if (nb > mb) ok = false; else { same = g == nb; for (int i = 0; i < nb && same; i++) same = getbit(o.p, i) == getbit(con.data() + 1, i); } } if (r && (g < 0 || g > mb)) same = false; }
        if (r && !ok && !(k == 3 && either)) viol("malformed", "decoder accepted %s", hex(v.data(), v.size()).c_str()); else if (!r && ok && !either) viol("wellformed", "decoder refused %s", hex(v.data(), v.size()).c_str()); else if (r && !same) viol("value", "decoder read another value from %s", hex(v.data(), v.size()).c_str()); else if (r && ok && s.currentByte != (long)(p + m)) viol("value", "decoder consumed %ld octets of %s", s.currentByte, hex(v.data(), v.size()).c_str()); else if (!r && !e) viol("errcode", "refused without an error code"); else traced(); } }
}
int main(int argc, char** argv) {
    std::vector<Task> T; T.push_back({"tags", tagsT}); T.push_back({"lengths", lengths}); for (BerTag t : {(BerTag)2, (BerTag)0xBF21, (BerTag)0xDF8101}) { std::string o = "-" + std::to_string((unsigned long long)t); T.push_back({"numbers" + o, [=] { numbers(t); }}); T.push_back({"strings" + o, [=] { strings(t); }}); }
    for (int k = 0; k < 7; k++) T.push_back({"any-" + std::to_string(k), [=] { arbitrary(k); }}); return run(argc, argv, T);
}
