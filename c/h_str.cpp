// C04: uPER octet strings and bit strings: length determinant, contents, fragmentation above 64K.
#include "codec.hpp"
static uint8_t pat(size_t i) { return (uint8_t)(i * 151 + (i >> 8) * 29 + (i >> 16) * 7 + 0x35); }
static Bits frag(const uint8_t* d, size_t n, bool bits, size_t from = 0) {   // X.691 11.9: unconstrained length with fragmentation
    Bits r; size_t left = n, pos = from;
    auto put = [&](size_t k) { if (bits) { for (size_t i = 0; i < k; i++) r.bit(getbit(d, pos + i)); } else r.bytes(d + pos, k); pos += k; left -= k; };
    while (left >= 16384) { size_t m = left / 16384; if (m > 4) m = 4; r.u(0xC0 + m, 8); put(m * 16384); }
    if (left < 128) r.u(left, 8); else r.u(0x8000 | left, 16);
    put(left); return r;
}
static Bits model(const uint8_t* d, size_t n, size_t mn, size_t mx, bool bits) {
    if (mx >= 65536) return frag(d, n, bits);
    Bits r; if (mn != mx) r.u(n - mn, bitlen(mx - mn)); if (bits) for (size_t i = 0; i < n; i++) r.bit(getbit(d, i)); else r.bytes(d, n); return r;
}
static int dec(BitStream* s, bool bits, size_t mn, size_t mx, const uint8_t* d, size_t n) {
    size_t cap = bits ? (mx + 7) / 8 : mx; Buf out(cap, 0x5C); int cnt = -1;
    if (!(bits ? BitStream_DecodeBitString(s, out.p, &cnt, mn, mx) : BitStream_DecodeOctetString(s, out.p, &cnt, mn, mx))) return DEC_FAIL;
    if (cnt != (int)n) return DEC_WRONG;
    if (!bits) return memcmp(out.p, d, n) ? DEC_WRONG : DEC_OK;
    for (size_t i = 0; i < n; i++) if (getbit(out.p, i) != getbit(d, i)) return DEC_WRONG;
    return DEC_OK;
}
static void one(bool bits, size_t mn, size_t mx, size_t n, int off) {
    size_t nb = bits ? (n + 7) / 8 : n; Buf d(nb); for (size_t i = 0; i < nb; i++) d.p[i] = pat(i); if (bits && n % 8) d.p[nb - 1] |= 0xFF >> (n % 8);
    Bits x = model(d.p, n, mn, mx, bits);
    if (!chk_enc("enc", off, x, [&](BitStream* s) { return bits ? BitStream_EncodeBitString(s, d.p, (int)n, mn, mx) : BitStream_EncodeOctetString(s, d.p, (int)n, mn, mx); })) return;
    chk_dec("dec", off, x, [&](BitStream* s) { return dec(s, bits, mn, mx, d.p, n); });
}
static std::vector<size_t> sizes(size_t mx) {
    std::set<size_t> s; for (size_t c : {0, 1, 8, 127, 128, 255, 256, 16383, 16384, 16384 + 127, 16384 + 128, 16384 + 16383, 32768, 32768 + 128, 49152, 49152 + 5, 65535, 65536, 65536 + 127, 65536 + 16384, 65536 + 32768, 65536 + 49152, 65536 + 49152 + 16383, 131072, 131072 + 16384 + 300, 196608})
        for (int d = -1; d <= 1; d++) if ((long)c + d >= 0 && c + d <= mx) s.insert(c + d);
    s.insert(mx); return std::vector<size_t>(s.begin(), s.end());
}
static void constrained(bool bits, int off) {
    size_t M = g_thorough ? 40 : 20;
    for (size_t mn = 0; mn <= (g_thorough ? 20 : 9); mn++) for (size_t mx = mn; mx <= M; mx++) for (size_t n = mn; n <= mx; n++) { MC_CASE("bits=%d size=%ld..%ld n=%ld offset=%d", bits, mn, mx, n, off); one(bits, mn, mx, n, off); }
    struct P { size_t a, b; } ps[] = {{0, 127}, {0, 128}, {1, 255}, {0, 256}, {100, 300}, {0, 16384}, {0, 65535}, {65535, 65535}, {40000, 65535}, {300, 300}};
    for (auto p : ps) for (size_t n : sizes(p.b)) { if (n < p.a) continue; MC_CASE("bits=%d size=%ld..%ld n=%ld offset=%d", bits, p.a, p.b, n, off); one(bits, p.a, p.b, n, off); }
}
static void fragmented(bool bits, int off) {
    for (size_t mx : {(size_t)65536, (size_t)200000}) for (size_t n : sizes(mx)) { MC_CASE("bits=%d size=0..%ld n=%ld offset=%d", bits, mx, n, off); one(bits, 0, mx, n, off); }
    for (size_t mn : {(size_t)65536, (size_t)131072}) { MC_CASE("bits=%d fixed size %ld offset=%d", bits, mn, off); one(bits, mn, mn, mn, off); }
}
// a length outside the declared bound, or an impossible fragment header, is refused and nothing is written past the bound
static void reject(bool bits, int off) {
    auto go = [&](const Bits& x, size_t mn, size_t mx, const char* what) {
        Bits full = prefix_bits(off); full.cat(x); auto v = full.pack(1); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, off); trans();
        Buf out(bits ? (mx + 7) / 8 : mx, 0); int cnt = 0; if (bits ? BitStream_DecodeBitString(&s, out.p, &cnt, mn, mx) : BitStream_DecodeOctetString(&s, out.p, &cnt, mn, mx)) viol("reject", "%s accepted with count %d (bound %zu..%zu)", what, cnt, mn, mx); else traced(); };
    std::vector<uint8_t> d(200002); for (size_t i = 0; i < d.size(); i++) d[i] = pat(i);
    for (size_t mn = 0; mn < 6; mn++) for (size_t mx = mn + 1; mx < 14; mx++) for (size_t c = mx - mn + 1; c < (1u << bitlen(mx - mn)); c++) { MC_CASE("reject bits=%d size=%ld..%ld coded=%ld off=%d", bits, mn, mx, c, off); Bits x; x.u(c, bitlen(mx - mn)); for (int i = 0; i < 40; i++) x.u(pat(i), 8); go(x, mn, mx, "too long"); }
    for (size_t mx : {(size_t)65536, (size_t)66000, (size_t)100000}) for (size_t n : {mx + 1, mx + 127, mx + 128, mx + 16384, (size_t)131072, (size_t)196608}) { if (n <= mx || n > 200000) continue; MC_CASE("reject bits=%d max=%ld n=%ld off=%d", bits, mx, n, off); go(frag(d.data(), n, bits), 0, mx, "too long"); }
    for (int h = 0xC0; h < 0x100; h++) { if (h >= 0xC1 && h <= 0xC4) continue; MC_CASE("reject bits=%d header=%x off=%d", bits, h, off); Bits x; x.u(h, 8); for (int i = 0; i < 20000; i++) x.u(0, 8); go(x, 0, 70000, "fragment header"); }
}
// the building block used for strings whose length is coded elsewhere
static void nolength(int off) {
    for (size_t n = 0; n <= (g_thorough ? 600 : 80); n++) { MC_CASE("no length n=%ld offset=%d", n, off);
        Buf d(n); for (size_t i = 0; i < n; i++) d.p[i] = pat(i); Bits x; x.bytes(d.p, n);
        if (!chk_enc("raw", off, x, [&](BitStream* s) { return BitStream_EncodeOctetString_no_length(s, d.p, (int)n); })) continue;
        if (!chk_dec("raw", off, x, [&](BitStream* s) { Buf o(n, 0x11); if (!BitStream_DecodeOctetString_no_length(s, o.p, (int)n)) return (int)DEC_FAIL; return memcmp(o.p, d.p, n) ? (int)DEC_WRONG : (int)DEC_OK; })) continue;
        Bits f = frag(d.p, n, false);
        if (!chk_enc("rawfrag", off, f, [&](BitStream* s) { return BitStream_EncodeOctetString_fragmentation(s, d.p, (int)n); })) continue;
        chk_dec("rawfrag", off, f, [&](BitStream* s) { Buf o(n, 0x11); int c = -1; if (!BitStream_DecodeOctetString_fragmentation(s, o.p, &c, n)) return (int)DEC_FAIL; return c != (int)n || memcmp(o.p, d.p, n) ? (int)DEC_WRONG : (int)DEC_OK; });
    }
}
int main(int argc, char** argv) {
    std::vector<Task> t;
    for (int b = 0; b < 2; b++) for (int off = 0; off < 8; off++) {
        std::string k = (b ? "bit" : "octet") + std::to_string(off);
        t.push_back({"fragmented-" + k, [=] { if (g_thorough || off == 0 || off == 3 || off == 7) fragmented(b, off); }});
        t.push_back({"constrained-" + k, [=] { constrained(b, off); }});
        t.push_back({"reject-" + k, [=] { reject(b, off); }});
        if (!b) t.push_back({"nolength-" + k, [=] { nolength(off); }});
    }
    return run(argc, argv, t);
}
