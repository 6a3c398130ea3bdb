// C02: the C bit stream is a list of bits: every sequence of append / read operations
#include "codec.hpp"
static const uint8_t PAT[16] = {0xB4, 0x1D, 0xE7, 0x52, 0x8F, 0x3A, 0xC6, 0x09, 0x71, 0xFE, 0x00, 0xA5, 0x5A, 0xFF, 0x13, 0x9C};
struct AOp { const char* name; int n; uint64_t v; int neg; };
static std::vector<AOp> aops(int level) {
    std::vector<AOp> r;
    r.push_back({"AppendBit", 1, 0, 0}); r.push_back({"AppendBit", 1, 1, 0}); r.push_back({"AppendBitOne", 1, 1, 0}); r.push_back({"AppendBitZero", 1, 0, 0});
    for (int n = 1; n <= 7; n++) { r.push_back({"AppendPartialByte", n, (uint64_t)(0x55 & ((1 << n) - 1)), 0}); if (level || n % 3 == 0) { r.push_back({"AppendPartialByte", n, (uint64_t)((1 << n) - 1), 0}); r.push_back({"AppendPartialByte", n, (uint64_t)(0x6A & ((1 << n) - 1)), 1}); r.push_back({"AppendPartialByte", n, 0, 0}); } }
    r.push_back({"AppendByte", 8, 0xA7, 0}); r.push_back({"AppendByte", 8, 0x58, 1}); r.push_back({"AppendByte0", 8, 0xC3, 0}); r.push_back({"AppendByte", 8, 0, 0}); r.push_back({"AppendByte0", 8, 0, 0});
    for (int n : {0, 1, 3, 7, 8, 9, 16, 29}) { r.push_back({"AppendNBitZero", n, 0, 0}); if (level || n % 2) r.push_back({"AppendNBitOne", n, 0, 0}); }
    for (int n : {0, 1, 5, 8, 9, 15, 16, 23, 33}) if (level || n % 3 != 2) r.push_back({"AppendBits", n, 0, 0});
    for (int n = 0; n <= 5; n++) if (level || n != 4) r.push_back({"AppendByteArray", n, 0, 0});
    for (int n : {0, 1, 2, 4}) r.push_back({"OctetString_no_length", n, 0, 0});
    for (uint64_t v : {1ull, 0x1FFull, 0x12345ull, 0xFFFFFFFFull, 0x1234567800ull, 0x8000000000000001ull}) if ((level || v < 0x10000) && v <= (uint64_t)(asn1SccUint)~(asn1SccUint)0) r.push_back({"EncodeNonNegativeInteger", bitlen(v), v, 0});
    return r;
}
static int opbits(const AOp& o) { if (!strcmp(o.name, "AppendByteArray") || !strcmp(o.name, "OctetString_no_length")) return 8 * o.n; return o.n; }
static void model(const AOp& o, Bits& b) {
    std::string s = o.name;
    if (s == "AppendNBitZero") b.u(0, o.n); else if (s == "AppendNBitOne") for (int i = 0; i < o.n; i++) b.bit(1);
    else if (s == "AppendBits") b.bitsof(PAT, o.n); else if (s == "AppendByteArray" || s == "OctetString_no_length") b.bytes(PAT + 3, o.n);
    else b.u(o.neg ? ~o.v & ((1u << o.n) - 1) : o.v, o.n);
}
static bool apply(const AOp& o, BitStream* s) {
    const char* n = o.name;
    if (!strcmp(n, "AppendBit")) { BitStream_AppendBit(s, o.v != 0); return true; }
    if (!strcmp(n, "AppendBitOne")) { BitStream_AppendBitOne(s); return true; }
    if (!strcmp(n, "AppendBitZero")) { BitStream_AppendBitZero(s); return true; }
    if (!strcmp(n, "AppendPartialByte")) { BitStream_AppendPartialByte(s, (byte)o.v, (byte)o.n, o.neg); return true; }
    if (!strcmp(n, "AppendByte")) { BitStream_AppendByte(s, (byte)o.v, o.neg); return true; }
    if (!strcmp(n, "AppendByte0")) return BitStream_AppendByte0(s, (byte)o.v);
    if (!strcmp(n, "AppendNBitZero")) { BitStream_AppendNBitZero(s, o.n); return true; }
    if (!strcmp(n, "AppendNBitOne")) { BitStream_AppendNBitOne(s, o.n); return true; }
    if (!strcmp(n, "AppendBits")) { Buf src((o.n + 7) / 8); memcpy(src.p, PAT, (o.n + 7) / 8); BitStream_AppendBits(s, src.p, o.n); return true; }
    if (!strcmp(n, "AppendByteArray")) { Buf src(o.n); memcpy(src.p, PAT + 3, o.n); return BitStream_AppendByteArray(s, src.p, o.n); }
    if (!strcmp(n, "OctetString_no_length")) { Buf src(o.n); memcpy(src.p, PAT + 3, o.n); return BitStream_EncodeOctetString_no_length(s, src.p, o.n); }
    if (!strcmp(n, "EncodeNonNegativeInteger")) { BitStream_EncodeNonNegativeInteger(s, (asn1SccUint)o.v); return true; }
    abort();
}
// run a sequence; stale = previous content of the not yet written part of the buffer (0 = BitStream_Init-ed)
static void runseq(int off, int stale, std::vector<const AOp*> seq) {
    Bits b = prefix_bits(off); size_t total = off; for (auto o : seq) total += opbits(*o);
    size_t nb = (total + 7) / 8; if (!nb) return; Buf buf(nb, (uint8_t)stale); for (int i = 0; i < off; i++) setbit(buf.p, i, b.b[i]);
    BitStream s; at(s, buf.p, nb, off);
    for (auto o : seq) {
        trans(); if (!apply(*o, &s)) { viol("append", "%s(%d) refused although there is room", o->name, o->n); return; }
        model(*o, b);
        if (posbits(s) != b.size()) { viol("append", "after %s(%d): position %zu, expected %zu", o->name, o->n, posbits(s), b.size()); return; }
        if ((size_t)BitStream_GetLength(&s) != (b.size() + 7) / 8) { viol("append", "GetLength %ld", (long)BitStream_GetLength(&s)); return; }
        for (size_t i = 0; i < b.size(); i++) if (getbit(buf.p, i) != b.b[i]) { viol("append", "after %s(%d): bit %zu is %d, expected %d; buffer %s expected %s", o->name, o->n, i, getbit(buf.p, i), b.b[i], hex(buf.p, nb).c_str(), b.str().c_str()); return; }
    }
    if (stale == 0) for (size_t i = b.size(); i < nb * 8; i++) if (getbit(buf.p, i)) { viol("pad", "padding bit %zu set", i); return; }
    traced();
}
struct ROp { const char* name; int n; int k; };
static std::vector<ROp> rops(int level) {
    std::vector<ROp> r; r.push_back({"ReadBit", 1, 0}); r.push_back({"PeekBit", 0, 0}); r.push_back({"ReadByte", 8, 0});
    for (int n = 1; n <= 7; n++) r.push_back({"ReadPartialByte", n, 0});
    for (int n : {0, 1, 7, 8, 9, 16, 21, 32, 33, 40, 63, 64}) if ((level || n < 34) && n <= WORD_SIZE * 8) r.push_back({"DecodeNonNeg", n, 0});
    for (int n : {0, 1, 3, 8, 11, 16, 17, 31}) r.push_back({"ReadBits", n, 0});
    for (int n = 0; n <= 4; n++) { r.push_back({"ReadByteArray", n, 0}); r.push_back({"OctetString_no_length", n, 0}); }
    for (int n : {1, 3, 8, 10, 16, 19}) { r.push_back({"checkPattern", n, 0}); r.push_back({"checkPattern", n, 1}); r.push_back({"checkPattern", n, 2}); }
    for (int n : {0, 1, 5, 9, 20}) for (int k : {1, 4, 8, 12, 16}) r.push_back({"ReadBits_nullterm", n, k});
    return r;
}
// returns false when the sequence is over (operation failed as it should, or violation)
static bool rapply(const ROp& o, BitStream* s, const Bits& src, size_t& pos) {
    const char* n = o.name; size_t left = src.size() - pos; trans();
    auto val = [&](int k) { uint64_t v = 0; for (int i = 0; i < k; i++) v = v << 1 | src.b[pos + i]; return v; };
    auto fin = [&](bool ok, bool enough, bool same, int used) {
        if (ok != enough) { viol("read", "%s(%d) with %zu bits left returned %d", n, o.n, left, ok); return false; }
        if (!ok) return false;
        if (!same) { viol("read", "%s(%d) at bit %zu of %s: wrong data", n, o.n, pos, src.str().c_str()); return false; }
        pos += used; if (posbits(*s) != pos) { viol("read", "%s(%d): position %zu expected %zu", n, o.n, posbits(*s), pos); return false; }
        return true; };
    if (!strcmp(n, "ReadBit")) { flag v = 0; bool ok = BitStream_ReadBit(s, &v); return fin(ok, left >= 1, left >= 1 && (v != 0) == src.b[pos], 1); }
    if (!strcmp(n, "PeekBit")) { if (!left) { BitStream_PeekBit(s); return true; } flag v = BitStream_PeekBit(s); return fin(true, true, (v != 0) == src.b[pos], 0); }
    if (!strcmp(n, "ReadByte")) { byte v = 0; bool ok = BitStream_ReadByte(s, &v); return fin(ok, left >= 8, left >= 8 && v == val(8), 8); }
    if (!strcmp(n, "ReadPartialByte")) { byte v = 0; bool ok = BitStream_ReadPartialByte(s, &v, (byte)o.n); return fin(ok, (int)left >= o.n, (int)left >= o.n && v == val(o.n), o.n); }
    if (!strcmp(n, "DecodeNonNeg")) { asn1SccUint v = 0; bool ok = BitStream_DecodeNonNegativeInteger(s, &v, o.n); return fin(ok, (int)left >= o.n, (int)left >= o.n && v == val(o.n), o.n); }
    if (!strcmp(n, "ReadBits") || !strcmp(n, "ReadByteArray") || !strcmp(n, "OctetString_no_length")) {
        bool bits = !strcmp(n, "ReadBits"); int nb = bits ? o.n : 8 * o.n; Buf d((nb + 7) / 8, 0xEE); bool ok = bits ? BitStream_ReadBits(s, d.p, nb) : !strcmp(n, "ReadByteArray") ? BitStream_ReadByteArray(s, d.p, o.n) : BitStream_DecodeOctetString_no_length(s, d.p, o.n);
        bool same = true; if (ok && (int)left >= nb) { for (int i = 0; i < (nb + 7) / 8 * 8; i++) if (getbit(d.p, i) != (i < nb ? src.b[pos + i] : 0)) same = false; }
        return fin(ok, (int)left >= nb, same, nb); }
    if (!strcmp(n, "checkPattern")) { // k=0 matching pattern, k=1 first bit differs, k=2 last bit differs
        Bits p; for (int i = 0; i < o.n; i++) p.bit(pos + i < src.size() ? src.b[pos + i] : 0); if (o.k == 1) p.b[0] ^= 1; if (o.k == 2) p.b[o.n - 1] ^= 1; auto pk = p.pack(); Buf d(pk.size()); memcpy(d.p, pk.data(), pk.size());
        int r = BitStream_checkBitPatternPresent(s, d.p, o.n); int want = (int)left < o.n ? 0 : o.k ? 1 : 2;
        if (r != want) { viol("read", "checkBitPatternPresent(%d,k=%d) with %zu left returned %d expected %d", o.n, o.k, left, r, want); return false; }
        if (want == 2) pos += o.n; if (posbits(*s) != pos) { viol("read", "checkBitPatternPresent moved to %zu expected %zu", posbits(*s), pos); return false; } return want != 0; }
    if (!strcmp(n, "ReadBits_nullterm")) { // pattern of k bits taken from later in the stream: n+? bits ahead
        Bits p; for (int i = 0; i < o.k; i++) { size_t q = pos + 6 + i; p.bit(q < src.size() ? src.b[q] : (i & 1)); } auto pk = p.pack(); Buf d(pk.size()); memcpy(d.p, pk.data(), pk.size());
        size_t at_ = (size_t)-1; for (size_t q = pos; q + o.k <= src.size() && q - pos <= (size_t)o.n; q++) { bool eq = true; for (int i = 0; i < o.k; i++) if (src.b[q + i] != p.b[i]) eq = false; if (eq) { at_ = q; break; } }
        Buf dst((o.n + 7) / 8, 0xEE); int got = -1; bool ok = BitStream_ReadBits_nullterminated(s, d.p, o.k, dst.p, o.n, &got); bool want = at_ != (size_t)-1;
        if (ok != want) { viol("read", "ReadBits_nullterminated(max %d, pattern %d bits) returned %d expected %d", o.n, o.k, ok, want); return false; } if (!ok) return false;
        int m = (int)(at_ - pos); bool same = got == m; for (int i = 0; i < m && same; i++) if (getbit(dst.p, i) != src.b[pos + i]) same = false; return fin(true, true, same, m + o.k); }
    abort();
}
int main(int argc, char** argv) {
    std::vector<Task> T;
    for (int off = 0; off < 8; off++) for (int st : {0x00, 0xFF, 0xA5}) {
        T.push_back({"append2-off" + std::to_string(off) + "-stale" + std::to_string(st), [=] { auto O = aops(1); for (size_t a = 0; a < O.size(); a++) for (size_t b = 0; b < O.size(); b++) { MC_CASE("append %s(%d,%x) %s(%d,%x) at offset %d over stale %x", O[a].name, O[a].n, O[a].v, O[b].name, O[b].n, O[b].v, off, st); runseq(off, st, {&O[a], &O[b]}); } }});
        if (st != 0xA5 || g_thorough) T.push_back({"append3-off" + std::to_string(off) + "-stale" + std::to_string(st), [=] { auto O = aops(g_thorough ? 1 : 0); for (size_t a = 0; a < O.size(); a++) for (size_t b = 0; b < O.size(); b++) for (size_t c = 0; c < O.size(); c++) { MC_CASE("append %s(%d,%x) %s(%d,%x) %s(%d,%x) at offset %d over stale %x", O[a].name, O[a].n, O[a].v, O[b].name, O[b].n, O[b].v, O[c].name, O[c].n, O[c].v, off, st); runseq(off, st, {&O[a], &O[b], &O[c]}); } }});
    }
    for (int off = 0; off < 8; off++) T.push_back({"append-long-off" + std::to_string(off), [=] { for (int n = 0; n <= 300; n += (g_thorough || n < 40 ? 1 : 13)) for (int kind = 0; kind < 5; kind++) for (int st : {0, 0xFF}) { MC_CASE("long append kind=%d n=%d off=%d stale=%x", kind, n, off, st);
        std::vector<uint8_t> src(n + 1); for (int i = 0; i <= n; i++) src[i] = (uint8_t)(i * 37 + 11); int nbits = kind < 2 ? n * 8 : n; if (kind == 1) nbits = n * 8; size_t tot = off + nbits; if (!tot) continue; Buf b((tot + 7) / 8, (uint8_t)st); Bits m = prefix_bits(off); for (int i = 0; i < off; i++) setbit(b.p, i, m.b[i]);
        BitStream s; at(s, b.p, b.n, off); trans(); bool ok = true;
        if (kind == 0) { ok = BitStream_AppendByteArray(&s, src.data(), n); m.bytes(src.data(), n); } if (kind == 1) { ok = BitStream_EncodeOctetString_no_length(&s, src.data(), n); m.bytes(src.data(), n); } if (kind == 2) { BitStream_AppendBits(&s, src.data(), n); m.bitsof(src.data(), n); } if (kind == 3) { BitStream_AppendNBitZero(&s, n); m.u(0, n); } if (kind == 4) { BitStream_AppendNBitOne(&s, n); for (int i = 0; i < n; i++) m.bit(1); }
        if (!ok || posbits(s) != m.size() || !(Bits::of(b.p, m.size()) == m)) viol("append-long", "kind %d n=%d off=%d: ok=%d pos=%zu got %s want %s", kind, n, off, ok, posbits(s), hex(b.p, b.n).c_str(), hex(m.pack().data(), b.n).c_str());
        if (kind < 2 && n > 0) { Buf sm((tot + 7) / 8 - 1, 0); BitStream t; at(t, sm.p, sm.n, off); trans(); bool r = kind == 0 ? BitStream_AppendByteArray(&t, src.data(), n) : BitStream_EncodeOctetString_no_length(&t, src.data(), n); if (r) viol("append-long", "kind %d accepted %d bytes into a too small buffer", kind, n); } } }});
    for (int sz = 0; sz <= (g_thorough ? 9 : 6); sz++) for (int inv = 0; inv < 2; inv++) T.push_back({"read-size" + std::to_string(sz) + (inv ? "-inv" : ""), [=] { auto O = rops(1); int D = g_thorough ? 3 : 2;
        uint8_t d[16]; for (int i = 0; i < sz; i++) d[i] = inv ? ~PAT[i] : PAT[i]; Bits src = Bits::of(d, sz * 8);
        for (int off = 0; off < 8 && off <= sz * 8; off++) for (size_t a = 0; a < O.size(); a++) for (size_t b = 0; b < O.size(); b++) for (size_t c = 0; c < (D == 3 ? O.size() : 1); c++) { MC_CASE("read %s(%d,%d) %s(%d,%d) [%d] from bit %d of %d bytes", O[a].name, O[a].n, O[a].k, O[b].name, O[b].n, O[b].k, (int)c, off, sz);
            Buf buf(sz); memcpy(buf.p, d, sz); BitStream s; at(s, buf.p, sz, off); size_t pos = off;
            if (rapply(O[a], &s, src, pos) && rapply(O[b], &s, src, pos) && D == 3) rapply(O[c], &s, src, pos); traced(); } }});
    T.push_back({"equal", [=] { for (int n = 0; n <= 20; n++) for (int m = 0; m <= 20; m++) for (int f = -1; f < n; f++) for (int g = 0; g < 2; g++) { MC_CASE("equal n=%d m=%d flip=%d garbage=%d", n, m, f, g); int nb = (std::max(n, m) + 7) / 8; Buf a(nb, 0x5A), b(nb, 0x5A); if (f >= 0) setbit(b.p, f, !getbit(b.p, f)); if (g) for (int i = n; i < nb * 8; i++) setbit(b.p, i, !getbit(b.p, i));
        trans(2); bool want = n == m && f < 0; if ((BitString_equal(n, m, a.p, b.p) != 0) != want) viol("equal", "BitString_equal(%d,%d) flip %d garbage %d", n, m, f, g);
        if (n % 8 == 0 && m % 8 == 0 && ((OctetString_equal(n / 8, m / 8, a.p, b.p) != 0) != want)) viol("equal", "OctetString_equal(%d,%d) flip %d", n / 8, m / 8, f); } }});
    return run(argc, argv, T);
}
