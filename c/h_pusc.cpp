// P01: CRC, ISO checksum, packet length and packet error control of the PUS-C wrappers.
#include "codec.hpp"
#include "Crc.h"
#include "IsoChecksum.h"
#include "PacketLength.h"
#include "PacketErrorControl.h"
#include "Errors.h"
typedef std::vector<uint8_t> V8;
// ECSS-E-70-41C Annex B.1: shift register, generator x^16 + x^12 + x^5 + 1, preset to all ones, most significant bit first
static uint16_t crc_byte(uint16_t c, uint8_t d) { for (int i = 7; i >= 0; i--) { int f = (c >> 15 ^ d >> i) & 1; c = (uint16_t)(c << 1); if (f) c ^= 0x1021; } return c; }
static uint16_t crc(const uint8_t* p, size_t n, uint16_t c = 0xFFFF) { while (n--) c = crc_byte(c, *p++); return c; }
// ECSS-E-70-41C Annex B.2: additions modulo 255, a zero checksum octet is sent as 255
static uint16_t iso(const uint8_t* p, size_t n) { unsigned c0 = 0, c1 = 0; while (n--) { c0 = (c0 + *p++) % 255; c1 = (c1 + c0) % 255; } unsigned k1 = (255 * 2 - c0 - c1) % 255, k2 = c1; if (!k1) k1 = 255; if (!k2) k2 = 255; return (uint16_t)(k1 << 8 | k2); }
static bool iso_ok(const V8& p) { unsigned c0 = 0, c1 = 0; for (auto b : p) { c0 = (c0 + b) % 255; c1 = (c1 + c0) % 255; } return !c0 && !c1 && p[p.size() - 1] && p[p.size() - 2]; }
static uint8_t pat(int k, size_t i, size_t n) { switch (k) { case 0: return 0; case 1: return 255; case 2: return (uint8_t)(i * 151 + (i >> 8) * 29 + 0x35); case 3: return i + 1 == n ? 1 : 0; case 4: return i % 2 ? 255 : 0; case 5: return 254; case 6: return i == 0 ? 255 : 1; default: return (uint8_t)(255 - i % 7); } }
static V8 mkv(int k, size_t n) { V8 v(n); for (size_t i = 0; i < n; i++) v[i] = pat(k, i, n); return v; }
static void crc_steps(int part) {   // the whole transition relation of the CRC register: 2^16 states x 2^8 inputs
    for (int c = part * 8192; c < (part + 1) * 8192; c++) { MC_CASE("crc register %x, every next octet", c); bool bad = false; for (int d = 0; d < 256 && !bad; d++) { uint8_t x = (uint8_t)d; trans(); if (Asn1PuscLib_Crc_update((uint16_t)c, &x, 1) != crc_byte((uint16_t)c, x)) { bad = true; viol("crc-step", "register %04x octet %02x", c, d); } } if (!bad) traced(); }
}
static void sums(const uint8_t* p, size_t n) {
    trans(2); uint16_t a = Asn1PuscLib_Crc_calculate(p, n), b = Asn1PuscLib_IsoChecksum_calculate(p, n);
    if (a != crc(p, n)) { viol("crc", "CRC of %zu octets %s is %04x, expected %04x", n, hex(p, n > 24 ? 24 : n).c_str(), a, crc(p, n)); return; }
    if (b != iso(p, n)) { viol("iso", "ISO checksum of %zu octets %s is %04x, expected %04x", n, hex(p, n > 24 ? 24 : n).c_str(), b, iso(p, n)); return; }
    traced();
}
static void small(int part) {
    if (!part) { do { MC_CASE("empty data"); Buf b(0); sums(b.p, 0); } while (0); }
    for (int a = part * 32; a < part * 32 + 32; a++) { { do { MC_CASE("octets %x", a); Buf b(1); b.p[0] = (uint8_t)a; sums(b.p, 1); } while (0); } for (int c = 0; c < 256; c++) { MC_CASE("octets %x %x", a, c); Buf b(2); b.p[0] = (uint8_t)a; b.p[1] = (uint8_t)c; sums(b.p, 2); }
        static const uint8_t al[] = {0, 1, 2, 0x7F, 0x80, 0xFD, 0xFE, 0xFF}; int L = g_thorough ? 5 : 3; for (int n = 2; n <= L; n++) { uint64_t t = 1ull << (3 * n); for (uint64_t c = 0; c < t; c++) { MC_CASE("octets %x and code %llu of %d", a, c, n); Buf b(n + 1); b.p[0] = (uint8_t)a; for (int i = 0; i < n; i++) b.p[i + 1] = al[c >> (3 * i) & 7]; sums(b.p, n + 1); } } }
}
static void lengths(int k) { for (size_t n = 0; n <= (g_thorough ? 5000 : 1200); n++) { MC_CASE("pattern %d length %lld", k, n); V8 v = mkv(k, n); Buf b(n); memcpy(b.p, v.data(), n); sums(b.p, n); // every split of a CRC
            if (n <= 64) for (size_t s = 0; s <= n; s++) { trans(); uint16_t h = Asn1PuscLib_Crc_update(Asn1PuscLib_Crc_InitialValue, b.p, s); if (Asn1PuscLib_Crc_update(h, b.p + s, n - s) != crc(b.p, n)) { viol("crc-split", "CRC in two parts differs at %zu of %zu", s, n); break; } } }
    for (size_t n : {4095, 4096, 16384, 65535, 65536, 65542, 100000}) { MC_CASE("pattern %d length %lld", k, n); V8 v = mkv(k, n); Buf b(n); memcpy(b.p, v.data(), n); sums(b.p, n); } }
static bool upd(V8& v, int ty, size_t pos, int* e) { Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, pos * 8); trans(); bool r = Asn1PuscLib_PacketErrorControl_update(&s, ty ? Asn1PuscLib_PacketErrorControl_Type_Crc : Asn1PuscLib_PacketErrorControl_Type_Iso, e); if (posbits(s) != pos * 8) viol("position", "update moved the stream position"); memcpy(v.data(), b.p, v.size()); return r; }
static bool val(const V8& v, int ty, size_t pos, int* e) { Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, pos * 8); trans(); bool r = Asn1PuscLib_PacketErrorControl_validate(&s, ty ? Asn1PuscLib_PacketErrorControl_Type_Crc : Asn1PuscLib_PacketErrorControl_Type_Iso, e); if (memcmp(b.p, v.data(), v.size()) || posbits(s) != pos * 8) viol("position", "validation changed the packet or the stream position"); return r; }
static void control(int ty, int k) {
    for (size_t n = 0; n <= (g_thorough ? 600 : 160); n++) for (size_t slack = 0; slack <= 3; slack += 3) for (int nul = 0; nul < 2; nul++) { MC_CASE("error control type=%d pattern=%d packet of %lld octets in a buffer with %lld more, errCode NULL %d", ty, k, n, slack, nul);
        V8 v = mkv(k, n + slack); if (n >= 2) { v[n - 2] = 0xA5; v[n - 1] = 0x5A; } V8 o = v; int e = 7, *pe = nul ? NULL : &e; bool r = upd(v, ty, n, pe);
        if (n <= 2) { if (r || v != o || (pe && e != Asn1PuscLib_ErrorCodes_MessageTooShort) || val(v, ty, n, pe)) viol("short", "a packet of %zu octets is not refused as too short", n); else traced(); continue; }
        uint16_t c = ty ? crc(v.data(), n - 2) : iso(v.data(), n - 2); V8 w = o; w[n - 2] = c >> 8; w[n - 1] = c & 255;
        if (!r || v != w) { viol("update", "checksum written is wrong or other octets changed (ok=%d)", r); continue; }
        if (!ty && !iso_ok(V8(v.begin(), v.begin() + n))) { viol("update", "the packet does not satisfy the ISO verification"); continue; }
        if (!val(v, ty, n, pe)) { viol("validate", "a packet with a correct checksum is refused"); continue; }
        traced(); }
}
// every one and two bit error of packets up to the bound; bursts of up to 16 bits for the CRC
static void errors(int ty, int k) {
    for (size_t n : {(size_t)3, (size_t)4, (size_t)7, (size_t)8, (size_t)12, (size_t)21, (size_t)22, (size_t)23, (size_t)(g_thorough ? 120 : 44)}) for (size_t i = 0; i < n * 8; i++) { MC_CASE("errors type=%d pattern=%d packet of %lld octets first flipped bit %lld", ty, k, n, i);
        V8 v = mkv(k, n); int e = 0; if (!upd(v, ty, n, &e)) { viol("update", "update failed"); continue; } bool bad = false;
        for (size_t j = i; j < n * 8 && !bad; j++) { V8 w = v; w[i / 8] ^= 0x80 >> i % 8; if (j != i) w[j / 8] ^= 0x80 >> j % 8; bool exp = (ty ? crc(w.data(), n - 2) : iso(w.data(), n - 2)) == (w[n - 2] << 8 | w[n - 1]); if (ty && exp) { viol("model", "model error"); bad = true; } e = 0; bool r = val(w, ty, n, &e); if (r != exp || (!r && e != Asn1PuscLib_ErrorCodes_BadChecksum)) { viol("detect", "bits %zu and %zu flipped: accepted=%d expected %d", i, j, r, exp); bad = true; } }
        if (ty && n <= 12) for (int w16 = 1; w16 < 32768 && !bad; w16 += g_thorough ? 1 : 7) { V8 w = v; for (int b = 0; b < 15; b++) if (w16 >> b & 1 && i + 1 + b < n * 8) w[(i + 1 + b) / 8] ^= 0x80 >> (i + 1 + b) % 8; w[i / 8] ^= 0x80 >> i % 8; if (val(w, ty, n, &e)) { viol("burst", "burst error %x at bit %zu not detected", w16, i); bad = true; } }
        if (!bad) traced(); }
}
static void len(int part) {
    auto go = [&](size_t n, size_t mx, size_t slack, uint8_t fill, int nul) {
        V8 v(n + slack, fill); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, n * 8); int e = 7, *pe = nul ? NULL : &e; trans(); bool r = Asn1PuscLib_PacketLength_update(&s, mx, pe); bool shrt = n <= 6, lng = n > mx || n > 65542;
        if (posbits(s) != n * 8) { viol("position", "update moved the stream position"); return; }
        if (shrt || lng) { if (r || memcmp(b.p, v.data(), v.size()) || (pe && e != (shrt ? Asn1PuscLib_ErrorCodes_MessageTooShort : Asn1PuscLib_ErrorCodes_MessageTooLong))) { viol("bound", "a packet of %zu octets (maximum %zu) is not refused as it should", n, mx); return; } trans(); e = 7; if (Asn1PuscLib_PacketLength_validate(&s, mx, pe) || (pe && e != (shrt ? Asn1PuscLib_ErrorCodes_MessageTooShort : Asn1PuscLib_ErrorCodes_MessageTooLong))) { viol("bound", "validation of a packet of %zu octets (maximum %zu)", n, mx); return; } traced(); return; }
        v[4] = (uint8_t)((n - 7) >> 8); v[5] = (uint8_t)(n - 7); if (!r || memcmp(b.p, v.data(), v.size())) { viol("update", "length field of a packet of %zu octets is wrong or other octets changed (ok=%d)", n, r); return; }
        trans(); if (!Asn1PuscLib_PacketLength_validate(&s, mx, pe)) { viol("validate", "packet of %zu octets with the right length refused", n); return; }
        if (memcmp(b.p, v.data(), v.size()) || posbits(s) != n * 8) { viol("position", "validation changed the packet"); return; }
        for (int bit = 0; bit < 16; bit++) { b.p[4 + bit / 8] ^= 0x80 >> bit % 8; e = 7; trans(); if (Asn1PuscLib_PacketLength_validate(&s, mx, pe) || (pe && e != Asn1PuscLib_ErrorCodes_BadLength)) { viol("validate", "wrong length field accepted for %zu octets", n); return; } b.p[4 + bit / 8] ^= 0x80 >> bit % 8; }
        traced(); };
    for (size_t n = part; n <= 66000; n += 8) { MC_CASE("length of a packet of %lld octets", n); go(n, 70000, 0, 0xEE, 0); }
    for (size_t mx = part; mx <= 70; mx += 8) for (size_t n = 0; n <= 75; n++) for (int k = 0; k < 8; k++) { MC_CASE("packet of %lld octets maximum %lld variant %d", n, mx, k); go(n, mx, k & 1 ? 5 : 0, k & 2 ? 0 : 0xFF, k >> 2); }
    if (part == 0) for (size_t n : {65541, 65542, 65543, 65550, 131078}) for (size_t mx : {(size_t)65541, (size_t)65542, (size_t)65543, (size_t)200000, (size_t)-1}) { MC_CASE("packet of %lld octets maximum %lld", n, mx); go(n, mx, 0, 0, 0); }
    // every value of the length field against a fixed packet
    if (part == 1) for (size_t n : {7, 8, 262, 263, 264, 1000}) for (int f = 0; f < 65536; f++) { MC_CASE("packet of %lld octets with length field %d", n, f); Buf b(n, 0x11); b.p[4] = f >> 8; b.p[5] = f & 255; BitStream s; at(s, b.p, n, n * 8); int e = 0; trans(); if (Asn1PuscLib_PacketLength_validate(&s, 70000, &e) != (f == (int)n - 7)) viol("validate", "length field %d of a packet of %zu octets", f, n); else traced(); }
}
int main(int argc, char** argv) {
    std::vector<Task> T; for (int p = 0; p < 8; p++) { std::string o = std::to_string(p); T.push_back({"crc" + o, [=] { crc_steps(p); }}); T.push_back({"small" + o, [=] { small(p); }}); T.push_back({"lengths" + o, [=] { lengths(p); }}); T.push_back({"packet" + o, [=] { len(p); }});
        for (int t = 0; t < 2; t++) { T.push_back({(t ? "crc-control" : "iso-control") + o, [=] { control(t, p); }}); T.push_back({(t ? "crc-errors" : "iso-errors") + o, [=] { errors(t, p); }}); } }
    return run(argc, argv, T);
}
