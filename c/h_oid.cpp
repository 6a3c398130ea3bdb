// C12: OBJECT IDENTIFIER and RELATIVE-OID of the C runtime in uPER.
#include "codec.hpp"
#include "asn1crt_encoding_uper.h"
typedef asn1SccUint U; static const U UMAX = (U)-1; enum { NA = OBJECT_IDENTIFIER_MAX_LENGTH };
static void sub(Bits& b, unsigned __int128 v) { std::vector<int> d; do { d.push_back((int)(v & 127)); v >>= 7; } while (v); for (size_t i = d.size(); i--;) b.u(d[i] | (i ? 0x80 : 0), 8); }
static Bits model(bool rel, const std::vector<U>& a) { Bits c; size_t i = 0; if (!rel) { sub(c, (unsigned __int128)a[0] * 40 + a[1]); i = 2; } for (; i < a.size(); i++) sub(c, a[i]); size_t n = c.size() / 8; Bits r; if (n < 128) r.u(n, 8); else r.u(0x8000 | n, 16); return r.cat(c); }
static Asn1ObjectIdentifier mk(const std::vector<U>& a) { Asn1ObjectIdentifier o; memset(&o, 0x5E, sizeof o); o.nCount = (int)a.size(); for (size_t i = 0; i < a.size(); i++) o.values[i] = a[i]; return o; }
static void one(bool rel, const std::vector<U>& a, int off) {
    Asn1ObjectIdentifier o = mk(a); bool val = rel ? !a.empty() : a.size() >= 2 && a[0] <= 2 && (a[0] == 2 || a[1] < 40);
    if (off == 0) { trans(); if ((bool)(rel ? RelativeOID_isValid(&o) : ObjectIdentifier_isValid(&o)) != val) { viol("valid", "validity of the identifier is %d, expected %d", !val, val); return; } }
    if (!val || (!rel && a[0] == 2 && a[1] > UMAX - 80)) return; Bits b = model(rel, a);
    if (!chk_enc(rel ? "relative" : "oid", off, b, [&](BitStream* s) { rel ? RelativeOID_uper_encode(s, &o) : ObjectIdentifier_uper_encode(s, &o); return true; })) return;
    chk_dec(rel ? "relative" : "oid", off, b, [&](BitStream* s) { Asn1ObjectIdentifier r; memset(&r, 0x33, sizeof r); if (!(rel ? RelativeOID_uper_decode(s, &r) : ObjectIdentifier_uper_decode(s, &r))) return (int)DEC_FAIL; if (r.nCount != (int)a.size()) return (int)DEC_WRONG; for (size_t i = 0; i < a.size(); i++) if (r.values[i] != a[i]) return (int)DEC_WRONG; return ObjectIdentifier_equal(&r, &o) ? (int)DEC_OK : (int)DEC_WRONG; });
}
static const U AL[] = {0, 1, 2, 3, 39, 40, 47, 48, 79, 80, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 0x7FFFFFFF, 0x80000000u, UMAX >> 1, (UMAX >> 1) + 1, UMAX - 80, UMAX - 1, UMAX};
static void values(bool rel, int off) {
    int K = sizeof AL / sizeof *AL, M = g_thorough ? 4 : 3;
    for (int n = 0; n <= M; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= K; for (uint64_t c = 0; c < tot; c++) { MC_CASE("rel=%d n=%d arcs code %llu off=%d", rel, n, c, off); std::vector<U> a; uint64_t q = c; for (int i = 0; i < n; i++) { a.push_back(AL[q % K]); q /= K; } one(rel, a, off); } }
    for (int a0 = 0; a0 <= 3; a0++) for (int a1 = 0; a1 <= (g_thorough ? 20000 : 400); a1++) { MC_CASE("rel=%d arcs %d.%d off=%d", rel, a0, a1, off); one(rel, {(U)a0, (U)a1}, off); }
    for (int sh = 0; sh < WORD_SIZE * 8; sh++) for (int d = -1; d <= 1; d++) { U v = ((U)1 << sh) + d; MC_CASE("rel=%d single arc 2^%d%+d off=%d", rel, sh, d, off); one(rel, {1, 3, v}, off); one(rel, {2, v > UMAX - 80 ? UMAX - 80 : v, 7}, off); }
    for (int n = 2; n <= NA; n++) for (int k = 0; k < K; k++) { MC_CASE("rel=%d %d arcs of alphabet[%d] off=%d", rel, n, k, off); std::vector<U> a(n, AL[k]); a[0] = 1; a[1] = 2; one(rel, a, off); a[n - 1] = 5; one(rel, a, off); a[0] = 2; a[1] = 999; one(rel, a, off); }
}
// every content octet string over the alphabet, announced with every length: exactly the well formed ones are accepted
static void arbitrary(bool rel, int off) {
    static const int al[] = {0x00, 0x01, 0x27, 0x28, 0x4F, 0x50, 0x7F, 0x80, 0x81, 0xFF}; int K = 10, L = g_thorough ? 6 : 4;
    auto go = [&](const std::vector<int>& in) {
        Bits full = prefix_bits(off); for (int x : in) full.u(x, 8); auto v = full.pack(1); Buf b(v.size()); memcpy(b.p, v.data(), v.size()); BitStream s; at(s, b.p, b.n, off);
        // model
        bool ok = true, either = false; std::vector<U> w; size_t p = 0; long len = 0; if (in.empty()) ok = false; else { len = in[p++]; if (len > 127) { if (in.size() < 2) ok = false; else { if (len >= 0xC0) either = true; len = (len << 8 | in[p++]) & 0x7FFF; if (len < 128) either = true; } } }
        if (ok && p + len > in.size()) ok = false; size_t end = p + len; bool first = !rel; if (ok && len == 0) { if (rel) either = true; ok = rel; }
        while (ok && p < end) { unsigned __int128 x = 0; bool done = false, lead = true, big = false; while (p < end && !done) { int c = in[p++]; if (lead && c == 0x80) either = true; lead = false; x = x << 7 | (c & 127); if (x > UMAX) big = true; if (big) x = (unsigned __int128)UMAX + 1; done = !(c & 128); } if (!done || big) { ok = false; break; } if (first) { U f = x < 80 ? (U)x / 40 : 2; w.push_back(f); w.push_back((U)x - f * 40); first = false; } else w.push_back((U)x); }
        if (w.size() > NA) ok = false;
        Asn1ObjectIdentifier r; memset(&r, 0x33, sizeof r); trans(); bool g = rel ? RelativeOID_uper_decode(&s, &r) : ObjectIdentifier_uper_decode(&s, &r);
        if (r.nCount < 0 || r.nCount > NA) { viol("count", "component count is %d after decoding %s", r.nCount, hex(v.data(), v.size()).c_str()); return; }
        if (g && !ok) { viol("malformed", "decoder accepted %s", hex(v.data(), v.size()).c_str()); return; }
        if (!g && ok && !either) { viol("wellformed", "decoder rejected %s", hex(v.data(), v.size()).c_str()); return; }
        if (g) { bool same = r.nCount == (int)w.size() && posbits(s) == off + end * 8; for (size_t i = 0; same && i < w.size(); i++) same = r.values[i] == w[i]; if (!same) { viol("value", "decoder read %s as another identifier", hex(v.data(), v.size()).c_str()); return; } }
        traced(); };
    for (int n = 0; n <= L; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= K; for (uint64_t c = 0; c < tot; c++) for (int len = 0; len <= n + 1; len++) for (int lf = 0; lf < 3; lf++) { MC_CASE("rel=%d n=%d octets code %llu length %d form %d off=%d", rel, n, c, len, lf, off); std::vector<int> in; if (lf == 1) in.push_back(0x80); if (lf == 2) in.push_back(0xC0); in.push_back(len); uint64_t q = c; for (int i = 0; i < n; i++) { in.push_back(al[q % K]); q /= K; } go(in); } }
    // long subidentifiers around the word size, many components
    for (int n = 1; n <= 24; n++) for (int f : {0x80, 0x81, 0x83, 0x9F, 0xFF}) for (int m : {0x80, 0xFF}) for (int l : {0, 1, 0x7F, 0x80}) for (int pre = 0; pre < 2; pre++) { MC_CASE("rel=%d long subidentifier of %d octets first %x middle %x last %x pre=%d off=%d", rel, n, f, m, l, pre, off); std::vector<int> in; in.push_back(n + pre); if (pre) in.push_back(0x2A); for (int i = 0; i < n; i++) in.push_back(i == n - 1 ? l : i ? m : f); go(in); }
    for (int n = 15; n <= 140; n++) for (int v : {0, 1, 0x7F}) for (int sh = 0; sh < 2; sh++) { MC_CASE("rel=%d %d components of %d extra %d off=%d", rel, n, v, sh, off); std::vector<int> in; if (n >= 128) in.push_back(0x80); in.push_back(n); for (int i = 0; i < n; i++) in.push_back(v); if (sh) in.push_back(0); go(in); }
    for (int a = 0; a < 256; a++) for (int bb = -1; bb < 256; bb++) { MC_CASE("rel=%d header %x %x off=%d", rel, a, bb, off); std::vector<int> in = {a}; if (bb >= 0) in.push_back(bb); go(in); for (int i = 0; i < 5; i++) in.push_back(0x81); go(in); }
}
static void equal() {
    std::vector<std::vector<U>> vs; for (int n = 0; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 4; for (int c = 0; c < tot; c++) { std::vector<U> a; int q = c; for (int i = 0; i < n; i++) { U al[] = {0, 1, UMAX, UMAX >> 1}; a.push_back(al[q % 4]); q /= 4; } vs.push_back(a); } }
    for (int n : {19, 20}) for (int d = -1; d < n; d++) { std::vector<U> a(n, 9); if (d >= 0) a[d] ^= (U)1 << (WORD_SIZE * 8 - 1); vs.push_back(a); }
    for (size_t i = 0; i < vs.size(); i++) for (size_t j = 0; j < vs.size(); j++) { MC_CASE("equality of identifiers %lld and %lld", i, j); auto x = mk(vs[i]), y = mk(vs[j]); memset(&y.values[y.nCount], 0x11, sizeof(U) * (NA - y.nCount)); trans(); if ((bool)ObjectIdentifier_equal(&x, &y) != (vs[i] == vs[j])) viol("equal", "equality of two identifiers of %zu and %zu components is wrong", vs[i].size(), vs[j].size()); else traced(); }
}
int main(int argc, char** argv) {
    std::vector<Task> T; for (int r = 0; r < 2; r++) for (int off = 0; off < 8; off++) { std::string o = (r ? "relative" : "oid") + std::to_string(off); T.push_back({"values-" + o, [=] { values(r, off); }}); if (off == 0 || off == 3 || off == 7 || g_thorough) T.push_back({"any-" + o, [=] { arbitrary(r, off); }}); }
    T.push_back({"equal", [] { equal(); }}); return run(argc, argv, T);
}
