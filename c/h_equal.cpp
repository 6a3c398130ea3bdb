// G10: equality and look-up helpers the generated code calls (asn1crt.c, asn1crt_encoding.c).
#include "codec.hpp"
#include <cmath>
extern "C" { flag BitString_equal(int, int, const byte[], const byte[]); flag OctetString_equal(int, int, const byte[], const byte[]); }
typedef asn1SccSint I; typedef asn1SccUint U;
static void beq(int n1, int n2, const std::vector<int>& x, const std::vector<int>& y, int g1, int g2) {
    Buf a((n1 + 7) / 8, g1 ? 0xFF : 0), b((n2 + 7) / 8, g2 ? 0xFF : 0); for (int i = 0; i < n1; i++) setbit(a.p, i, x[i]); for (int i = 0; i < n2; i++) setbit(b.p, i, y[i]);
    trans(); bool want = n1 == n2 && x == y; if ((bool)BitString_equal(n1, n2, a.p, b.p) != want) viol("bits", "equality of bit strings of %d and %d bits (%s, %s) is %d", n1, n2, hex(a.p, a.n).c_str(), hex(b.p, b.n).c_str(), !want); else traced(); }
static void bits() {
    int M = g_thorough ? 10 : 8; auto mk = [](int n, int c) { std::vector<int> r; for (int i = n; i--;) r.push_back(c >> i & 1); return r; };
    for (int n1 = 0; n1 <= M; n1++) for (int n2 = 0; n2 <= M; n2++) { if (n1 != n2 && n1 + n2 > 10) continue; for (int c1 = 0; c1 < 1 << n1; c1++) for (int c2 = 0; c2 < 1 << n2; c2++) { MC_CASE("bit strings %d:%x and %d:%x", n1, c1, n2, c2); for (int g = 0; g < 4; g++) beq(n1, n2, mk(n1, c1), mk(n2, c2), g & 1, g >> 1); } }
    for (int n = 9; n <= (g_thorough ? 200 : 72); n++) for (int f = -1; f < n; f++) for (int p = 0; p < 3; p++) { MC_CASE("bit strings of %d bits, difference at %d, pattern %d", n, f, p); std::vector<int> x; for (int i = 0; i < n; i++) x.push_back(p == 0 ? 0 : p == 1 ? 1 : (i * i + n) % 3 == 0); auto y = x; if (f >= 0) y[f] ^= 1; for (int g = 0; g < 4; g++) beq(n, n, x, y, g & 1, g >> 1); }
}
static void octets() { for (int n1 = 0; n1 <= 40; n1++) for (int n2 = 0; n2 <= 40; n2++) for (int f = -1; f < n1; f++) for (int v : {1, 0x80, 0xFF}) { if (n1 != n2 && f >= 0) continue; MC_CASE("octet strings of %d and %d, difference at %d %x", n1, n2, f, v); Buf a(n1, 0x5A), b(n2, 0x5A); if (f >= 0) b.p[f] ^= v; bool want = n1 == n2 && f < 0; trans(); if ((bool)OctetString_equal(n1, n2, a.p, b.p) != want) viol("octets", "equality of octet strings of %d and %d is %d", n1, n2, !want); else traced(); } }
static void reals() { std::vector<double> v = {0.0, -0.0, INFINITY, -INFINITY, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308}; for (int e = -1074; e <= 1023; e += g_thorough ? 3 : 23) for (double m : {1.0, 1.5, 1.00001, 1.0001, 1.001, 1.99999}) { v.push_back(ldexp(m, e)); v.push_back(-ldexp(m, e)); }
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) { MC_CASE("reals %lld and %lld", i, j); asn1Real a = (asn1Real)v[i], b = (asn1Real)v[j]; trans(); bool g = Asn1Real_Equal(a, b); double x = a, y = b; bool same = x == y, differ = (x < 0) != (y < 0) || std::isinf(x) != std::isinf(y) || x == 0 || y == 0; if (!same && !differ && !std::isinf(x)) { double q = fabs(x) < fabs(y) ? fabs(x) / fabs(y) : fabs(y) / fabs(x); if (q < 0.9999) differ = true; } if (same && !g) viol("real", "%.17g is not equal to itself", x); else if (!same && differ && g) viol("real", "%.17g equals %.17g", x, y); else traced(); } }
static void search() { const I al[] = {(I)((U)1 << (WORD_SIZE * 8 - 1)), -5, -1, 0, 1, 2, 100, (I)((U)-1 >> 1)}; 
    for (int set = 0; set < 256; set++) for (int q = 0; q < 8; q++) { MC_CASE("search of value %d in set %x", q, set); std::vector<I> s; for (int i = 0; i < 8; i++) if (set >> i & 1) s.push_back(al[i]); int want = -1; for (size_t i = 0; i < s.size(); i++) if (s[i] == al[q]) want = (int)i; I* p = (I*)malloc(s.size() * sizeof(I) + 1); std::copy(s.begin(), s.end(), p); trans(2); int b = binarySearch(p, (int)s.size(), al[q]), l = linearSearch(p, (int)s.size(), al[q]); free(p); if (b != want || l != want) viol("search", "binary search %d, linear search %d, expected %d", b, l, want); else traced(); }
    for (int n = 0; n <= (g_thorough ? 400 : 100); n++) for (int k = -1; k <= 2 * n; k++) { MC_CASE("search of %d in %d values", k, n); std::vector<I> s; for (int i = 0; i < n; i++) s.push_back(2 * i); s.push_back(0); int want = k >= 0 && k % 2 == 0 && k / 2 < n ? k / 2 : -1; trans(2); if (binarySearch(s.data(), n, k) != want || linearSearch(s.data(), n, k) != want) viol("search", "search of %d in %d values", k, n); else traced(); }
    for (int n = 1; n <= 128; n++) for (int c = 0; c < n; c++) { MC_CASE("character %d of %d", c, n); std::vector<byte> s; for (int i = 0; i < n; i++) s.push_back((byte)((i * 5 + 3) % 128)); trans(); if (GetCharIndex((char)s[c], s.data(), n) != c) viol("char", "index of a character is wrong"); else traced(); } }
static void conv() { for (auto x : sbound(WORD_SIZE * 8)) { MC_CASE("conversion of %lld", x); I v = (I)x; trans(); if (int2uint(v) != (U)v) { viol("int2uint", "signed %lld converted wrongly", (long long)v); continue; } bool ok = true; for (int n = 1; n <= WORD_SIZE; n++) { U m = n == WORD_SIZE ? (U)-1 : (((U)1 << (8 * n)) - 1); I lo = n == WORD_SIZE ? (I)((U)1 << (WORD_SIZE * 8 - 1)) : -((I)1 << (8 * n - 1)), hi = (I)(m >> 1); if (v < lo || v > hi) continue; trans(); if (uint2int((U)v & m, n) != v) { viol("uint2int", "%lld from %d octets converted wrongly", (long long)v, n); ok = false; break; } } if (ok) traced(); } }
int main(int argc, char** argv) { return run(argc, argv, {{"bits", [] { bits(); }}, {"octets", [] { octets(); }}, {"reals", [] { reals(); }}, {"search", [] { search(); }}, {"conversion", [] { conv(); }}}); }
