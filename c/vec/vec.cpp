// Enumerates the operations of a runtime (Ada, Scala) over values x sizes x bit offsets and over arbitrary input,
// and judges every answer against an independent model of the encoding rules.
#include "vec.hpp"
#include <cmath>
VecReq R;
static const char* NM[] = {
#define OP(x) #x,
#include "ops.inc"
#undef OP
};
typedef std::vector<uint8_t> By; typedef uint64_t U; typedef int64_t I; typedef unsigned __int128 W;
static Bits pre(int off) { Bits b; for (int i = 0; i < off; i++) b.bit(i % 3 != 1); return b; }
struct Op_ { int op, w = 64; std::vector<I> p; I v = 0; By s1 = {}, s2 = {}; };
static std::string show(const By& b) { return hex(b.data(), b.size() > 40 ? 40 : b.size()) + (b.size() > 40 ? ".." : ""); }
static const char* key(const Op_& o) { static char k[64]; if (o.w == 64) snprintf(k, sizeof k, "%s", NM[o.op]); else snprintf(k, sizeof k, "%s/%d", NM[o.op], o.w); return k; }
static void put(const Op_& o, int off, const By& buf) {
    R.op = o.op; R.w = o.w; R.off = off; for (size_t i = 0; i < 6; i++) R.p[i] = i < o.p.size() ? o.p[i] : 0; R.v = o.v;
    if (o.s1.size() > MAXS || o.s2.size() > 256 || buf.size() > MAXB) abort();
    R.n1 = (int)o.s1.size(); memcpy(R.s1, o.s1.data(), o.s1.size()); R.n2 = (int)o.s2.size(); memcpy(R.s2, o.s2.data(), o.s2.size()); R.nb = (int)buf.size(); memcpy(R.buf, buf.data(), buf.size()); R.st = -1; R.ns = 0; R.pos = -1;
    trans(); call();
}
static std::string par(const Op_& o) { std::string r; char b[64]; for (I x : o.p) { snprintf(b, sizeof b, " %lld", (long long)x); r += b; } snprintf(b, sizeof b, " v=%lld", (long long)o.v); r += b; if (!o.s1.empty()) r += " s=" + show(o.s1); if (!o.s2.empty()) r += " t=" + show(o.s2); return r; }
// encode: the bits written are one of `acc`
static const bool SCALA = !strcmp(g_backend, "Scala");
static bool enc(const Op_& o, int off, const std::vector<Bits>& acc, int need = 0) {
    if (!has(o.op, o.w)) return true; if (o.w == 64 && has(o.op, 63)) { Op_ a = o; a.w = 63; if (!enc(a, off, acc, need)) return false; }
    size_t mx = 0; for (auto& b : acc) mx = std::max(mx, b.size()); size_t nb = (off + std::max(mx, (size_t)need) + 7) / 8; if (!nb) nb = 1;
    By clean;
    for (int dirty = 0; dirty < 2; dirty++) {           // what the buffer held before must not show
    By buf(nb, dirty ? 0xFF : 0), pk = pre(off).pack(); if (off) { memcpy(buf.data(), pk.data(), pk.size()); if (dirty && off % 8) buf[off / 8] |= 0xFF >> off % 8; } put(o, off, buf); if (R.st == RES_NA) return true;
    if (R.st == RES_EXC) { viol((std::string(key(o)) + ":exc").c_str(), "encoding raised %.*s (%s, off %d)", R.ns, (char*)R.s, par(o).c_str(), off); return false; }
    if (R.st != RES_OK) { viol(key(o), "encoding refused (%s, off %d)", par(o).c_str(), off); return false; }
    if (dirty && o.op == O_ALIGN) return true; if (dirty) { int n = std::min((int)nb * 8, R.pos), i = 0; if (!memcmp(R.buf, clean.data(), n / 8)) i = n / 8 * 8; for (; i < n; i++) if (getbit(R.buf, i) != getbit(clean.data(), i)) { viol((std::string(key(o)) + ":dirty").c_str(), "what the buffer held before shows in bit %d of the encoding (%s, off %d)", i - off, par(o).c_str(), off); return false; } traced(); return true; }
    clean.assign(R.buf, R.buf + nb); bool good = false;
    for (auto& b : acc) { if (R.pos != (int)(off + b.size())) continue; Bits f = pre(off); f.cat(b); By want = f.pack(); want.resize(nb); if (!memcmp(want.data(), R.buf, nb)) { good = true; break; } }
    if (good) continue;
    Bits got; for (int i = off; i < R.pos && i < (int)nb * 8; i++) got.bit(getbit(R.buf, i));
    viol(key(o), "wrote %d bits %s, expected %zu bits %s (%s, off %d)", R.pos - off, got.str().c_str(), acc[0].size(), acc[0].str().c_str(), par(o).c_str(), off); return false;
    }
    return true;
}
static bool enc(const Op_& o, int off, const Bits& b, int need = 0) { return enc(o, off, std::vector<Bits>{b}, need); }
enum Kind { OK, FAIL, MAY, ANY };
struct Ex { Kind k; I v = 0; By s = {}; int used = -1; bool real = false; bool anyval = false; };
static bool samereal(I a, I b) { double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return a == b || (std::isnan(x) && std::isnan(y)); }
// decode `in`; beyond it the buffer holds zeroes, then ones, up to what the operation may look at
static bool dec(const Op_& o, int off, const Bits& in, int need, const Ex& x, bool onefill = false) {
    if (!has(o.op, o.w)) return true; if (o.w == 64 && has(o.op, 63)) { Op_ a = o; a.w = 63; if (!dec(a, off, in, need, x, onefill)) return false; }
    if (SCALA && x.k != OK) return true;                // the Scala runtime decodes what an encoder wrote
    for (int fill = 0; fill < (onefill ? 1 : 2); fill++) {
        Bits f = pre(off); f.cat(in); size_t nb = std::max((f.size() + 7) / 8, (size_t)(off + need + 7) / 8); if (!nb) nb = 1; By buf = f.pack(fill); buf.resize(nb, fill ? 0xFF : 0); By keep = buf; put(o, off, buf); if (R.st == RES_NA) return true;
        if (R.st == RES_EXC) { viol((std::string(key(o)) + ":exc").c_str(), "decoding %s raised %.*s (%s, off %d)", in.str().c_str(), R.ns, (char*)R.s, par(o).c_str(), off); return false; }
        if (memcmp(R.buf, keep.data(), nb)) { viol(key(o), "decoding changed its input"); return false; }
        if (x.k == ANY) continue;
        if (R.st == RES_FAIL) { if (x.k == OK) { viol(key(o), "decoding %s refused (%s, off %d)", in.str().c_str(), par(o).c_str(), off); return false; } continue; }
        if (R.st != RES_OK) { viol(key(o), "no answer"); return false; }
        if (x.k == FAIL) { viol(key(o), "decoding %s accepted as %lld (%s, off %d)", in.str().c_str(), (long long)R.v, par(o).c_str(), off); return false; }
        int used = x.used < 0 ? (int)in.size() : x.used; By s(R.s, R.s + R.ns); if (R.pad) { R.v = x.v; if (s.size() > x.s.size()) s.resize(x.s.size()); }
        if (!x.anyval && (!(x.real ? samereal(R.v, x.v) : R.v == x.v) || s != x.s)) { viol(key(o), "decoding %s gives %lld %s, expected %lld %s (%s, off %d)", in.str().c_str(), (long long)R.v, show(s).c_str(), (long long)x.v, show(x.s).c_str(), par(o).c_str(), off); return false; }
        if (R.pos != off + used) { viol(key(o), "decoding %s consumed %d bits of %d (%s, off %d)", in.str().c_str(), R.pos - off, used, par(o).c_str(), off); return false; }
    }
    traced(); return true;
}
static Bits ub(U v, int n) { Bits b; b.u(v, n); return b; }
static std::vector<U> ubd(int n) { return n ? ubound(n) : std::vector<U>{0}; }
static U umask(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static I smin(int n) { return (I)(~0ull << (n - 1)); }
static I smax(int n) { return (I)umask(n - 1); }
static Bits le(const Bits& b) { Bits r; size_t n = b.size() / 8; for (size_t i = n; i--;) for (int j = 0; j < 8; j++) r.bit(b.b[i * 8 + j]); return r; }
static By by(const std::string& s) { return By(s.begin(), s.end()); }
static Bits txt(const std::string& s) { Bits b; for (char c : s) b.u((uint8_t)c, 8); return b; }
static std::string dig(U v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
static U uabs(I v) { return v < 0 ? 0 - (U)v : (U)v; }

// ---------------------------------------------------------------- bit level
static void bits(int off) {
    for (int v = 0; v < 2; v++) { MC_CASE("bit %d off=%d", v, off); enc({O_APPBIT, 64, {}, v}, off, ub(v, 1)); dec({O_READBIT}, off, ub(v, 1), 1, {OK, v}); enc({O_BOOL_E, 64, {}, v}, off, ub(v, 1)); dec({O_BOOL_D}, off, ub(v, 1), 1, {OK, v}); }
    for (int v = 0; v < 256; v++) { MC_CASE("byte %d off=%d", v, off); for (int neg = 0; neg < 2; neg++) enc({O_APPBYTE, 64, {neg}, v}, off, ub(neg ? ~v & 255 : v, 8)); dec({O_DECBYTE}, off, ub(v, 8), 8, {OK, v}); for (int d = 0; d < 18; d++) { Bits b = ub(0x2AAAA, d); b.u(v, 8); dec({O_PEEKBYTE, 64, {d}}, off, b, 0, {OK, v, {}, 0}); } if (v < 16) dec({O_NIBBLE}, off, ub(v, 4), 4, {OK, v}); }
    for (int n = 0; n < 8; n++) for (int v = 0; v < 1 << n; v++) { MC_CASE("partial %d of %d bits off=%d", v, n, off); for (int neg = 0; neg < 2; neg++) enc({O_APPPART, 64, {n, neg}, v}, off, ub(neg ? ~v & umask(n) : v, n)); if (n) { dec({O_READPART, 64, {n}}, off, ub(v, n), n, {OK, v}); for (int d = 0; d < 18; d++) { Bits b = ub(0x15555, d); b.u(v, n); dec({O_PEEKPART, 64, {d, n}}, off, b, 0, {OK, v, {}, 0}); } } }
    for (int n = 0; n <= 64; n++) for (U v : ubd(n)) { MC_CASE("%lld in %d bits off=%d", v, n, off); enc({O_ENCNN, 64, {n}, (I)v}, off, ub(v, n)); dec({O_DECNN, 64, {n}}, off, ub(v, n), n, {OK, (I)v}); if (n % 8 == 0) { enc({O_ENCUINT, 64, {n / 8}, (I)v}, off, ub(v, n)); dec({O_DECUINT, 64, {n / 8}}, off, ub(v, n), n, {OK, (I)v}); dec({O_DECINT, 64, {n / 8}}, off, ub(v, n), n, {OK, n && n < 64 && (v >> (n - 1) & 1) ? (I)(v | ~umask(n)) : (I)v}); } }
    for (int n = 0; n <= (g_thorough ? 200 : 100); n++) for (int pat = 0; pat < 6; pat++) {
        MC_CASE("%d bits pattern %d off=%d", n, pat, off); Bits b; for (int i = 0; i < n; i++) b.bit(pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i & 1 : pat == 3 ? i % 3 == 0 : pat == 4 ? i == n - 1 : i != n / 2); By pk = b.pack(0), pk1 = b.pack(1);
        if (n) { enc({O_APPBITS, 64, {n}, 0, pk}, off, b); enc({O_APPBITS, 64, {n}, 0, pk1}, off, b); } dec({O_READBITS, 64, {n}}, off, b, n, {OK, 0, pk});
        if (n) { enc({O_APPARR, 64, {n}, 0, b.b}, off, b); By more = b.b; more.push_back(1); more.push_back(0); enc({O_APPARR, 64, {n}, 0, more}, off, b); dec({O_READARR, 64, {n}}, off, b, n, {OK, 0, b.b}); }
        dec({O_SKIP, 64, {n}}, off, b, n, {OK});
        if (n) for (int d = -1; d < n; d += n > 20 ? 3 : 1) { Bits c = b; if (d >= 0) c.b[d] ^= 1; dec({O_MATCH, 64, {n}, 0, pk}, off, c, n, {OK, d < 0, {}, 0}); }
    }
}
static void bits2(int off) {
    for (int n = 0; n <= 64; n++) for (U v : ubd(n)) { MC_CASE("%lld in %d bits, least significant first off=%d", v, n, off); Bits b; for (int i = 0; i < n; i++) b.bit(v >> i & 1); enc({O_LSB_E, 64, {n}, (I)v}, off, b); dec({O_LSB_D, 64, {n}}, off, b, n, {OK, (I)v}); }
    for (int n = 0; n <= 200; n++) for (int v = 0; v < 2; v++) { MC_CASE("%d bits of %d off=%d", n, v, off); Bits b; for (int i = 0; i < n; i++) b.bit(v); enc({O_NBITS, 64, {n}, v}, off, b); }
    for (int v = 0; v < 2; v++) { MC_CASE("peek %d off=%d", v, off); dec({O_PEEKBIT}, off, ub(v, 1), 1, {OK, v, {}, 0}); }
    for (int a : {8, 16, 32}) for (int k = 0; k < 8; k++) { int at = 8 * k + off; MC_CASE("align to %d from %d", a, at); int u = (a - at % a) % a; enc({O_ALIGN, 64, {a}}, at, ub(0, u)); dec({O_ALIGN, 64, {a}}, at, ub(0, u), u, {OK, 0}); }
}
static std::vector<Bits> bitwords(int L) { std::vector<Bits> r; for (int n = 0; n <= L; n++) for (int c = 0; c < 1 << n; c++) r.push_back(ub(c, n)); return r; }
// bit string ended by a pattern: every input up to 10 bits, every pattern up to 3 bits
static void nullbits(int off) {
    auto pats = bitwords(3); pats.push_back(ub(0xAB, 8)); pats.push_back(ub(0x1F3, 9)); pats.push_back(ub(0, 8)); pats.push_back(ub(0xFFFF, 16)); int L = g_thorough ? 12 : 10;
    for (auto& pt : pats) { if (pt.size() == 0) continue; for (int mx = 1; mx <= 5; mx++) { int n = (int)pt.size() > 3 ? mx + 2 : std::min<int>(L, mx + (int)pt.size());
        for (int c = 0; c < 1 << n; c++) for (int at = 0; at <= ((int)pt.size() > 3 ? mx + 1 : 0); at++) { MC_CASE("terminated bits: pattern of %d bits, max %d, input %d of %d bits, pattern put at %d off=%d", (int)pt.size(), mx, c, n, at, off);
            Bits in; if (pt.size() > 3) { in = ub(c, at); in.cat(pt); } else in = ub(c, n); while ((int)in.size() < mx + (int)pt.size()) in.bit(c >> (in.size() % 5) & 1);
            auto m = [&](size_t p) { for (size_t i = 0; i < pt.size(); i++) if (in.b[p + i] != pt.b[i]) return false; return true; };
            int k = 0; while (k <= mx && !m(k)) k++; Ex x{FAIL}; if (k <= mx) { x.k = OK; x.v = k; x.s = By(in.b.begin(), in.b.begin() + k); x.used = k + (int)pt.size(); }
            dec({O_READNT, 64, {mx, (I)pt.size()}, 0, {}, pt.pack()}, off, in, mx + (int)pt.size(), x, true); } } }
}
// ---------------------------------------------------------------- integers of fixed and embedded size
static void pair(int e, int d, const std::vector<I>& pe, const std::vector<I>& pd, I v, int off, const Bits& b, int need = 0) { if (enc({e, 64, pe, v}, off, b, need)) dec({d, 64, pd}, off, b, need, {OK, v}); }
static bool fitsu(U v, int w) { return v <= umask(w); }
static bool fitss(I v, int w) { return v >= smin(w) && v <= smax(w); }
static void fixedints(int off) {
    for (int n = 1; n <= 64; n++) for (U v : ubound(n)) { MC_CASE("unsigned %lld in %d bits off=%d", v, n, off); Bits b = ub(v, n); if (n < 64 || !g_contracts) pair(O_UC_E, O_UC_D, {n}, {0, (I)umask(n), n}, (I)v, off, b);
        for (U mn : {(U)0, v, v ? v - 1 : 0, v + 1}) for (U mx : {v, umask(n), v ? v - 1 : 0}) if (mn <= mx) dec({O_UC_D, 64, {(I)mn, (I)mx, n}}, off, b, n, v >= mn && v <= mx ? Ex{OK, (I)v} : Ex{FAIL});
        for (int w : {8, 16, 32}) if (n <= w) { dec({O_UC_D, w, {0, (I)umask(w), n}}, off, b, n, {OK, (I)v}); if (v) dec({O_UC_D, w, {0, (I)(v - 1), n}}, off, b, n, {FAIL}); dec({O_UC_D, w, {(I)v, (I)umask(w), n}}, off, b, n, {OK, (I)v}); if (v < umask(w)) dec({O_UC_D, w, {(I)v + 1, (I)umask(w), n}}, off, b, n, {FAIL}); } }
    for (int n = 1; n <= 64; n++) for (I v : sbound(n)) { MC_CASE("signed %lld in %d bits off=%d", v, n, off); Bits b = ub((U)v & umask(n), n); if ((n > 1 && n < 64) || !g_contracts) pair(O_TC_E, O_TC_D, {n}, {smin(64), smax(64), n}, v, off, b);
        for (I mn : {smin(n), v, v < smax(64) ? v + 1 : v}) for (I mx : {v, smax(n), v > smin(64) ? v - 1 : v}) if (mn <= mx) dec({O_TC_D, 64, {mn, mx, n}}, off, b, n, v >= mn && v <= mx ? Ex{OK, v} : Ex{FAIL});
        for (int w : {8, 16, 32}) if (n <= w) { dec({O_TC_D, w, {smin(w), smax(w), n}}, off, b, n, {OK, v}); if (v < smax(w)) dec({O_TC_D, w, {v + 1, smax(w), n}}, off, b, n, {FAIL}); if (v > smin(w)) dec({O_TC_D, w, {smin(w), v - 1, n}}, off, b, n, {FAIL}); } }
    for (int by : {1, 2, 4, 8}) for (int l = 0; l < 2; l++) { if (by == 1 && l) continue;
        for (U v : ubound(by * 8)) { MC_CASE("unsigned %lld in %d octets le=%d off=%d", v, by, l, off); Bits b = ub(v, by * 8); if (l) b = le(b); int n = by * 8; pair(O_UB_E, O_UB_D, {by, l}, {by, l, 0, (I)umask(n)}, (I)v, off, b);
            if (v) dec({O_UB_D, 64, {by, l, 0, (I)(v - 1)}}, off, b, n, {FAIL}); if (v < umask(64)) dec({O_UB_D, 64, {by, l, (I)(v + 1), -1}}, off, b, n, {FAIL}); dec({O_UB_D, 64, {by, l, (I)v, (I)v}}, off, b, n, {OK, (I)v});
            for (int w : {8, 16, 32}) if (w <= n) { dec({O_UB_D, w, {by, l, 0, (I)umask(w)}}, off, b, n, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL}); if (fitsu(v, w)) { if (v) dec({O_UB_D, w, {by, l, 0, (I)v - 1}}, off, b, n, {FAIL}); if (v < umask(w)) dec({O_UB_D, w, {by, l, (I)v + 1, (I)umask(w)}}, off, b, n, {FAIL}); } } }
        for (I v : sbound(by * 8)) { MC_CASE("signed %lld in %d octets le=%d off=%d", v, by, l, off); int n = by * 8; Bits b = ub((U)v & umask(n), n); if (l) b = le(b); pair(O_TB_E, O_TB_D, {by, l}, {by, l, smin(n), smax(n)}, v, off, b);
            if (v > smin(64)) dec({O_TB_D, 64, {by, l, smin(64), v - 1}}, off, b, n, {FAIL}); if (v < smax(64)) dec({O_TB_D, 64, {by, l, v + 1, smax(64)}}, off, b, n, {FAIL}); dec({O_TB_D, 64, {by, l, v, v}}, off, b, n, {OK, v});
            for (int w : {8, 16, 32}) if (w <= n) { dec({O_TB_D, w, {by, l, smin(w), smax(w)}}, off, b, n, fitss(v, w) ? Ex{OK, v} : Ex{FAIL}); if (fitss(v, w)) { if (v > smin(w)) dec({O_TB_D, w, {by, l, smin(w), v - 1}}, off, b, n, {FAIL}); if (v < smax(w)) dec({O_TB_D, w, {by, l, v + 1, smax(w)}}, off, b, n, {FAIL}); } } } }
}
static int ulen(U v) { int n = 1; while (n < 8 && v >> (8 * n)) n++; return n; }
static int slen(I v) { int n = 1; while (n < 8 && !fitss(v, 8 * n)) n++; return n; }
static Bits vu(U v) { int n = ulen(v); return ub(n, 8).u(v, 8 * n); }
static Bits vs(I v) { int n = slen(v); return ub(n, 8).u((U)v & umask(8 * n), 8 * n); }
static void varints(int off) {
    for (U v : ubound(64)) { MC_CASE("length embedded unsigned %lld off=%d", v, off); pair(O_UV_E, O_UV_D, {}, {0}, (I)v, off, vu(v), 72); for (int w : {8, 16, 32}) dec({O_UV_D, w, {0}}, off, vu(v), 72, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL}); for (U mn : ubound(64)) if (v >= mn) { enc({O_SU_E, 64, {(I)mn}, (I)v}, off, vu(v - mn), 72); dec({O_SU_D, 64, {(I)mn}}, off, vu(v - mn), 72, {OK, (I)v}); } }
    for (I v : sbound(64)) { MC_CASE("length embedded signed %lld off=%d", v, off); pair(O_TV_E, O_TV_D, {}, {}, v, off, vs(v), 72); for (int w : {8, 16, 32}) dec({O_TV_D, w, {}}, off, vs(v), 72, fitss(v, w) ? Ex{OK, v} : Ex{FAIL}); pair(O_UI_E, O_UI_D, {}, {}, v, off, vs(v), 72); for (I mx : {v, v > smin(64) ? v - 1 : v, smax(64)}) dec({O_UIM_D, 64, {mx}}, off, vs(v), 72, v <= mx ? Ex{OK, v} : Ex{FAIL}); for (I mn : sbound(64)) if (v >= mn) { enc({O_SI_E, 64, {mn}, v}, off, vu((U)v - (U)mn), 72); dec({O_SI_D, 64, {mn}}, off, vu((U)v - (U)mn), 72, {OK, v}); } }
    // any length octet followed by any leading octets: never a wrong value
    static const int al[] = {0, 1, 0x7F, 0x80, 0xFF};
    for (int len = 0; len < 256; len++) for (int c = 0; c < 125; c++) for (int tail : {0x00, 0x5A, 0xFF}) { MC_CASE("announced %d octets, leading %d tail %x off=%d", len, c, tail, off);
        Bits b = ub(len, 8); By o; int q = c; for (int i = 0; i < len && i < 40; i++) { o.push_back(i < 3 ? al[q % 5] : tail); q /= 5; } b.bytes(o.data(), o.size());
        W x = 0; bool big = false, neg = len && (o[0] & 0x80); for (uint8_t t : o) { x = x << 8 | t; if (x >> 64) big = true; if (big) x = (W)1 << 64; } if (len > 40) big = true;
        bool smallok = len >= 1 && len <= 8; U uv = (U)x; I sv = 0; if (smallok) { sv = (I)(U)x; if (len < 8 && neg) sv = (I)((U)x | ~umask(8 * len)); }
        bool minu = smallok && ulen(uv) == len, mins = smallok && slen(sv) == len; Kind ku = smallok ? (minu ? OK : MAY) : big ? FAIL : len ? MAY : ANY, ks = smallok ? (mins ? OK : MAY) : len ? FAIL : ANY; bool weaks = !smallok && len;
        dec({O_UV_D, 64, {0}}, off, b, 72, {ku, (I)uv}); dec({O_SU_D, 64, {0}}, off, b, 72, {ku, (I)uv}); dec({O_SU_D, 64, {(I)0x8000000000000001ull}}, off, b, 72, ku == ANY || ku == FAIL ? Ex{ku} : uv <= ~0ull - 0x8000000000000001ull ? Ex{ku, (I)(uv + 0x8000000000000001ull)} : Ex{FAIL});
        if (!weaks) { dec({O_TV_D, 64, {}}, off, b, 72, {ks, sv}); dec({O_UI_D, 64, {}}, off, b, 72, {ks, sv}); dec({O_UIM_D, 64, {0}}, off, b, 72, ks == ANY ? Ex{ANY} : sv <= 0 ? Ex{ks, sv} : Ex{FAIL}); } else { dec({O_TV_D, 64, {}}, off, b, 72, {len > 8 ? ANY : FAIL}); dec({O_UI_D, 64, {}}, off, b, 72, {len > 8 ? ANY : FAIL}); }
        for (I mn : {(I)0, smin(64), (I)-1, smax(64)}) { bool fit = !big && (mn < 0 ? uv <= (U)smax(64) - (U)mn : uv <= (U)smax(64) - (U)mn); dec({O_SI_D, 64, {mn}}, off, b, 72, ku == ANY || ku == FAIL ? Ex{ku} : fit ? Ex{ku, (I)((U)mn + uv)} : Ex{FAIL}); } }
}
static void uperints(int off) {
    auto rng = [&](I mn, I mx) { U d = (U)mx - (U)mn; int n = bitlen(d); std::set<I> vs; for (U k : ubd(n)) if (k <= d) vs.insert((I)((U)mn + k)); vs.insert(mx); for (I v : vs) { pair(O_CI_E, O_CI_D, {mn, n, mx}, {mn, mx, n}, v, off, ub((U)v - (U)mn, n)); for (int w : {8, 16, 32}) if (fitss(mn, w) && fitss(mx, w) && n <= w) dec({O_CI_D, w, {mn, mx, n}}, off, ub((U)v - (U)mn, n), n, {OK, v}); if (fitss(mn, 32) && fitss(mx, 32)) dec({O_CII_D, 64, {mn, mx, n}}, off, ub((U)v - (U)mn, n), n, {OK, v}); }
        for (U k : ubd(n)) if (k > d) { dec({O_CI_D, 64, {mn, mx, n}}, off, ub(k, n), n, {FAIL}); for (int w : {8, 16, 32}) if (fitss(mn, w) && fitss(mx, w) && n <= w) dec({O_CI_D, w, {mn, mx, n}}, off, ub(k, n), n, {FAIL}); if (fitss(mn, 32) && fitss(mx, 32)) dec({O_CII_D, 64, {mn, mx, n}}, off, ub(k, n), n, {FAIL}); } };
    std::vector<I> bs; for (I v : sbound(64)) { int k = bitlen(uabs(v)); if (k <= 3 || k % 8 <= 1 || k >= 62) bs.push_back(v); }
    if (!g_thorough) { std::vector<I> t; for (size_t i = 0; i < bs.size(); i++) if (i % 3 == 0 || i < 4 || i + 4 > bs.size() || (bs[i] > -4 && bs[i] < 4)) t.push_back(bs[i]); bs = t; }
    for (I mn : bs) for (I mx : bs) { if (mn > mx) continue; MC_CASE("constrained %lld..%lld off=%d", mn, mx, off); rng(mn, mx); }
    for (I mn = -9; mn <= 9; mn++) for (I mx = mn; mx <= 260; mx++) { MC_CASE("constrained %lld..%lld off=%d", mn, mx, off); rng(mn, mx); }
    std::vector<U> us; for (U v : ubound(64)) { int k = bitlen(v); if (k <= 3 || k % 8 <= 1 || k >= 62) us.push_back(v); } if (!g_thorough) { std::vector<U> t; for (size_t i = 0; i < us.size(); i++) if (i % 3 == 0 || i < 4 || i + 4 > us.size()) t.push_back(us[i]); us = t; }
    for (U mn : us) for (U mx : us) { if (mn > mx) continue; MC_CASE("constrained unsigned %lld..%lld off=%d", mn, mx, off); U d = mx - mn; int n = bitlen(d); std::set<U> vs; for (U k : ubd(n)) if (k <= d) vs.insert(mn + k); vs.insert(mx);
        for (U v : vs) { pair(O_CU_E, O_CU_D, {(I)mn, n, (I)mx}, {(I)mn, (I)mx, n}, (I)v, off, ub(v - mn, n)); for (int w : {8, 16, 32}) if (fitsu(mx, w)) dec({O_CU_D, w, {(I)mn, (I)mx, n}}, off, ub(v - mn, n), n, {OK, (I)v}); }
        for (U k : ubd(n)) if (k > d) { dec({O_CU_D, 64, {(I)mn, (I)mx, n}}, off, ub(k, n), n, {FAIL}); for (int w : {8, 16, 32}) if (fitsu(mx, w)) dec({O_CU_D, w, {(I)mn, (I)mx, n}}, off, ub(k, n), n, {FAIL}); } }
}
// ---------------------------------------------------------------- decimal integers
static std::string zp(const std::string& s, size_t n) { return s.size() < n ? std::string(n - s.size(), '0') + s : s; }
static std::vector<U> decs() { std::set<U> r; U p = 1; for (int k = 0; k < 20; k++) { for (int d : {-1, 0, 1}) r.insert(p + d); for (int m = 2; m < 10; m++) if (p <= ~0ull / m) r.insert(p * m); p = k < 19 ? p * 10 : p; } r.erase(~0ull); r.insert(0); for (U v : ubound(64)) r.insert(v); return std::vector<U>(r.begin(), r.end()); }
static Bits nib(const std::string& s) { Bits b; for (char c : s) b.u(c <= '9' ? c - '0' : c - 'A' + 10, 4); return b; }
static const By TERM[] = {{0}, {0x0D, 0x0A}, {'A', 'A', 'B'}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 250}};
static const U P18 = 1000000000000000000ull;
// operations outside the stated contracts are left out when contracts are checked
static bool dcd(Op_ o, int off, const Bits& in, int need, const Ex& x, bool onefill = false) {
    if (g_contracts && o.op == O_BC_D) { U cap = 1; for (I i = 0; i < o.p[2]; i++) cap *= 10; cap--; if ((U)o.p[1] > cap) o.p[1] = (I)cap; if ((U)o.p[0] > (U)o.p[1]) return true; }
    if (g_contracts && o.op == O_AUC_D) { if (o.p[2] < 2) return true; if ((U)o.p[1] > 10 * P18 - 1) o.p[1] = (I)(10 * P18 - 1); if ((U)o.p[0] > (U)o.p[1]) return true; }
    if (g_contracts && (o.op == O_AUN_D || o.op == O_AIN_D) && o.s2.size() > 9) return true;
    return dec(o, off, in, need, x, onefill);
}
static Bits tb(int t) { Bits b; b.bytes(TERM[t].data(), TERM[t].size()); return b; }
static void pairc(int e, int d, const std::vector<I>& pe, const std::vector<I>& pd, I v, int off, const Bits& b, int need = 0) { if (enc({e, 64, pe, v}, off, b, need)) dcd({d, 64, pd}, off, b, need, {OK, v}); }
static void decimals(int off) {
    for (U v : decs()) { MC_CASE("decimal %lld off=%d", v, off); std::string s = dig(v); int l = (int)s.size();
        for (int n : {l, l + 1, 19, 18}) if (n >= l && n <= 19) { Bits b = nib(zp(s, n)); pairc(O_BC_E, O_BC_D, {n}, {0, -1, n}, (I)v, off, b); if (v) dcd({O_BC_D, 64, {0, (I)(v - 1), n}}, off, b, 4 * n, {FAIL}); dcd({O_BC_D, 64, {(I)(v + 1), -1, n}}, off, b, 4 * n, {FAIL}); for (int w : {8, 16, 32}) if (n <= 19) dcd({O_BC_D, w, {0, (I)umask(w), n}}, off, b, 4 * n, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL});
            Bits t = txt(zp(s, n)); pairc(O_AUC_E, O_AUC_D, {n}, {0, -1, n}, (I)v, off, t); if (v) dcd({O_AUC_D, 64, {0, (I)(v - 1), n}}, off, t, 8 * n, {FAIL}); for (int w : {8, 16, 32}) dcd({O_AUC_D, w, {0, (I)umask(w), n}}, off, t, 8 * n, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL}); }
        if (v < 10 * P18) { Bits b = nib(s + "F"); enc({O_BN_E, 64, {}, (I)v}, off, b, 84); dcd({O_BN_D, 64, {0, (I)(10 * P18 - 1)}}, off, b, 80, {OK, (I)v}); if (v) dcd({O_BN_D, 64, {0, (I)(v - 1)}}, off, b, 80, {FAIL}); for (int w : {8, 16, 32}) dcd({O_BN_D, w, {0, (I)umask(w)}}, off, b, 80, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL});
            enc({O_BL_E, 64, {}, (I)v}, off, ub(l, 8).cat(nib(s)), 96); dcd({O_BL_D}, off, ub(l, 8).cat(nib(s)), 96, {OK, (I)v}); for (int w : {8, 16, 32}) dcd({O_BL_D, w}, off, ub(l, 8).cat(nib(s)), 96, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL});
            enc({O_AUL_E, 64, {}, (I)v}, off, ub(l, 8).cat(txt(s)), 168); dcd({O_AUL_D}, off, ub(l, 8).cat(txt(s)), 168, {OK, (I)v}); for (int w : {8, 16, 32}) dcd({O_AUL_D, w}, off, ub(l, 8).cat(txt(s)), 168, fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL}); }
        for (int t = 0; t < 4; t++) { Bits b = txt(s).cat(tb(t)); enc({O_AUN_E, 64, {}, (I)v, {}, TERM[t]}, off, b); dcd({O_AUN_D, 64, {}, 0, {}, TERM[t]}, off, b, 8 * (20 + (int)TERM[t].size()), {OK, (I)v}); for (int w : {8, 16, 32}) dcd({O_AUN_D, w, {}, 0, {}, TERM[t]}, off, b, 8 * (20 + (int)TERM[t].size()), fitsu(v, w) ? Ex{OK, (I)v} : Ex{FAIL}); }
        for (int sg = 0; sg < 2; sg++) { if (v > (U)smax(64) + sg) continue; if (sg && !v) continue; I x = sg ? (I)(0 - v) : (I)v; std::string z = (sg ? "-" : "+") + s; int L = l + 1;
            for (int n : {L, L + 1, 20, 19}) if (n >= L && n <= 20) { Bits t = txt((sg ? "-" : "+") + zp(s, n - 1)); pairc(O_AIC_E, O_AIC_D, {n}, {smin(64), smax(64), n}, x, off, t); if (x > smin(64)) dcd({O_AIC_D, 64, {smin(64), x - 1, n}}, off, t, 8 * n, {FAIL}); if (x < smax(64)) dcd({O_AIC_D, 64, {x + 1, smax(64), n}}, off, t, 8 * n, {FAIL}); for (int w : {8, 16, 32}) dcd({O_AIC_D, w, {smin(w), smax(w), n}}, off, t, 8 * n, fitss(x, w) ? Ex{OK, x} : Ex{FAIL}); }
            if (v < P18) { enc({O_AIL_E, 64, {}, x}, off, ub(L, 8).cat(txt(z)), 160); dcd({O_AIL_D}, off, ub(L, 8).cat(txt(z)), 160, {OK, x}); for (int w : {8, 16, 32}) dcd({O_AIL_D, w}, off, ub(L, 8).cat(txt(z)), 160, fitss(x, w) ? Ex{OK, x} : Ex{FAIL}); }
            for (int t = 0; t < 4; t++) { Bits b = txt(z).cat(tb(t)); enc({O_AIN_E, 64, {}, x, {}, TERM[t]}, off, b); dcd({O_AIN_D, 64, {}, 0, {}, TERM[t]}, off, b, 8 * (21 + (int)TERM[t].size()), {OK, x}); for (int w : {8, 16, 32}) dcd({O_AIN_D, w, {}, 0, {}, TERM[t]}, off, b, 8 * (21 + (int)TERM[t].size()), fitss(x, w) ? Ex{OK, x} : Ex{FAIL}); } }
    }
}
static void badnib(int off) {
    const std::string al = "019ADEF"; int K = (int)al.size(), M = g_thorough ? 6 : 5;
    auto go = [&](const std::string& s) {
        // constant size
        for (int n = 1; n <= (int)s.size() && n <= 19; n++) { bool ok = true; U v = 0; for (int i = 0; i < n; i++) { if (s[i] > '9') ok = false; v = v * 10 + (s[i] - '0'); } dcd({O_BC_D, 64, {0, -1, n}}, off, nib(s), 4 * n, ok ? Ex{OK, (I)v, {}, 4 * n} : Ex{FAIL}, true); }
        size_t f = s.find('F'); bool other = s.substr(0, f).find_first_of("ABCDE") != std::string::npos; W v = 0; bool big = false; for (size_t i = 0; i < (f == std::string::npos ? s.size() : f); i++) { v = v * 10 + (s[i] <= '9' ? s[i] - '0' : 0); if (v >= (W)10 * P18) { big = true; v = (W)10 * P18; } }
        // an end mark other than F is judged leniently only as far as no wrong value comes out
        if (f == std::string::npos) { if (s.size() >= 22) dcd({O_BN_D, 64, {0, (I)(10 * P18 - 1)}}, off, nib(s), 80, other ? Ex{ANY} : Ex{FAIL}); return; }
        Kind k = other ? ANY : big ? FAIL : f == 0 ? ANY : f > 19 ? MAY : OK; dcd({O_BN_D, 64, {0, (I)(10 * P18 - 1)}}, off, nib(s), 84, {k, (I)(U)v, {}, (int)(4 * f + 4)}); };
    for (int n = 1; n <= M; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= K; for (int c = 0; c < tot; c++) { MC_CASE("nibbles n=%d code=%d off=%d", n, c, off); std::string s; int q = c; for (int i = 0; i < n; i++) { s += al[q % K]; q /= K; } go(s); } }
    for (int n = 15; n <= 24; n++) for (char a : {'0', '1', '8', '9'}) for (char m : {'0', '4', '9'}) for (char e : {'0', '9', 'A', 'F'}) { MC_CASE("%d nibbles %d %d %d off=%d", n, a, m, e, off); std::string s(n, m); s[0] = a; s[n - 1] = e; go(s); go(s + "F"); }
}
static void badtxt(int off) {
    static const uint8_t al[] = {'0', '1', '9', '+', '-', ' ', '/', ':', 0x0D, 0x0A, 0, 0xFF, 'A', 'B'}; int K = g_thorough ? 14 : 12, M = g_thorough ? 4 : 3;
    auto go = [&](const By& s) { Bits b; b.bytes(s.data(), s.size()); auto num = [&](size_t from, size_t to, bool& ok, W& v) { ok = to > from; v = 0; for (size_t i = from; i < to; i++) { if (s[i] < '0' || s[i] > '9') { ok = false; return; } v = v * 10 + (s[i] - '0'); if (v > ((W)1 << 66)) v = (W)1 << 66; } };
        for (int n = 1; n <= (int)s.size() && n <= 20; n++) { bool ok; W v; if (n <= 19) { num(0, n, ok, v); dcd({O_AUC_D, 64, {0, -1, n}}, off, b, 8 * n, ok ? Ex{OK, (I)(U)v, {}, 8 * n} : Ex{FAIL}, true); dcd({O_AUC_D, 8, {0, 255, n}}, off, b, 8 * n, ok && v < 256 ? Ex{OK, (I)(U)v, {}, 8 * n} : Ex{FAIL}, true); }
            if (n >= 2) { num(1, n, ok, v); bool neg = s[0] == '-'; if (s[0] != '+' && s[0] != '-') ok = false; if (v > (W)smax(64) + neg) ok = false; dcd({O_AIC_D, 64, {smin(64), smax(64), n}}, off, b, 8 * n, ok ? Ex{OK, neg ? (I)(0 - (U)v) : (I)(U)v, {}, 8 * n} : Ex{FAIL}, true); } }
        for (int t = 0; t < 4; t++) { size_t T = TERM[t].size(); By z = s; while (z.size() < 21 + T) z.push_back('7'); Bits zb; zb.bytes(z.data(), z.size()); size_t f = std::string::npos; for (size_t i = 0; i + T <= z.size() && f == std::string::npos; i++) if (!memcmp(&z[i], TERM[t].data(), T)) f = i; if (f != std::string::npos && f + T > s.size()) f = std::string::npos;
            bool ok = false; W v = 0; if (f != std::string::npos) { num(0, f, ok, v); if (v > ~0ull) ok = false; } Kind k = f == std::string::npos ? FAIL : f == 0 ? ANY : ok ? (f > 18 ? MAY : OK) : FAIL; dcd({O_AUN_D, 64, {}, 0, {}, TERM[t]}, off, zb, 8 * (20 + (int)T), {k, (I)(U)v, {}, (int)(8 * (f + T))}, true);
            ok = false; v = 0; bool neg = !s.empty() && s[0] == '-', sg = !s.empty() && (s[0] == '-' || s[0] == '+'); if (f != std::string::npos && sg) { num(1, f, ok, v); if (v > (W)smax(64) + neg) ok = false; } k = f == std::string::npos ? FAIL : sg ? (f <= 1 ? ANY : ok ? (f > 19 ? MAY : OK) : FAIL) : f == 0 ? ANY : ANY; dcd({O_AIN_D, 64, {}, 0, {}, TERM[t]}, off, zb, 8 * (21 + (int)T), {k, neg ? (I)(0 - (U)v) : (I)(U)v, {}, (int)(8 * (f + T))}, true); } };
    for (int n = 1; n <= M; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= K; for (int c = 0; c < tot; c++) { MC_CASE("characters n=%d code=%d off=%d", n, c, off); By s; int q = c; for (int i = 0; i < n; i++) { s.push_back(al[q % K]); q /= K; } go(s); } }
    for (int n = 16; n <= 24; n++) for (int sg = 0; sg < 3; sg++) for (char a : {'0', '1', '8', '9'}) for (char m : {'0', '2', '4', '9'}) for (int e : std::initializer_list<int>{'0', '5', '7', '8', '9', ':', 0}) for (int t = -1; t < 4; t++) { MC_CASE("%d characters sign %d %d %d %d end %d off=%d", n, sg, a, m, e, t, off); By s(n, m); s[0] = a; s[n - 1] = e; if (sg) s.insert(s.begin(), sg == 1 ? '+' : '-'); if (t >= 0) s.insert(s.end(), TERM[t].begin(), TERM[t].end()); go(s); }
    for (const char* q : {"18446744073709551615", "18446744073709551616", "18446744073709551620", "9223372036854775807", "9223372036854775808", "9223372036854775809", "99999999999999999999", "20000000000000000000", "36893488147419103232"}) for (int sg = 0; sg < 3; sg++) for (int t = -1; t < 4; t++) { MC_CASE("number starting with %d sign %d end %d off=%d", q[0], sg, t, off); By s = by(q); if (sg) s.insert(s.begin(), sg == 1 ? '+' : '-'); if (t >= 0) s.insert(s.end(), TERM[t].begin(), TERM[t].end()); go(s); }
}
// ---------------------------------------------------------------- reals
static Bits rmodel(U b) {
    Bits r; int s = b >> 63; int ef = (int)(b >> 52 & 2047); U m = b & umask(52); if (ef == 2047) { r.u(1, 8).u(m ? 0x42 : s ? 0x41 : 0x40, 8); return r; } if (!ef && !m) { if (s) r.u(1, 8).u(0x43, 8); else r.u(0, 8); return r; }
    U N; int e; if (ef) { N = m | 1ull << 52; e = ef - 1075; } else { N = m; e = -1074; } int el = e >= -128 && e <= 127 ? 1 : 2, ml = (bitlen(N) + 7) / 8; r.u(1 + el + ml, 8).u(0x80 | s << 6 | (el - 1), 8).u((U)(I)e & umask(el * 8), el * 8).u(N, ml * 8); return r;
}
static Bits rnorm(U b) { // mantissa odd
    Bits r; int s = b >> 63; int ef = (int)(b >> 52 & 2047); U m = b & umask(52); if (ef == 2047 || (!ef && !m)) return rmodel(b); U N; int e; if (ef) { N = m | 1ull << 52; e = ef - 1075; } else { N = m; e = -1074; } while (!(N & 1)) { N >>= 1; e++; } int el = e >= -128 && e <= 127 ? 1 : 2, ml = (bitlen(N) + 7) / 8; r.u(1 + el + ml, 8).u(0x80 | s << 6 | (el - 1), 8).u((U)(I)e & umask(el * 8), el * 8).u(N, ml * 8); return r;
}
static Bits rfull(U b) { // mantissa of 53 bits, for numbers below the normal range too
    Bits r; int s = b >> 63; int ef = (int)(b >> 52 & 2047); U N = b & umask(52); if (ef || !N) return rmodel(b); int e = -1074; while (!(N >> 52)) { N <<= 1; e--; } r.u(10, 8).u(0x80 | s << 6 | 1, 8).u((U)(I)e & umask(16), 16).u(N, 56); return r;
}
static I d2b(double d) { I b; memcpy(&b, &d, 8); return b; }
static double b2d(U b) { double d; memcpy(&d, &b, 8); return d; }
static std::vector<U> mants() { std::set<U> s; U full = umask(52); for (int i = 0; i < 52; i++) { s.insert(1ull << i); s.insert((1ull << i) - 1); s.insert(full & ~((1ull << i) - 1)); s.insert(full ^ (1ull << i)); } s.insert(full); s.insert(full / 3); s.insert(0); return std::vector<U>(s.begin(), s.end()); }
// which reals each runtime keeps: NaN payloads are not kept
static void reals(int off, int part, int parts) {
    auto one = [&](U b) {
        Bits m = rmodel(b), n = rnorm(b); bool nan = std::isnan(b2d(b)); if (!nan || true) { if (!enc({O_REAL_E, 64, {}, (I)b}, off, std::vector<Bits>{m, n, rfull(b)}, 104)) return; }
        for (auto& e : {m, n, rfull(b)}) { dec({O_REAL_D}, off, e, 104, {OK, (I)b, {}, -1, true}); double d = b2d(b); float f = (float)d; if ((nan || std::isinf(d) || std::fabs(d) <= 3.4028234663852886e38)) dec({O_REAL_D, 32}, off, e, 104, {OK, d2b(f), {}, -1, true}); } };
    auto ms = mants();
    for (int e = 0; e < 2048; e++) { if (e % parts != part) continue; if (!g_thorough && off != 0 && e > 70 && e < 2000 && (e < 950 || e > 1150) && e % 16) continue; for (size_t i = 0; i < ms.size(); i++) { if (!g_thorough && (e > 2 && e < 1000) && i % 9 && i > 3) continue; for (int s = 0; s < 2; s++) { MC_CASE("real sign %d exponent %d mantissa %lld off=%d", s, e, ms[i], off); one((U)s << 63 | (U)e << 52 | ms[i]); } } }
}
static double ldx(W N, long e, int sign, bool& exact) { // nearest double of N * 2^e
    exact = true; if (!N) return sign ? -0.0 : 0.0; while (!(N & 1)) { N >>= 1; e++; } int n = 0; { W t = N; while (t) { n++; t >>= 1; } } if (n > 53) exact = false; if (e + n > 1024 || e < -1074 ) exact = false; long lo = e + n - 53; if (lo < -1074) lo = -1074; if (e < lo) exact = false; if (!exact) return 0; double d = ldexp((double)(U)N, (int)(e < -2000 ? -2000 : e)); return sign ? -d : d;
}
// a value between two doubles: refused, or rounded to one of them; too large or too small: refused, infinite or zero
static void nearreal(const Op_& o, int off, const Bits& b, W N, long e, int sign) {
    if (SCALA || !dec(o, off, b, 104, {ANY}) || !has(o.op, o.w) || R.st != RES_OK) return; double g = b2d((U)R.v), d = (double)N; if (sign) d = -d; double x = ldexp(d, (int)std::max(-100000l, std::min(100000l, e)));
    if (!(g == x || g == nextafter(x, INFINITY) || g == nextafter(x, -INFINITY))) viol(key(o), "decoding %s gives %a, expected about %a (off %d)", b.str().c_str(), g, x, off);
}
// arbitrary REAL contents: header x exponent x mantissa; values that fit exactly must come out exactly, reserved forms are refused
static void realany(int off) {
    static const long es[] = {0, 1, -1, 2, -3, 10, 127, -128, 128, -129, 255, 330, 400, 1000, 1023, -1000, -1022, -1074, -1075, -1080, 2000, -2000, 32767, -32768, 70000, -70000, 8388607, -8388608};
    static const U Ns[] = {1, 2, 3, 4, 8, 0x80, 0xFF, 0x100, 0x101, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x1000000000ull, 0x10000000000000ull, 0x10000000000001ull, 0x1FFFFFFFFFFFFFull, 0x20000000000000ull, 0x3FFFFFFFFFFFFEull, 0x8000000000000000ull, 0xFFFFFFFFFFFFF800ull, 0x4000000000000000ull, 0x2000000000000000ull, 0};
    for (int h = 0; h < 256; h++) { if (!(h & 0x80)) continue; for (long e : es) for (U N : Ns) for (int pad = 0; pad < 2; pad++) { MC_CASE("real header %x exponent %d mantissa %llx padded %d off=%d", h, e, N, pad, off);
        int F = h >> 2 & 3, base = h >> 4 & 3, el = h & 3, sg = h >> 6 & 1; int need = e >= -128 && e <= 127 ? 1 : e >= -32768 && e <= 32767 ? 2 : 3; int n = el + 1; Bits c; c.u(h, 8); if (el == 3) { n = need; c.u(n, 8); } else if (need > n) continue; c.u((U)(I)e & umask(8 * n), 8 * n); int ml = (bitlen(N) + 7) / 8; if (!ml) ml = 1; ml += pad; c.u(N, 8 * ml); int L = (int)c.size() / 8; if (L > (SCALA ? 10 : 12)) continue; Bits b = ub(L, 8).cat(c);
        if (base == 3) { dec({O_REAL_D}, off, b, 104, {FAIL}); continue; } bool ex; double d = ldx((W)N, e * (base == 0 ? 1 : base == 1 ? 3 : 4) + F, sg, ex); if (!N) { dec({O_REAL_D}, off, b, 104, {ANY}); continue; }
        // forms that are legal but never written by the encoder may be refused: exponent length in an octet of its own, padding
        if (!ex) { nearreal({O_REAL_D}, off, b, (W)N, e * (base == 0 ? 1 : base == 1 ? 3 : 4) + F, sg); continue; }
        Kind k = pad || el == 3 || n > need || n > 2 ? MAY : OK; dec({O_REAL_D}, off, b, 104, {k, d2b(d), {}, -1, true}); } }
    for (int L = 0; L < 256; L++) for (int h = 0; h < 256; h++) for (int t : {0x00, 0x01, 0xFF}) { MC_CASE("real of %d octets, header %x, then %x off=%d", L, h, t, off); Bits b = ub(L, 8); if (L) b.u(h, 8); for (int i = 1; i < L && i < 16; i++) b.u(t, 8); Ex x{ANY}; if (L == 0) x = {OK, 0}; else if (L > 15 && t) x = {FAIL}; else if (h == 0x40 || h == 0x41 || h == 0x42 || h == 0x43) { if (L == 1) x = {OK, d2b(h == 0x40 ? INFINITY : h == 0x41 ? -INFINITY : h == 0x42 ? NAN : -0.0), {}, 16, true}; else x = {FAIL}; } else if (h & 0x80 && (L <= 2 || (L < 16 && (h & 3) < 3 && L <= 2 + (h & 3)))) x = {FAIL}; else if (h >= 0x44 && h < 0x80) x = {FAIL}; if (L == 0) x.real = true; int el = (h & 3) + 1, base = h >> 4 & 3; if (x.k == ANY && h & 0x80 && base < 3 && (h & 3) < 3 && L > 1 + el && L < 16) { I ev = t == 0xFF ? -1 : 0; if (t == 1) for (int i = 0; i < el; i++) ev = ev << 8 | 1; W N = 0; for (int i = 0; i < L - 1 - el; i++) N = N << 8 | (W)t; if (N) { nearreal({O_REAL_D}, off, b, N, (long)ev * (base == 0 ? 1 : base == 1 ? 3 : 4) + (h >> 2 & 3), h >> 6 & 1); continue; } } dec({O_REAL_D}, off, b, 104, x); if (!has(O_REAL_D, 32)) continue; dec({O_REAL_D, 32}, off, b, 104, x); }
}
static void ieee(int off) {
    std::vector<U> ms = mants(); static const U m32[] = {0, 1, 2, 3, 0x400000, 0x400001, 0x7FFFFF, 0x7FFFFE, 0x555555, 0x2AAAAA, 0x100, 0xFF, 0x8000, 0x10000};
    for (int e = 0; e < 2048; e += (e > 8 && e < 2038 && !g_thorough ? 5 : 1)) for (size_t i = 0; i < ms.size(); i += (g_thorough ? 1 : 4)) for (int s = 0; s < 2; s++) { MC_CASE("IEEE 754 64 sign %d exponent %d mantissa %lld off=%d", s, e, ms[i], off); U b = (U)s << 63 | (U)e << 52 | ms[i]; bool nan = e == 2047 && ms[i]; for (int l = 0; l < 2; l++) { Bits w = ub(b, 64); if (l) w = le(w); if (!nan) enc({O_IEEE_E, 64, {l}, (I)b}, off, w); dec({O_IEEE_D, 64, {l}}, off, w, 64, {OK, (I)b, {}, -1, true}); } }
    for (int e = 0; e < 256; e++) for (U m : m32) for (int s = 0; s < 2; s++) { MC_CASE("IEEE 754 32 sign %d exponent %d mantissa %lld off=%d", s, e, m, off); uint32_t b = (uint32_t)s << 31 | (uint32_t)e << 23 | (uint32_t)m; float f; memcpy(&f, &b, 4); bool nan = f != f; I v = d2b((double)f); for (int l = 0; l < 2; l++) { Bits w = ub(b, 32); if (l) w = le(w); if (!nan && !(g_contracts && std::isinf(f))) enc({O_IEEE_E, 32, {l}, v}, off, w); dec({O_IEEE_D, 32, {l}}, off, w, 32, {OK, v, {}, -1, true}); dec({O_IEEE_D, 33, {l}}, off, w, 32, {OK, v, {}, -1, true}); } }
    // a wider number stored in 32 bits is rounded to the nearest
    for (int e = 890; e < 1150; e++) for (size_t i = 0; i < ms.size(); i += 3) { MC_CASE("IEEE 754 32 of a double exponent %d mantissa %lld off=%d", e, ms[i], off); U b = (U)e << 52 | ms[i]; float f = (float)b2d(b); if (std::isinf(f)) continue; uint32_t q; memcpy(&q, &f, 4); for (int l = 0; l < 2; l++) { Bits w = ub(q, 32); if (l) w = le(w); enc({O_IEEE_E, 32, {l}, (I)b}, off, w); } }
}
// ---------------------------------------------------------------- strings of octets and bits
static By fillb(int n, int pat) { By r(n); for (int i = 0; i < n; i++) r[i] = (uint8_t)(pat == 0 ? i * 37 + 11 : pat == 1 ? 0 : pat == 2 ? 0xFF : (i & 1 ? 0x80 : 0x01)); return r; }
static Bits frag(const Bits& d, size_t unit) { Bits r; size_t n = d.size() / unit, p = 0; while (n - p >= 16384) { size_t k = std::min<size_t>((n - p) / 16384, 4); r.u(0xC0 | k, 8); r.b.insert(r.b.end(), d.b.begin() + p * unit, d.b.begin() + (p + k * 16384) * unit); p += k * 16384; } n -= p; if (n < 128) r.u(n, 8); else r.u(0x8000 | n, 16); r.b.insert(r.b.end(), d.b.begin() + p * unit, d.b.end()); return r; }
static void octets(int off) {
    static const int sz[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 64, 127, 128, 129, 200, 255, 256, 300};
    for (int n : sz) for (int pat = 0; pat < 4; pat++) { MC_CASE("octets %d pattern %d off=%d", n, pat, off); By d = fillb(n, pat); Bits b; b.bytes(d.data(), n); enc({O_OCTN_E, 64, {n}, 0, d}, off, b); dec({O_OCTN_D, 64, {n}}, off, b, 8 * n, {OK, n, d}); }
    std::vector<std::pair<int, int>> rg; for (int a = 0; a <= 9; a++) for (int b = std::max(a, 1); b <= 9; b++) rg.push_back({a, b}); for (int m : {127, 128, 255, 256, 300, 1000, 16384, 65535}) for (int a : {0, 1, m - 1, m}) rg.push_back({a, m});
    for (auto& r : rg) { int w = bitlen(r.second - r.first); std::set<int> ns = {r.first, r.first + 1, (r.first + r.second) / 2, r.second - 1, r.second}; if (r.second < 12) for (int i = r.first; i <= r.second; i++) ns.insert(i);
        for (int n : ns) { if (n < r.first || n > r.second) continue; MC_CASE("octet/bit string of %d in %d..%d off=%d", n, r.first, r.second, off); std::vector<I> p = {w, r.first, r.second};
            By d = fillb(n, 0); Bits b = ub(n - r.first, w); b.bytes(d.data(), n); enc({O_OCT_E, 64, p, n, d}, off, b, w + 8 * n); dec({O_OCT_D, 64, p}, off, b, w + 8 * r.second, {OK, n, d});
            Bits q; for (int i = 0; i < n; i++) q.bit((i * 7 + 3) % 5 < 2); By qb = q.pack(0); Bits e = ub(n - r.first, w); e.cat(q); enc({O_BST_E, 64, p, n, qb}, off, e, w + n); dec({O_BST_D, 64, p}, off, e, w + r.second, {OK, n, qb}); }
        for (U k : ubd(w)) if (k > (U)(r.second - r.first)) { MC_CASE("announced length %lld above %d..%d off=%d", k, r.first, r.second, off); dec({O_OCT_D, 64, {w, r.first, r.second}}, off, ub(k, w), w + 8 * r.second, {FAIL}); dec({O_BST_D, 64, {w, r.first, r.second}}, off, ub(k, w), w + r.second, {FAIL}); } }
    if (g_contracts) return;
    if (off && off != 3 && off != 5 && !g_thorough) return;
    for (int mx : {65536, 66000}) for (int mn : {0, 1, 200}) for (int n : {0, 1, 127, 128, 199, 200, 16383, 16384, 16385, 16384 + 128, 32768, 32768 + 200, 49151, 49152, 49153, 65535, 65536, 65537, 65536 + 128, 66000}) { if (n > mx) continue; MC_CASE("fragmented %d in %d..%d off=%d", n, mn, mx, off); std::vector<I> p = {bitlen(mx - mn), mn, mx};
        By d = fillb(n, 0); Bits r; r.bytes(d.data(), n); Bits b = frag(r, 8); if (n >= mn) enc({O_OCT_E, 64, p, n, d}, off, b, 8 * n + 64); dec({O_OCT_D, 64, p}, off, b, 8 * mx + 64, n >= mn ? Ex{OK, n, d} : Ex{FAIL}, true);
        Bits q; for (int i = 0; i < n; i++) q.bit((i * 7 + 3) % 5 < 2); By qb = q.pack(0); Bits e = frag(q, 1); if (n >= mn) enc({O_BST_E, 64, p, n, qb}, off, e, n + 64); dec({O_BST_D, 64, p}, off, e, mx + 64, n >= mn ? Ex{OK, n, qb} : Ex{FAIL}, true); }
    // a buffer full of one and the same block header
    for (int h : {0xC1, 0xC2, 0xC3, 0xC4}) for (int mx : {65536, 66000}) for (int unit : {8, 1}) { MC_CASE("fragment headers %x only, max %d unit %d off=%d", h, mx, unit, off); By in((mx * unit) / 8 + 16, (uint8_t)h); Bits b; b.bytes(in.data(), in.size()); dec({unit == 8 ? O_OCT_D : O_BST_D, 64, {bitlen(mx), 0, mx}}, off, b, mx * unit + 64, {FAIL}, true); }
    // broken fragment sequences: never an exception
    for (int h1 = 0xBE; h1 < 256; h1++) for (int h2 : {0, 5, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xC4, 0xC5, 0xFF}) for (int h3 : {0, 1, 0x7F, 0x80, 0xC1, 0xFF}) { MC_CASE("fragment headers %x %x %x off=%d", h1, h2, h3, off); for (int unit : {8, 1}) { Bits b = ub(h1, 8); int k = h1 >= 0xC1 && h1 <= 0xC4 ? h1 & 7 : 0; bool open = k != 0; for (int i = 0; i < k * 16384 * unit; i++) b.bit(i % 3 == 0); b.u(h2, 8); int k2 = open && h2 >= 0xC1 && h2 <= 0xC4 ? h2 & 7 : 0; for (int i = 0; i < k2 * 16384 * unit && k + k2 <= 4; i++) b.bit(i % 3 == 1); b.u(h3, 8); b.u(3, 8); b.u(0x5A, 8); b.u(0x81, 8); if (b.size() > 8 * (MAXB - 4)) continue; dec({unit == 8 ? O_OCT_D : O_BST_D, 64, {bitlen(66000), 0, 66000}}, off, b, 66000 * unit + 64, {k + k2 > 4 ? FAIL : ANY}, true); } }
}
// ---------------------------------------------------------------- object identifiers
static void sub(Bits& b, W v) { std::vector<int> d; do { d.push_back((int)(v & 127)); v >>= 7; } while (v); for (size_t i = d.size(); i--;) b.u(d[i] | (i ? 0x80 : 0), 8); }
static const int OIDNEED = 16 + 8 * 20 * 16;
static By pack64(const std::vector<U>& a) { By r; for (U v : a) for (int i = 0; i < 8; i++) r.push_back((uint8_t)(v >> (8 * i))); return r; }
static const U UMAXO = SCALA ? (U)smax(64) : ~0ull;
static void oid(int off) {
    static const U AL[] = {0, 1, 2, 39, 40, 47, 79, 80, 127, 128, 255, 16383, 16384, 2097151, 2097152, 0x7FFFFFFF, 0x80000000u, (U)1 << 62, (U)smax(64) - 80, (U)smax(64), (U)smax(64) + 1, ~0ull - 80, ~0ull}; int K = sizeof AL / sizeof *AL;
    auto one = [&](bool rel, const std::vector<U>& a) { for (U v : a) if (v > UMAXO) return; bool val = rel ? !a.empty() : a.size() >= 2 && a[0] <= 2 && (a[0] == 2 || a[1] < 40); if (!val || (!rel && a[0] == 2 && a[1] > UMAXO - 80)) return; Bits c; size_t i = 0; if (!rel) { sub(c, (W)a[0] * 40 + a[1]); i = 2; } for (; i < a.size(); i++) sub(c, a[i]); size_t n = c.size() / 8; Bits b; if (n < 128) b.u(n, 8); else b.u(0x8000 | n, 16); b.cat(c); By s = pack64(a); enc({rel ? O_ROID_E : O_OID_E, 64, {}, (I)a.size(), s}, off, b, OIDNEED); dec({rel ? O_ROID_D : O_OID_D}, off, b, OIDNEED, {OK, (I)a.size(), s}); };
    for (int rel = 0; rel < 2; rel++) { for (int n = 1; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= K; for (int c = 0; c < tot; c++) { MC_CASE("rel=%d n=%d arcs code %d off=%d", rel, n, c, off); std::vector<U> a; int q = c; for (int i = 0; i < n; i++) { a.push_back(AL[q % K]); q /= K; } one(rel, a); } }
        for (int a0 = 0; a0 < 3; a0++) for (int a1 = 0; a1 < 200; a1++) { MC_CASE("rel=%d %d.%d off=%d", rel, a0, a1, off); one(rel, {(U)a0, (U)a1}); }
        for (int sh = 0; sh < 64; sh++) for (int d = -1; d <= 1; d++) { MC_CASE("rel=%d arc 2^%d%+d off=%d", rel, sh, d, off); one(rel, {1, 3, ((U)1 << sh) + d}); }
        for (int n = 2; n <= 20; n++) for (int k = 0; k < K; k++) { MC_CASE("rel=%d %d arcs of alphabet %d off=%d", rel, n, k, off); std::vector<U> a(n, AL[k]); a[0] = 1; a[1] = 2; one(rel, a); } }
    static const int al[] = {0, 1, 0x27, 0x4F, 0x50, 0x7F, 0x80, 0x81, 0xFF}; int L = g_thorough ? 5 : 4;
    auto any = [&](bool rel, const By& in) {
        bool ok = true, either = false; std::vector<U> w; size_t p = 0; long len = 0; len = in[p++]; if (len > 127) { if (len >= 0xC0) either = true; len = (len << 8 | (p < in.size() ? in[p] : 0)) & 0x7FFF; p++; if (len < 128) either = true; }
        if (p + len > in.size()) either = true; size_t end = std::min(p + (size_t)len, in.size()); bool first = !rel; if (len == 0) { if (rel) either = true; ok = rel; }
        while (ok && p < end) { W x = 0; bool done = false, lead = true, big = false; while (p < end && !done) { int c = in[p++]; if (lead && c == 0x80) either = true; lead = false; x = x << 7 | (c & 127); if (x > UMAXO) big = true; if (big) x = (W)1 << 70; done = !(c & 128); } if (!done || big) { ok = false; break; } if (first) { U f = x < 80 ? (U)x / 40 : 2; w.push_back(f); w.push_back((U)x - f * 40); first = false; } else w.push_back((U)x); }
        if (w.size() > 20) ok = false; Bits b; b.bytes(in.data(), in.size()); Ex x{ok ? OK : FAIL, (I)w.size(), pack64(w), (int)end * 8}; if (either) x.k = ok ? MAY : ANY; if ((long)in.size() < len + 1) x.k = ANY; dec({rel ? O_ROID_D : O_OID_D}, off, b, OIDNEED, x, true); };
    for (int rel = 0; rel < 2; rel++) { for (int n = 0; n <= L; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 9; for (int c = 0; c < tot; c++) for (int len = 0; len <= n; len++) for (int lf = 0; lf < 2; lf++) { MC_CASE("rel=%d %d octets code %d announced %d form %d off=%d", rel, n, c, len, lf, off); By in; if (lf) in.push_back(0x80); in.push_back(len); int q = c; for (int i = 0; i < n; i++) { in.push_back(al[q % 9]); q /= 9; } any(rel, in); } }
        for (int n = 1; n <= 24; n++) for (int f : {0x80, 0x81, 0x83, 0xFF}) for (int m : {0x80, 0xFF}) for (int l : {0, 0x7F, 0x80}) for (int pr = 0; pr < 2; pr++) { MC_CASE("rel=%d subidentifier of %d octets %x %x %x pre %d off=%d", rel, n, f, m, l, pr, off); By in; in.push_back(n + pr); if (pr) in.push_back(0x2A); for (int i = 0; i < n; i++) in.push_back(i == n - 1 ? l : i ? m : f); any(rel, in); }
        for (int n = 15; n <= 140; n++) for (int v : {0, 1, 0x7F}) { MC_CASE("rel=%d %d components of %d off=%d", rel, n, v, off); By in; if (n >= 128) in.push_back(0x80); in.push_back(n); for (int i = 0; i < n; i++) in.push_back(v); any(rel, in); } }
}
// ---------------------------------------------------------------- patterns, strings of characters
static void patterns(int off) {
    auto ps = bitwords(6); for (int n : {7, 8, 9, 15, 16, 17, 33, 40}) for (U v : {0x5A5A5A5A5Aull, 0xFFFFFFFFFFull, 0x0ull, 0x8000000001ull}) ps.push_back(ub(v & umask(n), n));
    for (auto& p : ps) { int n = (int)p.size(); if (!n) continue; std::vector<Bits> ins; if (n <= 6) for (int c = 0; c < 1 << n; c++) ins.push_back(ub(c, n)); else for (int d = -1; d < n; d++) { Bits q = p; if (d >= 0) q.b[d] ^= 1; ins.push_back(q); } Bits inv; for (int x : p.b) inv.bit(!x);
        for (size_t i = 0; i < ins.size(); i++) { MC_CASE("pattern of %d bits %lld against input %d off=%d", n, n <= 40 ? (I)[&] { U v = 0; for (int x : p.b) v = v << 1 | x; return v; }() : 0, (int)i, off); bool same = ins[i] == p;
            if (i == 0) { enc({O_BT_E, 64, {}, 1, p.b}, off, p); enc({O_BT_E, 64, {}, 0, p.b}, off, inv); enc({O_BF_E, 64, {}, 0, p.b}, off, p); enc({O_BF_E, 64, {}, 1, p.b}, off, inv); enc({O_NP_E, 64, {}, 0, p.b}, off, p); enc({O_NP2_E, 64, {}, 0, p.b}, off, p); enc({O_BTF_E, 64, {}, 1, p.b, inv.b}, off, p); enc({O_BTF_E, 64, {}, 0, p.b, inv.b}, off, inv); }
            dec({O_BT_D, 64, {}, 0, p.b}, off, ins[i], n, {OK, same}); dec({O_BF_D, 64, {}, 0, p.b}, off, ins[i], n, {OK, !same}); dec({O_NP_D, 64, {}, 0, p.b}, off, ins[i], n, same ? Ex{OK} : Ex{FAIL}); dec({O_NP2_D, 64, {}, 0, p.b}, off, ins[i], n, same ? Ex{OK} : Ex{FAIL});
            if (n <= 4) for (int c = 0; c < 1 << n; c++) { Bits f = ub(c, n); if (f == p) continue; enc({O_BTF_E, 64, {}, 1, p.b, f.b}, off, p); enc({O_BTF_E, 64, {}, 0, p.b, f.b}, off, f); dec({O_BTF_D, 64, {}, 0, p.b, f.b}, off, ins[i], n, same ? Ex{OK, 1} : ins[i] == f ? Ex{OK, 0} : Ex{FAIL}); } else dec({O_BTF_D, 64, {}, 0, p.b, inv.b}, off, ins[i], n, same ? Ex{OK, 1} : ins[i] == inv ? Ex{OK, 0} : Ex{FAIL}); } }
}
static std::vector<std::string> words(const std::string& al, int mn, int mx) { std::vector<std::string> r, cur = {""}; for (int n = 0; n <= mx; n++) { if (n >= mn) r.insert(r.end(), cur.begin(), cur.end()); std::vector<std::string> nx; for (auto& w : cur) for (char c : al) nx.push_back(w + c); cur = nx; } return r; }
static By cset(int n) { By r; for (int i = 0; i < n; i++) r.push_back((uint8_t)(n <= 60 ? 'A' + i : i + 1)); return r; }
static void strings(int off) {
    const std::string al = std::string("aA\r\x7f\x01", 5); int M = g_thorough ? 5 : 4;
    auto one = [&](const std::string& s, int mn, int mx, int cs) { int n = (int)s.size(), w = bitlen(mx - mn); By v = by(s); Bits t = txt(s);
        if (!cs) { if (mn == mx) { enc({O_SF_E, 64, {mn, mx}, 0, v}, off, t, 8 * mx); dec({O_SF_D, 64, {mn, mx}}, off, t, 8 * mx, {OK, n, v}); }
            for (int k = 0; k < 4; k++) { Bits b = t; b.cat(tb(k)); std::string z = s + std::string((const char*)TERM[k].data(), TERM[k].size()); if (z.find(std::string((const char*)TERM[k].data(), TERM[k].size())) != s.size()) continue; int need = 8 * (mx + 1 + (int)TERM[k].size()); enc({O_SN_E, 64, {mn, mx}, 0, v, TERM[k]}, off, b, need); dec({O_SN_D, 64, {mn, mx}, 0, {}, TERM[k]}, off, b, need, {OK, n, v}); if (has(O_SN_E, 32)) { enc({O_SN_E, 32, {mn, mx}, 0, v, TERM[k]}, off, b, need); dec({O_SN_D, 32, {mn, mx}, 0, {}, TERM[k]}, off, b, need, {OK, n, v}); } }
            Bits b = ub(n - mn, w); b.cat(t); enc({O_SI2_E, 64, {mn, mx, w}, 0, v}, off, b, w + 8 * (mx + 1)); dec({O_SI2_D, 64, {mn, mx, w}}, off, b, w + 8 * (mx + 1), {OK, n, v}); enc({O_SX_E, 64, {mn, mx}, 0, v}, off, t, 8 * (mx + 1)); dec({O_SX_D, 64, {mn, mx, n}}, off, t, 8 * (mx + 1), {OK, n, v});
            Bits t7; for (char c : s) t7.u((uint8_t)c, 7); enc({O_IX_E, 64, {mn, mx}, 0, v}, off, t7, 8 * (mx + 1)); dec({O_IX_D, 64, {mn, mx, n}}, off, t7, 8 * (mx + 1), {OK, n, v}); Bits b7 = ub(n - mn, w); b7.cat(t7); enc({O_IN_E, 64, {mn, mx, w}, 0, v}, off, b7, w + 8 * (mx + 1)); dec({O_IN_D, 64, {mn, mx, w}}, off, b7, w + 8 * (mx + 1), {OK, n, v}); }
        else { By c = cset(cs); int cw = bitlen(cs - 1); Bits x; for (char ch : s) x.u((U)(std::find(c.begin(), c.end(), (uint8_t)ch) - c.begin()), cw); int need = cw * (mx + 1); enc({O_CX_E, 64, {mn, mx, cw}, 0, v, c}, off, x, need); dec({O_CX_D, 64, {mn, mx, cw, n}, 0, {}, c}, off, x, need, {OK, n, v}); Bits b = ub(n - mn, w); b.cat(x); enc({O_CN_E, 64, {mn, mx, cw, w}, 0, v, c}, off, b, w + need); dec({O_CN_D, 64, {mn, mx, cw, w}, 0, {}, c}, off, b, w + need, {OK, n, v}); if (mn == mx) { enc({O_CF_E, 64, {mn, mx, cw}, 0, v, c}, off, x, need); dec({O_CF_D, 64, {mn, mx, cw}, 0, {}, c}, off, x, need, {OK, n, v}); } } };
    for (int cs : {0, 1, 2, 3, 4, 5, 7, 8, 9, 26, 60, 64, 65, 100, 127}) { if (cs == 1 && g_contracts) continue; std::string a = al; if (cs) { By c = cset(cs); a = std::string(1, (char)c[0]); if (cs > 1) a += (char)c[cs - 1]; if (cs > 2) a += (char)c[cs / 2]; }
        for (int mx = 1; mx <= M; mx++) for (int mn = 0; mn <= mx; mn++) { auto ws = words(a, mn, mx); for (size_t i = 0; i < ws.size(); i++) { MC_CASE("string size %d..%d character set %d word %d off=%d", mn, mx, cs, (int)i, off); one(ws[i], mn, mx, cs); } }
        for (int mx : {20, 127, 128, 255, 300}) for (int n : {0, 1, mx / 2, mx - 1, mx}) for (int mn : {0, 1, mx}) { if (n < mn) continue; MC_CASE("string of %d in %d..%d character set %d off=%d", n, mn, mx, cs, off); std::string w; By c = cset(cs ? cs : 1); for (int i = 0; i < n; i++) w += cs ? (char)c[(i * 7 + 1) % cs] : (char)('a' + i % 26); one(w, mn, mx, cs); } }
}
static void badstrings(int off) {
    std::vector<int> al = {0, 'A', 'B', 'Z', 0x0D, 0x0A, 0xFF}; int L = g_thorough ? 6 : 5;
    for (int mx = 1; mx <= 3; mx++) for (int n = 0; n <= L; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 7; for (int c = 0; c < tot; c++) { MC_CASE("string max %d from %d octets code %d off=%d", mx, n, c, off); By in; int q = c; for (int i = 0; i < n; i++) { in.push_back(al[q % 7]); q /= 7; } Bits b; b.bytes(in.data(), in.size());
        for (int k = 0; k < 3; k++) { size_t T = TERM[k].size(); if (in.size() < mx + T) continue; int f = -1; for (int i = 0; i <= mx && f < 0; i++) if (!memcmp(&in[i], TERM[k].data(), T)) f = i; bool nul = false; for (int i = 0; i < f; i++) if (in[i] == 0 || in[i] > 127) nul = true; int need = 8 * (mx + 1 + (int)T); dec({O_SN_D, 64, {0, mx}, 0, {}, TERM[k]}, off, b, need, f < 0 ? Ex{FAIL} : nul ? Ex{ANY} : Ex{OK, f, By(in.begin(), in.begin() + f), (int)(8 * (f + T))}, true); }
        for (int mn = 0; mn <= mx; mn++) { int w = bitlen(mx - mn); size_t p = 0; auto rd = [&](int k) { U v = 0; for (int i = 0; i < k; i++) { v = v << 1 | (p < b.size() ? b.b[p] : 0); p++; } return v; }; U cnt = rd(w) + mn; int used0 = (int)p; bool bad = cnt > (U)mx; By s; bool odd = false; for (U i = 0; i < cnt && !bad; i++) { s.push_back((uint8_t)rd(8)); if (!s.back() || s.back() > 127) odd = true; } dec({O_SI2_D, 64, {mn, mx, w}}, off, b, w + 8 * (mx + 1), bad ? Ex{FAIL} : odd ? Ex{ANY} : Ex{OK, (I)s.size(), s, (int)p}, true);
            for (int cs : {3, 5}) { By ch = cset(cs); int cw = bitlen(cs - 1); p = used0; s.clear(); bool no = bad; for (U i = 0; i < cnt && !no; i++) { U x = rd(cw); if (x >= (U)cs) no = true; else s.push_back(ch[x]); } dec({O_CN_D, 64, {mn, mx, cw, w}, 0, {}, ch}, off, b, w + cw * (mx + 1), no ? Ex{FAIL} : Ex{OK, (I)s.size(), s, (int)p}, true);
                if (mn == 0) for (int ext = 0; ext <= mx; ext++) { p = 0; s.clear(); no = false; for (int i = 0; i < ext && !no; i++) { U x = rd(cw); if (x >= (U)cs) no = true; else s.push_back(ch[x]); } dec({O_CX_D, 64, {0, mx, cw, ext}, 0, {}, ch}, off, b, cw * (mx + 1), no ? Ex{FAIL} : Ex{OK, (I)s.size(), s, (int)p}, true); } } } } }
}
// ---------------------------------------------------------------- deferred determinants: reserve a field, write on, patch it
static void dets(int off) {
    // p0 kind (0..12), v first value, p1 second value, p2 bits written in between, p3 size in bits for the generic ones
    struct D { int n; bool l; int kind; }; static const D ds[] = {{8, 0, 0}, {16, 0, 1}, {32, 0, 2}, {64, 0, 3}, {16, 1, 4}, {32, 1, 5}, {64, 1, 6}, {8, 0, 7}, {16, 0, 8}, {32, 0, 9}, {64, 0, 10}, {1, 0, 11}};
    auto go = [&](int op, int kind, int n, bool l, U v, U v2, int mid) { Bits b = ub(v & umask(n), n); if (l) b = le(b); b.cat(ub(0x5A5A5A5A5A5A5A5Aull & umask(mid), mid)); Op_ o{op, 64, {kind, (I)v2, mid, n}, (I)v}; if (!has(op, 64)) return; size_t nb = (off + b.size() + 7) / 8 + 9; By buf(nb, 0), pk = pre(off).pack(); memcpy(buf.data(), pk.data(), pk.size()); put(o, off, buf); if (R.st == RES_EXC) { viol((std::string(key(o)) + ":exc").c_str(), "patching raised %.*s (%s)", R.ns, (char*)R.s, par(o).c_str()); return; } Bits f = pre(off); f.cat(b); By want = f.pack(); want.resize(nb); bool mism = v != v2; if (R.pos != (int)f.size() || memcmp(want.data(), R.buf, nb)) { viol(key(o), "reserved field holds %s, expected %s (%s off %d)", hex(R.buf, nb).c_str(), hex(want.data(), nb).c_str(), par(o).c_str(), off); return; } if (R.st != (mism ? RES_FAIL : RES_OK)) { viol(key(o), "second value %s (%s)", mism ? "differs but is accepted" : "is equal but refused", par(o).c_str()); return; } traced(); };
    for (auto& d : ds) for (U v : ubound(d.n)) for (int mid : {0, 1, 7, 8, 19}) { MC_CASE("determinant kind %d value %lld, %d bits later off=%d", d.kind, v, mid, off); bool sg = d.kind >= 7 && d.kind <= 10; auto X = [&](U z) { return sg && d.n < 64 && (z >> (d.n - 1) & 1) ? z | ~umask(d.n) : z; }; U x = v; go(O_DET_U, d.kind, d.n, d.l, X(x), X(x), mid); if (d.n > 1) go(O_DET_U, d.kind, d.n, d.l, X(x), X(x ^ 1), mid); go(O_DET_U, d.kind, d.n, d.l, X(x), X(x ^ (1ull << (d.n - 1))), mid); }
    for (int n = 1; n <= 64; n++) for (U v : ubound(n)) for (int mid : {0, 3, 9}) { if (n == 64 && g_contracts) continue; MC_CASE("determinant of %d bits value %lld, %d bits later off=%d", n, v, mid, off); go(O_DET_CONST, 0, n, false, v, v, mid); go(O_DET_CONST, 0, n, false, v, v ^ (1ull << (n - 1)), mid); }
    for (int n = 1; n <= 64; n++) for (I v : sbound(n)) for (int mid : {0, 3, 9}) { if (g_contracts && (n == 1 || n == 64)) continue; MC_CASE("signed determinant of %d bits value %lld, %d bits later off=%d", n, v, mid, off); go(O_DET_TC, 0, n, false, (U)v, (U)v, mid); go(O_DET_TC, 0, n, false, (U)v, (U)v ^ 1, mid); }
}
int main(int argc, char** argv) {
    std::vector<Task> T; struct F { const char* n; void (*f)(int); }; static const F fs[] = {{"bits", bits}, {"bits2", bits2}, {"nullbits", nullbits}, {"fixedints", fixedints}, {"varints", varints}, {"uperints", uperints}, {"decimals", decimals}, {"badnib", badnib}, {"badtxt", badtxt}, {"realany", realany}, {"ieee", ieee}, {"octets", octets}, {"oid", oid}, {"patterns", patterns}, {"strings", strings}, {"badstrings", badstrings}, {"dets", dets}};
    for (auto& f : fs) for (int off = 0; off < 8; off++) { auto fn = f.f; if (!g_thorough && (off != 0 && off != 5 && off != 7) && (fn == realany || fn == badtxt || fn == badstrings || fn == uperints)) continue; T.push_back({std::string(f.n) + "-" + std::to_string(off), [=] { fn(off); }}); }
    for (int off = 0; off < 8; off++) { if (off && off != 3 && !g_thorough) continue; for (int p = 0; p < 4; p++) T.push_back({"reals-" + std::to_string(off) + "-" + std::to_string(p), [=] { reals(off, p, 4); }}); }
    return run(argc, argv, T);
}
