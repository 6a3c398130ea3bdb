#pragma once
#include "mc.hpp"
#include "asn1crt_encoding_acn.h"
#undef min
#undef max
using namespace mc;
// ---- one encode/decode pair against the expected bit string, at one bit offset ----
enum { DEC_FAIL = 0, DEC_OK = 1, DEC_WRONG = 2 };
inline Bits prefix_bits(int off) { Bits b; for (int i = 0; i < off; i++) b.bit(i % 3 != 1); return b; }
inline size_t posbits(const BitStream& s) { return (size_t)s.currentByte * 8 + s.currentBit; }
inline void at(BitStream& s, uint8_t* p, size_t n, size_t off) { memset(&s, 0, sizeof s); BitStream_AttachBuffer(&s, p, (long)n); s.currentByte = (long)(off / 8); s.currentBit = (int)(off % 8); }

template<class Enc> inline bool chk_enc(const char* key, int off, const Bits& exp, Enc enc, const char* what = "encode") {
    Bits full = prefix_bits(off); full.cat(exp);
    auto want = full.pack(); Buf b(want.size()); auto pre = prefix_bits(off).pack(); memcpy(b.p, pre.data(), pre.size());
    BitStream s; at(s, b.p, b.n, off);
    trans();
    bool ok = enc(&s);
    if (!ok) { viol(key, "%s at bit offset %d refused (expected bits %s)", what, off, exp.str().c_str()); return false; }
    if (posbits(s) != full.size()) { viol(key, "%s at bit offset %d wrote %ld bits, expected %zu", what, off, (long)posbits(s) - off, exp.size()); return false; }
    if (memcmp(b.p, want.data(), want.size())) { viol(key, "%s at bit offset %d: wrote %s expected %s", what, off, hex(b.p, b.n).c_str(), hex(want.data(), want.size()).c_str()); return false; }
    traced(); return true;
}
template<class Dec> inline bool chk_dec(const char* key, int off, const Bits& exp, Dec dec, bool trunc = true) {
    Bits full = prefix_bits(off); full.cat(exp); size_t nb = (full.size() + 7) / 8;
    for (int fill = 0; fill < 2; fill++) {
        auto v = full.pack(fill); Buf b(v.size()); memcpy(b.p, v.data(), v.size());
        BitStream s; at(s, b.p, b.n, off); trans();
        int r = dec(&s);
        if (r == DEC_FAIL) { viol(key, "decode at bit offset %d of %s rejected", off, exp.str().c_str()); return false; }
        if (r == DEC_WRONG) { viol(key, "decode at bit offset %d of %s gives another value", off, exp.str().c_str()); return false; }
        if (posbits(s) != full.size()) { viol(key, "decode at bit offset %d consumed %ld bits of %zu", off, (long)posbits(s) - off, exp.size()); return false; }
        if (memcmp(b.p, v.data(), v.size())) { viol(key, "decode changed its input"); return false; }
    }
    if (trunc && exp.size()) {
        size_t lo = (off + 7) / 8;
        for (size_t n = nb - 1;; n = (n > lo + 12 ? n / 2 : n - 1)) {
            if (n < lo || n == (size_t)-1) break;
            auto v = full.pack(1); Buf b(n); memcpy(b.p, v.data(), n);
            BitStream s; at(s, b.p, n, off); trans();
            int r = dec(&s);
            if (r != DEC_FAIL) { viol(key, "decode at bit offset %d accepted an input truncated to %zu of %zu bytes", off, n, nb); return false; }
            if (memcmp(b.p, v.data(), n)) { viol(key, "decode changed its input"); return false; }
            if (n == 0) break;
        }
    }
    traced(); return true;
}
