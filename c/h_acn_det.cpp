// C08: deferred ACN determinants: reserve, write what follows, patch later (possibly several times).
#include "codec.hpp"
typedef asn1SccUint U; typedef asn1SccSint I;
struct Det { const char* name; int bits; bool little; bool sgn; std::function<void(BitStream*, AcnInsertedFieldRef*)> init; std::function<flag(U, BitStream*, AcnInsertedFieldRef*, int*)> patch; };
#define P(N, B, L, S) {#N, B, L, S, [](BitStream* b, AcnInsertedFieldRef* d) { Acn_InitDet_##N(b, d); }, [](U v, BitStream* b, AcnInsertedFieldRef* d, int* e) { return Acn_PatchDet_##N(v, b, d, e); }}
#define G(N, B, S) {#N, B, false, S, [](BitStream* b, AcnInsertedFieldRef* d) { Acn_InitDet_##N(b, B, d); }, [](U v, BitStream* b, AcnInsertedFieldRef* d, int* e) { return Acn_PatchDet_##N(v, b, B, d, e); }}
static std::vector<Det> DS = { P(U8, 8, 0, 0), P(U16_BE, 16, 0, 0), P(U32_BE, 32, 0, 0), P(U64_BE, 64, 0, 0), P(U16_LE, 16, 1, 0), P(U32_LE, 32, 1, 0), P(U64_LE, 64, 1, 0), P(I8, 8, 0, 1), P(I16_BE, 16, 0, 1), P(I32_BE, 32, 0, 1), P(I64_BE, 64, 0, 1), P(BOOL1, 1, 0, 0),
    G(ConstSize, 1, 0), G(ConstSize, 3, 0), G(ConstSize, 7, 0), G(ConstSize, 8, 0), G(ConstSize, 9, 0), G(ConstSize, 12, 0), G(ConstSize, 17, 0), G(ConstSize, 25, 0), G(ConstSize, 31, 0), G(ConstSize, 32, 0),
#if WORD_SIZE == 8
    G(ConstSize, 33, 0), G(ConstSize, 48, 0), G(ConstSize, 63, 0), G(TwosComplement_ConstSize, 33, 1), G(TwosComplement_ConstSize, 56, 1),
#endif
   
    G(TwosComplement_ConstSize, 2, 1), G(TwosComplement_ConstSize, 5, 1), G(TwosComplement_ConstSize, 8, 1), G(TwosComplement_ConstSize, 11, 1), G(TwosComplement_ConstSize, 16, 1), G(TwosComplement_ConstSize, 23, 1), G(TwosComplement_ConstSize, 31, 1), G(TwosComplement_ConstSize, 32, 1) };
static Bits code(const Det& d, int64_t v) { Bits b; if (d.little) for (int i = 0; i < d.bits / 8; i++) b.u((uint64_t)v >> (8 * i) & 255, 8); else b.u((uint64_t)v, d.bits); return b; }
static std::vector<int64_t> vals(const Det& d) { std::vector<int64_t> r; int w = std::min(d.bits, WORD_SIZE * 8); if (d.sgn) { for (auto v : sbound(w)) r.push_back(v); } else for (auto v : ubound(w)) if (w == 64 || !(v >> w)) r.push_back((int64_t)v); return r; }
int main(int argc, char** argv) {
    std::vector<Task> T;
    for (size_t k = 0; k < DS.size(); k++) T.push_back({std::string("one-") + DS[k].name + std::to_string(DS[k].bits), [k] { const Det& d = DS[k];
        for (int off = 0; off < 8; off++) for (int64_t v : vals(d)) for (int follow : {0, 1, 3, 8, 13, 40}) for (int ones = 0; ones < 2; ones++) {
            MC_CASE("determinant %d value %lld offset %d, %d bits follow, all %d", k, (long long)v, off, follow, ones);
            Bits pre = prefix_bits(off), exp = pre; exp.cat(code(d, v)); for (int i = 0; i < follow; i++) exp.bit(ones); auto want = exp.pack();
            Buf b(want.size()); auto pp = pre.pack(); memcpy(b.p, pp.data(), pp.size()); BitStream s; at(s, b.p, b.n, off); AcnInsertedFieldRef ref; memset(&ref, 0xAA, sizeof ref); int err = 0; trans(3);
            d.init(&s, &ref); if (posbits(s) != (size_t)off + d.bits) { viol(d.name, "reserving moved to bit %zu, expected %d", posbits(s), off + d.bits); continue; }
            for (int i = 0; i < follow; i++) BitStream_AppendBit(&s, ones); if (!d.patch((U)v, &s, &ref, &err)) { viol(d.name, "first patch refused"); continue; }
            if (posbits(s) != exp.size()) { viol(d.name, "patching moved the stream to bit %zu, expected %zu", posbits(s), exp.size()); continue; }
            if (memcmp(b.p, want.data(), want.size())) { viol(d.name, "after patching: %s expected %s", hex(b.p, b.n).c_str(), hex(want.data(), want.size()).c_str()); continue; }
            // a second user of the same determinant: same value accepted, another refused, bits untouched
            err = 0; trans(2); if (!d.patch((U)v, &s, &ref, &err)) viol(d.name, "same value refused by the second patch"); for (int j = 0; j < std::min(d.bits, WORD_SIZE * 8); j++) { int e2 = 0; trans(); if (d.patch((U)v ^ (U)1 << j, &s, &ref, &e2)) viol(d.name, "a value different in bit %d was accepted by a later patch", j); else if (!e2) viol(d.name, "inconsistent determinant reported without an error code"); }
            if (posbits(s) != exp.size() || memcmp(b.p, want.data(), want.size())) viol(d.name, "a later patch changed the stream"); traced(); } }});
    // histories: every sequence of up to L operations {reserve det i, append a bit pattern, patch det i} over three determinants
    std::vector<std::vector<int>> combos; for (size_t a = 0; a < DS.size(); a++) for (size_t b = 0; b < DS.size(); b += (a % 3) + 1) combos.push_back({(int)a, (int)b});
    for (int part = 0; part < 8; part++) T.push_back({"hist" + std::to_string(part), [combos, part] { int L = g_thorough ? 7 : 6;
        for (size_t ci = part; ci < combos.size(); ci += 8) { auto& c = combos[ci]; uint64_t tot = 1; for (int i = 0; i < L; i++) tot *= 7; uint64_t step = 1;
            // ops: 0/1 reserve det a/b, 2/3 patch det a/b, 4 append 1, 5 append 0, 6 append 11 bits
            for (uint64_t h = 0; h < tot; h += step) { step = 1;
                int ops[8]; uint64_t q = h; for (int i = L - 1; i >= 0; i--) { ops[i] = q % 7; q /= 7; }
                bool res[2] = {false, false}, pat[2] = {false, false}, ok = true; int bad = L; for (int i = 0; i < L && ok; i++) { int o = ops[i]; if (o < 2) { if (res[o]) ok = false; res[o] = true; } else if (o < 4) { if (!res[o - 2] || pat[o - 2]) ok = false; pat[o - 2] = true; } if (!ok) bad = i; }
                if (!ok) { uint64_t sub = 1; for (int i = bad + 1; i < L; i++) sub *= 7; step = sub - h % sub; continue; }
                MC_CASE("determinants %d,%d history %lld", c[0], c[1], (long long)h);
                Bits e; Buf b(40); BitStream s; BitStream_Init(&s, b.p, (long)b.n); AcnInsertedFieldRef r[2]; size_t pos[2]; bool fail = false;
                for (int i = 0; i < L && !fail; i++) { int o = ops[i]; trans(); if (o < 2) { pos[o] = e.size(); e.cat(code(DS[c[o]], 0)); DS[c[o]].init(&s, &r[o]); }
                    else if (o < 4) { const Det& d = DS[c[o - 2]]; int64_t v = d.bits == 1 ? 1 : d.sgn ? -1 : d.bits >= 8 ? 0xA5 : 1; Bits x = code(d, v); for (size_t j = 0; j < x.size(); j++) e.b[pos[o - 2] + j] = x.b[j]; int er; if (!d.patch((U)(I)v, &s, &r[o - 2], &er)) { viol("hist", "patch refused"); fail = true; } }
                    else if (o < 6) { e.bit(o == 4); BitStream_AppendBit(&s, o == 4); } else { for (int j = 0; j < 11; j++) { e.bit(j % 4 != 2); BitStream_AppendBit(&s, j % 4 != 2); } } }
                if (fail) continue; auto w = e.pack(); if (posbits(s) != e.size() || memcmp(w.data(), b.p, w.size())) { viol("hist", "stream %s expected %s", hex(b.p, w.size()).c_str(), hex(w.data(), w.size()).c_str()); continue; } traced(); } } }});
    T.push_back({"ia5", [] { for (int off = 0; off < 8; off++) for (int n = 0; n <= 6; n++) for (int len = 0; len <= n; len++) for (int follow : {0, 1, 9}) { MC_CASE("string determinant of %d chars, value of %d, offset %d, %d bits follow", n, len, off, follow);
        std::string v; for (int i = 0; i < len; i++) v += "xYz}~0"[i]; Bits pre = prefix_bits(off), e = pre; for (int i = 0; i < n; i++) e.u(i < len ? (uint8_t)v[i] : 0x20, 7); for (int i = 0; i < follow; i++) e.bit(1); auto w = e.pack(); Buf b(w.size()); auto pp = pre.pack(); memcpy(b.p, pp.data(), pp.size());
        BitStream s; at(s, b.p, b.n, off); AcnInsertedFieldRef r; int err = 0; trans(4); Acn_InitDet_IA5String_FixSize(&s, n, &r); for (int i = 0; i < follow; i++) BitStream_AppendBit(&s, 1); if (!Acn_PatchDet_IA5String_FixSize(v.c_str(), &s, n, &r, &err)) { viol("ia5", "patch refused"); continue; }
        if (posbits(s) != e.size() || memcmp(b.p, w.data(), w.size())) { viol("ia5", "stream %s expected %s", hex(b.p, b.n).c_str(), hex(w.data(), w.size()).c_str()); continue; }
        if (!Acn_PatchDet_IA5String_FixSize(v.c_str(), &s, n, &r, &err)) viol("ia5", "same value refused by the second patch"); if (len) { std::string o = v; o[len - 1] ^= 1; int e2 = 0; if (Acn_PatchDet_IA5String_FixSize(o.c_str(), &s, n, &r, &e2) || !e2) viol("ia5", "a different value was accepted by a later patch"); }
        if (memcmp(b.p, w.data(), w.size())) viol("ia5", "a later patch changed the stream"); traced(); } }});
    T.push_back({"distance", [] { for (int a = 0; a < 64; a++) for (int b = a; b < 96; b++) { MC_CASE("distance %d..%d", a, b); AcnBitStreamPos x = {a / 8, a % 8}, y = {b / 8, b % 8}; trans(2); if (Acn_BitStream_DistanceInBits(x, y) != (U)(b - a) || Acn_BitStream_DistanceInBytes(x, y) != (U)((b - a + 7) / 8)) viol("distance", "wrong"); traced(); } }});
    return run(argc, argv, T);
}
