// C06: every ACN integer encoding of the C runtime against the ACN manual, on a bit-list model.
#include "codec.hpp"
typedef asn1SccUint U; typedef asn1SccSint I;
typedef __int128 W;
static const int WB = WORD_SIZE * 8;
static const W UMAX = (((W)1) << WB) - 1, SMAX = (((W)1) << (WB - 1)) - 1, SMIN = -SMAX - 1;
static Bits le(uint64_t v, int n) { Bits b; for (int i = 0; i < n; i++) b.u(i < 8 ? (v >> (8 * i)) & 255 : 0, 8); return b; }
static std::string dec10(W v) { if (v < 0) return "-" + dec10(-v); std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
static Bits txt(const std::string& s) { Bits b; for (char c : s) b.u((uint8_t)c, 8); return b; }
static int blen(W v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
static int ulen8(W v) { int n = 1; while (v >> (8 * n)) n++; return n; }
static int slen8(W v) { int n = 1; while (v < -((W)1 << (8 * n - 1)) || v >= ((W)1 << (8 * n - 1))) n++; return n; }
static Bits bcd(const std::string& s) { Bits b; for (char c : s) b.u(c - '0', 4); return b; }

enum St { REJ, ACC, ANY };
struct Res { St st; W v; size_t used; };
// reader over a bit list
struct Rd { const Bits& b; size_t p = 0; bool bad = false; uint64_t u(int n) { uint64_t v = 0; for (int i = 0; i < n; i++) { if (p >= b.size()) { bad = true; return 0; } v = v << 1 | b.b[p++]; } return v; } };

struct Fam {
    std::string name; bool sgn;
    std::vector<int> params;
    std::function<bool(W, int, Bits&)> model;                 // value,param -> bits (false: value not representable)
    std::function<void(BitStream*, W, int)> enc;
    std::function<flag(BitStream*, W*, int, int)> dec;        // width 64,8,16,32 ; returns flag; width -1: not available
    std::function<Res(Rd&, int)> mdec;                        // model decoder
};
static std::vector<int> seq(int a, int b, int s = 1) { std::vector<int> r; for (int i = a; i <= b; i += s) r.push_back(i); return r; }
static const byte T1[] = {0}, T2[] = {0x0D, 0x0A}, T3[] = {'A', 'A', 'B'}, T4[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 250};
static const byte* TP[] = {T1, T2, T3, T4}; static const size_t TN[] = {1, 2, 3, 10};
#define D64U(F, ...) { U x = (U)0x5a5a5a5a5a5a5a5aull; flag f = F(s, &x __VA_ARGS__); *v = x; return f; }
#define D64S(F, ...) { I x = 0x5a; flag f = F(s, &x __VA_ARGS__); *v = x; return f; }
#define DN(T, F, ...) { T x = 0x5a; flag f = F(s, &x __VA_ARGS__); *v = x; return f; }
#define DU(F, ...) [](BitStream* s, W* v, int w, int p) -> flag { (void)p; switch (w) { case 64: D64U(F, __VA_ARGS__) case 8: DN(uint8_t, F##UInt8, __VA_ARGS__) case 16: DN(uint16_t, F##UInt16, __VA_ARGS__) case 32: DN(uint32_t, F##UInt32, __VA_ARGS__) } return -1; }
#define DS(F, ...) [](BitStream* s, W* v, int w, int p) -> flag { (void)p; switch (w) { case 64: D64S(F, __VA_ARGS__) case 8: DN(int8_t, F##Int8, __VA_ARGS__) case 16: DN(int16_t, F##Int16, __VA_ARGS__) case 32: DN(int32_t, F##Int32, __VA_ARGS__) } return -1; }
#define DU_8(F) [](BitStream* s, W* v, int w, int) -> flag { switch (w) { case 64: D64U(F) case 8: DN(uint8_t, F##UInt8) } return (flag)2; }
#define DU_16(F) [](BitStream* s, W* v, int w, int) -> flag { switch (w) { case 64: D64U(F) case 8: DN(uint8_t, F##UInt8) case 16: DN(uint16_t, F##UInt16) } return (flag)2; }
#define DS_8(F) [](BitStream* s, W* v, int w, int) -> flag { switch (w) { case 64: D64S(F) case 8: DN(int8_t, F##Int8) } return (flag)2; }
#define DS_16(F) [](BitStream* s, W* v, int w, int) -> flag { switch (w) { case 64: D64S(F) case 8: DN(int8_t, F##Int8) case 16: DN(int16_t, F##Int16) } return (flag)2; }
static bool has(const Fam& f, int w);
static Res num(bool sgn, uint64_t raw, int nbits, Rd& r) { if (r.bad) return {REJ, 0, 0}; W v = raw; if (sgn && nbits && (raw >> (nbits - 1) & 1)) v -= (W)1 << nbits; if (v > (sgn ? SMAX : UMAX) || v < (sgn ? SMIN : 0)) return {REJ, 0, 0}; return {ACC, v, r.p}; }
static uint64_t rdle(Rd& r, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= r.u(8) << (8 * i); return v; }
static Res digits(Rd& r, int n, int per, bool sgn) {          // n digits, optional sign character first
    bool neg = false; if (sgn) { int c = (int)r.u(8); if (r.bad || n < 1) return {REJ, 0, 0}; if (c == '-') neg = true; else if (c != '+') return {REJ, 0, 0}; n--; }
    W v = 0; for (int i = 0; i < n; i++) { int c = (int)r.u(per); if (r.bad) return {REJ, 0, 0}; if (per == 8) c -= '0'; if (c < 0 || c > 9) return {REJ, 0, 0}; v = v * 10 + c; if (v > ((W)1 << 100)) v = (W)1 << 100; }
    if (neg) v = -v; if (v > (sgn ? SMAX : UMAX) || v < SMIN) return {REJ, 0, 0}; return {ACC, v, r.p};
}
static Res terminated(Rd& r, int t, bool sgn) {
    bool neg = false; if (sgn) { int c = (int)r.u(8); if (r.bad) return {REJ, 0, 0}; if (c == '-') neg = true; else if (c != '+') return {REJ, 0, 0}; }
    W v = 0; for (;;) { Rd q = r; bool m = true; for (size_t k = 0; k < TN[t] && m; k++) m = q.u(8) == TP[t][k] && !q.bad; if (m) { r.p = q.p; break; }
        int c = (int)r.u(8) - '0'; if (r.bad || c < 0 || c > 9) return {REJ, 0, 0}; v = v * 10 + c; if (v > ((W)1 << 100)) v = (W)1 << 100; }
    if (neg) v = -v; if (v > (sgn ? SMAX : UMAX) || v < SMIN) return {REJ, 0, 0}; return {ACC, v, r.p};
}
static std::vector<Fam> fams() {
    std::vector<Fam> F;
    auto fixedU = [&](const char* n, int bits, bool little, auto enc, auto dec) { F.push_back({n, false, {bits}, [=](W v, int, Bits& b) { if (v < 0 || v >> bits) return false; if (little) b = le((uint64_t)v, bits / 8); else b.u((uint64_t)v, bits); return true; }, [=](BitStream* s, W v, int) { enc(s, (U)v); }, dec, [=](Rd& r, int) { uint64_t x = little ? rdle(r, bits / 8) : r.u(bits); return num(false, x, bits, r); }}); };
    auto fixedS = [&](const char* n, int bits, bool little, auto enc, auto dec) { F.push_back({n, true, {bits}, [=](W v, int, Bits& b) { if (v < -((W)1 << (bits - 1)) || v >= ((W)1 << (bits - 1))) return false; if (little) b = le((uint64_t)(int64_t)v, bits / 8); else b.u((uint64_t)(int64_t)v, bits); return true; }, [=](BitStream* s, W v, int) { enc(s, (I)v); }, dec, [=](Rd& r, int) { uint64_t x = little ? rdle(r, bits / 8) : r.u(bits); return num(true, x, bits, r); }}); };
    F.push_back({"pos_const", false, seq(1, WB), [](W v, int p, Bits& b) { if (v < 0 || v >> p) return false; b.u((uint64_t)v, p); return true; }, [](BitStream* s, W v, int p) { Acn_Enc_Int_PositiveInteger_ConstSize(s, (U)v, p); }, DU(Acn_Dec_Int_PositiveInteger_ConstSize, , p), [](Rd& r, int p) { uint64_t x = r.u(p); return num(false, x, p, r); }});
    fixedU("pos_8", 8, false, Acn_Enc_Int_PositiveInteger_ConstSize_8, DU_8(Acn_Dec_Int_PositiveInteger_ConstSize_8));
    fixedU("pos_be16", 16, false, Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_16, DU_16(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16));
    fixedU("pos_be32", 32, false, Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_32, DU(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32));
    fixedU("pos_be64", 64, false, Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64, DU(Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64));
    fixedU("pos_le16", 16, true, Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_16, DU_16(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16));
    fixedU("pos_le32", 32, true, Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_32, DU(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32));
    fixedU("pos_le64", 64, true, Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64, DU(Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64));
    F.push_back({"pos_var", false, {0}, [](W v, int, Bits& b) { if (v < 0) return false; int n = ulen8(v); b.u(n, 8).u((uint64_t)v, 8 * n); return true; }, [](BitStream* s, W v, int) { Acn_Enc_Int_PositiveInteger_VarSize_LengthEmbedded(s, (U)v); }, DU(Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded), [](Rd& r, int) { int n = (int)r.u(8); if (r.bad || n > WORD_SIZE) return Res{REJ, 0, 0}; uint64_t x = r.u(8 * n); Res q = num(false, x, 8 * n, r); if (!n && q.st == ACC) q.st = ANY; return q; }});
    F.push_back({"two_const", true, seq(1, WB), [](W v, int p, Bits& b) { if (v < -((W)1 << (p - 1)) || v >= ((W)1 << (p - 1))) return false; b.u((uint64_t)(int64_t)v, p); return true; }, [](BitStream* s, W v, int p) { Acn_Enc_Int_TwosComplement_ConstSize(s, (I)v, p); }, DS(Acn_Dec_Int_TwosComplement_ConstSize, , p), [](Rd& r, int p) { uint64_t x = r.u(p); return num(true, x, p, r); }});
    fixedS("two_8", 8, false, Acn_Enc_Int_TwosComplement_ConstSize_8, DS_8(Acn_Dec_Int_TwosComplement_ConstSize_8));
    fixedS("two_be16", 16, false, Acn_Enc_Int_TwosComplement_ConstSize_big_endian_16, DS_16(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16));
    fixedS("two_be32", 32, false, Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32, DS(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32));
    fixedS("two_be64", 64, false, Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64, DS(Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64));
    fixedS("two_le16", 16, true, Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16, DS_16(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16));
    fixedS("two_le32", 32, true, Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32, DS(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32));
    fixedS("two_le64", 64, true, Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64, DS(Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64));
    F.push_back({"two_var", true, {0}, [](W v, int, Bits& b) { int n = slen8(v); b.u(n, 8).u((uint64_t)(int64_t)v, 8 * n); return true; }, [](BitStream* s, W v, int) { Acn_Enc_Int_TwosComplement_VarSize_LengthEmbedded(s, (I)v); }, DS(Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded), [](Rd& r, int) { int n = (int)r.u(8); if (r.bad || n > WORD_SIZE) return Res{REJ, 0, 0}; uint64_t x = r.u(8 * n); Res q = num(true, x, 8 * n, r); if (!n && q.st == ACC) q.st = ANY; return q; }});
    F.push_back({"bcd_const", false, seq(1, 20), [](W v, int p, Bits& b) { if (v < 0) return false; std::string s = dec10(v); if ((int)s.size() > p) return false; b = bcd(std::string(p - s.size(), '0') + s); return true; }, [](BitStream* s, W v, int p) { Acn_Enc_Int_BCD_ConstSize(s, (U)v, p); }, DU(Acn_Dec_Int_BCD_ConstSize, , p), [](Rd& r, int p) { return digits(r, p, 4, false); }});
    F.push_back({"bcd_var", false, {0}, [](W v, int, Bits& b) { if (v < 0) return false; std::string s = dec10(v); b.u(s.size(), 8).cat(bcd(s)); return true; }, [](BitStream* s, W v, int) { Acn_Enc_Int_BCD_VarSize_LengthEmbedded(s, (U)v); }, DU(Acn_Dec_Int_BCD_VarSize_LengthEmbedded), [](Rd& r, int) { int n = (int)r.u(8); if (r.bad) return Res{REJ, 0, 0}; Res q = digits(r, n, 4, false); if (n > (WB == 64 ? 20 : 10) && q.st == ACC) q.st = ANY; return q; }});
    F.push_back({"bcd_null", false, {0}, [](W v, int, Bits& b) { if (v < 0) return false; b = bcd(dec10(v)); b.u(15, 4); return true; }, [](BitStream* s, W v, int) { Acn_Enc_Int_BCD_VarSize_NullTerminated(s, (U)v); }, DU(Acn_Dec_Int_BCD_VarSize_NullTerminated), [](Rd& r, int) { W v = 0; for (;;) { int c = (int)r.u(4); if (r.bad) return Res{REJ, 0, 0}; if (c == 15) break; if (c > 9) return Res{ANY, 0, 0}; v = v * 10 + c; if (v > ((W)1 << 100)) v = (W)1 << 100; } if (v > UMAX) return Res{REJ, 0, 0}; return Res{ACC, v, r.p}; }});
    F.push_back({"ascii_u_const", false, seq(1, 20), [](W v, int p, Bits& b) { if (v < 0) return false; std::string s = dec10(v); if ((int)s.size() > p) return false; b = txt(std::string(p - s.size(), '0') + s); return true; }, [](BitStream* s, W v, int p) { Acn_Enc_UInt_ASCII_ConstSize(s, (U)v, p); }, DU(Acn_Dec_UInt_ASCII_ConstSize, , p), [](Rd& r, int p) { return digits(r, p, 8, false); }});
    F.push_back({"ascii_s_const", true, seq(2, 20), [](W v, int p, Bits& b) { std::string s = dec10(v < 0 ? -v : v); if ((int)s.size() > p - 1) return false; b = txt((v < 0 ? "-" : "+") + std::string(p - 1 - s.size(), '0') + s); return true; }, [](BitStream* s, W v, int p) { Acn_Enc_SInt_ASCII_ConstSize(s, (I)v, p); }, DS(Acn_Dec_SInt_ASCII_ConstSize, , p), [](Rd& r, int p) { return digits(r, p, 8, true); }});
    F.push_back({"ascii_u_var", false, {0}, [](W v, int, Bits& b) { if (v < 0) return false; std::string s = dec10(v); b.u(s.size(), 8).cat(txt(s)); return true; }, [](BitStream* s, W v, int) { Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded(s, (U)v); }, DU(Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded), [](Rd& r, int) { int n = (int)r.u(8); if (r.bad) return Res{REJ, 0, 0}; Res q = digits(r, n, 8, false); if (!n && q.st == ACC) q.st = ANY; return q; }});
    F.push_back({"ascii_s_var", true, {0}, [](W v, int, Bits& b) { std::string s = dec10(v < 0 ? -v : v); b.u(s.size() + 1, 8).cat(txt((v < 0 ? "-" : "+") + s)); return true; }, [](BitStream* s, W v, int) { Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded(s, (I)v); }, DS(Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded), [](Rd& r, int) { int n = (int)r.u(8); if (r.bad) return Res{REJ, 0, 0}; if (n < 2) return Res{ANY, 0, 0}; return digits(r, n, 8, true); }});
    F.push_back({"ascii_u_null", false, {0, 1, 2, 3}, [](W v, int t, Bits& b) { if (v < 0) return false; b = txt(dec10(v)); b.bytes(TP[t], TN[t]); return true; }, [](BitStream* s, W v, int t) { Acn_Enc_UInt_ASCII_VarSize_NullTerminated(s, (U)v, TP[t], TN[t]); }, DU(Acn_Dec_UInt_ASCII_VarSize_NullTerminated, , TP[p], TN[p]), [](Rd& r, int t) { Res q = terminated(r, t, false); if (q.st == ACC && q.used == 8 * TN[t]) q.st = ANY; return q; }});
    F.push_back({"ascii_s_null", true, {0, 1, 2, 3}, [](W v, int t, Bits& b) { b = txt((v < 0 ? "-" : "+") + dec10(v < 0 ? -v : v)); b.bytes(TP[t], TN[t]); return true; }, [](BitStream* s, W v, int t) { Acn_Enc_SInt_ASCII_VarSize_NullTerminated(s, (I)v, TP[t], TN[t]); }, DS(Acn_Dec_SInt_ASCII_VarSize_NullTerminated, , TP[p], TN[p]), [](Rd& r, int t) { Res q = terminated(r, t, true); if (q.st == ACC && q.used == 8 + 8 * TN[t]) q.st = ANY; return q; }});
    return F;
}
static bool has(const Fam& f, int w) {
    if (w == 64) return true; auto e = [&](const char* x) { return f.name.size() >= strlen(x) && f.name.compare(f.name.size() - strlen(x), strlen(x), x) == 0; };
    if (e("_8")) return w == 8; if (e("16")) return w <= 16; return true; }
static bool fits(W v, int w, bool sgn) { if (w == 64) return true; return sgn ? v >= -((W)1 << (w - 1)) && v < ((W)1 << (w - 1)) : v >= 0 && !(v >> w); }
static std::vector<W> values(bool sgn) {
    std::set<W> s; int D = g_thorough ? 1100 : 300;
    for (int i = sgn ? -D : 0; i <= D; i++) s.insert(i);
    for (int k = 0; k <= WB; k++) for (int d = -1; d <= 1; d++) { W v = ((W)1 << k) + d; s.insert(v); if (sgn) s.insert(-v); }
    W p = 1; for (int k = 0; k < 20; k++, p *= 10) for (int d = -1; d <= 1; d++) { s.insert(p + d); s.insert(5 * p + d); if (sgn) { s.insert(-p + d); s.insert(-5 * p + d); } }
    s.insert((W)0x0123456789ABCDEFull); s.insert((W)0xFEDCBA9876543210ull); s.insert((W)0x89ABCDEF); s.insert(UMAX); s.insert(SMAX); if (sgn) { s.insert(SMIN); s.insert(SMIN + 1); s.insert(-(W)0x0123456789ABCDEFull); s.insert(-(W)0x12345678); }
    std::vector<W> r; for (W v : s) if (v >= (sgn ? SMIN : 0) && v <= (sgn ? SMAX : UMAX)) r.push_back(v); return r;
}
static void one(const Fam& f, int p, W v, int off, bool trunc) {
    Bits b; if (!f.model(v, p, b)) return;
    if (!chk_enc(f.name.c_str(), off, b, [&](BitStream* s) { f.enc(s, v, p); return true; })) return;
    for (int w : {64, 8, 16, 32}) { if (!has(f, w)) continue;
        if (fits(v, w, f.sgn)) { if (!chk_dec((f.name + "/" + std::to_string(w)).c_str(), off, b, [&](BitStream* s) { W x; if (!f.dec(s, &x, w, p)) return (int)DEC_FAIL; return x == v ? (int)DEC_OK : (int)DEC_WRONG; }, trunc)) return; }
        else { Bits full = prefix_bits(off); full.cat(b); auto q = full.pack(1); Buf m(q.size()); memcpy(m.p, q.data(), q.size()); BitStream s; at(s, m.p, m.n, off); trans(); W x; if (f.dec(&s, &x, w, p)) viol((f.name + "/narrow").c_str(), "%d bit decoder at offset %d accepted %s as %s", w, off, dec10(v).c_str(), dec10(x).c_str()); }
    }
}
static void arbitrary(const Fam& f, int p, const Bits& in, int off) {
    Bits full = prefix_bits(off); full.cat(in); auto q = full.pack(0); Bits avail = in; avail.b.insert(avail.b.end(), q.size() * 8 - full.size(), 0);
    Rd r{avail}; Res m = f.mdec(r, p);
    for (int w : {64, 8, 16, 32}) { if (!has(f, w)) continue;
        Buf b(q.size()); memcpy(b.p, q.data(), q.size()); BitStream s; at(s, b.p, b.n, off); W x = 0; trans(); bool ok = f.dec(&s, &x, w, p);
        if (m.st == ANY) continue;
        bool want = m.st == ACC && fits(m.v, w, f.sgn);
        if (ok != want) { viol((f.name + "/dec").c_str(), "%d bit decoder at offset %d %s input %s (expected %s%s, got %s)", w, off, ok ? "accepted" : "rejected", in.str().c_str(), want ? "value " : "rejection", want ? dec10(m.v).c_str() : "", dec10(x).c_str()); continue; }
        if (ok && x != m.v) { viol((f.name + "/dec").c_str(), "%d bit decoder at offset %d read %s as %s, expected %s", w, off, in.str().c_str(), dec10(x).c_str(), dec10(m.v).c_str()); continue; }
        if (ok && posbits(s) != (size_t)off + m.used) { viol((f.name + "/dec").c_str(), "%d bit decoder consumed %ld bits of %s, expected %zu", w, (long)posbits(s) - off, in.str().c_str(), m.used); continue; }
        traced();
    }
}
int main(int argc, char** argv) {
    static std::vector<Fam> F = fams(); std::vector<Task> T;
    for (auto& f : F) {
        const Fam* g = &f;
        for (int half = 0; half < 4; half++) T.push_back({f.name + "-values" + std::to_string(half), [g, half] {
            auto vs = values(g->sgn); for (int p : g->params) for (size_t k = 0; k < vs.size(); k++) { W v = vs[k]; Bits t; if (!g->model(v, p, t)) continue;
                for (int off = half * 2; off < half * 2 + 2; off++) { MC_CASE("value hi=%lld lo=%llu param=%d off=%d", (int64_t)(v >> 64), (int64_t)v, p, off); one(*g, p, v, off, true); } } }});
        // every input of up to 2 whole bytes (3 for the thorough tier), at byte and mid-byte offsets
        for (int off : {0, 5}) T.push_back({f.name + "-bytes-off" + std::to_string(off), [g, off] {
            for (int p : g->params) { if (g->params.size() > 8 && !g_thorough && p % 4 != 0 && p != 1 && p != 7 && p != 31 && p != 63 && p != 3 && p != 2) continue;
                { MC_CASE("empty input param=%d off=%d", p, off); arbitrary(*g, p, Bits(), off); }
                for (int a = 0; a < 256; a++) { MC_CASE("input %02x param=%d off=%d", a, p, off); Bits x; x.u(a, 8); arbitrary(*g, p, x, off); }
                if (g->params.size() > 8 && p > 24) continue;
                for (int a = 0; a < 65536; a += (g->params.size() > 8 && !g_thorough ? 7 : 1)) { MC_CASE("input %04x param=%d off=%d", a, p, off); Bits x; x.u(a, 16); arbitrary(*g, p, x, off); }
            } }});
        // every string of up to 5 (6) symbols from the alphabet that matters for the text/BCD/length forms
        if (f.name.compare(0, 5, "ascii") == 0 || f.name.compare(0, 3, "bcd") == 0 || f.name.find("var") != std::string::npos) T.push_back({f.name + "-alphabet", [g] {
            bool nib = g->name.compare(0, 3, "bcd") == 0;
            std::vector<int> al; if (nib) al = {0, 1, 2, 5, 9, 10, 15}; else if (g->name.compare(0, 5, "ascii") == 0) { al = {0, '0', '1', '9', '+', '-', '/', ':'}; if (g->name.find("null") != std::string::npos) for (int c : {0x0D, 0x0A, (int)'A', (int)'B'}) al.push_back(c); else for (int c : {1, 2, 3, 4, 32, 255}) al.push_back(c); } else al = {0, 1, 2, 3, 4, 5, 7, 8, 9, 127, 128, 255};
            int L = g_thorough ? 6 : (al.size() > 9 ? 4 : 6); if (nib && g->name == "bcd_var") L += 1;
            for (int p : g->params) { if (p > 7 || (g->params.size() > 8 && p > L)) continue;
                for (int n = 1; n <= L; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= al.size();
                    for (uint64_t c = 0; c < tot; c++) { MC_CASE("symbols n=%d code=%llu param=%d", n, c, p); Bits x; uint64_t q = c; for (int i = 0; i < n; i++) { x.u(al[q % al.size()], nib ? 4 : 8); q /= al.size(); } arbitrary(*g, p, x, 0); } } } }});
        // decimal numbers around every overflow boundary, with leading zeros
        T.push_back({f.name + "-overflow", [g] {
            std::vector<W> bs = {255, 127, 128, 65535, 32767, 32768, ((W)1 << 31) - 1, (W)1 << 31, ((W)1 << 32) - 1, ((W)1 << 63) - 1, (W)1 << 63, ((W)1 << 64) - 1, ((W)1 << 64) * 10 - 1, ((W)1 << 32) * 10 - 1};
            bool nib = g->name.compare(0, 3, "bcd") == 0, asc = g->name.compare(0, 5, "ascii") == 0; if (!nib && !asc) return;
            for (size_t bi = 0; bi < bs.size(); bi++) for (int d = -2; d <= 12; d++) for (int lead = 0; lead < 4; lead++) for (int sg = 0; sg < 3; sg++) for (int p : g->params) {
                MC_CASE("boundary %d%+d lead=%d sign=%d param=%d", (int)bi, d, lead, sg, p); std::string s = std::string(lead, '0') + dec10(bs[bi] + d); if (sg == 1) s = "-" + s; if (sg == 2) s = "+" + s; if (nib && sg) continue;
                Bits x; if (g->name.find("_var") != std::string::npos) x.u(s.size(), 8); if (nib) x.cat(bcd(s)); else x.cat(txt(s)); if (g->name.find("null") != std::string::npos) { if (nib) x.u(15, 4); else x.bytes(TP[p], TN[p]); } arbitrary(*g, p, x, 3); } }});
    }
    for (auto& f : F) { const Fam* g = &f; if (f.name.compare(0, 3, "pos") && f.name.compare(0, 3, "two")) continue;
        T.push_back({f.name + "-raw", [g] { for (int off = 0; off < 8; off++) for (int p : g->params) for (auto raw : ubound(64)) for (int n = (g->name.find("var") != std::string::npos ? 0 : -1); n < 10; n++) { MC_CASE("raw %llx length %d param %d off %d", raw, n, p, off);
            Bits x; if (n >= 0) x.u(n, 8); x.u(raw, 64); arbitrary(*g, p, x, off); if (n < 0) { Bits y = le(raw, 8); arbitrary(*g, p, y, off); break; } } }}); }
    T.push_back({"milbus-length", [] { for (I v = -3; v < 40; v++) { MC_CASE("milbus %lld", v); trans(2); if (milbus_encode(v) != (v == 32 ? 0 : v)) viol("milbus", "encode"); if (milbus_decode(v) != (v == 0 ? 32 : v)) viol("milbus", "decode"); if (v >= 1 && v <= 32 && milbus_decode(milbus_encode(v)) != v) viol("milbus", "round trip"); traced(); }
        for (int off = 0; off < 8; off++) for (int p = 1; p <= 32; p++) for (auto v : ubound(p)) { if (v >> p) continue; MC_CASE("length %llu bits %d off %d", v, p, off); Bits b; b.u(v, p); if (!chk_enc("length", off, b, [&](BitStream* s) { Acn_Enc_Length(s, (U)v, p); return true; })) continue; chk_dec("length", off, b, [&](BitStream* s) { U x; if (!Acn_Dec_Length(s, &x, p)) return (int)DEC_FAIL; return x == v ? (int)DEC_OK : (int)DEC_WRONG; }); } }});
    return run(argc, argv, T);
}
