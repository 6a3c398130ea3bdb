// C10: the XML codec of the C runtime (asn1crt_encoding_xer.c).
// Encoders are judged through an independent XML reader: the text they produce must be one well formed element holding the value,
// for every buffer size; decoders must read that text back, and refuse everything that is not an element holding a value of the type.
#include "codec.hpp"
#include "asn1crt_encoding_xer.h"
#include <cmath>
#include <cerrno>
#include <string>
using std::string; typedef asn1SccUint U; typedef asn1SccSint I;
// ---------- independent XML reader ----------
struct El { string tag, text; std::vector<std::pair<string,string>> at; std::vector<El> ch; };
static bool nm(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_' || c == '.'; }
static bool rd(const string& s, size_t& p, El& e) {
    auto name = [&](string& o) { o.clear(); while (p < s.size() && nm(s[p])) o += s[p++]; return !o.empty() && !isdigit((unsigned char)o[0]) && o[0] != '-' && o[0] != '.'; };
    if (p >= s.size() || s[p] != '<') return false; p++; if (!name(e.tag)) return false;
    for (;;) { size_t q = p; while (p < s.size() && isspace((unsigned char)s[p])) p++; if (p < s.size() && nm(s[p])) { if (q == p) return false; string n, v; if (!name(n) || s.substr(p, 2) != "=\"") return false; p += 2; while (p < s.size() && s[p] != '"') { if (s[p] == '<') return false; v += s[p++]; } if (p >= s.size()) return false; p++; e.at.push_back({n, v}); } else break; }
    if (s.substr(p, 2) == "/>") { p += 2; return true; } if (p >= s.size() || s[p] != '>') return false; p++;
    for (;;) { if (p >= s.size()) return false;
        if (s[p] == '<') { if (s.substr(p, 2) == "</") { p += 2; string t; if (!name(t) || t != e.tag) return false; if (p >= s.size() || s[p] != '>') return false; p++; return true; } El c; if (!rd(s, p, c)) return false; e.ch.push_back(c); }
        else if (s[p] == '&') { static const char* n[] = {"&lt;", "&gt;", "&amp;", "&quot;", "&apos;"}; int k = -1; for (int i = 0; i < 5; i++) if (s.compare(p, strlen(n[i]), n[i]) == 0) k = i; if (k < 0) return false; e.text += "<>&\"'"[k]; p += strlen(n[k]); }
        else { if (s[p] == '>') return false; e.text += s[p++]; } }
}
static bool ws(const string& s) { for (char c : s) if (!isspace((unsigned char)c)) return false; return true; }
static bool doc(string s, El& e) { size_t p = 0; while (p < s.size() && isspace((unsigned char)s[p])) p++; if (!rd(s, p, e)) return false; return ws(s.substr(p)); }
static string esc(const string& s) { string r; for (char c : s) r += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : string(1, c); return r; }
static string shw(const string& s) { string r; for (char c : s) { if (c < 32) { char b[8]; snprintf(b, 8, "\\x%02X", c & 255); r += b; } else r += c; if (r.size() > 160) { r += "..."; break; } } return r; }
static void attach(ByteStream* s, uint8_t* p, size_t n) { memset(s, 0, sizeof *s); s->buf = p; s->count = (long)n; s->currentByte = 0; s->EncodeWhiteSpace = FALSE; }
typedef std::function<bool(ByteStream*, int*, int)> Enc; typedef std::function<int(ByteStream*, int*)> Dec;   // Dec: 0 refused, 1 right value, 2 wrong value
// runs an encoder in a large dirty buffer, judges the text, then in buffers of other sizes
static bool encode(const Enc& f, size_t room, bool white, int level, string& out, const std::function<bool(const El&)>& ok) {
    for (int dirty = 0; dirty < 2; dirty++) { Buf b(room, dirty ? 0x41 : 0); ByteStream s; attach(&s, b.p, room); s.EncodeWhiteSpace = white; int e = 0; trans(); if (!f(&s, &e, level)) { viol("encode-refused", "encoding refused in a buffer of %zu octets", room); return false; }
        string t((char*)b.p, (size_t)s.currentByte); El el; if (!doc(t, el)) { viol("not-xml", "text produced is no element: %s", shw(t).c_str()); return false; } if (!ok(el)) { viol("encode-value", "text produced does not hold the value: %s", shw(t).c_str()); return false; }
        if (dirty && t != out) { viol("dirty", "what the buffer held before shows in the text: %s", shw(t).c_str()); return false; } out = t; }
    // exact sizes: refused or the same text, and nothing outside the buffer is touched (address sanitizer)
    for (size_t n : std::set<size_t>{0, 1, 2, out.size() / 2, out.size() > 2 ? out.size() - 2 : 0, out.size() ? out.size() - 1 : 0, out.size(), out.size() + 1}) { Buf b(n, 0x42); ByteStream s; attach(&s, b.p, n); s.EncodeWhiteSpace = white; int e = 0; trans(); bool r = f(&s, &e, level);
        if (r && (size_t)s.currentByte != out.size()) { viol("short-buffer", "success in a buffer of %zu octets with %ld octets written, %zu needed", n, (long)s.currentByte, out.size()); return false; }
        if (r && n < out.size()) { viol("short-buffer", "success in %zu octets of %zu needed", n, out.size()); return false; }
        if (!r && n > out.size()) { viol("enough-room", "refused in a buffer of %zu octets, %zu needed and one spare", n, out.size()); return false; } }
    return true;
}
static int decode(const string& t, const Dec& f) { Buf b(t.size()); memcpy(b.p, t.data(), t.size()); ByteStream s; attach(&s, b.p, t.size()); int e = 0; trans(); int r = f(&s, &e); if (s.currentByte < 0) { viol("cursor", "negative position after decoding"); return 2; } if (s.currentByte > (long)t.size()) viol("cursor", "position after decoding lies past the end"); return r; }
static bool readback(const string& t, const Dec& f) { int r = decode(t, f); if (r != 1) { viol(r ? "readback-value" : "readback", "%s %s", r ? "read back as another value:" : "refused to read back", shw(t).c_str()); return false; }
    for (size_t n = 0; n < t.size() && t[t.size() - 1] == '>'; n++) { if (t.size() > 60 && n > 12 && n + 12 < t.size()) continue; if (decode(t.substr(0, n), f) == 1 ) { viol("truncated", "accepted the first %zu octets of %s", n, shw(t).c_str()); return false; } } traced(); return true; }
static string tags[] = {"T", "OCTET-STRING", "a", string(99, 'q'), "x.y_z-1"};
static void both(const Enc& e, const Dec& d, size_t room, const std::function<bool(const El&)>& ok) {
    for (int w = 0; w < 2; w++) for (int lev : {-1, 0, 2}) { if (!w && lev > 0) continue; string t; if (!encode(e, room, w, lev, t, ok)) return; while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); if (!readback(t, d)) return; if (!readback("  \n" + t, d)) return; }
}
// ---------- values ----------
static void ints(const string& T) { const char* g = T.c_str();
    std::vector<I> vs; for (auto x : sbound(WORD_SIZE * 8)) vs.push_back((I)x); for (int i = -300; i <= (g_thorough ? 20000 : 300); i++) vs.push_back(i); { I p = 1; for (int i = 0; i < (WORD_SIZE == 8 ? 18 : 9); i++) { for (int d = -1; d <= 1; d++) { vs.push_back(p + d); vs.push_back(-p + d); } p *= 10; } }
    for (I v : vs) { MC_CASE("signed integer %lld tag of %d characters", (int64_t)v, (int64_t)T.size()); both([=](ByteStream* s, int* e, int l) { return Xer_EncodeInteger(s, g, v, e, l); }, [=](ByteStream* s, int* e) { I r = 0x55; return !Xer_DecodeInteger(s, g, &r, e) ? 0 : r == v ? 1 : 2; }, 600, [=](const El& x) { return x.tag == T && x.ch.empty() && x.text == std::to_string((long long)v); }); }
    std::vector<U> us; for (auto x : ubound(WORD_SIZE * 8)) us.push_back((U)x); for (int i = 0; i <= (g_thorough ? 20000 : 300); i++) us.push_back(i);
    for (U v : us) { MC_CASE("unsigned integer %llu tag of %d characters", (int64_t)v, (int64_t)T.size()); both([=](ByteStream* s, int* e, int l) { return Xer_EncodePosInteger(s, g, v, e, l); }, [=](ByteStream* s, int* e) { U r = 0x55; return !Xer_DecodePosInteger(s, g, &r, e) ? 0 : r == v ? 1 : 2; }, 600, [=](const El& x) { return x.tag == T && x.ch.empty() && x.text == std::to_string((unsigned long long)v); }); } }
static void reals(const string& T) { const char* g = T.c_str(); std::vector<double> vs = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1, -1, 0.5, 10, 100, 0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, 1e-17, 9e-18, 1e-18, 1e15, 1e16, 1e17, 123456789012345680.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 3.141592653589793, 9.999999999999999, 0.9999999999999999, 1e22, 1e23, 9007199254740993.0, 4.35, 2.675, 1.1e-5};
    for (int e = -1074; e <= 1023; e += (g_thorough ? 1 : 7)) for (double m : {1.0, 1.0000000000000002, 1.5, 1.9999999999999998, 1.2345678901234567}) { vs.push_back(ldexp(m, e)); vs.push_back(-ldexp(m, e)); } for (int e = -320; e <= 308; e++) { vs.push_back(pow(10, e)); vs.push_back(strtod(("9.87654321e" + std::to_string(e)).c_str(), nullptr)); } for (int i = 1; i < 1000; i++) vs.push_back(i / 100.0);
    int k = 0; for (double v0 : vs) { MC_CASE("real number %d", k++); double v = (asn1Real)v0; both([=](ByteStream* s, int* e, int l) { return Xer_EncodeReal(s, g, (asn1Real)v, e, l); }, [=](ByteStream* s, int* e) { asn1Real r = (asn1Real)77.25; return !Xer_DecodeReal(s, g, &r, e) ? 0 : (v != v ? r != r : (double)r == v) ? 1 : 2; }, 600,
            [=](const El& x) { if (x.tag != T) return false; if (v != v || std::isinf(v)) return ws(x.text) && x.ch.size() == 1 && x.ch[0].tag == (v != v ? "NOT-A-NUMBER" : v > 0 ? "PLUS-INFINITY" : "MINUS-INFINITY"); char* e; double d = strtod(x.text.c_str(), &e); return x.ch.empty() && !*e && !x.text.empty() && (asn1Real)d == (asn1Real)v; }); } }
static void simple(const string& T) { const char* g = T.c_str();
    for (int o = 0; o < 1; o++) { MC_CASE("null"); both([=](ByteStream* s, int* e, int l) { return Xer_EncodeNull(s, g, 0, e, l); }, [=](ByteStream* s, int* e) { NullType n = 5; return !Xer_DecodeNull(s, g, &n, e) ? 0 : 1; }, 600, [=](const El& x) { return x.tag == T && x.ch.empty() && x.text.empty(); }); }
    for (int tag = 0; tag < 2; tag++) for (int v = 0; v < 2; v++) { MC_CASE("boolean %d tag=%d", v, tag); const char* h = tag ? g : ""; auto dec = [=](ByteStream* s, int* e) { flag r = !v; return !Xer_DecodeBoolean(s, h, &r, e) ? 0 : (bool)r == (bool)v ? 1 : 2; };
        auto ok = [=](const El& x) { string lit = v ? "true" : "false"; return tag ? x.tag == T && ws(x.text) && x.ch.size() == 1 && x.ch[0].tag == lit && x.ch[0].text.empty() && x.ch[0].ch.empty() : x.tag == lit && x.text.empty() && x.ch.empty(); }; both([=](ByteStream* s, int* e, int l) { return Xer_EncodeBoolean(s, h, v, e, l); }, dec, 600, ok); }
    static const char* names[] = {"a", "red", "true", "x-1", "plus-infinity", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjj"};
    for (int tag = 0; tag < 2; tag++) for (int v = 0; v < 6; v++) { MC_CASE("enumerated %d tag=%d", v, tag); const char* h = tag ? g : ""; string lit = names[v]; both([=](ByteStream* s, int* e, int l) { return Xer_EncodeEnumerated(s, h, names[v], e, l); }, [=](ByteStream* s, int* e) { char r[200]; memset(r, 0x7E, sizeof r); return !Xer_DecodeEnumerated(s, h, r, e) ? 0 : lit == r ? 1 : 2; }, 900, [=](const El& x) { return tag ? x.tag == T && ws(x.text) && x.ch.size() == 1 && x.ch[0].tag == lit : x.tag == lit && x.text.empty() && x.ch.empty(); }); }
}
static void str1(const string& T, const string& v) { const char* g = T.c_str(); size_t room = v.size() * 6 + 600; size_t cap = v.size() + 1; for (size_t c : {cap, cap + 3}) {
    auto dec = [=](ByteStream* s, int* e) { Buf b(c, 0x7E); bool r = Xer_DecodeString(s, g, (char*)b.p, c, e); return !r ? 0 : memchr(b.p, 0, c) && v == (char*)b.p ? 1 : 2; }; both([=](ByteStream* s, int* e, int l) { return Xer_EncodeString(s, g, v.c_str(), e, l); }, dec, room, [=](const El& x) { return x.tag == T && x.ch.empty() && x.text == v; }); }
    string t = "<" + T + ">" + esc(v) + "</" + T + ">"; for (size_t c = 1; c <= v.size(); c++) { if (c > 4 && c + 4 < v.size()) continue; if (decode(t, [=](ByteStream* s, int* e) { Buf b(c, 0x7E); return (int)Xer_DecodeString(s, g, (char*)b.p, c, e); })) { viol("string-capacity", "a string of %zu characters accepted in %zu octets", v.size(), c); return; } } }
static void strings(const string& T, int part) { static const char al[] = "a<>&\"' \n;lt]\x7f\x01"; int K = (int)strlen(al), L = g_thorough ? 4 : 3;
    if (part == 0) for (int n = 0; n <= L; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= K; for (uint64_t c = 0; c < tot; c++) { MC_CASE("string n=%d code %llu", n, c); string v; uint64_t q = c; for (int i = 0; i < n; i++) { v += al[q % K]; q /= K; } str1(T, v); } }
    if (part == 1) { for (int c = 1; c < 128; c++) for (int n : {1, 2, 50}) { MC_CASE("string of %d characters %d", n, c); str1(T, string(n, (char)c)); } for (int n = 0; n < (g_thorough ? 3000 : 400); n++) { MC_CASE("string of %d mixed characters", n); string v; for (int i = 0; i < n; i++) v += al[(i * 7 + n) % 10]; str1(T, v); }
        static const char* w[] = {"&lt;", "&amp;lt;", "]]>", "<T>", "</T>", "<!-- x -->", "<?x?>", "&#65;", "&", "a&b;", "&lt", "&quot;&apos;", "  lead", "trail  ", "\t", "\n\n"}; for (int i = 0; i < 16; i++) { MC_CASE("string literal %d", i); str1(T, w[i]); } } }
static string hexs(const std::vector<uint8_t>& v) { string r; char b[3]; for (auto x : v) { snprintf(b, 3, "%02X", x); r += b; } return r; }
static string up(string s) { for (auto& c : s) c = (char)toupper(c); return s; }
static Dec doct(const char* g, const std::vector<uint8_t>& v, size_t cap, bool fixed) { return [=](ByteStream* s, int* e) { Buf b(cap, 0x7E); int n = -7; bool r = Xer_DecodeOctetString(s, g, b.p, (int)cap, fixed ? nullptr : &n, e); if (!r) return 0; if (!fixed && n != (int)v.size()) return 2; return memcmp(b.p, v.data(), v.size()) ? 2 : 1; }; }
static void oct1(const string& T, const std::vector<uint8_t>& v) { const char* g = T.c_str(); size_t n = v.size(); string t = "<" + T + ">" + hexs(v) + "</" + T + ">";
    for (int k = 0; k < 3; k++) { Buf src(n); memcpy(src.p, v.data(), n); both([&](ByteStream* s, int* e, int l) { return Xer_EncodeOctetString(s, g, src.p, (int)n, e, l); }, doct(g, v, k == 2 ? n + 2 : n, k == 1), n * 2 + 600, [=](const El& x) { return x.tag == T && x.ch.empty() && up(x.text) == hexs(v); }); }
    if (n) { for (size_t c = 0; c < n; c++) { if (c > 3 && c + 3 < n) continue; if (decode(t, doct(g, v, c, false))) { viol("octets-capacity", "%zu octets accepted in room for %zu", n, c); return; } if (decode(t, doct(g, v, c, true))) { viol("octets-fixed", "%zu octets accepted where there must be %zu", n, c); return; } } }
    if (decode(t, doct(g, v, n + 1, true))) { viol("octets-fixed", "%zu octets accepted where there must be %zu", n, n + 1); return; }
    string w = "<" + T + "> "; for (size_t i = 0; i < n; i++) { w += hexs({v[i]}).substr(0, 1) + (i % 3 ? "" : "\n ") + hexs({v[i]}).substr(1) + " "; } w += "</" + T + ">"; readback(w, doct(g, v, n, false)); string lo = t; for (size_t i = T.size() + 2; i < lo.size() - T.size() - 3; i++) lo[i] = (char)tolower(lo[i]); readback(lo, doct(g, v, n, true)); if (!n) { readback("<" + T + "/>", doct(g, v, 0, false)); } }
static void octets(const string& T) { for (int a = 0; a < 256; a++) { MC_CASE("octet %d", a); oct1(T, {(uint8_t)a}); } for (int n = 0; n <= (g_thorough ? 3000 : 600); n++) { MC_CASE("%d octets", n); std::vector<uint8_t> v; for (int i = 0; i < n; i++) v.push_back((uint8_t)(i * 37 + n)); oct1(T, v); } for (int n : {1023, 1024, 1025, 2048, 5000}) { MC_CASE("%d octets", n); std::vector<uint8_t> v; for (int i = 0; i < n; i++) v.push_back((uint8_t)(i * 41 + n)); oct1(T, v); } }
static Dec dbit(const char* g, const string& v, size_t cap, bool fixed) { return [=](ByteStream* s, int* e) { Buf b((cap + 7) / 8, 0x7E); int n = -7; bool r = Xer_DecodeBitString(s, g, b.p, (int)cap, fixed ? nullptr : &n, e); if (!r) return 0; if (!fixed && n != (int)v.size()) return 2; for (size_t i = 0; i < v.size(); i++) if (getbit(b.p, i) != v[i] - '0') return 2; return 1; }; }
static void bit1(const string& T, const string& v) { const char* g = T.c_str(); size_t n = v.size(); string t = "<" + T + ">" + v + "</" + T + ">";
    for (int gar = 0; gar < 2; gar++) for (int k = 0; k < 3; k++) { Buf src((n + 7) / 8, gar ? 0xFF : 0); for (size_t i = 0; i < n; i++) setbit(src.p, i, v[i] == '1'); both([&](ByteStream* s, int* e, int l) { return Xer_EncodeBitString(s, g, src.p, (int)n, e, l); }, dbit(g, v, k == 2 ? n + 9 : n, k == 1), n + 600, [=](const El& x) { return x.tag == T && x.ch.empty() && x.text == v; }); }
    for (size_t c = 0; c < n; c++) { if (c > 3 && c + 3 < n) continue; if (decode(t, dbit(g, v, c, false))) { viol("bits-capacity", "%zu bits accepted in room for %zu", n, c); return; } if (decode(t, dbit(g, v, c, true))) { viol("bits-fixed", "%zu bits accepted where there must be %zu", n, c); return; } }
    if (decode(t, dbit(g, v, n + 1, true))) { viol("bits-fixed", "%zu bits accepted where there must be %zu", n, n + 1); return; } string w = "<" + T + ">"; for (size_t i = 0; i < n; i++) w += string(i % 2 ? " " : "\n\t") + v[i]; w += " </" + T + ">"; readback(w, dbit(g, v, n, false)); if (!n) readback("<" + T + "/>", dbit(g, v, 0, false)); }
static void bits(const string& T) { for (int n = 0; n <= (g_thorough ? 11 : 8); n++) for (int c = 0; c < 1 << n; c++) { MC_CASE("%d bits %x", n, c); string v; for (int i = n; i--;) v += (c >> i & 1) ? '1' : '0'; bit1(T, v); } for (int n = 9; n < (g_thorough ? 2600 : 300); n++) { MC_CASE("%d bits", n); string v; for (int i = 0; i < n; i++) v += (i * i + n) % 3 ? '1' : '0'; bit1(T, v); } for (int n : {2046, 2047, 2048, 2049, 9999}) { MC_CASE("%d bits", n); string v; for (int i = 0; i < n; i++) v += (i * i + n) % 3 ? '1' : '0'; bit1(T, v); } }
static void oids(const string& T) { const char* g = T.c_str(); U M = (U)-1; const U al[] = {0, 1, 9, 10, 39, 12345, M >> 1, M - 1, M}; auto go = [&](const std::vector<U>& a) { Asn1ObjectIdentifier o; memset(&o, 0x5E, sizeof o); o.nCount = (int)a.size(); string txt; for (size_t i = 0; i < a.size(); i++) { o.values[i] = a[i]; txt += (i ? "." : "") + std::to_string((unsigned long long)a[i]); }
        both([&](ByteStream* s, int* e, int l) { return Xer_EncodeObjectIdentifier(s, g, &o, e, l); }, [=](ByteStream* s, int* e) { Asn1ObjectIdentifier r; memset(&r, 0x5E, sizeof r); if (!Xer_DecodeObjectIdentifier(s, g, &r, e)) return 0; if (r.nCount != (int)a.size()) return 2; for (size_t i = 0; i < a.size(); i++) if (r.values[i] != a[i]) return 2; return 1; }, 1500, [=](const El& x) { return x.tag == T && x.ch.empty() && x.text == txt; }); };
    for (int n = 1; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 9; for (int c = 0; c < tot; c++) { MC_CASE("oid of %d arcs code %d", n, c); std::vector<U> a; int q = c; for (int i = 0; i < n; i++) { a.push_back(al[q % 9]); q /= 9; } go(a); } } for (int n = 4; n <= OBJECT_IDENTIFIER_MAX_LENGTH; n++) for (int k = 0; k < 9; k++) { MC_CASE("oid of %d arcs alphabet[%d]", n, k); std::vector<U> a(n, al[k]); a[n - 1] = (U)n; go(a); }
    auto bad = [&](const string& x) { Asn1ObjectIdentifier r; memset(&r, 0x5E, sizeof r); string t = "<" + T + ">" + x + "</" + T + ">"; if (decode(t, [&](ByteStream* s, int* e) { return (int)Xer_DecodeObjectIdentifier(s, g, &r, e); })) viol("oid-text", "accepted %s", shw(t).c_str()); else traced(); };
    string many = "1"; for (int i = 0; i < OBJECT_IDENTIFIER_MAX_LENGTH; i++) many += ".2"; string w[] = {"", ".", "1.", ".1", "1..2", "1.x", "x", "-1.2", "1.-2", "1.2.", "99999999999999999999999", "1.99999999999999999999999", "1,2", many, many + many, WORD_SIZE == 8 ? "1.18446744073709551616" : "1.4294967296", "1.2x", "0x1.2"}; for (int i = 0; i < 18; i++) { MC_CASE("oid text %d", i); bad(w[i]); } }
// ---------- text that is no value ----------
static void texts(const string& T) { const char* g = T.c_str(); static const char* tk[] = {"0", "1", "9", "-", "+", " ", "x", ".", "e", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967295", "4294967296", "2147483648", "&lt;"}; int K = 17, L = 3;
    for (int n = 0; n <= L; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= K; for (int c = 0; c < tot; c++) { MC_CASE("number text n=%d code %d", n, c); string x; int q = c; for (int i = 0; i < n; i++) { x += tk[q % K]; q /= K; }
        string t = "<" + T + ">" + x + "</" + T + ">", y = x; bool amp = x.find('&') != string::npos; while (!y.empty() && y.back() == ' ') y.pop_back(); while (!y.empty() && y[0] == ' ') y = y.substr(1);
        bool neg = !y.empty() && y[0] == '-', pl = !y.empty() && y[0] == '+'; string d = neg || pl ? y.substr(1) : y; bool dig = !d.empty(); for (char ch : d) if (!isdigit((unsigned char)ch)) dig = false; unsigned __int128 m = 0; if (dig) for (char ch : d) { m = m * 10 + (ch - '0'); if (m > ((unsigned __int128)1 << 100)) m = (unsigned __int128)1 << 100; }
        U um = (U)-1; unsigned __int128 lim = (unsigned __int128)(um >> 1) + (neg ? 1 : 0);
        { I r = 0x55; int g2 = decode(t, [&](ByteStream* s, int* e) { return (int)Xer_DecodeInteger(s, g, &r, e); }); bool ok = dig && m <= lim && !amp; if (g2 && !ok) viol("integer-text", "accepted %s", shw(t).c_str()); else if (!g2 && ok && !pl) viol("integer-refused", "refused %s", shw(t).c_str()); else if (g2 && (__int128)r != (neg ? -(__int128)m : (__int128)m)) viol("integer-value", "%s read as another number", shw(t).c_str()); else traced(); }
        { U r = 0x55; int g2 = decode(t, [&](ByteStream* s, int* e) { return (int)Xer_DecodePosInteger(s, g, &r, e); }); bool ok = dig && (!neg || m == 0) && m <= um && !amp; if (g2 && !ok) viol("unsigned-text", "accepted %s", shw(t).c_str()); else if (!g2 && ok && !pl && !neg) viol("unsigned-refused", "refused %s", shw(t).c_str()); else if (g2 && r != m) viol("unsigned-value", "%s read as another number", shw(t).c_str()); else traced(); }
        { asn1Real r = 5; int g2 = decode(t, [&](ByteStream* s, int* e) { return (int)Xer_DecodeReal(s, g, &r, e); }); // realnumber: -? digits (. digits*)? ([eE] -? digits)?
          size_t p = 0; bool lax = !y.empty(); if (p < y.size() && (y[p] == '-' || y[p] == '+')) p++; size_t q0 = p; while (p < y.size() && isdigit((unsigned char)y[p])) p++; bool strict = p > q0; size_t nd = p - q0; if (p < y.size() && y[p] == '.') { size_t z = ++p; while (p < y.size() && isdigit((unsigned char)y[p])) p++; nd += p - z; } if (!nd) lax = strict = false; if (p < y.size() && y[p] == 'e') { p++; if (p < y.size() && (y[p] == '-' || y[p] == '+')) p++; size_t z = p; while (p < y.size() && isdigit((unsigned char)y[p])) p++; if (p == z) lax = strict = false; } if (p != y.size()) lax = strict = false; if (pl) strict = false;
          bool huge = lax && std::isinf(strtod(y.c_str(), nullptr)); if (g2 && !lax) viol("real-text", "accepted %s", shw(t).c_str()); else if (!g2 && strict && !huge) viol("real-refused", "refused %s", shw(t).c_str()); else if (g2 && !huge && r != (asn1Real)strtod(y.c_str(), nullptr)) viol("real-value", "%s read as another number", shw(t).c_str()); else traced(); }
        { string h; bool okh = true, okb = true; for (char ch : x) { if (ch == ' ') continue; h += ch; if (!isxdigit((unsigned char)ch)) okh = false; if (ch != '0' && ch != '1') okb = false; } std::vector<uint8_t> v; if (okh) for (size_t i = 0; i < h.size(); i += 2) v.push_back((uint8_t)strtol((h.substr(i, 2) + (i + 1 < h.size() ? "" : "0")).c_str(), nullptr, 16));
          int g2 = decode(t, doct(g, v, 64, false)); if (g2 && !okh) viol("octets-text", "accepted %s", shw(t).c_str()); else if (okh && (g2 == 2 || (!g2 && h.size() % 2 == 0))) viol("octets-refused", "refused or misread %s", shw(t).c_str()); g2 = decode(t, dbit(g, okb ? h : "", 64, false)); if (g2 && !okb) viol("bits-text", "accepted %s", shw(t).c_str()); else if (okb && g2 != 1) viol("bits-refused", "refused or misread %s", shw(t).c_str()); else traced(); }
    } } }
// every sequence of tokens: only complete elements are accepted, and nothing reads outside the text
static void tokens(int type, int first) {
    static const char* tk[] = {"<T>", "</T>", "<T/>", "<", ">", "/", "T", "U", "<true/>", "<a/>", "5", " ", "&amp;", "<!--c-->", "\"", "="}; const int K = 16; int L = g_thorough ? 5 : 4;
    for (int n = 1; n <= L; n++) { uint64_t tot = 1; for (int i = 1; i < n; i++) tot *= K; for (uint64_t c = 0; c < tot; c++) { MC_CASE("type %d tokens n=%d first %d code %llu", type, n, first, c); string t = tk[first]; bool odd = strchr(" ", *tk[first]) || first == 13; uint64_t q = c; for (int i = 1; i < n; i++) { t += tk[q % K]; if (q % K == 11 || q % K == 13) odd = true; q /= K; }
        // strict reading: one element T at the start of the text
        El e; size_t p = 0; bool wf = rd(t, p, e) && e.tag == "T" && e.at.empty(); bool ok = false; switch (type) { case 0: ok = wf && e.ch.empty() && e.text == "5"; break; case 1: ok = wf && e.ch.empty(); break; case 2: ok = wf && e.ch.size() == 1 && e.ch[0].tag == "true" && e.ch[0].text.empty() && e.ch[0].ch.empty() && e.text.empty(); break; case 3: ok = wf && e.ch.size() == 1 && e.ch[0].tag == "a" && e.ch[0].text.empty() && e.ch[0].ch.empty() && e.text.empty(); break; case 4: ok = wf && e.ch.empty() && e.text == "5"; break; case 5: ok = wf && e.ch.empty() && (e.text == "5" || e.text.empty()); break; }
        string sv; int g = decode(t, [&](ByteStream* s, int* er) { switch (type) { case 0: { I v = 0; return (int)Xer_DecodeInteger(s, "T", &v, er); } case 1: { Buf b(40); bool r = Xer_DecodeString(s, "T", (char*)b.p, 40, er); if (r) sv = (char*)b.p; return (int)r; } case 2: { flag f = 0; return (int)Xer_DecodeBoolean(s, "T", &f, er); } case 3: { char b[200]; return (int)Xer_DecodeEnumerated(s, "T", b, er); } case 4: { asn1Real v = 0; return (int)Xer_DecodeReal(s, "T", &v, er); } default: { Buf b(4); int n2 = 0; return (int)Xer_DecodeOctetString(s, "T", b.p, 4, &n2, er); } } });
        bool lax = false; if (!ok) { // white space and comments between tokens, several digits, other element names: judged only when none of them is in play
            if (odd || (type <= 1 || type >= 4)) { string u; for (size_t i = 0; i < t.size();) { if (t.compare(i, 8, "<!--c-->") == 0) { i += 8; continue; } if (t[i] == ' ') { i++; continue; } u += t[i++]; } El e2; size_t p2 = 0; bool w2 = rd(u, p2, e2) && e2.tag == "T"; lax = w2 && (type == 1 || odd || (e2.ch.empty() && (type == 5 || !e2.text.empty()))); if (type == 1) { // raw > inside character data
                    size_t z = t.find("</T>"); if (z != string::npos) lax = true; size_t z2 = u.find("</T>"); if (z2 != string::npos) lax = true; } if (type == 5) { size_t z = u.find("</T>"); lax = lax && (z != string::npos || u.compare(0, 4, "<T/>") == 0); } } }
        if (type == 2 || type == 3) if (!ok && !lax) { El e2; size_t p2 = 0; lax = rd(t, p2, e2) && e2.tag == "T" && e2.ch.size() == 1 && e2.text.empty() && (type == 3 ? e2.ch[0].tag != "T" || true : e2.ch[0].tag == "true"); }
        if (g && !ok && !lax) viol("tokens", "type %d: accepted %s", type, shw(t).c_str()); else if (!g && ok && t.find("<!--") == string::npos) viol("tokens-refused", "type %d: refused %s", type, shw(t).c_str()); else { if (g && ok && type == 1 && sv != e.text) viol("tokens-value", "%s read as %s", shw(t).c_str(), shw(sv).c_str()); traced(); } } } }
// complex elements, attributes, look-ahead
static void complexes() {
    for (int na = 0; na <= 20; na++) for (int nl : {1, 5, 49}) for (int vl : {1, 50, 99}) for (int T = 0; T < 5; T++) { MC_CASE("%d attributes, names of %d and values of %d characters, tag %d", na, nl, vl, T); const string& tag = tags[T]; static XmlAttributeArray A; memset(&A, 0, sizeof A); A.nCount = na; for (int i = 0; i < na; i++) { memset(A.attrs[i].Name, 'a' + i, nl); memset(A.attrs[i].Value, 'A' + i, vl); A.attrs[i].Name[nl] = A.attrs[i].Value[vl] = 0; }
        size_t room = 6000; Buf b(room, 0x41); ByteStream s; attach(&s, b.p, room); int e = 0; trans(); if (!Xer_EncodeComplexElementStart(&s, tag.c_str(), na ? &A : nullptr, &e, 0) || !Xer_EncodeComplexElementEnd(&s, tag.c_str(), &e, 0)) { viol("complex", "element with %d attributes refused", na); continue; } string t((char*)b.p, s.currentByte); El el; bool ok = doc(t, el) && el.tag == tag && el.text.empty() && (int)el.at.size() == na; for (int i = 0; ok && i < na; i++) ok = el.at[i].first == A.attrs[i].Name && el.at[i].second == A.attrs[i].Value; if (!ok) { viol("complex-text", "element with %d attributes written as %s", na, shw(t).c_str()); continue; }
        for (int mode = 0; mode < 2; mode++) { static XmlAttributeArray B; memset(&B, 0, sizeof B); bool r = decode(t, [&](ByteStream* s, int* er) { return (int)(Xer_DecodeComplexElementStart(s, tag.c_str(), mode ? &B : nullptr, er) && Xer_NextEndElementIs(s, tag.c_str()) && !Xer_NextStartElementIs(s, tag.c_str()) && Xer_DecodeComplexElementEnd(s, tag.c_str(), er)); }); if (!r) { viol("complex-read", "element with %d attributes refused when read", na); break; } bool same = !mode || B.nCount == na; for (int i = 0; mode && same && i < na; i++) same = !strcmp(A.attrs[i].Name, B.attrs[i].Name) && !strcmp(A.attrs[i].Value, B.attrs[i].Value); if (!same) { viol("complex-attributes", "attributes read back differ"); break; } traced(); } }
    for (int n = 0; n <= 30; n++) for (int nl : {1, 49, 50, 60, 98}) for (int vl : {1, 99}) for (int mode = 0; mode < 2; mode++) { MC_CASE("text with %d attributes, names of %d and values of %d characters, array %d", n, nl, vl, mode); string t = "<T"; for (int i = 0; i < n; i++) t += " " + string(nl, (char)('a' + i % 26)) + "=\"" + string(vl, '5') + "\""; t += ">x</T>"; static XmlAttributeArray B; memset(&B, 0, sizeof B); bool r = decode(t, [&](ByteStream* s, int* er) { return (int)Xer_DecodeComplexElementStart(s, "T", mode ? &B : nullptr, er); }); bool fits = n <= 20 && (nl < 50 || n == 0); if (!r && (fits || !mode)) viol("attributes-refused", "%d attributes refused", n); else if (r && mode && !fits) viol("attributes-overflow", "%d attributes with names of %d characters accepted", n, nl); else if (r && mode && B.nCount != n) viol("attributes-count", "%d attributes counted as %d", n, B.nCount); else traced(); }
    static const char* ts[] = {"<a>", "<a/>", "</a>", "<b>", "<b/>", "</b>", "a", "", "<", "<a", "<a/", "</a", "< a >", "<ab>", "<!--x--><a>", "<?x?><a>", "<?x?><!--y--><a>", "<!--", "<?", "<!", "<!-", "<a b=\"c\">"};
    for (int i = 0; i < 22; i++) { MC_CASE("look-ahead on text %d", i); string t = ts[i]; string u = t; size_t z; while ((z = u.find("<!--x-->")) != string::npos) u.erase(z, 8); while ((z = u.find("<!--y-->")) != string::npos) u.erase(z, 8); while ((z = u.find("<?x?>")) != string::npos) u.erase(z, 5); bool st = u == "<a>" || u == "<a/>" || u == "< a >", en = u == "</a>", any = st || u == "<b>" || u == "<b/>" || u == "<ab>"; char out[256]; memset(out, 0x7e, sizeof out);
        if ((bool)decode(t, [&](ByteStream* s, int*) { bool r = Xer_NextStartElementIs(s, "a"); if (s->currentByte) viol("lookahead-moves", "look-ahead moved"); return (int)r; }) != st && i != 21) viol("lookahead-start", "start element test on %s", ts[i]); if ((bool)decode(t, [&](ByteStream* s, int*) { bool r = Xer_NextEndElementIs(s, "a"); if (s->currentByte) viol("lookahead-moves", "look-ahead moved"); return (int)r; }) != en) viol("lookahead-end", "end element test on %s", ts[i]);
        bool g = decode(t, [&](ByteStream* s, int*) { bool r = Xer_LA_NextElementTag(s, out); if (s->currentByte) viol("lookahead-moves", "look-ahead moved"); return (int)r; }); if (g != any && i != 21) viol("lookahead-tag", "next tag on %s", ts[i]); else if (g && i != 21 && string(out) != (u == "<ab>" ? "ab" : u.find('b') != string::npos ? "b" : "a")) viol("lookahead-tag", "next tag on %s is %s", ts[i], out); else traced(); }
    for (size_t n = 0; n < 60; n++) { MC_CASE("header and comment in %d octets", (int64_t)n); string c = "note"; Buf b(n, 0x41); ByteStream s; attach(&s, b.p, n); int e = 0; trans(); bool r = Xer_EncodeComment(&s, c.c_str(), &e); if (r && string((char*)b.p, s.currentByte) != "<!--note-->") viol("comment", "comment written wrongly"); else if (!r && n > 11) viol("comment", "comment refused in %zu octets", n); else traced(); }
}
// loading a file: white space, comments and the header go, the elements stay
static void files() {
    char fn[80]; snprintf(fn, sizeof fn, "/tmp/mc_xer_%d.xml", (int)getpid()); static const char* gaps[] = {"", " ", "\n  ", "<!-- c -->", "<!---->", "<!-- a -> b -->", "<!--x-->\n<!-- <T>1</T> -->", "\t\r\n"}; const int G = 8; static const char* heads[] = {"", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "\n\n"};
    for (int h = 0; h < 4; h++) for (int a = 0; a < G; a++) for (int b = 0; b < G; b++) for (int c = 0; c < G; c++) for (int tx = 0; tx < 3; tx++) { MC_CASE("file head %d gaps %d %d %d text %d", h, a, b, c, tx); static const char* texts[] = {"5", "two words", "x &lt; y"}; string want = string("<S><A>") + texts[tx] + "</A><B/></S>"; string f = string(heads[h]) + gaps[a] + "<S>" + gaps[b] + "<A>" + texts[tx] + "</A>" + gaps[c] + "<B/>" + gaps[b] + "</S>" + gaps[c]; FILE* o = fopen(fn, "w"); if (!o) continue; fwrite(f.data(), 1, f.size(), o); fclose(o);
        for (size_t room : {f.size(), f.size() + 40, want.size() - 1}) { Buf bb(room, 0x41); ByteStream s; attach(&s, bb.p, room); int n = -1; trans(); bool r = LoadXmlFile(fn, &s, &n); if (room < want.size()) { if (r) viol("file-room", "file of %zu octets loaded into %zu", want.size(), room); continue; } if (!r) { viol("file-refused", "file refused: %s", shw(f).c_str()); break; } string g((char*)bb.p, n < 0 ? 0 : (size_t)n); if (s.currentByte != 0) viol("file-cursor", "cursor not at the start"); 
            // gaps may leave white space between elements, nothing else
            El x, y; if (!doc(g, x) || !doc(want, y) || x.tag != "S" || x.ch.size() != 2 || x.ch[0].tag != "A" || x.ch[0].text != y.ch[0].text || x.ch[1].tag != "B" || !ws(x.text)) { viol("file", "file %s loaded as %s", shw(f).c_str(), shw(g).c_str()); break; } traced(); } }
    unlink(fn);
}
int main(int argc, char** argv) {
    std::vector<Task> T; for (int t = 0; t < 5; t++) { string n = std::to_string(t); if (t == 0 || t == 3 || g_thorough) { T.push_back({"integers-" + n, [=] { ints(tags[t]); }}); T.push_back({"simple-" + n, [=] { simple(tags[t]); }}); } if (t == 0 || t == 4 || (g_thorough && t != 3)) { T.push_back({"reals-" + n, [=] { reals(tags[t]); }}); T.push_back({"bits-" + n, [=] { bits(tags[t]); }}); T.push_back({"octets-" + n, [=] { octets(tags[t]); }}); } if (t == 0 || t == 3) T.push_back({"oids-" + n, [=] { oids(tags[t]); }}); }
    T.push_back({"strings", [] { strings("T", 0); }}); T.push_back({"strings-long", [] { strings("IA5String", 1); }}); T.push_back({"texts", [] { texts("T"); }}); T.push_back({"complex", [] { complexes(); }}); T.push_back({"files", [] { files(); }});
    for (int ty = 0; ty < 6; ty++) for (int f = 0; f < 16; f++) T.push_back({"tokens-" + std::to_string(ty) + "-" + std::to_string(f), [=] { tokens(ty, f); }});
    return run(argc, argv, T);
}
