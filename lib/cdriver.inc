typedef struct { flag (*enc)(void*, BitStream*, int*, flag); flag (*dec)(void*, BitStream*, int*); long maxbytes, maxbits; } Codec;
typedef struct { const char* name; size_t size; void (*dump)(void*); void (*load)(void*); void (*init)(void*); flag (*valid)(void*, int*); flag (*equal)(void*, void*); Codec c[2]; void (*konst)(int); } Desc;
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
static char* ob; static size_t on, oc; static int showdef;
static void pf(const char* f, ...) { va_list a; size_t k; if (on + 400 > oc) { oc = oc * 2 + 100000; ob = realloc(ob, oc); } va_start(a, f); k = vsnprintf(ob + on, 400, f, a); va_end(a); on += k; }
static void pr(double d) { unsigned long long u; if (d != d) { pf("7ff8000000000000 "); return; } memcpy(&u, &d, 8); pf("%016llx ", u); }
static void ph(const unsigned char* p, long n) { long i; pf("x"); if (n < 0 || n > 10000000) { pf("badlen%ld ", n); return; } for (i = 0; i < n; i++) pf("%02x", p[i]); pf(" "); }
static void pb(const unsigned char* p, long n) { long i; pf("b"); if (n < 0 || n > 10000000) { pf("badlen%ld ", n); return; } for (i = 0; i < n; i++) pf("%d", p[i / 8] >> (7 - i % 8) & 1); pf(" "); }
static char* cur; static char* tk(void) { char* r; while (*cur == ' ') cur++; r = cur; while (*cur && *cur != ' ') cur++; if (*cur) *cur++ = 0; return r; }
static int hx(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static double rr(void) { unsigned long long u = strtoull(tk(), NULL, 16); double d; memcpy(&d, &u, 8); return d; }
static int rh(unsigned char* p) { char* s = tk() + 1; int n = 0; while (s[0] && s[1]) { p[n++] = (unsigned char)(hx(s[0]) << 4 | hx(s[1])); s += 2; } return n; }
static int rb(unsigned char* p) { char* s = tk() + 1; int n = 0; for (; s[n]; n++) { if (n % 8 == 0) p[n / 8] = 0; if (s[n] == '1') p[n / 8] |= 0x80 >> n % 8; } return n; }
static void* obj(const Desc* d, int fill) { void* p = malloc(d->size); memset(p, fill, d->size); return p; }
/* decode an exact-size copy; 1 accepted, 0 refused, -1 broken promise (message printed) */
static int decode(const Desc* d, int x, const unsigned char* in, long n, void* v, long* bits, int* err) {
    unsigned char* b = malloc(n ? n : 1); BitStream s; flag ok; if (n) memcpy(b, in, n); memset(&s, 0, sizeof s);
    BitStream_AttachBuffer(&s, b, n); *err = 0; ok = d->c[x].dec(v, &s, err); *bits = (long)s.currentByte * 8 + s.currentBit;
    if (n && memcmp(b, in, n)) { pf("BAD decoder changed its input"); free(b); return -1; }
    free(b); if (ok && *bits > n * 8) { pf("BAD decoder accepts input that ends %ld bits too early", *bits - n * 8); return -1; }
    if (ok && *err != 0 && 0) { pf("BAD success with error code %d", *err); return -1; }
    return ok ? 1 : 0; }
/* whatever was accepted is valid, fits the announced size, and reads back equal */
static int lax;   /* XER decoders check the text, not the constraints: see G07 */
static int closed(const Desc* d, int x, void* v, int chk) {
    int e = 0; long n = d->c[x].maxbytes, bits; unsigned char* b; BitStream s; void* w; int r;
    if (!d->valid(v, &e)) { if (lax) return 1; pf("BAD accepted an invalid value (error %d): ", e); d->dump(v); return 0; }
    if (chk < 2) { b = malloc(n ? n : 1); memset(&s, 0, sizeof s); BitStream_Init(&s, b, n); e = 0;
    if (!d->c[x].enc(v, &s, &e, 1)) { pf("BAD accepted value cannot be encoded (error %d): ", e); d->dump(v); free(b); return 0; }
    bits = (long)s.currentByte * 8 + s.currentBit; if (bits > d->c[x].maxbits) { pf("BAD %ld bits written, %ld announced", bits, d->c[x].maxbits); free(b); return 0; }
    w = obj(d, 0x5A); r = decode(d, x, b, (bits + 7) / 8, w, &bits, &e); free(b);
    if (r < 0) { free(w); return 0; } if (r == 0) { pf("BAD re-encoded value refused (error %d): ", e); d->dump(v); free(w); return 0; }
    { size_t a; char* t1; int same; size_t o0 = on; d->dump(v); a = on; t1 = malloc(a - o0 + 1); memcpy(t1, ob + o0, a - o0); t1[a - o0] = 0; on = o0; d->dump(w); if (lax) { char* z; pf(""); ob[on] = 0; while ((z = strstr(t1, "8000000000000000"))) *z = '0'; while ((z = strstr(ob + o0, "8000000000000000"))) *z = '0'; } /* XML has one zero */ same = on - o0 == a - o0 && !memcmp(ob + o0, t1, a - o0); if (same) on = o0; else { on = o0; pf("BAD re-encoding changes the value: "); pf("%.150s", t1); d->dump(w); } free(t1); free(w); return same; } }
    return 1; }
static const char* now = "";
static void onalarm(int s) { (void)s; (void)!write(2, "Assertion timeout\n", 18); _exit(99); }
static int drive(const Desc* D, int nd) {
    char* line = NULL; size_t cap = 0; ssize_t len; signal(SIGALRM, onalarm);
    while ((len = getline(&line, &cap, stdin)) > 0) {
        char* op; const Desc* d = NULL; int i; while (len && (line[len - 1] == '\n' || line[len - 1] == '\r')) line[--len] = 0; if (!len) continue;
        cur = line; on = 0; op = tk(); { char* n = tk(); for (i = 0; i < nd; i++) if (!strcmp(D[i].name, n)) d = &D[i]; }
        if (!d) { printf("NOTYPE\n"); fflush(stdout); continue; }
        alarm(20);
        if (*op == 'E' || *op == 'C') {       /* E name enc tokens: encode with checks;  C: without checks */
            int x = *tk() == 'A'; void* v = obj(d, 0x77); long n = d->c[x].maxbytes; unsigned char* b = malloc(n ? n : 1); BitStream s; int e = 0; flag ok;
            d->load(v); memset(&s, 0, sizeof s); BitStream_Init(&s, b, n); ok = d->c[x].enc(v, &s, &e, *op == 'E');
            if (ok) { long bits = (long)s.currentByte * 8 + s.currentBit, q; if (bits > d->c[x].maxbits) pf("BAD %ld bits written, %ld announced", bits, d->c[x].maxbits); else { pf("OK %ld ", bits); for (q = 0; q < (bits + 7) / 8; q++) pf("%02x", b[q]); } } else pf("ERR %d", e);
            free(b); free(v);
        } else if (*op == 'D') {              /* D name enc hex */
            int x = *tk() == 'A'; char* h = tk(); long n = strlen(h) / 2, q, bits; unsigned char* in = malloc(n + 1); void* v = obj(d, 0x77); int e, r;
            for (q = 0; q < n; q++) in[q] = (unsigned char)(hx(h[2 * q]) << 4 | hx(h[2 * q + 1]));
            r = decode(d, x, in, n, v, &bits, &e); if (r == 1) { size_t o0 = on; if (closed(d, x, v, 0)) { on = o0; pf("OK %ld ", bits); showdef = 1; d->dump(v); showdef = 0; } } else if (r == 0) pf("ERR %d", e);
            free(in); free(v);
        } else if (*op == 'X') {              /* X name enc hex depth: every truncation, every bit flip, every value of every of the first bytes, all short strings */
            int x = *tk() == 'A'; char* h = tk(); int depth = atoi(tk()); long n = strlen(h) / 2, q, bits, cnt = 0, acc = 0; int e, r = 0, bad = 0, k; unsigned char* in = malloc(n + 3); void* v = malloc(d->size);
            for (q = 0; q < n; q++) in[q] = (unsigned char)(hx(h[2 * q]) << 4 | hx(h[2 * q + 1]));
#define TRY(P, N) { cnt++; memset(v, (int)(cnt * 37), d->size); r = decode(d, x, P, N, v, &bits, &e); if (r < 0) bad = 1; else if (r) { size_t o0 = on; acc++; if (!closed(d, x, v, 0)) bad = 1; else on = o0; } if (bad) { long zi; pf(" input "); for (zi = 0; zi < (N) && zi < 60; zi++) pf("%02x", (P)[zi]); } }
            lax = depth < 0;
            for (q = 0; q < n && !bad; q++) TRY(in, q)
            for (q = 0; q < n * 8 && q < 4000 && !bad; q++) { in[q / 8] ^= 0x80 >> q % 8; TRY(in, n) in[q / 8] ^= 0x80 >> q % 8; }
            for (q = 0; q < n && q < 24 && !bad; q++) { unsigned char o = in[q]; for (k = 0; k < 256 && !bad; k++) { in[q] = (unsigned char)k; TRY(in, n) } in[q] = o; }
            if (depth >= 1) { unsigned char z[3]; TRY(z, 0) for (k = 0; k < 256 && !bad; k++) { z[0] = (unsigned char)k; TRY(z, 1) } }
            if (depth >= 2) { unsigned char z[3]; for (k = 0; k < 65536 && !bad; k++) { z[0] = (unsigned char)(k >> 8); z[1] = (unsigned char)k; TRY(z, 2) } }
            if (depth >= 3) { unsigned char z[3]; for (k = 0; k < 16777216 && !bad; k++) { if (!(k & 0xffff)) alarm(20); z[0] = (unsigned char)(k >> 16); z[1] = (unsigned char)(k >> 8); z[2] = (unsigned char)k; TRY(z, 3) } }
            if (!bad) pf("OK %ld %ld", cnt, acc); lax = 0; free(in); free(v);
        } else if (*op == 'V') { void* v = obj(d, 0x77); int e = 0; flag ok; d->load(v); ok = d->valid(v, &e); pf(ok ? "OK" : "ERR %d", e); free(v);
        } else if (*op == 'Q') {              /* Q name value | value */
            void* v = obj(d, 0x77), *w = obj(d, 0x33); d->load(v); tk(); d->load(w); pf("OK %d %d", !!d->equal(v, w), !!d->equal(w, v)); free(v); free(w);
        } else if (*op == 'L') { void* v = obj(d, 0x77); d->load(v); pf("OK "); d->dump(v); free(v);
        } else if (*op == 'I') {              /* initial value: dump, validity */
            void* v = obj(d, 0x77); int e = 0; flag ok; d->init(v); ok = d->valid(v, &e); pf("OK %d %d ", !!ok, e); d->dump(v); free(v);
        } else if (*op == 'K') { int k = atoi(tk()); pf("OK "); if (d->konst) d->konst(k);
        } else if (*op == 'M') pf("OK %ld %ld %ld %ld", d->c[0].maxbytes, d->c[0].maxbits, d->c[1].maxbytes, d->c[1].maxbits);
        alarm(0);
        pf(""); ob[on] = 0; { char* nl; for (nl = ob; (nl = strchr(nl, '\n')); ) *nl = ' '; } while (on && ob[on - 1] == ' ') ob[--on] = 0; fwrite(ob, 1, on, stdout); putchar('\n'); fflush(stdout);
    }
    return 0; }
