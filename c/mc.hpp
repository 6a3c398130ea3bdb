// Bounded-exhaustive explorer used by every C runtime check.
//  * a "task" is a deterministic enumeration of cases; tasks run in forked workers, 8 at a time
//  * every case is announced with MC_CASE(fmt, int args...) before the real code runs, so that a crash,
//    sanitizer report, failed assert or hang is attributed to it; the enumeration then resumes after it
//  * a violation is identified by  task#index  and can be replayed alone:  prog --replay task#index
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <map>
#include <set>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

namespace mc {

struct Slot {
    uint64_t cases;          // cases executed (states of the explored space)
    uint64_t transitions;    // calls of the implementation compared with the model
    uint64_t traces;         // complete model traces the implementation followed to the end
    uint64_t idx;            // index of the current case inside the task
    uint64_t nviol;
    const char* fmt; int64_t a[16]; int na;
    char note[512];
};

extern Slot* S;
extern uint64_t g_skip_upto;     // cases with index <= this are skipped (resume)
extern int64_t  g_only;          // replay: only this index
extern int g_case_ms;
extern const char* g_task;
extern FILE* g_out;
extern bool g_thorough;
extern uint64_t g_samples;

bool begin_case_impl();
void viol(const char* key, const char* fmt, ...) __attribute__((format(printf,2,3)));
inline void trans(uint64_t n = 1) { S->transitions += n; }
inline void traced(uint64_t n = 1) { S->traces += n; }
void arm();

template<class... A> inline bool begin_case(const char* fmt, A... a) {
    S->idx++;
    if (S->idx <= g_skip_upto) return false;
    if (g_only >= 0 && (int64_t)S->idx != g_only) return false;
    S->fmt = fmt; S->na = sizeof...(A);
    int64_t v[] = {0, (int64_t)a...};
    static_assert(sizeof...(A) <= 16, "args");
    for (int i = 0; i < S->na; i++) S->a[i] = v[i + 1];
    S->cases++;
    return true;
}
#define MC_CASE(...) if (!mc::begin_case(__VA_ARGS__)) continue

std::string fmt_case(const Slot& s);
struct Task { std::string name; std::function<void()> fn; };
int run(int argc, char** argv, std::vector<Task> tasks);
std::string hex(const uint8_t* p, size_t n);

// exact-size heap buffer: any access outside is an ASAN report
struct Buf {
    uint8_t* p; size_t n; size_t cap;      // blocks of up to 64 octets are recycled per exact size
    static std::vector<uint8_t*>& pool(size_t k) { static std::vector<uint8_t*> f[65]; return f[k]; }
    explicit Buf(size_t n_, uint8_t fill = 0) : n(n_), cap(n_ ? n_ : 1) { if (cap <= 64 && !pool(cap).empty()) { p = pool(cap).back(); pool(cap).pop_back(); } else p = (uint8_t*)malloc(cap); memset(p, fill, cap); if (!n) p++; /* an empty block: not even the first octet may be touched */ }
    ~Buf() { if (!n) p--; if (cap <= 64) pool(cap).push_back(p); else free(p); }
    Buf(const Buf&) = delete;
};

// independent bit list
struct Bits {
    std::vector<uint8_t> b;
    size_t size() const { return b.size(); }
    Bits& bit(int v) { b.push_back(v ? 1 : 0); return *this; }
    Bits& u(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back(i >= 64 ? 0 : (v >> i) & 1); return *this; }
    Bits& bytes(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) u(p[i], 8); return *this; }
    Bits& cat(const Bits& o) { b.insert(b.end(), o.b.begin(), o.b.end()); return *this; }
    Bits& bitsof(const uint8_t* p, size_t nbits) { for (size_t i = 0; i < nbits; i++) bit((p[i / 8] >> (7 - i % 8)) & 1); return *this; }
    static Bits of(const uint8_t* p, size_t nbits) { Bits r; r.bitsof(p, nbits); return r; }
    std::vector<uint8_t> pack(int fill = 0) const {
        std::vector<uint8_t> r((b.size() + 7) / 8, 0);
        for (size_t i = 0; i < r.size() * 8; i++) { int v = i < b.size() ? b[i] : fill; if (v) r[i / 8] |= 0x80 >> (i % 8); }
        return r;
    }
    std::string str() const { std::string s; size_t m = b.size() > 200 ? 200 : b.size(); for (size_t i = 0; i < m; i++) { s += b[i] ? '1' : '0'; if (i % 8 == 7) s += ' '; } if (m < b.size()) s += "..."; return s; }
    bool operator==(const Bits& o) const { return b == o.b; }
};
inline int getbit(const uint8_t* p, size_t i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
inline void setbit(uint8_t* p, size_t i, int v) { if (v) p[i / 8] |= 0x80 >> (i % 8); else p[i / 8] &= ~(0x80 >> (i % 8)); }

std::vector<uint64_t> ubound(int nbits);   // boundary values of nbits-bit unsigned
std::vector<int64_t> sbound(int nbits);
inline int bitlen(uint64_t v) { int n = 0; while (v) { n++; v >>= 1; } return n; }
}
