#include "mc.hpp"
#include <setjmp.h>
namespace mc {
Slot* S; uint64_t g_skip_upto = 0; int64_t g_only = -1; int g_case_ms = 4000; const char* g_task = ""; FILE* g_out; bool g_thorough = false; uint64_t g_samples = 0;

std::string fmt_case(const Slot& s) {
    if (!s.fmt) return "(before first case)";
    std::string r; int k = 0;
    for (const char* p = s.fmt; *p; p++) {
        if (*p == '%' && p[1]) { char t[64]; p++; while (*p == 'l') p++; int64_t v = k < s.na ? s.a[k] : 0; k++;
            if (*p == 'u') snprintf(t, sizeof t, "%llu", (unsigned long long)v);
            else if (*p == 'x') snprintf(t, sizeof t, "0x%llx", (unsigned long long)v);
            else if (*p == 's') snprintf(t, sizeof t, "%s", (const char*)v);
            else snprintf(t, sizeof t, "%lld", (long long)v);
            r += t; }
        else r += *p;
    }
    return r;
}
std::string hex(const uint8_t* p, size_t n) { std::string r; char t[4]; size_t m = n > 64 ? 64 : n; for (size_t i = 0; i < m; i++) { snprintf(t, 4, "%02x", p[i]); r += t; } if (m < n) r += "..."; return r; }

// a hang: the same case still running after g_case_ms of CPU time (ticks of 500 ms)
static uint64_t g_tick_idx = ~0ull; static int g_ticks = 0;
static void on_tick(int) { if (S->idx != g_tick_idx) { g_tick_idx = S->idx; g_ticks = 0; } else if (++g_ticks * 500 >= g_case_ms) _exit(79); }
void arm() { signal(SIGPROF, on_tick); struct itimerval it = {}; it.it_value.tv_usec = it.it_interval.tv_usec = 500000; setitimer(ITIMER_PROF, &it, nullptr); }

static std::string clean(std::string s) { for (char& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
static void emit(const char* key, const std::string& c, const std::string& msg) {
    dprintf(fileno(g_out), "V\t%s#%llu\t%s\t%s\t%s\n", g_task, (unsigned long long)S->idx, clean(key).c_str(), clean(c).c_str(), clean(msg).c_str());
}
void viol(const char* key, const char* fmt, ...) {
    if (S->nviol++ > 25) return;
    char t[2048]; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
    emit(key, fmt_case(*S), t);
}
std::vector<uint64_t> ubound(int n) {
    std::set<uint64_t> s; uint64_t mx = n >= 64 ? ~0ull : ((1ull << n) - 1);
    for (int k = 0; k <= n; k++) { uint64_t p = k >= 64 ? 0 : 1ull << k; for (int d = -2; d <= 2; d++) { uint64_t v = p + (uint64_t)(int64_t)d; if (v <= mx) s.insert(v); } }
    for (uint64_t v : {0xA5A5A5A5A5A5A5A5ull, 0x5A5A5A5A5A5A5A5Aull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x00FF00FF00FF00FFull, 0xFF00FF00FF00FF00ull}) for (int k = 1; k <= n; k += 7) s.insert((v >> (64 - k)) & mx);
    s.insert(mx); s.insert(mx - 1); s.insert(mx / 2); s.insert(mx / 3);
    return std::vector<uint64_t>(s.begin(), s.end());
}
std::vector<int64_t> sbound(int n) {
    std::set<int64_t> s; for (uint64_t u : ubound(n - 1)) { s.insert((int64_t)u); s.insert(-(int64_t)u - 1); }
    return std::vector<int64_t>(s.begin(), s.end());
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=4:malloc_context_size=4:log_to_syslog=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=0"; }

static std::string tail(const char* f) {
    FILE* fp = fopen(f, "r"); if (!fp) return ""; char line[512]; std::string r; int n = 0;
    while (fgets(line, sizeof line, fp)) { std::string l(line); if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos || (n < 4 && l.find(" in ") != std::string::npos && l.find("#") != std::string::npos)) { if (l.find(" in ") != std::string::npos) n++; r += l.substr(0, 160) + " | "; } }
    fclose(fp); return r;
}
static std::string faultkey(const std::string& t, int st) {
    auto f = [&](const char* a) { return t.find(a) != std::string::npos; };
    if (f("Assertion")) return "assert";
    for (const char* k : {"heap-buffer-overflow", "stack-buffer-overflow", "global-buffer-overflow", "use-after", "SEGV", "negative-size-param", "memcpy-param-overlap"}) if (f(k)) return k;
    if (f("runtime error")) return "ubsan";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 79) return "hang";
    return "crash";
}

int run(int argc, char** argv, std::vector<Task> tasks) {
    int nw = 8; std::string only_task; const char* filter = nullptr; int budget = 780;
    for (int i = 1; i < argc; i++) { std::string a = argv[i];
        if (a == "--replay") { std::string r = argv[++i]; auto p = r.rfind('#'); only_task = r.substr(0, p); g_only = strtoll(r.c_str() + p + 1, 0, 10); }
        else if (a == "--thorough") g_thorough = true;
        else if (a == "-j") nw = atoi(argv[++i]);
        else if (a == "--filter") filter = argv[++i];
        else if (a == "--budget") budget = atoi(argv[++i]);
    }
    time_t t0 = time(nullptr), tv = 0; bool stop = false;
    std::vector<int> todo; for (size_t i = 0; i < tasks.size(); i++) { if (!only_task.empty() && tasks[i].name != only_task) continue; if (filter && tasks[i].name.find(filter) == std::string::npos) continue; todo.push_back((int)i); }
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * tasks.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<uint64_t> skip(tasks.size(), 0), carry_idx(tasks.size(), 0); std::vector<int> restarts(tasks.size(), 0);
    std::map<pid_t, int> live; size_t next = 0; int total_viol = 0; std::vector<int> again;
    g_out = stdout;
    char logp[64]; 
    std::vector<std::string> samples;
    while (next < todo.size() || !again.empty() || !live.empty()) {
        while ((int)live.size() < nw && (next < todo.size() || !again.empty())) {
            int t; if (!again.empty()) { t = again.back(); again.pop_back(); } else t = todo[next++];
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                S = &slots[t]; S->idx = 0; g_task = tasks[t].name.c_str(); g_skip_upto = skip[t];
                snprintf(logp, sizeof logp, "mclog.%d.%d", (int)getppid(), t); int fd = open(logp, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
                arm(); tasks[t].fn(); _exit(0);
            }
            live[pid] = t;
        }
        int st; pid_t pid;
        while ((pid = waitpid(-1, &st, WNOHANG)) == 0) {
            usleep(5000); uint64_t nv = 0; for (int t : todo) nv += slots[t].nviol; time_t now = time(nullptr);
            if (nv && !tv) tv = now;
            if (!stop && ((tv && now - tv > 40) || now - t0 > budget)) { stop = true; next = todo.size(); again.clear(); for (auto& l : live) kill(l.first, SIGKILL); }
        }
        if (pid < 0) break;
        if (stop) { snprintf(logp, sizeof logp, "mclog.%d.%d", (int)getpid(), live[pid]); unlink(logp); live.erase(pid); continue; }
        int t = live[pid]; live.erase(pid);
        snprintf(logp, sizeof logp, "mclog.%d.%d", (int)getpid(), t);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            S = &slots[t]; g_task = tasks[t].name.c_str(); std::string tl = tail(logp); std::string k = faultkey(tl, st);
            if (S->nviol++ <= 25) emit(("fault:" + k).c_str(), fmt_case(*S), "implementation fault: " + k + " " + tl);
            if (++restarts[t] < 25 && g_only < 0 && S->idx > skip[t]) { skip[t] = S->idx; again.push_back(t); }
        }
        unlink(logp);
        if (slots[t].cases) { std::string s = tasks[t].name + ": " + fmt_case(slots[t]); if (samples.size() < 40) samples.push_back(s); }
    }
    uint64_t c = 0, tr = 0, tc = 0; for (int t : todo) { c += slots[t].cases; tc += slots[t].traces; tr += slots[t].transitions; total_viol += (int)slots[t].nviol; printf("T\t%s\t%llu\t%llu\t%llu\n", tasks[t].name.c_str(), (unsigned long long)slots[t].cases, (unsigned long long)slots[t].transitions, (unsigned long long)slots[t].nviol); }
    for (auto& s : samples) printf("S\t%s\n", clean(s).c_str());
    if (stop && !total_viol) { printf("B\tbudget exhausted\n"); return 3; }
    printf("D\t%llu\t%llu\t%d\t%llu\n", (unsigned long long)c, (unsigned long long)tr, total_viol, (unsigned long long)tc);
    return total_viol ? 1 : 0;
}
}
