// Exhaustive enumeration of operation sequences / inputs on the real code, compiled with ASan+UBSan.
// A case is a function that draws decisions with pick(n, label); every combination is executed. Executions are spread
// over forked workers by their first decisions; a worker that dies (sanitizer report, assertion, signal) or hangs is
// a violation of the sequence it was executing.
#ifndef VERIF_SEQ_H_
#define VERIF_SEQ_H_
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <google/protobuf/stubs/logging.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sofa/pbrpc/pbrpc.h>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#define SEQ_ASAN 1
#include <sanitizer/allocator_interface.h>
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=1"; }
#endif

namespace seq {
struct Skip {};               // this combination is not a case
enum { MAXC = 4096, MAXO = 4096 };
struct Shared {               // one per worker
    volatile uint64_t execs, nodes, ops, shards; volatile int n, busy, done, violated; int choice[MAXC]; char sig[128]; char msg[2048]; volatile uint64_t beat;
    volatile int nout; uint64_t out[MAXO]; char sample[8][160]; volatile int nsample; volatile int nknown; struct { char sig[96]; uint64_t count; } known[16];
};
static Shared* W; static int me, nworkers; static bool replaying;
static std::vector<int> path, limit; static size_t depth; static uint64_t shard_seen; static bool sharded; static int shard_at = 2;
static std::vector<std::string> knowns; static std::string obs_text, trace_text; static bool tracing;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double deadline;
// Everything that ends up in a report goes through here.
struct Violation {};
static std::vector<int> fixed_prefix; // shard prefix owned
inline void op() { ++W->ops; }
inline void fail(const char* sig, const char* fmt, ...) {
    char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (size_t i = 0; i < knowns.size(); ++i) if (!strncmp(sig, knowns[i].c_str(), knowns[i].size())) {
        for (int k = 0; k < 16; ++k) { if (k == W->nknown) { snprintf(W->known[k].sig, sizeof W->known[k].sig, "%s", knowns[i].c_str()); W->nknown++; } if (!strcmp(W->known[k].sig, knowns[i].c_str())) { W->known[k].count++; break; } }
        throw Skip();
    }
    snprintf((char*)W->sig, sizeof W->sig, "%s", sig); snprintf((char*)W->msg, sizeof W->msg, "%s", b); W->violated = 1;
    throw Violation();
}
#define SEQ_CHECK(c, sig, ...) do { if (!(c)) seq::fail(sig, __VA_ARGS__); } while (0)
inline std::string show(const std::string& s) {
    std::string r = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < 120; ++i) { unsigned char c = s[i]; if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    r += s.size() > 120 ? "...\"" : "\""; if (s.size() > 120) { snprintf(b, sizeof b, "(%zu)", s.size()); r += b; } return r;
}
inline void note(const char* fmt, ...) { if (!tracing) return; char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fprintf(stderr, "  %s\n", b); }
inline void obs(const char* fmt, ...) { char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); obs_text += b; obs_text += "; "; }
static uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < s.size(); ++i) h = (h ^ (unsigned char)s[i]) * 1099511628211ull; return h ? h : 1; }
inline int pick(int n, const char* label) {
    if (n <= 1) return 0;
    if (replaying) { int v = depth < path.size() ? path[depth] : 0; ++depth; if (tracing) fprintf(stderr, "  pick %s = %d of %d\n", label, v, n); W->ops++; return v < n ? v : n - 1; }
    if (depth == path.size()) { path.push_back(0); limit.push_back(n); W->nodes++; }
    int v = path[depth]; if (limit[depth] != n) { limit[depth] = n; if (v >= n) v = path[depth] = n - 1; }
    if ((int)depth < MAXC) { W->choice[depth] = v; W->n = (int)depth + 1; }
    ++depth; W->ops++; W->beat++;
    if ((int)depth == shard_at && !sharded) { // first visit of this prefix?
        sharded = true;
        static std::vector<int> last; std::vector<int> cur(path.begin(), path.begin() + depth);
        if (cur != last) { last = cur; W->shards++; }
        if ((int)((W->shards - 1) % nworkers) != me) throw Skip();
    }
    return v;
}
inline bool coin(const char* label) { return pick(2, label) != 0; }
template<class T, size_t N> inline const T& of(const T (&a)[N], const char* label) { return a[pick((int)N, label)]; }

typedef void (*Fn)();
struct Case { const char* name; Fn fn; };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char* n, Fn f) { Case c = { n, f }; cases().push_back(c); } };
static bool thorough; // deeper alphabet/depth in the thorough tier
#define SEQ_CASE(name) static void seq_##name(); static seq::Reg reg_##name(#name, seq_##name); static void seq_##name()

#ifdef SEQ_ASAN
static volatile long live_blocks; static bool counting;
static void on_malloc(const volatile void*, size_t) { if (counting) ++live_blocks; }
static void on_free(const volatile void* p) { if (counting && p) --live_blocks; }
#endif
static bool leak_check = false; static uint64_t obs_hash; static char obs_show[160];
// Executes the current path once; true if it was a case.
static bool run_once(Fn fn) {
    depth = 0; sharded = false; obs_text.clear(); W->n = 0;
    bool is_case = true;
    try { fn(); } catch (Skip&) { is_case = false; }
    obs_hash = hash_str(obs_text); snprintf(obs_show, sizeof obs_show, "%s", obs_text.c_str()); if (!replaying) std::string().swap(obs_text);
    return is_case;
}
static void worker(Fn fn) {
    path.clear(); limit.clear();
    bool first = true; uint64_t short_runs = 0;
    for (;;) {
        W->busy = 1;
        bool ok;
        try {
#ifdef SEQ_ASAN
            if (leak_check) {
                counting = true; long b0 = live_blocks; ok = run_once(fn); counting = false;
                if (ok && live_blocks > b0) { // once more: caches filled by the first run do not count
                    counting = true; run_once(fn); long b1 = live_blocks; run_once(fn); counting = false;
                    if (live_blocks > b1) fail("leak", "%ld heap blocks leaked", live_blocks - b1);
                }
            } else
#endif
            ok = run_once(fn);
        } catch (Violation&) { W->busy = 0; return; }
        W->busy = 0; W->beat++;
        if (ok && (int)depth < shard_at) { if ((int)(short_runs++ % nworkers) != me) ok = false; }
        if (ok) {
            W->execs++;
            uint64_t h = obs_hash; bool seen = false; for (int i = 0; i < W->nout; ++i) if (W->out[i] == h) { seen = true; break; }
            if (!seen && W->nout < MAXO) { W->out[W->nout++] = h; if (W->nsample < 8) { int k = W->nsample; snprintf(W->sample[k], 160, "%s", obs_show); W->nsample++; } }
        }
        first = false; (void)first;
        while (!path.empty() && path.back() + 1 >= limit.back()) { path.pop_back(); limit.pop_back(); }
        if (path.empty()) { W->done = 1; return; }
        ++path.back();
        if (now() > deadline) return;
    }
}
static std::string jesc(const std::string& s) { std::string r; char b[8]; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 0x20 || c > 0x7e) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static int main_(int argc, char** argv) {
    std::string name, replay_out, replay; double secs = 60; nworkers = 8;
    { const char* e = getenv("VERIF_JOBS"); if (e && atoi(e) > 0) nworkers = atoi(e); }
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") { for (size_t k = 0; k < cases().size(); ++k) puts(cases()[k].name); return 0; }
        else if (a == "--tier") thorough = !strcmp(argv[++i], "thorough"); else if (a == "--time") secs = atof(argv[++i]);
        else if (a == "--replay-out") replay_out = argv[++i]; else if (a == "--replay") replay = argv[++i]; else if (a == "--known") knowns.push_back(argv[++i]);
        else if (a == "--workers") nworkers = atoi(argv[++i]); else if (name.empty()) name = a;
    }
    Fn fn = NULL; for (size_t k = 0; k < cases().size(); ++k) if (name == cases()[k].name) fn = cases()[k].fn;
    if (!fn) { fprintf(stderr, "unknown case %s\n", name.c_str()); return 2; }
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL); google::protobuf::SetLogHandler(NULL);
#ifdef SEQ_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    Shared* S = (Shared*)mmap(NULL, sizeof(Shared) * nworkers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!replay.empty()) {
        W = S; nworkers = 1; replaying = true; tracing = true;
        FILE* f = fopen(replay.c_str(), "r"); char b[64]; if (!f) return 2; while (fscanf(f, "%60s", b) == 1) if (!strcmp(b, "pick")) { int v; if (fscanf(f, "%d", &v) == 1) path.push_back(v); } fclose(f);
        try { run_once(fn); } catch (Violation&) { printf("VIOLATED %s: %s\n", W->sig, W->msg); return 1; }
        printf("no violation; %s\n", obs_text.c_str()); return 0;
    }
    double t0 = now(); deadline = t0 + secs;
    std::vector<pid_t> pid(nworkers); std::vector<int> efd(nworkers); std::vector<uint64_t> beat(nworkers, 0); std::vector<double> since(nworkers, t0);
    for (int w = 0; w < nworkers; ++w) {
        int p[2]; if (pipe(p)) return 2;
        pid[w] = fork();
        if (pid[w] == 0) { close(p[0]); dup2(p[1], 2); me = w; W = &S[w]; worker(fn); _exit(0); }
        close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK); efd[w] = p[0];
    }
    std::vector<std::string> err(nworkers); int alive = nworkers, bad = -1; std::vector<int> status(nworkers, 0); std::string sig, msg, lost;
    while (alive) {
        usleep(5000);
        for (int w = 0; w < nworkers; ++w) {
            char b[4096]; ssize_t n; while ((n = read(efd[w], b, sizeof b)) > 0) { err[w].append(b, n); if (err[w].size() > 40000) err[w].resize(40000); }
            if (!pid[w]) continue;
            if (S[w].beat != beat[w] || !S[w].busy) { beat[w] = S[w].beat; since[w] = now(); }
            else if (now() - since[w] > 25) { kill(pid[w], SIGKILL); if (bad < 0) { bad = w; sig = "hang"; msg = "no progress for 25 s"; } }
            int st; if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
                pid[w] = 0; --alive; status[w] = st;
                while ((n = read(efd[w], b, sizeof b)) > 0) err[w].append(b, n);
                if (S[w].violated && bad < 0) { bad = w; sig = (char*)S[w].sig; msg = (char*)S[w].msg; }
                else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) {
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { lost = "a worker was killed"; continue; }
                    bad = w; msg = "process died: "; size_t k = err[w].find("SUMMARY:"); std::string where = k == std::string::npos ? "" : err[w].substr(k, err[w].find('\n', k) - k);
                    size_t r = err[w].find("runtime error:"); size_t e = err[w].find("ERROR: AddressSanitizer:");
                    std::string kind = WIFSIGNALED(st) ? "signal" + std::to_string(WTERMSIG(st)) : "exit" + std::to_string(WEXITSTATUS(st));
                    if (r != std::string::npos) kind = "ubsan"; if (e != std::string::npos) { size_t q = e + 25; kind = err[w].substr(q, err[w].find_first_of(" \n:", q) - q); }
                    std::string fun; size_t in = where.rfind(" in "); if (in != std::string::npos) fun = where.substr(in + 4);
                    sig = "crash:" + kind + (fun.empty() ? "" : ":" + fun); if (sig.size() > 100) sig.resize(100);
                    if (r != std::string::npos) msg += err[w].substr(r, 200); if (e != std::string::npos) msg += err[w].substr(e, 600); if (r == std::string::npos && e == std::string::npos) msg += err[w].size() > 600 ? err[w].substr(err[w].size() - 600) : err[w];
                }
                if (bad >= 0) for (int v = 0; v < nworkers; ++v) if (pid[v]) kill(pid[v], SIGKILL);
            }
        }
    }
    uint64_t execs = 0, nodes = 0, ops = 0; bool complete = lost.empty(); std::set<uint64_t> outs; std::vector<std::string> samples; std::map<std::string, uint64_t> kn;
    for (int w = 0; w < nworkers; ++w) {
        execs += S[w].execs; nodes += S[w].nodes; ops += S[w].ops; complete = complete && S[w].done;
        for (int i = 0; i < S[w].nout; ++i) outs.insert(S[w].out[i]);
        for (int i = 0; i < S[w].nsample && samples.size() < 8; ++i) if (S[w].sample[i][0]) samples.push_back(S[w].sample[i]);
        for (int i = 0; i < S[w].nknown; ++i) kn[S[w].known[i].sig] += S[w].known[i].count;
    }
    bool is_known = false; if (bad >= 0) for (size_t i = 0; i < knowns.size(); ++i) if (!sig.compare(0, knowns[i].size(), knowns[i])) { is_known = true; kn[knowns[i]]++; }
    std::string seqtxt; if (bad >= 0) for (int i = 0; i < S[bad].n && i < MAXC; ++i) { seqtxt += "pick "; seqtxt += std::to_string(S[bad].choice[i]); seqtxt += "\n"; }
    if (bad >= 0 && !replay_out.empty()) { FILE* f = fopen(replay_out.c_str(), "w"); if (f) { fprintf(f, "case %s\nsignature %s\nmessage %s\n%s", name.c_str(), sig.c_str(), jesc(msg).c_str(), seqtxt.c_str()); fclose(f); } }
    printf("{\"scenario\":\"%s\",\"bound_requested\":1,\"bound_completed\":%d,\"complete\":%s,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct_outcomes\":%zu,\"wall_s\":%.2f,\"samples\":[", name.c_str(), complete ? 1 : 0, complete ? "true" : "false", (unsigned long long)execs, (unsigned long long)nodes, (unsigned long long)ops, outs.size(), now() - t0);
    for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    printf("],\"known\":{"); { bool f = true; for (std::map<std::string, uint64_t>::iterator i = kn.begin(); i != kn.end(); ++i) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(i->first).c_str(), (unsigned long long)i->second); f = false; } }
    printf("}"); if (bad >= 0 && !is_known) printf(",\"violation\":{\"sig\":\"%s\",\"msg\":\"%s\"}", jesc(sig).c_str(), jesc(msg).c_str()); if (!lost.empty()) printf(",\"error\":\"%s\"", lost.c_str());
    printf("}\n");
    return bad >= 0 && !is_known ? 1 : lost.empty() ? 0 : 2;
}
}
#define SEQ_MAIN int main(int argc, char** argv) { return seq::main_(argc, argv); }
#endif
