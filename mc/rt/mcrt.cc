// Stateless model checker runtime: fibers, virtual time, deterministic heap with access checking, interposed
// pthreads, __tsan_* instrumentation entry points, and the deviation-bounded explorer.
// This file is compiled WITHOUT instrumentation.
#include "mcint.h"
#include <setjmp.h>
#include <errno.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <new>

extern "C" char __data_start;
extern "C" char _end;

namespace mc {

const uint64_t REALTIME_BASE_US = 1700000000ull * 1000000ull;

// ---------------------------------------------------------------------------------------------- global state
struct Loc {
    uint64_t addr;
    uint32_t gen;
    uint8_t n;
    uint8_t pad;
    uint16_t vci;   // 1-based index of sync clock
    struct { uint32_t clk; uint32_t key; uint8_t f; uint8_t w; uint16_t pad; } a[4];
};
enum { LOC_BITS = 18, LOC_N = 1 << LOC_BITS, HOT_BITS = 22 };

struct Shared;      // explorer state shared between processes

struct G {
    bool active;            // inside an execution
    bool armed;
    bool tracing;
    bool warm;              // warm-up run before the snapshot
    int in_rt;
    Config cfg;
    Fiber f[MAXF];
    int nf;
    Fiber* cur;
    void* sched_sp;
    uint64_t now;
    uint64_t seq;
    uint64_t steps;
    uint64_t switches;
    uint32_t npoints;
    uint32_t hash;
    uint64_t outcome;
    Item item;
    int next_dev;
    int policy;             // base schedule: 0 longest ready first, 1 last readied first
    PointRec pts[MAXPOINTS];
    VC vcs[MAXVC];
    int nvc;
    uint32_t gen;
    Loc locs[LOC_N];
    char obs_text[4096];
    size_t obs_len;
    // memory
    uint64_t live_blocks, live_bytes;
    char* exec_base;        // first byte of per-execution arena
    char* brk;              // bump pointer
    char* brk_max;
    void* last_block;
    // snapshot
    bool snap;
    char* data_lo; char* data_hi;
    char* base_lo; char* base_hi;
    uint32_t ndirty;
    struct { char* page; char* copy; } dirty[16384];
    char* copies; size_t copies_used;
    struct { char* blk; } base_freed[65536];
    uint32_t nbase_freed;
    char* tls_lo; size_t tls_sz; char* tls_init;
    char* kbase; size_t kused;
    bool run_done;
    int wid_; int level_bound_; uint64_t known_hits_[64];   // explorer state: must survive rewinds of .data/.bss
};
#define wid (g->wid_)
#define level_bound (g->level_bound_)
#define known_hits (g->known_hits_)

static G* g;
static Shared* sh;
static int trace_fd = -1;
static unsigned char* hot;       // shared bitmap

bool active() { return g && g->active; }
bool tracing() { return g && g->tracing; }
Fiber* cur() { return g->cur; }
uint64_t now() { return g ? g->now : 0; }
const Config& cfg() { return g->cfg; }

// ---------------------------------------------------------------------------------------------- arena
static char* const ARENA = (char*)0x200000000000ull;
static const size_t ARENA_SZ = 4ull << 30;
static unsigned char* const SHADOW = (unsigned char*)0x210000000000ull; // 1 byte per 8
struct Blk { uint64_t size; uint32_t magic; uint32_t alloc_pc; }; // 16 bytes before user memory
enum { MAGIC_LIVE = 0x4c495645, MAGIC_FREE = 0x46524545 };

static void die(const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    (void)!write(2, b, n); (void)!write(2, "\n", 1);
    _exit(3);
}

static void init_g() {
    if (g) return;
    void* p = mmap(NULL, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(3);
    G* ng = (G*)p;
    void* a = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap(SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != ARENA || s != SHADOW) _exit(3);
    ng->brk = ARENA + 4096;
    ng->kbase = (char*)mmap(NULL, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ng->copies = (char*)mmap(NULL, 256 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ng->hash = 2166136261u;
    ng->nf = 1;
    ng->f[0].state = S_READY; ng->f[0].id = 0;
    ng->cur = &ng->f[0];
    ng->cur->deadline = ~0ull;
    g = ng;
}

static inline bool in_arena(const void* p) { return (uint64_t)((const char*)p - ARENA) < ARENA_SZ; }
static void shadow_set(char* p, size_t n) {
    unsigned char* s = SHADOW + (p - ARENA) / 8;
    memset(s, 8, n / 8);
    if (n & 7) s[n / 8] = n & 7;
}
static void* arena_alloc(size_t n, size_t align, const void* pc) {
    init_g();
    if (align < 16) align = 16;
    if (n > (1ull << 31)) { errno = ENOMEM; return NULL; }
    char* p = g->brk + 16;
    p = (char*)(((uint64_t)p + align - 1) & ~(uint64_t)(align - 1));
    char* end = p + ((n + 15) & ~15ull) + 16; // redzone
    if (end > ARENA + ARENA_SZ) die("arena exhausted");
    g->brk = end;
    if (end > g->brk_max) g->brk_max = end;
    Blk* b = (Blk*)(p - 16);
    b->size = n; b->magic = MAGIC_LIVE; b->alloc_pc = (uint32_t)(uintptr_t)pc;
    shadow_set(p, n ? n : 1);
    if (n <= 4096) memset(p, 0xa5, n);
    g->live_blocks++; g->live_bytes += n;
    return p;
}
static size_t fill_max = 4096;
static void arena_free(void* v, const void* pc) {
    if (!v) return;
    if (!in_arena(v)) fail("bad_free", "free of pointer %p outside the heap", v);
    char* p = (char*)v;
    Blk* b = (Blk*)(p - 16);
    if (b->magic != MAGIC_LIVE) {
        fail(b->magic == MAGIC_FREE ? "double_free" : "bad_free", "invalid free of %p (allocated at pc 0x%x)", v, b->alloc_pc);
    }
    b->magic = MAGIC_FREE;
    unsigned char* s = SHADOW + (p - ARENA) / 8;
    size_t n = b->size ? b->size : 1;
    if (p < g->exec_base) {
        if (g->snap && g->nbase_freed < 65536) g->base_freed[g->nbase_freed++].blk = p;
    }
    memset(s, 0xFD, (n + 7) / 8);
    memset(p, 0xdd, b->size <= fill_max ? b->size : fill_max);
    g->live_blocks--; g->live_bytes -= b->size;
}

void* kalloc(size_t n) {
    n = (n + 15) & ~15ull;
    if (g->kused + n > (64 << 20)) die("kernel memory exhausted");
    void* p = g->kbase + g->kused; g->kused += n;
    memset(p, 0, n);
    return p;
}

uint64_t live_blocks() { return g->live_blocks; }
uint64_t live_bytes() { return g->live_bytes; }
void fill_freed(size_t n) { fill_max = n; }

// ---------------------------------------------------------------------------------------------- symbols
struct Sym { uint64_t a, e; const char* n; };
static Sym* syms; static size_t nsyms;
static void load_symbols() {
    int fd = open("/proc/self/exe", O_RDONLY);
    if (fd < 0) return;
    off_t sz = lseek(fd, 0, SEEK_END);
    char* m = (char*)mmap(NULL, sz, PROT_READ, MAP_PRIVATE, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    Elf64_Ehdr* eh = (Elf64_Ehdr*)m;
    Elf64_Shdr* s = (Elf64_Shdr*)(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) {
        if (s[i].sh_type != SHT_SYMTAB) continue;
        Elf64_Sym* st = (Elf64_Sym*)(m + s[i].sh_offset);
        size_t n = s[i].sh_size / sizeof(Elf64_Sym);
        const char* str = m + s[s[i].sh_link].sh_offset;
        syms = (Sym*)mmap(NULL, n * sizeof(Sym) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t j = 0; j < n; ++j)
            if (ELF64_ST_TYPE(st[j].st_info) == STT_FUNC && st[j].st_size) {
                syms[nsyms].a = st[j].st_value; syms[nsyms].e = st[j].st_value + st[j].st_size;
                syms[nsyms].n = str + st[j].st_name; ++nsyms;
            }
        qsort(syms, nsyms, sizeof(Sym), [](const void* x, const void* y) -> int {
            uint64_t a = ((const Sym*)x)->a, b = ((const Sym*)y)->a; return a < b ? -1 : a > b; });
    }
}
static const char* sym_of(uint64_t pc) {
    size_t lo = 0, hi = nsyms;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (syms[m].a <= pc) lo = m + 1; else hi = m; }
    if (lo && pc < syms[lo - 1].e) return syms[lo - 1].n;
    return "?";
}
// pc class cache: 1 = library internals (boost), 2 = other
static unsigned char* pc_class;
static inline bool pc_is_lib(const void* pc) {
    uint64_t i = (uint64_t)pc - 0x200000;
    if (i >= (64 << 20)) return false;
    unsigned char c = pc_class[i];
    if (!c) {
        const char* n = sym_of((uint64_t)pc - 1);
        c = (strstr(n, "5boost4asio") || strstr(n, "5boost6system") || strstr(n, "6google8protobuf")) && strncmp(n, "_ZN4sofa", 8) != 0 ? 1 : 2;
        if (strstr(n, "2vh") || strstr(n, "mc_body_") || strstr(n, "5verif")) c = 1; // harness code observes, it is not part of the system
        pc_class[i] = c;
    }
    return c == 1;
}

// ---------------------------------------------------------------------------------------------- failure
struct Shared {
    volatile int lock;
    volatile int stop;
    volatile int busy;
    volatile uint64_t execs, points, steps, switches, newnodes, truncated, maxpoints, known;
    volatile uint64_t hot_new;
    volatile uint64_t gcount;          // items in the global stack
    char sig[8][128]; char msg[8][1024]; // per worker slots
    Item cur[8]; volatile int has_cur[8];
    volatile uint64_t lcount[8];
    uint64_t outcomes[1 << 16]; volatile uint64_t noutcomes;
    char samples[6][1024]; volatile int nsamples;
    double deadline;
};
static Item* gstack; static Item* lstack[8];
enum { GCAP = 1 << 20, LCAP = 1 << 20 };

static void backtrace_text(char* out, size_t cap) {
    size_t n = 0; out[0] = 0;
    Fiber* f = g->cur;
    for (int i = f->depth - 1, k = 0; i >= 0 && k < 14; --i, ++k)
        if (i < MAXSHADOW) n += snprintf(out + n, n < cap ? cap - n : 0, " <- 0x%lx", (unsigned long)f->shadow[i]);
}

void trace(const char* fmt, ...) {
    if (!g->tracing || trace_fd < 0) return;
    char b[2048]; int n = snprintf(b, sizeof b, "[%9.3fms T%d %s] ", g->now / 1000.0, g->cur->id, g->cur->name);
    va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    (void)!write(trace_fd, b, n);
}

static void dump_fibers() {
    for (int i = 0; i < g->nf; ++i) {
        Fiber& f = g->f[i];
        if (f.state == S_DONE || f.state == S_FREE) continue;
        char bt[1024]; size_t n = 0; bt[0] = 0;
        for (int k = f.depth - 1, c = 0; k >= 0 && c < 12; --k, ++c) if (k < MAXSHADOW) n += snprintf(bt + n, n < sizeof bt ? sizeof bt - n : 0, " 0x%lx", (unsigned long)f.shadow[k]);
        trace("  fiber T%d %s state=%d waiting on %s deadline=%ld stack:%s", i, f.name, f.state, f.wait_what ? f.wait_what : "-", (long)f.deadline, bt);
    }
}

void fail(const char* sig, const char* fmt, ...) {
    static char m[1024]; char bt[600];
    if (g) g->active = false;
    va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    bt[0] = 0;
    if (g) backtrace_text(bt, sizeof bt);
    if (g && g->tracing) { trace("VIOLATION %s: %s%s", sig, m, bt); dump_fibers(); }
    if (sh && g && !g->warm) {
        snprintf(sh->sig[wid], 128, "%s", sig);
        snprintf(sh->msg[wid], 1024, "T%d(%s) %s%s", g->cur->id, g->cur->name, m, bt);
        _exit(77);
    }
    fprintf(stderr, "FAIL %s: %s%s\n", sig, m, bt);
    if (sh) { snprintf(sh->sig[wid], 128, "%s", sig); snprintf(sh->msg[wid], 1024, "%s%s", m, bt); }
    _exit(77);
}

void obs(const char* fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    for (int i = 0; i < n; ++i) g->outcome = (g->outcome ^ (unsigned char)b[i]) * 1099511628211ull;
    g->outcome = (g->outcome ^ 0xff) * 1099511628211ull;
    if (g->obs_len + n + 2 < sizeof g->obs_text) { memcpy(g->obs_text + g->obs_len, b, n); g->obs_len += n; g->obs_text[g->obs_len++] = ';'; g->obs_text[g->obs_len++] = ' '; g->obs_text[g->obs_len] = 0; }
    trace("obs: %s", b);
}
void note(const char* fmt, ...) {
    if (!g->tracing) return;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    trace("%s", b);
}

// ---------------------------------------------------------------------------------------------- context switch
extern "C" void mc_switch(void** save, void* to);
asm(".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    " movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size mc_switch,.-mc_switch\n");

static void switch_to(Fiber* to) {
    Fiber* from = g->cur;
    if (to == from) return;
    g->switches++;
    if (g->tracing) trace("-> switch to T%d %s", to->id, to->name);
    from->saved_errno = errno;
    if (g->tls_sz) { memcpy(from->tls, g->tls_lo, g->tls_sz); memcpy(g->tls_lo, to->tls, g->tls_sz); }
    g->cur = to;
    mc_switch(&from->sp, to->sp);
    errno = g->cur->saved_errno;
}

static void fiber_exit();
static void fiber_main() {
    Fiber* f = g->cur;
    if (f->cfn) { (*f->cfn)(); }
    else f->ret = f->fn(f->arg);
    fiber_exit();
}

// Predicates of waiting harness threads run outside of the schedule. One that needs a lock which is held counts as false.
static jmp_buf pred_jmp; static bool in_pred;
static bool pred_eval(const std::function<bool()>& p) {
    bool act = g->active, ok = false; g->active = false;
    bool nested = in_pred; in_pred = true;
    if (nested || setjmp(pred_jmp) == 0) ok = p();
    in_pred = nested; g->active = act;
    return ok;
}
static void pred_blocked(const char* what) { if (in_pred) longjmp(pred_jmp, 1); die("%s locked outside of execution", what); }

static int ready_list(Fiber** out, Fiber* exclude) {
    int n = 0;
    for (int i = 0; i < g->nf; ++i) {
        Fiber* f = &g->f[i];
        if (f->state == S_BLOCKED && f->pred) {
            bool ok = pred_eval(*f->pred);
            if (ok) { f->state = S_READY; f->timed_out = false; f->deadline = ~0ull; f->ready_seq = ++g->seq; }
        }
        if (f->state == S_READY && f != exclude) {
            int j = n++;
            while (j > 0 && out[j - 1]->ready_seq > f->ready_seq) { out[j] = out[j - 1]; --j; }
            out[j] = f;
        }
    }
    return n;
}

static inline void mix(uint32_t v) { g->hash = (g->hash ^ v) * 16777619u; g->hash ^= g->hash >> 15; }

int decide(int n, int nsched, int nstall, int kind, const char* tag) {
    if (n <= 1 || !g->armed || g->warm) return 0;
    if (g->cfg.max_points && (int)g->npoints >= g->cfg.max_points && kind != K_FREE) return 0;
    if (g->npoints >= MAXPOINTS) fail("rt_points", "too many choice points");
    uint32_t idx = g->npoints++;
    mix(g->cur->id * 131 + n); mix((uint32_t)kind);
    int alt = 0;
    if (g->next_dev < g->item.n && g->item.d[g->next_dev].idx == idx) {
        Dev& d = g->item.d[g->next_dev++];
        if (d.hash != g->hash || d.alt >= n) {
            if (sh) { snprintf(sh->sig[wid], 128, "rt_divergence"); snprintf(sh->msg[wid], 1024, "replay diverged at point %u tag %s (alt %d of %d)", idx, tag, d.alt, n); }
            _exit(78);
        }
        alt = d.alt;
    }
    PointRec& p = g->pts[idx];
    p.n = n; p.nsched = nsched; p.nstall = nstall; p.kind = kind; p.hash = g->hash; p.chosen = alt;
    if (g->tracing) trace("point %u %s alt %d/%d", idx, tag, alt, n);
    return alt;
}

static void advance_time() {
    uint64_t m = ~0ull;
    for (int i = 0; i < g->nf; ++i) { Fiber& f = g->f[i]; if ((f.state == S_BLOCKED || f.state == S_STALLED) && f.deadline < m) m = f.deadline; }
    if (m == ~0ull) fail("deadlock", "no thread can run and no timer is pending");
    if (m > g->now) g->now = m;
    if (g->now > g->cfg.horizon_us) {
        char b[400]; size_t n = 0; b[0] = 0;
        for (int i = 0; i < g->nf && n < sizeof b - 40; ++i) { Fiber& f = g->f[i]; if (f.state == S_BLOCKED) n += snprintf(b + n, sizeof b - n, " T%d(%s)@%s", i, f.name, f.wait_what ? f.wait_what : "?"); }
        fail("stuck", "execution did not finish within %lu ms of virtual time:%s", (unsigned long)(g->cfg.horizon_us / 1000), b);
    }
    for (int i = 0; i < g->nf; ++i) {
        Fiber& f = g->f[i];
        if ((f.state == S_BLOCKED || f.state == S_STALLED) && f.deadline <= g->now) {
            if (f.state == S_BLOCKED) f.timed_out = true;
            f.state = S_READY; f.deadline = ~0ull; f.ready_seq = ++g->seq;
        }
    }
}

// current fiber cannot continue: choose who runs next
static void reschedule() {
    bool decided = false;
    for (;;) {
        Fiber* r[MAXF];
        int n = ready_list(r, NULL);
        if (n == 0) { advance_time(); continue; }
        if (g->policy == 1) for (int i = 0, j = n - 1; i < j; ++i, --j) { Fiber* t = r[i]; r[i] = r[j]; r[j] = t; }
        int ns = decided ? 0 : g->cfg.nstall;
        int alt = 0;
        if (!decided && (n > 1 || ns)) alt = decide(n + ns, n, ns, K_SCHED, "resched");
        decided = true;
        if (alt >= n) {
            r[0]->state = S_STALLED; r[0]->deadline = g->now + g->cfg.stall_us[alt - n];
            if (g->tracing) trace("stall T%d %s for %lu us", r[0]->id, r[0]->name, (unsigned long)g->cfg.stall_us[alt - n]);
            continue;
        }
        Fiber* t = r[alt];
        if (t == g->cur) return;
        switch_to(t);
        return;
    }
}

static void preempt_point() {
    Fiber* c = g->cur;
    Fiber* r[MAXF];
    int n = ready_list(r, c);
    int ns = g->cfg.nstall;
    if (n + ns == 0) return;
    int alt = decide(1 + n + ns, 1 + n, ns, K_SCHED, "preempt");
    if (alt == 0) return;
    c->ready_seq = ++g->seq;
    if (alt <= n) { switch_to(r[alt - 1]); return; }
    c->state = S_STALLED; c->deadline = g->now + g->cfg.stall_us[alt - 1 - n];
    if (g->tracing) trace("stall self for %lu us", (unsigned long)g->cfg.stall_us[alt - 1 - n]);
    reschedule();
}

void block(const void* obj, const char* what, uint64_t deadline) {
    Fiber* c = g->cur;
    if (!g->active) fail("rt_block", "blocking (%s) outside of an execution", what);
    c->state = S_BLOCKED; c->wait_obj = obj; c->wait_what = what; c->deadline = deadline; c->timed_out = false;
    reschedule();
    c->wait_obj = NULL; c->wait_what = NULL;
}
void wake_all(const void* obj) {
    if (!g || !g->active) return;
    for (int i = 0; i < g->nf; ++i) { Fiber& f = g->f[i]; if (f.state == S_BLOCKED && f.wait_obj == obj) { f.state = S_READY; f.timed_out = false; f.deadline = ~0ull; f.ready_seq = ++g->seq; } }
}
static bool wake_fiber(Fiber* f) { f->state = S_READY; f->timed_out = false; f->deadline = ~0ull; f->ready_seq = ++g->seq; return true; }
bool wake_one(const void* obj) {
    if (!g || !g->active) return false;
    // woken in the order they started to wait
    Fiber* best = NULL;
    for (int i = 0; i < g->nf; ++i) { Fiber& f = g->f[i]; if (f.state == S_BLOCKED && f.wait_obj == obj && (!best || f.ready_seq < best->ready_seq)) best = &f; }
    return best ? wake_fiber(best) : false;
}

static void new_fiber_common(Fiber* f, const char* name) {
    f->state = S_READY; f->deadline = ~0ull; f->timed_out = false; f->wait_obj = NULL; f->wait_what = NULL; f->pred = NULL;
    f->ready_seq = ++g->seq; f->detached = f->joined = false; f->raw = false; f->ret = NULL; f->cfn = NULL; f->depth = 0; f->saved_errno = 0;
    memset(f->specific, 0, sizeof f->specific);
    snprintf(f->name, sizeof f->name, "%s", name);
    if (!f->stack) {
        f->stack = (char*)mmap(NULL, STACK_SZ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f->stack, 4096, PROT_NONE);
    }
    if (g->tls_sz && !f->tls) f->tls = (char*)mmap(NULL, g->tls_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g->tls_sz) memcpy(f->tls, g->tls_init, g->tls_sz);
    uint64_t* sp = (uint64_t*)(f->stack + STACK_SZ + 4096);
    *--sp = 0; // alignment: at fiber_main entry rsp % 16 == 8
    *--sp = (uint64_t)(void*)&fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    f->sp = sp;
}
static Fiber* new_fiber(const char* name) {
    if (g->nf >= MAXF) fail("rt_fibers", "too many threads");
    Fiber* f = &g->f[g->nf];
    char* st = f->stack; char* tls = f->tls;
    memset((void*)&f->vc, 0, sizeof f->vc);
    f->id = g->nf++;
    f->stack = st; f->tls = tls;
    new_fiber_common(f, name);
    f->vc = g->cur->vc;
    f->vc.c[f->id] = 1;
    g->cur->vc.c[g->cur->id]++;
    return f;
}
static void fiber_exit() {
    Fiber* c = g->cur;
    c->state = S_DONE;
    if (c->id == 0) { // end of execution
        g->run_done = true;
        g->cur = NULL;
        void* dummy;
        mc_switch(&dummy, g->sched_sp);
        __builtin_unreachable();
    }
    wake_all(&c->state);
    reschedule();
    __builtin_unreachable();
}

// ---------------------------------------------------------------------------------------------- access tracking
static inline uint32_t hash64(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 32; return (uint32_t)x; }
uint32_t key_of(const void* pc, int frames) {
    uint64_t h = (uint64_t)pc;
    Fiber* f = g->cur;
    for (int i = 1; i <= frames && f->depth - i >= 0; ++i) if (f->depth - i < MAXSHADOW) h = h * 0x9e3779b97f4a7c15ull + (uint64_t)f->shadow[f->depth - i];
    return hash64(h);
}
static inline bool is_hot(uint32_t key) { uint32_t k = key & ((1u << HOT_BITS) - 1); return hot[k >> 3] & (1 << (k & 7)); }
static unsigned char* hot_pending;
static inline void mark_hot(uint32_t key) {
    uint32_t k = key & ((1u << HOT_BITS) - 1);
    if (hot_pending[k >> 3] & (1 << (k & 7))) return;
    __atomic_fetch_or(&hot_pending[k >> 3], (unsigned char)(1 << (k & 7)), __ATOMIC_RELAXED);
    if (sh) __atomic_add_fetch(&sh->hot_new, 1, __ATOMIC_RELAXED);
}
void point_key(uint32_t key, bool force) {
    if (!g->active || !g->armed || g->warm) return;
    if (force || is_hot(key)) preempt_point();
}
static Loc* loc_of(uint64_t a) {
    uint32_t h = hash64(a) & (LOC_N - 1);
    for (int i = 0; i < 64; ++i) {
        Loc* l = &g->locs[(h + i) & (LOC_N - 1)];
        if (l->gen != g->gen) { l->gen = g->gen; l->addr = a; l->n = 0; l->vci = 0; return l; }
        if (l->addr == a) return l;
    }
    return NULL;
}
static void loc_access(Loc* l, bool write, uint32_t key) {
    Fiber* c = g->cur;
    int slot = -1;
    for (int i = 0; i < l->n; ++i) {
        if (l->a[i].f == c->id) { if (l->a[i].w == write || (write && l->a[i].key == key)) slot = i; continue; }
        if ((write || l->a[i].w) && l->a[i].clk > c->vc.c[l->a[i].f]) { mark_hot(key); mark_hot(l->a[i].key); }
    }
    if (slot < 0) { if (l->n < 4) slot = l->n++; else { slot = 0; for (int i = 1; i < 4; ++i) l->a[i - 1] = l->a[i]; slot = 3; } }
    l->a[slot].f = c->id; l->a[slot].w = write; l->a[slot].clk = c->vc.c[c->id]; l->a[slot].key = key;
}
void sync_access(const void* addr, bool write, uint32_t key, bool acquire, bool release) {
    if (!g->active) return;
    Loc* l = loc_of(((uint64_t)addr & ~7ull) | 1);
    if (!l) return;
    loc_access(l, write, key);
    Fiber* c = g->cur;
    if (acquire && l->vci) { VC& v = g->vcs[l->vci - 1]; for (int i = 0; i < g->nf; ++i) if (v.c[i] > c->vc.c[i]) c->vc.c[i] = v.c[i]; }
    if (release) {
        if (!l->vci) { if (g->nvc >= MAXVC) return; l->vci = ++g->nvc; memset(&g->vcs[l->vci - 1], 0, sizeof(VC)); }
        VC& v = g->vcs[l->vci - 1];
        for (int i = 0; i < g->nf; ++i) if (c->vc.c[i] > v.c[i]) v.c[i] = c->vc.c[i];
        c->vc.c[c->id]++;
    }
}
void check_mem(const void* p, size_t n, bool write, const void* pc) {
    if (!in_arena(p)) return;
    const char* a = (const char*)p;
    uint64_t first = (uint64_t)(a - ARENA) >> 3, last = (uint64_t)(a + n - 1 - ARENA) >> 3;
    for (uint64_t i = first; i <= last; ++i) {
        unsigned char s = SHADOW[i];
        int need = i == last ? (int)((uint64_t)(a + n - 1) & 7) + 1 : 8;
        if (s < need || s > 8) {
            const char* fn = sym_of((uint64_t)pc - 1);
            char sig[120]; snprintf(sig, sizeof sig, "%s:%s", s == 0xFD ? "use_after_free" : "out_of_bounds", fn);
            fail(sig, "%s of %zu bytes at %p (pc 0x%lx %s): memory is %s", write ? "write" : "read", n, p, (unsigned long)pc, fn, s == 0xFD ? "freed" : "outside any allocated block");
        }
    }
}
static inline void step() {
    if (++g->steps > g->cfg.max_steps && g->active) fail("livelock", "execution exceeded %lu steps", (unsigned long)g->cfg.max_steps);
}
static inline bool tracked(const void* p) {
    if (in_arena(p)) return true;
    Fiber* c = g->cur;
    if ((uint64_t)((const char*)p - c->stack) < STACK_SZ + 4096) return false;
    if ((uint64_t)((const char*)p - g->tls_lo) < g->tls_sz) return false;
    return true;
}
static inline void plain(const void* p, size_t n, bool write, const void* pc) {
    if (!g || !g->active) return;
    step();
    if (!tracked(p)) return;
    if (n > 0 && in_arena(p)) check_mem(p, n, write, pc);
    if (g->nf < 2) return;
    if (pc_is_lib(pc)) return;
    uint32_t key = key_of(pc, 1);
    if (g->cfg.points_plain) {
        if (is_hot(key) && g->armed && !g->warm) { preempt_point(); if (in_arena(p)) check_mem(p, n, write, pc); }
    }
    uint64_t a = (uint64_t)p & ~7ull, e = (uint64_t)p + n;
    for (int k = 0; a < e && k < 8; a += 8, ++k) { Loc* l = loc_of(a); if (l) loc_access(l, write, key); }
}
static inline void vol(const void* p, size_t n, bool write, const void* pc, bool rmw = false, int frames = 2) {
    if (!g || !g->active) return;
    step();
    if (!tracked(p)) return;
    if (in_arena(p)) check_mem(p, n, write, pc);
    if (g->nf < 2) return;
    bool lib = pc_is_lib(pc);
    uint32_t key = key_of(pc, frames);
    if (!lib && is_hot(key) && g->armed && !g->warm) { preempt_point(); if (in_arena(p)) check_mem(p, n, write, pc); }
    sync_access(p, write, lib ? 0 : key, !write || rmw, write);
}

// ---------------------------------------------------------------------------------------------- snapshot / rewind
static void segv(int sig, siginfo_t* si, void*) {
    char* a = (char*)si->si_addr;
    if (sig == SIGSEGV && g && g->snap && ((a >= g->data_lo && a < g->data_hi) || (a >= g->base_lo && a < g->base_hi))) {
        char* pg = (char*)((uint64_t)a & ~4095ull);
        if (g->ndirty >= 16384) die("too many dirty pages");
        char* c = g->copies + g->copies_used; g->copies_used += 4096;
        memcpy(c, pg, 4096);
        g->dirty[g->ndirty].page = pg; g->dirty[g->ndirty].copy = c; g->ndirty++;
        mprotect(pg, 4096, PROT_READ | PROT_WRITE);
        return;
    }
    signal(sig, SIG_DFL);
    if (g && g->cur) {
        const void* pc = g->cur->depth > 0 && g->cur->depth <= MAXSHADOW ? g->cur->shadow[g->cur->depth - 1] : NULL;
        char s[120]; snprintf(s, sizeof s, "signal%d:%s", sig, sym_of((uint64_t)pc));
        fail(s, "fatal signal %d at address %p", sig, (void*)a);
    }
    _exit(79);
}
static void take_snapshot() {
    // page-aligned interior of .data/.bss
    g->data_lo = (char*)(((uint64_t)&__data_start + 4095) & ~4095ull);
    g->data_hi = (char*)(((uint64_t)&_end) & ~4095ull);
    // partially covered edge pages are copied eagerly
    g->ndirty = 0; g->copies_used = 0;
    char* lo = (char*)((uint64_t)&__data_start & ~4095ull);
    g->base_lo = ARENA;
    g->brk = (char*)(((uint64_t)g->brk + 4095) & ~4095ull);
    g->base_hi = g->brk; g->exec_base = g->brk; g->brk_max = g->brk;
    g->nbase_freed = 0;
    static const int extra = 2;
    (void)extra;
    char* edges[2] = { lo, g->data_hi };
    for (int i = 0; i < 2; ++i) {
        char* c = g->copies + g->copies_used; g->copies_used += 4096;
        memcpy(c, edges[i], 4096);
        g->dirty[g->ndirty].page = edges[i]; g->dirty[g->ndirty].copy = c; g->ndirty++;
    }
    g->snap = true;
    if (g->data_hi > g->data_lo) mprotect(g->data_lo, g->data_hi - g->data_lo, PROT_READ);
    mprotect(g->base_lo, g->base_hi - g->base_lo, PROT_READ);
}
static void rewind_world() {
    // restore dirty pages (edge pages: only the bytes of .data/.bss)
    for (uint32_t i = 0; i < g->ndirty; ++i) {
        char* p = g->dirty[i].page; char* c = g->dirty[i].copy;
        char* s = p < &__data_start && p + 4096 > &__data_start ? &__data_start : p;
        char* e = p < &_end && p + 4096 > &_end ? &_end : p + 4096;
        memcpy(s, c + (s - p), e - s);
    }
    for (uint32_t i = 0; i < g->nbase_freed; ++i) { // undo frees of base blocks (header already restored with its page)
        Blk* b = (Blk*)(g->base_freed[i].blk - 16);
        shadow_set(g->base_freed[i].blk, b->size ? b->size : 1);
    }
    g->nbase_freed = 0;
    if (g->brk > g->exec_base) memset(SHADOW + (g->exec_base - ARENA) / 8, 0, (g->brk - g->exec_base) / 8 + 2);
    g->brk = g->exec_base;
    g->kused = 0;
}

static const Scenario* scn_list;
Scenario::Scenario(const char* n, void (*b)(), void (*s)(Config&)) : name(n), body(b), setup(s), next(const_cast<Scenario*>(scn_list)) { scn_list = this; }
static const Scenario* scn;

static void* body_entry(void*) { g->policy = decide(g->cfg.policies, 0, 0, K_FREE, "base schedule"); scn->body(); return NULL; }

static uint64_t base_live_blocks, base_live_bytes;
static void run_once(const Item& it) {
    if (g->snap) rewind_world();
    kern_reset();
    g->item = it; g->next_dev = 0;
    g->nf = 0; g->now = 0; g->seq = 0; g->steps = 0; g->switches = 0; g->npoints = 0; g->hash = 2166136261u; g->outcome = 1469598103934665603ull;
    g->nvc = 0; g->gen++; g->obs_len = 0; g->obs_text[0] = 0; g->run_done = false; g->armed = true;
    g->live_blocks = g->live_bytes = 0;
    static Fiber boot;  // creator context
    memset((void*)&boot.vc, 0, sizeof boot.vc); boot.id = MAXF - 1;
    g->cur = &boot;
    Fiber* f = new_fiber("main");
    f->fn = body_entry; f->arg = NULL;
    if (g->tls_sz) { // main context's TLS is kept in boot
        if (!boot.tls) boot.tls = (char*)mmap(NULL, g->tls_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(boot.tls, g->tls_lo, g->tls_sz);
        memcpy(g->tls_lo, f->tls, g->tls_sz);
    }
    g->cur = f; g->active = true;
    mc_switch(&g->sched_sp, f->sp);
    g->active = false;
    if (g->tls_sz) memcpy(g->tls_lo, boot.tls, g->tls_sz);
    g->cur = &g->f[0];
    if (g->next_dev != g->item.n) {
        if (sh) { snprintf(sh->sig[wid], 128, "rt_divergence"); snprintf(sh->msg[wid], 1024, "replay consumed %d of %d deviations", g->next_dev, g->item.n); }
        _exit(78);
    }
    int left = 0;
    for (int i = 1; i < g->nf; ++i) if (g->f[i].state != S_DONE) ++left;
    if (left) { char nm[200]; size_t n = 0; nm[0] = 0; for (int i = 1; i < g->nf && n < 150; ++i) if (g->f[i].state != S_DONE) n += snprintf(nm + n, sizeof nm - n, " %s@%s", g->f[i].name, g->f[i].wait_what ? g->f[i].wait_what : "?"); fail("threads_left", "%d threads still exist at the end of the scenario:%s", left, nm); }
}

// ---------------------------------------------------------------------------------------------- harness API
int choose(int n, const char* tag) { if (!g->active) return 0; return decide(n, 0, 0, K_ENV, tag); }
int pick(int n, const char* tag) { if (!g->active) return 0; return decide(n, 0, 0, K_FREE, tag); }
void arm(bool on) { g->armed = on; }
bool exploring() { return g->active && !g->warm; }
uint64_t now_us() { return g->now; }
void sleep_us(uint64_t us) { block(NULL, "sleep", g->now + us); }
void yield() { if (g->active && g->armed && !g->warm) preempt_point(); }
void set_name(const char* n) { snprintf(g->cur->name, sizeof g->cur->name, "%s", n); }
int live_threads() { int n = 0; for (int i = 0; i < g->nf; ++i) if (g->f[i].state != S_DONE && &g->f[i] != g->cur) ++n; return n; }
bool wait_until(const std::function<bool()>& pred, uint64_t timeout_us) {
    if (pred_eval(pred)) return true;
    std::function<bool()> p = pred;
    Fiber* c = g->cur;
    c->pred = &p;
    struct Join { ~Join() { Fiber* c = g->cur; for (int k = 0; k < g->nf; ++k) for (int i = 0; i < g->nf; ++i) if (g->f[k].vc.c[i] > c->vc.c[i]) c->vc.c[i] = g->f[k].vc.c[i]; } } join_all;
    block(&p, "wait_until", timeout_us ? g->now + timeout_us : ~0ull);
    bool to = c->timed_out;
    c->pred = NULL;
    if (to) return pred_eval(pred);
    return true;
}
int spawn(const char* name, const std::function<void()>& fn) {
    std::function<void()>* copy = new std::function<void()>(fn); // may contain scheduling points: before the fiber exists
    Fiber* f = new_fiber(name);
    f->cfn = copy;
    return f->id;
}
void join(int id) {
    Fiber* f = &g->f[id];
    while (f->state != S_DONE) block(&f->state, "join", ~0ull);
    Fiber* c = g->cur;
    for (int i = 0; i < g->nf; ++i) if (f->vc.c[i] > c->vc.c[i]) c->vc.c[i] = f->vc.c[i];
    delete f->cfn; f->cfn = NULL;
}
void dump_live(int max) {
    char* p = g->exec_base + 16;
    int k = 0;
    while (p + 16 < g->brk && k < max) {
        Blk* b = (Blk*)p;
        if (b->magic == MAGIC_LIVE) { char t[200]; int n = snprintf(t, sizeof t, "live block %p size %lu alloc pc 0x%x %s\n", p + 16, (unsigned long)b->size, b->alloc_pc, sym_of(b->alloc_pc)); (void)!write(2, t, n); ++k; }
        if (b->magic == MAGIC_LIVE || b->magic == MAGIC_FREE) p += 16 + ((b->size + 15) & ~15ull) + 16;
        else p += 16;
    }
}

} // namespace mc

using namespace mc;

// ============================================================================================== interposition
#define PC __builtin_return_address(0)
extern "C" {

// ---- malloc family
void* malloc(size_t n) { return arena_alloc(n, 16, PC); }
void free(void* p) { arena_free(p, PC); }
void* calloc(size_t a, size_t b) { void* p = arena_alloc(a * b, 16, PC); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
    void* q = arena_alloc(n, 16, PC);
    if (p && q) { size_t o = ((Blk*)((char*)p - 16))->size; memcpy(q, p, o < n ? o : n); arena_free(p, PC); }
    return q;
}
void* memalign(size_t al, size_t n) { return arena_alloc(n, al, PC); }
void* aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al, PC); }
int posix_memalign(void** out, size_t al, size_t n) { *out = arena_alloc(n, al, PC); return *out ? 0 : ENOMEM; }
void* valloc(size_t n) { return arena_alloc(n, 4096, PC); }
size_t malloc_usable_size(void* p) { return p ? ((Blk*)((char*)p - 16))->size : 0; }
void cfree(void* p) { arena_free(p, PC); }

} // extern C
void* operator new(size_t n) { void* p = arena_alloc(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = arena_alloc(n, 16, PC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return arena_alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return arena_alloc(n, 16, PC); }
void* operator new(size_t n, std::align_val_t al) { return arena_alloc(n, (size_t)al, PC); }
void* operator new[](size_t n, std::align_val_t al) { return arena_alloc(n, (size_t)al, PC); }
void operator delete(void* p) noexcept { arena_free(p, PC); }
void operator delete[](void* p) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arena_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }

extern "C" {
// ---- tsan entry points
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (!g || !g->active) return; Fiber* f = g->cur; if (f->depth >= 0 && f->depth < MAXSHADOW) f->shadow[f->depth] = pc; f->depth++; }
void __tsan_func_exit() { if (!g || !g->active) return; Fiber* f = g->cur; if (f->depth > 0) f->depth--; }
#define RW(N) \
    void __tsan_read##N(void* p) { plain(p, N, false, PC); } \
    void __tsan_write##N(void* p) { plain(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { plain(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { plain(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { plain(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { plain(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { vol(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { vol(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { vol(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { vol(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { plain(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { if (n) plain(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) plain(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { plain(s, n, false, PC); plain(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { plain(s, n, false, PC); plain(d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) plain(d, n, true, PC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int) { vol((const void*)a, N / 8, false, PC); return *a; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { vol((const void*)a, N / 8, true, PC, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { vol((const void*)a, N / 8, true, PC, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { vol((const void*)a, N / 8, true, PC, true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// hook compiled into /repo's inline-assembly atomics
void sofa_pbrpc_verif_atomic(const volatile void* p) { vol((const void*)p, 4, true, PC, true, 3); }
void sofa_pbrpc_verif_refcount(const volatile void* p) { if (!g || !g->active) return; bool a = g->armed; if (!g->cfg.points_refcount) g->armed = false; vol((const void*)p, 4, true, PC, true, 3); g->armed = a; }

// ---- abort family
void abort() { fail("abort", "abort() called"); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept { fail("assert", "assertion failed: %s at %s:%u", e, f, l); }

// ---- guards
int __cxa_guard_acquire(uint64_t* gd) {
    volatile char* c = (volatile char*)gd;
    while (true) {
        if (c[0]) return 0;
        if (!c[1]) { c[1] = 1; return 1; }
        block(gd, "static_guard", ~0ull);
    }
}
void __cxa_guard_release(uint64_t* gd) { char* c = (char*)gd; c[1] = 0; c[0] = 1; wake_all(gd); }
void __cxa_guard_abort(uint64_t* gd) { char* c = (char*)gd; c[1] = 0; wake_all(gd); }

// ---- mutex
static inline int me() { return g ? g->cur->id + 1 : 1; }
static void lock_point(const void* m, size_t sz, const void* pc, const char*) {
    if (!g || !g->active) return;
    step();
    check_mem(m, sz, true, pc);
    if (g->nf < 2) return;
    uint32_t key = key_of(pc, 3);
    if (is_hot(key) && g->armed && !g->warm) { preempt_point(); check_mem(m, sz, true, pc); }
    Loc* l = loc_of(((uint64_t)m & ~7ull) | 1);
    if (l) loc_access(l, true, key);
}
static void acq(const void* m) {
    if (!g || !g->active) return;
    Loc* l = loc_of(((uint64_t)m & ~7ull) | 1);
    if (l && l->vci) { VC& v = g->vcs[l->vci - 1]; Fiber* c = g->cur; for (int i = 0; i < g->nf; ++i) if (v.c[i] > c->vc.c[i]) c->vc.c[i] = v.c[i]; }
}
static void rel(const void* m) {
    if (!g || !g->active) return;
    Loc* l = loc_of(((uint64_t)m & ~7ull) | 1);
    if (!l) return;
    Fiber* c = g->cur;
    if (!l->vci) { if (g->nvc >= MAXVC) return; l->vci = ++g->nvc; memset(&g->vcs[l->vci - 1], 0, sizeof(VC)); }
    VC& v = g->vcs[l->vci - 1];
    for (int i = 0; i < g->nf; ++i) if (c->vc.c[i] > v.c[i]) v.c[i] = c->vc.c[i];
    c->vc.c[c->id]++;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); m->__data.__kind = t; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (g && g->active) {
        check_mem(m, sizeof *m, true, PC);
        if (m->__data.__owner) fail("destroy_locked_mutex", "mutex destroyed while locked by T%d", m->__data.__owner - 1);
    }
    return 0;
}
static int mlock(pthread_mutex_t* m, const void* pc, uint64_t deadline, bool try_) {
    lock_point(m, sizeof *m, pc, "mutex");
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__owner == me()) { m->__data.__count++; return 0; }
    while (m->__data.__owner) {
        if (try_) return EBUSY;
        if (!g->active) pred_blocked("mutex");
        if (m->__data.__owner == me()) fail("self_deadlock", "thread locks a mutex it already holds");
        block(m, "mutex", deadline);
        if (g->cur->timed_out && m->__data.__owner) return ETIMEDOUT;
        check_mem(m, sizeof *m, true, pc);
    }
    m->__data.__owner = me(); m->__data.__count = 1;
    acq(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mlock(m, PC, ~0ull, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mlock(m, PC, ~0ull, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (g && g->active) {
        check_mem(m, sizeof *m, true, PC);
        if (m->__data.__owner != me()) fail("unlock_not_owner", "mutex unlocked by a thread that does not hold it (owner %d)", m->__data.__owner - 1);
    }
    if (m->__data.__count > 1) { m->__data.__count--; return 0; }
    m->__data.__count = 0; m->__data.__owner = 0;
    rel(m);
    wake_all(m);
    return 0;
}
static uint64_t abs_to_virtual(const struct timespec* ts, bool realtime) {
    int64_t us = (int64_t)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
    if (realtime) us -= (int64_t)REALTIME_BASE_US; else us -= 1000000000ll;
    if (us < (int64_t)g->now) us = g->now;
    return us;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mlock(m, PC, abs_to_virtual(ts, true), false); }

// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    memset(c, 0, sizeof *c);
    if (a) { clockid_t k = 0; pthread_condattr_getclock(a, &k); c->__data.__wrefs = k == CLOCK_MONOTONIC ? 1 : 0; }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { if (g && g->active) check_mem(c, sizeof *c, true, PC); return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, const void* pc) {
    if (!g || !g->active) die("cond wait outside of execution");
    step();
    check_mem(c, sizeof *c, true, pc);
    if (m->__data.__owner != me()) fail("cond_wait_unlocked", "condition wait without holding the mutex");
    Fiber* f = g->cur;
    int cnt = m->__data.__count;
    m->__data.__owner = 0; m->__data.__count = 0;
    rel(m); wake_all(m);
    f->ready_seq = ++g->seq; // waiting order
    block(c, "cond", deadline);
    bool to = f->timed_out;
    if (!to) acq(c);
    while (m->__data.__owner) { check_mem(m, sizeof *m, true, pc); block(m, "mutex(cond)", ~0ull); }
    check_mem(m, sizeof *m, true, pc);
    m->__data.__owner = me(); m->__data.__count = cnt;
    acq(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, ~0ull, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cwait(c, m, abs_to_virtual(ts, !(c->__data.__wrefs & 1)), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cwait(c, m, abs_to_virtual(ts, k == CLOCK_REALTIME), PC); }
int pthread_cond_signal(pthread_cond_t* c) { if (g && g->active) { lock_point(c, sizeof *c, PC, "signal"); rel(c); wake_one(c); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (g && g->active) { lock_point(c, sizeof *c, PC, "broadcast"); rel(c); wake_all(c); } return 0; }

// ---- rwlock
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (g && g->active) check_mem(l, sizeof *l, true, PC); return 0; }
static int rwl(pthread_rwlock_t* l, bool wr, bool try_, const void* pc) {
    lock_point(l, sizeof *l, pc, "rwlock");
    while (l->__data.__cur_writer || (wr && l->__data.__readers)) {
        if (try_) return EBUSY;
        if (!g || !g->active) pred_blocked("rwlock");
        if (l->__data.__cur_writer == me()) fail("self_deadlock", "thread locks a rwlock it already holds for writing");
        block(l, "rwlock", ~0ull);
        check_mem(l, sizeof *l, true, pc);
    }
    if (wr) l->__data.__cur_writer = me(); else l->__data.__readers++;
    acq(l);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwl(l, false, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwl(l, true, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwl(l, false, true, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwl(l, true, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (g && g->active) check_mem(l, sizeof *l, true, PC);
    if (l->__data.__cur_writer) {
        if (g && g->active && l->__data.__cur_writer != me()) fail("unlock_not_owner", "rwlock unlocked by a thread that does not hold it");
        l->__data.__cur_writer = 0;
    } else {
        if (l->__data.__readers == 0 && g && g->active) fail("unlock_not_owner", "rwlock unlocked while not held");
        l->__data.__readers--;
    }
    rel(l); wake_all(l);
    return 0;
}

// ---- spin
int pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile int*)l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
static int spl(volatile int* l, bool try_, const void* pc) {
    lock_point((const void*)l, 4, pc, "spin");
    while (*l) {
        if (try_) return EBUSY;
        if (!g || !g->active) pred_blocked("spinlock");
        if (*l == me()) fail("self_deadlock", "thread locks a spinlock it already holds");
        block((const void*)l, "spinlock", ~0ull);
        check_mem((const void*)l, 4, true, pc);
    }
    *l = me(); acq((const void*)l); return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) { return spl((volatile int*)l, false, PC); }
int pthread_spin_trylock(pthread_spinlock_t* l) { return spl((volatile int*)l, true, PC); }
int pthread_spin_unlock(pthread_spinlock_t* l) {
    if (g && g->active) { check_mem((const void*)l, 4, true, PC); if (*(volatile int*)l != me()) fail("unlock_not_owner", "spinlock unlocked by a thread that does not hold it"); }
    *(volatile int*)l = 0; rel((const void*)l); wake_all((const void*)l); return 0;
}

// ---- threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!g || !g->active) die("pthread_create outside of execution");
    Fiber* f = new_fiber("thread");
    snprintf(f->name, sizeof f->name, "thr%d", f->id);
    f->fn = fn; f->arg = arg;
    if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); f->detached = ds == PTHREAD_CREATE_DETACHED; }
    *t = (pthread_t)(f->id + 1);
    point_key(key_of(PC, 1), true);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    Fiber* f = &g->f[(int)t - 1];
    if ((int)t - 1 < 0 || (int)t - 1 >= g->nf) return ESRCH;
    if (f == g->cur) return EDEADLK;
    if (f->joined) fail("double_join", "thread T%d joined twice", f->id);
    while (f->state != S_DONE) block(&f->state, "pthread_join", ~0ull);
    f->joined = true;
    Fiber* c = g->cur;
    for (int i = 0; i < g->nf; ++i) if (f->vc.c[i] > c->vc.c[i]) c->vc.c[i] = f->vc.c[i];
    if (ret) *ret = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) { g->f[(int)t - 1].detached = true; return 0; }
pthread_t pthread_self() { return (pthread_t)(g && g->cur ? g->cur->id + 1 : 1); }
void pthread_exit(void* r) { g->cur->ret = r; fiber_exit(); __builtin_unreachable(); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    volatile int* p = (volatile int*)o;
    while (*p != 2) {
        if (*p == 0) { *p = 1; fn(); *p = 2; wake_all(o); return 0; }
        block(o, "once", ~0ull);
    }
    return 0;
}
static int nkeys;
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = nkeys++; return nkeys > 64 ? EAGAIN : 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { return g->cur->specific[k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { g->cur->specific[k] = (void*)v; return 0; }
int sched_yield() { if (g && g->active) { Fiber* c = g->cur; Fiber* r[MAXF]; int n = ready_list(r, c); c->ready_seq = ++g->seq; if (n) switch_to(r[0]); else if (g->armed || true) { /* nothing else to run: let time pass a little */ block(NULL, "yield", g->now + 10); } } return 0; }

// ---- time
int usleep(useconds_t us) { if (g && g->active) { block(NULL, "usleep", g->now + (us ? us : 1)); return 0; } return 0; }
unsigned sleep(unsigned s) { if (g && g->active) block(NULL, "sleep", g->now + (uint64_t)s * 1000000); return 0; }
int nanosleep(const struct timespec* ts, struct timespec*) { if (g && g->active) block(NULL, "nanosleep", g->now + (uint64_t)ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000 + (ts->tv_sec == 0 && ts->tv_nsec == 0)); return 0; }
int clock_nanosleep(clockid_t k, int flags, const struct timespec* ts, struct timespec*) {
    if (!g || !g->active) return 0;
    if (flags & TIMER_ABSTIME) block(NULL, "clock_nanosleep", abs_to_virtual(ts, k == CLOCK_REALTIME));
    else nanosleep(ts, NULL);
    return 0;
}
static int vclock(clockid_t k, struct timespec* ts) {
    uint64_t us = now() + (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? REALTIME_BASE_US : 1000000000ull);
    ts->tv_sec = us / 1000000; ts->tv_nsec = (us % 1000000) * 1000; return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) { return vclock(k, ts); }
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; vclock(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) { struct timespec ts; vclock(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }

} // extern "C"

// ============================================================================================== explorer
static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void slock() { while (__atomic_exchange_n(&sh->lock, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void sunlock() { __atomic_store_n(&sh->lock, 0, __ATOMIC_RELEASE); }

static void setup_altstack() {
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = mmap(NULL, 128 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 128 << 10;
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
    signal(SIGPIPE, SIG_IGN);
}

static void record_outcome() {
    uint64_t o = g->outcome ? g->outcome : 1;
    for (uint32_t i = 0, h = (uint32_t)(o * 0x9e3779b97f4a7c15ull >> 48); i < (1 << 16); ++i) {
        uint64_t* s = &sh->outcomes[(h + i) & 0xffff];
        uint64_t e = 0;
        if (*s == o) return;
        if (*s == 0 && __atomic_compare_exchange_n(s, &e, o, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
            __atomic_add_fetch(&sh->noutcomes, 1, __ATOMIC_RELAXED);
            int k = __atomic_load_n(&sh->nsamples, __ATOMIC_RELAXED);
            if (k < 6) { k = __atomic_fetch_add(&sh->nsamples, 1, __ATOMIC_RELAXED); if (k < 6) snprintf(sh->samples[k], 1024, "%s", g->obs_text); }
            return;
        }
        if (e == o) return;
    }
}

static int g_split; // number of worker processes
static volatile int donate_min = 64;

static int alt_kind(const PointRec& p, int alt) {
    if (p.kind == K_SCHED) return alt < p.nsched ? K_SCHED : K_STALL;
    return p.kind;
}
static void expand(uint64_t* lc, Item* ls, const Item& it) {
    uint32_t from = it.n ? it.d[it.n - 1].idx + 1 : 0;
    int total = it.used[0] + it.used[1] + it.used[2];
    __atomic_add_fetch(&sh->newnodes, g->npoints - from + 1, __ATOMIC_RELAXED);
    // push in reverse so that earlier points are popped last (depth first, late deviations first)
    for (uint32_t i = from; i < g->npoints; ++i) {
        PointRec& p = g->pts[i];
        for (int a = 1; a < p.n; ++a) {
            int k = alt_kind(p, a);
            if (k != K_FREE) { if (total + 1 > level_bound) { if (p.kind == K_SCHED && a < p.nsched) a = p.nsched - 1; else if (p.kind != K_FREE) break; continue; } if (it.used[k] + 1 > g->cfg.cap[k]) continue; }
            if (it.n >= MAXDEV) { __atomic_add_fetch(&sh->truncated, 1, __ATOMIC_RELAXED); continue; }
            if (*lc >= LCAP) die("local stack full");
            Item& c = ls[*lc];
            c = it;
            c.d[c.n].idx = i; c.d[c.n].alt = a; c.d[c.n].kind = k; c.d[c.n].hash = p.hash;
            c.n++; c.used[k]++;
            ++*lc;
        }
    }
}

static void worker(int w) {
    wid = w;
    setup_altstack();
    Item* ls = lstack[w];
    uint64_t lc = sh->lcount[w];
    bool isbusy = false;
    for (;;) {
        if (sh->stop) break;
        if (wall() > sh->deadline) { sh->stop = 2; break; }
        Item it;
        if (lc == 0) {
            slock();
            if (sh->gcount) {
                uint64_t take = sh->gcount > 64 ? 8 : 1;
                for (uint64_t i = 0; i < take; ++i) ls[lc++] = gstack[--sh->gcount];
                if (!isbusy) { sh->busy++; isbusy = true; }
                sunlock();
            } else {
                if (isbusy) { sh->busy--; isbusy = false; }
                bool done = sh->busy == 0;
                sunlock();
                if (done) break;
                struct timespec ts = { 0, 200000 }; syscall(SYS_nanosleep, &ts, NULL);
                continue;
            }
        } else if (!isbusy) { slock(); sh->busy++; isbusy = true; sunlock(); }
        it = ls[--lc];
        sh->lcount[w] = lc;
        sh->cur[w] = it; sh->has_cur[w] = 1;
        run_once(it);
        sh->has_cur[w] = 0;
        __atomic_add_fetch(&sh->execs, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&sh->points, g->npoints, __ATOMIC_RELAXED);
        __atomic_add_fetch(&sh->steps, g->steps, __ATOMIC_RELAXED);
        __atomic_add_fetch(&sh->switches, g->switches, __ATOMIC_RELAXED);
        if (g->npoints > sh->maxpoints) sh->maxpoints = g->npoints;
        record_outcome();
        expand(&lc, ls, it);
        sh->lcount[w] = lc;
        if (lc > 2 && sh->gcount < (uint64_t)donate_min) {
            slock();
            uint64_t give = lc / 2; if (give > 512) give = 512;
            if (sh->gcount + give < GCAP) {
                memcpy(&gstack[sh->gcount], &ls[0], give * sizeof(Item)); sh->gcount += give;
                memmove(&ls[0], &ls[give], (lc - give) * sizeof(Item)); lc -= give;
            }
            sunlock();
            sh->lcount[w] = lc;
        }
    }
    if (isbusy) { slock(); sh->busy--; sunlock(); }
    _exit(0);
}

struct Violation { char sig[128]; char msg[1024]; Item item; bool set; };

static int run_isolated(const Item& it, char* sig, char* msg, bool trace_on) {
    sh->sig[7][0] = 0;
    pid_t p = fork();
    if (p == 0) {
        wid = 7; setup_altstack();
        g->tracing = trace_on;
        run_once(it);
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    snprintf(sig, 128, "%s", sh->sig[7]); snprintf(msg, 1024, "%s", sh->msg[7]);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st);
}

static const char* known_sigs[64]; static int nknown;
static char* json_esc(const char* s, char* out, size_t cap) {
    size_t n = 0;
    for (; *s && n + 8 < cap; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { out[n++] = '\\'; out[n++] = c; }
        else if (c < 32 || c > 126) n += snprintf(out + n, 8, "\\u%04x", c);
        else out[n++] = c;
    }
    out[n] = 0; return out;
}

int main(int argc, char** argv) {
    init_g();
    const char* name = NULL; const char* out = NULL; const char* replay = NULL; const char* replay_out = NULL; const char* tracef = NULL;
    int bound = -1, workers = 7; double limit = 60; bool list = false;
    int capo[3] = { -1, -1, -1 }; int pol = -1, stall = 3000;
    for (int i = 1; i < argc; ++i) {
        const char* a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
        if (!strcmp(a, "--list")) list = true;
        else if (!strcmp(a, "--scenario")) name = v, ++i;
        else if (!strcmp(a, "--bound")) bound = atoi(v), ++i;
        else if (!strcmp(a, "--cap-sched")) capo[0] = atoi(v), ++i;
        else if (!strcmp(a, "--cap-stall")) capo[1] = atoi(v), ++i;
        else if (!strcmp(a, "--cap-env")) capo[2] = atoi(v), ++i;
        else if (!strcmp(a, "--policies")) pol = atoi(v), ++i;
        else if (!strcmp(a, "--stall-us")) stall = atoi(v), ++i;
        else if (!strcmp(a, "--workers")) workers = atoi(v), ++i;
        else if (!strcmp(a, "--time")) limit = atof(v), ++i;
        else if (!strcmp(a, "--out")) out = v, ++i;
        else if (!strcmp(a, "--replay")) replay = v, ++i;
        else if (!strcmp(a, "--replay-out")) replay_out = v, ++i;
        else if (!strcmp(a, "--trace")) tracef = v, ++i;
        else if (!strcmp(a, "--known") && nknown < 64) known_sigs[nknown++] = v, ++i;
        else { fprintf(stderr, "unknown argument %s\n", a); return 2; }
    }
    if (list) { for (const Scenario* s = scn_list; s; s = s->next) printf("%s\n", s->name); return 0; }
    for (const Scenario* s = scn_list; s; s = s->next) if (name && !strcmp(s->name, name)) scn = s;
    if (!scn) { fprintf(stderr, "no such scenario\n"); return 2; }
    if (workers > 7) workers = 7;
    double t0 = wall();
    g->cfg = Config(); scn->setup(g->cfg);
    if (bound >= 0) g->cfg.bound = bound;
    if (g->cfg.bound == 0) g->cfg.policies = 1;
    if (pol > 0) g->cfg.policies = pol;
    if (stall > 0 && g->cfg.bound > 0 && g->cfg.nstall == 0) { g->cfg.nstall = 1; g->cfg.stall_us[0] = stall; }
    for (int i = 0; i < 3; ++i) if (capo[i] >= 0) g->cfg.cap[i] = capo[i];
    load_symbols();
    pc_class = (unsigned char*)mmap(NULL, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hot = (unsigned char*)mmap(NULL, (1 << HOT_BITS) / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hot_pending = (unsigned char*)mmap(NULL, (1 << HOT_BITS) / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    gstack = (Item*)mmap(NULL, sizeof(Item) * GCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < 8; ++i) lstack[i] = (Item*)mmap(NULL, sizeof(Item) * LCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    // TLS block of the executable
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int {
        if (i->dlpi_name && i->dlpi_name[0]) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
            size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
            size_t sz = (i->dlpi_phdr[k].p_memsz + al - 1) & ~(al - 1);
            char* fs; asm("movq %%fs:0,%0" : "=r"(fs));
            g->tls_lo = fs - sz; g->tls_sz = sz;
        }
        return 1;
    }, NULL);
    if (g->tls_sz) { g->tls_init = (char*)mmap(NULL, g->tls_sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(g->tls_init, g->tls_lo, g->tls_sz); }
    setup_altstack();
    static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    static char ebuf[1 << 12]; setvbuf(stderr, ebuf, _IOLBF, sizeof ebuf);
    { time_t t = 0; struct tm tm; localtime_r(&t, &tm); }

    // warm-up execution in a state that is kept: lazily initialised globals become part of the snapshot
    Item root; memset(&root, 0, sizeof root);
    wid = 7;
    if (tracef) trace_fd = open(tracef, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    Violation viol; memset(&viol, 0, sizeof viol);
    {
        pid_t p = fork(); // try it in a child first: the default execution itself may fail
        if (p == 0) { g->warm = true; int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); run_once(root); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
                viol.set = true; viol.item = root; snprintf(viol.sig, 128, "%s", sh->sig[7]); snprintf(viol.msg, 1024, "%s", sh->msg[7]);
            } else { viol.set = true; snprintf(viol.sig, 128, "crash:%d", st); snprintf(viol.msg, 1024, "default execution died with status %d", st); }
        }
    }
    bool complete = true; int done_bound = -1; int redo = 0; int hot_passes = 0;
    uint64_t tot_execs = 0, tot_points = 0, tot_steps = 0, tot_switches = 0, tot_nodes = 0, trunc = 0; uint64_t level_execs[16]; memset(level_execs, 0, sizeof level_execs);
    int err = 0; char errmsg[600] = "";
    if (!viol.set) {
        g->warm = true; run_once(root); g->warm = false;
        take_snapshot();
        if (replay) {
            FILE* f = fopen(replay, "r"); char line[4096]; Item it; memset(&it, 0, sizeof it);
            if (!f) { fprintf(stderr, "cannot open %s\n", replay); return 2; }
            while (fgets(line, sizeof line, f)) {
                unsigned a, b, c, d; unsigned long h;
                if (sscanf(line, "dev %u %u %u %u", &a, &b, &c, &d) == 4) { it.d[it.n].idx = a; it.d[it.n].alt = b; it.d[it.n].kind = c; it.d[it.n].hash = d; it.n++; }
                else if (sscanf(line, "hot %lu", &h) == 1) hot[h >> 3] |= 1 << (h & 7);
            }
            fclose(f);
            char sig[128], msg[1024];
            int rc = run_isolated(it, sig, msg, trace_fd >= 0);
            printf("replay: exit=%d sig=%s msg=%s\n", rc, sig, msg);
            return rc == 0 ? 0 : 1;
        }
        for (int lvl = 0; lvl <= g->cfg.bound && !viol.set && !err;) {
            level_bound = lvl;
            memset((void*)&sh->lcount, 0, sizeof sh->lcount);
            sh->gcount = 0; sh->stop = 0; sh->busy = 0; sh->execs = sh->points = sh->steps = sh->switches = sh->newnodes = 0; sh->truncated = 0;
            sh->hot_new = 0; sh->deadline = t0 + limit; sh->lock = 0;
            memset(sh->outcomes, 0, sizeof sh->outcomes); sh->noutcomes = 0; sh->nsamples = 0; sh->maxpoints = 0;
            gstack[sh->gcount++] = root;
            pid_t pids[8]; int nw = workers, alive = 0;
            for (int w = 0; w < nw; ++w) { sh->has_cur[w] = 0; pids[w] = fork(); if (pids[w] == 0) worker(w); ++alive; }
            while (alive) {
                int st; pid_t p = waitpid(-1, &st, 0);
                if (p < 0) break;
                int w = -1; for (int i = 0; i < nw; ++i) if (pids[i] == p) w = i;
                if (w < 0) continue;
                --alive; pids[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                // a worker died: violation candidate. it held a busy token.
                sh->lock = 0;
                __atomic_sub_fetch(&sh->busy, 1, __ATOMIC_RELAXED);
                Item it = sh->cur[w];
                char sig[128], msg[1024], sig2[128], msg2[1024];
                snprintf(sig, 128, "%s", sh->sig[w]);
                if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { err = 1; snprintf(errmsg, sizeof errmsg, "nondeterminism: %s", sh->msg[w]); sh->stop = 1; continue; }
                int r1 = run_isolated(it, sig, msg, false);
                int r2 = run_isolated(it, sig2, msg2, false);
                if (r1 == 0 || r2 != r1 || strcmp(sig, sig2)) { err = 1; snprintf(errmsg, sizeof errmsg, "violation did not replay: worker status %d (%s: %.200s), replays %d %s / %d %s", st, sh->sig[w], sh->msg[w], r1, sig, r2, sig2); sh->stop = 1; continue; }
                if (r1 == 78) { err = 1; snprintf(errmsg, sizeof errmsg, "nondeterminism in replay: %s", msg); sh->stop = 1; continue; }
                int k = -1;
                for (int i = 0; i < nknown; ++i) if (!strncmp(known_sigs[i], sig, strlen(known_sigs[i]))) k = i;
                if (k >= 0) {
                    known_hits[k]++; sh->known++;
                    if (!sh->stop) { sh->has_cur[w] = 0; pids[w] = fork(); if (pids[w] == 0) worker(w); ++alive; }
                    continue;
                }
                viol.set = true; viol.item = it;
                snprintf(viol.sig, 128, "%s", sig[0] ? sig : "crash"); snprintf(viol.msg, 1024, "%s", msg[0] ? msg : "process died");
                sh->stop = 1;
            }
            tot_execs += sh->execs; tot_points += sh->points; tot_steps += sh->steps; tot_switches += sh->switches; trunc += sh->truncated;
            level_execs[lvl < 15 ? lvl : 15] = sh->execs; tot_nodes = sh->newnodes;
            if (viol.set || err) break;
            if (sh->stop == 2) { complete = false; break; }
            bool grew = memcmp(hot, hot_pending, (1 << HOT_BITS) / 8) != 0;
            memcpy(hot, hot_pending, (1 << HOT_BITS) / 8);
            if (grew && g->cfg.bound > 0 && (lvl == 0 ? redo < 20 : redo < 3)) { ++redo; ++hot_passes; continue; }
            redo = 0;
            done_bound = lvl; ++lvl;
        }
    }
    uint64_t nhot = 0; for (int i = 0; i < (1 << HOT_BITS) / 8; ++i) nhot += __builtin_popcount(hot[i]);
    if (viol.set) {
        char sig[128], msg[1024];
        if (replay_out) {
            FILE* f = fopen(replay_out, "w");
            if (f) {
                fprintf(f, "scenario %s\nsignature %s\nmessage %s\n", scn->name, viol.sig, viol.msg);
                for (int i = 0; i < viol.item.n; ++i) fprintf(f, "dev %u %u %u %u\n", viol.item.d[i].idx, viol.item.d[i].alt, viol.item.d[i].kind, viol.item.d[i].hash);
                for (uint32_t k = 0; k < (1u << HOT_BITS); ++k) if (hot[k >> 3] & (1 << (k & 7))) fprintf(f, "hot %u\n", k);
                fclose(f);
            }
        }
        if (trace_fd >= 0 && done_bound >= -1) { if (!g->snap) g->warm = false; run_isolated(viol.item, sig, msg, true); }
    }
    FILE* f = out ? fopen(out, "w") : stdout;
    char e1[4096], e2[8192];
    fprintf(f, "{\"scenario\":\"%s\",\"bound_requested\":%d,\"bound_completed\":%d,\"complete\":%s,", scn->name, g->cfg.bound, done_bound, complete && !err ? "true" : "false");
    fprintf(f, "\"executions\":%lu,\"decision_points\":%lu,\"choice_tree_nodes\":%lu,\"steps\":%lu,\"context_switches\":%lu,\"max_points\":%lu,\"distinct_outcomes\":%lu,\"hot_sites\":%lu,\"hot_passes\":%d,\"truncated\":%lu,\"known_hits\":%lu,",
        tot_execs, tot_points, tot_nodes, tot_steps, tot_switches, (unsigned long)sh->maxpoints, (unsigned long)sh->noutcomes, nhot, hot_passes, trunc, (unsigned long)sh->known);
    fprintf(f, "\"level_execs\":[");
    for (int i = 0; i <= g->cfg.bound && i < 16; ++i) fprintf(f, "%s%lu", i ? "," : "", level_execs[i]);
    fprintf(f, "],\"samples\":[");
    for (int i = 0; i < sh->nsamples && i < 6; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", json_esc(sh->samples[i], e2, sizeof e2));
    fprintf(f, "],\"known\":{");
    for (int i = 0; i < nknown; ++i) fprintf(f, "%s\"%s\":%lu", i ? "," : "", json_esc(known_sigs[i], e1, sizeof e1), known_hits[i]);
    fprintf(f, "},\"wall_s\":%.3f,", wall() - t0);
    if (err) fprintf(f, "\"error\":\"%s\",", json_esc(errmsg, e2, sizeof e2));
    if (viol.set) {
        fprintf(f, "\"violation\":{\"sig\":\"%s\",\"msg\":\"%s\",\"deviations\":%d},", json_esc(viol.sig, e1, sizeof e1), json_esc(viol.msg, e2, sizeof e2), viol.item.n);
    }
    fprintf(f, "\"violated\":%s}\n", viol.set ? "true" : "false");
    fflush(f);
    _exit(err ? 2 : viol.set ? 1 : 0);
}
