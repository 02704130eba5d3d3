// Executes two small pieces of compiled code under every interleaving of their machine instructions (up to a number
// of switches): the code runs with the CPU's single-step flag, and the trap handler exchanges the register contexts.
// A read-modify-write instruction on the watched memory without a lock prefix counts as two steps (load, store).
#ifndef VERIF_ISTEP_H_
#define VERIF_ISTEP_H_
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <ucontext.h>
#include <functional>
namespace istep {
enum { NSW = 4, STK = 65536 };
struct Ctx { gregset_t r; bool started, done, pending; unsigned char* ea; int size; unsigned char old[8]; int steps; };
static Ctx ctx[2], main_ctx; static char stk[2][STK] __attribute__((aligned(64))); static int cur, seg, in_seg; static int first; static int lim[NSW]; static int nlim; static const void *lo, *hi; static volatile int phase;
static std::function<void()>* fn[2]; static int split_rmw; static int total;
static volatile int finished[2];
static void body0() { (*fn[0])(); finished[0] = 1; for (;;) __asm__ volatile("int3"); }
static void body1() { (*fn[1])(); finished[1] = 1; for (;;) __asm__ volatile("int3"); }
// Is the instruction at ip a read-modify-write of memory that is not atomic? Gives the address and size of its operand.
static bool plain_rmw(const gregset_t& g, unsigned char** ea, int* size) {
    const unsigned char* p = (const unsigned char*)g[REG_RIP]; bool lock = false, op16 = false; int rex = 0;
    for (;; ++p) { if (*p == 0xf0) lock = true; else if (*p == 0x66) op16 = true; else if (*p == 0xf2 || *p == 0xf3 || *p == 0x2e || *p == 0x3e) ; else if (*p == 0x64 || *p == 0x65 || *p == 0x67) return false; else break; }
    if ((*p & 0xf0) == 0x40) rex = *p++;
    if (lock) return false;
    int op = *p++; bool rmw = false, byte = false; int imm = 0;
    if (op == 0x0f) { op = *p++; if (op == 0xc0 || op == 0xb0) { rmw = true; byte = true; } else if (op == 0xc1 || op == 0xb1) rmw = true; else if (op == 0xab || op == 0xb3 || op == 0xbb) rmw = true; else if (op == 0xba) { rmw = ((*p >> 3) & 7) >= 5; imm = 1; } else return false; }
    else if (op < 0x40 && (op & 7) <= 1 && (op >> 3) != 7) { rmw = true; byte = !(op & 1); }
    else if (op == 0x80 || op == 0x81 || op == 0x83) { rmw = ((*p >> 3) & 7) != 7; byte = op == 0x80; imm = op == 0x81 ? (op16 ? 2 : 4) : 1; }
    else if (op == 0xfe || op == 0xff) { rmw = ((*p >> 3) & 7) <= 1; byte = op == 0xfe; }
    else if (op == 0xf6 || op == 0xf7) { int r = (*p >> 3) & 7; rmw = r == 2 || r == 3; byte = op == 0xf6; }
    else if ((op >= 0xd0 && op <= 0xd3) || op == 0xc0 || op == 0xc1) { rmw = true; byte = !(op & 1); imm = op < 0xd0 ? 1 : 0; }
    if (!rmw) return false;
    int modrm = *p++, mod = modrm >> 6, rm = modrm & 7; if (mod == 3) return false;
    static const int idx[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
    uint64_t a = 0; bool rip = false;
    if (rm == 4) { int sib = *p++; int b = sib & 7, x = ((sib >> 3) & 7) | (rex & 2 ? 8 : 0); if (b == 5 && mod == 0) { a = (int64_t)*(int32_t*)p; p += 4; } else a = g[idx[b | (rex & 1 ? 8 : 0)]]; if (x != 4) a += (uint64_t)g[idx[x]] << (sib >> 6); }
    else if (rm == 5 && mod == 0) { a = (int64_t)*(int32_t*)p; p += 4; rip = true; }
    else a = g[idx[rm | (rex & 1 ? 8 : 0)]];
    if (mod == 1) { a += (int8_t)*p; p += 1; } else if (mod == 2) { a += (int64_t)*(int32_t*)p; p += 4; }
    if (rip) a += (uint64_t)p + imm;
    *ea = (unsigned char*)a; *size = byte ? 1 : op16 ? 2 : rex & 8 ? 8 : 4; return true;
}
static void go(gregset_t& to, gregset_t& regs) { memcpy(regs, to, sizeof(gregset_t)); }
static void on_trap(int, siginfo_t*, void* u) {
    ucontext_t* uc = (ucontext_t*)u; gregset_t& r = uc->uc_mcontext.gregs;
    if (phase == 0) { // int3 of run(): start
        memcpy(main_ctx.r, r, sizeof r); phase = 1; cur = first; seg = 0; in_seg = 0; go(ctx[cur].r, r); return;
    }
    Ctx& c = ctx[cur]; memcpy(c.r, r, sizeof r); ++c.steps; ++total;
    if (total > 4000000) { phase = 2; go(main_ctx.r, r); return; }
    bool fin = finished[cur];
    if (c.pending) c.pending = false;              // the split instruction was executed by this step
    ++in_seg;
    if (fin) { c.done = true; if (ctx[!cur].done) { phase = 2; go(main_ctx.r, r); return; } cur = !cur; ++seg; in_seg = 0; go(ctx[cur].r, r); }
    else if (seg < nlim && in_seg >= lim[seg] && !ctx[!cur].done) { cur = !cur; ++seg; in_seg = 0; go(ctx[cur].r, r); }
    // about to execute the next instruction of the current context
    for (;;) {
        Ctx& n = ctx[cur]; if (n.done) { phase = 2; go(main_ctx.r, r); return; }
        if (n.pending) { memcpy(n.ea, n.old, n.size); return; }   // resumes after the load: stores what it makes of the old value
        unsigned char* ea; int size;
        if (!finished[cur] && plain_rmw(n.r, &ea, &size) && ea >= lo && ea < hi) {
            ++split_rmw; n.pending = true; n.ea = ea; n.size = size; memcpy(n.old, ea, size); ++n.steps; ++in_seg; ++total;
            if (seg < nlim && in_seg >= lim[seg] && !ctx[!cur].done) { cur = !cur; ++seg; in_seg = 0; go(ctx[cur].r, r); continue; }
        }
        return;
    }
}
// Runs a and b; context `first` executes l[0] instructions, then the other one l[1], ... then each to its end.
// Returns the number of switches that really happened because of l.
static void run(std::function<void()> a, std::function<void()> b, int first_, const int* l, int n, const void* lo_, const void* hi_) {
    static bool inst = false; static char alt[65536];
    if (!inst) { inst = true; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &sa, NULL); }
    fn[0] = &a; fn[1] = &b; first = first_; nlim = n; for (int i = 0; i < n; ++i) lim[i] = l[i]; lo = lo_; hi = hi_; split_rmw = 0; total = 0; finished[0] = finished[1] = 0;
    for (int i = 0; i < 2; ++i) {
        memset(&ctx[i], 0, sizeof ctx[i]);
        uint16_t cs; __asm__("mov %%cs, %0" : "=r"(cs)); uint16_t fs = 0, gs = 0, ssr; __asm__("mov %%ss, %0" : "=r"(ssr));
        ctx[i].r[REG_CSGSFS] = (uint64_t)cs | (uint64_t)gs << 16 | (uint64_t)fs << 32 | (uint64_t)ssr << 48;
        ctx[i].r[REG_RSP] = ((uint64_t)(stk[i] + STK) & ~15ull) - 8; ctx[i].r[REG_RIP] = (uint64_t)(i ? body1 : body0); ctx[i].r[REG_EFL] = 0x302;  // TF
    }
    phase = 0; __asm__ volatile("int3" ::: "memory");
}
}
#endif
