// Internals shared by mcrt.cc (scheduler, memory, threads, explorer) and mckern.cc (simulated kernel).
#ifndef VERIF_MCINT_H_
#define VERIF_MCINT_H_
#include "mc.h"
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <functional>

namespace mc {

enum { MAXF = 40, MAXDEV = 14, MAXPOINTS = 200000, MAXVC = 6000, STACK_SZ = 256 * 1024, MAXSHADOW = 256 };

struct VC { uint32_t c[MAXF]; };

enum State { S_FREE, S_READY, S_BLOCKED, S_STALLED, S_DONE };

struct Fiber {
    int id;
    State state;
    char name[24];
    void* sp;
    char* stack;
    uint64_t deadline;       // virtual us, ~0 none
    bool timed_out;
    const void* wait_obj;
    const char* wait_what;
    std::function<bool()>* pred;
    uint64_t ready_seq;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached;
    bool joined;
    bool raw;                // harness peer: sockets created here are raw
    bool in_cxx_fn;
    std::function<void()>* cfn;
    char* tls;               // saved TLS image
    int saved_errno;
    VC vc;
    int depth;
    const void* shadow[MAXSHADOW];
    void* specific[64];
};

struct Dev { uint32_t idx; uint16_t alt; uint16_t kind; uint32_t hash; };
struct Item { uint8_t n; uint8_t used[4]; Dev d[MAXDEV]; };

struct PointRec { uint16_t n; uint16_t nsched; uint16_t nstall; uint8_t kind; uint8_t chosen; uint32_t hash; };

void block(const void* obj, const char* what, uint64_t deadline); // current fiber waits; returns when woken/timed out
void wake_all(const void* obj);
bool wake_one(const void* obj);
int decide(int n, int nsched, int nstall, int kind, const char* tag);
void point_key(uint32_t key, bool force);
void sync_access(const void* addr, bool write, uint32_t key, bool acquire, bool release);
uint32_t key_of(const void* pc, int frames);
Fiber* cur();
bool active();
bool tracing();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t now();
const Config& cfg();
void check_mem(const void* p, size_t n, bool write, const void* pc);
// scratch memory of the simulated kernel, dropped after every execution
void* kalloc(size_t n);
void kern_reset();
bool kern_is_fake(int fd);
extern const uint64_t REALTIME_BASE_US;

} // namespace mc
#endif
