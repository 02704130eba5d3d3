// Harness API of the model-checking runtime (see mcrt.cc).
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <functional>

namespace mc {

enum Kind { K_SCHED = 0, K_STALL = 1, K_ENV = 2, K_FREE = 3, K_NKINDS = 4 };

struct Config {
    int bound;             // total deviations explored (iterated 0..bound)
    int cap[3];            // per-kind caps: sched, stall, env
    uint64_t stall_us[4];  // stall lengths offered at scheduling points (0 = none)
    int nstall;
    uint64_t horizon_us;   // virtual time limit of one execution
    uint64_t max_steps;    // instrumented steps limit of one execution
    int sock_buf;          // receive buffer capacity of simulated sockets
    int short_io;          // 1: short reads/writes are offered as env deviations
    int io_errors;         // 1: connection resets at send/recv are offered as env deviations
    int points_plain;      // 0: no scheduling points at plain racy accesses
    int points_refcount;   // 1: scheduling points at smart pointer reference counts
    int policies;          // base schedules explored: 1 = longest ready first; 2 = and last readied first
    int max_points;        // stop offering alternatives after this many points (0 = no limit)
    Config() : bound(1), nstall(0), horizon_us(60000000ull), max_steps(4000000ull), sock_buf(65536),
               short_io(0), io_errors(0), points_plain(1), points_refcount(0), policies(2), max_points(0) {
        cap[0] = cap[1] = cap[2] = 100;
        for (int i = 0; i < 4; ++i) stall_us[i] = 0;
    }
};

struct Scenario {
    const char* name;
    void (*body)();
    void (*setup)(Config&);
    Scenario* next;
    Scenario(const char* n, void (*b)(), void (*s)(Config&));
};
#define MC_SCENARIO(name) \
    static void mc_body_##name(); \
    static void mc_setup_##name(mc::Config& cfg); \
    static mc::Scenario mc_scn_##name(#name, mc_body_##name, mc_setup_##name); \
    static void mc_setup_##name(mc::Config& cfg)
#define MC_BODY(name) static void mc_body_##name()

int choose(int n, const char* tag);        // environment choice, alternatives cost one ENV deviation
int pick(int n, const char* tag);          // free choice: every value is explored
void fail(const char* sig, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void obs(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // observed outcome (hashed, traced)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace only
void arm(bool on);                         // offer alternatives from now on? (default on)
bool exploring();
uint64_t now_us();                         // virtual time since start of execution
void sleep_us(uint64_t us);
void yield();                              // scheduling point
// Blocks the calling fiber until pred() holds; returns false when timeout passed (0 = no timeout).
bool wait_until(const std::function<bool()>& pred, uint64_t timeout_us = 0);
int spawn(const char* name, const std::function<void()>& f);
void join(int id);
void set_name(const char* name);
int live_threads();                        // fibers not finished, without the calling one
// heap accounting of the current execution
uint64_t live_blocks();
uint64_t live_bytes();
void dump_live(int max);
void fill_freed(size_t n);                 // how much of every freed block is overwritten (4096 by default)

// simulated network
namespace net {
enum Mode { NORMAL = 0, BLACKHOLE = 1, REFUSE = 2 };
void set_port_mode(int port, Mode m);
void set_raw(bool on);                     // sockets created by this fiber are harness peers (no env choices)
void reset(int fd);                        // abortive close of a connection seen by both ends
void reset_port(int port);                 // reset every established connection to the port
int open_connections(int port);            // established and not closed on either side
int accepted_total(int port);              // connections ever established to the port
uint64_t bytes_unread(int fd);
int open_fds();
uint64_t lib_rx();                         // bytes read / written by sockets of the library so far
uint64_t lib_tx();
void fail_accepts(int n);                  // the next n accept() calls of the library fail with EMFILE
void set_paused(int port, bool paused);    // reader side harness helper
}
} // namespace mc

#define MC_CHECK(cond, sig, ...) do { if (!(cond)) mc::fail(sig, __VA_ARGS__); } while (0)
#endif
