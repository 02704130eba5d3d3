// Simulated kernel: sockets, epoll, eventfd, pipes, poll, name resolution (numeric and localhost only).
// Compiled WITHOUT instrumentation. Descriptors below FD_BASE are passed to the real kernel.
#include "mcint.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>

namespace mc {
namespace {

enum { FD_BASE = 5000, NFD = 512, MAXEP = 256, NPORTMODE = 32 };
enum Type { T_SOCK, T_EPOLL, T_EVENT, T_PIPE };
enum SState { SS_INIT, SS_LISTEN, SS_CONNECTING, SS_CONN, SS_DEAD };

struct File;
struct EpEnt { int fd; File* f; uint32_t events; epoll_data_t data; bool pending; uint64_t seq; };
struct Watch { File* ep; Watch* next; };

struct File {
    Type type;
    int refs;              // descriptor + peers keep objects; memory is dropped with the execution
    bool closed;
    bool nonblock;
    bool raw;
    Watch* watch;
    // socket
    SState st;
    uint32_t lip, rip; uint16_t lport, rport;
    bool bound;
    File* peer;
    char* rx; size_t rxcap, rxoff, rxlen;
    bool rx_eof, rd_shut, wr_shut, rst, nospace;
    int so_error;
    File* backlog[128]; int nbacklog;
    int backlog_max;
    bool counted;
    uint64_t total_tx, total_rx;
    // epoll
    EpEnt* ent; int nent; uint64_t epseq;
    // eventfd / pipe
    uint64_t counter; File* pipe_other; bool pipe_rd;
};

struct Kern {
    File* fd[NFD];
    uint16_t next_port;
    struct { int port; net::Mode mode; bool paused; } pm[NPORTMODE]; int npm;
    int accepted[65536 / 64]; // unused
    struct { int port; int n; } acc[64]; int nacc;
    File* all[2048]; int nall;
    int fail_accept; uint64_t lib_rx, lib_tx;
};
Kern* K;

void ensure() { if (!K) { K = (Kern*)kalloc(sizeof(Kern)); K->next_port = 40000; } }

File* get(int fd) { if (fd < FD_BASE || fd >= FD_BASE + NFD || !K) return NULL; return K->fd[fd - FD_BASE]; }
int install(File* f) {
    ensure();
    for (int i = 0; i < NFD; ++i) if (!K->fd[i]) { K->fd[i] = f; return FD_BASE + i; }
    errno = EMFILE; return -1;
}
File* mk(Type t) {
    ensure();
    File* f = (File*)kalloc(sizeof(File)); f->type = t; f->refs = 1;
    if (K->nall < 2048) K->all[K->nall++] = f;
    return f;
}
size_t rx_room(File* f) { size_t cap = cfg().sock_buf; return f->rxlen >= cap ? 0 : cap - f->rxlen; }

uint32_t poll_mask(File* f) {
    uint32_t m = 0;
    if (f->type == T_EVENT) { if (f->counter) m |= EPOLLIN; m |= EPOLLOUT; return m; }
    if (f->type == T_PIPE) {
        if (f->pipe_rd) { if (f->rxlen) m |= EPOLLIN; if (f->pipe_other->closed) m |= EPOLLHUP; }
        else { m |= EPOLLOUT; if (f->pipe_other->closed) m |= EPOLLERR; }
        return m;
    }
    if (f->type == T_EPOLL) { for (int i = 0; i < f->nent; ++i) if (f->ent[i].pending) return EPOLLIN; return 0; }
    switch (f->st) {
    case SS_INIT: m |= EPOLLOUT | EPOLLHUP; break;
    case SS_LISTEN: if (f->nbacklog) m |= EPOLLIN; break;
    case SS_CONNECTING: break;
    case SS_CONN:
        if (f->rxlen || f->rx_eof || f->rd_shut) m |= EPOLLIN;
        if (f->rx_eof || f->rd_shut) m |= EPOLLRDHUP;
        if (f->wr_shut || (f->peer && rx_room(f->peer) > 0)) m |= EPOLLOUT;
        if ((f->rx_eof || f->rd_shut) && f->wr_shut) m |= EPOLLHUP;
        break;
    case SS_DEAD: m |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP; break;
    }
    if (f->so_error) m |= EPOLLERR;
    return m;
}

uint32_t fkey(const char* op, File* f) {
    uint32_t h = 2166136261u;
    for (; *op; ++op) h = (h ^ (unsigned char)*op) * 16777619u;
    return (h ^ f->type * 77) * 16777619u;
}
// a kernel operation on an object: ordered with every other operation on it
void kop(File* f, const char* op, bool acquire, bool release, const void* pc) {
    if (!active()) return;
    uint32_t key = fkey(op, f) ^ key_of(pc, 2);
    point_key(key, false);
    sync_access(f, true, key, acquire, release);
}

void notify(File* f, uint32_t ev) {
    for (Watch* w = f->watch; w; w = w->next) {
        File* ep = w->ep;
        if (ep->closed) continue;
        for (int i = 0; i < ep->nent; ++i) {
            EpEnt& e = ep->ent[i];
            if (e.f == f && (ev & (e.events | EPOLLERR | EPOLLHUP))) { if (!e.pending) { e.pending = true; e.seq = ++ep->epseq; } wake_all(ep); }
        }
    }
    wake_all(f);
}

int mode_of(int port) { for (int i = 0; i < K->npm; ++i) if (K->pm[i].port == port) return K->pm[i].mode; return 0; }
File* listener_of(int port) { for (int i = 0; i < NFD; ++i) { File* f = K->fd[i]; if (f && f->type == T_SOCK && f->st == SS_LISTEN && f->lport == port) return f; } return NULL; }
void count_accept(int port) { for (int i = 0; i < K->nacc; ++i) if (K->acc[i].port == port) { K->acc[i].n++; return; } if (K->nacc < 64) { K->acc[K->nacc].port = port; K->acc[K->nacc++].n = 1; } }

// finish (or refuse) a connection attempt
void establish(File* c) {
    File* l = listener_of(c->rport);
    int m = mode_of(c->rport);
    if (m == net::BLACKHOLE) return;
    if (m == net::REFUSE || !l || l->nbacklog >= 128 || l->nbacklog > l->backlog_max) {
        c->st = SS_DEAD; c->so_error = ECONNREFUSED;
        notify(c, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
        return;
    }
    File* s = mk(T_SOCK);
    s->st = SS_CONN; s->lip = c->rip; s->lport = c->rport; s->rip = c->lip; s->rport = c->lport; s->bound = true; s->raw = l->raw;
    s->peer = c; c->peer = s; c->st = SS_CONN;
    count_accept(c->rport);
    l->backlog[l->nbacklog++] = s;
    notify(l, EPOLLIN);
    notify(c, EPOLLOUT);
}

void do_reset(File* f, int err) { // connection seen as reset by f
    if (f->st != SS_CONN && f->st != SS_CONNECTING) return;
    f->st = SS_DEAD; f->so_error = err; f->rxlen = 0; f->rst = true;
    notify(f, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}

void close_file(File* f) {
    if (f->closed) return;
    f->closed = true;
    if (f->type == T_SOCK) {
        if (f->st == SS_LISTEN) { for (int i = 0; i < f->nbacklog; ++i) { File* s = f->backlog[i]; if (s->peer) do_reset(s->peer, ECONNRESET); s->closed = true; s->st = SS_DEAD; } f->nbacklog = 0; }
        if (f->st == SS_CONN && f->peer) {
            if (f->rxlen) do_reset(f->peer, ECONNRESET);              // unread data: RST
            else if (!f->peer->rx_eof) { f->peer->rx_eof = true; notify(f->peer, EPOLLIN | EPOLLRDHUP | (f->peer->wr_shut ? EPOLLHUP : 0)); }
        }
        f->st = SS_DEAD;
    } else if (f->type == T_PIPE) notify(f->pipe_other, EPOLLIN | EPOLLHUP | EPOLLERR);
    for (Watch* w = f->watch; w; w = w->next) { File* ep = w->ep; for (int i = 0; i < ep->nent; ++i) if (ep->ent[i].f == f) { ep->ent[i] = ep->ent[--ep->nent]; --i; } }
    wake_all(f);
}

ssize_t sys_rx(int fd, File* f, const struct iovec* iov, int n, int flags, const void* pc) {
    kop(f, "rx", true, true, pc);
    if (f->closed) { errno = EBADF; return -1; }
    if (f->type == T_EVENT) {
        while (!f->counter) { if (f->nonblock) { errno = EAGAIN; return -1; } block(f, "eventfd", ~0ull); }
        uint64_t v = f->counter; f->counter = 0; memcpy(iov[0].iov_base, &v, 8); return 8;
    }
    if (f->type == T_SOCK) {
        if (f->so_error) { int e = f->so_error; f->so_error = 0; errno = e; return -1; }
        if (f->st != SS_CONN && f->st != SS_DEAD) { errno = ENOTCONN; return -1; }
    }
    while (!f->rxlen) {
        if (f->type == T_SOCK && f->so_error) { int e = f->so_error; f->so_error = 0; errno = e; return -1; }
        if (f->st == SS_DEAD && f->type == T_SOCK) return 0;
        if (f->rx_eof || f->rd_shut || (f->type == T_PIPE && f->pipe_other->closed)) return 0;
        if (f->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        block(f, "recv", ~0ull);
        if (f->closed) { errno = EBADF; return -1; }
    }
    size_t want = 0; for (int i = 0; i < n; ++i) want += iov[i].iov_len;
    size_t take = want < f->rxlen ? want : f->rxlen;
    if (!f->raw && f->type == T_SOCK && take > 0) {
        if (cfg().io_errors && f->peer) {
            if (choose(2, "rx_reset") == 1) { do_reset(f->peer, ECONNRESET); f->st = SS_DEAD; f->rxlen = 0; notify(f, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); trace("rx on fd %d: injected reset", fd); errno = ECONNRESET; return -1; }
        }
        if (cfg().short_io && take > 1) {
            int c = choose(take > 2 ? 3 : 2, "short_rx");
            if (c == 1) take = 1; else if (c == 2) take = take - 1;
        }
    }
    size_t left = take;
    for (int i = 0; i < n && left; ++i) {
        size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
        check_mem(iov[i].iov_base, k, true, pc);
        memcpy(iov[i].iov_base, f->rx + f->rxoff, k);
        if (!(flags & MSG_PEEK)) { f->rxoff += k; f->rxlen -= k; }
        left -= k;
    }
    if (f->rxlen == 0) f->rxoff = 0;
    f->total_rx += take; if (!f->raw) K->lib_rx += take;
    if (f->type == T_SOCK && f->peer && f->peer->nospace && rx_room(f) > 0) { f->peer->nospace = false; notify(f->peer, EPOLLOUT); }
    // data is still there: a level/edge poll that happens later sees it again (edge is only raised by arrivals)
    if (tracing()) trace("rx fd %d port %d/%d: %zu bytes, %zu left", fd, f->lport, f->rport, take, f->rxlen);
    return take;
}

void push(File* p, const char* d, size_t n) {
    if (p->rxoff + p->rxlen + n > p->rxcap) {
        size_t cap = p->rxcap ? p->rxcap : 4096;
        while (cap < p->rxlen + n) cap *= 2;
        char* b = (char*)kalloc(cap);
        memcpy(b, p->rx + p->rxoff, p->rxlen);
        p->rx = b; p->rxcap = cap; p->rxoff = 0;
    }
    memcpy(p->rx + p->rxoff + p->rxlen, d, n); p->rxlen += n;
}

ssize_t sys_tx(int fd, File* f, const struct iovec* iov, int n, int flags, const void* pc) {
    kop(f, "tx", true, true, pc);
    if (f->closed) { errno = EBADF; return -1; }
    if (f->type == T_EVENT) { uint64_t v; memcpy(&v, iov[0].iov_base, 8); f->counter += v; notify(f, EPOLLIN); return 8; }
    if (f->type == T_PIPE) { size_t t = 0; for (int i = 0; i < n; ++i) { push(f->pipe_other, (const char*)iov[i].iov_base, iov[i].iov_len); t += iov[i].iov_len; } notify(f->pipe_other, EPOLLIN); return t; }
    size_t want = 0; for (int i = 0; i < n; ++i) { want += iov[i].iov_len; }
    for (;;) {
        if (f->so_error) { int e = f->so_error; f->so_error = 0; errno = e; return -1; }
        if (f->st == SS_DEAD || f->wr_shut) { errno = EPIPE; return -1; }
        if (f->st != SS_CONN) { errno = ENOTCONN; return -1; }
        if (f->peer->closed) { // peer is gone: first write provokes a reset
            f->st = SS_DEAD; f->rst = true; f->so_error = 0;
            notify(f, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP);
            f->total_tx += want; return want; // the kernel accepts the bytes, the reset arrives afterwards
        }
        if (rx_room(f->peer) > 0) break;
        f->nospace = true;
        if (f->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        block(f, "send", ~0ull);
        if (f->closed) { errno = EBADF; return -1; }
    }
    if (!want) return 0;
    size_t room = rx_room(f->peer), take = want < room ? want : room;
    if (!f->raw) {
        if (cfg().io_errors && choose(2, "tx_reset") == 1) { do_reset(f->peer, ECONNRESET); f->st = SS_DEAD; f->rxlen = 0; notify(f, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP); trace("tx on fd %d: injected reset", fd); errno = ECONNRESET; return -1; }
        if (cfg().short_io && take > 1) {
            int c = choose(take > 2 ? 3 : 2, "short_tx");
            if (c == 1) take = 1; else if (c == 2) take = take - 1;
        }
    }
    if (take < want) f->nospace = true;
    size_t left = take;
    for (int i = 0; i < n && left; ++i) {
        size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
        check_mem(iov[i].iov_base, k, false, pc);
        if (!f->peer->rd_shut) push(f->peer, (const char*)iov[i].iov_base, k);
        left -= k;
    }
    f->total_tx += take; if (!f->raw) K->lib_tx += take;
    sync_access(f->peer, true, fkey("tx", f), false, true);
    notify(f->peer, EPOLLIN);
    if (f->nospace && rx_room(f->peer) > 0) { f->nospace = false; notify(f, EPOLLOUT); } // short write, space is left
    if (tracing()) trace("tx fd %d port %d/%d: %zu of %zu bytes", fd, f->lport, f->rport, take, want);
    return take;
}

void fill(struct sockaddr* a, socklen_t* l, uint32_t ip, uint16_t port) {
    if (!a || !l) return;
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = ip;
    memcpy(a, &s, *l < sizeof s ? *l : sizeof s); *l = sizeof s;
}

} // namespace

void kern_reset() { K = NULL; }
bool kern_is_fake(int fd) { return get(fd) != NULL; }

namespace net {
void set_port_mode(int port, Mode m) {
    ensure();
    int i; for (i = 0; i < K->npm; ++i) if (K->pm[i].port == port) break;
    if (i == K->npm) { if (K->npm >= NPORTMODE) return; K->npm++; }
    K->pm[i].port = port; K->pm[i].mode = m;
    if (m != BLACKHOLE) for (int k = 0; k < K->nall; ++k) { File* f = K->all[k]; if (f->type == T_SOCK && f->st == SS_CONNECTING && !f->closed && f->rport == port) establish(f); }
}
uint64_t lib_rx() { ensure(); return K->lib_rx; }
uint64_t lib_tx() { ensure(); return K->lib_tx; }
void set_raw(bool on) { cur()->raw = on; }
void reset(int fd) { File* f = get(fd); if (!f || f->st != SS_CONN) return; if (f->peer) do_reset(f->peer, ECONNRESET); do_reset(f, ECONNRESET); }
void reset_port(int port) {
    if (!K) return;
    for (int k = 0; k < K->nall; ++k) { File* f = K->all[k]; if (f->type == T_SOCK && f->st == SS_CONN && f->lport == port && f->peer) { File* p = f->peer; do_reset(p, ECONNRESET); do_reset(f, ECONNRESET); } }
}
int open_connections(int port) {
    if (!K) return 0;
    int n = 0;
    for (int k = 0; k < K->nall; ++k) { File* f = K->all[k]; if (f->type == T_SOCK && f->st == SS_CONN && !f->closed && f->lport == port && f->peer && !f->peer->closed && !f->rx_eof && !f->peer->rx_eof) ++n; }
    return n;
}
int accepted_total(int port) { if (!K) return 0; for (int i = 0; i < K->nacc; ++i) if (K->acc[i].port == port) return K->acc[i].n; return 0; }
uint64_t bytes_unread(int fd) { File* f = get(fd); return f ? f->rxlen : 0; }
int open_fds() { if (!K) return 0; int n = 0; for (int i = 0; i < NFD; ++i) if (K->fd[i]) ++n; return n; }
void fail_accepts(int n) { ensure(); K->fail_accept = n; }
void set_paused(int, bool) {}
} // namespace net
} // namespace mc

using namespace mc;
#define PC __builtin_return_address(0)
#define REAL(...) syscall(__VA_ARGS__)
static bool on() { return active(); }

extern "C" {

int socket(int domain, int type, int proto) {
    if (!on()) return REAL(SYS_socket, domain, type, proto);
    if (domain == AF_INET6) { errno = EAFNOSUPPORT; return -1; }
    File* f = mk(T_SOCK); f->st = SS_INIT; f->nonblock = type & SOCK_NONBLOCK; f->raw = cur()->raw;
    int fd = install(f);
    if (tracing()) trace("socket -> fd %d", fd);
    return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) {
    File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_bind, fd, a, l); }
    const struct sockaddr_in* s = (const struct sockaddr_in*)a;
    uint16_t port = ntohs(s->sin_port);
    if (!port) port = K->next_port++;
    if (listener_of(port)) { errno = EADDRINUSE; return -1; }
    f->lip = s->sin_addr.s_addr; f->lport = port; f->bound = true;
    return 0;
}
int listen(int fd, int backlog) {
    File* f = get(fd); if (!f) { errno = EBADF; return -1; }
    kop(f, "listen", true, true, PC);
    if (listener_of(f->lport) && f->st != SS_LISTEN) { errno = EADDRINUSE; return -1; }
    f->st = SS_LISTEN; f->backlog_max = backlog;
    return 0;
}
static int acc(int fd, struct sockaddr* a, socklen_t* l, int flags, const void* pc) {
    File* f = get(fd); if (!f) { errno = EBADF; return -1; }
    kop(f, "accept", true, true, pc);
    if (f->closed || f->st != SS_LISTEN) { errno = EINVAL; return -1; }
    while (!f->nbacklog) {
        if (f->nonblock) { errno = EAGAIN; return -1; }
        block(f, "accept", ~0ull);
        if (f->closed) { errno = EBADF; return -1; }
    }
    if (!f->raw && K->fail_accept > 0) { K->fail_accept--; errno = EMFILE; return -1; }
    File* s = f->backlog[0];
    for (int i = 1; i < f->nbacklog; ++i) f->backlog[i - 1] = f->backlog[i];
    f->nbacklog--;
    s->nonblock = flags & SOCK_NONBLOCK; s->raw = cur()->raw;
    fill(a, l, s->rip, s->rport);
    int n = install(s);
    if (tracing()) trace("accept on fd %d -> fd %d", fd, n);
    return n;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { return acc(fd, a, l, 0, PC); }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) { return acc(fd, a, l, flags, PC); }
int connect(int fd, const struct sockaddr* a, socklen_t l) {
    File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_connect, fd, a, l); }
    (void)l;
    const struct sockaddr_in* s = (const struct sockaddr_in*)a;
    if (f->st == SS_CONN) { errno = EISCONN; return -1; }
    if (f->st == SS_CONNECTING) { errno = EALREADY; return -1; }
    if (!f->bound) { f->lip = htonl(INADDR_LOOPBACK); f->lport = K->next_port++; f->bound = true; }
    f->rip = s->sin_addr.s_addr; f->rport = ntohs(s->sin_port);
    if (f->rip == 0) f->rip = htonl(INADDR_LOOPBACK);
    kop(f, "connect", true, true, PC);
    f->so_error = 0;
    f->st = SS_CONNECTING;
    if (tracing()) trace("connect fd %d -> port %d", fd, f->rport);
    establish(f);
    if (f->nonblock) { errno = EINPROGRESS; return -1; }
    while (f->st == SS_CONNECTING) block(f, "connect", ~0ull);
    if (f->so_error) { errno = f->so_error; f->so_error = 0; return -1; }
    return 0;
}
int shutdown(int fd, int how) {
    File* f = get(fd); if (!f) { errno = EBADF; return -1; }
    kop(f, "shutdown", true, true, PC);
    if (tracing()) trace("shutdown fd %d how %d", fd, how);
    // Linux disconnects a socket in SYN_SENT: the attempt ends with ECONNRESET (checked against the real kernel)
    if (f->st == SS_CONNECTING) { do_reset(f, ECONNRESET); return 0; }
    if (f->st != SS_CONN) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) { f->rd_shut = true; }
    if ((how == SHUT_WR || how == SHUT_RDWR) && !f->wr_shut) {
        f->wr_shut = true;
        if (!f->peer->closed) { f->peer->rx_eof = true; notify(f->peer, EPOLLIN | EPOLLRDHUP | (f->peer->wr_shut ? EPOLLHUP : 0)); }
    }
    notify(f, EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP);
    return 0;
}
int close(int fd) {
    File* f = get(fd);
    if (!f) { if (on() && fd >= FD_BASE) { if (fd < FD_BASE + NFD) fail("close_bad_fd", "close of descriptor %d that is not open", fd); errno = EBADF; return -1; } return REAL(SYS_close, fd); }
    kop(f, "close", true, true, PC);
    if (!get(fd)) { errno = EBADF; return -1; }
    if (tracing()) trace("close fd %d", fd);
    K->fd[fd - FD_BASE] = NULL;
    close_file(f);
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
    File* f = get(fd); if (!f) { errno = EBADF; return -1; }
    fill(a, l, f->lip, f->lport); return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
    File* f = get(fd); if (!f) { errno = EBADF; return -1; }
    if (f->st != SS_CONN) { errno = ENOTCONN; return -1; }
    fill(a, l, f->rip, f->rport); return 0;
}
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) {
    File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_setsockopt, fd, lv, o, v, l); }
    return 0;
}
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) {
    File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_getsockopt, fd, lv, o, v, l); }
    int r = 0;
    if (lv == SOL_SOCKET && o == SO_ERROR) { r = f->so_error; f->so_error = 0; }
    else if (lv == SOL_SOCKET && (o == SO_RCVBUF || o == SO_SNDBUF)) r = cfg().sock_buf;
    if (l && *l >= sizeof r) { memcpy(v, &r, sizeof r); *l = sizeof r; }
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    File* f = get(fd); if (!f) return REAL(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void* arg = va_arg(ap, void*); va_end(ap);
    File* f = get(fd); if (!f) { if (on() && fd >= FD_BASE) { errno = EBADF; return -1; } return REAL(SYS_ioctl, fd, rq, arg); }
    if (rq == FIONBIO) f->nonblock = *(int*)arg;
    else if (rq == FIONREAD) *(int*)arg = f->rxlen;
    return 0;
}

ssize_t recv(int fd, void* b, size_t n, int flags) {
    File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_recvfrom, fd, b, n, flags, NULL, NULL); }
    struct iovec v = { b, n }; return sys_rx(fd, f, &v, 1, flags, PC);
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
    File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_sendto, fd, b, n, flags, NULL, 0); }
    struct iovec v = { (void*)b, n }; return sys_tx(fd, f, &v, 1, flags, PC);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) { File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_recvmsg, fd, m, flags); } return sys_rx(fd, f, m->msg_iov, m->msg_iovlen, flags, PC); }
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) { File* f = get(fd); if (!f) { if (on()) { errno = EBADF; return -1; } return REAL(SYS_sendmsg, fd, m, flags); } return sys_tx(fd, f, m->msg_iov, m->msg_iovlen, flags, PC); }
ssize_t read(int fd, void* b, size_t n) { File* f = get(fd); if (!f) return REAL(SYS_read, fd, b, n); struct iovec v = { b, n }; return sys_rx(fd, f, &v, 1, 0, PC); }
ssize_t write(int fd, const void* b, size_t n) { File* f = get(fd); if (!f) return REAL(SYS_write, fd, b, n); struct iovec v = { (void*)b, n }; return sys_tx(fd, f, &v, 1, 0, PC); }
ssize_t readv(int fd, const struct iovec* v, int n) { File* f = get(fd); if (!f) return REAL(SYS_readv, fd, v, n); return sys_rx(fd, f, v, n, 0, PC); }
ssize_t writev(int fd, const struct iovec* v, int n) { File* f = get(fd); if (!f) return REAL(SYS_writev, fd, v, n); return sys_tx(fd, f, v, n, 0, PC); }

int poll(struct pollfd* p, nfds_t n, int timeout) {
    if (!on()) return REAL(SYS_poll, p, n, timeout);
    uint64_t dl = timeout < 0 ? ~0ull : now() + (uint64_t)timeout * 1000;
    auto eval = [p, n]() { int c = 0; for (nfds_t i = 0; i < n; ++i) { File* f = get(p[i].fd); p[i].revents = 0; if (p[i].fd < 0) continue; if (!f) p[i].revents = POLLNVAL; else p[i].revents = poll_mask(f) & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) ++c; } return c; };
    int c = eval();
    if (c || !timeout) return c;
    uint64_t left = dl == ~0ull ? 0 : dl - now();
    wait_until([&eval]() { return eval() > 0; }, left);
    return eval();
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { return poll(p, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1); }

int epoll_create1(int) { File* f = mk(T_EPOLL); f->ent = (EpEnt*)kalloc(sizeof(EpEnt) * MAXEP); return install(f); }
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    File* e = get(ep); File* f = get(fd);
    if (!e || !f) { errno = EBADF; return -1; }
    int i; for (i = 0; i < e->nent; ++i) if (e->ent[i].f == f) break;
    if (op == EPOLL_CTL_ADD) {
        if (i < e->nent) { errno = EEXIST; return -1; }
        if (e->nent >= MAXEP) { errno = ENOSPC; return -1; }
        e->nent++; e->ent[i].fd = fd; e->ent[i].f = f; e->ent[i].pending = false;
        Watch* w; for (w = f->watch; w; w = w->next) if (w->ep == e) break;
        if (!w) { w = (Watch*)kalloc(sizeof(Watch)); w->ep = e; w->next = f->watch; f->watch = w; }
    } else if (i == e->nent) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) { e->ent[i] = e->ent[--e->nent]; return 0; }
    e->ent[i].events = ev->events; e->ent[i].data = ev->data;
    if (poll_mask(f) & (ev->events | EPOLLERR | EPOLLHUP)) { if (!e->ent[i].pending) { e->ent[i].pending = true; e->ent[i].seq = ++e->epseq; } wake_all(e); }
    return 0;
}
int epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
    File* e = get(ep);
    if (!e) { errno = EBADF; return -1; }
    uint64_t dl = timeout < 0 ? ~0ull : now() + (uint64_t)timeout * 1000;
    for (;;) {
        EpEnt* r[MAXEP]; int n = 0;
        for (int i = 0; i < e->nent; ++i) {
            EpEnt& x = e->ent[i];
            if (!x.pending) continue;
            if (!(poll_mask(x.f) & (x.events | EPOLLERR | EPOLLHUP))) { x.pending = false; continue; }
            int j = n++;
            while (j > 0 && r[j - 1]->seq > x.seq) { r[j] = r[j - 1]; --j; }
            r[j] = &x;
        }
        if (n) {
            if (n > max) n = max;
            int nsock = 0; for (int i = 0; i < n; ++i) if (r[i]->f->type == T_SOCK) ++nsock;
            if (nsock > 1) { // which ready socket is reported first
                int c = choose(nsock, "epoll_first");
                if (c > 0) { int k = 0, i = 0; for (; i < n; ++i) if (r[i]->f->type == T_SOCK && k++ == c) break; EpEnt* t = r[i]; for (; i > 0; --i) r[i] = r[i - 1]; r[0] = t; }
            }
            for (int i = 0; i < n; ++i) {
                EpEnt* x = r[i];
                out[i].events = poll_mask(x->f) & (x->events | EPOLLERR | EPOLLHUP);
                out[i].data = x->data;
                if (x->events & EPOLLET) x->pending = false;
                sync_access(x->f, false, 0, true, false);
            }
            return n;
        }
        if (timeout == 0 || now() >= dl) return 0;
        block(e, "epoll", dl);
        if (e->closed) { errno = EBADF; return -1; }
        if (cur()->timed_out) timeout = 0;
    }
}
int epoll_pwait(int ep, struct epoll_event* out, int max, int timeout, const sigset_t*) { return epoll_wait(ep, out, max, timeout); }
int eventfd(unsigned v, int flags) { File* f = mk(T_EVENT); f->counter = v; f->nonblock = flags & 04000; return install(f); }
int pipe2(int* fds, int flags) {
    File* a = mk(T_PIPE); File* b = mk(T_PIPE); a->pipe_rd = true; a->pipe_other = b; b->pipe_other = a; a->nonblock = b->nonblock = flags & O_NONBLOCK;
    fds[0] = install(a); fds[1] = install(b); return 0;
}
int pipe(int* fds) { return pipe2(fds, 0); }
int timerfd_create(clockid_t, int) { errno = EINVAL; return -1; }
int timerfd_settime(int, int, const struct itimerspec*, struct itimerspec*) { errno = EINVAL; return -1; }
pid_t getpid() { return 4242; }

struct hostent* gethostbyaddr(const void*, socklen_t, int) { return NULL; } // no resolver in the simulated world
struct hostent* gethostbyname(const char*) { return NULL; }
int gethostname(char* n, size_t l) { snprintf(n, l, "verifhost"); return 0; }
struct ai_mem { struct addrinfo ai; struct sockaddr_in sa; };
int getaddrinfo(const char* node, const char* service, const struct addrinfo* h, struct addrinfo** out) {
    uint32_t ip;
    if (!node) ip = h && (h->ai_flags & AI_PASSIVE) ? INADDR_ANY : htonl(INADDR_LOOPBACK);
    else if (!strcmp(node, "localhost") || !strcmp(node, "verifhost")) ip = htonl(INADDR_LOOPBACK);
    else { struct in_addr a; if (inet_pton(AF_INET, node, &a) != 1) return EAI_NONAME; ip = a.s_addr; }
    long port = 0;
    if (service && *service) { char* e; port = strtol(service, &e, 10); if (*e || port < 0 || port > 65535) return EAI_SERVICE; }
    ai_mem* m = (ai_mem*)malloc(sizeof(ai_mem)); memset(m, 0, sizeof *m);
    m->ai.ai_family = AF_INET; m->ai.ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; m->ai.ai_protocol = IPPROTO_TCP;
    m->ai.ai_addrlen = sizeof m->sa; m->ai.ai_addr = (struct sockaddr*)&m->sa;
    m->sa.sin_family = AF_INET; m->sa.sin_port = htons(port); m->sa.sin_addr.s_addr = ip;
    *out = &m->ai; return 0;
}
void freeaddrinfo(struct addrinfo* a) { while (a) { struct addrinfo* n = a->ai_next; free(a); a = n; } }

} // extern "C"
