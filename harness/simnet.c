#define _GNU_SOURCE
#include "simnet.h"
#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <sys/uio.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/un.h>

#define FD_BASE 1000
#define MAXFD   512
#define MAXMSG  8192

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);

struct msgmark { size_t start, end; };
struct stream {                 /* one direction of a connection */
    uint8_t* buf; size_t cap, len, avail, rd;
    size_t   parsed;            /* start of the message being written */
    int      broken;            /* framing lost: no more taps */
    struct msgmark* q; size_t qn, qcap, qrd;
    int      label; int to_server;
    int      wclosed;           /* writer closed */
    int      rclosed;           /* reader closed */
    int      rst;               /* reader gets ECONNRESET at the end */
    int      cutidx;
    struct stream* next;
};
struct dgram { uint8_t* data; size_t len; struct sockaddr_storage from; socklen_t fromlen; int label; int to_server; struct dgram* next; };

enum { K_SOCK = 1, K_EPOLL };
struct obj {
    int kind, type, domain, fd, nonblock, server_side, listening, label;
    struct sockaddr_storage addr; socklen_t addrlen; int bound;
    struct sockaddr_storage peer; socklen_t peerlen; int connected;
    struct stream *in, *out;
    struct dgram *dq; int dn;
    struct obj* backlog[32]; int nback;
    struct { int fd; uint32_t ev; epoll_data_t data; unsigned long seen; } ep[64]; int nep;
    unsigned long act;          /* counts what may wake a poller */
    struct obj* allnext;
};

static struct simnet_cfg g_cfg;
static struct obj*    g_fd[MAXFD];
static int            g_nextfd;
static struct stream* g_streams;
static struct obj*    g_objs;
static int            g_stop, g_net_tid;
static int            g_port;
static int            g_naccept, g_nsend;
static __thread int   t_label = -1;
static __thread int   t_masked; /* signals do not reach the peers that the harness plays */
/* a signal may end a call that would wait */
static int interrupted(void) { if (!g_cfg.eintr || t_masked || vs_rand() % (uint32_t)g_cfg.eintr) return 0; simnet_note("Intr", -1, 0); vs_yield(); return 1; }

static struct obj* get(int fd) { int i = fd - FD_BASE; return (i >= 0 && i < MAXFD) ? g_fd[i] : NULL; }
void simnet_set_label(int l) { t_label = l; }

void simnet_reset(const struct simnet_cfg* cfg)
{
    while (g_streams) { struct stream* s = g_streams; g_streams = s->next; __real_free(s->buf); __real_free(s->q); __real_free(s); }
    while (g_objs) {
        struct obj* o = g_objs; g_objs = o->allnext;
        while (o->dq) { struct dgram* d = o->dq; o->dq = d->next; __real_free(d->data); __real_free(d); }
        __real_free(o);
    }
    memset(g_fd, 0, sizeof(g_fd));
    g_cfg = *cfg;
    if (!g_cfg.cap) g_cfg.cap = 1 << 20;
    if (!g_cfg.dgram_cap) g_cfg.dgram_cap = 64;
    g_nextfd = 0; g_stop = 0; g_port = 40000; g_net_tid = -1; g_naccept = g_nsend = 0;
}

static struct obj* newobj(int kind)
{
    struct obj* o = __real_calloc(1, sizeof(*o));
    o->kind = kind; o->label = -1; o->fd = -1;
    o->allnext = g_objs; g_objs = o;
    return o;
}
static int install(struct obj* o)
{
    int i;
    if (g_cfg.no_reuse) { i = g_nextfd++; if (i >= MAXFD) vs_fatal("Harness", "fds"); }
    else for (i = 0; i < MAXFD && g_fd[i]; i++) {}
    if (i >= MAXFD) { errno = EMFILE; return -1; }
    g_fd[i] = o; o->fd = FD_BASE + i;
    return o->fd;
}

static struct stream* newstream(int label, int to_server)
{
    struct stream* s = __real_calloc(1, sizeof(*s));
    s->label = label; s->to_server = to_server;
    s->next = g_streams; g_streams = s;
    return s;
}

static uint32_t rd32(const uint8_t* p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }

static void stream_parse(struct stream* s)
{
    while (!s->broken && s->len - s->parsed >= 11) {
        uint32_t l = rd32(s->buf + s->parsed + 4);
        if (l < 11 || l > (1u << 20)) { s->broken = 1; return; }
        if (s->len - s->parsed < l) return;
        if (s->qn == s->qcap) { s->qcap = s->qcap ? s->qcap * 2 : 16; s->q = __real_realloc(s->q, s->qcap * sizeof(*s->q)); }
        s->q[s->qn].start = s->parsed; s->q[s->qn].end = s->parsed + l; s->qn++;
        simnet_tap(s->to_server ? TAP_CSEND : TAP_SSEND, s->label, s->buf + s->parsed, l);
        s->parsed += l;
    }
}
static void stream_write(struct stream* s, const void* p, size_t n)
{
    if (s->len + n > s->cap) { s->cap = (s->len + n) * 2 + 256; s->buf = __real_realloc(s->buf, s->cap); }
    memcpy(s->buf + s->len, p, n);
    s->len += n;
    if (!g_cfg.seg) s->avail = s->len;
    stream_parse(s);
}
static void stream_consumed(struct stream* s)
{
    while (s->qrd < s->qn && s->q[s->qrd].end <= s->rd) {
        struct msgmark m = s->q[s->qrd++];
        simnet_tap(s->to_server ? TAP_SRECV : TAP_CRECV, s->label, s->buf + m.start, m.end - m.start);
    }
}
static int s_readable(struct stream* s) { return s->avail > s->rd || (s->wclosed && s->avail == s->len); }
static int s_eof(struct stream* s) { return s->wclosed && s->avail == s->len && s->rd == s->avail; }

/* ------------------------------------------------------- delivery (segmentation) */
static int net_work(void* p)
{
    (void)p;
    if (g_stop) return 1;
    for (struct stream* s = g_streams; s; s = s->next) if (s->avail < s->len) return 1;
    return 0;
}
static int net_main(void* p)
{
    (void)p;
    for (;;) {
        vs_block(net_work, NULL, "net-idle");
        if (g_stop) return 0;
        struct stream* c[128]; int n = 0;
        for (struct stream* s = g_streams; s && n < 128; s = s->next) if (s->avail < s->len) c[n++] = s;
        if (!n) continue;
        struct stream* s = c[vs_rand() % (uint32_t)n];
        size_t left = s->len - s->avail, k;
        if (g_cfg.seg == 2) k = 1;
        else if (g_cfg.seg == 3 && g_cfg.ncuts) { k = (size_t)g_cfg.cuts[s->cutidx % g_cfg.ncuts]; s->cutidx++; if (!k) k = 1; }
        else { uint32_t r = vs_rand(); k = (r & 3) == 0 ? left : 1 + (r >> 3) % (left < 24 ? left : 24); }
        if (k > left) k = left;
        s->avail += k;
        vs_point();
    }
}
void simnet_start(void) { if (g_cfg.seg) { g_net_tid = vs_spawn("net", net_main, NULL); vs_set_daemon(g_net_tid); } }
void simnet_stop(void) { g_stop = 1; if (g_net_tid >= 0) vs_join(g_net_tid); g_net_tid = -1; }

/* ------------------------------------------------------- helpers */
static int same_addr(const struct sockaddr_storage* a, socklen_t al, const struct sockaddr_storage* b, socklen_t bl)
{
    if (a->ss_family != b->ss_family) return 0;
    if (a->ss_family == AF_UNIX) {
        const struct sockaddr_un *x = (const void*)a, *y = (const void*)b;
        if (al <= 2 || bl <= 2) return 0;
        if (x->sun_path[0]) return strncmp(x->sun_path, y->sun_path, sizeof(x->sun_path)) == 0;
        return al == bl && memcmp(x, y, al) == 0; /* abstract names count every byte */
    }
    if (a->ss_family == AF_INET6) {
        const struct sockaddr_in6 *x = (const void*)a, *y = (const void*)b;
        return al >= sizeof(*x) && bl >= sizeof(*y) && x->sin6_port == y->sin6_port && !memcmp(&x->sin6_addr, &y->sin6_addr, 16);
    }
    const struct sockaddr_in *x = (const void*)a, *y = (const void*)b;
    return x->sin_port == y->sin_port && x->sin_addr.s_addr == y->sin_addr.s_addr;
}
static int addr_ok(const struct sockaddr_storage* a, socklen_t l)
{
    if (a->ss_family == AF_UNIX) return l >= sizeof(sa_family_t) && l <= sizeof(struct sockaddr_un);
    return l >= (a->ss_family == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in)) && l <= sizeof(struct sockaddr_storage);
}
static struct obj* find_bound(const struct sockaddr_storage* a, socklen_t al, int type)
{
    for (int i = 0; i < MAXFD; i++)
        if (g_fd[i] && g_fd[i]->kind == K_SOCK && g_fd[i]->bound && g_fd[i]->type == type && same_addr(&g_fd[i]->addr, g_fd[i]->addrlen, a, al))
            return g_fd[i];
    return NULL;
}
/* Addresses which the system picks differ in one bit, any bit, from the first one. */
static void vary(uint8_t** bytes, int n)
{
    int k = g_port++ - 40000;
    static const uint8_t bits[8] = { 1, 128, 4, 32, 2, 64, 8, 16 };
    if (k--) *bytes[(k + g_cfg.salt) % n] ^= bits[(k / n + g_cfg.salt / 64) % 8];
}
static uint32_t crc_of(const uint8_t* p, size_t n)
{
    uint32_t c = 0xffffffffu;
    while (n--) { c ^= *p++; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); }
    return ~c;
}
/* Addresses which are far from each other, while their checksums differ from the first one in one bit only. Checksums
 * are linear, so the bits of the address that make the difference come from a system of linear equations. */
static int resemble(uint8_t* a, size_t len, uint8_t** bytes, int n)
{
    int k = g_port - 40000;
    uint32_t want = 1u << ((unsigned)(g_cfg.salt / 3 + k * 11) % 32), zero, row[32] = { 0 };
    uint64_t use[32][3] = { { 0 } }, got[3] = { 0 };
    if (!k || g_cfg.salt % 3) return 0;
    zero = crc_of(a, len);
    for (int i = 0; i < 8 * n; i++) {
        uint32_t v; uint64_t u[3] = { 0 };
        *bytes[i / 8] ^= (uint8_t)(1 << i % 8); v = crc_of(a, len) ^ zero; *bytes[i / 8] ^= (uint8_t)(1 << i % 8);
        u[i / 64] |= 1ull << i % 64;
        for (int b = 31; b >= 0 && v; b--) if (v >> b & 1) {
            if (!row[b]) { row[b] = v; memcpy(use[b], u, sizeof(u)); break; }
            v ^= row[b]; for (int j = 0; j < 3; j++) u[j] ^= use[b][j];
        }
    }
    for (int b = 31; b >= 0; b--) if (want >> b & 1) {
        if (!row[b]) return 0;
        want ^= row[b]; for (int j = 0; j < 3; j++) got[j] ^= use[b][j];
    }
    for (int i = 0; i < 8 * n; i++) if (got[i / 64] >> i % 64 & 1) *bytes[i / 8] ^= (uint8_t)(1 << i % 8);
    g_port++;
    return 1;
}
static void autobind(struct obj* o)
{
    uint8_t* b[18]; int n = 0;
    if (o->bound) return;
    if (o->domain == AF_UNIX) return;
    memset(&o->addr, 0, sizeof(o->addr));
    if (o->domain == AF_INET6) {
        struct sockaddr_in6* s = (void*)&o->addr;
        s->sin6_family = AF_INET6; s->sin6_addr = in6addr_loopback; s->sin6_port = htons(40000);
        b[n++] = &s->sin6_addr.s6_addr[14]; b[n++] = (uint8_t*)&s->sin6_port; b[n++] = &s->sin6_addr.s6_addr[0]; b[n++] = &s->sin6_addr.s6_addr[11];
        b[n++] = (uint8_t*)&s->sin6_port + 1; b[n++] = &s->sin6_addr.s6_addr[13]; b[n++] = &s->sin6_addr.s6_addr[7];
        o->addrlen = sizeof(*s);
    } else {
        struct sockaddr_in* s = (void*)&o->addr;
        s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); s->sin_port = htons(40000);
        b[n++] = (uint8_t*)&s->sin_addr + 3; b[n++] = (uint8_t*)&s->sin_port; b[n++] = (uint8_t*)&s->sin_port + 1; b[n++] = (uint8_t*)&s->sin_addr + 1;
        o->addrlen = sizeof(*s);
    }
    uint8_t* all[18]; int m = 0; uint8_t* ad = o->domain == AF_INET6 ? (uint8_t*)&((struct sockaddr_in6*)&o->addr)->sin6_addr : (uint8_t*)&((struct sockaddr_in*)&o->addr)->sin_addr;
    all[m++] = (uint8_t*)&((struct sockaddr_in*)&o->addr)->sin_port; all[m] = all[m - 1] + 1; m++;
    for (int i = 1; i < (o->domain == AF_INET6 ? 16 : 4); i++) all[m++] = ad + i;
    if (!resemble((uint8_t*)&o->addr, o->addrlen, all, m) || find_bound(&o->addr, o->addrlen, o->type)) vary(b, n);
    o->bound = 1;
}
int simnet_label_of_fd(int fd) { struct obj* o = get(fd); return o ? o->label : -1; }
int simnet_fd_open(int fd) { return get(fd) != NULL; }
int simnet_open_count(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += g_fd[i] != NULL; return n; }
int simnet_open_count_role(int server)
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (g_fd[i] && (g_fd[i]->server_side || g_fd[i]->kind == K_EPOLL || g_fd[i]->listening || g_fd[i]->label < 0) == server) n++;
    return n;
}
size_t simnet_unread(int label, int to_server)
{
    size_t n = 0;
    for (struct stream* s = g_streams; s; s = s->next) if (s->label == label && s->to_server == to_server && !s->rclosed) n += s->len - s->rd;
    return n;
}
int simnet_peer_closed(int label)
{
    for (struct stream* s = g_streams; s; s = s->next) if (s->label == label && s->to_server == 0) return s->wclosed;
    return 0;
}
int simnet_dgram_label(const void* addr, size_t len)
{
    struct sockaddr_storage a; memset(&a, 0, sizeof(a)); memcpy(&a, addr, len < sizeof(a) ? len : sizeof(a));
    struct obj* o = find_bound(&a, (socklen_t)len, SOCK_DGRAM);
    return o ? o->label : -1;
}

/* ------------------------------------------------------- wrapped kernel calls */
int __wrap_socket(int domain, int type, int proto)
{
    (void)proto;
    struct obj* o = newobj(K_SOCK);
    o->domain = domain; o->type = type & 0xf; o->nonblock = (type & SOCK_NONBLOCK) != 0;
    o->label = t_label;
    return install(o);
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t l)
{
    struct obj* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    struct sockaddr_storage s; memset(&s, 0, sizeof(s)); memcpy(&s, a, l < sizeof(s) ? l : sizeof(s));
    if (!addr_ok(&s, l)) { errno = EINVAL; return -1; }
    if (o->bound) { errno = EINVAL; return -1; }
    if (o->domain == AF_UNIX && l == sizeof(sa_family_t)) { /* the system picks an abstract name */
        struct sockaddr_un* u = (void*)&s;
        uint8_t* b[5]; memcpy(u->sun_path + 1, "0a5c3", 5);
        b[0] = (uint8_t*)u->sun_path + 5; b[1] = (uint8_t*)u->sun_path + 1; b[2] = (uint8_t*)u->sun_path + 3; b[3] = (uint8_t*)u->sun_path + 2; b[4] = (uint8_t*)u->sun_path + 4;
        vary(b, 5);
        l = sizeof(sa_family_t) + 6;
    }
    if (find_bound(&s, l, o->type)) { errno = EADDRINUSE; return -1; }
    o->addr = s; o->addrlen = l; o->bound = 1;
    return 0;
}
int __wrap_listen(int fd, int n) { struct obj* o = get(fd); (void)n; if (!o) { errno = EBADF; return -1; } o->listening = 1; return 0; }

static int do_connect(struct obj* o, const struct sockaddr* a, socklen_t l)
{
    struct sockaddr_storage s; memset(&s, 0, sizeof(s)); memcpy(&s, a, l < sizeof(s) ? l : sizeof(s));
    struct obj* srv = find_bound(&s, l, o->type);
    if (!srv) { errno = ECONNREFUSED; return -1; }
    o->peer = s; o->peerlen = l; o->connected = 1;
    if (o->type == SOCK_DGRAM) { autobind(o); return 0; }
    if (!srv->listening || srv->nback >= 32) { errno = ECONNREFUSED; o->connected = 0; return -1; }
    struct obj* p = newobj(K_SOCK);
    p->type = SOCK_STREAM; p->domain = o->domain; p->server_side = 1; p->label = o->label; p->connected = 1;
    autobind(o); p->peer = o->addr; p->peerlen = o->addrlen;
    o->out = p->in = newstream(o->label, 1);
    o->in = p->out = newstream(o->label, 0);
    srv->backlog[srv->nback++] = p; srv->act++;
    return 0;
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l)
{
    struct obj* o = get(fd);
    vs_point();
    if (!o) { errno = EBADF; return -1; }
    int r = do_connect(o, a, l);
    vs_point();
    return r;
}
static int back_ready(void* p) { return ((struct obj*)p)->nback > 0; }
static int do_accept(int fd, struct sockaddr* a, socklen_t* l, int nb)
{
    struct obj* o = get(fd);
    vs_point();
    if (!o || !o->listening) { errno = o ? EINVAL : EBADF; return -1; }
    if (!o->nback) {
        if (nb || o->nonblock) { errno = EAGAIN; return -1; }
        vs_block(back_ready, o, "accept");
    }
    if (g_cfg.accept_fail_at && ++g_naccept == g_cfg.accept_fail_at) { errno = EMFILE; return -1; }
    struct obj* p = o->backlog[0];
    memmove(&o->backlog[0], &o->backlog[1], sizeof(o->backlog[0]) * (size_t)(--o->nback));
    int nfd = install(p);
    if (a && l) { socklen_t k = *l < p->peerlen ? *l : p->peerlen; memcpy(a, &p->peer, k); *l = p->peerlen; }
    simnet_note("Accept", p->label, nfd);
    vs_point();
    return nfd;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return do_accept(fd, a, l, 0); }
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { (void)fl; return do_accept(fd, a, l, 0); }

struct wspace { struct stream* s; size_t need; };
static size_t cap_of(struct stream* s) { return s->to_server && g_cfg.cap_down ? 1 << 20 : g_cfg.cap; }
static int space_ready(void* p) { struct wspace* w = p; return w->s->rclosed || w->s->len - w->s->rd + w->need <= cap_of(w->s); }

static long send_stream(struct obj* o, const void* p, size_t n, int flags)
{
    struct stream* s = o->out;
    if (!s) { errno = ENOTCONN; return -1; }
    size_t done = 0;
    if (n == 0) return 0;
    while (done < n) {
        if (s->rclosed) {
            if (done) return (long)done;
            if (!(flags & MSG_NOSIGNAL)) vs_fatal("SigPipe", o->server_side ? "server" : "client");
            errno = EPIPE; return -1;
        }
        size_t used = s->len - s->rd, room = used >= cap_of(s) ? 0 : cap_of(s) - used;
        size_t k = n - done;
        if (k > room) {
            if ((flags & MSG_DONTWAIT) || o->nonblock) {
                if (room && g_cfg.partial) k = room;
                else { if (done) return (long)done; errno = EAGAIN; return -1; }
            } else {
                if (room) k = room;
                else {
                    struct wspace w = { s, 1 };
                    if (interrupted()) { if (done) return (long)done; errno = EINTR; return -1; }
                    vs_block(space_ready, &w, "send");
                    continue;
                }
            }
        }
        if (k > cap_of(s)) k = cap_of(s);
        stream_write(s, (const uint8_t*)p + done, k);
        done += k;
        if (((flags & MSG_DONTWAIT) || o->nonblock) && done < n && g_cfg.partial) return (long)done;
    }
    return (long)done;
}
static int dg_room(void* p) { struct obj* d = p; return (d->label < 0 && g_cfg.cap_down) || d->dn < g_cfg.dgram_cap; }
static long send_dgram(struct obj* o, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t l)
{
    struct sockaddr_storage s; socklen_t sl;
    if (a && l) {
        memset(&s, 0, sizeof(s)); memcpy(&s, a, l < sizeof(s) ? l : sizeof(s)); sl = l;
        if (!addr_ok(&s, sl) || (s.ss_family == AF_UNIX && l <= sizeof(sa_family_t))) { errno = EINVAL; return -1; }
    }
    else if (o->connected) { s = o->peer; sl = o->peerlen; }
    else { errno = o->domain == AF_UNIX ? ENOTCONN : EDESTADDRREQ; return -1; }
    autobind(o);
    if (o->label >= 0 && o->label < 90 && g_cfg.send_fail_at && ++g_nsend % g_cfg.send_fail_at == 0) { errno = ENOBUFS; return -1; }
    struct obj* d = find_bound(&s, sl, SOCK_DGRAM);
    if (!d) { errno = ECONNREFUSED; return -1; }
    if (!dg_room(d)) {
        if (o->domain != AF_UNIX) return (long)n; /* dropped by the network */
        if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
        if (interrupted()) { errno = EINTR; return -1; }
        vs_block(dg_room, d, "send");
    }
    struct dgram* g = __real_calloc(1, sizeof(*g));
    g->data = __real_malloc(n ? n : 1); memcpy(g->data, p, n); g->len = n;
    if (o->bound) { g->from = o->addr; g->fromlen = o->addrlen; }
    g->to_server = d->label < 0;
    g->label = g->to_server ? o->label : d->label;
    struct dgram** q = &d->dq; while (*q) q = &(*q)->next; *q = g; d->dn++; d->act++;
    if (n >= 11) simnet_tap(g->to_server ? TAP_CSEND : TAP_SSEND, g->label, g->data, n);
    return (long)n;
}
ssize_t __wrap_sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t l)
{
    struct obj* o = get(fd);
    vs_point();
    if (!o || o->kind != K_SOCK) { simnet_note("BadFd", -1, fd); errno = EBADF; return -1; }
    if (vs_calm) return (ssize_t)n;
    long r = o->type == SOCK_STREAM ? send_stream(o, p, n, flags) : send_dgram(o, p, n, flags, a, l);
    int e = errno; vs_point(); errno = e;
    return r;
}
ssize_t __wrap_send(int fd, const void* p, size_t n, int flags) { return __wrap_sendto(fd, p, n, flags, NULL, 0); }
ssize_t __wrap_write(int fd, const void* p, size_t n) { return __wrap_sendto(fd, p, n, 0, NULL, 0); }

static int st_ready(void* p) { return s_readable((struct stream*)p); }
static long recv_stream(struct obj* o, void* p, size_t n, int flags)
{
    struct stream* s = o->in;
    int nb = (flags & MSG_DONTWAIT) || o->nonblock;
    if (!s) { errno = ENOTCONN; return -1; }
    if (n == 0) return 0;
    if (!nb && (flags & MSG_WAITALL) && !(flags & MSG_PEEK)) { /* room is made while it waits for the rest */
        size_t got = 0;
        while (got < n) {
            if (!s_readable(s)) {
                if (interrupted()) { if (got) return (long)got; errno = EINTR; return -1; }
                vs_block(st_ready, s, "recv");
            }
            size_t k = s->avail - s->rd < n - got ? s->avail - s->rd : n - got;
            if (!k) { if (got) break; if (s->rst) { s->rst = 0; errno = ECONNRESET; return -1; } return 0; }
            memcpy((uint8_t*)p + got, s->buf + s->rd, k);
            s->rd += k; got += k; stream_consumed(s);
        }
        return (long)got;
    }
    if (!nb && !s_readable(s)) {
        if (interrupted()) { errno = EINTR; return -1; }
        vs_block(st_ready, s, "recv");
    }
    size_t have = s->avail - s->rd;
    if (!have) {
        if (s_eof(s)) { if (s->rst) { s->rst = 0; errno = ECONNRESET; return -1; } return 0; }
        errno = EAGAIN; return -1;
    }
    size_t k = have < n ? have : n;
    memcpy(p, s->buf + s->rd, k);
    if (!(flags & MSG_PEEK)) { s->rd += k; stream_consumed(s); }
    return (long)k;
}
static __thread int g_cut; /* the last datagram was longer than the room for it */
static int dg_ready(void* p) { return ((struct obj*)p)->dq != NULL; }
static long recv_dgram(struct obj* o, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* l)
{
    if (!o->dq) {
        if ((flags & MSG_DONTWAIT) || o->nonblock) { errno = EAGAIN; return -1; }
        if (interrupted()) { errno = EINTR; return -1; }
        vs_block(dg_ready, o, "recv");
    }
    struct dgram* g = o->dq;
    size_t k = g->len < n ? g->len : n;
    memcpy(p, g->data, k);
    if (a && l) { socklen_t c = *l < g->fromlen ? *l : g->fromlen; if (c) memcpy(a, &g->from, c); *l = g->fromlen; }
    size_t ret = (flags & MSG_TRUNC) ? g->len : k;
    g_cut = g->len > n;
    if (!(flags & MSG_PEEK)) {
        o->dq = g->next; o->dn--;
        if (g->len >= 11) simnet_tap(g->to_server ? TAP_SRECV : TAP_CRECV, g->label, g->data, g->len);
        else simnet_note(g->to_server ? "SRunt" : "CRunt", g->label, o->fd);
        __real_free(g->data); __real_free(g);
    }
    return (long)ret;
}
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* l)
{
    struct obj* o = get(fd);
    vs_point();
    if (!o || o->kind != K_SOCK) { simnet_note("BadFd", -1, fd); errno = EBADF; return -1; }
    /* like the kernel, never write past what the caller owns: touch the whole range
     * first so that a bad length is seen by the sanitizer and not by simulated luck */
    if (vs_calm) { errno = EAGAIN; return -1; }
    long r = o->type == SOCK_STREAM ? recv_stream(o, p, n, flags) : recv_dgram(o, p, n, flags, a, l);
    int e = errno; vs_point(); errno = e;
    return r;
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int flags) { return __wrap_recvfrom(fd, p, n, flags, NULL, NULL); }
ssize_t __wrap_read(int fd, void* p, size_t n) { return __wrap_recvfrom(fd, p, n, 0, NULL, NULL); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int flags)
{
    size_t n = 0, o = 0; for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len;
    uint8_t* b = __real_malloc(n ? n : 1);
    for (size_t i = 0; i < m->msg_iovlen; i++) { memcpy(b + o, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); o += m->msg_iov[i].iov_len; }
    ssize_t r = __wrap_sendto(fd, b, n, flags, m->msg_name, m->msg_name ? m->msg_namelen : 0);
    __real_free(b);
    return r;
}
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int flags)
{
    size_t n = 0, o = 0; for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len;
    uint8_t* b = __real_malloc(n ? n : 1);
    socklen_t l = m->msg_namelen;
    g_cut = 0;
    ssize_t r = __wrap_recvfrom(fd, b, n, flags, m->msg_name, m->msg_name ? &l : NULL);
    int e = errno;
    if (m->msg_name) m->msg_namelen = l;
    m->msg_flags = g_cut ? MSG_TRUNC : 0; m->msg_controllen = 0;
    for (size_t i = 0; r > 0 && i < m->msg_iovlen && o < (size_t)r; i++) {
        size_t k = m->msg_iov[i].iov_len < (size_t)r - o ? m->msg_iov[i].iov_len : (size_t)r - o;
        memcpy(m->msg_iov[i].iov_base, b + o, k); o += k;
    }
    __real_free(b);
    errno = e;
    return r;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { struct msghdr m = { .msg_iov = (struct iovec*)v, .msg_iovlen = (size_t)n }; return __wrap_sendmsg(fd, &m, 0); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { struct msghdr m = { .msg_iov = (struct iovec*)v, .msg_iovlen = (size_t)n }; return __wrap_recvmsg(fd, &m, 0); }
static void sock_shut_write(struct obj* o) { if (o->out) o->out->wclosed = 1; }
int __wrap_shutdown(int fd, int how)
{
    struct obj* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (how == SHUT_WR || how == SHUT_RDWR) sock_shut_write(o);
    return 0;
}
static int do_close(int fd)
{
    struct obj* o = get(fd);
    if (!o) { simnet_note("BadClose", -1, fd); errno = EBADF; return -1; }
    g_fd[fd - FD_BASE] = NULL;
    if (o->kind == K_SOCK) {
        if (o->type == SOCK_STREAM && o->connected) {
            if (o->in) { o->in->rclosed = 1; if (o->in->len > o->in->rd && o->out) o->out->rst = 1; }
            sock_shut_write(o);
            simnet_note(o->server_side ? "SClose" : "CClose", o->label, fd);
        } else if (o->listening) {
            simnet_note("LClose", -1, fd);
            for (int i = 0; i < o->nback; i++) { sock_shut_write(o->backlog[i]); o->backlog[i]->in->rclosed = 1; }
        } else simnet_note(o->label < 0 ? "LClose" : "CClose", o->label, fd);
        o->bound = 0;
    } else simnet_note("EClose", -1, fd);
    for (int i = 0; i < MAXFD; i++)
        if (g_fd[i] && g_fd[i]->kind == K_EPOLL)
            for (int j = 0; j < g_fd[i]->nep; j++)
                if (g_fd[i]->ep[j].fd == fd) { g_fd[i]->ep[j] = g_fd[i]->ep[--g_fd[i]->nep]; j--; }
    o->fd = -1;
    return 0;
}
int __wrap_close(int fd) { vs_point(); int r = do_close(fd); int e = errno; vs_point(); errno = e; return r; }

int __wrap_epoll_create1(int fl) { (void)fl; return install(newobj(K_EPOLL)); }
int __wrap_epoll_create(int n) { (void)n; return install(newobj(K_EPOLL)); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev)
{
    struct obj* o = get(ep);
    if (!o || o->kind != K_EPOLL || !get(fd)) { errno = EBADF; return -1; }
    int j; for (j = 0; j < o->nep && o->ep[j].fd != fd; j++) {}
    if (op == EPOLL_CTL_ADD) {
        if (j < o->nep) { errno = EEXIST; return -1; }
        if (j >= 64) { errno = ENOSPC; return -1; }
        o->ep[j].fd = fd; o->ep[j].ev = ev->events; o->ep[j].data = ev->data; o->ep[j].seen = 0; o->nep++;
    } else {
        if (j == o->nep) { errno = ENOENT; return -1; }
        if (op == EPOLL_CTL_DEL) o->ep[j] = o->ep[--o->nep];
        else { o->ep[j].ev = ev->events; o->ep[j].data = ev->data; }
    }
    return 0;
}
static unsigned long activity(int fd)
{
    struct obj* o = get(fd);
    if (!o) return 0;
    return o->act + (o->in ? o->in->avail + (unsigned long)(o->in->wclosed && o->in->avail == o->in->len) : 0) + 1;
}
static uint32_t ep_events(struct obj* o, int j);
static uint32_t fd_events(int fd)
{
    struct obj* o = get(fd); uint32_t e = 0;
    if (!o) return 0;
    if (o->listening) return o->nback ? EPOLLIN : 0;
    if (o->type == SOCK_DGRAM) return o->dq ? EPOLLIN | EPOLLOUT : EPOLLOUT;
    if (o->in) {
        if (s_readable(o->in)) e |= EPOLLIN;
        if (o->in->wclosed && o->in->avail == o->in->len) { e |= EPOLLRDHUP; if (o->out && o->out->rclosed) e |= EPOLLHUP; if (o->in->rst) e |= EPOLLERR; }
    }
    return e | EPOLLOUT;
}
static int ep_ready(void* p)
{
    struct obj* o = p;
    for (int j = 0; j < o->nep; j++) if (ep_events(o, j)) return 1;
    return 0;
}
static uint32_t ep_events(struct obj* o, int j)
{
    if (!o->ep[j].ev) return 0;
    if ((o->ep[j].ev & EPOLLET) && activity(o->ep[j].fd) == o->ep[j].seen) return 0;
    return fd_events(o->ep[j].fd) & (o->ep[j].ev | EPOLLHUP | EPOLLERR);
}
int __wrap_epoll_wait(int ep, struct epoll_event* evs, int max, int timeout)
{
    struct obj* o = get(ep);
    vs_point();
    if (!o || o->kind != K_EPOLL) { errno = EBADF; return -1; }
    simnet_note("Poll", -1, ep);
    if (!ep_ready(o)) {
        if (timeout >= 0) { vs_yield(); if (!ep_ready(o)) return 0; }
        else {
            if (interrupted()) { errno = EINTR; return -1; }
            vs_block(ep_ready, o, "epoll");
        }
    }
    int n = 0, start = o->nep ? (int)(vs_rand() % (uint32_t)o->nep) : 0;
    for (int i = 0; i < o->nep && n < max; i++) {
        int j = (start + i) % o->nep;
        uint32_t e = ep_events(o, j);
        if (!e) continue;
        o->ep[j].seen = activity(o->ep[j].fd);
        if (o->ep[j].ev & EPOLLONESHOT) o->ep[j].ev = 0;
        evs[n].events = e; evs[n].data = o->ep[j].data; n++;
    }
    simnet_note("Wake", -1, n);
    vs_point();
    return n;
}
int __wrap_epoll_pwait(int ep, struct epoll_event* evs, int max, int timeout, const sigset_t* m) { (void)m; return __wrap_epoll_wait(ep, evs, max, timeout); }
struct polled { struct pollfd* p; nfds_t n; };
static int poll_scan(struct polled* q)
{
    int n = 0;
    for (nfds_t i = 0; i < q->n; i++) {
        struct obj* o = q->p[i].fd < 0 ? NULL : get(q->p[i].fd);
        short want = (short)(q->p[i].events | POLLHUP | POLLERR), r = 0;
        if (q->p[i].fd >= 0) {
            uint32_t e = o && o->kind == K_SOCK ? fd_events(q->p[i].fd) : 0;
            if (!o) r = POLLNVAL;
            else if (o->kind == K_EPOLL) r = ep_ready(o) ? POLLIN : 0;
            else r = (short)((e & EPOLLIN ? POLLIN : 0) | (e & EPOLLOUT ? POLLOUT : 0) | (e & EPOLLRDHUP ? 0x2000 /* POLLRDHUP */ : 0) | (e & EPOLLHUP ? POLLHUP : 0) | (e & EPOLLERR ? POLLERR : 0));
            if (o) r &= want;
        }
        q->p[i].revents = r; n += r != 0;
    }
    return n;
}
static int poll_ready(void* p) { return poll_scan(p) > 0; }
int __wrap_poll(struct pollfd* p, nfds_t n, int timeout)
{
    struct polled q = { p, n };
    vs_point();
    if (!poll_scan(&q)) {
        if (timeout >= 0) vs_yield();
        else vs_block(poll_ready, &q, "poll");
    }
    n = (nfds_t)poll_scan(&q);
    vs_point();
    return (int)n;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    struct obj* o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (o->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { o->nonblock = (a & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int __wrap_setsockopt(int fd, int a, int b, const void* c, socklen_t d) { (void)a; (void)b; (void)c; (void)d; if (!get(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_getsockopt(int fd, int a, int b, void* c, socklen_t* d) { (void)a; (void)b; if (!get(fd)) { errno = EBADF; return -1; } if (c && d && *d >= sizeof(int)) *(int*)c = 0; return 0; }
int __wrap_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    struct obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
    socklen_t k = *l < o->addrlen ? *l : o->addrlen; memcpy(a, &o->addr, k); *l = o->addrlen; return 0;
}
int __wrap_getpeername(int fd, struct sockaddr* a, socklen_t* l)
{
    struct obj* o = get(fd); if (!o) { errno = EBADF; return -1; }
    socklen_t k = *l < o->peerlen ? *l : o->peerlen; memcpy(a, &o->peer, k); *l = o->peerlen; return 0;
}

/* ------------------------------------------------------- raw endpoints */
int simnet_raw_connect(int label, const void* addr, size_t len, int stream)
{
    int old = t_label; t_label = label;
    int fd = __wrap_socket(((const struct sockaddr*)addr)->sa_family, stream ? SOCK_STREAM : SOCK_DGRAM, 0);
    t_label = old;
    if (!stream && ((const struct sockaddr*)addr)->sa_family == AF_UNIX) {
        struct sockaddr self = { .sa_family = AF_UNIX };
        __wrap_bind(fd, &self, sizeof(self.sa_family));
    }
    if (do_connect(get(fd), addr, (socklen_t)len)) { do_close(fd); return -1; }
    vs_point();
    return fd;
}
long simnet_raw_send(int fd, const void* p, size_t n) { t_masked++; long r = __wrap_sendto(fd, p, n, MSG_NOSIGNAL, NULL, 0); int e = errno; t_masked--; errno = e; return r; }
long simnet_raw_recv(int fd, void* p, size_t n, int block) { t_masked++; long r = __wrap_recvfrom(fd, p, n, block ? 0 : MSG_DONTWAIT, NULL, NULL); int e = errno; t_masked--; errno = e; return r; }
int  simnet_is_conn(int fd) { struct obj* o = get(fd); return o && o->kind == K_SOCK && o->type == SOCK_STREAM && !o->listening; }
void simnet_mask(int on) { t_masked += on ? 1 : -1; }
void simnet_raw_close(int fd) { __wrap_close(fd); }
int  simnet_raw_eof(int fd) { struct obj* o = get(fd); return !o || (o->in && o->in->wclosed && o->in->avail == o->in->len && o->in->rd == o->in->avail); }
int  simnet_raw_listen(const void* addr, size_t len, int stream)
{
    int old = t_label; t_label = -1;
    int fd = __wrap_socket(((const struct sockaddr*)addr)->sa_family, stream ? SOCK_STREAM : SOCK_DGRAM, 0);
    t_label = old;
    if (__wrap_bind(fd, addr, (socklen_t)len)) return -1;
    if (stream) __wrap_listen(fd, 8);
    return fd;
}
int  simnet_raw_accept(int fd) { return do_accept(fd, NULL, NULL, 0); }
