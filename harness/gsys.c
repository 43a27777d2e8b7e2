/* The whole library - server with its main loop, links, clients, generated stubs - over the simulated
 * kernel and scheduler. One scenario per input line:
 *
 *   run <id> <seed> key=value ...;C<label> <type> op op op / op op / ...;B op op;...
 *
 * keys   w workers, max message size, cmax client message size, seg/cap/partial network, dg datagram room,
 *        accf n-th accept fails, mem memory points, lossy (events may be refused by the network), nod no deferring
 * type   us unix stream, is inet stream, ud unix datagram, id inet datagram, R<type> raw peer
 * ops    c<svc>:<kind>:<len> call   k<svc>:<kind>:<len> cast   (svc a b z, u unknown service, v unknown action)
 *        a<mode>:<i>,<j> await (y any, l all, Y any async, L all async)   w<i> wait for call   p pump   M pump for ever
 *        r<i> result   s<sid> subscribe   u<sid> unsubscribe   y yield   q until quiet   x shut down
 *        h<hex> raw bytes   X close raw
 *   With rs=1 the server is played by the harness: S<label> gives what it does on the connection of that client
 *        g read a request   A<i> answer the i-th request read   h<hex> raw bytes   ! what was sent is malformed   X close
 *        b<sid>:<len> broadcast   t<label>:<len> event for one client   S request shutdown
 * What happens is written as NDJSON events, see spec/Rpc.tla. */
#define _GNU_SOURCE
#include "hcommon.h"
#include "vsched.h"
#include "simnet.h"
#include "gracht/server.h"
#include "gracht/client.h"
#include "gracht/link/socket.h"
#include "v_a_service_server.h"
#include "v_a_service_client.h"
#include "v_b_service_server.h"
#include "v_b_service_client.h"
#include "v_z_service_server.h"
#include "v_z_service_client.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <sys/un.h>

extern int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
extern int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int);
extern int gracht_server_send_event(gracht_server_t*, gracht_conn_t, gracht_buffer_t*, unsigned int);

#define MAXC   10
#define MAXCALL 400
#define SELF vs_self()
struct call { uint32_t tag; struct gracht_message_context* ctx; int sync; char svc; };
struct cl {
    int used, label, raw, rawfd, alive, nthreads, ctid;
    char type[4];
    char* prog[4];
    gracht_client_t* client;
    struct call calls[MAXCALL]; int ncalls;
    int tids[4]; int seq;
};
static struct cl g_c[MAXC];
static int g_nc;
static gracht_server_t* g_server;
static int g_reuse, g_v6; /* version of the internet */
static int g_ext = -1;
extern int __wrap_epoll_create1(int);
extern int __wrap_epoll_wait(int, struct epoll_event*, int, int);
extern int __wrap_close(int);
static int g_polled, g_loop_done, g_shut, g_workers, g_max, g_cmax, g_nod, g_rb;
static int g_handle[100]; static uint8_t g_hknown[100];
static int g_released, g_nextn, g_zreg;
static int t_lastacc[64], t_lastsr[64];
static char* g_bprog[2]; static int g_nb;
static int g_svc_types; /* bit per link type */

static uint32_t digest(const uint8_t* p, size_t n)
{
    uint32_t h = 2166136261u;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 16777619u; }
    h ^= (uint32_t)n * 2654435761u;
    return h & 0x3fffffff;
}
static void pattern(uint8_t* p, uint32_t tag, size_t n)
{
    uint64_t s = tag * 0x9E3779B97F4A7C15ull + n;
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(h_mix(&s) >> 24);
}
static uint32_t rd32(const uint8_t* p) { uint32_t v; memcpy(&v, p, 4); return v; }

/* ---------------------------------------------------------------- what the network sees */
void simnet_tap(enum simnet_dir dir, int c, const uint8_t* m, size_t len)
{
    static const char* nm[] = { "CS", "SR", "SS", "CR" };
    uint32_t id = rd32(m), sid = m[8], aid = m[9], ty = m[10] & 3;
    long k = 0; uint32_t d = 0; long dl = -1;
    if (sid == 0) {
        if (dir == TAP_CSEND || dir == TAP_SRECV) k = len > 11 ? m[11] : -1;
        else if (len >= 15) k = rd32(m + 11);
    } else {
        size_t off = ty == 0 || ty == 1 ? 19 : 15;
        if (len >= 15) k = rd32(m + 11);
        if (len >= off + 4) { uint32_t cnt = rd32(m + off); if (off + 4 + cnt <= len) { dl = cnt; d = digest(m + off + 4, cnt); } }
    }
    if (dir == TAP_SRECV && SELF >= 0) t_lastsr[SELF] = c;
    ev("{\"e\":\"%s\",\"t\":%d,\"c\":%d,\"id\":%u,\"sid\":%u,\"aid\":%u,\"ty\":%u,\"k\":%ld,\"ln\":%ld,\"d\":%u,\"sz\":%zu,\"hl\":%u}",
       nm[dir], SELF, c, id & 0x7fffffff, sid, aid, ty, k & 0x7fffffff, dl, d, len, rd32(m + 4) > 0x7fffffff ? 0x7fffffff : rd32(m + 4));
}
void simnet_note(const char* what, int label, int fd)
{
    if (label >= 90) return;
    if (!strcmp(what, "Accept")) {
        if (SELF >= 0) t_lastacc[SELF] = label;
        ev("{\"e\":\"Acc\",\"t\":%d,\"c\":%d,\"h\":%d}", SELF, label, fd);
    }
    else if (!strcmp(what, "SClose")) ev("{\"e\":\"SCl\",\"t\":%d,\"c\":%d}", SELF, label);
    else if (!strcmp(what, "CClose")) ev("{\"e\":\"CCl\",\"t\":%d,\"c\":%d}", SELF, label);
    else if (!strcmp(what, "LClose")) ev("{\"e\":\"LCl\",\"t\":%d}", SELF);
    else if (!strcmp(what, "EClose")) ev("{\"e\":\"ECl\",\"t\":%d}", SELF);
    else if (!strcmp(what, "Poll")) g_polled = 1, ev("{\"e\":\"Poll\",\"t\":%d}", SELF);
    else if (!strcmp(what, "Intr")) ev("{\"e\":\"Intr\",\"t\":%d}", SELF);
    else if (!strcmp(what, "Wake")) ev("{\"e\":\"Wake\",\"t\":%d,\"n\":%d}", SELF, fd);
    else if (!strcmp(what, "SRunt") || !strcmp(what, "CRunt")) ev("{\"e\":\"Runt\",\"t\":%d,\"c\":%d}", SELF, label);
    else ev("{\"e\":\"%s\",\"t\":%d,\"fd\":%d}", what, SELF, fd);
}

/* ---------------------------------------------------------------- server side */
static int g_stale[100]; /* the handle of this label belongs to somebody else by now */
static int label_of_handle(int h) { for (int i = 0; i < 90; i++) if (g_hknown[i] && !g_stale[i] && g_handle[i] == h) return i; return -1; }
static void learn_reused(int label, int h) { g_hknown[label] = 1; g_handle[label] = h; }
static void learn(int label, int h)
{
    if (label < 0 || label >= 90 || g_hknown[label] || label_of_handle(h) >= 0) return;
    g_hknown[label] = 1; g_handle[label] = h;
}
static void on_connected(gracht_conn_t h)
{
    int c = label_of_handle(h);
    if (g_reuse && c >= 0) { /* the number has a new owner */
        int a = t_lastacc[SELF];
        if (a >= 0 && !g_hknown[a]) { g_stale[c] = 1; learn_reused(a, h); c = a; }
    }
    if (c < 0) {
        int a = t_lastacc[SELF], s = t_lastsr[SELF];
        if (a >= 0 && !g_hknown[a]) learn(a, h); else learn(s, h);
        c = label_of_handle(h);
    }
    ev("{\"e\":\"CbC\",\"t\":%d,\"c\":%d}", SELF, c);
    vs_point();
}
static void on_disconnected(gracht_conn_t h)
{
    ev("{\"e\":\"CbD\",\"t\":%d,\"c\":%d}", SELF, label_of_handle(h));
    vs_point();
}
struct deferred { struct gracht_message* m; char svc; uint32_t tag, kind; struct deferred* next; };
static struct deferred* g_def; static int g_ndef, g_defstop;

static uint32_t g_rmul = 1; /* answers are this much longer than requests can tell */
static void respond1(struct gracht_message* m, char svc, uint32_t tag, uint32_t kind, uint32_t salt)
{
    static __thread uint8_t b[70000];
    uint32_t n = (kind >> 16) * g_rmul, rt = (tag ^ 0x20000000u) + salt * 0x1000000u; int r;
    pattern(b, rt, n);
    ev("{\"e\":\"RB\",\"t\":%d,\"tag\":%u,\"rt\":%u,\"ln\":%u,\"d\":%u}", SELF, tag, rt, n, digest(b, n));
    r = svc == 'a' ? v_a_echo_response(m, rt, b, n) : svc == 'b' ? v_b_echo_response(m, rt, b, n) : v_z_echo_response(m, rt, b, n);
    ev("{\"e\":\"RR\",\"t\":%d,\"tag\":%u,\"r\":%d}", SELF, tag, r);
}
static uint32_t mkevent(gracht_buffer_t* b, int sid, uint32_t n, const uint8_t* data, uint32_t len)
{
    memset(b->data, 0, 11); b->data[8] = (char)sid; b->data[9] = 3; b->data[10] = MESSAGE_FLAG_EVENT;
    memcpy(b->data + 11, &n, 4); memcpy(b->data + 15, &len, 4); memcpy(b->data + 19, data, len);
    return b->index = 19 + len;
}
static void broadcast(int sid, uint32_t len)
{
    static __thread uint8_t b[70000]; uint32_t n = (uint32_t)++g_nextn; int r = 0;
    pattern(b, n, len);
    ev("{\"e\":\"BB\",\"t\":%d,\"n\":%u,\"sid\":%d,\"ln\":%u,\"d\":%u}", SELF, n, sid, len, digest(b, len));
    if (sid == 1) r = v_a_event_note_all(g_server, n, b, len);
    else if (sid == 40) r = v_b_event_note_all(g_server, n, b, len);
    else if (sid == 254) r = v_z_event_note_all(g_server, n, b, len);
    else {
        gracht_buffer_t g;
        if (!gracht_server_get_buffer(g_server, &g)) { mkevent(&g, sid, n, b, len); r = gracht_server_broadcast_event(g_server, &g, 0); }
    }
    ev("{\"e\":\"BE\",\"t\":%d,\"n\":%u,\"r\":%d}", SELF, n, r);
}
static void single(int c, uint32_t len)
{
    static __thread uint8_t b[70000]; uint32_t n; int r, sid = (c & 1) ? 1 : 40;
    if (c < 0 || c >= 90 || !g_hknown[c] || g_stale[c]) return;
    n = (uint32_t)++g_nextn;
    pattern(b, n, len);
    ev("{\"e\":\"TB\",\"t\":%d,\"n\":%u,\"c\":%d,\"sid\":%d,\"ln\":%u,\"d\":%u}", SELF, n, c, sid, len, digest(b, len));
    r = sid == 1 ? v_a_event_note_single(g_server, g_handle[c], n, b, len) : v_b_event_note_single(g_server, g_handle[c], n, b, len);
    ev("{\"e\":\"TE\",\"t\":%d,\"n\":%u,\"r\":%d}", SELF, n, r);
}
static int released(void* p) { (void)p; return g_released; }
static void handle(struct gracht_message* m, char svc, int sync, uint32_t tag, uint32_t kind, const uint8_t* data, uint32_t count)
{
    int c = label_of_handle(m->client), own = (int)(tag / 10000) % 100;
    if (g_reuse && own < 90 && g_hknown[own] && g_handle[own] == m->client) c = own;
    if (c < 0) { learn((int)(tag / 10000) % 100, m->client); c = label_of_handle(m->client); }
    ev("{\"e\":\"Inv\",\"t\":%d,\"c\":%d,\"tag\":%u,\"svc\":%d,\"sy\":%d,\"kd\":%u,\"ln\":%u,\"d\":%u}", SELF, c, tag & 0x7fffffff,
       svc == 'a' ? 1 : svc == 'b' ? 40 : 254, sync, kind & 0x7fffffff, count, digest(data, count));
    int arg = (int)(kind >> 8) & 0xff, answer = sync;
    switch (kind & 0xff) {
    case 1: if (!sync || g_nod) break;
        {
            struct deferred* d = h_malloc(sizeof(*d));
            d->m = h_malloc(GRACHT_MESSAGE_DEFERRABLE_SIZE(m));
            gracht_server_defer_message(m, d->m);
            d->svc = svc; d->tag = tag; d->kind = kind; d->next = g_def; g_def = d; g_ndef++;
            ev("{\"e\":\"Defer\",\"t\":%d,\"tag\":%u}", SELF, tag);
            answer = 0;
        }
        break;
    case 2: ev("{\"e\":\"Never\",\"t\":%d,\"tag\":%u}", SELF, tag & 0x7fffffff); answer = 0; break;
    case 3: broadcast(arg, kind >> 16 & 0x3f); break;
    case 4: single(c, kind >> 16 & 0x3f); break;
    case 5: single(arg, kind >> 16 & 0x3f); break;
    case 6:
        if (g_shut) break;
        g_shut = 1;
        ev("{\"e\":\"Shut\",\"t\":%d}", SELF);
        gracht_server_request_shutdown(g_server);
        ev("{\"e\":\"ShutR\",\"t\":%d}", SELF);
        break;
    case 7: if (!g_released) { ev("{\"e\":\"Hold\",\"t\":%d}", SELF); vs_block(released, NULL, "held"); ev("{\"e\":\"Unhold\",\"t\":%d}", SELF); } break;
    case 8: g_released = 1; break;
    case 9:
        if (arg) {
            int r; ev("{\"e\":\"RegB\",\"t\":%d,\"on\":1}", SELF);
            r = gracht_server_register_protocol(g_server, &v_z_server_protocol);
            ev("{\"e\":\"RegE\",\"t\":%d,\"on\":1,\"r\":%d}", SELF, r);
        } else {
            ev("{\"e\":\"RegB\",\"t\":%d,\"on\":0}", SELF);
            gracht_server_unregister_protocol(g_server, &v_z_server_protocol);
            ev("{\"e\":\"RegE\",\"t\":%d,\"on\":0,\"r\":0}", SELF);
        }
        break;
    case 10: for (int i = 0; i < 3; i++) vs_yield(); break;
    }
    if (answer) respond1(m, svc, tag, kind, 0);
    if (answer && (kind & 0xff) == 12) respond1(m, svc, tag, kind, 1);
    ev("{\"e\":\"InvE\",\"t\":%d,\"tag\":%u}", SELF, tag & 0x7fffffff);
}
#define SVC(x, ch) \
void v_##x##_echo_invocation(struct gracht_message* m, const uint32_t tag, const uint32_t kind, const uint8_t* data, const uint32_t n) \
{ handle(m, ch, 1, tag, kind, data, n); } \
void v_##x##_cast_invocation(struct gracht_message* m, const uint32_t tag, const uint32_t kind, const uint8_t* data, const uint32_t n) \
{ handle(m, ch, 0, tag, kind, data, n); }
SVC(a, 'a') SVC(b, 'b') SVC(z, 'z')

static int def_ready(void* p) { (void)p; return g_def || g_defstop; }
static int deferrer(void* p)
{
    (void)p;
    for (;;) {
        if (!g_def) vs_block(def_ready, NULL, "deferred");
        if (!g_def && g_defstop) return 0;
        if (vs_rand() % 3) { vs_yield(); if (vs_rand() % 2 && !g_defstop) vs_yield(); }
        if (!g_def) continue;
        struct deferred** q = &g_def; int k = (int)(vs_rand() % (uint32_t)g_ndef);
        while (k-- && (*q)->next) q = &(*q)->next;
        struct deferred* d = *q; *q = d->next; g_ndef--;
        respond1(d->m, d->svc, d->tag, d->kind, 0);
        h_free(d->m); h_free(d);
    }
}
/* an application that waits for events on its own: it takes some of them, late, twice or without a reason */
static int ext_loop(void)
{
    struct epoll_event evs[32];
    for (;;) {
        int n = __wrap_epoll_wait(g_ext, evs, 1 + (int)(vs_rand() % 32), -1);
        for (int i = 0; i < n; i++) {
            int fd = evs[i].data.fd, x = simnet_is_conn(fd) ? (int)(vs_rand() % 8) : 7;
            if (x == 0 && gracht_server_handle_event(g_server, fd, 0) == -1 && errno == EPIPE) return 0;
            if (gracht_server_handle_event(g_server, fd, evs[i].events) == -1 && errno == EPIPE) return 0;
            if (x == 1 && gracht_server_handle_event(g_server, fd, evs[i].events) == -1 && errno == EPIPE) return 0;
            if (x == 2 && gracht_server_handle_event(g_server, 12345, EPOLLIN | EPOLLRDHUP) == -1 && errno == EPIPE) return 0;
        }
    }
}
static int loop(void* p)
{
    (void)p;
    int r = g_ext >= 0 ? ext_loop() : gracht_server_main_loop(g_server);
    g_loop_done = 1;
    ev("{\"e\":\"LoopR\",\"t\":%d,\"r\":%d}", SELF, r);
    return 0;
}
static void quiet(void) { vs_quiesce(); ev("{\"e\":\"Quiet\",\"t\":%d}", SELF); }
static int polled(void* p) { (void)p; return g_polled; }
static int casterp(void* p)
{
    char* sp = p;
    while (*sp) {
        while (*sp == ' ') sp++;
        if (!*sp) break;
        int a = 0, b = 0; char op = *sp;
        sscanf(sp + 1, "%d:%d", &a, &b);
        if (g_shut && (op == 'b' || op == 't')) break;
        if (op == 'b') broadcast(a, (uint32_t)b);
        else if (op == 't') single(a, (uint32_t)b);
        else if (op == 'y') vs_yield();
        else if (op == 'q') quiet();
        else if (op == 'S') { if (g_shut) break; if (!g_polled) vs_block(polled, NULL, "start"); if (g_shut) break; ev("{\"e\":\"Shut\",\"t\":%d}", SELF); g_shut = 1; gracht_server_request_shutdown(g_server); ev("{\"e\":\"ShutR\",\"t\":%d}", SELF); return 0; }
        while (*sp && *sp != ' ') sp++;
    }
    return 0;
}

/* ---------------------------------------------------------------- addresses */
static socklen_t addr_of(const char* type, struct sockaddr_storage* s)
{
    memset(s, 0, sizeof(*s));
    if (type[0] == 'u') {
        struct sockaddr_un* u = (void*)s;
        u->sun_family = AF_UNIX; strcpy(u->sun_path, type[1] == 's' ? "/sim/stream" : "/sim/dgram");
        return sizeof(*u);
    }
    if (g_v6) {
        struct sockaddr_in6* n = (void*)s;
        n->sin6_family = AF_INET6; n->sin6_port = htons(type[1] == 's' ? 5000 : 5001); n->sin6_addr = in6addr_loopback;
        return sizeof(*n);
    }
    struct sockaddr_in* n = (void*)s;
    n->sin_family = AF_INET; n->sin_port = htons(type[1] == 's' ? 5000 : 5001); n->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return sizeof(*n);
}
static struct gracht_link* mklink(const char* type, int listen)
{
    struct gracht_link_socket* l; struct sockaddr_storage s; socklen_t n = addr_of(type, &s);
    if (gracht_link_socket_create(&l)) return NULL;
    gracht_link_socket_set_type(l, type[1] == 's' ? gracht_link_stream_based : gracht_link_packet_based);
    gracht_link_socket_set_domain(l, type[0] == 'u' ? AF_UNIX : g_v6 ? AF_INET6 : AF_INET);
    gracht_link_socket_set_address(l, &s, n);
    gracht_link_socket_set_listen(l, listen);
    return (struct gracht_link*)l;
}

/* ---------------------------------------------------------------- client side */
static struct cl* cl_of(gracht_client_t* c) { for (int i = 0; i < g_nc; i++) if (g_c[i].client == c) return &g_c[i]; return NULL; }
static void on_note(gracht_client_t* c, int sid, uint32_t n, const uint8_t* data, uint32_t len)
{
    struct cl* x = cl_of(c);
    ev("{\"e\":\"Ev\",\"t\":%d,\"c\":%d,\"sid\":%d,\"n\":%u,\"ln\":%u,\"d\":%u}", SELF, x ? x->label : -1, sid, n & 0x7fffffff, len, digest(data, len));
    vs_point();
}
void v_a_event_note_invocation(gracht_client_t* c, const uint32_t n, const uint8_t* d, const uint32_t l) { on_note(c, 1, n, d, l); }
void v_b_event_note_invocation(gracht_client_t* c, const uint32_t n, const uint8_t* d, const uint32_t l) { on_note(c, 40, n, d, l); }
void v_z_event_note_invocation(gracht_client_t* c, const uint32_t n, const uint8_t* d, const uint32_t l) { on_note(c, 254, n, d, l); }
static void raw_note(gracht_client_t* c, gracht_buffer_t* b)
{
    uint8_t* p = (uint8_t*)b->data + b->index;
    on_note(c, p[-3], rd32(p), p + 8, rd32(p + 4));
}
static gracht_protocol_function_t g_rawfn[1] = { { 3, raw_note } };
static const int g_sids[] = { 2, 8, 31, 32, 33, 41, 72, 127, 128, 222, 223, 224, 253 };
static gracht_protocol_t g_rawp[13];

static uint32_t newtag(struct cl* x) { return 20000000u + (uint32_t)x->label * 10000u + (uint32_t)x->seq++; }
static int cl_errno(void) { return errno == EAGAIN ? 11 : errno == EBUSY ? 16 : errno == ENOENT ? 2 : errno == ENOMEM ? 12 : errno == EPIPE ? 32 : errno == ENODATA ? 61 : errno; }

static void op_call(struct cl* x, char* s)
{
    static __thread uint8_t b[70000];
    char op = s[0], svc = s[1]; unsigned kind = 0, len = 0; int r, sid;
    sscanf(s + 2, ":%u:%u", &kind, &len);
    if (!x->alive || x->ncalls >= MAXCALL) return;
    uint32_t tag = newtag(x); int sync = op == 'c';
    struct gracht_message_context* ctx = h_malloc(sizeof(*ctx));
    memset(ctx, 0, sizeof(*ctx));
    pattern(b, tag, len);
    sid = svc == 'a' ? 1 : svc == 'b' ? 40 : svc == 'z' ? 254 : svc == 'v' ? 1 : 99;
    ev("{\"e\":\"Call\",\"t\":%d,\"c\":%d,\"tag\":%u,\"sid\":%d,\"un\":%d,\"sy\":%d,\"kd\":%u,\"ln\":%u,\"d\":%u}", SELF, x->label, tag, sid,
       svc == 'u' || svc == 'v', sync, kind, len, digest(b, len));
    /* nobody has to keep an identity for a request that has no answer */
    struct gracht_message_context* cx = sync || tag % 3 ? ctx : NULL;
    switch (svc) {
    case 'a': r = sync ? v_a_echo(x->client, ctx, tag, kind, b, len) : v_a_cast(x->client, cx, tag, kind, b, len); break;
    case 'b': r = sync ? v_b_echo(x->client, ctx, tag, kind, b, len) : v_b_cast(x->client, cx, tag, kind, b, len); break;
    case 'z': r = sync ? v_z_echo(x->client, ctx, tag, kind, b, len) : v_z_cast(x->client, cx, tag, kind, b, len); break;
    default: {
            gracht_buffer_t g;
            r = gracht_client_get_buffer(x->client, &g);
            memset(g.data, 0, 11); g.data[8] = (char)sid; g.data[9] = svc == 'v' ? (char)(sync ? 77 : 250) : 1; g.data[10] = sync ? MESSAGE_FLAG_SYNC : MESSAGE_FLAG_ASYNC;
            memcpy(g.data + 11, &tag, 4); memcpy(g.data + 15, &kind, 4); memcpy(g.data + 19, &len, 4); memcpy(g.data + 23, b, len);
            g.index = 23 + len;
            r = gracht_client_invoke(x->client, cx, &g);
        }
    }
    ev("{\"e\":\"CallR\",\"t\":%d,\"c\":%d,\"tag\":%u,\"id\":%u,\"r\":%d}", SELF, x->label, tag, cx ? ctx->message_id & 0x7fffffff : 0x7fffffff, r);
    if (sync) { /* a call that failed is no call any more, and may be asked for like any other */ struct call* k = &x->calls[x->ncalls++]; k->tag = tag; k->ctx = ctx; k->sync = sync; k->svc = svc; }
    else h_free(ctx);
}
/* a call that has no identity can have no answer either: nothing is sent */
static void op_nocontext(struct cl* x, char svc)
{
    uint8_t b[4] = { 0 }; int r;
    if (!x->alive) return;
    ev("{\"e\":\"NcB\",\"t\":%d,\"c\":%d}", SELF, x->label);
    errno = 0;
    r = svc == 'b' ? v_b_echo(x->client, NULL, 1, 0, b, 4) : svc == 'z' ? v_z_echo(x->client, NULL, 1, 0, b, 4) : v_a_echo(x->client, NULL, 1, 0, b, 4);
    ev("{\"e\":\"NcE\",\"t\":%d,\"c\":%d,\"r\":%d,\"er\":%d}", SELF, x->label, r, r ? errno : 0);
}
/* The client has made n more calls. That they were made is all that matters: they do not reach the network. */
static void op_warp(struct cl* x, int n)
{
    if (!x->alive || x->nthreads > 1) return;
    vs_calm = 1;
    while (n-- > 0 && v_a_cast(x->client, NULL, 0, 0, NULL, 0) == 0) {}
    vs_calm = 0;
}
static void op_await(struct cl* x, char* s)
{
    struct gracht_message_context* cs[8]; int n = 0, ix[8]; unsigned flags = 0; char buf[160]; size_t o = 0;
    if (!x->ncalls || !x->alive) return;
    if (s[1] == 'l' || s[1] == 'L') flags |= GRACHT_AWAIT_ALL;
    if (s[1] == 'Y' || s[1] == 'L') flags |= GRACHT_AWAIT_ASYNC;
    for (char* p = s + 3; *p && *p != ' ' && n < 8; ) {
        int i = (int)strtol(p, &p, 10) % x->ncalls, dup = 0;
        for (int j = 0; j < n; j++) dup |= ix[j] == i;
        if (!dup) { ix[n] = i; cs[n++] = x->calls[i].ctx; }
        if (*p == ',') p++;
    }
    if (!n) return;
    buf[0] = 0;
    for (int i = 0; i < n; i++) o += (size_t)snprintf(buf + o, sizeof(buf) - o, "%s%u", i ? "," : "", x->calls[ix[i]].tag);
again:
    ev("{\"e\":\"AwB\",\"t\":%d,\"c\":%d,\"tags\":[%s],\"all\":%d,\"as\":%d}", SELF, x->label, buf, (flags & GRACHT_AWAIT_ALL) != 0, (flags & GRACHT_AWAIT_ASYNC) != 0);
    int r = n == 1 && (x->calls[ix[0]].tag & 1) ? gracht_client_await(x->client, cs[0], flags) : gracht_client_await_multiple(x->client, cs, n, flags);
    int e = r ? cl_errno() : 0;
    ev("{\"e\":\"AwE\",\"t\":%d,\"c\":%d,\"r\":%d,\"er\":%d}", SELF, x->label, r, e);
    if (r && e == EINTR && x->alive) goto again;
}
static int op_wait(struct cl* x, struct call* k, unsigned flags)
{
    if (!x->alive) return -1;
again:
    ev("{\"e\":\"WtB\",\"t\":%d,\"c\":%d,\"tag\":%u,\"bl\":%d}", SELF, x->label, k ? k->tag : 0, (flags & GRACHT_MESSAGE_BLOCK) != 0);
    errno = 0;
    int r = gracht_client_wait_message(x->client, k ? k->ctx : NULL, flags), e = r ? cl_errno() : 0;
    ev("{\"e\":\"WtE\",\"t\":%d,\"c\":%d,\"r\":%d,\"er\":%d}", SELF, x->label, r, e);
    if (r && e == EINTR && x->alive) goto again;
    return r ? -e - 1 : 0;
}
/* listens for as long as the connection lasts, and looks n times for messages which are not there yet before each */
static void op_listen(struct cl* x, int n)
{
    do {
        vs_calm = 1;
        for (int i = 0; i < n && x->alive; i++) if (gracht_client_wait_message(x->client, NULL, 0) == 0) break;
        vs_calm = 0;
    } while (x->alive && op_wait(x, NULL, GRACHT_MESSAGE_BLOCK) == 0);
}
static void op_result(struct cl* x, int i)
{
    uint8_t* b; uint32_t rt = 0xDEADBEEF; int r, e;
    if (!x->ncalls || !x->alive) return;
    struct call* k = &x->calls[i % x->ncalls];
    b = h_malloc(70000); memset(b, 0xEE, 70000);
    ev("{\"e\":\"RsB\",\"t\":%d,\"c\":%d,\"tag\":%u}", SELF, x->label, k->tag);
    errno = 0;
    switch (k->svc) {
    case 'b': r = v_b_echo_result(x->client, k->ctx, &rt, b, 70000); break;
    case 'z': r = v_z_echo_result(x->client, k->ctx, &rt, b, 70000); break;
    default:  r = v_a_echo_result(x->client, k->ctx, &rt, b, 70000);
    }
    e = r ? errno : 0;
    /* the length of the data is not handed out: it is known from the wire and looked up there */
    uint32_t n = 0; if (r == 0 && rt != 0xDEADBEEF) { for (n = 70000; n && b[n - 1] == 0xEE; n--) {} }
    int st = r == 0 ? (rt == 0xDEADBEEF ? 0 : 1) : (e == ENOENT ? -2 : -1);
    uint32_t dg = 0, want = n;
    /* bytes that happen to equal the filler at the end belong to the data as well: try the candidates */
    (void)want;
    extern uint32_t g_expect_len(uint32_t tag);
    if (st == 1) { uint32_t L = g_expect_len(k->tag); if (L >= n && L <= 70000) n = L; dg = digest(b, n); }
    ev("{\"e\":\"Rs\",\"t\":%d,\"c\":%d,\"tag\":%u,\"st\":%d,\"rt\":%u,\"ln\":%u,\"d\":%u}", SELF, x->label, k->tag, st, st == 1 ? rt & 0x7fffffff : 0, n, dg);
    h_free(b);
}
/* what length was asked for in the kind of that call */
static uint32_t g_len_of[MAXC * 10001 + 1];
uint32_t g_expect_len(uint32_t tag) { uint32_t i = tag - 20000000u; return i < sizeof(g_len_of) / 4 ? g_len_of[i] : 0; }

static void op_sub(struct cl* x, int sid, int un)
{
    gracht_buffer_t g; struct gracht_message_context own, *ctx = (sid + un + x->ncalls) % 2 ? &own : NULL; int r;
    if (!x->alive) return;
    ev("{\"e\":\"Sub\",\"t\":%d,\"c\":%d,\"sid\":%d,\"un\":%d}", SELF, x->label, sid, un);
    if (sid == 1) r = un ? v_a_unsubscribe(x->client, ctx) : v_a_subscribe(x->client, ctx);
    else if (sid == 40) r = un ? v_b_unsubscribe(x->client, ctx) : v_b_subscribe(x->client, ctx);
    else if (sid == 254) r = un ? v_z_unsubscribe(x->client, ctx) : v_z_subscribe(x->client, ctx);
    else {
        r = gracht_client_get_buffer(x->client, &g);
        memset(g.data, 0, 11); g.data[9] = (char)un; g.data[10] = MESSAGE_FLAG_ASYNC; g.data[11] = (char)sid; g.index = 12;
        r = gracht_client_invoke(x->client, ctx, &g);
    }
    ev("{\"e\":\"SubR\",\"t\":%d,\"c\":%d,\"r\":%d}", SELF, x->label, r);
}
static void cl_shutdown(struct cl* x)
{
    if (!x->alive) return;
    x->alive = 0;
    ev("{\"e\":\"CShut\",\"t\":%d,\"c\":%d}", SELF, x->label);
    gracht_client_shutdown(x->client);
    ev("{\"e\":\"CShutR\",\"t\":%d,\"c\":%d}", SELF, x->label);
    x->client = NULL;
}
static size_t unhex(const char* h, uint8_t* b, size_t max)
{
    size_t n = 0;
    while (h[0] && h[1] && h[0] != ' ' && n < max) {
        if (h[0] == '*') { /* *count filler bytes */ char* q; long k = strtol(h + 1, &q, 10); h = q; while (k-- > 0 && n < max) b[n++] = 0x41; if (*h == '.') h++; continue; }
        unsigned v; sscanf(h, "%2x", &v); b[n++] = (uint8_t)v; h += 2;
    }
    return n;
}
/* ---------------------------------------------------------------- a server of our own making */
extern ssize_t __wrap_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
extern int __wrap_close(int);
extern ssize_t __wrap_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
#define MAXREQ 64
struct rsconn { int fd, label, dg, tid; char* prog; uint8_t* req[MAXREQ]; size_t len[MAXREQ]; struct sockaddr_storage from[MAXREQ]; socklen_t fl[MAXREQ]; int n, lab[MAXREQ]; };
static struct rsconn g_rs[2 * MAXC + 4]; static int g_nrs; static char* g_rsprog[100];
static int g_rslfd[4];
static int g_rsrun;
static int rs_get(struct rsconn* k)
{
    static __thread uint8_t b[70000]; size_t n = 0;
    if (k->n >= MAXREQ) return -1;
    if (k->dg) {
        k->fl[k->n] = sizeof(k->from[0]);
        ssize_t r = __wrap_recvfrom(k->fd, b, sizeof(b), 0, (struct sockaddr*)&k->from[k->n], &k->fl[k->n]);
        if (r < 11) return -1;
        n = (size_t)r; k->lab[k->n] = simnet_dgram_label(&k->from[k->n], k->fl[k->n]);
    } else {
        while (n < 11 || n < rd32(b + 4)) {
            ssize_t r = __wrap_recvfrom(k->fd, b + n, n < 11 ? 11 - n : rd32(b + 4) - n, 0, NULL, NULL);
            if (r <= 0) return -1;
            n += (size_t)r;
        }
        k->lab[k->n] = k->label;
    }
    k->req[k->n] = h_malloc(n); memcpy(k->req[k->n], b, n); k->len[k->n] = n; k->n++;
    return 0;
}
static void rs_send(struct rsconn* k, int i, const uint8_t* b, size_t n)
{
    if (k->dg) { if (i >= 0) __wrap_sendto(k->fd, b, n, MSG_NOSIGNAL, (struct sockaddr*)&k->from[i], k->fl[i]); }
    else __wrap_sendto(k->fd, b, n, MSG_NOSIGNAL, NULL, 0);
}
static int rs_thread(void* p)
{
    static __thread uint8_t b[70000];
    struct rsconn* k = p; char* s = k->prog ? k->prog : "";
    while (*s) {
        while (*s == ' ') s++;
        if (!*s || k->fd < 0) break;
        switch (*s) {
        case 'g': if (rs_get(k)) return 0; break;
        case 'A': {
                if (!k->n) break;
                int i = atoi(s + 1) % k->n; uint8_t* q = k->req[i];
                if (q[8] == 0 || k->len[i] < 23 || (q[10] & 3) != 0) break;
                uint32_t rt = rd32(q + 11) ^ 0x20000000u, n = rd32(q + 15) >> 16, tot;
                memcpy(b, q, 11); b[10] = 3; pattern(b + 19, rt, n); memcpy(b + 11, &rt, 4); memcpy(b + 15, &n, 4);
                tot = 19 + n; memcpy(b + 4, &tot, 4);
                rs_send(k, i, b, tot);
            } break;
        case 'h': { size_t n = unhex(s + 1, b, sizeof(b)); rs_send(k, k->n - 1, b, n); } break;
        case '!': if (k->n || !k->dg) ev("{\"e\":\"Mal\",\"t\":%d,\"c\":%d}", SELF, k->dg ? k->lab[k->n - 1] : k->label); break;
        case 'y': vs_yield(); break;
        case 'q': quiet(); break;
        case 'X': if (!k->dg) { __wrap_close(k->fd); k->fd = -1; return 0; } break;
        }
        while (*s && *s != ' ') s++;
    }
    return 0;
}
static int rs_accept(void* p)
{
    int lfd = *(int*)p;
    for (;;) {
        int fd = simnet_raw_accept(lfd);
        if (fd < 0) continue;
        struct rsconn* k = &g_rs[g_nrs++];
        memset(k, 0, sizeof(*k)); k->fd = fd; k->label = simnet_label_of_fd(fd);
        if (k->label >= 90) return 0;
        if (!g_rsrun) { __wrap_close(fd); k->fd = -1; continue; }
        k->prog = g_rsprog[k->label];
        k->tid = vs_spawn("rawserver", rs_thread, k);
    }
    return 0;
}
struct targ { struct cl* x; int th; };
static struct targ g_targ[MAXC][4];
static int cl_thread(void* p)
{
    struct targ* a = p; struct cl* x = a->x;
    if (a->th == 0) {
        char* s = x->prog[0];
        while (*s == ' ') s++;
        /* what comes before the connection */
        while (*s == 'y' || *s == 'q') { if (*s == 'y') vs_yield(); else quiet(); s++; while (*s == ' ') s++; }
        x->prog[0] = s;
        simnet_set_label(x->label);
        if (x->raw) {
            struct sockaddr_storage sa; socklen_t n = addr_of(x->type, &sa);
            ev("{\"e\":\"Conn\",\"t\":%d,\"c\":%d,\"dg\":%d,\"raw\":1}", SELF, x->label, x->type[1] == 'd');
            x->rawfd = simnet_raw_connect(x->label, &sa, n, x->type[1] == 's');
            ev("{\"e\":\"ConnR\",\"t\":%d,\"c\":%d,\"r\":%d}", SELF, x->label, x->rawfd < 0 ? -1 : 0);
            if (x->rawfd < 0) return 0;
        } else {
            gracht_client_configuration_t cfg;
            gracht_client_configuration_init(&cfg);
            gracht_client_configuration_set_link(&cfg, mklink(x->type, 0));
            if (g_cmax) gracht_client_configuration_set_max_msg_size(&cfg, g_cmax);
            gracht_client_configuration_set_recv_buffer(&cfg, NULL, g_rb < 0 ? (g_cmax > 8192 ? 64 * (g_cmax + 512) : 1 << 19) : g_rb);
            if (gracht_client_create(&cfg, &x->client)) vs_fatal("Create", "client");
            ev("{\"e\":\"Conn\",\"t\":%d,\"c\":%d,\"dg\":%d,\"raw\":0}", SELF, x->label, x->type[1] == 'd');
            int r = gracht_client_connect(x->client);
            ev("{\"e\":\"ConnR\",\"t\":%d,\"c\":%d,\"r\":%d}", SELF, x->label, r);
            x->alive = 1;
            gracht_client_register_protocol(x->client, &v_a_client_protocol);
            gracht_client_register_protocol(x->client, &v_b_client_protocol);
            gracht_client_register_protocol(x->client, &v_z_client_protocol);
            for (int i = 0; i < 13; i++) gracht_client_register_protocol(x->client, &g_rawp[i]);
            if (r) { cl_shutdown(x); return 0; }
            for (int i = 1; i < x->nthreads; i++) { g_targ[x - g_c][i] = (struct targ){ x, i }; x->tids[i] = vs_spawn("client", cl_thread, &g_targ[x - g_c][i]); }
        }
    }
    char* s = x->prog[a->th];
    while (*s) {
        while (*s == ' ') s++;
        if (!*s || *s == '/') break;
        switch (*s) {
        case 'c': case 'k': {
                unsigned kind = 0; sscanf(s + 2, ":%u", &kind);
                uint32_t i = (uint32_t)x->label * 10000u + (uint32_t)x->seq;
                if (i < sizeof(g_len_of) / 4) g_len_of[i] = (kind >> 16) * g_rmul;
                op_call(x, s);
            } break;
        case 'W': op_warp(x, atoi(s + 1)); break;
        case 'n': op_nocontext(x, s[1]); break;
        case 'a': op_await(x, s); break;
        case 'w': if (x->ncalls) op_wait(x, &x->calls[atoi(s + 1) % x->ncalls], GRACHT_MESSAGE_BLOCK); break;
        case 'p': op_wait(x, NULL, 0); break;
        case 'M': op_listen(x, atoi(s + 1)); break;
        case 'r': op_result(x, atoi(s + 1)); break;
        case 's': op_sub(x, atoi(s + 1), 0); break;
        case 'u': op_sub(x, atoi(s + 1), 1); break;
        case 'y': vs_yield(); break;
        case 'q': quiet(); break;
        case 'x': cl_shutdown(x); break;
        case 'h': if (x->raw && x->rawfd >= 0) {
                static __thread uint8_t b[70000]; size_t n = unhex(s + 1, b, sizeof(b));
                ev("{\"e\":\"Raw\",\"t\":%d,\"c\":%d,\"n\":%zu}", SELF, x->label, n);
                simnet_raw_send(x->rawfd, b, n);
                ev("{\"e\":\"RawR\",\"t\":%d,\"c\":%d}", SELF, x->label);
            } break;
        case 'X': if (x->raw && x->rawfd >= 0) { simnet_raw_close(x->rawfd); x->rawfd = -1; } break;
        }
        while (*s && *s != ' ') s++;
    }
    return 0;
}
static long kv(const char* args, const char* k, long def)
{
    char pat[32]; snprintf(pat, sizeof(pat), " %s=", k);
    const char* p = strstr(args, pat);
    return p ? strtol(p + strlen(pat), NULL, 0) : def;
}
static void clients_done(void)
{
    for (int i = 0; i < g_nc; i++) {
        for (int j = 0; j < g_c[i].nthreads; j++) if (g_c[i].tids[j]) vs_join(g_c[i].tids[j]);
        if (g_c[i].rawfd >= 0) { simnet_raw_close(g_c[i].rawfd); g_c[i].rawfd = -1; }
        cl_shutdown(&g_c[i]);
        for (int j = 0; j < g_c[i].ncalls; j++) h_free(g_c[i].calls[j].ctx);
        g_c[i].ncalls = 0; g_c[i].nthreads = 0;
    }
}
static void run(int id, uint64_t seed, char* args, char* prog)
{
    struct vs_cfg cfg; struct simnet_cfg net; int loopt, deft, bt[2];
    memset(g_c, 0, sizeof(g_c)); g_nc = 0; g_nb = 0; g_bprog[0] = g_bprog[1] = NULL;
    memset(g_hknown, 0, sizeof(g_hknown)); memset(g_stale, 0, sizeof(g_stale)); g_reuse = (int)kv(args, "reuse", 0); g_v6 = (int)kv(args, "v6", (long)(seed * 2654435761u >> 20 & 1)); memset(g_rsprog, 0, sizeof(g_rsprog)); g_nrs = 0; g_rsrun = (int)kv(args, "rs", 0); memset(g_len_of, 0, sizeof(g_len_of));
    for (int i = 0; i < 64; i++) t_lastacc[i] = t_lastsr[i] = -1;
    g_polled = g_loop_done = g_shut = g_released = g_nextn = g_ndef = g_defstop = 0; g_def = NULL; g_svc_types = 0;
    g_rmul = (uint32_t)kv(args, "rmul", 1); g_workers = (int)kv(args, "w", 0); g_max = (int)kv(args, "max", 0); g_cmax = (int)kv(args, "cmax", 0); g_nod = (int)kv(args, "nod", 0); g_rb = (int)kv(args, "rb", -1);
    for (int i = 0; i < 13; i++) { gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)g_sids[i], "raw", 1, g_rawfn); g_rawp[i] = p; }
    for (char* s = prog; s; ) {
        char* nx = strchr(s, ';'); if (nx) *nx++ = 0;
        if (*s == 'C' && g_nc < MAXC) {
            struct cl* x = &g_c[g_nc++]; int off = 0; char ty[8] = "";
            sscanf(s + 1, "%d %7s%n", &x->label, ty, &off);
            x->used = 1; x->raw = ty[0] == 'R'; strncpy(x->type, x->raw ? ty + 1 : ty, 3); x->rawfd = -1;
            g_svc_types |= !strcmp(x->type, "us") ? 1 : !strcmp(x->type, "is") ? 2 : !strcmp(x->type, "ud") ? 4 : 8;
            char* q = s + 1 + off; x->nthreads = 0;
            while (q && x->nthreads < 4) { x->prog[x->nthreads++] = q; q = strchr(q, '/'); if (q) *q++ = 0; }
        } else if (*s == 'B' && g_nb < 2) g_bprog[g_nb++] = s + 1;
        else if (*s == 'S') { int l = 0, off = 0; sscanf(s + 1, "%d%n", &l, &off); if (l >= 0 && l < 100) g_rsprog[l] = s + 1 + off; }
        s = nx;
    }
    memset(&net, 0, sizeof(net));
    net.seg = (int)kv(args, "seg", 0); net.cap = (size_t)kv(args, "cap", 0); net.partial = (int)kv(args, "partial", 0);
    net.eintr = (int)kv(args, "eintr", 0);
    net.salt = (int)(seed * 2654435761u >> 8 & 1023);
    net.dgram_cap = (int)kv(args, "dg", 0); net.no_reuse = (int)kv(args, "reuse", 0) ? 0 : 1; net.accept_fail_at = (int)kv(args, "accf", 0); net.send_fail_at = (int)kv(args, "snf", 0); net.cap_down = (int)kv(args, "lossy", 0);
    if (net.seg == 3) {
        const char* p = strstr(args, " cuts="); net.ncuts = 0;
        if (p) { p += 6; while (*p && *p != ' ' && net.ncuts < 64) { net.cuts[net.ncuts++] = (int)strtol(p, (char**)&p, 10); if (*p == ',') p++; else break; } }
        if (!net.ncuts) net.seg = 1;
    }
    vs_plan(&cfg, seed, (int)kv(args, "mem", 1));
    ev("{\"e\":\"Run\",\"t\":0,\"run\":%d,\"seed\":%llu,\"st\":%d,\"lossy\":%ld,\"nc\":%d,\"cap\":%d,\"max\":%d,\"rs\":%ld,\"cmax\":%d,\"sf\":%d,\"rb\":%d}", id, (unsigned long long)seed, g_workers <= 1, kv(args, "lossy", 0), g_nc, net.cap != 0, g_max ? g_max : 2048, kv(args, "rs", 0), g_cmax ? g_cmax : 2048, net.send_fail_at != 0, g_rb >= 0);
    vs_alloc_reset();
    simnet_reset(&net);
    vs_begin(&cfg);
    simnet_set_label(-1);
    simnet_start();

    static const char* types[] = { "us", "is", "ud", "id" };
    if (!g_svc_types) g_svc_types = 1;
    if (g_rsrun) {
        int at[4] = { 0 };
        for (int i = 0; i < 4; i++) if (g_svc_types & (1 << i)) {
            struct sockaddr_storage sa; socklen_t n = addr_of(types[i], &sa);
            g_rslfd[i] = simnet_raw_listen(&sa, n, types[i][1] == 's');
            if (types[i][1] == 's') at[i] = vs_spawn("rawaccept", rs_accept, &g_rslfd[i]);
            else { struct rsconn* k = &g_rs[2 * MAXC + i]; memset(k, 0, sizeof(*k)); k->fd = g_rslfd[i]; k->dg = 1; k->prog = g_rsprog[90 + i]; k->tid = vs_spawn("rawserver", rs_thread, k); }
        }
        for (int i = 0; i < g_nc; i++) { g_targ[i][0] = (struct targ){ &g_c[i], 0 }; g_c[i].tids[0] = vs_spawn("client", cl_thread, &g_targ[i][0]); }
        quiet();
        /* the server goes away */
        g_rsrun = 0;
        for (int i = 0; i < g_nrs; i++) if (g_rs[i].fd >= 0) { __wrap_close(g_rs[i].fd); g_rs[i].fd = -1; }
        quiet();
        clients_done();
        for (int i = 0; i < 4; i++) if (at[i]) {
            struct sockaddr_storage sa; socklen_t n = addr_of(types[i], &sa);
            int fd = simnet_raw_connect(95, &sa, n, 1);
            vs_join(at[i]);
            if (fd >= 0) simnet_raw_close(fd);
        }
        for (int i = 0; i < g_nrs; i++) {
            if (g_rs[i].tid) vs_join(g_rs[i].tid);
            if (g_rs[i].fd >= 0) simnet_raw_close(g_rs[i].fd);
            for (int j = 0; j < g_rs[i].n; j++) h_free(g_rs[i].req[j]);
        }
        for (int i = 0; i < 4; i++) if (g_svc_types & (1 << i)) {
            if (!at[i]) {
                struct rsconn* k = &g_rs[2 * MAXC + i]; struct sockaddr_storage sa; socklen_t n = addr_of(types[i], &sa);
                if (!vs_done(k->tid)) { int fd = simnet_raw_connect(95, &sa, n, 0); uint8_t z = 0; simnet_raw_send(fd, &z, 1); vs_join(k->tid); simnet_raw_close(fd); }
                else vs_join(k->tid);
                for (int j = 0; j < k->n; j++) h_free(k->req[j]);
            }
            simnet_raw_close(g_rslfd[i]);
        }
        simnet_stop();
        vs_end();
        ev("{\"e\":\"End\",\"t\":0,\"leaked\":%ld,\"fds\":%d}", vs_alloc_outstanding(), simnet_open_count());
        return;
    }
    gracht_server_configuration_t sc;
    gracht_server_configuration_init(&sc);
    sc.callbacks.clientConnected = on_connected;
    sc.callbacks.clientDisconnected = on_disconnected;
    if (g_workers) gracht_server_configuration_set_num_workers(&sc, g_workers);
    if (g_max) gracht_server_configuration_set_max_msg_size(&sc, g_max);
    g_ext = -1;
    if (kv(args, "ext", 0)) { g_ext = __wrap_epoll_create1(0); gracht_server_configuration_set_aio_descriptor(&sc, g_ext); }
    if (gracht_server_create(&sc, &g_server)) vs_fatal("Create", "server");
    const char* poke = NULL;
    for (int i = 0; i < 4; i++) if (g_svc_types & (1 << i)) { if (!poke) poke = types[i]; if (gracht_server_add_link(g_server, mklink(types[i], 1))) vs_fatal("Create", "link"); }
    gracht_server_register_protocol(g_server, &v_a_server_protocol);
    gracht_server_register_protocol(g_server, &v_b_server_protocol);
    gracht_server_register_protocol(g_server, &v_z_server_protocol);
    ev("{\"e\":\"Up\",\"t\":0}");
    loopt = vs_spawn("loop", loop, NULL);
    deft = vs_spawn("deferrer", deferrer, NULL);
    for (int i = 0; i < g_nc; i++) { g_targ[i][0] = (struct targ){ &g_c[i], 0 }; g_c[i].tids[0] = vs_spawn("client", cl_thread, &g_targ[i][0]); }
    for (int i = 0; i < g_nb; i++) bt[i] = vs_spawn("caster", casterp, g_bprog[i]);
    quiet();
    if (!g_released) { g_released = 1; quiet(); }
    /* nobody may use the server any more once it goes down */
    /* an event that was sent in part waits for its client */
    if (kv(args, "lossy", 0) && net.cap) {
        for (int n = 0; n <= g_nc; n++) {
            for (int i = 0; i < g_nc; i++) {
                int done = 1;
                for (int j = 0; j < g_c[i].nthreads; j++) done &= !g_c[i].tids[j] || vs_done(g_c[i].tids[j]);
                if (done) { if (g_c[i].rawfd >= 0) { simnet_raw_close(g_c[i].rawfd); g_c[i].rawfd = -1; } cl_shutdown(&g_c[i]); }
            }
            vs_quiesce();
        }
        clients_done();
    }
    for (int i = 0; i < g_nb; i++) vs_join(bt[i]);
    g_defstop = 1; vs_join(deft);
    if (!g_shut) {
        quiet();
        ev("{\"e\":\"Shut\",\"t\":0}"); g_shut = 1;
        gracht_server_request_shutdown(g_server);
        ev("{\"e\":\"ShutR\",\"t\":0}");
    }
    if (!g_loop_done) {
        struct sockaddr_storage sa; socklen_t n = addr_of(poke, &sa);
        int fd = simnet_raw_connect(95, &sa, n, poke[1] == 's');
        if (fd >= 0 && poke[1] == 'd') { uint8_t z = 0; simnet_raw_send(fd, &z, 1); }
        quiet();
        if (fd >= 0) simnet_raw_close(fd);
    }
    vs_join(loopt);
    clients_done();
    if (g_ext >= 0) __wrap_close(g_ext);
    simnet_stop();
    vs_end();
    ev("{\"e\":\"End\",\"t\":0,\"leaked\":%ld,\"fds\":%d}", vs_alloc_outstanding(), simnet_open_count());
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
