/* Registration, configuration and state of a server and a client, one operation after the other.
 *
 *   run <id> <seed> w=<workers> max=<server> cmax=<client> aio=<own event set>;op op op
 *
 * ops   N<arg> create server (1 no configuration, 2 nowhere to put it)   L<k> add link   Ln null link   Ls null server
 *       P<sid>.<v> register   Pn Ps nulls   U<sid>.<v> unregister   Un Us nulls
 *       B<k>.<sid>.<aid>.<len> a peer on link k asks   H aio handle   Hs null server   S ask for shutdown   Ss
 *       G run the main loop   Gs   E handle an event   Es
 *       C<k>.<arg> create client (1 no configuration, 2 nowhere to put it, 3 no link, 4 own send buffer, 5 tiny receive buffer)
 *       K connect  Ks   Q<sid>.<aid>.<len> call   R<sid>.<v> register  Rn Rs   T<sid>.<v> unregister  Tn Ts
 *       V<sid>.<len> broadcast   I iod  Is   W<n> bad await   Z result of no call   X shut the client down  Xs
 * One event per operation, see spec/Registry.tla. */
#define _GNU_SOURCE
#include "hcommon.h"
#include "vsched.h"
#include "simnet.h"
#include "gracht/server.h"
#include "gracht/client.h"
#include "gracht/link/socket.h"
#include "utils.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <sys/epoll.h>
#include <sys/un.h>

extern int gracht_client_get_buffer(gracht_client_t*, gracht_buffer_t*);
extern int gracht_client_invoke(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
extern int gracht_client_get_status_buffer(gracht_client_t*, struct gracht_message_context*, gracht_buffer_t*);
extern int gracht_client_status_finalize(gracht_client_t*, gracht_buffer_t*);
extern int gracht_server_get_buffer(gracht_server_t*, gracht_buffer_t*);
extern int gracht_server_respond(struct gracht_message*, gracht_buffer_t*);
extern int gracht_server_broadcast_event(gracht_server_t*, gracht_buffer_t*, unsigned int);
extern int __wrap_epoll_wait(int, struct epoll_event*, int, int);
extern int __wrap_epoll_create1(int);
extern int __wrap_close(int);

static gracht_server_t* g_server;
static gracht_client_t* g_client;
static int g_shut, g_set, g_aio, g_w, g_max, g_cmax, g_lastk;
static int g_ran[2], g_bad, g_cran[2];
static uint8_t* g_sendbuf;
static uint32_t rd32(const uint8_t* p) { uint32_t v; memcpy(&v, p, 4); return v; }
void simnet_tap(enum simnet_dir d, int l, const uint8_t* m, size_t n) { (void)d; (void)l; (void)m; (void)n; }
void simnet_note(const char* w, int l, int fd) { (void)w; (void)l; (void)fd; }

static void fill(uint8_t* p, size_t n, uint32_t s) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(s + i * 7 + (i >> 8)); }
static int same(const uint8_t* p, size_t n, uint32_t s) { for (size_t i = 0; i < n; i++) if (p[i] != (uint8_t)(s + i * 7 + (i >> 8))) return 0; return 1; }

/* a request carries its own total length as payload start when there is room for it; the answer is as long */
static void serve(int v, struct gracht_message* m, gracht_buffer_t* b)
{
    uint8_t* h = (uint8_t*)b->data + b->index - 11; uint32_t total = rd32(h + 4), n = total < 12 ? 12 : total;
    gracht_buffer_t o;
    g_ran[v]++;
    if (total < 11 || !same(h + 11, total - 11, total)) g_bad++;
    if ((h[10] & 3) != 0) return;
    if (gracht_server_get_buffer(m->server, &o)) { g_bad++; return; }
    memset(o.data, 0, 11); o.data[8] = (char)h[8]; o.data[9] = (char)h[9]; o.data[10] = 3; o.data[11] = (char)(1 + v);
    fill((uint8_t*)o.data + 12, n - 12, total);
    o.index = n;
    if (gracht_server_respond(m, &o)) g_bad++;
}
static void serve0(struct gracht_message* m, gracht_buffer_t* b) { serve(0, m, b); }
static void serve1(struct gracht_message* m, gracht_buffer_t* b) { serve(1, m, b); }
static void event(int v, gracht_buffer_t* b)
{
    uint8_t* h = (uint8_t*)b->data + b->index - 11;
    g_cran[v]++;
    if (!same(h + 11, rd32(h + 4) - 11, h[8])) g_bad++;
}
static void event0(gracht_client_t* c, gracht_buffer_t* b) { (void)c; event(0, b); }
static void event1(gracht_client_t* c, gracht_buffer_t* b) { (void)c; event(1, b); }
static gracht_protocol_function_t g_sf[2][1] = { { { 1, serve0 } }, { { 1, serve1 } } };
static gracht_protocol_function_t g_cf[2][1] = { { { 1, event0 } }, { { 1, event1 } } };

static const char* ktype(int k) { static const char* t[] = { "us", "is", "ud", "id" }; return t[k % 4]; }
static socklen_t addr_of(int k, struct sockaddr_storage* s)
{
    const char* t = ktype(k); int n = k / 4;
    memset(s, 0, sizeof(*s));
    if (t[0] == 'u') {
        struct sockaddr_un* u = (void*)s;
        u->sun_family = AF_UNIX; snprintf(u->sun_path, sizeof(u->sun_path), "/sim/%s%d", t, n);
        return sizeof(*u);
    }
    struct sockaddr_in* i = (void*)s;
    i->sin_family = AF_INET; i->sin_port = htons((uint16_t)(5000 + n * 2 + (t[1] == 'd'))); i->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return sizeof(*i);
}
static struct gracht_link* mklink(int k, int listen)
{
    struct gracht_link_socket* l; struct sockaddr_storage s; socklen_t n = addr_of(k, &s);
    if (gracht_link_socket_create(&l)) vs_fatal("Harness", "link");
    gracht_link_socket_set_type(l, ktype(k)[1] == 's' ? gracht_link_stream_based : gracht_link_packet_based);
    gracht_link_socket_set_domain(l, ktype(k)[0] == 'u' ? AF_UNIX : AF_INET);
    gracht_link_socket_set_address(l, &s, n);
    gracht_link_socket_set_listen(l, listen);
    return (struct gracht_link*)l;
}
static void pump(void)
{
    struct epoll_event e[8]; int n, i;
    for (;;) {
        vs_quiesce();
        if (!g_server || g_shut) return;
        n = __wrap_epoll_wait(g_aio ? g_set : (int)gracht_server_get_aio_handle(g_server), e, 8, 0);
        if (n <= 0) return;
        for (i = 0; i < n; i++) {
            if (gracht_server_handle_event(g_server, e[i].data.fd, e[i].events) == -1 && errno == EPIPE) vs_fatal("Broken", "the server shut itself down");
        }
    }
}
#define OUT(...) ev("{\"e\":\"" __VA_ARGS__)
static void probe(int k, int sid, int aid, int len)
{
    static uint8_t b[70000], a[70000]; struct sockaddr_storage sa; socklen_t sl = addr_of(k, &sa); static uint32_t id = 100;
    int fd, got = -1, resp = 0, note = 0, ok = 1, st = ktype(k)[1] == 's'; long n = 0;
    g_ran[0] = g_ran[1] = g_bad = 0; id += 7;
    fd = simnet_raw_connect(1, &sa, sl, st);
    if (fd >= 0) {
        uint32_t l = (uint32_t)len;
        memcpy(b, &id, 4); memcpy(b + 4, &l, 4); b[8] = (uint8_t)sid; b[9] = (uint8_t)aid; b[10] = 0; fill(b + 11, l - 11, l);
        pump();
        if (simnet_raw_send(fd, b, l) == (long)l) {
            got = 0; pump();
            for (;;) {
                long r = simnet_raw_recv(fd, a + n, sizeof(a) - (size_t)n, 0);
                if (r <= 0) break;
                n += r; pump();
            }
            if (g_ran[0] + g_ran[1] == 1) got = g_ran[0] ? 1 : 2;
            else if (g_ran[0] + g_ran[1]) got = 9;
            if (n) {
                uint32_t m = rd32(a + 4);
                if (n < 11 || (long)m != n || a[8] != (a[8] ? sid : 0)) ok = 0;
                else if (a[8] == 0) { note = (a[10] & 3) == 2 && a[9] == 2 && n >= 15 && rd32(a + 11) == id; ok = note; }
                else { resp = a[11]; ok = (a[10] & 3) == 3 && rd32(a) == id && m == (l < 12 ? 12 : l) && same(a + 12, m - 12, l); }
            }
        }
        simnet_raw_close(fd);
        pump();
    }
    OUT("B\",\"k\":%d,\"sid\":%d,\"aid\":%d,\"ln\":%d,\"got\":%d,\"resp\":%d,\"note\":%d,\"ok\":%d}", k, sid, aid, len, got, resp, note, ok && !g_bad);
}
static void call(int sid, int aid, int len)
{
    gracht_buffer_t b; struct gracht_message_context ctx; int r, w = 0, got, st = -9, ok = 1, n;
    memset(&ctx, 0, sizeof(ctx));
    g_ran[0] = g_ran[1] = g_bad = 0;
    if (gracht_client_get_buffer(g_client, &b)) vs_fatal("Broken", "no send buffer");
    memset(b.data, 0, 11); b.data[8] = (char)sid; b.data[9] = (char)aid; b.data[10] = 0; b.index = (uint32_t)len;
    fill((uint8_t*)b.data + 11, (size_t)len - 11, (uint32_t)len);
    r = gracht_client_invoke(g_client, &ctx, &b);
    if (r == 0) {
        pump();
        w = gracht_client_wait_message(g_client, &ctx, 0);
        memset(&b, 0, sizeof(b));
        st = gracht_client_get_status_buffer(g_client, &ctx, &b);
        n = len < 12 ? 12 : len;
        if (st == GRACHT_MESSAGE_COMPLETED) { ok = (b.data[b.index] == 1 + (g_ran[1] ? 1 : 0)) && same((uint8_t*)b.data + b.index + 1, (size_t)n - 12, (uint32_t)len); gracht_client_status_finalize(g_client, &b); }
    }
    got = g_ran[0] + g_ran[1] == 0 ? 0 : g_ran[0] + g_ran[1] > 1 ? 9 : g_ran[0] ? 1 : 2;
    OUT("Q\",\"sid\":%d,\"aid\":%d,\"ln\":%d,\"r\":%d,\"w\":%d,\"got\":%d,\"st\":%d,\"ok\":%d}", sid, aid, len, r ? -1 : 0, w ? -1 : 0, got,
        st == GRACHT_MESSAGE_COMPLETED ? 1 : st == GRACHT_MESSAGE_ERROR ? 2 : st == GRACHT_MESSAGE_INPROGRESS ? 0 : -1, ok && !g_bad);
}
static void bcast(int sid, int len)
{
    gracht_buffer_t b; int r, got;
    if (gracht_server_get_buffer(g_server, &b)) vs_fatal("Broken", "no send buffer");
    memset(b.data, 0, 11); b.data[8] = (char)sid; b.data[9] = 1; b.data[10] = 2; fill((uint8_t*)b.data + 11, (size_t)len - 11, (uint32_t)sid); b.index = (uint32_t)len;
    g_cran[0] = g_cran[1] = g_bad = 0;
    r = gracht_server_broadcast_event(g_server, &b, 0);
    pump();
    if (g_client && gracht_client_iod(g_client) != GRACHT_CONN_INVALID) for (int i = 0; i < 4; i++) { gracht_client_wait_message(g_client, NULL, 0); }
    got = g_cran[0] + g_cran[1] == 0 ? 0 : g_cran[0] + g_cran[1] > 1 ? 9 : g_cran[0] ? 1 : 2;
    OUT("V\",\"sid\":%d,\"ln\":%d,\"r\":%d,\"got\":%d,\"ok\":%d}", sid, len, r ? -1 : 0, got, !g_bad);
}
static void client_down(void) { gracht_client_shutdown(g_client); g_client = NULL; if (g_sendbuf) { h_free(g_sendbuf); g_sendbuf = NULL; } pump(); }
static void one(char* s)
{
    int a = 0, b = 0, c = 0, d = 0, r; char q = s[1];
    sscanf(s + 1, "%d.%d.%d.%d", &a, &b, &c, &d);
    switch (s[0]) {
    case 'N': {
            gracht_server_configuration_t cfg; gracht_server_t* out = NULL;
            if (g_server) return;
            gracht_server_configuration_init(&cfg);
            if (g_w) gracht_server_configuration_set_num_workers(&cfg, g_w);
            if (g_max) gracht_server_configuration_set_max_msg_size(&cfg, g_max);
            if (g_aio) gracht_server_configuration_set_aio_descriptor(&cfg, g_set);
            r = gracht_server_create(a == 1 ? NULL : &cfg, a == 2 ? NULL : &out);
            if (r == 0 && !a) { g_server = out; g_shut = 0; }
            OUT("N\",\"a\":%d,\"r\":%d}", a, r ? -1 : 0);
        } break;
    case 'L':
        if (q == 'n') { if (!g_server) return; OUT("L\",\"k\":-1,\"r\":%d}", gracht_server_add_link(g_server, NULL) ? -1 : 0); return; }
        if (q != 's' && !g_server) return;
        {
            struct gracht_link* l = mklink(q == 's' ? 0 : a, 1);
            r = gracht_server_add_link(q == 's' ? NULL : g_server, l);
            if (r) l->ops.server.destroy(l, g_server && !g_shut ? gracht_server_get_aio_handle(g_server) : -1);
            OUT("L\",\"k\":%d,\"r\":%d}", q == 's' ? -1 : a, r ? -1 : 0);
        } break;
    case 'P': case 'U': {
            gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)a, "p", 1, g_sf[b & 1]); int nul = q == 'n' || q == 's';
            if (q != 's' && !g_server) return;
            if (s[0] == 'P') r = gracht_server_register_protocol(q == 's' ? NULL : g_server, q == 'n' ? NULL : &p);
            else { gracht_server_unregister_protocol(q == 's' ? NULL : g_server, q == 'n' ? NULL : &p); r = 0; }
            OUT("%c\",\"sid\":%d,\"v\":%d,\"r\":%d}", s[0], nul ? -1 : a, 1 + (b & 1), r ? -1 : 0);
        } break;
    case 'B': if (g_shut) return; probe(a, b, c, d); break;
    case 'H':
        if (q != 's' && !g_server) return;
        { gracht_handle_t h = gracht_server_get_aio_handle(q == 's' ? NULL : g_server);
          OUT("H\",\"n\":%d,\"r\":%d}", q == 's', h == GRACHT_HANDLE_INVALID ? -1 : g_aio && h != g_set ? 1 : 0); }
        break;
    case 'S': if (q != 's' && !g_server) return; gracht_server_request_shutdown(q == 's' ? NULL : g_server); if (q != 's') g_shut = 1; OUT("S\",\"n\":%d}", q == 's'); break;
    case 'G': if (q != 's' && (!g_server || !g_shut)) return; OUT("G\",\"n\":%d,\"r\":%d}", q == 's', gracht_server_main_loop(q == 's' ? NULL : g_server) ? -1 : 0); break;
    case 'E':
        if (q != 's' && (!g_server || !g_shut)) return;
        errno = 0; r = gracht_server_handle_event(q == 's' ? NULL : g_server, a, EPOLLIN);
        { int e = errno == EPIPE; if (q != 's') g_server = NULL, g_shut = 0; vs_quiesce(); OUT("E\",\"n\":%d,\"r\":%d,\"pipe\":%d,\"fds\":%d,\"set\":%d}", q == 's', r ? -1 : 0, e, simnet_open_count(), g_aio ? simnet_fd_open(g_set) : 1); }
        break;
    case 'C': {
            gracht_client_configuration_t cfg; struct gracht_link* l = b == 3 ? NULL : mklink(a, 0); gracht_client_t* out = NULL;
            if (g_client) { if (l) l->ops.client.destroy(l); return; }
            gracht_client_configuration_init(&cfg);
            gracht_client_configuration_set_link(&cfg, l);
            if (g_cmax) gracht_client_configuration_set_max_msg_size(&cfg, g_cmax);
            if (b == 4) { g_sendbuf = h_malloc((size_t)(g_cmax ? g_cmax : 2048)); gracht_client_configuration_set_send_buffer(&cfg, g_sendbuf); }
            if (b == 5) gracht_client_configuration_set_recv_buffer(&cfg, NULL, 10);
            r = gracht_client_create(b == 1 ? NULL : &cfg, b == 2 ? NULL : &out);
            if (r == 0) { g_client = out; g_lastk = a; } else if (l) l->ops.client.destroy(l);
            OUT("C\",\"k\":%d,\"a\":%d,\"r\":%d}", a, b, r ? -1 : 0);
        } break;
    case 'K': if (q == 's') { OUT("K\",\"n\":1,\"r\":%d,\"iod\":0}", gracht_client_connect(NULL) ? -1 : 0); return; }
        if (!g_client) return;
        simnet_set_label(2); r = gracht_client_connect(g_client); simnet_set_label(-1); pump();
        OUT("K\",\"n\":0,\"r\":%d,\"iod\":%d}", r ? -1 : 0, gracht_client_iod(g_client) != GRACHT_CONN_INVALID);
        break;
    case 'Q': if (!g_client || g_shut) return; call(a, b, c); break;
    case 'R': case 'T': {
            gracht_protocol_t p = GRACHT_PROTOCOL_INIT((uint8_t)a, "p", 1, g_cf[b & 1]); int nul = q == 'n' || q == 's';
            if (q != 's' && !g_client) return;
            if (s[0] == 'R') r = gracht_client_register_protocol(q == 's' ? NULL : g_client, q == 'n' ? NULL : &p);
            else { gracht_client_unregister_protocol(q == 's' ? NULL : g_client, q == 'n' ? NULL : &p); r = 0; }
            OUT("%c\",\"sid\":%d,\"v\":%d,\"r\":%d}", s[0], nul ? -1 : a, 1 + (b & 1), r ? -1 : 0);
        } break;
    case 'V': if (!g_server || g_shut) return; bcast(a, b); break;
    case 'I':
        if (q == 's') { OUT("I\",\"n\":1,\"r\":%d}", gracht_client_iod(NULL) == GRACHT_CONN_INVALID ? -1 : 0); return; }
        if (g_client) OUT("I\",\"n\":0,\"r\":%d}", gracht_client_iod(g_client) == GRACHT_CONN_INVALID ? -1 : 0);
        break;
    case 'W': {
            struct gracht_message_context x = { 0 }, *xs[1] = { &x };
            if (a < 3 && !g_client) return;
            r = a == 0 ? gracht_client_await_multiple(g_client, xs, 0, 0) : a == 1 ? gracht_client_await_multiple(g_client, NULL, 1, 0)
              : a == 2 ? gracht_client_wait_message(g_client, &x, 0) : a == 3 ? gracht_client_await_multiple(NULL, xs, 1, 0)
              : a == 4 ? gracht_client_wait_message(NULL, NULL, 0) : gracht_client_await(NULL, &x, 0);
            OUT("W\",\"a\":%d,\"r\":%d}", a, r ? -1 : 0);
        } break;
    case 'Z': {
            struct gracht_message_context x = { .message_id = 4000000 }; gracht_buffer_t o;
            if (!g_client) return;
            r = a == 0 ? gracht_client_get_status_buffer(g_client, &x, &o) : a == 1 ? gracht_client_get_status_buffer(g_client, NULL, &o) : gracht_client_get_status_buffer(NULL, &x, &o);
            OUT("Z\",\"a\":%d,\"r\":%d}", a, r < 0 ? -1 : 0);
        } break;
    case 'X': if (q == 's') { gracht_client_shutdown(NULL); OUT("X\",\"n\":1}"); return; }
        if (!g_client) return;
        client_down(); OUT("X\",\"n\":0}"); break;
    }
}
static long kv(const char* args, const char* k, long def)
{
    char pat[32]; snprintf(pat, sizeof(pat), " %s=", k);
    const char* p = strstr(args, pat);
    return p ? strtol(p + strlen(pat), NULL, 0) : def;
}
static void run(int id, uint64_t seed, char* args, char* prog)
{
    struct vs_cfg cfg; struct simnet_cfg net;
    memset(&net, 0, sizeof(net));
    g_server = NULL; g_client = NULL; g_shut = 0; g_sendbuf = NULL;
    g_w = (int)kv(args, "w", 0); g_max = (int)kv(args, "max", 0); g_cmax = (int)kv(args, "cmax", 0); g_aio = (int)kv(args, "aio", 0);
    vs_plan(&cfg, seed, 1);
    ev("{\"e\":\"Run\",\"run\":%d,\"seed\":%llu,\"w\":%d,\"max\":%d,\"cmax\":%d,\"aio\":%d}", id, (unsigned long long)seed, g_w, g_max, g_cmax, g_aio);
    vs_alloc_reset();
    simnet_reset(&net);
    vs_begin(&cfg);
    simnet_set_label(-1);
    if (g_aio) g_set = __wrap_epoll_create1(0);
    for (char* s = strtok(prog, " "); s; s = strtok(NULL, " ")) one(s);
    if (g_client) { client_down(); OUT("X\",\"n\":0}"); }
    if (g_server) { if (!g_shut) one((char[]){ "S" }); one((char[]){ "E0" }); }
    if (g_aio) __wrap_close(g_set);
    vs_end();
    ev("{\"e\":\"End\",\"leaked\":%ld,\"fds\":%d}", vs_alloc_outstanding(), simnet_open_count());
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
