/* Runs the calls and events of one generated program on a real server and client and writes, per op,
 *   {"e":"Sub","s":service,"on":1}                      a subscription went out
 *   {"e":"Tx","dir":"c"|"s","wire":"hex"}                 a message on the wire, by whom
 *   {"e":"Got","i":op,"s":service,"f":function,"ev":0|1,"v":[...]}  what a handler was given
 *   {"e":"Ret","r":0}                                   what a function returned (0 is success)
 *   {"e":"Res","i":op,"st":status,"v":[...]}              what the result function gave the caller
 * The order is the order in which it happened. */
#define _GNU_SOURCE
#include "hcommon.h"
#include "vsched.h"
#include "simnet.h"
#include "h_codec.h"
#include "gracht/link/socket.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/un.h>

extern int __wrap_epoll_wait(int, struct epoll_event*, int, int);
int hc_op; gracht_conn_t hc_conn;
static gracht_server_t* g_server; static int g_status, g_set;
static char g_line[4000000]; static size_t g_n;

void dF(const char* f, ...)
{
    va_list a; va_start(a, f);
    if (g_n < sizeof(g_line) - 64) g_n += (size_t)vsnprintf(g_line + g_n, sizeof(g_line) - g_n, f, a);
    va_end(a);
}
void simnet_note(const char* w, int l, int fd) { (void)w; (void)l; (void)fd; }
void simnet_tap(enum simnet_dir d, int l, const uint8_t* m, size_t n)
{
    static char hex[800001];
    (void)l;
    if (d != TAP_CSEND && d != TAP_SSEND) return;
    for (size_t i = 0; i < n && i < 400000; i++) sprintf(hex + 2 * i, "%02x", m[i]);
    hex[2 * (n < 400000 ? n : 400000)] = 0;
    ev("{\"e\":\"Tx\",\"dir\":\"%c\",\"wire\":\"%s\"}", d == TAP_CSEND ? 'c' : 's', hex);
}
void hc_begin(int op) { ev("{\"e\":\"Op\",\"i\":%d}", op + 1); }
void hc_got(gracht_conn_t conn, int s, int f, int event) { if (!event) hc_conn = conn; g_n = 0; dF("{\"e\":\"Got\",\"i\":%d,\"s\":%d,\"f\":%d,\"ev\":%d,\"v\":[", hc_op + 1, s, f, event); }
void hc_done(void) { dF("]}"); ev("%s", g_line); }
void hc_sent(void) { }
void hc_ret(int r) { ev("{\"e\":\"Ret\",\"r\":%d}", r ? -1 : 0); }
void hc_res(int st) { g_status = st; g_n = 0; dF("{\"e\":\"Res\",\"i\":%d,\"st\":%d,\"v\":[", hc_op + 1, st == GRACHT_MESSAGE_COMPLETED || st == 0 ? 1 : st); }
int hc_ok(void) { return g_status == GRACHT_MESSAGE_COMPLETED || g_status == 0; }
void hc_sub(int s) { ev("{\"e\":\"Sub\",\"s\":%d,\"on\":%d}", s < 0 ? -s : s, s > 0); }
void hc_pump(void)
{
    struct epoll_event e[8]; int n, i;
    for (;;) {
        vs_quiesce();
        n = __wrap_epoll_wait(g_set, e, 8, 0);
        if (n <= 0) return;
        for (i = 0; i < n; i++) gracht_server_handle_event(g_server, e[i].data.fd, e[i].events);
    }
}
void hc_event(gracht_client_t* c) { hc_pump(); for (int i = 0; i < 3; i++) gracht_client_wait_message(c, NULL, 0); }

static struct gracht_link* mklink(int listen)
{
    struct gracht_link_socket* l; struct sockaddr_un u;
    memset(&u, 0, sizeof(u)); u.sun_family = AF_UNIX; strcpy(u.sun_path, "/sim/codec");
    if (gracht_link_socket_create(&l)) vs_fatal("Harness", "link");
    gracht_link_socket_set_type(l, gracht_link_stream_based);
    gracht_link_socket_set_domain(l, AF_UNIX);
    gracht_link_socket_set_address(l, (struct sockaddr_storage*)&u, sizeof(u));
    gracht_link_socket_set_listen(l, listen);
    return (struct gracht_link*)l;
}
static void run(int id, uint64_t seed, char* args, char* prog)
{
    struct vs_cfg cfg; struct simnet_cfg net; gracht_server_configuration_t sc; gracht_client_configuration_t cc; gracht_client_t* client = NULL;
    (void)args; (void)prog;
    memset(&net, 0, sizeof(net));
    vs_plan(&cfg, seed, 0);
    ev("{\"e\":\"Run\",\"run\":%d}", id);
    vs_alloc_reset(); simnet_reset(&net); vs_begin(&cfg); simnet_set_label(-1);
    gracht_server_configuration_init(&sc); gracht_server_configuration_set_max_msg_size(&sc, 262144);
    if (gracht_server_create(&sc, &g_server) || gracht_server_add_link(g_server, mklink(1))) vs_fatal("Broken", "server");
    g_set = (int)gracht_server_get_aio_handle(g_server);
    gracht_client_configuration_init(&cc); gracht_client_configuration_set_max_msg_size(&cc, 262144); gracht_client_configuration_set_link(&cc, mklink(0));
    if (gracht_client_create(&cc, &client)) vs_fatal("Broken", "client");
    simnet_set_label(1);
    if (gracht_client_connect(client)) vs_fatal("Broken", "connect");
    simnet_set_label(-1);
    hc_pump();
    hc_run(g_server, client);
    gracht_client_shutdown(client); hc_pump();
    gracht_server_request_shutdown(g_server); gracht_server_handle_event(g_server, 0, 0); vs_quiesce();
    vs_end();
    ev("{\"e\":\"End\",\"leaked\":%ld}", vs_alloc_outstanding());
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
