#ifndef H_CODEC_H
#define H_CODEC_H
#include "gracht/server.h"
#include "gracht/client.h"
/* one event per line: what an op put on the wire and what the other side got of it */
extern int hc_op;                  /* the op being made */
extern gracht_conn_t hc_conn;      /* the connection a request came from last */
void hc_run(gracht_server_t*, gracht_client_t*);   /* provided by the program */
void hc_begin(int op);
void hc_got(gracht_conn_t conn, int svc, int fn, int event);
void hc_done(void);
void hc_sent(void);
void hc_res(int status);
int  hc_ok(void);
void hc_ret(int status);
void hc_pump(void);
void hc_sub(int svc);
void hc_event(gracht_client_t*);
void dF(const char*, ...);
#endif
