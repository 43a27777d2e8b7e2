/* Simulated kernel sockets + epoll for the code under test (see sched.h).
 * Nothing here reaches the real kernel: an fd that is not simulated is refused. */
#ifndef VS_SIMNET_H
#define VS_SIMNET_H
#include <stdint.h>
#include <stddef.h>

struct simnet_cfg {
    int      seg;        /* 0 whole, 1 random chunks, 2 byte by byte, 3 explicit cuts */
    int      cuts[64];   /* seg==3: chunk sizes applied round robin to every stream    */
    int      ncuts;
    size_t   cap;        /* stream buffer capacity (0 = 1 MB)                          */
    int      dgram_cap;  /* datagrams a socket can hold (0 = 64)                       */
    int      salt;       /* which addresses the system picks                            */
    int      no_reuse;   /* never reuse a descriptor number                            */
    int      partial;    /* non blocking stream sends may be partial (TCP)             */
    int      accept_fail_at, send_fail_at, cap_down; int eintr; /* signals: one in so many waits */ /* n-th accept fails with EMFILE (0 = never)              */
};
enum simnet_dir { TAP_CSEND, TAP_SRECV, TAP_SSEND, TAP_CRECV };

void simnet_reset(const struct simnet_cfg* cfg);
void simnet_start(void);            /* spawn the delivery thread (only when seg != 0) */
void simnet_stop(void);             /* end it */
int  simnet_label_of_fd(int fd);    /* label of a client endpoint or of the peer of an accepted fd, -1 */
void simnet_set_label(int label);   /* label for the sockets this thread creates from now on */
int  simnet_open_count(void);       /* descriptors still open */
int  simnet_open_count_role(int server);
int  simnet_fd_open(int fd);
size_t simnet_unread(int label, int dir_to_server); /* bytes not yet consumed */
int  simnet_peer_closed(int label); /* the server side endpoint of this client is closed */
int  simnet_dgram_label(const void* addr, size_t len);

/* raw endpoint for harness driven peers */
int  simnet_raw_connect(int label, const void* addr, size_t len, int stream);
long simnet_raw_send(int fd, const void* p, size_t n);
long simnet_raw_recv(int fd, void* p, size_t n, int block);
void simnet_raw_close(int fd);
int  simnet_raw_eof(int fd);
int  simnet_is_conn(int fd);
void simnet_mask(int on);   /* signals do not reach this thread */
int  simnet_raw_listen(const void* addr, size_t len, int stream);
int  simnet_raw_accept(int fd);

/* provided by the harness */
void simnet_tap(enum simnet_dir dir, int label, const uint8_t* msg, size_t len);
void simnet_note(const char* what, int label, int fd);
#endif
