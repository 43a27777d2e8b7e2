#define _GNU_SOURCE
#include "hcommon.h"
#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/syscall.h>

void* __real_malloc(size_t);
void  __real_free(void*);
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));

static int    g_fd = -1;
#define LINE (4 << 20)  /* the longest event */
static char g_buf[2 * LINE];
static size_t g_len;
static int    g_dead;
const char*   h_phase = "";

static void flush(void)
{
    size_t o = 0;
    while (o < g_len) {
        struct iovec v = { g_buf + o, g_len - o };
        ssize_t r = syscall(SYS_writev, g_fd, &v, 1);   /* write() may be a simulated call */
        if (r <= 0) break;
        o += (size_t)r;
    }
    g_len = 0;
}
void ev_open(const char* path)
{
    g_fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (g_fd < 0) { fprintf(stderr, "cannot write %s\n", path); _exit(9); }
}
void ev(const char* fmt, ...)
{
    int e = errno;
    if (g_len + LINE > sizeof(g_buf)) flush();
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(g_buf + g_len, LINE - 64, fmt, ap);
    va_end(ap);
    if (n > LINE - 65) n = LINE - 65;
    g_len += (size_t)n;
    g_buf[g_len++] = '\n';
    errno = e;
}
void ev_close(void) { flush(); }

/* the run cannot go on: say so in the trace, where no specification allows it */
void vs_fatal(const char* what, const char* detail)
{
    if (!g_dead) {
        g_dead = 1;
        ev("{\"e\":\"Fatal\",\"what\":\"%s\",\"detail\":\"%s\"}", what, detail ? detail : "");
        flush();
    }
    _exit(70);
}
static void died(void)
{
    if (!g_dead) {
        g_dead = 1;
        ev("{\"e\":\"Fatal\",\"what\":\"MemoryError\",\"detail\":\"sanitizer report\"}");
        flush();
    }
}
static void onsig(int s)
{
    if (!g_dead) {
        g_dead = 1;
        ev("{\"e\":\"Fatal\",\"what\":\"%s\",\"detail\":\"signal %d\"}", s == SIGABRT ? "Abort" : s == SIGALRM ? "Hang" : "Crash", s);
        flush();
    }
    _exit(71);
}
void h_install(void)
{
    if (__asan_set_death_callback) __asan_set_death_callback(died);
    signal(SIGABRT, onsig);
    signal(SIGALRM, onsig);
    signal(SIGPIPE, onsig);
}
const char* arg_str(int argc, char** argv, const char* name, const char* def)
{
    size_t l = strlen(name);
    for (int i = 1; i < argc; i++)
        if (!strncmp(argv[i], "--", 2) && !strncmp(argv[i] + 2, name, l) && argv[i][2 + l] == '=') return argv[i] + 3 + l;
    return def;
}
long arg_int(int argc, char** argv, const char* name, long def)
{
    const char* s = arg_str(argc, argv, name, NULL);
    return s ? strtol(s, NULL, 0) : def;
}
void* h_malloc(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) vs_fatal("Harness", "memory"); return p; }
void  h_free(void* p) { __real_free(p); }
uint64_t h_mix(uint64_t* s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

int h_runs(int argc, char** argv, void (*fn)(int id, uint64_t seed, char* args, char* prog))
{
    static char line[1 << 20];
    h_install();
    ev_open(arg_str(argc, argv, "trace", "/dev/null"));
    FILE* in = fopen(arg_str(argc, argv, "in", "/dev/stdin"), "r");
    if (!in) { fprintf(stderr, "no input\n"); return 9; }
    while (fgets(line, sizeof(line), in)) {
        int id, off = 0; unsigned long long seed;
        char* prog = strchr(line, ';');
        if (!prog || sscanf(line, "run %d %llu%n", &id, &seed, &off) != 2) continue;
        *prog++ = 0;
        prog[strcspn(prog, "\n")] = 0;
        alarm(30);
        fn(id, seed, line + off, prog);
    }
    fclose(in);
    ev_close();
    return 0;
}
