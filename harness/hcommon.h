#ifndef HCOMMON_H
#define HCOMMON_H
#include <stdint.h>
#include <stddef.h>
/* NDJSON trace of what the code under test did. One object per line. */
void ev_open(const char* path);
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_close(void);
/* parse --name=value */
const char* arg_str(int argc, char** argv, const char* name, const char* def);
long        arg_int(int argc, char** argv, const char* name, long def);
void* h_malloc(size_t n);
void  h_free(void* p);
uint64_t h_mix(uint64_t* s);
void h_install(void); /* crash reporting */
extern const char* h_phase;
/* one run per line of the input: "run <id> <seed> <args>;<program>" */
int h_runs(int argc, char** argv, void (*fn)(int id, uint64_t seed, char* args, char* prog));
#endif
