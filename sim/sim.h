/* Deterministic simulator for hob3l: interface between the parts. */
#ifndef SIM_H_
#define SIM_H_
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* how a simulated execution ended */
enum { OUT_NONE, OUT_EXIT, OUT_ABORT, OUT_ASSERT, OUT_CRASH, OUT_STEPS, OUT_SIGNAL,
       OUT_MEM, OUT_CHECK, OUT_HARNESS };

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_ALLOC, K_SYNC, K_RENAME, K_UNLINK, K_STAT, K_N };

#define SIM_NFILES 600
#define SIM_COVBITS 16

typedef struct {
    char path[512];
    uint32_t kind;       /* 0 free, 1 file, 2 dir, 3 noperm file */
    uint32_t flags;      /* 1: existed at start; 2: opened for writing; 4: created by run; 8: unlinked */
    uint64_t off, len, cap;  /* contents, in the shared arena */
} sim_file_t;

typedef struct {
    uint32_t outcome, code;
    uint64_t steps, allocs, alloc_bytes, live_bytes, peak_bytes;
    uint64_t ops[K_N];
    uint64_t fired[K_N];
    uint64_t shorts_r, shorts_w, moved, nswitch, opens_live, opens_peak;
    uint64_t mem_errors;
    uint64_t leak_blocks, leak_bytes, live_blocks, live_at_scan, scanned, pool_bytes;
    uint64_t nfiles;
    uint64_t evlen, evdrop;
    uint64_t arena_used;
    uint64_t msglen;
    uint64_t edges;
    uint64_t cov_hash;
    uint64_t sched_hash;
    char msg[1024];
    sim_file_t file[SIM_NFILES];
} sim_shared_t;

extern sim_shared_t *sim_sh;

/* knobs of a plan */
typedef struct {
    uint64_t seed;          /* seeds every derived environment value */
    int64_t alloc_mode;     /* 0 up, 1 down, 2 LIFO reuse, 3 random slots */
    int64_t fill;           /* 0..255 byte, 256 random bytes */
    int64_t move;           /* 1: realloc always moves */
    int64_t rchunk;         /* max bytes per read op (0: any) */
    int64_t wchunk;
    int64_t rand_chunk;     /* draw chunk sizes at random up to the limits */
    int64_t inbuf, outbuf, stdoutbuf;
    int64_t max_steps, cpu;
    int64_t crash_step;     /* -1 none */
    int64_t max_mem;
    int64_t max_fd;
    int64_t closed;         /* bit i: standard descriptor i is closed at the start */
    int64_t workers;        /* simulated workers for the layer phase */
    int64_t order;          /* 0 shared counter; 1: seeded permutation, one call per layer */
    int64_t quantum;        /* mean preemption quantum in steps */
    int64_t poolsz;
    int64_t full_mem;       /* fail allocs above this size */
    int64_t stackfill;      /* >= 0: what unused stack memory is filled with (256: changing bytes); -1: not */
    int64_t leakscan;       /* find unreachable blocks at the first output write */
    int64_t nosort;         /* no memory for sorting large arrays: heap sort instead of merge sort */
} sim_knobs_t;
extern sim_knobs_t sim_kn;

uint64_t sim_rand(void);                /* environment stream */
void sim_event(const char *fmt, ...) __attribute__((format(printf,1,2)));
void sim_finish(int outcome, int code, const char *fmt, ...)
    __attribute__((noreturn, format(printf,3,4)));
int sim_history(const char *which, const uint8_t *ops, size_t n);
int sim_history_ord(const char *which, const uint8_t *ops, size_t n); /* 0: not one of these */
#endif
