/*
 * Deterministic simulator for hob3l.
 *
 * One process is the zygote: it reads plans from fd 0, forks one child per
 * plan, and reports what the child did on fd 1.  The child runs the real
 * hob3l code (main() renamed to hob3l_main) on top of the seams below:
 *
 *  - files, stdout, stderr: fopencookie() streams over an in-memory disk;
 *  - malloc & co: a seeded arena allocator (placement, contents, moves, failures);
 *  - clock, pid, environment, random: derived from the plan's seed;
 *  - exit, abort, assertion failures: recorded, and end the simulated process;
 *  - every basic block of hob3l calls sim_step(): simulated time, crash points,
 *    preemption points of simulated workers, and step budgets.
 *
 * Nothing here reads a real clock or real randomness: a run is a pure
 * function of (plan, code).
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <ucontext.h>
#include <setjmp.h>
#include "sim.h"

#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif


/* hob3l's objects have their libc references renamed to __wrap_* (objcopy),
 * so these are entry points of the simulated process only. */
#pragma GCC diagnostic ignored "-Wmissing-prototypes"

/* ------------------------------------------------------------------ */
/* shared memory: what survives the simulated process */

#define EV_SIZE    (8u << 20)
#define ARENA_SIZE (768ull << 20)

sim_shared_t *sim_sh;
static char *ev_buf;
static char *arena;
sim_knobs_t sim_kn;
static bool active;            /* simulated process is running */

static uint64_t rng_s;
static uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rng_next(uint64_t *s) { return mix(*s += 0x9e3779b97f4a7c15ull); }
static uint64_t rng_mem, rng_io, rng_sched;
uint64_t sim_rand(void) { return rng_next(&rng_s); }

void sim_event(const char *fmt, ...)
{
    char b[1024];
    va_list va;
    va_start(va, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, va);
    va_end(va);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (sim_sh->evlen + (size_t)n > EV_SIZE) { sim_sh->evdrop++; return; }
    memcpy(ev_buf + sim_sh->evlen, b, (size_t)n);
    sim_sh->evlen += (size_t)n;
}

void sim_finish(int outcome, int code, const char *fmt, ...)
{
    active = false;
    sim_sh->outcome = (uint32_t)outcome;
    sim_sh->code = (uint32_t)code;
    if (fmt != NULL) {
        va_list va;
        va_start(va, fmt);
        vsnprintf(sim_sh->msg, sizeof sim_sh->msg, fmt, va);
        va_end(va);
    }
    sim_event("%llu end outcome=%d code=%d", (unsigned long long)sim_sh->steps, outcome, code);
    _exit(0);
}

/* ------------------------------------------------------------------ */
/* plan */

typedef struct {
    int kind;
    char path[512];        /* "" = any */
    int64_t from, count;   /* matching op indices [from, from+count), count<0: for ever */
    int err;               /* errno to fail with; 0: none */
    int64_t shrt;          /* >=0: transfer at most this much */
    int eof;               /* read: report end of file */
    int64_t limit;         /* write: device full when the file would exceed this (-1: none) */
    int64_t seen;
    int64_t matched;
} fault_t;

#define MAX_FAULTS 64
static fault_t fault[MAX_FAULTS];
static int nfault;
static char *args[256];
static int nargs;
static char *hist_kind;
static uint8_t *hist_ops;
static size_t hist_n;

/* ------------------------------------------------------------------ */
/* the simulated disk */

static void norm(char *out, size_t n, const char *p)
{
    /* lexical: drop './', '//' and resolve 'x/..' */
    char tmp[1024];
    snprintf(tmp, sizeof tmp, "%s", p);
    char *seg[256]; int ns = 0;
    bool abs = tmp[0] == '/';
    char *sv = NULL;
    for (char *t = strtok_r(tmp, "/", &sv); t; t = strtok_r(NULL, "/", &sv)) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..") && ns > 0 && strcmp(seg[ns-1], "..")) { ns--; continue; }
        if (ns < 255) seg[ns++] = t;
    }
    size_t o = 0;
    if (abs && o < n - 1) out[o++] = '/';
    for (int i = 0; i < ns; i++) {
        if (i && o < n - 1) out[o++] = '/';
        for (char *c = seg[i]; *c && o < n - 1; c++) out[o++] = *c;
    }
    out[o] = 0;
}

static sim_file_t *file_find(const char *path)
{
    char b[512];
    norm(b, sizeof b, path);
    for (size_t i = 0; i < sim_sh->nfiles; i++) {
        sim_file_t *f = &sim_sh->file[i];
        if (f->kind && !(f->flags & 8) && !strcmp(f->path, b)) return f;
    }
    return NULL;
}

static sim_file_t *file_add(const char *path, uint32_t kind)
{
    if (sim_sh->nfiles >= SIM_NFILES) return NULL;
    sim_file_t *f = &sim_sh->file[sim_sh->nfiles++];
    memset(f, 0, sizeof *f);
    norm(f->path, sizeof f->path, path);
    f->kind = kind;
    return f;
}

static bool file_reserve(sim_file_t *f, uint64_t n)
{
    if (n <= f->cap) return true;
    uint64_t cap = f->cap ? f->cap : 4096;
    while (cap < n) cap *= 2;
    if (sim_sh->arena_used + cap > ARENA_SIZE) return false;
    uint64_t off = sim_sh->arena_used;
    sim_sh->arena_used += cap;
    memcpy(arena + off, arena + f->off, f->len);
    f->off = off;
    f->cap = cap;
    return true;
}

static bool file_pwrite(sim_file_t *f, uint64_t pos, const void *b, uint64_t n)
{
    if (!file_reserve(f, pos + n)) return false;
    if (pos > f->len) memset(arena + f->off + f->len, 0, pos - f->len);
    memcpy(arena + f->off + pos, b, n);
    if (pos + n > f->len) f->len = pos + n;
    return true;
}

/* open file descriptions */
typedef struct {
    bool used;
    sim_file_t *f;
    uint64_t pos;
    bool rd, wr, app;
    FILE *fp;
    char *buf;
    bool special; /* stdin/out/err */
} sim_fd_t;
#define NFD 4096
static sim_fd_t fds[NFD];

static fault_t *check_fault(int kind, const char *path)
{
    fault_t *hit = NULL;
    sim_sh->ops[kind]++;
    for (int i = 0; i < nfault; i++) {
        fault_t *x = &fault[i];
        if (x->kind != kind) continue;
        if (x->path[0] && (path == NULL || strcmp(x->path, path) != 0)) continue;
        int64_t ix = x->seen++;
        if (ix >= x->from && (x->count < 0 || ix < x->from + x->count)) {
            if (hit == NULL) hit = x;
        }
    }
    return hit;
}

static int fd_new(sim_file_t *f, bool rd, bool wr, bool app)
{
    int live = 0;
    for (int i = 0; i < NFD; i++) live += fds[i].used && !fds[i].special;
    /* the lowest free one, as POSIX has it: a standard descriptor that is
     * closed is reused, and its stream then refers to the other file */
    for (int i = 0; i < NFD; i++) {
        if (sim_kn.max_fd > 0 && i >= sim_kn.max_fd + 3) return -1;
        if (!fds[i].used) {
            memset(&fds[i], 0, sizeof fds[i]);
            fds[i].used = true;
            fds[i].f = f; fds[i].rd = rd; fds[i].wr = wr; fds[i].app = app;
            sim_sh->opens_live = (uint64_t)live + 1;
            if (sim_sh->opens_live > sim_sh->opens_peak) sim_sh->opens_peak = sim_sh->opens_live;
            return i;
        }
    }
    return -1;
}

static bool parent_ok(const char *path)
{
    char b[512];
    norm(b, sizeof b, path);
    char *s = strrchr(b, '/');
    if (s == NULL || s == b) return true;
    *s = 0;
    size_t n = strlen(b);
    for (size_t i = 0; i < sim_sh->nfiles; i++) {
        sim_file_t *f = &sim_sh->file[i];
        if (!f->kind) continue;
        if (f->kind == 2 && !strcmp(f->path, b)) return true;
        if (!strncmp(f->path, b, n) && f->path[n] == '/') return true;
    }
    return false;
}

/* returns fd or -1 with errno */
static int sim_open(const char *path, bool rd, bool wr, bool app, bool trunc, bool creat_, bool excl)
{
    if (path && !strcmp(path, "/dev/null")) {
        /* the device: reads nothing, swallows everything, holds nothing */
        static sim_file_t null = { .path = "/dev/null", .kind = 4 };
        int n = fd_new(&null, rd, wr, false);
        sim_event("%llu open /dev/null -> %d", (unsigned long long)sim_sh->steps, n);
        if (n < 0) errno = EMFILE;
        return n;
    }
    sim_file_t *f = (path && *path) ? file_find(path) : NULL;
    char nb[512];
    norm(nb, sizeof nb, path ? path : "");
    fault_t *x = check_fault(K_OPEN, nb);
    int e = 0;
    if (x != NULL) { e = x->err ? x->err : EIO; sim_sh->fired[K_OPEN]++; }
    else if (!path || !*path) e = ENOENT;
    else if (f == NULL) {
        if (!wr || !creat_) e = ENOENT;
        else if (!parent_ok(path)) e = ENOENT;
    }
    else if (excl) e = EEXIST;
    else if (f->kind == 2 && wr) e = EISDIR;
    else if (f->kind == 3) e = EACCES;
    int fd = -1;
    if (e == 0) {
        if (f == NULL) {
            f = file_add(path, 1);
            if (f == NULL) e = ENFILE;
            else f->flags |= 4;
        }
        if (e == 0) {
            fd = fd_new(f, rd, wr, app);
            if (fd < 0) e = EMFILE;
        }
        if (e == 0) {
            if (wr) { f->flags |= 2; if (trunc) f->len = 0; }
        }
    }
    sim_event("%llu open %s %s%s%s -> %s%s", (unsigned long long)sim_sh->steps, nb,
        rd?"r":"", wr?"w":"", app?"a":"", e ? strerrorname_np(e) : "ok", x ? " FAULT" : "");
    errno = e;
    return e ? -1 : fd;
}

static ssize_t sim_read(int fd, void *b, size_t n)
{
    sim_fd_t *d = &fds[fd];
    if (!d->used || !d->rd) { sim_event("%llu read fd %d -> EBADF", (unsigned long long)sim_sh->steps, fd); errno = EBADF; return -1; }
    fault_t *x = check_fault(K_READ, d->f->path);
    size_t avail = d->pos < d->f->len ? d->f->len - d->pos : 0;
    size_t m = n;
    int e = 0;
    bool fz = false;
    if (d->f->kind == 2) e = EISDIR;
    if (x != NULL) {
        fz = true;
        sim_sh->fired[K_READ]++;
        if (x->err) e = x->err;
        else if (x->eof) m = 0;
        else if (x->shrt >= 0 && (uint64_t)x->shrt < m) m = x->shrt ? (size_t)x->shrt : 1;
    }
    if (e == 0) {
        if (sim_kn.rchunk > 0 && m > 0) {
            size_t c = (size_t)sim_kn.rchunk;
            if (sim_kn.rand_chunk) c = 1 + rng_next(&rng_io) % c;
            if (m > c) { m = c; sim_sh->shorts_r++; }
        }
        if (m > avail) m = avail;
        memcpy(b, arena + d->f->off + d->pos, m);
        d->pos += m;
    }
    sim_event("%llu read %s %llu@%llu -> %s%s", (unsigned long long)sim_sh->steps, d->f->path,
        (unsigned long long)(e ? 0 : m), (unsigned long long)d->pos,
        e ? strerrorname_np(e) : "ok", fz ? " FAULT" : "");
    if (e) { errno = e; return -1; }
    return (ssize_t)m;
}

static void leak_scan(void);

/* one write(2) */
static ssize_t sim_write1(int fd, const void *b, size_t n)
{
    sim_fd_t *d = &fds[fd];
    if (!d->used || !d->wr) { sim_event("%llu write fd %d -> EBADF", (unsigned long long)sim_sh->steps, fd); errno = EBADF; return -1; }
    if (n == 0) return 0;
    if (d->f->kind == 4) return (ssize_t)n;
    fault_t *x = check_fault(K_WRITE, d->f->path);
    size_t m = n;
    int e = 0;
    bool fz = false;
    if (d->app) d->pos = d->f->len;
    if (x != NULL) {
        if (x->limit >= 0) {
            /* device full at a byte limit */
            uint64_t room = d->pos < (uint64_t)x->limit ? (uint64_t)x->limit - d->pos : 0;
            if (room < m) {
                fz = true;
                sim_sh->fired[K_WRITE]++;
                if (room == 0) e = x->err ? x->err : ENOSPC;
                else { m = room; sim_sh->shorts_w++; }
            }
        }
        else {
            fz = true;
            sim_sh->fired[K_WRITE]++;
            if (x->shrt > 0 && (uint64_t)x->shrt < m) { m = (size_t)x->shrt; sim_sh->shorts_w++; }
            else if (x->err) e = x->err;
        }
    }
    if (e == 0) {
        if (sim_kn.wchunk > 0) {
            size_t c = (size_t)sim_kn.wchunk;
            if (sim_kn.rand_chunk) c = 1 + rng_next(&rng_io) % c;
            if (m > c) { m = c; sim_sh->shorts_w++; }
        }
        if (!file_pwrite(d->f, d->pos, b, m)) sim_finish(OUT_MEM, 0, "simulated disk exhausted");
        d->pos += m;
    }
    sim_event("%llu write %s %llu/%llu@%llu -> %s%s", (unsigned long long)sim_sh->steps, d->f->path,
        (unsigned long long)(e ? 0 : m), (unsigned long long)n, (unsigned long long)d->pos,
        e ? strerrorname_np(e) : "ok", fz ? " FAULT" : "");
    if (e) { errno = e; return -1; }
    return (ssize_t)m;
}

static int sim_close(int fd)
{
    sim_fd_t *d = &fds[fd];
    if (!d->used) { errno = EBADF; return -1; }
    fault_t *x = check_fault(K_CLOSE, d->f->path);
    int e = 0;
    if (x != NULL) { e = x->err ? x->err : EIO; sim_sh->fired[K_CLOSE]++; }
    sim_event("%llu close %s -> %s%s", (unsigned long long)sim_sh->steps, d->f->path,
        e ? strerrorname_np(e) : "ok", x ? " FAULT" : "");
    d->used = false;
    if (!d->special) sim_sh->opens_live--;
    errno = e;
    return e ? -1 : 0;
}

/* cookie glue: what glibc does for a descriptor-backed stream */
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t done = 0;
    while (done < n) {
        ssize_t r = sim_write1((int)(intptr_t)c, b + done, n - done);
        if (r < 0) break;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *o, int wh)
{
    sim_fd_t *d = &fds[(int)(intptr_t)c];
    if (!d->used) { errno = EBADF; return -1; }
    if (d->special) { errno = ESPIPE; return -1; }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)d->pos : (int64_t)d->f->len;
    if (base + *o < 0) { errno = EINVAL; return -1; }
    d->pos = (uint64_t)(base + *o);
    *o = (off64_t)d->pos;
    return 0;
}
static int ck_close(void *c)
{
    int fd = (int)(intptr_t)c;
    return sim_close(fd);
}

static FILE *make_stream(int fd, const char *mode, int64_t bufsz)
{
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *fp = fopencookie((void*)(intptr_t)fd, mode, io);
    if (fp == NULL) return NULL;
    fds[fd].fp = fp;
    if (bufsz < 0) setvbuf(fp, NULL, _IONBF, 0);
    else {
        if (bufsz == 0) bufsz = 4096;
        fds[fd].buf = mmap(NULL, (size_t)bufsz, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        setvbuf(fp, fds[fd].buf, _IOFBF, (size_t)bufsz);
    }
    return fp;
}

/* ------------------------------------------------------------------ */
/* wrapped libc entry points: files */

#define __real_fopen fopen
FILE *__wrap_fopen(const char *path, const char *mode)
{
    if (!active) return __real_fopen(path, mode);
    bool plus = strchr(mode, '+') != NULL;
    bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
    int fd = sim_open(path, rd, wr, mode[0] == 'a', mode[0] == 'w', mode[0] != 'r', strchr(mode, 'x') != NULL);
    if (fd < 0) return NULL;
    char m2[3] = { mode[0], plus ? '+' : 0, 0 };
    return make_stream(fd, m2, wr ? sim_kn.outbuf : sim_kn.inbuf);
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m)
{
    if (fd < 0 || fd >= NFD || !fds[fd].used) { errno = EBADF; return NULL; }
    char m2[3] = { m[0], strchr(m, '+') ? '+' : 0, 0 };
    return make_stream(fd, m2, m[0] == 'r' ? sim_kn.inbuf : sim_kn.outbuf);
}
FILE *__wrap_freopen(const char *p, const char *m, FILE *f)
{
    fclose(f);
    return __wrap_fopen(p, m);
}
static int fd_of(FILE *f)
{
    for (int i = 0; i < NFD; i++) if (fds[i].used && fds[i].fp == f) return i;
    return -1;
}
int __wrap_fileno(FILE *f)
{
    if (f == stdin) return 0;
    if (f == stdout) return 1;
    if (f == stderr) return 2;
    int fd = fd_of(f);
    if (fd < 0) errno = EBADF;
    return fd;
}
int __wrap_isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
static bool fd_ok(int fd)
{
    if (fd < 0 || fd >= NFD || !fds[fd].used) { errno = EBADF; return false; }
    return true;
}
int __wrap_open(const char *path, int fl, ...)
{
    int acc = fl & O_ACCMODE;
    return sim_open(path, acc != O_WRONLY, acc != O_RDONLY, (fl & O_APPEND) != 0,
        (fl & O_TRUNC) != 0, (fl & O_CREAT) != 0, (fl & O_EXCL) != 0);
}
int __wrap_open64(const char *path, int fl, ...) { return __wrap_open(path, fl, 0666); }
int __wrap_creat(const char *path, mode_t m) { return __wrap_open(path, O_CREAT|O_WRONLY|O_TRUNC, m); }
int __wrap_fcntl(int fd, int cmd, ...)
{
    if (!fd_ok(fd)) return -1;
    va_list va;
    va_start(va, cmd);
    int a = va_arg(va, int);
    va_end(va);
    switch (cmd) {
    case F_GETFD: case F_SETFD: case F_SETFL: return 0;
    case F_GETFL: return fds[fd].rd ? (fds[fd].wr ? O_RDWR : O_RDONLY) : O_WRONLY;
    case F_DUPFD: case F_DUPFD_CLOEXEC:
        for (int i = a; i < NFD; i++) if (!fds[i].used) { fds[i] = fds[fd]; fds[i].fp = NULL; return i; }
        errno = EMFILE;
        return -1;
    }
    errno = EINVAL;
    return -1;
}
int __wrap_fcntl64(int fd, int cmd, int a) { return __wrap_fcntl(fd, cmd, a); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd_ok(fd) ? sim_read(fd, b, n) : -1; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return fd_ok(fd) ? sim_write1(fd, b, n) : -1; }
int __wrap_close(int fd) { return fd_ok(fd) ? sim_close(fd) : -1; }
off_t __wrap_lseek(int fd, off_t o, int wh)
{
    off64_t p = o;
    if (!fd_ok(fd) || ck_seek((void*)(intptr_t)fd, &p, wh) != 0) return -1;
    return p;
}
static int do_sync(int fd)
{
    if (!fd_ok(fd)) return -1;
    fault_t *x = check_fault(K_SYNC, fds[fd].f->path);
    int e = 0;
    if (x) { e = x->err ? x->err : EIO; sim_sh->fired[K_SYNC]++; }
    sim_event("%llu sync %s -> %s", (unsigned long long)sim_sh->steps, fds[fd].f->path, e ? strerrorname_np(e) : "ok");
    errno = e;
    return e ? -1 : 0;
}
int __wrap_fsync(int fd) { return do_sync(fd); }
int __wrap_fdatasync(int fd) { return do_sync(fd); }
int __wrap_ftruncate(int fd, off_t n)
{
    if (!fd_ok(fd)) return -1;
    sim_file_t *f = fds[fd].f;
    if ((uint64_t)n > f->len) { char z = 0; file_pwrite(f, (uint64_t)n - 1, &z, 1); }
    f->len = (uint64_t)n;
    f->flags |= 2;
    return 0;
}
static uint64_t sim_now(void);
static int fill_stat(sim_file_t *f, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = f->kind == 2 ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = (off_t)f->len;
    st->st_blksize = 4096;
    st->st_ino = f >= sim_sh->file && f < sim_sh->file + SIM_NFILES ? (ino_t)(f - sim_sh->file) + 1 : 1000;
    st->st_nlink = 1;
    /* when it was changed last: by this run, or some time before (or, by a clock that is off, after) */
    uint64_t t = sim_now();
    if (!(f->flags & 2)) {
        static const uint64_t age[] = { 0, 1, 3, 60, 86400, 7777777, 400000000 };
        uint64_t h = sim_kn.seed + 77;
        for (const char *c = f->path; *c; c++) h = mix(h ^ (unsigned char)*c);
        uint64_t d = age[h % 7] * 1000000000ull + h % 1000000007;
        t = 1500000000000000000ull + (sim_kn.seed % 1000003) * 86400000000ull;
        t = h % 16 == 0 ? t + d : t - d;
    }
    st->st_mtim.tv_sec = (time_t)(t / 1000000000ull);
    st->st_mtim.tv_nsec = (long)(t % 1000000000ull);
    st->st_ctim = st->st_atim = st->st_mtim;
    return 0;
}
int __wrap_fstat(int fd, struct stat *st) { return fd_ok(fd) ? fill_stat(fds[fd].f, st) : -1; }
/* a directory that is there because a file is in it */
static sim_file_t *implied_dir(const char *p)
{
    static sim_file_t d;
    char b[512];
    norm(b, sizeof b, p);
    size_t n = strlen(b);
    bool is = n == 0 || !strcmp(b, "/");
    for (size_t i = 0; !is && i < sim_sh->nfiles; i++) {
        sim_file_t *f = &sim_sh->file[i];
        is = f->kind && !(f->flags & 8) && !strncmp(f->path, b, n) && f->path[n] == '/';
    }
    if (!is) return NULL;
    memset(&d, 0, sizeof d);
    memcpy(d.path, b, sizeof d.path);
    d.kind = 2;
    return &d;
}
int __wrap_stat(const char *p, struct stat *st)
{
    sim_file_t *f = file_find(p);
    if (!f) f = implied_dir(p);
    sim_sh->ops[K_STAT]++;
    sim_event("%llu stat %s -> %d", (unsigned long long)sim_sh->steps, p, f != NULL);
    if (!f) { errno = ENOENT; return -1; }
    return fill_stat(f, st);
}
int __wrap_lstat(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_access(const char *p, int m)
{
    sim_file_t *f = file_find(p);
    if (!f) f = implied_dir(p);
    sim_sh->ops[K_STAT]++;
    if (!f) { errno = ENOENT; return -1; }
    if (f->kind == 3 && (m & (R_OK|W_OK))) { errno = EACCES; return -1; }
    return 0;
}
int __wrap_unlink(const char *p)
{
    sim_file_t *f = file_find(p);
    fault_t *x = check_fault(K_UNLINK, p);
    int e = x ? (x->err ? x->err : EIO) : f ? 0 : ENOENT;
    if (!e) f->flags |= 8;
    sim_event("%llu unlink %s -> %s", (unsigned long long)sim_sh->steps, p, e ? strerrorname_np(e) : "ok");
    errno = e;
    return e ? -1 : 0;
}
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b)
{
    sim_file_t *f = file_find(a), *g = file_find(b);
    fault_t *x = check_fault(K_RENAME, a);
    int e = x ? (x->err ? x->err : EIO) : f ? 0 : ENOENT;
    if (!e) {
        if (g && g != f) g->flags |= 8;
        norm(f->path, sizeof f->path, b);
        f->flags |= 2;
        if (g) f->flags = (f->flags & ~4u) | (g->flags & 5u);
    }
    sim_event("%llu rename %s %s -> %s", (unsigned long long)sim_sh->steps, a, b, e ? strerrorname_np(e) : "ok");
    errno = e;
    return e ? -1 : 0;
}
int __wrap_mkstemp(char *t)
{
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    for (int k = 0; k < 100; k++) {
        snprintf(t + n - 6, 7, "%06llx", (unsigned long long)(sim_rand() & 0xffffff));
        if (!file_find(t)) return __wrap_open(t, O_CREAT|O_RDWR|O_EXCL, 0600);
    }
    errno = EEXIST;
    return -1;
}
FILE *__wrap_tmpfile(void)
{
    char t[] = "/tmp/simXXXXXX";
    int fd = __wrap_mkstemp(t);
    return fd < 0 ? NULL : __wrap_fdopen(fd, "w+");
}
int __wrap_system(const char *c) { sim_event("system %s", c ? c : ""); errno = EPERM; return -1; }
FILE *__wrap_popen(const char *c, const char *m) { (void)m; sim_event("popen %s", c); errno = EPERM; return NULL; }

/* ------------------------------------------------------------------ */
/* clocks, identity, randomness */

static uint64_t sim_now(void) { return 1500000000000000000ull + (sim_kn.seed % 1000003) * 86400000000ull + sim_sh->steps * 10; }
time_t __wrap_time(time_t *t) { time_t r = (time_t)(sim_now() / 1000000000ull); if (t) *t = r; return r; }
clock_t __wrap_clock(void) { return (clock_t)(sim_sh->steps / 100 + sim_kn.seed % 1000); }
int __wrap_gettimeofday(struct timeval *tv, void *z)
{ (void)z; tv->tv_sec = (time_t)(sim_now()/1000000000ull); tv->tv_usec = (suseconds_t)(sim_now()/1000%1000000); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{ (void)c; ts->tv_sec = (time_t)(sim_now()/1000000000ull); ts->tv_nsec = (long)(sim_now()%1000000000ull); return 0; }
pid_t __wrap_getpid(void) { return (pid_t)(2 + mix(sim_kn.seed) % 30000); }
/* the value of a variable: none, a number, a switch, a word, or a directory that holds files */
char *__wrap_getenv(const char *n)
{
    static char v[16][256];
    static unsigned k;
    uint64_t h = sim_kn.seed;
    for (const char *c = n; *c; c++) h = mix(h ^ (unsigned char)*c);
    h = mix(h ^ 7);
    char *o = v[k++ % 16];
    uint64_t x = h >> 8;
    switch (h % 12) {
    case 0: snprintf(o, sizeof *v, "%llu", (unsigned long long)x); return o;
    case 1: snprintf(o, sizeof *v, "%llu", (unsigned long long)(1 + x % 200)); return o;
    case 2: snprintf(o, sizeof *v, "%llu", (unsigned long long)(x % 20)); return o;
    case 3: snprintf(o, sizeof *v, "%s", x & 1 ? "1" : x & 2 ? "0" : x & 4 ? "" : "yes"); return o;
    case 4: snprintf(o, sizeof *v, "%s", x & 1 ? "de_DE.UTF-8" : x & 2 ? "C" : "xterm"); return o;
    case 5: case 6: {
        if (sim_sh->nfiles == 0) return NULL;
        snprintf(o, sizeof *v, "%.200s", sim_sh->file[x % sim_sh->nfiles].path);
        char *e = strrchr(o, '/');
        if (e) *e = 0; else strcpy(o, ".");
        return o; }
    default: return NULL;
    }
}
char *__wrap_secure_getenv(const char *n) { return __wrap_getenv(n); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f)
{
    (void)f;
    for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = (unsigned char)sim_rand();
    return (ssize_t)n;
}
int __wrap_getentropy(void *b, size_t n) { (void)__wrap_getrandom(b, n, 0); return 0; }
pid_t __wrap_getppid(void) { return (pid_t)(2 + mix(sim_kn.seed ^ 3) % 30000); }
pid_t __wrap_gettid(void) { return __wrap_getpid(); }
uid_t __wrap_getuid(void) { return (uid_t)(mix(sim_kn.seed ^ 5) % 2000); }
uid_t __wrap_geteuid(void) { return __wrap_getuid(); }
int __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "h%llu", (unsigned long long)mix(sim_kn.seed ^ 9) % 1000); return 0; }
char *__wrap_getcwd(char *b, size_t n) { if (b == NULL || n < 64) { errno = ERANGE; return NULL; } snprintf(b, n, "/w%llu", (unsigned long long)mix(sim_kn.seed ^ 11) % 1000); return b; }
int __wrap_rand(void) { return (int)(sim_rand() & 0x7fffffff); }
long __wrap_random(void) { return (long)(sim_rand() & 0x7fffffff); }
long __wrap_lrand48(void) { return (long)(sim_rand() & 0x7fffffff); }
double __wrap_drand48(void) { return (double)(sim_rand() >> 11) / 9007199254740992.0; }
unsigned __wrap_sleep(unsigned n) { sim_sh->steps += n * 100000000ull; return 0; }
int __wrap_usleep(useconds_t n) { sim_sh->steps += n * 100ull; return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; sim_sh->steps += (uint64_t)a->tv_sec * 100000000ull; return 0; }

/* ------------------------------------------------------------------ */
/* allocator */

#define __real_malloc malloc
#define __real_calloc calloc
#define __real_realloc realloc
#define __real_free free

static void fill_mem(void *p, size_t n, int salt)
{
    if (sim_kn.fill < 256) { memset(p, (int)sim_kn.fill ^ salt, n); return; }
    uint64_t *q = p;
    size_t w = n / 8;
    for (size_t i = 0; i < w; i++) q[i] = rng_next(&rng_mem);
    unsigned char *c = (unsigned char*)p + w * 8;
    for (size_t i = 0; i < n % 8; i++) c[i] = (unsigned char)rng_next(&rng_mem);
}

static bool alloc_fails(size_t n)
{
    sim_sh->allocs++;
    if (sim_kn.full_mem > 0 && (int64_t)n > sim_kn.full_mem) {
        sim_sh->fired[K_ALLOC]++;
        sim_event("%llu alloc %llu -> ENOMEM FAULT", (unsigned long long)sim_sh->steps, (unsigned long long)n);
        return true;
    }
    fault_t *x = check_fault(K_ALLOC, NULL);
    if (x) {
        sim_sh->fired[K_ALLOC]++;
        if (x->matched++ < 20)
            sim_event("%llu alloc %llu -> ENOMEM FAULT", (unsigned long long)sim_sh->steps, (unsigned long long)n);
        return true;
    }
    return false;
}

#ifndef SIM_ASAN
#define MAGIC 0x51ab11e5u
typedef struct { uint32_t magic, cls; uint64_t size; } hdr_t;   /* 16 bytes */
#define CANARY 0x5ca1ab1ec0ffee11ull
#define HEAP_BASE 0x200000000000ull
#define HEAP_SIZE (6ull << 30)
static char *heap, *heap_lo, *heap_hi;
#define NCLS 48
#define WIN 32
static void *freelist[NCLS][WIN];
static int nfree[NCLS];

static void heap_init(void)
{
    uint64_t base = HEAP_BASE + (mix(sim_kn.seed ^ 0x77) & 0xfff) * 0x10000000ull;
    heap = mmap((void*)base, HEAP_SIZE, PROT_READ|PROT_WRITE,
        MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (heap == MAP_FAILED) sim_finish(OUT_HARNESS, 0, "no heap");
    heap_lo = heap + (mix(sim_kn.seed ^ 0x78) & 0xff) * 16;
    heap_hi = heap + HEAP_SIZE;
}
static bool in_heap(void *p) { return (char*)p >= heap && (char*)p < heap + HEAP_SIZE; }

static unsigned cls_of(size_t n)
{
    /* 4 classes per power of two, min 16 */
    if (n <= 16) return 0;
    unsigned lg = 63 - (unsigned)__builtin_clzll(n - 1);
    unsigned sub = (unsigned)((n - 1) >> (lg - 2)) & 3;
    return (lg - 4) * 4 + sub + 1;
}
static size_t cls_size(unsigned c)
{
    if (c == 0) return 16;
    c--;
    size_t b = (size_t)1 << (c / 4 + 4);
    return b + (b / 4) * (c % 4 + 1);
}

static void mem_error(const char *what, void *p)
{
    sim_sh->mem_errors++;
    sim_finish(OUT_CHECK, 0, "memory: %s (block at step %llu, size %llu)", what,
        (unsigned long long)sim_sh->steps,
        (unsigned long long)(p ? ((hdr_t*)p)[-1].size : 0));
}

static char *carve(size_t tot)
{
    char *p;
    if (sim_kn.alloc_mode == 1 || (sim_kn.alloc_mode == 3 && (rng_next(&rng_mem) & 1))) {
        heap_hi -= tot;
        p = heap_hi;
    }
    else {
        p = heap_lo;
        heap_lo += tot;
    }
    if (heap_lo > heap_hi || (int64_t)((heap_lo - heap) + (heap + HEAP_SIZE - heap_hi)) > sim_kn.max_mem) {
        sim_finish(OUT_MEM, 0, "simulated memory limit");
    }
    return p;
}

static void *arena_alloc(size_t n)
{
    unsigned c = cls_of(n);
    size_t sz = (cls_size(c) + 15) & ~(size_t)15;
    size_t tot = sizeof(hdr_t) + sz + 16;
    char *p = NULL;
    if (c < NCLS) {
        if (sim_kn.alloc_mode == 2) {
            if (nfree[c] > 0) p = freelist[c][--nfree[c]];
        }
        else if (sim_kn.alloc_mode == 3) {
            /* keep a window of slots and pick at random */
            while (nfree[c] < (sz <= 4096 ? WIN / 2 : 2)) freelist[c][nfree[c]++] = carve(tot);
            int k = (int)(rng_next(&rng_mem) % (uint64_t)nfree[c]);
            p = freelist[c][k];
            freelist[c][k] = freelist[c][--nfree[c]];
        }
    }
    if (p == NULL) p = carve(tot);
    hdr_t *h = (hdr_t*)p;
    h->magic = MAGIC; h->cls = c; h->size = n;
    char *q = p + sizeof(hdr_t);
    uint64_t can = CANARY ^ (uint64_t)(uintptr_t)q;
    memcpy(q + n, &can, 8);
    sim_sh->live_bytes += n;
    sim_sh->alloc_bytes += n;
    if (sim_sh->live_bytes > sim_sh->peak_bytes) sim_sh->peak_bytes = sim_sh->live_bytes;
    return q;
}
static hdr_t *hdr_check(void *p)
{
    hdr_t *h = (hdr_t*)p - 1;
    if (h->magic == ~MAGIC) mem_error("double free or use of freed block", p);
    if (h->magic != MAGIC) mem_error("bad free", NULL);
    uint64_t can; memcpy(&can, (char*)p + h->size, 8);
    if (can != (CANARY ^ (uint64_t)(uintptr_t)p)) mem_error("write past the end of a heap block", p);
    return h;
}
static void arena_free(void *p)
{
    hdr_t *h = hdr_check(p);
    h->magic = ~MAGIC;
    sim_sh->live_bytes -= h->size;
    fill_mem(p, h->size > 65536 ? 65536 : h->size, 0x3c);
    unsigned c = h->cls;
    if (c < NCLS && (sim_kn.alloc_mode == 2 || sim_kn.alloc_mode == 3) && nfree[c] < WIN)
        freelist[c][nfree[c]++] = (char*)p - sizeof(hdr_t);
}

/* Conservative search for blocks nobody can reach any more (alloc_mode 0), at
 * the end of the process.  The trees over all layers count as in use: w_csg2
 * and w_csg2b hold them, whether or not the program still refers to them. */
static void *stack_base, *w_csg2, *w_csg2b;
typedef struct { char *p; size_t n; bool seen; } blk_t;
extern char __data_start, _end;
static blk_t *blk; static size_t nblk;
static size_t *work; static size_t nwork;
static void leak_mark(const char *a, const char *e)
{
    a = (const char*)(((uintptr_t)a + 7) & ~(uintptr_t)7);
    for (; a + 8 <= e; a += 8) {
        char *q; memcpy(&q, a, 8);
        if (!in_heap(q) || nblk == 0) continue;
        size_t lo = 0, hi = nblk;
        while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (blk[m].p <= q) lo = m; else hi = m; }
        if (q < blk[lo].p || q > blk[lo].p + blk[lo].n || blk[lo].seen) continue;
        blk[lo].seen = true;
        work[nwork++] = lo;
    }
}
static void leak_scan(void)
{
    if (sim_sh->scanned || sim_kn.alloc_mode != 0 || sim_kn.workers != 1 || !w_csg2 || !w_csg2b) return;
    sim_sh->scanned = 1;
    char *st = heap + (mix(sim_kn.seed ^ 0x78) & 0xff) * 16;
    size_t n = 0;
    for (char *p = st; p < heap_lo; n++)
        p += sizeof(hdr_t) + ((cls_size(((hdr_t*)p)->cls) + 15) & ~(size_t)15) + 16;
    blk = mmap(NULL, (n + 1) * sizeof *blk, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    work = mmap(NULL, (n + 1) * sizeof *work, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    for (char *p = st; p < heap_lo; ) {
        hdr_t *h = (hdr_t*)p;
        if (h->magic == MAGIC) { blk[nblk++] = (blk_t){ p + sizeof(hdr_t), h->size, false }; }
        p += sizeof(hdr_t) + ((cls_size(h->cls) + 15) & ~(size_t)15) + 16;
    }
    jmp_buf jb;
    setjmp(jb);
    volatile char here = 0;
    leak_mark(&__data_start, &_end);
    leak_mark((char*)&jb, (char*)(&jb + 1));
    leak_mark((char*)&here, stack_base);
    while (nwork > 0) { size_t k = work[--nwork]; leak_mark(blk[k].p, blk[k].p + blk[k].n); }
    for (size_t i = 0; i < nblk; i++) if (!blk[i].seen) {
        if (sim_sh->leak_blocks++ < 20)
            sim_event("%llu unreachable block of %llu bytes", (unsigned long long)sim_sh->steps, (unsigned long long)blk[i].n);
        sim_sh->leak_bytes += blk[i].n;
    }
    sim_sh->live_blocks = nblk;
    sim_sh->live_at_scan = sim_sh->live_bytes;
}
static void *raw_malloc(size_t n) { return arena_alloc(n); }
static void raw_free(void *p) { if (in_heap(p)) arena_free(p); else __real_free(p); }
static size_t raw_size(void *p) { return hdr_check(p)->size; }
#else
static void heap_init(void) {}
static void leak_scan(void) {}
static void *stack_base, *w_csg2, *w_csg2b;
static bool in_heap(void *p) { (void)p; return true; }
#include <malloc.h>
static void *raw_malloc(size_t n)
{
    sim_sh->alloc_bytes += n;
    if ((int64_t)sim_sh->alloc_bytes > 4 * sim_kn.max_mem || (int64_t)n > sim_kn.max_mem)
        sim_finish(OUT_MEM, 0, "simulated memory limit");
    return __real_malloc(n);
}
static void raw_free(void *p) { __real_free(p); }
static size_t raw_size(void *p) { return malloc_usable_size(p); }
#endif

void *__wrap_malloc(size_t n)
{
    if (!active) return __real_malloc(n);
    if (n > (1ull << 46) || alloc_fails(n)) { errno = ENOMEM; return NULL; }
    if ((int64_t)n > sim_kn.max_mem) sim_finish(OUT_MEM, 0, "simulated memory limit");
    void *p = raw_malloc(n);
    if (p) fill_mem(p, n, 0);
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if (!active) return __real_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || n > (1ull << 46) || alloc_fails(n)) { errno = ENOMEM; return NULL; }
    if ((int64_t)n > sim_kn.max_mem) sim_finish(OUT_MEM, 0, "simulated memory limit");
    void *p = raw_malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
void __wrap_free(void *p)
{
    if (p == NULL) return;
    if (!active) { if (sim_sh && sim_sh->outcome == OUT_NONE && in_heap(p)) return; __real_free(p); return; }
    raw_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!active) return __real_realloc(p, n);
    if (p == NULL) return __wrap_malloc(n);
    if (n == 0) { __wrap_free(p); return NULL; }
    if (!in_heap(p)) return __real_realloc(p, n);
    if (n > (1ull << 46) || alloc_fails(n)) { errno = ENOMEM; return NULL; }
    if ((int64_t)n > sim_kn.max_mem) sim_finish(OUT_MEM, 0, "simulated memory limit");
    size_t o = raw_size(p);
#ifndef SIM_ASAN
    if (!sim_kn.move) {
        hdr_t *h = (hdr_t*)p - 1;
        if (n <= cls_size(h->cls)) {
            if (n > o) fill_mem((char*)p + o, n - o, 0);
            sim_sh->live_bytes += n - o;
            h->size = n;
            uint64_t can = CANARY ^ (uint64_t)(uintptr_t)p;
            memcpy((char*)p + n, &can, 8);
            return p;
        }
    }
#endif
    void *q = raw_malloc(n);
    if (q == NULL) return NULL;
    sim_sh->moved++;
    memcpy(q, p, o < n ? o : n);
    if (n > o) fill_mem((char*)q + o, n - o, 0);
    raw_free(p);
    return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    return __wrap_realloc(p, n);
}
void *__wrap_aligned_alloc(size_t al, size_t n)
{
    if (al <= 16) return __wrap_malloc(n);
    if (alloc_fails(n)) { errno = ENOMEM; return NULL; }
    return aligned_alloc(al, n);   /* not used by hob3l: served by the real allocator */
}
int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
    void *p = __wrap_aligned_alloc(al, (n + al - 1) / al * al);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = __wrap_malloc(n);
    return p ? memcpy(p, s, n) : NULL;
}
char *__wrap_strndup(const char *s, size_t k)
{
    size_t n = strnlen(s, k);
    char *p = __wrap_malloc(n + 1);
    if (!p) return NULL;
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}

/* As glibc sorts: merge sort (stable) on the stack for small arrays, and for larger ones in
 * memory from malloc; heap sort (not stable) if that is not available. */
typedef int (*cmp_r_t)(const void *, const void *, void *);
static void msort_r(char *b, size_t n, size_t s, cmp_r_t cmp, void *u, char *t)
{
    if (n <= 1) return;
    size_t n1 = n / 2, n2 = n - n1;
    char *b1 = b, *b2 = b + n1 * s, *o = t;
    msort_r(b1, n1, s, cmp, u, t);
    msort_r(b2, n2, s, cmp, u, t);
    while (n1 > 0 && n2 > 0) {
        if (cmp(b1, b2, u) <= 0) { memcpy(o, b1, s); b1 += s; n1--; }
        else { memcpy(o, b2, s); b2 += s; n2--; }
        o += s;
    }
    if (n1 > 0) memcpy(o, b1, n1 * s);
    memcpy(b, t, (n - n2) * s);
}
static void swap_r(char *a, char *b, size_t s)
{
    for (size_t i = 0; i < s; i++) { char h = a[i]; a[i] = b[i]; b[i] = h; }
}
static void sift_r(char *b, size_t k, size_t n, size_t s, cmp_r_t cmp, void *u)
{
    while (2 * k + 1 < n) {
        size_t j = 2 * k + 1;
        if (j + 1 < n && cmp(b + j * s, b + (j + 1) * s, u) < 0) j++;
        if (j == k || cmp(b + k * s, b + j * s, u) >= 0) return;
        swap_r(b + k * s, b + j * s, s);
        k = j;
    }
}
void __wrap_qsort_r(void *b, size_t n, size_t s, cmp_r_t cmp, void *u)
{
    char tmp[1024];
    if (n < 2 || s == 0) return;
    size_t sz = (s > 32) ? 2 * n * sizeof(void*) + s : n * s;
    if (n * s <= sizeof(tmp)) { msort_r(b, n, s, cmp, u, tmp); return; }
    char *t = NULL;
    if (!(active && (sim_kn.nosort || alloc_fails(sz)))) {
        bool act = active;
        t = __real_malloc(n * s);
        active = act;
    }
    if (t != NULL) { msort_r(b, n, s, cmp, u, t); __real_free(t); return; }
    for (size_t i = n / 2; i-- > 0;) sift_r(b, i, n, s, cmp, u);
    for (size_t i = n - 1; i > 0; i--) { swap_r(b, (char*)b + i * s, s); sift_r(b, 0, i, s, cmp, u); }
}
static int cmp_plain(const void *a, const void *b, void *u)
{
    return (*(int (**)(const void *, const void *))u)(a, b);
}
void __wrap_qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *))
{
    __wrap_qsort_r(b, n, s, cmp_plain, &cmp);
}
int __wrap_vasprintf(char **r, const char *f, va_list va)
{
    va_list v2;
    va_copy(v2, va);
    int n = vsnprintf(NULL, 0, f, v2);
    va_end(v2);
    if (n < 0) return -1;
    *r = __wrap_malloc((size_t)n + 1);
    if (*r == NULL) return -1;
    return vsnprintf(*r, (size_t)n + 1, f, va);
}
int __wrap_asprintf(char **r, const char *f, ...)
{
    va_list va;
    va_start(va, f);
    int n = __wrap_vasprintf(r, f, va);
    va_end(va);
    return n;
}
ssize_t __wrap_getdelim(char **b, size_t *n, int d, FILE *f)
{
    size_t k = 0;
    if (*b == NULL) *n = 0;
    for (;;) {
        if (k + 2 > *n) {
            char *q = __wrap_realloc(*b, *n ? *n * 2 : 120);
            if (q == NULL) return -1;
            *n = *n ? *n * 2 : 120;
            *b = q;
        }
        int c = fgetc(f);
        if (c == EOF) { (*b)[k] = 0; return (k == 0 || ferror(f)) ? -1 : (ssize_t)k; }
        (*b)[k++] = (char)c;
        if (c == d) { (*b)[k] = 0; return (ssize_t)k; }
    }
}
ssize_t __wrap_getline(char **b, size_t *n, FILE *f) { return __wrap_getdelim(b, n, '\n', f); }

/* ------------------------------------------------------------------ */
/* process end */

static void (*atexit_fn[64])(void);
static int natexit;
int __wrap_atexit(void (*f)(void)) { if (natexit < 64) atexit_fn[natexit++] = f; return 0; }

static bool in_exit;
void __wrap_exit(int code)
{
    if (!active) _exit(code);
    if (!in_exit) {
        in_exit = true;
        if (sim_kn.leakscan) leak_scan();
        while (natexit > 0) atexit_fn[--natexit]();
        /* libc flushes every open stream, and drops errors */
        for (int i = 0; i < NFD; i++) if (fds[i].used && fds[i].fp && fds[i].wr) fflush(fds[i].fp);
        fflush(stdout);
        fflush(stderr);
    }
    sim_finish(OUT_EXIT, code & 0xff, NULL);
}
void __wrap__exit(int code) { sim_finish(OUT_EXIT, code & 0xff, NULL); }
void __wrap__Exit(int code) { sim_finish(OUT_EXIT, code & 0xff, NULL); }
void __wrap_quick_exit(int code) { sim_finish(OUT_EXIT, code & 0xff, NULL); }
void (*sim_end_hook)(void);
void __wrap_abort(void) { if (sim_end_hook) sim_end_hook(); sim_finish(OUT_ABORT, 134, NULL); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    const char *b = strrchr(f, '/');
    if (stderr) fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e);
    sim_finish(OUT_ASSERT, 134, "assert: %s:%s: %s", b ? b + 1 : f, fn, e);
}

/* ------------------------------------------------------------------ */
/* simulated time, coverage, preemption */

static uint8_t *cov;
static uint64_t next_stop;
static uint64_t quantum_end;
static int cur_worker = -1;
static uintptr_t stack_lo;      /* end of the stack in use */
extern char __executable_start;

static void step_slow(void);

/* What automatic variables hold before they are set: the unused stack below the calling function,
 * where the frames of the functions it calls will be, is overwritten in each basic block. */
static inline __attribute__((always_inline, no_sanitize("address"))) void fill_stack(void)
{
    enum { N = 512 };
    uintptr_t sp;
    __asm__ volatile("mov %%rsp, %0" : "=r"(sp));
    if (sp - N < stack_lo) return;
    uintptr_t d = sp - N;
    size_t n = N;
    unsigned char b = sim_kn.stackfill < 256 ? (unsigned char)sim_kn.stackfill : (unsigned char)(sim_sh->steps * 41 | 1);
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(b) : "memory");
}
void __sanitizer_cov_trace_pc(void) __attribute__((no_sanitize("address")));
void __sanitizer_cov_trace_pc(void)
{
    if (!active) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
    cov[(pc >> 1) & ((1u << 20) - 1)] = 1;
    if (sim_kn.stackfill >= 0) fill_stack();
    if (++sim_sh->steps >= next_stop) step_slow();
}

static void yield_to_sched(void);
static void recompute_stop(void)
{
    next_stop = (uint64_t)sim_kn.max_steps;
    if (sim_kn.crash_step >= 0 && (uint64_t)sim_kn.crash_step < next_stop) next_stop = (uint64_t)sim_kn.crash_step;
    if (cur_worker >= 0 && quantum_end < next_stop) next_stop = quantum_end;
}
static void step_slow(void)
{
    uint64_t s = sim_sh->steps;
    if (sim_kn.crash_step >= 0 && s >= (uint64_t)sim_kn.crash_step) sim_finish(OUT_CRASH, 137, NULL);
    if (s >= (uint64_t)sim_kn.max_steps) sim_finish(OUT_STEPS, 0, "step budget %lld", (long long)sim_kn.max_steps);
    if (cur_worker >= 0 && s >= quantum_end) yield_to_sched();
    recompute_stop();
}

/* The C library is not instrumented: what its functions do to long blocks and
 * strings counts by length (redirected in the plain build only). */
#ifndef SIM_ASAN
#define COST(n) do { if (active) sim_sh->steps += (uint64_t)(n) >> 4; } while (0)
void *__wrap_memcpy(void *d, const void *s, size_t n) { COST(n); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { COST(n); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { COST(n); return memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { int r = memcmp(a, b, n); if (r == 0) COST(n); return r; }
void *__wrap_memchr(const void *s, int c, size_t n) { char *q = memchr(s, c, n); COST(q ? (size_t)(q - (const char *)s) : n); return q; }
void *__wrap_memrchr(const void *s, int c, size_t n) { char *q = memrchr(s, c, n); COST(q ? n - (size_t)(q - (const char *)s) : n); return q; }
void *__wrap_rawmemchr(const void *s, int c) { char *q = rawmemchr(s, c); COST(q - (const char *)s); return q; }
void *__wrap_memmem(const void *s, size_t n, const void *t, size_t m) { char *q = memmem(s, n, t, m); COST(q ? (size_t)(q - (const char *)s) : n); return q; }
size_t __wrap_strlen(const char *s) { size_t n = strlen(s); COST(n); return n; }
size_t __wrap_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); COST(n); return n; }
char *__wrap_strchr(const char *s, int c) { char *q = strchr(s, c); COST(q ? (size_t)(q - s) : strlen(s)); return q; }
char *__wrap_strchrnul(const char *s, int c) { char *q = strchrnul(s, c); COST(q - s); return q; }
char *__wrap_strrchr(const char *s, int c) { COST(strlen(s)); return strrchr(s, c); }
char *__wrap_strstr(const char *s, const char *t) { char *q = strstr(s, t); COST(q ? (size_t)(q - s) : strlen(s)); return q; }
size_t __wrap_strspn(const char *s, const char *t) { size_t n = strspn(s, t); COST(n); return n; }
size_t __wrap_strcspn(const char *s, const char *t) { size_t n = strcspn(s, t); COST(n); return n; }
char *__wrap_strpbrk(const char *s, const char *t) { char *q = strpbrk(s, t); COST(q ? (size_t)(q - s) : strlen(s)); return q; }
char *__wrap_strcat(char *d, const char *s) { COST(strlen(d) + strlen(s)); return strcat(d, s); }
char *__wrap_strncat(char *d, const char *s, size_t n) { COST(strlen(d)); return strncat(d, s, n); }
char *__wrap_strcpy(char *d, const char *s) { COST(strlen(s)); return strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { COST(n); return strncpy(d, s, n); }
int __wrap_vsscanf(const char *s, const char *f, va_list va) { COST(strlen(s)); return vsscanf(s, f, va); }
int __wrap_sscanf(const char *s, const char *f, ...)
{
    va_list va;
    va_start(va, f);
    int r = __wrap_vsscanf(s, f, va);
    va_end(va);
    return r;
}
int __wrap___isoc99_sscanf(const char *s, const char *f, ...) __attribute__((alias("__wrap_sscanf")));
int __wrap___isoc23_sscanf(const char *s, const char *f, ...) __attribute__((alias("__wrap_sscanf")));
int __wrap___isoc99_vsscanf(const char *s, const char *f, va_list va) __attribute__((alias("__wrap_vsscanf")));
int __wrap___isoc23_vsscanf(const char *s, const char *f, va_list va) __attribute__((alias("__wrap_vsscanf")));
#endif

/* workers for the layer phase (hook in main.c) */
typedef bool (*stack_fn)(void *opt, void *pool, void *err, void *csg2, void *csg2b, size_t *zi, size_t cnt);
#define MAXW 16
typedef struct { ucontext_t ctx; bool done; bool ok; void *pool; void *err; size_t *zi; size_t cnt; char *stk;
    size_t one_zi; } worker_t;
static worker_t W[MAXW];
static int nW;
static ucontext_t sched_ctx;
static stack_fn w_fn;
static void *w_opt;
static size_t *perm; static size_t perm_n, perm_pos;
#define WSTACK (64u << 20)

static void worker_main(int k)
{
    worker_t *w = &W[k];
    w->ok = true;
    if (sim_kn.order == 0) {
        w->ok = w_fn(w_opt, w->pool, w->err, w_csg2, w_csg2b, w->zi, w->cnt);
    }
    else {
        while (perm_pos < perm_n) {
            size_t i = perm[perm_pos++];
            w->one_zi = i;
            if (!w_fn(w_opt, w->pool, w->err, w_csg2, w_csg2b, &w->one_zi, i + 1)) { w->ok = false; break; }
        }
    }
    w->done = true;
    for (;;) yield_to_sched();
}
static void yield_to_sched(void)
{
    int k = cur_worker;
    cur_worker = -1;
    swapcontext(&W[k].ctx, &sched_ctx);
}

/* called from the guarded hook in main.c */
bool hob3l_sim_stack(stack_fn fn, void *opt, void **pool, void **err, void *csg2, void *csg2b,
    size_t *zi, size_t cnt);
int hob3l_sim_workers(void);
int hob3l_sim_workers(void) { return (int)(sim_kn.workers > MAXW ? MAXW : sim_kn.workers); }
bool hob3l_sim_stack(stack_fn fn, void *opt, void **pool, void **err, void *csg2, void *csg2b,
    size_t *zi, size_t cnt)
{
    nW = hob3l_sim_workers();
    w_fn = fn; w_opt = opt; w_csg2 = csg2; w_csg2b = csg2b;
    perm_n = cnt; perm_pos = 0;
    perm = __real_malloc((cnt + 1) * sizeof *perm);
    for (size_t i = 0; i < cnt; i++) perm[i] = i;
    for (size_t i = cnt; i > 1; i--) {
        size_t j = rng_next(&rng_sched) % i;
        size_t t = perm[i-1]; perm[i-1] = perm[j]; perm[j] = t;
    }
    for (int k = 0; k < nW; k++) {
        W[k].pool = pool[k]; W[k].err = err[k]; W[k].zi = zi; W[k].cnt = cnt;
        W[k].stk = mmap(NULL, WSTACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        getcontext(&W[k].ctx);
        W[k].ctx.uc_stack.ss_sp = W[k].stk;
        W[k].ctx.uc_stack.ss_size = WSTACK;
        W[k].ctx.uc_link = &sched_ctx;
        makecontext(&W[k].ctx, (void (*)(void))worker_main, 1, k);
    }
    uint64_t h = 0;
    for (;;) {
        int cand[MAXW], n = 0;
        for (int k = 0; k < nW; k++) if (!W[k].done) cand[n++] = k;
        if (n == 0) break;
        int k = cand[rng_next(&rng_sched) % (uint64_t)n];
        uint64_t q = (uint64_t)(sim_kn.quantum > 0 ? sim_kn.quantum : 1000);
        /* mostly near the mean, sometimes very short or long */
        uint64_t r = rng_next(&rng_sched);
        switch (r & 7) {
        case 0: q = 1 + (r >> 8) % 16; break;
        case 1: q = q * 8; break;
        default: q = 1 + (r >> 8) % (2 * q); break;
        }
        h = mix(h ^ (uint64_t)(unsigned)k ^ (q << 8));
        cur_worker = k;
        quantum_end = sim_sh->steps + q;
        recompute_stop();
        sim_sh->nswitch++;
        if (sim_sh->nswitch < 4000)
            sim_event("%llu run w%d for %llu", (unsigned long long)sim_sh->steps, k, (unsigned long long)q);
        swapcontext(&sched_ctx, &W[k].ctx);
        cur_worker = -1;
        recompute_stop();
    }
    sim_sh->sched_hash = h;
    bool ok = true;
    for (int k = 0; k < nW; k++) ok = ok && W[k].ok;
    return ok;
}

/* ------------------------------------------------------------------ */
/* zygote */

static bool rd_full(void *b, size_t n)
{
    char *p = b;
    while (n) {
        ssize_t r = read(0, p, n);
        if (r <= 0) return false;
        p += r; n -= (size_t)r;
    }
    return true;
}
static void wr_full(const void *b, size_t n)
{
    const char *p = b;
    while (n) {
        ssize_t r = write(1, p, n);
        if (r <= 0) _exit(3);
        p += r; n -= (size_t)r;
    }
}
static bool rd_line(char *b, size_t n)
{
    size_t i = 0;
    for (;;) {
        char c;
        if (!rd_full(&c, 1)) return false;
        if (c == '\n') { b[i] = 0; return true; }
        if (i + 1 < n) b[i++] = c;
    }
}

static void knob(const char *k, int64_t v)
{
#define KN(x) if (!strcmp(k, #x)) { sim_kn.x = v; return; }
    if (!strcmp(k, "seed")) { sim_kn.seed = (uint64_t)v; return; }
    KN(alloc_mode) KN(fill) KN(move) KN(rchunk) KN(wchunk) KN(rand_chunk) KN(inbuf) KN(outbuf)
    KN(stdoutbuf) KN(max_steps) KN(crash_step) KN(stackfill) KN(max_mem) KN(max_fd) KN(cpu) KN(closed) KN(workers) KN(order)
    KN(quantum) KN(poolsz) KN(full_mem) KN(leakscan) KN(nosort)
    fprintf(stderr, "sim: unknown knob %s\n", k);
    _exit(4);
}

int hob3l_main(int, char **);

static void on_signal(int s)
{
    /* only async-signal-safe work: mark and leave */
    sim_sh->outcome = OUT_SIGNAL;
    sim_sh->code = (uint32_t)s;
    _exit(0);
}

#ifdef SIM_ASAN
static void asan_report(const char *t)
{
    /* first line and the topmost hob3l frames, without addresses */
    active = false;
    sim_sh->outcome = OUT_CHECK;
    char *o = sim_sh->msg, *e = o + sizeof sim_sh->msg - 2;
    const char *h = strstr(t, "AddressSanitizer: ");
    if (h == NULL) h = t;
    for (; *h && *h != '\n' && strncmp(h, " on ", 4) && strncmp(h, "(pc", 3) && o < e; h++) *o++ = *h;
    int n = 0;
    for (const char *f = strstr(t, "    #"); f && n < 5; f = strstr(f + 1, "    #")) {
        const char *in = strstr(f, " in ");
        const char *nl = strchr(f, '\n');
        if (!in || !nl || in > nl) continue;
        if (o < e) *o++ = n ? '<' : ' ';
        for (in += 4; *in && *in != ' ' && *in != '\n' && o < e; in++) *o++ = *in;
        n++;
    }
    *o = 0;
    _exit(0);
}
#endif

static void child(void)
{
    rng_s = mix(sim_kn.seed ^ 1); rng_mem = mix(sim_kn.seed ^ 2);
    rng_io = mix(sim_kn.seed ^ 3); rng_sched = mix(sim_kn.seed ^ 4);
    heap_init();
    stack_base = __builtin_frame_address(0);
    stack_lo = (uintptr_t)stack_base - (6u << 20);
#ifndef SIM_ASAN
    static char altstk[65536];
    stack_t ss = { .ss_sp = altstk, .ss_size = sizeof altstk };
    sigaltstack(&ss, NULL);
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT };
    for (size_t i = 0; i < sizeof sg / sizeof *sg; i++) {
        struct sigaction sa = { .sa_handler = on_signal, .sa_flags = SA_ONSTACK };
        sigaction(sg[i], &sa, NULL);
    }
#else
    (void)on_signal;
    __asan_set_error_report_callback(asan_report);
#endif
    struct rlimit rl = { sim_kn.cpu ? sim_kn.cpu : 120, (sim_kn.cpu ? sim_kn.cpu : 120) + 5 };
    setrlimit(RLIMIT_CPU, &rl);
    recompute_stop();
    const char *nm[3] = { "<stdin>", "<stdout>", "<stderr>" };
    for (int i = 0; i < 3; i++) {
        sim_file_t *f = file_find(nm[i]);
        if (!f) f = file_add(nm[i], 1);
        if (sim_kn.closed & (1 << i)) continue;
        fds[i] = (sim_fd_t){ .used = true, .f = f, .rd = i == 0, .wr = i != 0, .special = true };
    }
    FILE *in = make_stream(0, "r", sim_kn.inbuf);
    FILE *out = make_stream(1, "w", sim_kn.stdoutbuf);
    FILE *er = make_stream(2, "w", -1);
    if (!in || !out || !er) sim_finish(OUT_HARNESS, 0, "streams");
    stdin = in; stdout = out; stderr = er;
    errno = 0;
    active = true;
    if (hist_kind) {
        int r = sim_history_ord(hist_kind, hist_ops, hist_n) ? 0 : sim_history(hist_kind, hist_ops, hist_n);
        __wrap_exit(r);
    }
    __wrap_exit(hob3l_main(nargs, args));
}

int main(int argc, char **argv)
{
    (void)argc;
    /* fixed layout: addresses are part of the simulation, not of the run */
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NORE")) {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NORE", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    size_t tot = sizeof(sim_shared_t) + EV_SIZE + (1u << 20) + ARENA_SIZE + 65536;
    char *m = mmap(NULL, tot, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); return 4; }
    sim_sh = (void*)m;
    ev_buf = m + ((sizeof(sim_shared_t) + 4095) & ~4095ul);
    cov = (uint8_t*)ev_buf + EV_SIZE;
    arena = (char*)cov + (1u << 20);
    /* keep an image of libc's own streams for the zygote */
    static uint8_t allcov[1u << 20];
    char line[4096];
    for (;;) {
        /* reset */
        madvise(m, tot, MADV_REMOVE);
        sim_kn = (sim_knobs_t){ .max_steps = 400000000, .crash_step = -1, .stackfill = -1, .max_mem = 2ll << 30, .fill = 0xa5, .inbuf = 0 };
        nfault = 0; nargs = 0; hist_kind = NULL; hist_ops = NULL; hist_n = 0;
        static char *keep[1024]; static int nkeep;
        while (nkeep) __real_free(keep[--nkeep]);
        for (;;) {
            if (!rd_line(line, sizeof line)) return 0;
            char path[1024], k[64];
            long long a, b, c, d, f;
            int fl, er;
            if (line[0] == '.') break;
            if (sscanf(line, "A %lld", &a) == 1) {
                char *s = __real_malloc((size_t)a + 1);
                if (!rd_full(s, (size_t)a)) return 0;
                s[a] = 0;
                if (nargs < 255) { args[nargs++] = s; args[nargs] = NULL; }
                keep[nkeep++] = s;
            }
            else if (sscanf(line, "F %d %lld %1000s", &fl, &a, path) == 3) {
                sim_file_t *sf = file_add(path, (uint32_t)fl);
                if (!sf || !file_reserve(sf, (uint64_t)a + 1)) return 4;
                sf->flags = 1;
                if (!rd_full(arena + sf->off, (size_t)a)) return 0;
                sf->len = (uint64_t)a;
            }
            else if (sscanf(line, "K %63s %lld", k, &a) == 2) knob(k, a);
            else if (sscanf(line, "X %d %lld %lld %d %lld %lld %lld %1000s", &fl, &a, &b, &er, &c, &d, &f, path) == 8) {
                if (nfault < MAX_FAULTS) {
                    fault_t *x = &fault[nfault++];
                    memset(x, 0, sizeof *x);
                    x->kind = fl; x->from = a; x->count = b; x->err = er;
                    x->shrt = c; x->eof = (int)d; x->limit = f;
                    if (strcmp(path, "*")) snprintf(x->path, sizeof x->path, "%s", path);
                }
            }
            else if (sscanf(line, "H %63s %lld", k, &a) == 2) {
                hist_kind = strdup(k); keep[nkeep++] = hist_kind;
                hist_ops = __real_malloc((size_t)a + 1); keep[nkeep++] = (char*)hist_ops;
                hist_n = (size_t)a;
                if (!rd_full(hist_ops, hist_n)) return 0;
            }
            else { fprintf(stderr, "sim: bad plan line: %s\n", line); return 4; }
        }
        pid_t pid = fork();
        if (pid == 0) {
            int dn = open("/dev/null", O_RDWR);
            dup2(dn, 0);
#ifndef SIM_ASAN
            dup2(dn, 2);
#endif
            child();
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (sim_sh->outcome == OUT_NONE) {
            if (WIFSIGNALED(st)) { sim_sh->outcome = OUT_SIGNAL; sim_sh->code = (uint32_t)WTERMSIG(st); }
            else { sim_sh->outcome = OUT_SIGNAL; sim_sh->code = 1000 + (uint32_t)WEXITSTATUS(st); }
        }
        uint64_t edges = 0, hash = 0;
        uint64_t newedges = 0;
        for (uint32_t i = 0; i < (1u << 20); i++) if (cov[i]) {
            edges++; hash = mix(hash ^ i);
            if (!allcov[i]) { allcov[i] = 1; newedges++; }
        }
        sim_sh->edges = edges; sim_sh->cov_hash = hash;
        /* report */
        sim_shared_t *s = sim_sh;
        s->msg[sizeof s->msg - 1] = 0;
        char head[2048];
        int n = snprintf(head, sizeof head,
            "{\"outcome\":%u,\"code\":%u,\"steps\":%llu,\"allocs\":%llu,\"alloc_bytes\":%llu,\"peak\":%llu,"
            "\"ops\":[%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu],"
            "\"fired\":[%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu],"
            "\"shorts_r\":%llu,\"shorts_w\":%llu,\"moved\":%llu,\"nswitch\":%llu,\"open_end\":%llu,\"open_peak\":%llu,"
            "\"mem_errors\":%llu,\"leak\":[%llu,%llu,%llu,%llu],\"evlen\":%llu,\"evdrop\":%llu,\"edges\":%llu,\"newedges\":%llu,\"cov\":\"%016llx\",\"sched\":\"%016llx\",\"msglen\":%zu,\"nfiles\":%llu}\n",
            s->outcome, s->code, (unsigned long long)s->steps, (unsigned long long)s->allocs,
            (unsigned long long)s->alloc_bytes, (unsigned long long)s->peak_bytes,
#define Q(i) (unsigned long long)s->ops[i]
            Q(0),Q(1),Q(2),Q(3),Q(4),Q(5),Q(6),Q(7),Q(8),
#undef Q
#define Q(i) (unsigned long long)s->fired[i]
            Q(0),Q(1),Q(2),Q(3),Q(4),Q(5),Q(6),Q(7),Q(8),
            (unsigned long long)s->shorts_r, (unsigned long long)s->shorts_w, (unsigned long long)s->moved,
            (unsigned long long)s->nswitch, (unsigned long long)s->opens_live, (unsigned long long)s->opens_peak,
            (unsigned long long)s->mem_errors, (unsigned long long)s->leak_blocks, (unsigned long long)s->leak_bytes,
            (unsigned long long)s->live_blocks, (unsigned long long)s->live_at_scan,
            (unsigned long long)s->evlen, (unsigned long long)s->evdrop, (unsigned long long)edges,
            (unsigned long long)newedges, (unsigned long long)hash, (unsigned long long)s->sched_hash,
            strlen(s->msg), (unsigned long long)s->nfiles);
        wr_full(head, (size_t)n);
        wr_full(s->msg, strlen(s->msg));
        wr_full(ev_buf, s->evlen);
        for (size_t i = 0; i < s->nfiles; i++) {
            sim_file_t *f = &s->file[i];
            bool send = (f->flags & 2) || f->path[0] == '<' || (f->flags & 8);
            n = snprintf(head, sizeof head, "%u %u %lld %s\n", f->kind, f->flags, send ? (long long)f->len : -1ll, f->path);
            wr_full(head, (size_t)n);
            if (send) wr_full(arena + f->off, f->len);
        }
    }
}
/* 64-bit spellings */
FILE *__wrap_freopen64(const char *p, const char *m, FILE *f) { return __wrap_freopen(p, m, f); }
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __wrap_stat64(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_lstat64(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_mkstemp64(char *t) { return __wrap_mkstemp(t); }
FILE *__wrap_tmpfile64(void) { return __wrap_tmpfile(); }
char *__wrap___strdup(const char *s) { return __wrap_strdup(s); }
char *__wrap___strndup(const char *s, size_t n) { return __wrap_strndup(s, n); }

/* less usual ways to reach files: nothing of the code under test may get past the simulated disk */
#include <sys/uio.h>
#include <dirent.h>
int __wrap_openat(int dir, const char *p, int fl, ...)
{
    if (dir != AT_FDCWD && p[0] != '/') { errno = EBADF; return -1; }
    return __wrap_open(p, fl, 0666);
}
int __wrap_openat64(int dir, const char *p, int fl, ...) { return __wrap_openat(dir, p, fl, 0666); }
int __wrap_dup(int fd) { return __wrap_fcntl(fd, F_DUPFD, 0); }
int __wrap_dup2(int fd, int to)
{
    if (!fd_ok(fd) || to < 0 || to >= NFD) { errno = EBADF; return -1; }
    if (to == fd) return to;
    if (fds[to].used) sim_close(to);
    fds[to] = fds[fd];
    fds[to].fp = NULL;
    fds[to].buf = NULL;
    return to;
}
int __wrap_dup3(int fd, int to, int fl) { (void)fl; return __wrap_dup2(fd, to); }
static ssize_t at_pos(int fd, void *b, size_t n, off_t o, bool wr)
{
    if (!fd_ok(fd)) return -1;
    if (fds[fd].special) { errno = ESPIPE; return -1; }
    uint64_t old = fds[fd].pos;
    fds[fd].pos = (uint64_t)o;
    ssize_t r = wr ? sim_write1(fd, b, n) : sim_read(fd, b, n);
    fds[fd].pos = old;
    return r;
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return at_pos(fd, b, n, o, false); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return at_pos(fd, b, n, o, false); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return at_pos(fd, (void*)b, n, o, true); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return at_pos(fd, (void*)b, n, o, true); }
static ssize_t vec_io(int fd, const struct iovec *v, int n, bool wr)
{
    ssize_t t = 0;
    if (!fd_ok(fd)) return -1;
    for (int i = 0; i < n; i++) {
        if (v[i].iov_len == 0) continue;
        ssize_t r = wr ? sim_write1(fd, v[i].iov_base, v[i].iov_len) : sim_read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return vec_io(fd, v, n, false); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return vec_io(fd, v, n, true); }
int __wrap_truncate(const char *p, off_t n)
{
    int fd = __wrap_open(p, O_WRONLY), r;
    if (fd < 0) return -1;
    r = __wrap_ftruncate(fd, n);
    sim_close(fd);
    return r;
}
static int no_change(const char *what, const char *p)
{
    sim_event("%llu %s %s", (unsigned long long)sim_sh->steps, what, p);
    return 0;
}
int __wrap_mkdir(const char *p, mode_t m) { (void)m; errno = EEXIST; if (file_find(p)) return -1; errno = EACCES; no_change("mkdir", p); return -1; }
int __wrap_rmdir(const char *p) { no_change("rmdir", p); errno = EACCES; return -1; }
int __wrap_chmod(const char *p, mode_t m) { (void)m; return no_change("chmod", p); }
int __wrap_fchmod(int fd, mode_t m) { (void)m; return fd_ok(fd) ? 0 : -1; }
int __wrap_fchown(int fd, uid_t u, gid_t g) { (void)u; (void)g; return fd_ok(fd) ? 0 : -1; }
int __wrap_chdir(const char *p) { no_change("chdir", p); errno = EACCES; return -1; }
int __wrap_symlink(const char *a, const char *b) { (void)a; no_change("symlink", b); errno = EPERM; return -1; }
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { (void)b; (void)n; errno = file_find(p) ? EINVAL : ENOENT; return -1; }
int __wrap_link(const char *a, const char *b)
{
    sim_file_t *f = file_find(a);
    if (!f || file_find(b)) { errno = f ? EEXIST : ENOENT; return -1; }
    int fd = __wrap_open(b, O_CREAT|O_WRONLY|O_EXCL, 0666);
    if (fd < 0) return -1;
    f = file_find(a);
    if (f->len) file_pwrite(fds[fd].f, 0, arena + f->off, f->len);
    return sim_close(fd);
}
char *__wrap_realpath(const char *p, char *r)
{
    char cwd[64], t[4096];
    __wrap_getcwd(cwd, sizeof cwd);
    if (!file_find(p) && !implied_dir(p)) { errno = ENOENT; return NULL; }
    if (p[0] == '/') norm(t, sizeof t, p);
    else { char q[4000]; norm(q, sizeof q, p); snprintf(t, sizeof t, "%s/%s", cwd, q); }
    if (r == NULL) return __wrap_strdup(t);
    strcpy(r, t);
    return r;
}
char *__wrap_canonicalize_file_name(const char *p) { return __wrap_realpath(p, NULL); }
void *__wrap_mmap(void *at, size_t n, int prot, int fl, int fd, off_t o)
{
    if (!active) return mmap(at, n, prot, fl, fd, o);
    if (fl & MAP_ANONYMOUS) {
        if (alloc_fails(n)) { errno = ENOMEM; return MAP_FAILED; }
        return mmap(at, n, prot, fl, fd, o);
    }
    if (!fd_ok(fd)) return MAP_FAILED;
    sim_file_t *f = fds[fd].f;
    char *m = mmap(NULL, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return m;
    if ((uint64_t)o < f->len) {
        uint64_t k = f->len - (uint64_t)o < n ? f->len - (uint64_t)o : n;
        memcpy(m, arena + f->off + o, k);
    }
    sim_event("%llu mmap %s", (unsigned long long)sim_sh->steps, f->path);
    return m;
}
void *__wrap_mmap64(void *at, size_t n, int prot, int fl, int fd, off_t o) { return __wrap_mmap(at, n, prot, fl, fd, o); }

/* directories: the entries come in an order that depends on the seed */
typedef struct { size_t n, i; struct dirent *e; } sim_dir_t;
static int dirent_cmp(const void *a, const void *b)
{
    const struct dirent *x = a, *y = b;
    return x->d_ino < y->d_ino ? -1 : x->d_ino > y->d_ino;
}
DIR *__wrap_opendir(const char *p)
{
    char b[512];
    norm(b, sizeof b, p);
    sim_file_t *f = file_find(p);
    bool ok = f ? f->kind == 2 : implied_dir(p) != NULL;
    sim_sh->ops[K_STAT]++;
    sim_event("%llu opendir %s -> %d", (unsigned long long)sim_sh->steps, p, ok);
    if (!ok) { errno = f ? ENOTDIR : ENOENT; return NULL; }
    size_t n = !strcmp(b, "/") ? 0 : strlen(b);
    sim_dir_t *d = __real_malloc(sizeof *d);
    d->n = d->i = 0;
    d->e = __real_malloc((SIM_NFILES + 2) * sizeof *d->e);
    for (size_t i = 0; i < sim_sh->nfiles + 2; i++) {
        char nm[512] = "";
        int type = DT_DIR;
        if (i >= sim_sh->nfiles) strcpy(nm, i == sim_sh->nfiles ? "." : "..");
        else {
            sim_file_t *g = &sim_sh->file[i];
            if (!g->kind || (g->flags & 8)) continue;
            const char *q = g->path;
            if (n) { if (strncmp(q, b, n) || q[n] != '/') continue; q += n + 1; }
            else if (*b == '/') { if (*q != '/') continue; q++; }
            else if (*q == '/' || *q == '<') continue;
            size_t l = strcspn(q, "/");
            if (l == 0 || l > 255) continue;
            memcpy(nm, q, l); nm[l] = 0;
            if (q[l] == 0 && g->kind != 2) type = DT_REG;
        }
        bool have = false;
        for (size_t k = 0; !have && k < d->n; k++) have = !strcmp(d->e[k].d_name, nm);
        if (have) continue;
        struct dirent *e = &d->e[d->n++];
        memset(e, 0, sizeof *e);
        strcpy(e->d_name, nm);
        e->d_type = (unsigned char)type;
        uint64_t h = sim_kn.seed + 99;
        for (const char *c = nm; *c; c++) h = mix(h ^ (unsigned char)*c);
        e->d_ino = h | 1;
    }
    qsort(d->e, d->n, sizeof *d->e, dirent_cmp);
    return (DIR*)d;
}
struct dirent *__wrap_readdir(DIR *p) { sim_dir_t *d = (sim_dir_t*)p; return d->i < d->n ? &d->e[d->i++] : NULL; }
struct dirent64 *__wrap_readdir64(DIR *p) { return (struct dirent64*)__wrap_readdir(p); }
void __wrap_rewinddir(DIR *p) { ((sim_dir_t*)p)->i = 0; }
int __wrap_closedir(DIR *p) { sim_dir_t *d = (sim_dir_t*)p; __real_free(d->e); __real_free(d); return 0; }
long __wrap_sysconf(int n)
{
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 1 + (long)(mix(sim_kn.seed + 5) % 16);
    return sysconf(n);
}
