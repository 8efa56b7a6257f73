#define _GNU_SOURCE
#include "simrt.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

struct SimDisk *sim_disk; static unsigned char *blob;
struct SimDiskFault sim_dfaults[SIM_MAXFAULTS]; int sim_n_dfaults; int sim_disk_faults_on;
long sim_disk_chunk; SimRng sim_disk_rng; int sim_open_files;
uint64_t sim_kill_at; uint64_t sim_disk_ops, sim_disk_short, sim_fault_fired[DF_NKINDS];

/* a crash of the simulated process at its k-th disk operation */
static void dop(void) { if (++sim_disk_ops == sim_kill_at) _exit(37); }
unsigned char *sim_file_data(int i) { return blob + (size_t) i * SIM_FILECAP; }
void sim_disk_init(void)
{
    sim_disk = mmap(0, sizeof *sim_disk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    blob = mmap(0, (size_t) SIM_MAXFILES * SIM_FILECAP, PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sim_disk == MAP_FAILED || blob == MAP_FAILED) { perror("mmap"); _exit(99); }
}
void sim_disk_reset(void)
{
    for (int i = 0; i < SIM_MAXFILES; ++i)
        if (sim_disk->f[i].used && sim_disk->f[i].size > 0)
            madvise(sim_file_data(i), SIM_FILECAP, MADV_REMOVE);
    memset(sim_disk, 0, sizeof *sim_disk);
}
int sim_disk_find(const char *name)
{
    for (int i = 0; i < SIM_MAXFILES; ++i)
        if (sim_disk->f[i].used && strcmp(sim_disk->f[i].name, name) == 0) return i;
    return -1;
}
static int create(const char *name)
{
    for (int i = 0; i < SIM_MAXFILES; ++i)
        if (!sim_disk->f[i].used) {
            sim_disk->f[i].used = 1; sim_disk->f[i].size = 0;
            strncpy(sim_disk->f[i].name, name, SIM_NAMELEN - 1);
            return i;
        }
    return -1;
}
int sim_disk_put(const char *name, const void *d, size_t n)
{
    int i = sim_disk_find(name);
    if (i < 0) i = create(name);
    if (i < 0 || n > SIM_FILECAP) return -1;
    memcpy(sim_file_data(i), d, n); sim_disk->f[i].size = n;
    return i;
}
void sim_disk_remove(const char *name) { int i = sim_disk_find(name); if (i >= 0) sim_disk->f[i].used = 0; }

struct Ck { int idx; long pos; int append; char name[SIM_NAMELEN]; long written, nread; int rd, wr; int fd; };
#define MAXCK 64
static struct Ck *cks[MAXCK]; static FILE *ckf[MAXCK];

static struct SimDiskFault *fault(int kind, const char *name, long lo, long hi)
{
    if (!sim_disk_faults_on) return NULL;
    for (int i = 0; i < sim_n_dfaults; ++i) {
        struct SimDiskFault *f = &sim_dfaults[i];
        if (f->kind != kind) continue;
        if (f->file[0] && !strstr(name, f->file)) continue;
        if (f->fired && !f->sticky) continue;
        if (kind == DF_WRITE || kind == DF_READ) { if (f->at < lo) { if (!(f->sticky && f->fired)) continue; } if (f->at >= hi && !(f->fired && f->sticky)) continue; }
        return f;
    }
    return NULL;
}
static long chunk(long n)
{
    if (sim_disk_chunk > 0 && n > 1) {
        long m = 1 + (long) sim_below(&sim_disk_rng, sim_disk_chunk);
        if (m < n) { sim_disk_short++; return m; }
    }
    return n;
}
/* As glibc does on a real descriptor: loop over the simulated write(2) calls. */
static ssize_t ck_write(void *v, const char *buf, size_t n)
{
    struct Ck *c = v; size_t done = 0;
    while (done < n) {
        long want = chunk((long) (n - done)); dop();
        if (c->append) c->pos = sim_disk->f[c->idx].size;
        struct SimDiskFault *f = fault(DF_WRITE, c->name, c->written, c->written + want);
        if (f) {
            long ok = (f->fired && f->sticky) ? 0 : f->at - c->written;
            f->fired++; sim_fault_fired[DF_WRITE]++;
            if (ok > 0) {
                memcpy(sim_file_data(c->idx) + c->pos, buf + done, ok);
                c->pos += ok; c->written += ok; done += ok;
                if (c->pos > (long) sim_disk->f[c->idx].size) sim_disk->f[c->idx].size = c->pos;
            }
            errno = f->err;
            return (ssize_t) done; /* fewer than n: stdio sets the error flag */
        }
        if (c->pos + want > (long) SIM_FILECAP) { errno = EFBIG; return (ssize_t) done; }
        memcpy(sim_file_data(c->idx) + c->pos, buf + done, want);
        c->pos += want; c->written += want; done += want;
        if (c->pos > (long) sim_disk->f[c->idx].size) sim_disk->f[c->idx].size = c->pos;
    }
    return (ssize_t) n;
}
static ssize_t ck_read(void *v, char *buf, size_t n)
{
    struct Ck *c = v; dop();
    long left = (long) sim_disk->f[c->idx].size - c->pos;
    long want = (long) n < left ? (long) n : left;
    if (want > 0) want = chunk(want);
    struct SimDiskFault *f = fault(DF_READ, c->name, c->pos, c->pos + (want > 0 ? want : 1));
    if (f) {
        long ok = (f->fired && f->sticky) ? 0 : f->at - c->pos;
        if (ok > 0 && ok <= want) { /* deliver what precedes the bad sector first */
            memcpy(buf, sim_file_data(c->idx) + c->pos, ok); c->pos += ok; return ok;
        }
        f->fired++; sim_fault_fired[DF_READ]++;
        errno = f->err;
        return -1;
    }
    if (want <= 0) return 0;
    memcpy(buf, sim_file_data(c->idx) + c->pos, want); c->pos += want;
    return want;
}
static int ck_seek(void *v, off64_t *off, int wh)
{
    struct Ck *c = v; long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? c->pos : (long) sim_disk->f[c->idx].size;
    b += *off;
    if (b < 0) { errno = EINVAL; return -1; }
    c->pos = b; *off = b;
    return 0;
}
static int ck_close(void *v)
{
    struct Ck *c = v; int r = 0; dop();
    struct SimDiskFault *f = fault(DF_CLOSE, c->name, 0, 1);
    if (f && c->wr) { f->fired++; sim_fault_fired[DF_CLOSE]++; errno = f->err; r = -1;
        /* delayed allocation: a failed close means the tail never reached the disk */
        long lose = f->at; if (lose > 0) { long s = sim_disk->f[c->idx].size; sim_disk->f[c->idx].size = lose < s ? s - lose : 0; } }
    for (int i = 0; i < MAXCK; ++i) if (cks[i] == c) { cks[i] = NULL; ckf[i] = NULL; }
    sim_open_files--;
    free(c);
    return r;
}
FILE *__wrap_fopen(const char *name, const char *mode)
{
    dop();
    struct SimDiskFault *f = fault(DF_OPEN, name, 0, 1);
    if (f) { f->fired++; sim_fault_fired[DF_OPEN]++; errno = f->err; return NULL; }
    int i = sim_disk_find(name); int plus = strchr(mode, '+') != NULL;
    if (mode[0] == 'r') { if (i < 0) { errno = ENOENT; return NULL; } }
    else {
        if (i < 0) i = create(name);
        if (i < 0) { errno = ENOSPC; return NULL; }
        if (mode[0] == 'w') sim_disk->f[i].size = 0;
    }
    struct Ck *c = calloc(1, sizeof *c);
    c->idx = i; c->append = mode[0] == 'a'; strncpy(c->name, name, SIM_NAMELEN - 1);
    c->rd = mode[0] == 'r' || plus; c->wr = mode[0] != 'r' || plus;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *fp = fopencookie(c, mode, io);
    for (int k = 0; k < MAXCK; ++k) if (!cks[k]) { cks[k] = c; ckf[k] = fp; c->fd = 1000000 + k; break; }
    sim_open_files++;
    return fp;
}
FILE *__wrap_fopen64(const char *n, const char *m) { return __wrap_fopen(n, m); }
int __wrap_fileno(FILE *fp)
{
    for (int k = 0; k < MAXCK; ++k) if (ckf[k] == fp && fp) return 1000000 + k;
    return fileno(fp);
}
int __wrap_fsync(int fd) { if (fd >= 1000000) { dop(); return 0; } return fsync(fd); }
int __wrap_fdatasync(int fd) { if (fd >= 1000000) { dop(); return 0; } return fdatasync(fd); }
int __wrap_rename(const char *a, const char *b)
{
    dop();
    struct SimDiskFault *f = fault(DF_OPEN, b, 0, 1);
    if (f) { f->fired++; sim_fault_fired[DF_OPEN]++; errno = f->err; return -1; }
    int i = sim_disk_find(a);
    if (i < 0) { errno = ENOENT; return -1; }
    if (strcmp(a, b) == 0) return 0;
    sim_disk_remove(b);
    memset(sim_disk->f[i].name, 0, SIM_NAMELEN); strncpy(sim_disk->f[i].name, b, SIM_NAMELEN - 1);
    return 0;
}
int __wrap_remove(const char *a)
{
    dop();
    int i = sim_disk_find(a);
    if (i < 0) { errno = ENOENT; return -1; }
    sim_disk->f[i].used = 0;
    return 0;
}
int __wrap_unlink(const char *a) { return __wrap_remove(a); }
int __wrap_access(const char *a, int m) { (void) m; if (sim_disk_find(a) >= 0) return 0; errno = ENOENT; return -1; }

/* clock */
int64_t sim_clock_s = 1500000000, sim_clock_step = 1, sim_clock_reads;
static int64_t tick(void) { sim_clock_reads++; int64_t t = sim_clock_s; sim_clock_s += sim_clock_step; return t; }
time_t __wrap_time(time_t *t) { time_t v = (time_t) tick(); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { (void) id; ts->tv_sec = tick(); ts->tv_nsec = (sim_clock_reads * 7919) % 1000000000; return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void) z; tv->tv_sec = tick(); tv->tv_usec = (sim_clock_reads * 7919) % 1000000; return 0; }
clock_t __wrap_clock(void) { return (clock_t) (tick() * 1000 + sim_clock_reads); }
pid_t __wrap_getpid(void) { return (pid_t) (4000 + sim_clock_s % 1000); }

/* exit */
void (*sim_exit_hook)(int code);
void __wrap_exit(int code) { if (sim_exit_hook) sim_exit_hook(code); exit(code); }

/* other entropy sources: a seeded stream that the simulator controls */
SimRng sim_entropy = { 1 };
int __wrap_rand(void) { return (int) (sim_next(&sim_entropy) >> 33); }
void __wrap_srand(unsigned s) { sim_entropy.s = s; }
long __wrap_random(void) { return (long) (sim_next(&sim_entropy) >> 33); }
void __wrap_srandom(unsigned s) { sim_entropy.s = s; }
double __wrap_drand48(void) { return (double) (sim_next(&sim_entropy) >> 11) / 9007199254740992.0; }
long __wrap_lrand48(void) { return (long) (sim_next(&sim_entropy) >> 33); }
void __wrap_srand48(long s) { sim_entropy.s = (uint64_t) s; }
int __wrap_rand_r(unsigned *p) { SimRng r = { *p }; *p = (unsigned) sim_next(&r); return (int) (*p >> 1); }
uint32_t __wrap_arc4random(void) { return (uint32_t) sim_next(&sim_entropy); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void) f; for (size_t i = 0; i < n; ++i) ((unsigned char *) b)[i] = (unsigned char) sim_next(&sim_entropy); return (ssize_t) n; }
int __wrap_getentropy(void *b, size_t n) { __wrap_getrandom(b, n, 0); return 0; }
