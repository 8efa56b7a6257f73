/* Simulation runtime: every source of nondeterminism of the code under test
 * goes through here (threads, memory, disk, clock, exit). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif

#define SIM_MAXT 8

/* ---- prng ---- */
typedef struct { uint64_t s; } SimRng;
uint64_t sim_next(SimRng *r);
static inline uint64_t sim_below(SimRng *r, uint64_t n) { return n ? sim_next(r) % n : 0; }
uint64_t sim_hash(uint64_t h, const void *p, size_t n);
#define SIM_HASH0 1469598103934665603ULL

/* ---- heap ---- */
enum { FILL_ZERO = 0, FILL_ONES = 1, FILL_RANDOM = 2, FILL_MIX = 3, FILL_NONE = 4 };
struct SimHeap {
    int fill; int quarantine; int pad; SimRng rng;
    uint64_t n_alloc, n_free, live_blocks, live_bytes, bad_free;
};
extern struct SimHeap sim_heap;
void *sim_malloc(size_t n);
void *sim_calloc(size_t a, size_t b);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
/* number of live blocks allocated after mark */
uint64_t sim_heap_mark(void);
uint64_t sim_heap_live_since(uint64_t mark, uint64_t *bytes, void **site);
/* is p a live block; size out */
int sim_heap_live(const void *p, size_t *size);

/* ---- disk ---- */
#define SIM_MAXFILES 64
#define SIM_FILECAP (16u << 20)
#define SIM_NAMELEN 200
struct SimFile { char name[SIM_NAMELEN]; int used; uint32_t size; };
struct SimDisk { struct SimFile f[SIM_MAXFILES]; };
extern struct SimDisk *sim_disk; /* shared mapping */
unsigned char *sim_file_data(int idx);
void sim_disk_init(void);
void sim_disk_reset(void);
int sim_disk_find(const char *name);
int sim_disk_put(const char *name, const void *data, size_t n);
void sim_disk_remove(const char *name);
enum { DF_OPEN, DF_WRITE, DF_READ, DF_CLOSE, DF_FLUSHSHORT, DF_NKINDS };
struct SimDiskFault { int kind; char file[64]; long at; int err; int sticky; int fired; int armed; };
#define SIM_MAXFAULTS 32
extern struct SimDiskFault sim_dfaults[SIM_MAXFAULTS];
extern int sim_n_dfaults;
extern int sim_disk_faults_on;
extern long sim_disk_chunk; /* max bytes per simulated read/write call, 0 = unlimited */
extern SimRng sim_disk_rng;
extern int sim_open_files;
extern uint64_t sim_kill_at; /* crash the process at this disk operation */
extern uint64_t sim_disk_ops, sim_disk_short;
extern uint64_t sim_fault_fired[DF_NKINDS];

/* ---- clock ---- */
extern int64_t sim_clock_s, sim_clock_step, sim_clock_reads;

extern SimRng sim_entropy; /* rand(), getrandom(), ... */

/* ---- exit ---- */
extern void (*sim_exit_hook)(int code);

/* ---- threads ---- */
enum { SCHED_ORDER = 0, SCHED_RANDOM = 1, SCHED_PCT = 2, SCHED_EXPLICIT = 3 };
struct SimSwitch { uint64_t step; int to; };
struct SimSched {
    int mode; SimRng rng; int mean; int pct_d; int team; /* team: 0 = as requested */
    int team_random;
    const struct SimSwitch *expl; int n_expl; int pos_expl;
    uint64_t steps;      /* instrumented accesses, everywhere */
    uint64_t psteps;     /* instrumented accesses inside parallel regions */
    uint64_t regions, multi_regions, switches, preempts;
    uint64_t hash;       /* hash of the interleaving */
    uint64_t budget;     /* step budget (0 none) */
    int log_on; struct SimSwitch *log; int n_log, cap_log;
    int race_on;
};
extern struct SimSched sim_sched;
extern void (*sim_budget_hook)(void);
struct SimRace { const void *pc1, *pc2; uintptr_t addr; int w1, w2, t1, t2; uint64_t region; };
#define SIM_MAXRACES 16
extern struct SimRace sim_races[SIM_MAXRACES];
extern int sim_n_races;
extern uint64_t sim_shared_accesses; /* accesses to locations touched by >1 worker in the same region */
extern int sim_deadlock;
void sim_threads_init(void);
int sim_in_parallel(void);

#ifdef __cplusplus
}
#endif
