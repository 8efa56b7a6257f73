#include "simrt.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>

uint64_t sim_next(SimRng *r)
{
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint64_t sim_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = p; size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, c + i, 8); h = (h ^ v) * 0x9fb21c651e98df25ULL; h ^= h >> 32; }
    for (; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h ^ (h >> 29);
}

struct SimHeap sim_heap = { .fill = FILL_NONE };
struct Ent { uintptr_t p; size_t n; uint64_t seq; void *site; int live; };
static struct Ent *tab; static size_t cap, cnt; static uint64_t seq;
static size_t hidx(uintptr_t p) { uint64_t z = p * 0x9e3779b97f4a7c15ULL; return (z >> 20) & (cap - 1); }
static struct Ent *find(uintptr_t p)
{
    if (!cap) return NULL;
    for (size_t i = hidx(p);; i = (i + 1) & (cap - 1)) {
        if (tab[i].p == 0) return NULL;
        if (tab[i].p == p) return &tab[i];
    }
}
static struct Ent *ins(uintptr_t p)
{
    if (cnt * 2 >= cap) {
        size_t oc = cap; struct Ent *ot = tab;
        cap = cap ? cap * 2 : 1 << 14;
        tab = calloc(cap, sizeof *tab); cnt = 0;
        for (size_t i = 0; i < oc; ++i)
            if (ot[i].p) {
                size_t j = hidx(ot[i].p);
                while (tab[j].p) j = (j + 1) & (cap - 1);
                tab[j] = ot[i]; cnt++;
            }
        if (ot) free(ot);
    }
    size_t i = hidx(p);
    while (tab[i].p && tab[i].p != p) i = (i + 1) & (cap - 1);
    if (!tab[i].p) { tab[i].p = p; cnt++; }
    return &tab[i];
}
static void fill(unsigned char *p, size_t n)
{
    switch (sim_heap.fill) {
        case FILL_ZERO: memset(p, 0, n); break;
        case FILL_ONES: memset(p, 0xff, n); break;
        case FILL_RANDOM:
            for (size_t i = 0; i < n; i += 8) {
                uint64_t v = sim_next(&sim_heap.rng);
                memcpy(p + i, &v, n - i < 8 ? n - i : 8);
            }
            break;
        case FILL_MIX: {
            int k = sim_next(&sim_heap.rng) % 4;
            double d = (double) (sim_next(&sim_heap.rng) % 1000) / 100 - 5;
            for (size_t i = 0; i < n; i += 8) {
                uint64_t v = 0;
                if (k == 0) v = 0;
                else if (k == 1) v = ~0ULL;
                else if (k == 2) memcpy(&v, &d, 8);
                else v = sim_next(&sim_heap.rng);
                memcpy(p + i, &v, n - i < 8 ? n - i : 8);
            }
            break;
        }
        default: break;
    }
}
static void reg(void *p, size_t n, void *site)
{
    struct Ent *e = ins((uintptr_t) p);
    e->n = n; e->seq = ++seq; e->site = site; e->live = 1;
    sim_heap.n_alloc++; sim_heap.live_blocks++; sim_heap.live_bytes += n;
}
static void *alloc_at(size_t n, void *site)
{
    if (sim_heap.pad && sim_next(&sim_heap.rng) % 3 == 0) {
        volatile char *junk = malloc(1 + sim_next(&sim_heap.rng) % 200); /* layout noise, kept */
        if (junk) junk[0] = 1;
    }
    if (n > (512u << 20)) return NULL; /* the simulated machine has no more */
    void *p = malloc(n);
    if (!p) return NULL;
    fill(p, n);
    reg(p, n, site);
    return p;
}
void *sim_malloc(size_t n) { return alloc_at(n, __builtin_return_address(0)); }
void *sim_calloc(size_t a, size_t b)
{
    if (b && a > (512u << 20) / b) return NULL;
    void *p = calloc(a, b);
    if (p) reg(p, a * b, __builtin_return_address(0));
    return p;
}
static void unreg(struct Ent *e)
{
    e->live = 0; sim_heap.n_free++; sim_heap.live_blocks--; sim_heap.live_bytes -= e->n;
}
static void dofree(void *p)
{
    if (!p) return;
    struct Ent *e = find((uintptr_t) p);
    if (!e) { free(p); return; } /* allocated by a library */
    if (!e->live) {
        if (sim_heap.quarantine) { sim_heap.bad_free++; return; }
        free(p); return; /* address reused by a library allocation */
    }
    unreg(e);
    if (sim_heap.quarantine) {
        /* spoil the contents; the address is not reused in this process */
        memset(p, 0xdd, e->n);
        return;
    }
    free(p);
}
void sim_free(void *p) { dofree(p); }
void *sim_realloc(void *p, size_t n)
{
    if (!p) return alloc_at(n, __builtin_return_address(0));
    struct Ent *e = find((uintptr_t) p);
    if (!e || !e->live) return realloc(p, n);
    if (n == 0) { dofree(p); return NULL; }
    size_t old = e->n;
    void *q = alloc_at(n, __builtin_return_address(0));
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    dofree(p);
    return q;
}
void *__wrap_malloc(size_t n) { return alloc_at(n, __builtin_return_address(0)); }
void *__wrap_calloc(size_t a, size_t b) { return sim_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return sim_realloc(p, n); }
void __wrap_free(void *p) { dofree(p); }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1; char *p = alloc_at(n, __builtin_return_address(0));
    if (p) memcpy(p, s, n);
    return p;
}
uint64_t sim_heap_mark(void) { return seq; }
uint64_t sim_heap_live_since(uint64_t mark, uint64_t *bytes, void **site)
{
    uint64_t k = 0, b = 0, best = 0;
    for (size_t i = 0; i < cap; ++i)
        if (tab[i].p && tab[i].live && tab[i].seq > mark) {
            k++; b += tab[i].n;
            if (site && (best == 0 || tab[i].seq < best)) { best = tab[i].seq; *site = tab[i].site; }
        }
    if (bytes) *bytes = b;
    return k;
}
int sim_heap_live(const void *p, size_t *size)
{
    struct Ent *e = find((uintptr_t) p);
    if (!e || !e->live) return 0;
    if (size) *size = e->n;
    return 1;
}
