// The heap of the module in the Python world: counts live blocks, fills fresh
// memory with a pattern and spoils released memory.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <unordered_map>
static std::unordered_map<void *, size_t> *live; static unsigned char fillb = 0xA5;
static std::unordered_map<void *, size_t> &L() { if (!live) live = new std::unordered_map<void *, size_t>(); return *live; }
extern "C" {
void *simpy_malloc(size_t n) { void *p = malloc(n ? n : 1); if (p) { memset(p, fillb, n); L()[p] = n; } return p; }
void *simpy_calloc(size_t a, size_t b) { void *p = calloc(a * b ? a : 1, a * b ? b : 1); if (p) L()[p] = a * b; return p; }
void simpy_free(void *p) { if (!p) return; auto i = L().find(p); if (i != L().end()) { memset(p, 0xDD, i->second); L().erase(i); } free(p); }
void *simpy_realloc(void *p, size_t n)
{
    if (!p) return simpy_malloc(n);
    auto i = L().find(p); if (i == L().end()) return realloc(p, n);
    void *q = simpy_malloc(n); memcpy(q, p, i->second < n ? i->second : n); simpy_free(p); return q;
}
char *simpy_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) simpy_malloc(n); memcpy(p, s, n); return p; }
__attribute__((visibility("default"))) long simpy_live(void) { return (long) L().size(); }
__attribute__((visibility("default"))) void simpy_fill(int b) { fillb = (unsigned char) b; }
struct Hooks { void *(*m)(size_t); void (*f)(void *); };
void cJSON_InitHooks(Hooks *);
}
__attribute__((constructor)) static void hooks() { Hooks h = { simpy_malloc, simpy_free }; cJSON_InitHooks(&h); }
