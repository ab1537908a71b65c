#include "alloc.h"
#include <errno.h>
#include <stdint.h>
#include <string.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void*, size_t);
void __real_free(void*);

int al_on;
void (*al_hook)(void);
void (*al_range_hook)(void *, size_t, int);
static int fill_byte;
static unsigned long count, failed, fail_at, live, live_bytes, capped;
static int fail_all;
static size_t cap = (size_t)1 << 30;

typedef struct { void *p; size_t n; } ent;
static ent *tab; static size_t tabcap, tabused; /* open addressing, tombstone = (void*)1 */
static size_t slot_of(void *p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9e3779b97f4a7c15ull; return (x >> 20) & (tabcap - 1); }
static void tab_put(void *p, size_t n);
static void grow(void)
{
    ent *old = tab; size_t oc = tabcap, i;
    size_t newcap = oc == 0 ? 4096 : (live * 4 >= oc ? oc * 2 : oc);
    tab = (ent*)__real_calloc(newcap, sizeof(ent)); tabcap = newcap; tabused = 0;
    for(i = 0; i < oc; i++) if(old[i].p && old[i].p != (void*)1) tab_put(old[i].p, old[i].n);
    __real_free(old);
}
static void tab_put(void *p, size_t n)
{
    if((tabused + 1) * 2 > tabcap) grow();
    size_t i = slot_of(p);
    while(tab[i].p && tab[i].p != (void*)1) i = (i + 1) & (tabcap - 1);
    if(!tab[i].p) tabused++;
    tab[i].p = p; tab[i].n = n;
}
static ent *tab_get(void *p)
{
    if(!tabcap) return 0;
    size_t i = slot_of(p);
    while(tab[i].p) { if(tab[i].p == p) return &tab[i]; i = (i + 1) & (tabcap - 1); }
    return 0;
}

void al_begin(int f) { fill_byte = f; count = failed = live = live_bytes = capped = 0; fail_at = 0; fail_all = 0; if(tabused) { memset(tab, 0, tabcap * sizeof(ent)); tabused = 0; } al_on = 1; }
void al_fail(unsigned long n, int all) { fail_at = n; fail_all = all; }
void al_end(void) { al_on = 0; }
unsigned long al_count(void) { return count; }
unsigned long al_failed(void) { return failed; }
unsigned long al_live(void) { return live; }
unsigned long al_live_bytes(void) { return live_bytes; }
unsigned long al_capped(void) { return capped; }
void al_cap(size_t max) { cap = max; }
void al_sweep(void)
{
    size_t i; for(i = 0; i < tabcap; i++) if(tab[i].p && tab[i].p != (void*)1) { __real_free(tab[i].p); tab[i].p = (void*)1; }
    live = live_bytes = 0;
}
static int denied(size_t n)
{
    count++;
    if(fail_at && (count == fail_at || (fail_all && count > fail_at))) { failed++; errno = ENOMEM; return 1; }
    if(n > cap) { capped++; errno = ENOMEM; return 1; }
    return 0;
}
static void added(void *p, size_t n) { tab_put(p, n); live++; live_bytes += n; if(al_range_hook) al_range_hook(p, n, 0); }

void *__wrap_malloc(size_t n)
{
    if(!al_on) return __real_malloc(n);
    if(al_hook) al_hook();
    if(denied(n)) return 0;
    void *p = __real_malloc(n);
    if(p) { if(fill_byte >= 0) memset(p, fill_byte, n); added(p, n); }
    return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
    if(!al_on) return __real_calloc(a, b);
    if(al_hook) al_hook();
    if(b && a > SIZE_MAX / b) { count++; return 0; }
    if(denied(a * b)) return 0;
    void *p = __real_calloc(a, b);
    if(p) added(p, a * b);
    return p;
}
void *__wrap_realloc(void *q, size_t n)
{
    if(!al_on) return __real_realloc(q, n);
    if(al_hook) al_hook();
    if(denied(n)) return 0;
    ent *e = q ? tab_get(q) : 0; size_t old = e ? e->n : 0; int had = e != 0;
    if(e) { e->p = (void*)1; live--; live_bytes -= old; if(al_range_hook) al_range_hook(q, old, 1); }
    void *p = __real_realloc(q, n);
    if(p) { if(fill_byte >= 0 && n > old && (had || !q)) memset((char*)p + old, fill_byte, n - old); added(p, n); }
    else if(n && had) added(q, old);
    return p;
}
void __wrap_free(void *p)
{
    if(!al_on) { /* a monitored block may be freed after monitoring stopped */
        ent *e = p ? tab_get(p) : 0; if(e) { e->p = (void*)1; live--; live_bytes -= e->n; }
        __real_free(p); return; }
    if(al_hook) al_hook();
    if(!p) return;
    ent *e = tab_get(p);
    if(e) { if(fill_byte >= 0) memset(p, fill_byte ^ 0xff, e->n); live--; live_bytes -= e->n; if(al_range_hook) al_range_hook(p, e->n, 1); e->p = (void*)1; }
    __real_free(p);
}

/* stand-ins for functions of the tools, if these do not exist (any more) outside their main file */
__attribute__((weak)) int IFF_join(void) { return -12345; }
__attribute__((weak)) int IFF_prettyPrint(void) { return -12345; }
