/* Allocation monitor: the code under test is linked with -Wl,--wrap=malloc etc. */
#ifndef ALLOC_H
#define ALLOC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* start monitoring; fill: byte written into fresh memory, or -1 */
void al_begin(int fill);
/* let the allocation number n (1-based, counted from al_begin) fail; if all != 0 every later one as well; n = 0: none */
void al_fail(unsigned long n, int all);
/* stop monitoring; blocks that are still allocated stay known */
void al_end(void);
/* number of allocations requested since al_begin */
unsigned long al_count(void);
/* number of injected failures since al_begin */
unsigned long al_failed(void);
/* blocks/bytes allocated since al_begin and not freed yet */
unsigned long al_live(void);
unsigned long al_live_bytes(void);
/* release everything that is still allocated (after a leak was observed) */
void al_sweep(void);
/* largest single request that is served; larger ones fail (and are counted) */
void al_cap(size_t max);
unsigned long al_capped(void);
extern int al_on;
/* hook called at every allocator call while monitoring, or NULL */
extern void (*al_hook)(void);
/* hook called with freed/allocated ranges */
extern void (*al_range_hook)(void *p, size_t n, int is_free);
#ifdef __cplusplus
}
#endif
#endif
