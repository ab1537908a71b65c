#ifndef TSANHOOKS_H
#define TSANHOOKS_H
enum { TS_ACCESS = 1, TS_CONFLICT = 2, TS_FUNC = 4, TS_EXIT = 8, TS_LIB = 16 };
#ifdef __cplusplus
extern "C" {
#endif
void ts_access(void *p, unsigned long n, int write);
void ts_point(int kind);
void ts_blocked(void);
#ifdef __cplusplus
}
#endif
#endif
