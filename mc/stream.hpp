// Streams whose behaviour the checker decides, capture of diagnostics and of the standard streams.
#pragma once
#include "mc.hpp"
#include "iffall.hpp"
#include "alloc.h"
#include <cerrno>
#include <string>

// what a failing medium leaves in errno: the outcome must not depend on it
static inline int io_errno(size_t k) { static const int e[] = {EIO, EINTR, ENOSPC, EAGAIN, EPIPE, EFBIG, EINVAL, EBADF, EDQUOT, ENOMEM, EPERM}; return e[k % (sizeof e / sizeof *e)]; }

// ---- input -------------------------------------------------------------------------------------------------------
struct MemIn {
    const unsigned char *d = nullptr;
    size_t n = 0, pos = 0;
    size_t fail_at = SIZE_MAX;  // reading the byte at this offset gives an I/O error
    size_t chunk = SIZE_MAX;    // at most so many bytes per read call
    bool seekable = true;
    u_int64_t calls = 0, eofs = 0, errors = 0;
    u_int64_t max_calls = 0;    // 0: unlimited
    size_t err = SIZE_MAX;      // which errno a fault gives; by default the fault's place decides
    void (*hook)() = nullptr;
    char ib[2048];              // the stream's buffer; a MemIn has to outlive its stream
};
static ssize_t mi_read(void *c, char *b, size_t k)
{
    MemIn *m = (MemIn*)c; m->calls++;
    if(m->hook) m->hook();
    if(m->pos >= m->fail_at) { m->errors++; errno = io_errno(m->err != SIZE_MAX ? m->err : m->fail_at + m->n); return -1; }
    size_t r = m->n - m->pos; if(r > k) r = k; if(r > m->chunk) r = m->chunk;
    if(m->fail_at != SIZE_MAX && r > m->fail_at - m->pos) r = m->fail_at - m->pos;
    if(r == 0) m->eofs++;
    memcpy(b, m->d + m->pos, r); m->pos += r; return (ssize_t)r;
}
static int mi_seek(void *c, off64_t *o, int w)
{
    MemIn *m = (MemIn*)c; if(!m->seekable) { errno = ESPIPE; return -1; }
    off64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)m->pos : (off64_t)m->n;
    off64_t t = base + *o; if(t < 0) { errno = EINVAL; return -1; }
    m->pos = (size_t)t > m->n ? m->n + (size_t)0 * 0 + ((size_t)t - m->n) : (size_t)t; // like a file: beyond the end is allowed
    *o = t; return 0;
}
static ssize_t mi_read_guard(void *c, char *b, size_t k) { MemIn *m = (MemIn*)c; if(m->pos > m->n) { m->calls++; m->eofs++; return 0; } return mi_read(c, b, k); }
static inline FILE *open_in(MemIn *m, bool buffered = false)
{
    cookie_io_functions_t f = { mi_read_guard, nullptr, m->seekable ? mi_seek : nullptr, nullptr };
    FILE *fp = fopencookie(m, "rb", f);
    if(!buffered) setvbuf(fp, nullptr, _IONBF, 0); else setvbuf(fp, m->ib, _IOFBF, sizeof m->ib);
    return fp;
}
static inline FILE *open_in(MemIn *m, const std::string &s, bool buffered = false) { m->d = (const unsigned char*)s.data(); m->n = s.size(); m->pos = 0; return open_in(m, buffered); }

// ---- output ------------------------------------------------------------------------------------------------------
struct MemOut {
    std::string buf;
    size_t budget = SIZE_MAX;   // bytes that are accepted; then writes fail
    bool transient = false;     // fail only once at the budget, accept afterwards
    bool tripped = false;
    size_t err = SIZE_MAX;
    u_int64_t calls = 0, errors = 0;
    void (*hook)() = nullptr;
    char ob[4096];
};
static ssize_t mo_write(void *c, const char *b, size_t k)
{
    MemOut *m = (MemOut*)c; m->calls++;
    if(m->hook) m->hook();
    size_t room = m->budget == SIZE_MAX || (m->transient && m->tripped) ? SIZE_MAX : m->budget - m->buf.size();
    size_t r = k < room ? k : room; // taking less than offered is an error for glibc's custom streams
    if(r < k) { m->errors++; m->tripped = true; errno = io_errno(m->err != SIZE_MAX ? m->err : m->budget); }
    m->buf.append(b, r); return (ssize_t)r;
}
static inline FILE *open_out(MemOut *m, bool buffered = false)
{
    cookie_io_functions_t f = { nullptr, mo_write, nullptr, nullptr };
    FILE *fp = fopencookie(m, "wb", f);
    if(!buffered) setvbuf(fp, nullptr, _IONBF, 0); else setvbuf(fp, m->ob, _IOFBF, sizeof m->ob);
    return fp;
}

// ---- diagnostics -------------------------------------------------------------------------------------------------
extern std::string g_diag;      // text passed to the callback since diag_begin
extern unsigned g_diag_calls;
extern void (*g_diag_hook)();
extern bool g_diag_bad;         // a format string was malformed or text was implausible
static inline void diag_cb(const char *f, va_list ap)
{
    if(g_diag_hook) g_diag_hook();
    static thread_local char b[8192]; int n = vsnprintf(b, sizeof b, f, ap); if(n < 0) g_diag_bad = true; else if(g_diag.size() < 100000) g_diag.append(b, n < (int)sizeof b ? n : (int)sizeof b - 1);
    g_diag_calls++;
}
static inline void diag_begin() { IFF_errorCallback = &diag_cb; g_diag.clear(); g_diag_calls = 0; }

// ---- standard streams --------------------------------------------------------------------------------------------
// replaces stdout/stderr/stdin of this process (glibc: assignable) while in scope
struct SwapOut { FILE **which, *save; SwapOut(FILE **w, FILE *f) : which(w), save(*w) { *w = f; } ~SwapOut() { *which = save; } };

struct Capture { // captures the standard output
    MemOut m; FILE *f, *save;
    Capture() { f = open_out(&m, true); save = stdout; stdout = f; }
    std::string end() { if(f) { stdout = save; fclose(f); f = nullptr; } return m.buf; }
    ~Capture() { end(); }
};

static inline std::string hex(const std::string &s, size_t max = 160)
{
    std::string o; char b[4];
    for(size_t i = 0; i < s.size() && i < max; i++) { unsigned char c = s[i]; snprintf(b, 4, "%02x", c); o += b; if(i % 4 == 3) o += ' '; }
    if(s.size() > max) o += mc::fmt("... (%zu bytes)", s.size());
    return o;
}
