// C05: a write that loses any byte is reported as failed.
#include "api.hpp"
#include "ext.hpp"
#include "giant.hpp"
#include <climits>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if(!d) return -1; while(readdir(d)) n++; closedir(d); return n; }

static void unchanged(Ctx &c, const IFF_Chunk *l, const Node &n)
{
    std::string bad; Node g = from_lib(l, nullptr, &bad);
    if(!bad.empty() || !(g == n)) c.fail("writing changed the hierarchy: %s instead of %s %s", desc(g).c_str(), desc(n).c_str(), bad.c_str());
}
static void verdict(Ctx &c, bool ok, const std::string &out, const std::string &want, size_t budget, bool fault, const char *how, const Node &n)
{
    c.state(comb(comb(hash_str(want), budget), comb(hash_str(how), ok)));
    if(c.noting()) c.note(fmt("%s: %zu of %zu bytes accepted by the medium -> %s", how, budget, want.size(), ok ? "success" : "failure"));
    if(ok && out != want) c.fail("%s: success is reported although only %zu of %zu bytes were delivered (limit %zu): %s", how, out.size(), want.size(), budget, desc(n).c_str());
    if(ok && fault) c.fail("%s: success is reported although the medium failed (limit %zu of %zu): %s", how, budget, want.size(), desc(n).c_str());
    if(!ok && !fault) c.fail("%s: failure is reported although the medium took everything: %s %s", how, g_diag.c_str(), desc(n).c_str());
    if(!ok && g_diag_calls == 0) c.fail("%s: failure without a diagnostic (limit %zu): %s", how, budget, desc(n).c_str());
}

static ssize_t at_end(void *, char *, size_t) { return 0; }
static FILE *open_update(MemOut *m, bool buffered)
{
    cookie_io_functions_t f = { at_end, mo_write, nullptr, nullptr }; FILE *fp = fopencookie(m, "r+b", f);
    if(buffered) setvbuf(fp, m->ob, _IOFBF, sizeof m->ob); else setvbuf(fp, nullptr, _IONBF, 0); return fp;
}

// custom streams: the medium refuses at byte offset `budget`, for good or once
static u64 streams(Ctx &c, const Node &n, IFF_Chunk *l, const std::string &want, const std::vector<size_t> &budgets)
{
    u64 ex = 0;
    for(size_t b : budgets)
        for(int v = 0; v < 12; v++)
        {
            bool buffered = v & 1, transient = v & 2, out = v & 4; // out: through the standard output
            bool update = v & 8; // open for update, and read up to its end before
            MemOut m; m.budget = b; m.transient = transient; m.err = c.job + b * 8 + v; FILE *f = update ? open_update(&m, buffered) : open_out(&m, buffered);
            if(update && (fgetc(f) != EOF || !feof(f))) c.fail("(harness) the stream is not at its end");
            diag_begin(); al_begin(0x5A); bool ok;
            if(out) { SwapOut s(&stdout, f); ok = IFF_write(nullptr, l, nullptr); } else ok = IFF_writeFd(f, l, nullptr);
            al_end();
            std::string got = m.buf; bool fault = m.tripped;
            if(al_live()) c.fail("writing left %lu blocks allocated", al_live());
            // a failure of the stream itself may become visible only when it is closed by its owner; it must not lose bytes silently
            verdict(c, ok, got, want, b, fault, out ? (buffered ? "buffered standard output" : "unbuffered standard output") : buffered ? "buffered stream" : "unbuffered stream", n);
            fclose(f); ex++; c.trans(1);
        }
    unchanged(c, l, n);
    return ex;
}

// ---- named files: the library's own fopen is replaced by a stream that fails where the checker says ------------------------
extern "C" { FILE *__real_fopen(const char*, const char*); FILE *__wrap_fopen(const char*, const char*); }
static MemOut *hooked; static size_t hook_opens, hook_closes, hooked_err; static bool hook_close_fails, hook_buffered;
static ssize_t hk_write(void *c, const char *b, size_t k) { return mo_write(c, b, k); }
static int hk_close(void *) { hook_closes++; if(hook_close_fails) { errno = io_errno(hooked_err); return -1; } return 0; }
FILE *__wrap_fopen(const char *p, const char *mode)
{
    if(!hooked || !strchr(mode, 'w')) return __real_fopen(p, mode);
    hook_opens++;
    cookie_io_functions_t f = { nullptr, hk_write, nullptr, hk_close };
    FILE *fp = fopencookie(hooked, "wb", f);
    if(hook_buffered) setvbuf(fp, hooked->ob, _IOFBF, sizeof hooked->ob); else setvbuf(fp, nullptr, _IONBF, 0);
    return fp;
}
static u64 files(Ctx &c, const Node &n, IFF_Chunk *l, const std::string &want, const std::vector<size_t> &budgets)
{
    u64 ex = 0;
    for(size_t b : budgets)
        for(int v = 0; v < 16; v++)
        {
            MemOut m; m.budget = b; m.transient = v & 2; m.err = hooked_err = c.job + b * 16 + v; hook_buffered = v & 1; hook_close_fails = v & 4;
            hooked = &m; hook_opens = hook_closes = 0; diag_begin();
            bool ok = v & 8 ? IFF_writeFile("any", l, nullptr) : IFF_write("any", l, nullptr);
            hooked = nullptr; ex++; c.trans(1);
            if(hook_opens == 0) { unlink("any"); return ex; } // opened in some other way: decided by the real files below
            if(hook_closes != hook_opens) c.fail("the file is not closed after a %s write (limit %zu)", ok ? "successful" : "failing", b);
            verdict(c, ok, m.buf, want, b, m.tripped || hook_close_fails, hook_close_fails ? "file whose closing fails" : hook_buffered ? "buffered file" : "unbuffered file", n);
        }
    unchanged(c, l, n);
    return ex;
}

static std::vector<size_t> every(size_t n) { std::vector<size_t> v; for(size_t i = 0; i <= n + 1; i++) v.push_back(i); return v; }
static std::string slurp(const std::string &p)
{
    std::string s; FILE *f = fopen(p.c_str(), "rb"); if(!f) return "";
    char b[65536]; size_t k; while((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s;
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
    E.assume("a medium fails by refusing bytes from one offset on, once or for good, or by failing to close; success means handed over to the operating system, not persisted by it");
    Alphabet a; a.raws = {mkraw(DA, ""), mkraw(DB, "x"), mkraw(TEXT, "abc")}; a.formtypes = {TA}; a.conttypes = {TA, JJJJ};
    static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
    { Alphabet b = a; b.legal_only = false; for(auto &t : Trees(b).upto(T ? 4 : 3)) trees.push_back(t); for(auto &r : a.raws) trees.push_back(r); }
    { Alphabet b = a; b.raws = {mkraw(FILL, "f"), mkraw(0, "zz"), mkraw(JJJJ, "abcd")}; for(auto &t : Trees(b).upto(3)) trees.push_back(t); }
    E.fact("trees", trees.size());
    E.scene("streams", trees.size(), [](Ctx &c) { const Node &n = trees[c.job]; std::string w = ser(n); Chunk l(to_lib(n)); u64 e = streams(c, n, l, w, every(w.size())); c.execs(e); c.validated(e); });
    E.scene("files", T ? trees.size() : std::min(trees.size(), (size_t)1200), [](Ctx &c) { const Node &n = trees[c.job]; std::string w = ser(n); Chunk l(to_lib(n)); u64 e = files(c, n, l, w, every(w.size())); c.execs(e); c.validated(e); });
    // stale sizes: a chunk whose size exceeds its contents is filled up with zeroes, which can fail as well
    {
        static std::vector<Node> st;
        for(u32 id : {FORM, CATT, LIST, PROP}) for(int extra : {1, 2, 3, 5, 8, 100, 4095, 5000}) { Node k = mkgroup(id, TA); k.size = 4 + extra; st.push_back(k); Node q = mkgroup(FORM, TB, {mkraw(DA, "1"), k, mkraw(DB, "23")}); Node r = q; fixsizes(r); q.size = r.size + extra; q.kids[1].size = k.size; if(id != PROP) st.push_back(q); Node s = k; s.kids.push_back(mkraw(DA, "abc")); s.size = 16 + extra; st.push_back(s); }
        for(u32 id : {FORM, CATT, LIST, PROP}) for(int z = 0; z < 4; z++) { Node k; k.id = id; k.size = z; st.push_back(k); }
        E.scene("filler", st.size(), [](Ctx &c) {
            Node n = st[c.job]; std::string w; 
            // expected bytes: header, contents, zeroes up to the stated size, padding
            std::function<void(const Node&, std::string&)> full = [&](const Node &x, std::string &o) { put32(o, x.id); put32(o, x.size); size_t s = o.size(); if(x.is_group()) { if(x.size >= 4) { put32(o, x.type); for(auto &p : x.props) full(p, o); for(auto &k : x.kids) full(k, o); } } else o += x.data; if(o.size() - s < (size_t)x.size) o.append(x.size - (o.size() - s), 0); if(x.size & 1) o += '\0'; };
            full(n, w); Chunk l(to_lib(n));
            std::vector<size_t> b; for(size_t i = 0; i <= w.size() + 1; i++) if(i < 60 || i + 60 > w.size() || i % 509 == 0) b.push_back(i);
            u64 e = streams(c, n, l, w, b) + files(c, n, l, w, b); c.execs(e); c.validated(e);
        });
    }
    // sizes that no chunk can have: whatever is written, it is not this hierarchy
    {
        static std::vector<Node> legal; for(auto &t : Trees(a).upto(T ? 4 : 3)) legal.push_back(t); for(auto &r : a.raws) legal.push_back(r);
        static const IFF_Long bads[] = {-1, -2, -7, -8, -4096, INT_MIN + 1, INT_MIN};
        E.scene("unstatable", legal.size(), [](Ctx &c)
        {
            Node &n = legal[c.job]; fixsizes(n); u64 ex = 0; std::string p = fmt("%s/u%d", ::E->tmpdir.c_str(), (int)getpid());
            Chunk l(to_lib(n)); std::vector<IFF_Chunk*> all; std::function<void(IFF_Chunk*)> walk = [&](IFF_Chunk *x) { all.push_back(x); if(x->chunkId == FORM || x->chunkId == PROP || x->chunkId == CATT || x->chunkId == LIST) { IFF_Group *g = (IFF_Group*)x; if(x->chunkId == LIST) for(unsigned i = 0; i < ((IFF_List*)x)->propLength; i++) walk((IFF_Chunk*)((IFF_List*)x)->prop[i]); for(unsigned i = 0; i < g->chunkLength; i++) walk(g->chunk[i]); } };
            walk(l); if(all.size() != n.count()) c.fail("%s has %zu chunks", desc(n).c_str(), all.size());
            for(size_t i = 0; i < all.size(); i++) for(IFF_Long b : bads)
            {
                IFF_Long was = all[i]->chunkSize; all[i]->chunkSize = b;
                for(int how = 0; how < 4; how++)
                {
                    diag_begin(); bool ok; size_t fds = open_fds(); al_begin(0x5A);
                    if(how < 2) { MemOut m; FILE *f = open_out(&m, true); if(how) { SwapOut s(&stdout, f); ok = IFF_write(nullptr, l, nullptr); } else ok = IFF_writeFd(f, l, nullptr); fclose(f); }
                    else ok = how == 2 ? IFF_writeFile(p.c_str(), l, nullptr) : IFF_write(p.c_str(), l, nullptr);
                    al_end(); ex++; c.trans(1); c.state(comb(comb(hash_str(ser(n)), i), comb((u32)b, ok)));
                    if(ok) c.fail("chunk %zu states the size %d, yet writing reports success: %s", i, b, desc(n).c_str());
                    if(!g_diag_calls) c.fail("chunk %zu states the size %d: failure without a diagnostic", i, b);
                    if(open_fds() != (int)fds) c.fail("a descriptor stays open"); if(al_live()) c.fail("writing left %lu blocks allocated", al_live());
                    if(all[i]->chunkSize != b) c.fail("writing changed the size of chunk %zu", i);
                }
                all[i]->chunkSize = was; unlink(p.c_str());
            }
            unchanged(c, l, n); c.execs(ex); c.validated(ex);
        });
        // sums beyond the largest size: with the sizes that adding and updating leave behind, never a success; otherwise every byte
        static std::vector<Gi> gi; for(auto &g : gi_all({2, 0x40000000, 0x7fffffe0, 0x7fffffff}, 2)) if(!g.fits()) gi.push_back(g);
        E.scene("too_large", gi.size(), [](Ctx &c)
        {
            const Gi &m = gi[c.job]; IFF_Chunk *l = gi_build(m); struct Free { IFF_Chunk *l; ~Free() { gi_free(l); } } own{l}; u64 ex = 0; c.note(m.text());
            if(m.size() <= 0x7fffffff && l->chunkSize >= 0) { c.execs(1); return; } // only a chunk within is too large: nothing tells
            std::vector<std::pair<const Gi*, IFF_Chunk*>> v; gi_pairs(m, l, v);
            for(int upd = 0; upd < 2; upd++)
            {
                if(upd) for(auto &q : v) if(q.first->group() && q.first->kids.empty() && q.first->props.empty()) IFF_updateChunkSizes(q.second); else if(!q.first->group()) IFF_updateChunkSizes(q.second);
                struct Sink { static ssize_t w(void *k, const char *, size_t n) { *(u64*)k += n; return n; } }; u64 took = 0;
                cookie_io_functions_t io = { nullptr, Sink::w, nullptr, nullptr }; FILE *f = fopencookie(&took, "wb", io); diag_begin(); bool ok = IFF_writeFd(f, l, nullptr); if(fclose(f)) ok = false;
                ex++; c.trans(1); c.state(comb(hash_str(m.text()), comb(upd, took)));
                if(ok) c.fail("%s cannot be stated in a file, yet writing %lu bytes reports success", m.text().c_str(), took);
                if(!g_diag_calls) c.fail("%s: failure without a diagnostic", m.text().c_str());
            }
            c.execs(ex); c.validated(ex);
        });
    }
    // large hierarchies: limits around every power of two, at the ends and on a grid
    {
        static std::vector<Big> big = big_trees(T, T ? SIZE_MAX : 140000);
        if(!T) for(size_t s : {(size_t)262147, (size_t)524288, (size_t)1048577, (size_t)1500002, (size_t)16777219, (size_t)16777222}) { big.push_back({fmt("data size %zu, first", s), fixed(mkgroup(FORM, TA, {mkraw(DA, bigdata(s)), mkraw(DB, "xy")}))}); big.push_back({fmt("data size %zu, last", s), fixed(mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DB, "xy"), mkraw(DA, bigdata(s))})}))}); }
        E.fact("one_axis_large_trees", big.size());
        E.scene("large", big.size(), [](Ctx &c)
        {
            const Node &n = big[c.job].n; std::string w = ser(n); Chunk l(to_lib(n)); c.note(big[c.job].name);
            std::vector<size_t> b; size_t z = w.size();
            for(size_t i : {0, 1, 3, 4, 7, 8, 11, 12, 13, 16, 19, 20, 21}) b.push_back(i);
            for(size_t i = 1; i <= 14 && i <= z; i++) b.push_back(z - i);
            for(size_t p = 64; p + 1 < z; p *= 2) { b.push_back(p - 1); b.push_back(p); b.push_back(p + 1); }
            for(int i = 1; i < 8; i++) b.push_back(z / 8 * i);
            if(z > 300000 || n.count() > 3000) b = {0, 8, 12, 20, z / 2, z - 13, z - 12, z - 2, z - 1};
            b.push_back(z); b.push_back(z + 1);
            u64 e = streams(c, n, l, w, b); e += files(c, n, l, w, b); c.execs(e); c.validated(e);
        });
    }
    // whatever the name of a file: one that can be created and one whose folder is missing
    E.scene("names", 64, [T](Ctx &c)
    {
        static Node t = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "abc")})}, {mkgroup(PROP, TA, {mkraw(DB, "p")})})); std::string w = ser(t), d = fmt("%s/n%d/", ::E->tmpdir.c_str(), (int)getpid()); mkdir(d.c_str(), 0700); mkdir((d + "sub").c_str(), 0700); u64 n = 0; int fds = open_fds(); Chunk l(to_lib(t));
        auto v = file_names(d, T), v2 = file_names(d + "none/", T); v2.resize(std::min(v2.size(), v.size()));
        for(size_t i = c.job; i < v.size(); i += 64) for(int how = 0; how < 2; how++) for(int place = 0; place < 3; place++)
        {
            if(place == 1 && i >= v2.size()) continue; std::string name = place == 1 ? v2[i] : v[i]; const char *p = name.c_str(); size_t lim = place == 2 ? 1 + i % (w.size() - 1) : w.size();
            struct rlimit old, r; getrlimit(RLIMIT_FSIZE, &old); r = old; r.rlim_cur = lim; diag_begin(); if(place == 2) setrlimit(RLIMIT_FSIZE, &r);
            bool ok = how ? IFF_write(p, l, nullptr) : IFF_writeFile(p, l, nullptr); if(place == 2) setrlimit(RLIMIT_FSIZE, &old);
            verdict(c, ok, place == 1 ? "" : slurp(name), w, place == 1 ? 0 : lim, place > 0, p, t); n++; c.trans(1); unlink(p);
        }
        if(open_fds() != fds) c.fail("%d descriptors stay open", open_fds() - fds); unchanged(c, l, t); c.execs(n); c.validated(n);
    });
    // the real thing: files with a size limit, a full device, unopenable destinations; no descriptor stays open
    {
        static std::vector<Node> real;
        for(size_t i = 0; i < trees.size(); i++) if(trees[i].count() <= 2) real.push_back(trees[i]);
        for(size_t s : {500, 4089, 4090, 5000, 9000, 70000}) real.push_back(fixed(mkgroup(FORM, TA, {mkraw(DA, bigdata(s)), mkraw(DB, "end")})));
        E.scene("operating_system", real.size(), [](Ctx &c)
        {
            const Node &n = real[c.job]; std::string w = ser(n); Chunk l(to_lib(n)); u64 e = 0;
            std::string p = fmt("%s/f%d", ::E->tmpdir.c_str(), (int)getpid());
            int fds = open_fds();
            std::vector<size_t> lim; if(w.size() < 64) lim = every(w.size()); else lim = {0, 1, 8, 20, 4095, 4096, 4097, 8192, w.size() / 2, w.size() - 5, w.size() - 1, w.size(), w.size() + 1};
            for(size_t b : lim) for(int how = 0; how < 3; how++)
            {
                struct rlimit old, r; getrlimit(RLIMIT_FSIZE, &old); r = old; r.rlim_cur = b; diag_begin();
                unlink(p.c_str());
                bool ok; FILE *f = how == 2 ? __real_fopen(p.c_str(), "wb") : nullptr;
                setrlimit(RLIMIT_FSIZE, &r);
                if(how == 2) { SwapOut s(&stdout, f); ok = IFF_write(nullptr, l, nullptr); } else ok = how ? IFF_write(p.c_str(), l, nullptr) : IFF_writeFile(p.c_str(), l, nullptr);
                setrlimit(RLIMIT_FSIZE, &old);
                std::string got = slurp(p); if(f) fclose(f);
                verdict(c, ok, got, w, b, b < w.size(), how == 2 ? "standard output to a size-limited file" : "size-limited file", n); e++; c.trans(1);
            }
            unlink(p.c_str());
            for(const char *bad : {"/dev/full", "/nonexistent/file", ".", "", "/proc/self/mem/x"})
            {
                diag_begin(); bool ok = IFF_writeFile(bad, l, nullptr); if(ok) c.fail("writing to '%s' succeeded", bad); if(!g_diag_calls) c.fail("no diagnostic for '%s'", bad);
                diag_begin(); ok = IFF_write(bad, l, nullptr); if(ok) c.fail("writing to '%s' succeeded", bad); if(!g_diag_calls) c.fail("no diagnostic for '%s'", bad);
                e += 2;
            }
            { FILE *f = __real_fopen("/dev/full", "wb"); diag_begin(); bool ok; { SwapOut s(&stdout, f); ok = IFF_write(nullptr, l, nullptr); } fclose(f); if(ok) c.fail("writing to a full standard output succeeded"); e++; }
            { int fd[2]; if(!pipe(fd)) { close(fd[0]); FILE *f = fdopen(fd[1], "wb"); diag_begin(); bool ok = IFF_writeFd(f, l, nullptr); fclose(f); if(ok) c.fail("writing to a closed pipe succeeded"); e++; } }
            { std::string in = w; MemIn m; FILE *f = open_in(&m, in, true); diag_begin(); bool ok = IFF_writeFd(f, l, nullptr); fclose(f); if(ok) c.fail("writing to a read-only stream succeeded"); e++; }
            if(open_fds() != fds) c.fail("%d descriptors stay open", open_fds() - fds);
            unchanged(c, l, n);
            c.execs(e); c.validated(e);
        });
    }
    // an extension chunk's own write procedure fails (or the bytes behind its fields cannot be written): the whole write fails
    {
        static int refuse_at, calls;
        struct X { static IFF_Bool write(FILE *f, const IFF_Chunk *k, const IFF_ChunkRegistry *r, IFF_Long *p) { if(calls++ == refuse_at) { IFF_error("refused\n"); return FALSE; } return ext::write(f, k, r, p); } };
        static IFF_ChunkType xt[] = {{ext::types[0].chunkId, &ext::create, &ext::read, &X::write, &ext::check, &ext::freec, &ext::print, &ext::compare}};
        static IFF_ChunkTypesNode xn = {1, xt, nullptr}; static IFF_FormChunkTypes xf[] = {{TA, &xn}};
        static const IFF_ChunkRegistry xr = {1, xf, &IFF_globalChunkTypesNode, &IFF_defaultChunkType};
        static const int where = 7;
        E.scene("write_procedures", where * 4, [](Ctx &c)
        {
            int place = c.job % where, extra = (int[]){0, 1, 30, 5001}[c.job / where]; u32 EX = ext::types[0].chunkId; u64 ex = 0;
            auto node = [&](int salt) { std::string d = bigdata(12 + extra, salt); for(int i = 12; i < 12 + extra; i++) d[i] = 0; return mkraw(EX, d); };
            Node form = mkgroup(FORM, TA, {mkraw(DA, "1"), node(1), mkraw(DB, "xyz"), node(2)}), t;
            switch(place)
            {
                case 0: t = form; break;
                case 1: t = mkgroup(FORM, TA, {node(3)}); break;
                case 2: t = mkgroup(CATT, TA, {form, form}); break;
                case 3: t = mkgroup(LIST, TA, {form}, {mkgroup(PROP, TA, {node(4), mkraw(DA, "p")})}); break;
                case 4: t = mkgroup(LIST, JJJJ, {mkgroup(CATT, TA, {form})}, {mkgroup(PROP, TA, {mkraw(DA, "p"), node(5)}), mkgroup(PROP, TB)}); break;
                case 5: t = mkgroup(FORM, TA, {mkgroup(LIST, TA, {}, {mkgroup(PROP, TA, {node(6)})}), node(7)}); break;
                case 6: t = mkgroup(FORM, TB, {mkgroup(FORM, TB, {mkgroup(FORM, TA, {node(8)})})}); break;
            }
            fixsizes(t); std::string want = ser(t); Chunk l(read_bytes(want, &xr), &xr); if(!l.c) c.fail("cannot read %s", desc(t).c_str());
            int total; { refuse_at = -1; calls = 0; std::string out; diag_begin(); if(!write_bytes(l, out, &xr) || out != want) c.fail("%s is not written faithfully: %s", desc(t).c_str(), hex(out).c_str()); total = calls; }
            for(refuse_at = 0; refuse_at <= total; refuse_at++) for(int how = 0; how < 5; how++)
            {
                calls = 0; diag_begin(); bool ok; std::string p = fmt("%s/w%d", ::E->tmpdir.c_str(), (int)getpid());
                if(how < 2) { MemOut m; FILE *f = open_out(&m, how); ok = IFF_writeFd(f, l, &xr); fclose(f); }
                else if(how == 2) { MemOut m; FILE *f = open_out(&m, true); { SwapOut s(&stdout, f); ok = IFF_write(nullptr, l, &xr); } fclose(f); }
                else { ok = how == 3 ? IFF_writeFile(p.c_str(), l, &xr) : IFF_write(p.c_str(), l, &xr); unlink(p.c_str()); }
                ex++; c.trans(1); c.state(comb(comb(hash_str(want), refuse_at), ok));
                if(ok && refuse_at < total) c.fail("the write procedure of extension chunk %d of %d failed, yet %s reports success: %s", refuse_at, total, how < 2 ? "IFF_writeFd" : how == 3 ? "IFF_writeFile" : "IFF_write", desc(t).c_str());
                if(!ok && refuse_at >= total) c.fail("a faultless write fails: %s", g_diag.c_str());
                if(!ok && !g_diag_calls) c.fail("failure without a diagnostic");
            }
            // and the medium refuses within the fields, the zero bytes behind them and the padding
            refuse_at = -1; std::vector<size_t> b; for(size_t i = 0; i <= want.size() + 1; i++) if(want.size() < 400 || i < 90 || i + 60 > want.size() || i % 509 == 0) b.push_back(i);
            for(size_t k : b) for(int v = 0; v < 4; v++)
            {
                MemOut m; m.budget = k; m.transient = v & 2; FILE *f = open_out(&m, v & 1); diag_begin(); bool ok = IFF_writeFd(f, l, &xr); std::string got = m.buf; bool fault = m.tripped; fclose(f);
                verdict(c, ok, got, want, k, fault, "stream, extension chunks", t); ex++; c.trans(1);
            }
            c.execs(ex); c.validated(ex);
        });
    }
}
