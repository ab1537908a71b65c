// C17: operations on independent hierarchies never influence each other; inspection leaves hierarchies alone.
// Two real threads execute operations of the library under a scheduler that decides at every function boundary, library
// call, allocation, stream access, diagnostic and (where chosen) memory access which of them goes on.  Memory accesses of
// both are recorded first; if no address is touched by both with a write among the accesses, all interleavings of the two
// operations are equivalent; if there are such addresses, every access to them is a scheduling point.
#include "api.hpp"
#include "ext.hpp"
#include "tsanhooks.h"
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
using namespace mc;

// ---- what an operation is --------------------------------------------------------------------------------------------------
struct Task { std::function<void()> run; std::function<std::string()> finish; FILE *out = nullptr, *in = nullptr; };
typedef std::shared_ptr<Task> TaskP;
struct Op { std::string name; std::function<TaskP()> make; };

// ---- scheduler ---------------------------------------------------------------------------------------------------------------
static __thread int tid = -1;
static std::string tdiag[2], mdiag; static unsigned tcalls[2];
static void sched_diag(const char *f, va_list ap) { ts_point(TS_LIB); char b[8192]; int n = vsnprintf(b, sizeof b, f, ap); (tid < 0 ? mdiag : tdiag[tid]).append(b, n < (int)sizeof b ? n : (int)sizeof b - 1); if(tid >= 0) tcalls[tid]++; }

static struct {
    pthread_t th[2]; sem_t sem[2], home; pid_t owner = 0; char *lo[2], *hi[2];
    TaskP task[2]; bool done[2]; FILE *std_out[2], *std_in[2];
    int mask = 0, stage, first; u64 n[2], at1, at2; bool active = false;
    // recording
    bool rec = false; std::unordered_map<u64, int> acc[2]; std::map<char*, size_t> own; bool busy = false;
    std::unordered_set<u64> conflict;
} S;
static std::atomic<u64> *n_sched, *n_conflicts, *n_points, *n_pairs, *n_static;

static void switch_to(int t, int self) { S.std_out[self] = stdout; S.std_in[self] = stdin; stdout = S.std_out[t]; stdin = S.std_in[t]; sem_post(&S.sem[t]); while(sem_wait(&S.sem[self])) {} }
extern "C" void ts_point(int kind)
{
    if(tid < 0 || !S.active || !(kind & S.mask)) return;
    u64 k = ++S.n[tid];
    if(S.stage == 0 && tid == S.first && k == S.at1) { S.stage = 1; if(!S.done[1 - tid]) switch_to(1 - tid, tid); }
    else if(S.stage == 1 && tid != S.first && k == S.at2) { S.stage = 2; if(!S.done[1 - tid]) switch_to(1 - tid, tid); }
}
extern "C" void ts_blocked(void) { if(tid >= 0 && !S.done[1 - tid]) switch_to(1 - tid, tid); else sched_yield(); }
extern "C" void ts_access(void *p, unsigned long n, int w)
{
    if(tid < 0 || !S.active) return;
    if(S.rec)
    {
        if(S.busy || ((char*)p >= S.lo[tid] && (char*)p < S.hi[tid])) return;
        S.busy = true; auto i = S.own.upper_bound((char*)p); bool mine = false; if(i != S.own.begin()) { --i; mine = (char*)p < i->first + i->second; }
        if(!mine && n < 100000) for(u64 a = (u64)p >> 3; a <= ((u64)p + n - 1) >> 3; a++) S.acc[tid][a] |= w ? 2 : 1;
        S.busy = false;
        return;
    }
    if(S.mask & TS_ACCESS) ts_point(TS_ACCESS);
    else if(!S.conflict.empty()) for(u64 a = (u64)p >> 3; a <= ((u64)p + (n ? n : 1) - 1) >> 3; a++) if(S.conflict.count(a)) { ts_point(TS_CONFLICT); break; }
}
static void alloc_point() { ts_point(TS_LIB); }
static void range(void *p, size_t n, int freed) { if(!S.rec || tid < 0 || S.busy) return; S.busy = true; if(!freed) S.own[(char*)p] = n; S.busy = false; }
static void stream_point() { ts_point(TS_LIB); }
static void *thread_main(void *a)
{
    tid = (int)(long)a; pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); S.lo[tid] = (char*)lo; S.hi[tid] = (char*)lo + sz; sem_post(&S.home);
    for(;;)
    {
        while(sem_wait(&S.sem[tid])) {}
        S.task[tid]->run(); S.done[tid] = true;
        if(S.stage == 0 && tid == S.first) S.stage = 9; // finished before it was preempted
        S.std_out[tid] = stdout; S.std_in[tid] = stdin;
        if(!S.done[1 - tid]) { stdout = S.std_out[1 - tid]; stdin = S.std_in[1 - tid]; sem_post(&S.sem[1 - tid]); } else sem_post(&S.home);
    }
    return nullptr;
}
static void start_threads()
{
    if(S.owner == getpid()) return;
    S.owner = getpid(); sem_init(&S.home, 0, 0);
    cpu_set_t all, one; if(!sched_getaffinity(0, sizeof all, &all)) { int k = CPU_COUNT(&all), want = k ? getpid() % k : 0; CPU_ZERO(&one); for(int i = 0; i < CPU_SETSIZE; i++) if(CPU_ISSET(i, &all) && want-- == 0) { CPU_SET(i, &one); break; } sched_setaffinity(0, sizeof one, &one); } // handing over is cheap on one processor
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for(long t = 0; t < 2; t++) { sem_init(&S.sem[t], 0, 0); pthread_create(&S.th[t], &at, thread_main, (void*)t); while(sem_wait(&S.home)) {} }
}
// run both tasks: `first` until its at1-th point, the other one until its at2-th point, then the rest
static void execute(TaskP a, TaskP b, int first, u64 at1, u64 at2, int mask)
{
    start_threads();
    S.task[0] = a; S.task[1] = b; S.first = first; S.at1 = at1; S.at2 = at2; S.mask = mask; S.stage = 0; S.n[0] = S.n[1] = 0; S.done[0] = !a; S.done[1] = !b; tdiag[0].clear(); tdiag[1].clear(); tcalls[0] = tcalls[1] = 0;
    FILE *so = stdout, *si = stdin; for(int t = 0; t < 2; t++) { S.std_out[t] = S.task[t] && S.task[t]->out ? S.task[t]->out : so; S.std_in[t] = S.task[t] && S.task[t]->in ? S.task[t]->in : si; }
    IFF_errorCallback = &sched_diag; al_hook = alloc_point; S.active = true;
    stdout = S.std_out[first]; stdin = S.std_in[first]; sem_post(&S.sem[first]); while(sem_wait(&S.home)) {}
    S.active = false; al_hook = nullptr; stdout = so; stdin = si;
}

// ---- operations --------------------------------------------------------------------------------------------------------------
static std::string snapshot(const IFF_Chunk *c) // everything a program can see of a hierarchy, with the places of chunks and data
{
    std::string o = fmt("%p %08x %d %p ", (void*)c, c->chunkId, c->chunkSize, (void*)c->parent);
    u32 id = c->chunkId;
    if(id == FORM || id == CATT || id == LIST || id == PROP)
    {
        const IFF_Group *g = (const IFF_Group*)c; o += fmt("%08x %u{", g->groupType, g->chunkLength); for(unsigned i = 0; i < g->chunkLength; i++) o += snapshot(g->chunk[i]); o += "}";
        if(id == LIST) { const IFF_List *l = (const IFF_List*)c; o += fmt("%u[", l->propLength); for(unsigned i = 0; i < l->propLength; i++) o += snapshot((const IFF_Chunk*)l->prop[i]); o += "]"; }
    }
    else { const IFF_RawChunk *r = (const IFF_RawChunk*)c; o += fmt("%p ", (void*)r->chunkData); if(r->chunkData) o += hex(std::string((const char*)r->chunkData, c->chunkSize)); }
    return o;
}
// the memory of a hierarchy
static void extents(const IFF_Chunk *c, std::vector<std::pair<u64, u64>> &v)
{
    u32 id = c->chunkId; auto add = [&](const void *p, size_t n) { if(p && n) v.push_back({(u64)p, (u64)p + n}); };
    if(id == FORM || id == CATT || id == LIST || id == PROP)
    {
        const IFF_Group *g = (const IFF_Group*)c; add(g, id == LIST ? sizeof(IFF_List) : sizeof(IFF_Group)); add(g->chunk, g->chunkLength * sizeof(void*)); for(unsigned i = 0; i < g->chunkLength; i++) extents(g->chunk[i], v);
        if(id == LIST) { const IFF_List *l = (const IFF_List*)c; add(l->prop, l->propLength * sizeof(void*)); for(unsigned i = 0; i < l->propLength; i++) extents((const IFF_Chunk*)l->prop[i], v); }
    }
    else { const IFF_RawChunk *r = (const IFF_RawChunk*)c; add(r, sizeof *r); add(r->chunkData, c->chunkSize > 0 ? c->chunkSize : 0); }
}
static Node shape(const IFF_Chunk *c) { return from_lib(c, nullptr, nullptr); }

struct ReadState { MemIn m; std::string b; FILE *f; IFF_Chunk *r = nullptr; };
static TaskP t_read(const std::string &b, const IFF_ChunkRegistry *reg, bool std)
{
    auto s = std::make_shared<ReadState>(); s->b = b; s->m.hook = stream_point; s->f = open_in(&s->m, s->b, false); auto t = std::make_shared<Task>();
    if(std) t->in = s->f;
    t->run = [s, reg, std] { s->r = std ? IFF_read(nullptr, reg) : IFF_readFd(s->f, reg); };
    t->finish = [s, reg] { std::string o = "refused"; if(s->r) { std::string w; o = "read " + (write_bytes(s->r, w, reg) ? hex(w, 2000) : "unwritable"); IFF_free(s->r, reg); } fclose(s->f); return o; };
    return t;
}
struct OutState { MemOut m; FILE *f; int r = -1; };
static TaskP t_write(IFF_Chunk *c, size_t budget, bool own, bool std, const IFF_ChunkRegistry *reg = nullptr)
{
    auto s = std::make_shared<OutState>(); s->m.budget = budget; s->m.hook = stream_point; s->f = open_out(&s->m, std); auto t = std::make_shared<Task>();
    if(std) t->out = s->f;
    t->run = [s, c, std, reg] { s->r = std ? IFF_write(nullptr, c, reg) : IFF_writeFd(s->f, c, reg); };
    t->finish = [s, c, own, reg] { fclose(s->f); if(own) IFF_free(c, reg); return fmt("%d ", s->r != 0) + hex(s->m.buf, 2000); };
    return t;
}
static TaskP t_print(IFF_Chunk *c, unsigned ind, bool own)
{
    auto s = std::make_shared<OutState>(); s->m.hook = stream_point; s->f = open_out(&s->m, true); auto t = std::make_shared<Task>(); t->out = s->f;
    t->run = [c, ind] { IFF_print(c, ind, nullptr); };
    t->finish = [s, c, own] { fclose(s->f); if(own) IFF_free(c, nullptr); return s->m.buf; };
    return t;
}
static TaskP t_value(std::function<std::string()> f, std::function<void()> end = nullptr)
{
    auto s = std::make_shared<std::string>(); auto t = std::make_shared<Task>(); t->run = [s, f] { *s = f(); }; t->finish = [s, end] { if(end) end(); return *s; }; return t;
}
static std::string d_search(IFF_Chunk *c)
{
    std::string o; u32 types[] = {TB, TA}; unsigned n = 99; IFF_Form **f = IFF_searchFormsFromArray(c, types, 2, &n); o += fmt("%u:", n); for(unsigned i = 0; i < n; i++) o += fmt(" %08x/%d", f[i]->formType, f[i]->chunkSize);
    for(unsigned i = 0; i < n; i++) { for(u32 id : {DA, DB, TEXT}) { IFF_Chunk *x = IFF_getChunkFromForm(f[i], id); o += x ? fmt(" %08x#%d", x->chunkId, x->chunkSize) : " -"; unsigned k = 99; IFF_Chunk **a = IFF_getChunksFromForm(f[i], id, &k); o += fmt("(%u)", k); free(a); } }
    free(f); return o;
}
static std::string d_props(IFF_Chunk *c) { std::string o; if(c->chunkId == LIST) for(u32 t : {TA, TB, TC}) { IFF_Prop *p = IFF_getPropFromList((IFF_List*)c, t); o += p ? fmt("%08x#%d ", p->formType, p->chunkSize) : "- "; if(p) { IFF_Chunk *x = IFF_getChunkFromProp(p, DA); o += x ? fmt("#%d ", x->chunkSize) : "- "; } } return o; }

static Node nA, nB, nBad; // LIST with a PROP and a FORM; FORM with data; a FORM that does not conform
static std::vector<Op> independent()
{
    std::vector<Op> v; std::string A = ser(nA), B = ser(nB);
    auto add = [&](const char *n, std::function<TaskP()> f) { v.push_back({n, f}); };
    add("read LIST", [=] { return t_read(A, nullptr, false); });
    add("read FORM from stdin", [=] { return t_read(B, nullptr, true); });
    add("read truncated", [=] { return t_read(A.substr(0, A.size() - 3), nullptr, false); });
    add("read with warnings", [=] { Node x = nA; x.size -= 8; std::string s = ser(x); s.pop_back(); return t_read(s + "PQ", nullptr, false); });
    add("check", [=] { IFF_Chunk *c = to_lib(nA); return t_value([c] { return fmt("%d", IFF_check(c, nullptr) != 0); }, [c] { IFF_free(c, nullptr); }); });
    add("check refused", [=] { IFF_Chunk *c = to_lib(nBad); return t_value([c] { return fmt("%d", IFF_check(c, nullptr) != 0); }, [c] { IFF_free(c, nullptr); }); });
    add("write", [=] { return t_write(to_lib(nA), SIZE_MAX, true, false); });
    add("write to stdout", [=] { return t_write(to_lib(nB), SIZE_MAX, true, true); });
    add("write fails", [=] { return t_write(to_lib(nB), 21, true, false); });
    add("print", [=] { return t_print(to_lib(nB), 1, true); });
    add("print LIST", [=] { return t_print(to_lib(nA), 0, true); });
    add("compare", [=] { Node m = nA; m.kids.back().kids.back().data.back() ^= 1; IFF_Chunk *c = to_lib(nA), *d = to_lib(nA), *e = to_lib(m); return t_value([=] { return fmt("%d %d", IFF_compare(c, d, nullptr) != 0, IFF_compare(c, e, nullptr) != 0); }, [=] { for(auto *x : {c, d, e}) IFF_free(x, nullptr); }); });
    add("search", [=] { IFF_Chunk *c = to_lib(nA); return t_value([c] { return d_search(c) + d_props(c); }, [c] { IFF_free(c, nullptr); }); });
    add("build and free", [=] { return t_value([=] { IFF_Chunk *c = to_lib(nA); IFF_updateChunkSizes(c); std::string o = desc(shape(c)); IFF_free(c, nullptr); IFF_CAT *k = IFF_createEmptyCAT(); IFF_addToCATAndUpdateContentsType(k, (IFF_Chunk*)IFF_createEmptyForm(TB)); o += desc(shape((IFF_Chunk*)k)); IFF_freeChunk((IFF_Chunk*)k, 0, &IFF_defaultChunkRegistry); return o; }); });
    add("set data", [=] { IFF_Chunk *c = to_lib(nB); return t_value([c] { IFF_RawChunk *r = (IFF_RawChunk*)((IFF_Group*)c)->chunk[0]; IFF_setTextData(r, "another text"); IFF_updateChunkSizes((IFF_Chunk*)r); return desc(shape(c)); }, [c] { IFF_free(c, nullptr); }); });
    add("search one type", [=] { IFF_Chunk *c = to_lib(nA), *d = to_lib(nB); return t_value([=] { std::string o; for(u32 t : {TB, TA, TC}) for(IFF_Chunk *x : {c, d}) { unsigned n = 99; IFF_Form **f = IFF_searchForms(x, t, &n); o += fmt("%u", n); for(unsigned i = 0; i < n; i++) o += fmt(" %08x/%d", f[i]->formType, f[i]->chunkSize); free(f); } u32 w[] = {TC, TA}; unsigned n = 99; IFF_Form **f = IFF_searchFormsInList((IFF_List*)c, w, 2, &n); o += fmt("; %u", n); free(f); f = IFF_searchFormsInForm((IFF_Form*)d, w, 2, &n); o += fmt(" %u", n); free(f); return o; }, [=] { IFF_free(c, nullptr); IFF_free(d, nullptr); }); });
    for(int which = 0; which < 2; which++) add(which ? "named files B" : "named files A", [=] { static u64 serial; std::string f = fmt("%s/t%d.%lu", E->tmpdir.c_str(), (int)getpid(), serial++); IFF_Chunk *c = to_lib(which ? nB : nA); return t_value([=] { std::string o = fmt("%d", IFF_write(f.c_str(), c, nullptr) != 0); IFF_Chunk *r = IFF_read(f.c_str(), nullptr); if(r) { o += desc(shape(r)); IFF_free(r, nullptr); } return o + fmt(" %d", IFF_read("/nonexistent/file", nullptr) != nullptr); }, [=] { unlink(f.c_str()); IFF_free(c, nullptr); }); });
    for(int which = 0; which < 2; which++) add(which ? "numbers B" : "numbers A", [=]
    {
        auto s = std::make_shared<OutState>(); s->m.hook = stream_point; s->f = open_out(&s->m, true); auto in = std::make_shared<MemIn>(); auto b = std::make_shared<std::string>(which ? "\x80\x01\xff\x7f\xfe\xdc\xba\x98\x76\x54\x32\x10\x0f\x1e\x2d\x3c\x4b" : "\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb\xcc\xdd\xee\xf1\xf2\xf3", 17); in->hook = stream_point; FILE *fi = open_in(in.get(), *b, false);
        return t_value([=]
        {
            FILE *f = s->f; IFF_writeUByte(f, which ? 0xab : 1, DA, "a"); IFF_writeUWord(f, which ? 0xabcd : 2, DA, "b"); IFF_writeWord(f, which ? -3 : 3, DB, "c"); IFF_writeULong(f, which ? 0xdeadbeef : 4, DA, "d"); IFF_writeLong(f, which ? -77777 : 5, DA, "e"); IFF_writeId(f, which ? TB : TA, DA, "f"); fflush(f);
            IFF_UByte a = 0; IFF_UWord w = 0; IFF_Word sw = 0; IFF_ULong l = 0; IFF_Long sl = 0; IFF_ID id = 0, none = 0; bool ok = IFF_readUByte(fi, &a, DA, "a") && IFF_readUWord(fi, &w, DA, "b") && IFF_readWord(fi, &sw, DA, "c") && IFF_readULong(fi, &l, DA, "d") && IFF_readLong(fi, &sl, DA, "e") && IFF_readId(fi, &id, DA, "f"); bool more = IFF_readId(fi, &none, which ? TB : TA, which ? "g" : "h");
            return fmt("%d %d %x %x %x %x %x %x ", ok, more, a, w, sw, l, sl, id) + hex(s->m.buf);
        }, [=] { fclose(s->f); fclose(fi); (void)in; (void)b; });
    });
    for(int which = 0; which < 2; which++) add(which ? "identifiers B" : "identifiers A", [=] { return t_value([=]
    {
        std::string o; for(u32 id : which ? std::vector<u32>{TB, mkid("ab!d"), 0x20414243, FORM} : std::vector<u32>{TA, DA, 0x7f414243, mkid("CAT3")}) { IFF_ID2 x; IFF_idToString(id, x); o += std::string((char*)x, 4) + fmt("%d%d", IFF_checkId(id) != 0, IFF_checkFormType(id) != 0); IFF_errorId(id); IFF_readError(id, "x"); IFF_writeError(id, "y"); IFF_ChunkType *t = IFF_findChunkType(which ? &ext::registry : &IFF_defaultChunkRegistry, TA, id); o += fmt("%p;", (void*)t->readExtensionChunkFields); }
        return o;
    }); });
    add("set raw data", [=] { IFF_Chunk *c = to_lib(nB); return t_value([c] { IFF_RawChunk *r = (IFF_RawChunk*)((IFF_Group*)c)->chunk[1]; IFF_UByte v[2] = {9, 8}; IFF_copyDataToRawChunkData(r, v); void *old = r->chunkData; IFF_UByte *d = (IFF_UByte*)malloc(3); memcpy(d, "xyz", 3); IFF_setRawChunkData(r, d, 3); free(old); IFF_updateChunkSizes(c); return desc(shape(c)) + hex(std::string((char*)r->chunkData, r->chunkSize)); }, [c] { IFF_free(c, nullptr); }); });
    std::string X = ser(fixed(mkgroup(FORM, TA, {mkraw(mkid("EXTA"), std::string("\1\2\3\4\5\6\7\10\x41\x42\x43\x44", 12)), mkraw(mkid("EXTA"), "abc")})));
    add("read extension", [=] { return t_read(X, &ext::registry, false); });
    std::string X2 = ser(fixed(mkgroup(FORM, TA, {mkraw(mkid("EXTA"), std::string("\1\2\3\4\5\6\7\10\x41\x42\x43\x44", 12) + std::string(28, 's')), mkraw(mkid("EXTA"), std::string("\x11\x22\x33\x44\x55\x66\x77\x08\x41\x42\x43\x44", 12) + std::string(155, 's'))})));
    add("write extension with filler", [=] { diag_begin(); return t_write(read_bytes(X2, &ext::registry), SIZE_MAX, true, false, &ext::registry); });
    add("write extension", [=] { diag_begin(); return t_write(read_bytes(X, &ext::registry), SIZE_MAX, true, false, &ext::registry); });
    return v;
}
static std::string sizes_of(const IFF_Chunk *c)
{
    std::string o = fmt("%08x#%d", c->chunkId, c->chunkSize); u32 id = c->chunkId; if(id != FORM && id != CATT && id != LIST && id != PROP) return o;
    const IFF_Group *g = (const IFF_Group*)c; o += fmt("<%08x>(", g->groupType); if(id == LIST) for(unsigned i = 0; i < ((const IFF_List*)c)->propLength; i++) o += sizes_of((const IFF_Chunk*)((const IFF_List*)c)->prop[i]) + ","; o += "|"; for(unsigned i = 0; i < g->chunkLength; i++) o += sizes_of(g->chunk[i]) + ","; return o + ")";
}
// everything on hierarchies with several members and PROPs each, so that loops are in progress when the other thread goes on
static std::vector<Op> wide()
{
    std::vector<Op> v; auto add = [&](const char *n, std::function<TaskP()> f) { v.push_back({n, f}); };
    static const Node w = fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DB, "xyz"), mkraw(DA, "12"), mkgroup(FORM, TB, {})}), mkgroup(CATT, TB, {mkgroup(FORM, TB, {mkraw(DA, "")}), mkgroup(FORM, TB, {mkraw(DB, "5")})}), mkgroup(FORM, TC, {mkraw(TEXT, "t")})}, {mkgroup(PROP, TA, {mkraw(DA, "p"), mkraw(DB, "qrs")}), mkgroup(PROP, TB, {}), mkgroup(PROP, TC, {mkraw(DA, "u")})}));
    static const std::string W = ser(w); auto L = [] { return to_lib(w); };
    add("read", [=] { return t_read(W, nullptr, false); });
    add("write", [=] { return t_write(L(), SIZE_MAX, true, false); });
    add("check", [=] { IFF_Chunk *c = L(); return t_value([c] { return fmt("%d", IFF_check(c, nullptr) != 0); }, [c] { IFF_free(c, nullptr); }); });
    add("print", [=] { return t_print(L(), 0, true); });
    add("compare", [=] { IFF_Chunk *c = L(), *d = L(); return t_value([=] { return fmt("%d", IFF_compare(c, d, nullptr) != 0); }, [=] { IFF_free(c, nullptr); IFF_free(d, nullptr); }); });
    add("search", [=] { IFF_Chunk *c = L(); return t_value([c] { return d_search(c) + d_props(c); }, [c] { IFF_free(c, nullptr); }); });
    add("update sizes", [=] { IFF_Chunk *c = L(); return t_value([c] { std::string o; for(IFF_Chunk *x : {((IFF_Group*)((IFF_Group*)c)->chunk[0])->chunk[1], (IFF_Chunk*)((IFF_List*)c)->prop[1]}) { if(x->chunkId == DA) IFF_setTextData((IFF_RawChunk*)x, "longer"); IFF_updateChunkSizes(x); o += sizes_of(c); } return o; }, [c] { IFF_free(c, nullptr); }); });
    add("free", [=] { IFF_Chunk *c = L(); return t_value([c] { IFF_free(c, nullptr); return std::string("freed"); }); });
    add("build", [=] { auto p = std::make_shared<IFF_Chunk*>(nullptr); return t_value([=] { *p = L(); return sizes_of(*p); }, [=] { IFF_free(*p, nullptr); }); });
    return v;
}
static std::vector<Op> inspections(IFF_Chunk *c, IFF_Chunk *d)
{
    std::vector<Op> v; auto add = [&](const char *n, std::function<TaskP()> f) { v.push_back({n, f}); };
    add("check", [=] { return t_value([c] { return fmt("%d", IFF_check(c, nullptr) != 0); }); });
    add("write", [=] { return t_write(c, SIZE_MAX, false, false); });
    add("write fails", [=] { return t_write(c, 13, false, false); });
    add("print", [=] { return t_print(c, 0, false); });
    add("compare with itself", [=] { return t_value([c] { return fmt("%d", IFF_compare(c, c, nullptr) != 0); }); });
    add("compare with another", [=] { return t_value([c, d] { return fmt("%d %d", IFF_compare(c, d, nullptr) != 0, IFF_compare(d, c, nullptr) != 0); }); });
    add("search", [=] { return t_value([c] { return d_search(c); }); });
    add("search one type", [=] { return t_value([c] { std::string o; for(u32 t : {TB, TA, TC}) { unsigned n = 99; IFF_Form **f = IFF_searchForms(c, t, &n); o += fmt("%u", n); for(unsigned i = 0; i < n; i++) o += fmt(" %p", (void*)f[i]); free(f); } return o; }); });
    add("look up", [=] { return t_value([c] { return d_props(c); }); });
    return v;
}

// the static data of the library (check.py puts it into sections of its own): a schedule can start from a library that has not been used yet
extern "C" { extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)), __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)); }
static std::string fresh[2];
static std::pair<char*, size_t> statics(int k) { return k ? std::make_pair(__start_libbss, (size_t)(__stop_libbss - __start_libbss)) : std::make_pair(__start_libdata, (size_t)(__stop_libdata - __start_libdata)); }
static void keep_fresh() { for(int k = 0; k < 2; k++) { auto r = statics(k); fresh[k].assign(r.first ? r.first : "", r.first ? r.second : 0); } }
static bool used() { for(int k = 0; k < 2; k++) if(memcmp(statics(k).first, fresh[k].data(), fresh[k].size())) return true; return false; }
static bool dirty; // whether the operations at hand change static data at all
static void cold() { if(used()) { dirty = true; for(int k = 0; k < 2; k++) memcpy(statics(k).first, fresh[k].data(), fresh[k].size()); } }

// the outcome of an operation that runs alone
struct Alone { std::string result, diag; u64 points[2]; std::unordered_map<u64, int> acc; };
static Alone alone(const Op &o, int as, int m0, int m1)
{
    Alone a; al_begin(0xA5); TaskP t;
    for(int r = 0; r < 2; r++) { t = o.make(); cold(); execute(as ? nullptr : t, as ? t : nullptr, as, 0, 0, r ? m1 : m0); a.points[r] = S.n[as]; a.diag = tdiag[as]; a.result = t->finish(); }
    cold(); al_end(); return a;
}
static void record(const Op &x, const Op &y, bool warm) // fills S.conflict
{
    S.acc[0].clear(); S.acc[1].clear(); al_begin(0xA5); TaskP a = x.make(), b = y.make(); al_range_hook = range; S.rec = true;
    S.own.clear(); if(!warm) cold(); execute(a, nullptr, 0, 0, 0, 0); S.own.clear(); if(!warm) cold(); execute(nullptr, b, 1, 0, 0, 0); S.rec = false; al_range_hook = nullptr; a->finish(); b->finish(); al_end();
    for(auto &p : S.acc[0]) { auto q = S.acc[1].find(p.first); if(q != S.acc[1].end() && ((p.second | q->second) & 2)) S.conflict.insert(p.first); }
}

static u64 explore(Ctx &c, const Op &x, const Op &y, int two, int one, IFF_Chunk *shared)
{
    std::string before = shared ? snapshot(shared) : "";
    S.conflict.clear(); dirty = false; record(x, y, false); cold(); if(dirty) record(x, y, true); (*n_conflicts) += S.conflict.size(); (*n_pairs)++;
    if(shared)
    {   // two inspections may run at any moment: neither may write into the hierarchy, not even what is there already
        std::vector<std::pair<u64, u64>> v; extents(shared, v);
        for(u64 a : S.conflict) for(auto &e : v) if(a * 8 + 8 > e.first && a * 8 < e.second) { bool wx = S.acc[0][a] & 2, wy = S.acc[1][a] & 2; c.fail("`%s'%s%s writes into the hierarchy that it inspects while `%s' may read it", wx ? x.name.c_str() : y.name.c_str(), wx && wy ? " and " : "", wx && wy ? y.name.c_str() : "", wx ? y.name.c_str() : x.name.c_str()); }
    }
    Alone ax = alone(x, 0, two, one), ay = alone(y, 1, two, one); u64 n = 0;
    bool warm = false; if(dirty) (*n_static)++;
    auto run = [&](int first, u64 p1, u64 p2, int mask)
    {
        al_begin(0xA5); TaskP a = x.make(), b = y.make(); if(!warm) cold(); execute(a, b, first, p1, p2, mask); std::string dx = tdiag[0], dy = tdiag[1], rx = a->finish(), ry = b->finish();
        auto where = [&] { return fmt("%s runs to its point %lu, %s to its point %lu, then the rest (points %d, %zu shared addresses%s)", (first ? y : x).name.c_str(), p1, (first ? x : y).name.c_str(), p2, mask, S.conflict.size(), !dirty ? "" : warm ? ", the library has been used before" : ", the library has not been used before"); };
        if(rx != ax.result) c.fail("`%s' next to `%s' gives\n%s\ninstead of\n%s\n%s", x.name.c_str(), y.name.c_str(), rx.substr(0, 600).c_str(), ax.result.substr(0, 600).c_str(), where().c_str());
        if(ry != ay.result) c.fail("`%s' next to `%s' gives\n%s\ninstead of\n%s\n%s", y.name.c_str(), x.name.c_str(), ry.substr(0, 600).c_str(), ay.result.substr(0, 600).c_str(), where().c_str());
        if(dx != ax.diag || dy != ay.diag) c.fail("`%s' next to `%s': the diagnostics are\n%s---\n%s---\ninstead of\n%s---\n%s---\n%s", x.name.c_str(), y.name.c_str(), dx.c_str(), dy.c_str(), ax.diag.c_str(), ay.diag.c_str(), where().c_str());
        if(al_live()) c.fail("`%s' next to `%s' leaves %lu blocks; %s", x.name.c_str(), y.name.c_str(), al_live(), where().c_str());
        al_end(); n++; c.trans(S.n[0] + S.n[1]); (*n_sched)++; c.state(comb(comb(c.job, first * 2 + (mask == one)), comb(p1, p2)));
        if(shared && (n % 64 == 0 || p1 == 0) && snapshot(shared) != before) c.fail("`%s' next to `%s' changes the hierarchy; %s", x.name.c_str(), y.name.c_str(), where().c_str());
    };
    for(int w = 0; w <= (int)dirty; w++) for(int first = 0; first < 2; first++) // without static data that changes, both are the same
    {
        warm = w; const Alone &f = first ? ay : ax, &s = first ? ax : ay; (*n_points) += f.points[1];
        run(first, 0, 0, two);
        for(u64 p = 1; p <= f.points[1]; p++) run(first, p, 0, one);
        for(u64 p = 1; p <= f.points[0]; p++) for(u64 q = 1; q <= s.points[0]; q++) run(first, p, q, two);
    }
    if(shared && snapshot(shared) != before) c.fail("`%s' next to `%s' changes the hierarchy", x.name.c_str(), y.name.c_str());
    return n;
}

// ---- one thread: sequences of operations ------------------------------------------------------------------------------------
static std::string single(const Op &o) { mdiag.clear(); TaskP t = o.make(); IFF_errorCallback = &sched_diag; FILE *so = stdout, *si = stdin; if(t->out) stdout = t->out; if(t->in) stdin = t->in; t->run(); stdout = so; stdin = si; std::string d = mdiag; return t->finish() + "\n" + d; }

void mc_main(Engine &E)
{
    bool T = E.thorough; n_sched = E.counter("schedules"); n_conflicts = E.counter("shared_addresses_with_a_write"); n_points = E.counter("scheduling_points"); n_pairs = E.counter("pairs_of_operations"); n_static = E.counter("pairs_of_operations_that_change_static_data");
    E.assume("two threads; the library functions below the library are thread-safe as POSIX says; each thread has a standard input and output of its own; the diagnostic callback is installed once and knows its thread");
    nA = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DB, "xyz")})}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}));
    nB = fixed(mkgroup(FORM, TB, {mkraw(TEXT, "abc"), mkraw(DA, std::string("\x12\xab", 2))}));
    nBad = fixed(mkgroup(FORM, TB, {mkraw(DA, "a"), mkgroup(FORM, mkid("TsTB"), {})}));
    const int one = TS_ACCESS | TS_FUNC | TS_EXIT | TS_LIB;
    static const int two = T ? TS_CONFLICT | TS_FUNC | TS_EXIT | TS_LIB : TS_CONFLICT | TS_FUNC;
    static std::vector<Op> ind = independent(); IFF_errorCallback = &sched_diag; keep_fresh(); u64 k = ind.size();
    E.fact("operations", k);
    // 1. separate hierarchies and streams
    E.scene("independent", k * k, [k, one](Ctx &c) { u64 x = c.job % k, y = c.job / k; if(x > y) return; u64 n = explore(c, ind[x], ind[y], two, one, nullptr); c.execs(n); c.validated(n); if(c.noting()) c.note(fmt("`%s' and `%s' under every schedule with up to two preemptions: %lu schedules, %zu shared addresses", ind[x].name.c_str(), ind[y].name.c_str(), n, S.conflict.size())); });
    // with many members in each group: every single preemption; two at every conflicting access
    {
        static std::vector<Op> wd = wide(); u64 q = wd.size(); E.fact("operations_on_wide_hierarchies", q);
        E.scene("wide", q * q, [q, one](Ctx &c) { u64 x = c.job % q, y = c.job / q; if(x > y) return; u64 n = explore(c, wd[x], wd[y], TS_CONFLICT, one, nullptr); c.execs(n); c.validated(n); if(c.noting()) c.note(fmt("`%s' and `%s' of wide hierarchies: %lu schedules, %zu shared addresses", wd[x].name.c_str(), wd[y].name.c_str(), n, S.conflict.size())); });
    }
    // 2. one shared hierarchy that is inspected
    {
        static std::vector<Node> trees = { nA, nBad, fixed(mkgroup(CATT, TB, {nB, mkgroup(FORM, TB)})) }; u64 q = inspections(nullptr, nullptr).size();
        E.scene("shared", trees.size() * q * q, [q, one](Ctx &c)
        {
            const Node &t = trees[c.job / (q * q)]; u64 x = c.job % q, y = c.job / q % q; if(x > y) return; Node m = t; { std::vector<Node*> f; flatten(m, f); for(Node *i : f) if(!i->data.empty()) { i->data[0] ^= 1; break; } }
            Chunk l(to_lib(t)), d(to_lib(m)); std::vector<Op> v = inspections(l, d); u64 n = explore(c, v[x], v[y], two, one, l); c.execs(n); c.validated(n);
            if(c.noting()) c.note(fmt("`%s' and `%s' of one hierarchy: %lu schedules, %zu shared addresses", v[x].name.c_str(), v[y].name.c_str(), n, S.conflict.size()));
        });
    }
    // 3. one thread: every sequence of operations; each gives what it gives alone
    {
        static std::vector<std::string> want; for(auto &o : ind) want.push_back(single(o)); static const int D = T ? 5 : 4;
        E.scene("sequences", k * k, [k](Ctx &c)
        {
            IFF_errorCallback = &sched_diag; u64 n = 0; std::vector<u64> s = {c.job % k, c.job / k};
            std::function<void()> rec = [&]() { if((int)s.size() < D) { for(u64 i = 0; i < k; i++) { s.push_back(i); rec(); s.pop_back(); } return; } for(u64 i : s) { std::string g = single(ind[i]); if(g != want[i]) c.fail("`%s' after `%s' gives\n%s\ninstead of\n%s", ind[i].name.c_str(), ind[s[0]].name.c_str(), g.substr(0, 600).c_str(), want[i].substr(0, 600).c_str()); } n++; c.trans(D); c.state(hash_bytes(s.data(), s.size() * 8)); };
            rec(); c.execs(n); c.validated(n);
        });
        // very many repetitions of one operation, and of two in turn
        static const u64 R = T ? 1200000 : 70000;
        E.scene("repetition", k, [k](Ctx &c)
        {
            IFF_errorCallback = &sched_diag; for(u64 r = 0; r < R; r++) { std::string g = single(ind[c.job]); if(g != want[c.job]) c.fail("`%s' the %lu-th time gives\n%s\ninstead of\n%s", ind[c.job].name.c_str(), r + 1, g.substr(0, 600).c_str(), want[c.job].substr(0, 600).c_str()); c.trans(); }
            for(u64 i = 0; i < k; i++) { std::string g = single(ind[i]); if(g != want[i]) c.fail("`%s' after `%s' %lu times gives\n%s\ninstead of\n%s", ind[i].name.c_str(), ind[c.job].name.c_str(), R, g.substr(0, 600).c_str(), want[i].substr(0, 600).c_str()); }
            c.execs(R + k); c.validated(R + k); c.state(c.job); if(c.noting()) c.note(fmt("`%s' %lu times", ind[c.job].name.c_str(), R));
        });
    }
    // operations with different registries: the one that is given decides, NULL means the default one, whatever was used before
    {
        static IFF_ChunkTypesNode *const global = &IFF_globalChunkTypesNode; static IFF_FormChunkTypes otherforms[] = { { TB, &ext::node } }; static const IFF_ChunkRegistry other = { 1, otherforms, global, &IFF_defaultChunkType };
        static IFF_ChunkTypesNode everywhere = { 1, ext::types, global }; static const IFF_ChunkRegistry all = { 0, nullptr, &everywhere, &IFF_defaultChunkType };
        static const struct { const char *name; const IFF_ChunkRegistry *r; } regs[] = {{"no registry", nullptr}, {"the default registry", &IFF_defaultChunkRegistry}, {"the TSTA registry", &ext::registry}, {"the TSTB registry", &other}, {"the global registry", &all}};
        static std::vector<Op> ops; ops.clear();
        { Node x = mkraw(mkid("EXTA"), std::string("\1\2\3\4\5\6\7\10\x41\x42\x43\x44", 12)), d = mkraw(DA, "z"); static const Node tree = fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {x, d}), mkgroup(FORM, TB, {d, x})}, {mkgroup(PROP, TA, {x})})); static const std::string X = ser(tree);
          for(auto &g : regs)
          {
              const IFF_ChunkRegistry *R = g.r; std::string w = g.name;
              ops.push_back({"read and write with " + w, [R] { return t_read(X, R, false); }});
              ops.push_back({"print with " + w, [R] { diag_begin(); IFF_Chunk *c = read_bytes(X, R); auto s = std::make_shared<OutState>(); s->m.hook = stream_point; s->f = open_out(&s->m, true); auto t = std::make_shared<Task>(); t->out = s->f; t->run = [c, R] { IFF_print(c, 0, R); }; t->finish = [s, c, R] { fclose(s->f); IFF_free(c, R); return s->m.buf; }; return t; }});
              ops.push_back({"write with " + w, [R] { diag_begin(); return t_write(read_bytes(X, R), SIZE_MAX, true, false, R); }});
              ops.push_back({"check, compare, look up and free with " + w, [R] { auto b = std::make_shared<std::string>(X); std::string y = X; y[y.size() - 1] ^= 1; IFF_Chunk *c = read_bytes(X, R), *d = read_bytes(y, R), *e = read_bytes(X, R); return t_value([=] { std::string o = fmt("%d %d %d %d", IFF_check(c, R) != 0, IFF_compare(c, d, R) != 0, IFF_compare(c, e, R) != 0, IFF_compare(c, c, R) != 0); unsigned n; IFF_Form **f = IFF_searchForms(c, TA, &n); o += fmt(" %u", n); free(f); IFF_free(c, R); IFF_free(d, R); IFF_free(e, R); return o; }); }});
          } }
        static u64 q; q = ops.size(); E.fact("operations_with_registries", q);
        static std::vector<std::string> alone_; alone_.clear(); for(auto &o : ops) alone_.push_back(single(o));
        // the first one of each kind is judged against what its registry says
        E.scene("registries", q * q, [](Ctx &c)
        {
            IFF_errorCallback = &sched_diag; u64 n = 0; u64 s[4] = {c.job % q, c.job / q, 0, 0};
            for(u64 k = 0; k < 2; k++) { const std::string &g = alone_[s[k]]; bool lines = g.find("ext 1 2 772 84281096") != std::string::npos; if(s[k] % 4 == 1 && lines != (s[k] / 4 >= 2)) c.fail("`%s' gives\n%s", ops[s[k]].name.c_str(), g.c_str()); }
            for(s[2] = 0; s[2] < q; s[2]++) for(s[3] = 0; s[3] < (::E->thorough ? q : 1); s[3]++)
            {
                al_begin(0xA5); int len = ::E->thorough ? 4 : 3;
                for(int k = 0; k < len; k++) { std::string g = single(ops[s[k]]); c.trans(); if(g != alone_[s[k]]) c.fail("`%s' after `%s' gives\n%s\ninstead of\n%s", ops[s[k]].name.c_str(), ops[s[k ? k - 1 : 0]].name.c_str(), g.substr(0, 900).c_str(), alone_[s[k]].substr(0, 900).c_str()); }
                if(al_live()) c.fail("`%s', `%s' and `%s' leave %lu blocks allocated", ops[s[0]].name.c_str(), ops[s[1]].name.c_str(), ops[s[2]].name.c_str(), al_live());
                al_end(); n++; c.state(hash_bytes(s, sizeof s));
            }
            c.execs(n); c.validated(n);
        });
        E.scene("registries_in_turn", q * q, [one](Ctx &c) { u64 x = c.job % q, y = c.job / q; if(x > y || x / 4 == y / 4 || (x % 4 != 1 && x % 4 != 3 && y % 4 != 0)) return; u64 n = explore(c, ops[x], ops[y], ::E->thorough ? TS_CONFLICT | TS_LIB : TS_CONFLICT, one, nullptr); c.execs(n); c.validated(n); });
    }
    // every way to fail, very many times: none of them wears anything out
    {
        static std::vector<std::pair<std::string, std::function<std::string()>>> ways; static std::vector<IFF_Chunk*> held;
        auto reading = [&](const std::string &what, const std::string &b) { ways.push_back({"reading " + what, [b] { MemIn m; FILE *f = open_in(&m, b, true); IFF_Chunk *x = IFF_readFd(f, nullptr); fclose(f); if(!x) return std::string("refused"); bool v = IFF_check(x, nullptr); IFF_free(x, nullptr); return std::string(v ? "valid" : "not valid"); }}); };
        std::string A = ser(nA), B = ser(nB); reading("a valid file", A); reading("another valid file", B); reading("nothing", "");
        for(size_t k : {(size_t)2, (size_t)4, (size_t)8, (size_t)10, (size_t)12, (size_t)18, (size_t)23, (size_t)30, (size_t)A.size() - 9, (size_t)A.size() - 2, (size_t)A.size() - 1}) reading(fmt("%zu bytes", k), A.substr(0, k));
        for(size_t at : {4, 16, 28}) for(u32 v : {0xffffffffu, 0x80000000u, 0x7fffffffu, 3u, 1u, 0u}) { std::string s = A; s[at] = (char)(v >> 24); s[at + 1] = (char)(v >> 16); s[at + 2] = (char)(v >> 8); s[at + 3] = (char)v; reading(fmt("the size %d at %zu", (int)v, at), s); }
        reading("a misplaced PROP", ser(fixed(mkgroup(FORM, TA, {mkgroup(PROP, TA, {mkraw(DA, "1")})})))); reading("a PROP behind other members", [] { Node n = mkgroup(CATT, TA, {mkgroup(FORM, TA), mkgroup(PROP, TA)}); fixsizes(n); n.id = LIST; return ser(n); }());
        reading("two PROPs of a type", ser(fixed(mkgroup(LIST, TA, {}, {mkgroup(PROP, TA), mkgroup(PROP, TA)})))); reading("a foreign member", ser(fixed(mkgroup(CATT, TA, {mkgroup(FORM, TB)})))); reading("a data chunk in a CAT", ser(fixed(mkgroup(CATT, TA, {mkraw(DA, "x")})))); reading("a bad type", ser(fixed(mkgroup(FORM, mkid("a"))))); reading("a bad ID", ser(fixed(mkgroup(FORM, TA, {mkraw(mkid(" abc"), "")})))); reading("trailing bytes", B + "xy"); reading("odd padding", B.substr(0, 23) + "\1" + B.substr(24)); reading("a data chunk", ser(mkraw(DA, "abc")));
        { Node n = nA; n.size -= 4; reading("a group that is too small", ser(n)); n = nB; n.size += 2; reading("a group that is too large", ser(n)); }
        for(const Node &n : {nA, nB, nBad}) { held.push_back(to_lib(n)); IFF_Chunk *l = held.back(); size_t z = ser(n).size(); for(size_t k : {z, z - 1, z / 2, (size_t)9, (size_t)5, (size_t)0}) ways.push_back({fmt("writing to a stream that takes %zu bytes", k), [l, k] { MemOut m; m.budget = k; FILE *f = open_out(&m, false); bool r = IFF_writeFd(f, l, nullptr); fclose(f); return fmt("%d ", r) + hex(m.buf); }}); ways.push_back({"checking", [l] { return fmt("%d", IFF_check(l, nullptr) != 0); }}); ways.push_back({"searching", [l] { std::string o; for(u32 t : {TA, TB, mkid("NONE")}) { unsigned k; IFF_Form **f = IFF_searchForms(l, t, &k); o += fmt("%u ", k); free(f); } return o; }}); ways.push_back({"comparing", [l] { return fmt("%d %d", IFF_compare(l, l, nullptr) != 0, IFF_compare(l, held[0], nullptr) != 0); }}); ways.push_back({"printing", [l] { return print_text(l); }}); ways.push_back({"updating and building", [n] { Chunk x(to_lib(n)); IFF_updateChunkSizes(x); std::string o; write_bytes(x, o); return hex(o); }}); }
        for(const char *s : {"/nonexistent/x", "", "."}) { std::string p = s; ways.push_back({"reading a file that cannot be read", [p] { return std::string(IFF_readFile(p.c_str(), nullptr) ? "read" : "refused"); }}); ways.push_back({"writing a file that cannot be opened", [p] { return std::string(IFF_writeFile(p.c_str(), held[0], nullptr) ? "written" : "refused"); }}); }
        for(u32 id : {TA, FORM, mkid(" abc"), mkid("a\x7f" "bc"), mkid("LIS3"), 0u}) ways.push_back({"checking an ID", [id] { return fmt("%d %d", IFF_checkId(id) != 0, IFF_checkFormType(id) != 0); }});
        { std::string b = A; for(unsigned k : {1u, 2u, 3u, 5u, 8u}) ways.push_back({fmt("reading while allocation %u fails", k), [b, k] { MemIn m; FILE *f = open_in(&m, b, true); al_fail(al_count() + k, 0); IFF_Chunk *x = IFF_readFd(f, nullptr); al_fail(0, 0); fclose(f); if(x) IFF_free(x, nullptr); return std::string(x ? "read" : "refused"); }}); }
        static const u64 R = T ? 1100000 : 70000; static u64 K; K = ways.size(); E.fact("repeated_operations", K);
        E.scene("wear", K, [](Ctx &c)
        {
            std::vector<std::string> first, text; al_begin(0xA5); al_cap((size_t)1 << 24); auto once = [&](u64 i) { diag_begin(); std::string r = ways[i].second(); c.trans(); return r; };
            for(u64 i = 0; i < K; i++) { first.push_back(once(i)); text.push_back(g_diag); }
            for(u64 r = 0; r < R; r++) { std::string g = once(c.job); if(g != first[c.job] || g_diag != text[c.job]) c.fail("%s gives `%s' (%s) the %lu-th time, and `%s' (%s) at first", ways[c.job].first.c_str(), g.c_str(), g_diag.c_str(), r + 2, first[c.job].c_str(), text[c.job].c_str()); }
            for(u64 i = 0; i < K; i++) { std::string g = once(i); if(g != first[i] || g_diag != text[i]) c.fail("%s gives `%s' (%s) after %s %lu times, and `%s' (%s) before", ways[i].first.c_str(), g.c_str(), g_diag.c_str(), ways[c.job].first.c_str(), R, first[i].c_str(), text[i].c_str()); }
            if(al_live()) c.fail("%s leaves memory allocated", ways[c.job].first.c_str());
            al_end(); c.execs(R + K); c.validated(R + K); c.state(c.job); if(c.noting()) c.note(fmt("%s %lu times", ways[c.job].first.c_str(), R));
        });
    }
    // 4. inspections leave a hierarchy as it is: every tree, every sequence of inspections
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; a.legal_only = false; static std::vector<Node> fam = Trees(a).upto(T ? 4 : 3);
        { Alphabet l = a; l.legal_only = true; for(auto &n : Trees(l).upto(T ? 5 : 4)) fam.push_back(n); } E.fact("trees", fam.size());
        static const u64 step = 16;
        E.scene("purity", (fam.size() + step - 1) / step, [](Ctx &c)
        {
            IFF_errorCallback = &sched_diag; u64 n = 0;
            for(u64 i = c.job * step; i < (c.job + 1) * step && i < fam.size(); i++) for(int bad = 0; bad < 3; bad++)
            {
                Node t = fam[i]; if(bad) { std::vector<Node*> v; flatten(t, v); bool any = false; for(Node *q : v) if(q->is_group()) { q->size += bad == 1 ? 2 : -1; any = true; break; } if(!any) continue; }
                Chunk l(to_lib(t)), d(to_lib(fam[(i + 1) % fam.size()])); std::vector<Op> v = inspections(l, d); std::string before = snapshot(l), bd = snapshot(d); std::vector<std::string> first;
                for(auto &o : v) { first.push_back(single(o)); c.trans(); if(snapshot(l) != before || snapshot(d) != bd) c.fail("`%s' changes %s into\n%s\nfrom\n%s", o.name.c_str(), desc(t).c_str(), snapshot(l).substr(0, 600).c_str(), before.substr(0, 600).c_str()); n++; }
                for(size_t x = 0; x < v.size(); x++) for(size_t y = 0; y < v.size(); y++) { std::string g = single(v[x]), h = single(v[y]); c.trans(2); n++; if(g != first[x] || h != first[y]) c.fail("`%s', `%s' of %s give something else when repeated", v[x].name.c_str(), v[y].name.c_str(), desc(t).c_str()); }
                if(snapshot(l) != before) c.fail("inspections change %s", desc(t).c_str());
                c.state(hash_str(desc(t), bad));
            }
            c.execs(n); c.validated(n);
        });
    }
}
