// C03: no input bytes can corrupt memory, leak, hang or read undefined data.
// Built with address and undefined-behaviour instrumentation; every input runs twice, with different contents of fresh memory
// and of the unused stack, and everything that can be observed has to be the same both times.
#include "api.hpp"
#include "ext.hpp"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace mc;

static std::atomic<u64> *n_read, *n_refused, *n_checked;

static void __attribute__((noinline)) paint(int v) { volatile char b[24576]; memset((void*)b, v, sizeof b); asm volatile("" :: "r"(b) : "memory"); }

static size_t cap = (size_t)1 << 24; // set once per scene

static void walk(IFF_Chunk *c, std::vector<IFF_Chunk*> &v)
{
    v.push_back(c);
    if(c->chunkId == FORM || c->chunkId == CATT || c->chunkId == LIST || c->chunkId == PROP)
    {
        IFF_Group *g = (IFF_Group*)c;
        if(c->chunkId == LIST) { IFF_List *l = (IFF_List*)c; for(unsigned i = 0; i < l->propLength; i++) walk((IFF_Chunk*)l->prop[i], v); }
        for(unsigned i = 0; i < g->chunkLength; i++) walk(g->chunk[i], v);
    }
}

// everything a program can do with what reading delivers; the digest covers all that can be observed
static u64 battery(Ctx &c, const std::string &b, const IFF_ChunkRegistry *reg, int fill, int level, bool &delivered)
{
    u64 d = 1;
    diag_begin(); al_begin(fill); al_cap(cap);
    paint(fill);
    MemIn m; FILE *f = open_in(&m, b, true); m.max_calls = 0;
    IFF_Chunk *l = IFF_readFd(f, reg); fclose(f);
    if(m.pos > b.size()) c.fail("reading went beyond the end of the input: %s", hex(b).c_str());
    c.trans();
    delivered = l != nullptr;
    d = comb(d, l != nullptr);
    if(l)
    {
        paint(fill);
        bool ok = IFF_check(l, reg) != 0; d = comb(d, ok); if(ok) (*n_checked)++;
        Capture cap; IFF_print(l, level ? 1 : 0, reg); std::string text = cap.end(); d = comb(d, hash_str(text));
        std::string out; bool w = write_bytes(l, out, reg); d = comb(d, comb(w, hash_str(out)));
        d = comb(d, IFF_compare(l, l, reg) != 0);
        c.trans(4);
        if(level >= 1)
        {
            paint(~fill);
            IFF_Chunk *k = read_bytes(b, reg); if(!k) c.fail("reading the same input again fails: %s", hex(b).c_str());
            d = comb(d, IFF_compare(l, k, reg) != 0); d = comb(d, IFF_compare(k, l, reg) != 0);
            std::vector<IFF_Chunk*> v; walk(l, v);
            size_t lim = v.size() > 64 ? 64 : v.size();
            for(size_t i = 0; i < lim; i++)
            {
                u32 id = v[i]->chunkId;
                if(id == FORM || id == PROP)
                    for(u32 q : {DA, DB, TEXT, FORM, mkid("EXTA")})
                    {
                        IFF_Chunk *x = id == FORM ? IFF_getChunkFromForm((IFF_Form*)v[i], q) : IFF_getChunkFromProp((IFF_Prop*)v[i], q); d = comb(d, x ? x->chunkId + x->chunkSize : 7);
                        unsigned n = 99; IFF_Chunk **a = IFF_getChunksFromForm((IFF_Form*)v[i], q, &n); d = comb(d, n); for(unsigned j = 0; j < n; j++) d = comb(d, a[j]->chunkSize); free(a);
                    }
                if(id == LIST) for(u32 t : {TA, TB, 0u}) { IFF_Prop *p = IFF_getPropFromList((IFF_List*)v[i], t); d = comb(d, p ? p->chunkSize : 7); }
                unsigned n = 99; u32 types[] = {TA, TB}; IFF_Form **fs = IFF_searchFormsFromArray(v[i], types, 2, &n); d = comb(d, n); for(unsigned j = 0; j < n; j++) d = comb(d, fs[j]->formType); free(fs);
            }
            c.trans(3 + lim * 3);
            // sizes recomputed from the innermost chunk, then everything again
            if(lim) { IFF_updateChunkSizes(v[lim - 1]); Capture cap2; IFF_print(l, 0, reg); d = comb(d, hash_str(cap2.end())); d = comb(d, IFF_check(l, reg) != 0); d = comb(d, IFF_compare(k, l, reg) != 0); std::string o2; d = comb(d, write_bytes(l, o2, reg)); d = comb(d, hash_str(o2)); }
            IFF_free(k, reg);
        }
        IFF_free(l, reg);
    }
    if(al_live()) c.fail("%lu blocks (%lu bytes) are never freed after %s: %s", al_live(), al_live_bytes(), delivered ? "reading and freeing" : "reading failed", hex(b).c_str());
    al_end();
    d = comb(d, hash_str(g_diag)); d = comb(d, g_diag_calls);
    return d;
}

static void judge(Ctx &c, const std::string &b, int level = 1)
{
    for(int r = 0; r < 2; r++)
    {
        const IFF_ChunkRegistry *reg = r ? &ext::registry : nullptr; bool dl, dl2;
        if(r && b.find("TSTA") == std::string::npos) continue; // the extension registry differs in the scope TSTA only
        u64 x = battery(c, b, reg, 0xA5, level, dl), y = battery(c, b, reg, 0x5A, level, dl2);
        if(x != y) c.fail("the outcome depends on uninitialized memory%s: %s", r ? " (extension registry)" : "", hex(b).c_str());
        (*(dl ? n_read : n_refused))++;
        c.state(comb(hash_str(b), x));
        if(c.noting() && r == 0) c.note(fmt("%s -> %s", hex(b, 80).c_str(), dl ? "delivered, used and freed" : "refused, nothing left"));
    }
}

static Node exta(const std::string &d) { return mkraw(mkid("EXTA"), d); }

// a synthetic stream: a head, then zeroes
struct Synth { std::string head; u64 pos = 0, n = 0; };
static ssize_t sy_read(void *p, char *b, size_t k) { Synth *s = (Synth*)p; if(k > s->n - s->pos) k = s->n - s->pos; size_t o = 0; while(o < k && s->pos < s->head.size()) b[o++] = s->head[s->pos++]; memset(b + o, 0, k - o); s->pos += k - o; return k; }

void mc_main(Engine &E)
{
    bool T = E.thorough;
    n_read = E.counter("inputs_delivered"); n_refused = E.counter("inputs_refused"); n_checked = E.counter("runs_conforming");
    E.assume("allocations above 16 MB (scene sizes: 128 KB) fail, except in the scene beyond_2gb; uninitialized reads are seen when they influence anything observable");
    Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab"), exta(std::string("\1\2\3\4\5\6\7\10\x41\x42\x43\x44", 12))}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
    {
        static std::vector<u32> W = {FORM, CATT, LIST, PROP, TA, mkid("EXTA"), 0, 4, 1, 12, 0xffffffff, 0x7fffffff, 0x80000000};
        static const int L = T ? 6 : 5; u64 w = W.size();
        E.scene("words", w * w, [w](Ctx &c)
        {
            u64 n = 0; std::string pre; u64 j = c.job; for(int i = 0; i < 2; i++) { put32(pre, W[j % w]); j /= w; }
            if(c.job < w) for(int len = 0; len < 8; len++) { judge(c, pre.substr(0, len)); n++; }
            std::function<void(std::string&, int)> rec = [&](std::string &s, int left)
            {
                judge(c, s); n++;
                if(left == 0) return;
                for(u32 x : W) { put32(s, x); rec(s, left - 1); s.resize(s.size() - 4); }
            };
            rec(pre, L - 2); c.execs(n);
        });
    }
    {
        // every size word over telling bytes, in every kind of chunk, with several amounts of contents
        static const unsigned char V[] = {0x00, 0x01, 0x02, 0x04, 0x0b, 0x0c, 0x7f, 0x80, 0xfe, 0xff};
        E.scene("sizes", 7 * 10, [T](Ctx &c)
        {
            cap = (size_t)1 << 17; u64 n = 0; int kind = c.job / 10; unsigned char v0 = V[c.job % 10];
            for(unsigned char v1 : V) for(unsigned char v2 : V) for(unsigned char v3 : V)
            {
                if(!T && v1 != v2) continue;
                std::string s; u32 size = (u32)v0 << 24 | v1 << 16 | v2 << 8 | v3;
                static const u32 ids[] = {FORM, CATT, LIST, PROP, DA, TEXT, 0};
                u32 id = kind == 6 ? mkid("EXTA") : ids[kind];
                for(int where = 0; where < 3; where++) for(int body = 0; body < 4; body++)
                {
                    std::string in; put32(in, id); put32(in, size); std::string bd;
                    if(body == 1) put32(bd, TA); if(body == 2) { put32(bd, TA); put32(bd, DA); put32(bd, 1); bd += "q"; bd += '\0'; } if(body == 3) bd = std::string(300, 'z');
                    in += bd;
                    std::string o;
                    if(where == 0) o = in; else { put32(o, where == 1 ? FORM : LIST); put32(o, 4 + in.size()); put32(o, TA); o += in; }
                    judge(c, o, body == 2); n++;
                }
            }
            c.execs(n);
        });
    }
    {
        static std::vector<Node> trees; static size_t three; trees = Trees(a).upto(3); three = trees.size(); if(T) { Alphabet b = a; b.raws.resize(2); trees = Trees(a).upto(4); }
        E.fact("legal_trees", trees.size());
        E.scene("deviations", trees.size(), [](Ctx &c)
        {
            const Node &t = trees[c.job]; u64 n = 0, cnt = t.count(); std::string b0 = ser(t);
            judge(c, b0); n++;
            for(size_t i = 0; i < cnt; i++) for(int k = 0; k < Dev::N; k++) { Node m = t; if(!Dev::apply(m, i, k)) continue; judge(c, ser(m)); n++; }
            bool full = c.job < three || cnt < 4;
            for(size_t p = 0; p < b0.size(); p++)
            {
                judge(c, b0.substr(0, p), 0); n++;
                if(!full) continue;
                for(unsigned char v : {0x00, 0x01, 0x20, 0x7f, 0x80, 0xff}) { std::string b = b0; b[p] = (char)v; judge(c, b, 0); n++; }
                { std::string b = b0; b.erase(p, 1); judge(c, b, 0); } { std::string b = b0; b.insert(p, 1, b0[p]); judge(c, b, 0); } n += 2;
            }
            c.execs(n);
        });
    }
    if(T)
    {
        static std::vector<Node> trees = Trees(a).upto(3);
        E.scene("deviation_pairs", trees.size(), [](Ctx &c)
        {
            const Node &t = trees[c.job]; u64 n = 0, cnt = t.count();
            for(size_t i = 0; i < cnt; i++) for(int k = 0; k < Dev::N; k++)
            {
                Node m = t; if(!Dev::apply(m, i, k)) continue; u64 c2 = m.count();
                for(size_t i2 = 0; i2 < c2; i2++) for(int k2 = 0; k2 < Dev::N; k2++) { Node q = m; if(!Dev::apply(q, i2, k2)) continue; judge(c, ser(q), 0); n++; }
            }
            c.execs(n ? n : 1);
        });
    }
    {
        Alphabet b = a; b.legal_only = false; b.raws = {mkraw(DA, "x"), exta("12345")};
        static std::vector<Node> trees = Trees(b).upto(T ? 4 : 3);
        E.fact("trees_any_nesting", trees.size());
        E.scene("nestings", (trees.size() + 63) / 64, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 64; i < trees.size() && i < c.job * 64 + 64; i++) { judge(c, ser(trees[i])); n++; } c.execs(n); });
    }
    // extension chunks: every declared size 0..20 and every amount of bytes that is really there
    E.scene("extension_sizes", 21, [](Ctx &c)
    {
        u64 n = 0;
        for(size_t have = 0; have <= 22; have++) for(int after = 0; after < 3; after++)
        {
            std::string o; put32(o, FORM); put32(o, 4 + 8 + padded(c.job) + (after == 1 ? 8 : 0)); put32(o, TA); put32(o, mkid("EXTA")); put32(o, c.job);
            o += bigdata(have, 3); if(after) { put32(o, DA); put32(o, 0); }
            judge(c, o); n++;
        }
        c.execs(n);
    });
    {
        static std::vector<Big> big; for(auto &b : big_trees(T, T ? SIZE_MAX : 70000)) if(T || b.n.count() < 2100 || b.n.count() > 60000) big.push_back(b);
        E.fact("one_axis_large_trees", big.size());
        E.scene("large", big.size(), [T](Ctx &c)
        {
            c.note(big[c.job].name); const Node &t = big[c.job].n; std::string b = ser(t); u64 n = 1;
            if(b.size() > (1u << 23)) { c.execs(1); return; }
            if(t.count() > 60000 && !T) { for(int fill : {0xA5, 0x5A}) { diag_begin(); al_begin(fill); cap = (size_t)1 << 26; al_cap(cap); bool got; { Chunk l(read_bytes(b)); got = l.c; } if(!got) c.fail("cannot read %s", big[c.job].name.c_str()); if(al_live()) c.fail("%lu blocks are never freed: %s", al_live(), big[c.job].name.c_str()); al_end(); } c.trans(2); c.execs(2); return; }
            judge(c, b, 1);
            size_t cnt = t.count();
            if(b.size() < 40000) for(size_t i : {(size_t)0, (size_t)1, cnt / 2, cnt - 1}) for(int k : {0, 1, 5, 9, 11, 12, 17, 26, 35, 39, 41}) { if(cnt > 200 && !T && k > 5) continue; Node m = t; if(!Dev::apply(m, i, k)) continue; judge(c, ser(m), 0); n++; }
            if(b.size() < 40000) { judge(c, b.substr(0, b.size() - 1), 0); judge(c, b.substr(0, b.size() / 2), 0); n += 2; }
            c.execs(n);
        });
    }
    // sums of sizes beyond the range of a size: inputs of more than 2 GB
    E.scene("beyond_2gb", T ? 6 : 2, [](Ctx &c)
    {
        static const u32 raws[] = {0x7ffffff6, 0x7fffffff, 0x7ffffff3, 0x7ffffff4, 0x7ffffff2, 0x7ffffffe};
        Synth s; put32(s.head, c.job & 1 ? LIST : FORM); put32(s.head, 0x7fffffff); put32(s.head, TA);
        put32(s.head, DA); put32(s.head, raws[c.job]);
        s.n = 0x1'0000'0000ull + 4096;
        diag_begin(); al_begin(-1); al_cap((size_t)1 << 32);
        cookie_io_functions_t io = { sy_read, nullptr, nullptr, nullptr };
        FILE *f = fopencookie(&s, "rb", io); static char buf[65536]; setvbuf(f, buf, _IOFBF, sizeof buf);
        IFF_Chunk *l = IFF_readFd(f, nullptr); fclose(f); c.trans();
        bool got = l != nullptr; if(l) { IFF_check(l, nullptr); IFF_free(l, nullptr); }
        if(al_live()) c.fail("%lu blocks are never freed after an input beyond 2 GB", al_live());
        al_end(); c.state(comb(c.job, got));
        if(c.noting()) c.note(fmt("group of 0x7fffffff bytes with a chunk of %#x bytes -> %s", raws[c.job], got ? "delivered" : "refused"));
    });
    // names of files of every kind and length, existing or not
    E.scene("names", 64, [T](Ctx &c)
    {
        std::string d = fmt("%s/n%d/", ::E->tmpdir.c_str(), (int)getpid()); mkdir(d.c_str(), 0700); mkdir((d + "sub").c_str(), 0700); u64 n = 0; static Node t = fixed(mkgroup(FORM, TA, {mkraw(DA, "abc")})); Chunk l(to_lib(t));
        auto v = file_names(d, T); for(size_t k : {4096, 4097, 8191, 8192, 8193, 65536, 200000}) v.push_back(padded_name(d, k)); for(size_t k : {256, 1000, 4000, 5000}) v.push_back(d + std::string(k, 'x'));
        for(size_t i = c.job; i < v.size(); i += 64) for(int how = 0; how < 2; how++)
        {
            std::string o[2]; const char *p = v[i].c_str();
            for(int fill = 0; fill < 2; fill++)
            {
                int b = fill ? 0x5A : 0xA5; diag_begin(); al_begin(b); paint(b); auto read = [&] { IFF_Chunk *x = how ? IFF_read(p, nullptr) : IFF_readFile(p, nullptr); o[fill] += x ? IFF_compare(x, l, nullptr) ? "equal " : "read " : "no "; if(x) IFF_free(x, nullptr); };
                read(); paint(b); o[fill] += (how ? IFF_write(p, l, nullptr) : IFF_writeFile(p, l, nullptr)) ? "written " : "refused "; paint(b); read(); if(al_live()) c.fail("%lu blocks are never freed, file %s", al_live(), p); al_end(); o[fill] += g_diag; unlink(p);
            }
            if(o[0] != o[1]) c.fail("what happens with file %s depends on the contents of fresh memory: %s versus %s", p, o[0].c_str(), o[1].c_str());
            n += 2; c.trans(6); c.state(comb(hash_str(v[i].substr(d.size())), how));
        }
        c.execs(n);
    });
    // deep nesting: what a normal stack holds works; the recorded finding is about what it does not hold
    E.scene("depth", 5, [](Ctx &c)
    {
        static const int depths[] = {300, 600, 1000, 1500, 200000}; int d = depths[c.job]; u32 id = c.job % 2 ? LIST : FORM;
        std::string b; for(int i = 0; i < d; i++) { put32(b, id); put32(b, 4 + 12 * (u32)(d - 1 - i)); put32(b, TA); }
        if(d <= 1500) { judge(c, b, 0); return; }
        pid_t p = fork();
        if(p == 0)
        {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
            struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
            diag_begin(); IFF_Chunk *l = read_bytes(b); if(!l) _exit(0);
            IFF_check(l, nullptr); std::string out; write_bytes(l, out); IFF_free(l, nullptr); _exit(0);
        }
        int st; waitpid(p, &st, 0); c.trans();
        if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) c.finding("K2", "reading 200000 nested groups overflows the stack");
    });
}
