// C04: truncated or failing input is always reported, and reads consume exact sizes.
#include "api.hpp"
#include "ext.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <csignal>
#include <unistd.h>
#include <sys/stat.h>
using namespace mc;

static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if(!d) return -1; while(readdir(d)) n++; closedir(d); return n; }

enum Kind { TRUNC, READ_ERROR, NKINDS };

struct Res { bool got; std::string diag; };

// one reading of bytes b with one fault; afterwards nothing may be left over
static IFF_Chunk *attempt(Ctx &c, const std::string &b, size_t at, Kind kind, bool buffered, size_t piece, bool seekable, bool plain_chunk = false, const IFF_ChunkRegistry *reg = nullptr)
{
    MemIn m; m.chunk = piece; m.seekable = seekable;
    std::string t = kind == TRUNC && at < b.size() ? b.substr(0, at) : b;
    if(kind == READ_ERROR) m.fail_at = at; m.err = c.job + at;
    diag_begin();
    FILE *f = open_in(&m, t, buffered);
    al_cap(std::max(b.size() * 2, (size_t)1 << 18)); // far more than any input here justifies
    al_begin(0xA5);
    IFF_Chunk *l = plain_chunk ? IFF_readChunk(f, 0, reg ? reg : &IFF_defaultChunkRegistry) : IFF_readFd(f, reg);
    al_end();
    unsigned long live = al_live();
    fclose(f);
    if(!l && live) c.fail("a failed reading left %lu allocated blocks behind (%zu of %zu bytes available, kind %d): %s", live, at, b.size(), kind, hex(b).c_str());
    c.trans(1);
    return l;
}

// all faults for one file whose main chunk needs exactly `need` bytes
static void faults(Ctx &c, const Node &n, const std::string &b, size_t need, bool all_variants, const std::vector<size_t> &offs)
{
    u64 ex = 0;
    for(size_t at : offs)
    {
        for(int kind = 0; kind < NKINDS; kind++)
            for(int var = 0; var < (all_variants ? 6 : 2); var++)
            {
                bool buffered = var & 1; size_t piece = var / 2 == 0 ? SIZE_MAX : var / 2 == 1 ? 1 : 3; bool seekable = var != 3 && var != 4;
                for(int rc = 0; rc < (all_variants ? 2 : 1); rc++)
                {
                    IFF_Chunk *l = attempt(c, b, at, (Kind)kind, buffered, piece, seekable, rc);
                    bool ok = l != nullptr; ex++;
                    c.state(comb(comb(hash_str(b), at), comb(kind * 16 + var * 2 + rc, ok)));
                    if(c.noting()) c.note(fmt("%s cut at %zu of %zu, kind %d variant %d -> %s", desc(n).c_str(), at, need, kind, var, ok ? "read" : "refused"));
                    if(ok)
                    {
                        std::string bad; Node g = from_lib(l, nullptr, &bad); IFF_free(l, nullptr);
                        if(al_live()) c.fail("memory left after freeing");
                        if(at < need) c.fail("input that %s after %zu of the %zu necessary bytes was read as a success: delivered %s, bytes %s", kind == TRUNC ? "ends" : "fails", at, need, desc(g).c_str(), hex(b).c_str());
                        if(!bad.empty() || !(g == n)) c.fail("wrong tree %s instead of %s (%s)", desc(g).c_str(), desc(n).c_str(), bad.c_str());
                    }
                    else
                    {
                        if(at >= need) c.fail("complete input (%zu bytes needed, fault at %zu, kind %d, pieces of %zu, %s, %s) was refused: %s\n%s", need, at, kind, piece, buffered ? "buffered" : "unbuffered", seekable ? "seekable" : "not seekable", g_diag.c_str(), hex(b).c_str());
                        if(g_diag_calls == 0) c.fail("failing without a diagnostic");
                    }
                }
            }
    }
    c.execs(ex); c.validated(ex);
}

static std::vector<size_t> every(size_t n) { std::vector<size_t> v; for(size_t i = 0; i <= n; i++) v.push_back(i); return v; }

// the same verdict and tree however the stream delivers the bytes, for arbitrary bytes
static void delivery(Ctx &c, const std::string &b)
{
    IFF_Chunk *ref = attempt(c, b, b.size(), TRUNC, true, SIZE_MAX, true);
    Node want; std::string diag = g_diag; if(ref) { want = from_lib(ref, nullptr, nullptr); IFF_free(ref, nullptr); }
    // the model of reading decides whether the stream suffices
    Lenient len(b); Node ln; bool lok = len.chunk(ln);
    if(lok != (ref != nullptr)) c.fail("reading %s although the input %s: %s\n%s", ref ? "succeeded" : "failed", lok ? "suffices" : "ends too early or is malformed", hex(b).c_str(), diag.c_str());
    if(lok && !(ln == want)) c.fail("delivered %s, the bytes say %s: %s", desc(want).c_str(), desc(ln).c_str(), hex(b).c_str());
    for(int v = 1; v < 8; v++)
    {
        IFF_Chunk *l = attempt(c, b, b.size(), TRUNC, v & 1, v & 2 ? 1 : 7, !(v & 4));
        if((l != nullptr) != (ref != nullptr)) c.fail("the outcome depends on how the stream delivers its bytes (variant %d): %s", v, hex(b).c_str());
        if(l) { Node g = from_lib(l, nullptr, nullptr); IFF_free(l, nullptr); if(!(g == want)) c.fail("the tree depends on how the stream delivers its bytes"); }
        if(g_diag != diag) c.fail("the diagnostics depend on how the stream delivers its bytes (variant %d): '%s' versus '%s': %s", v, g_diag.c_str(), diag.c_str(), hex(b).c_str());
    }
    if(lok)
    {
        // exact consumption: the next byte in the stream is the one after the chunk
        MemIn m; std::string b2 = b + "NEXT"; FILE *f = open_in(&m, b2, false); al_begin(-1);
        Chunk l(IFF_readChunk(f, 0, &IFF_defaultChunkRegistry)); al_end(); fclose(f);
        if(!l.c) c.fail("appending bytes turned success into failure");
        if(m.pos != len.pos) c.fail("reading consumed %zu bytes instead of %zu: %s", m.pos, len.pos, hex(b).c_str());
    }
    c.state(comb(hash_str(b), lok));
}

// a real pipe: a writer thread is not needed for short inputs (they fit into the pipe)
static IFF_Chunk *through_pipe(const std::string &b, int how) // by stream, as the standard input, by name in two ways
{
    int fd[2]; if(pipe(fd)) return nullptr;
    fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
    struct A { int fd; const std::string *b; } a = { fd[1], &b };
    pthread_t th; pthread_create(&th, nullptr, [](void *p) -> void* { A *a = (A*)p; size_t o = 0; while(o < a->b->size()) { ssize_t r = write(a->fd, a->b->data() + o, std::min(a->b->size() - o, (size_t)97)); if(r <= 0) break; o += r; } close(a->fd); return nullptr; }, &a);
    FILE *f = fdopen(fd[0], "rb"); IFF_Chunk *l; std::string name = fmt("/dev/fd/%d", fd[0]);
    if(how == 2) l = IFF_readFile(name.c_str(), nullptr); else if(how == 3) l = IFF_read(name.c_str(), nullptr);
    else if(how == 1) { SwapOut s(&stdin, f); l = IFF_read(nullptr, nullptr); } else l = IFF_readFd(f, nullptr);
    char drain[256]; while(fread(drain, 1, sizeof drain, f) > 0) {}
    pthread_join(th, nullptr); fclose(f); return l;
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    signal(SIGPIPE, SIG_IGN);
    E.assume("a fault is an end of file or a read error that persists from one byte offset on");
    Alphabet a; a.raws = {mkraw(DA, ""), mkraw(DB, "x"), mkraw(TEXT, "abc")}; a.formtypes = {TA}; a.conttypes = {TA, JJJJ};
    Alphabet odd_ids = a; odd_ids.raws = {mkraw(FILL, ""), mkraw(FILL, "f"), mkraw(0, "zz"), mkraw(0xffffffffu, "k"), mkraw(JJJJ, "abcd")};
    // 1. every legal tree, every fault position, both kinds, all stream variants
    {
        static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
        E.fact("legal_trees", trees.size());
        E.scene("faults", trees.size(), [T](Ctx &c) { const Node &n = trees[c.job]; std::string b = ser(n); faults(c, n, b, b.size(), T || n.count() <= 3, every(b.size())); });
        // identifiers that the reader treats as any other: filler chunks, zero, all ones
        static std::vector<Node> oddtrees = Trees(odd_ids).upto(3);
        E.scene("faults_odd_identifiers", oddtrees.size(), [](Ctx &c) { const Node &n = oddtrees[c.job]; std::string b = ser(n); faults(c, n, b, b.size(), true, every(b.size())); });
        // with trailing bytes a fault behind the main chunk does not matter
        E.scene("faults_behind", T ? trees.size() : std::min(trees.size(), (size_t)400), [](Ctx &c) { const Node &n = trees[c.job]; std::string b = ser(n); size_t need = b.size(); b += "trailing"; std::vector<size_t> o; for(size_t i = need - std::min(need, (size_t)3); i <= b.size(); i++) o.push_back(i); faults(c, n, b, need, false, o); });
    }
    // 2. groups that are too small to have a type, and group bodies whose rest is skipped, end anywhere
    {
        static std::vector<std::pair<Node, std::string>> odd;
        for(u32 id : {FORM, CATT, LIST, PROP}) for(int s : {0, 1, 2, 3})
        {
            std::string b; put32(b, id); put32(b, s); b.append(s, 'k'); if(s & 1) b += '\0';
            Node n; n.id = id; n.size = s; odd.push_back({n, b});
            // as a member of a form, with a sibling behind
            Node sib = mkraw(DA, "123"); std::string o; put32(o, FORM); u32 tot = 4 + b.size() + 12; put32(o, tot); put32(o, TA); o += b; ser(sib, o);
            Node f = mkgroup(FORM, TA, {n, sib}); f.size = tot; if(id != PROP) odd.push_back({f, o});
            // stated sizes 1..3 above the sum of the members are impossible to parse as chunks: never a success when they are cut
        }
        E.scene("tiny_groups", odd.size(), [](Ctx &c) { auto &[n, b] = odd[c.job]; faults(c, n, b, b.size(), true, every(b.size())); });
    }
    // 3. arbitrary byte strings: the outcome is the one the bytes determine, however they are delivered
    {
        static std::vector<u32> W = {FORM, CATT, LIST, PROP, DA, 0, 1, 3, 4, 9, 12, 0x80000000u};
        static const int L = T ? 6 : 5;
        u64 w = W.size();
        E.scene("delivery_words", w * w, [w](Ctx &c)
        {
            u64 n = 0; std::string pre; put32(pre, W[c.job % w]); put32(pre, W[c.job / w]);
            std::function<void(std::string&, int)> rec = [&](std::string &s, int left) { delivery(c, s); n++; if(n % 3 == 0) { delivery(c, s + "\1"); delivery(c, s + "\2\3"); n += 2; } if(left) for(u32 x : W) { put32(s, x); rec(s, left - 1); s.resize(s.size() - 4); } };
            rec(pre, L - 2); c.execs(n); c.validated(n);
        });
        static std::vector<Node> trees = Trees(a).upto(T ? 4 : 3);
        E.scene("delivery_deviations", trees.size(), [](Ctx &c)
        {
            u64 n = 0; const Node &t = trees[c.job];
            for(size_t i = 0; i < t.count(); i++) for(int k = 0; k < Dev::N; k++) { Node m = t; if(!Dev::apply(m, i, k)) continue; delivery(c, ser(m)); n++; }
            c.execs(n ? n : 1); c.validated(n);
        });
    }
    // every value of every byte that the reader skips or ignores: padding, and the byte behind the input
    E.scene("padding_values", 256, [](Ctx &c)
    {
        u64 n = 0; char v = (char)c.job; static const Node odd = fixed(mkgroup(FORM, TA, {mkraw(DA, "abc")})), inner = fixed(mkgroup(FORM, TA, {mkraw(DA, "a"), mkraw(TEXT, "bcd"), mkraw(DB, "ee")})), list = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DB, "q")})}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}));
        for(const Node *t : {&odd, &inner, &list})
        {
            std::string b = ser(*t); std::vector<size_t> pads; // where padding is: behind odd data
            std::function<size_t(const Node&, size_t)> walk = [&](const Node &q, size_t o) -> size_t { if(!q.is_group()) { o += 8 + q.data.size(); if(q.data.size() & 1) pads.push_back(o++); return o; } o += 12; for(auto &k : q.props) o = walk(k, o); for(auto &k : q.kids) o = walk(k, o); return o; };
            walk(*t, 0);
            for(size_t p : pads) { std::string x = b; x[p] = v; delivery(c, x); n++; for(size_t cut = p; cut <= p + 1; cut++) { delivery(c, x.substr(0, cut)); n++; } }
            { std::string x = b; for(size_t p : pads) x[p] = v; delivery(c, x); n++; }
            // the byte behind the input stays in the stream
            for(int var = 0; var < 3; var++) { MemIn m; m.chunk = var == 2 ? 1 : SIZE_MAX; std::string x = b + std::string(2, v); FILE *f = open_in(&m, x, var == 1); diag_begin(); Chunk l(IFF_readFd(f, nullptr)); int next = fgetc(f); fclose(f); n++; if(!l.c) c.fail("%s is refused when byte %02x follows", desc(*t).c_str(), (unsigned char)v); if(next != (unsigned char)v && next != EOF) c.fail("byte %02x behind the input became %02x", (unsigned char)v, next); }
            for(int tiny = 0; tiny < 4; tiny++) for(u32 id : {FORM, CATT, LIST}) { std::string x; put32(x, id); put32(x, tiny); x.append(tiny, v); if(tiny & 1) x += v; delivery(c, x); n++; }
        }
        { IFF_RawChunk *q = nullptr; for(u32 size : {1u, 3u, 5u}) { std::string x; put32(x, DA); put32(x, size); x.append(size, 'd'); x += v; x += "NEXT"; MemIn m; FILE *f = open_in(&m, x, false); diag_begin(); q = (IFF_RawChunk*)IFF_readChunk(f, 0, &IFF_defaultChunkRegistry); fclose(f); Chunk o((IFF_Chunk*)q); n++; if(!q || m.pos != 8 + size + 1) c.fail("a chunk of %u bytes, padded with %02x, is %s, %zu bytes are consumed", size, (unsigned char)v, q ? "read" : "refused", m.pos); } }
        c.execs(n); c.validated(n); c.state(c.job); c.trans(n);
    });
    // 4. real pipes and real files
    {
        static std::vector<Node> trees = Trees(a).upto(3);
        E.scene("pipes_and_files", trees.size(), [](Ctx &c)
        {
            const Node &t = trees[c.job]; std::string b = ser(t); u64 n = 0; int fds = open_fds();
            std::vector<size_t> offs; if(t.count() <= 2) offs = every(b.size()); else offs = {0, 3, 8, b.size() - 2, b.size() - 1, b.size()};
            for(size_t at : offs) for(int how = 0; how < 6; how++)
            {
                std::string part = b.substr(0, at); diag_begin(); IFF_Chunk *l; std::string p = fmt("%s/r%d", ::E->tmpdir.c_str(), (int)getpid());
                if(how < 2) l = through_pipe(part, how); else if(how >= 4) l = through_pipe(part, how - 2);
                else { FILE *f = fopen(p.c_str(), "wb"); fwrite(part.data(), 1, part.size(), f); fclose(f); l = how == 2 ? IFF_readFile(p.c_str(), nullptr) : IFF_read(p.c_str(), nullptr); unlink(p.c_str()); }
                Chunk o(l); n++; c.trans(1);
                if((l != nullptr) != (at >= b.size())) c.fail("%s of %zu of %zu bytes: %s", how < 2 ? "pipe" : how < 4 ? "file" : "pipe opened by its name", at, b.size(), l ? "success" : "failure");
                if(l) { Node g = from_lib(l, nullptr, nullptr); if(!(g == t)) c.fail("wrong tree through a %s", how < 2 ? "pipe" : "file"); }
                c.state(comb(hash_str(part), how));
            }
            // files that do not exist, are folders or cannot be read
            if(c.job == 0) for(const char *bad : {"/nonexistent/x", "nonexistent", ".", ""}) { diag_begin(); IFF_Chunk *l = IFF_readFile(bad, nullptr); if(l) c.fail("reading '%s' succeeded", bad); if(!g_diag_calls) c.fail("no diagnostic for '%s'", bad); l = IFF_read(bad, nullptr); if(l) c.fail("reading '%s' succeeded", bad); n += 2; }
            if(open_fds() != fds) c.fail("%d descriptors stay open after reading", open_fds() - fds);
            c.execs(n); c.validated(n);
        });
    }
    // 4b. whatever the name of a file: complete, one byte short, half, empty, missing
    E.scene("names", 64, [T](Ctx &c)
    {
        static Node t = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "abc")})}, {mkgroup(PROP, TA, {mkraw(DB, "p")})})); std::string b = ser(t), d = fmt("%s/n%d/", ::E->tmpdir.c_str(), (int)getpid()); mkdir(d.c_str(), 0700); mkdir((d + "sub").c_str(), 0700); u64 n = 0; int fds = open_fds();
        auto v = file_names(d, T); for(size_t i = c.job; i < v.size(); i += 64) for(int how = 0; how < 2; how++) for(size_t at : {b.size() + 5, b.size(), b.size() - 1, b.size() / 2, (size_t)0, SIZE_MAX})
        {
            const char *p = v[i].c_str(); if(at != SIZE_MAX) { FILE *f = fopen(p, "wb"); if(!f) abort(); std::string part = (b + "after").substr(0, at); fwrite(part.data(), 1, part.size(), f); fclose(f); }
            diag_begin(); al_begin(0xA5); IFF_Chunk *l = how ? IFF_read(p, nullptr) : IFF_readFile(p, nullptr); al_end(); bool want = at >= b.size() && at != SIZE_MAX; n++; c.trans(1); c.state(comb(hash_str(v[i].substr(d.size())), comb(at, how)));
            if((l != nullptr) != want) c.fail("file %s (%zu characters) of %zu of %zu bytes: %s %s", p, v[i].size(), at, b.size(), l ? "success" : "failure", g_diag.c_str());
            if(l) { Node g = from_lib(l, nullptr, nullptr); IFF_free(l, nullptr); if(!(g == t)) c.fail("wrong tree from %s", p); } else if(!g_diag_calls) c.fail("failing without a diagnostic: %s", p);
            if(al_live()) c.fail("memory left"); unlink(p);
        }
        if(open_fds() != fds) c.fail("%d descriptors stay open after reading", open_fds() - fds); c.execs(n); c.validated(n);
    });
    // 5. several chunks one after the other in one stream
    {
        static std::vector<Node> items;
        for(auto &t : Trees(a).upto(2)) items.push_back(t);
        for(auto &r : a.raws) items.push_back(r);
        items.push_back(fixed(mkgroup(PROP, TA, {mkraw(DA, "q")})));
        { Node n; n.id = FORM; n.size = 3; items.push_back(n); n.id = LIST; n.size = 0; items.push_back(n); n.id = CATT; n.size = 1; items.push_back(n); }
        static u64 w; w = items.size(); E.fact("stream_items", w);
        E.scene("consecutive", w * w, [](Ctx &c)
        {
            u64 ex = 0;
            for(u64 k = 0; k < w; k++)
            {
                const Node *q[3] = { &items[c.job % w], &items[c.job / w], &items[k] };
                std::string b; std::vector<size_t> ends; for(auto *x : q) { ser(*x, b); ends.push_back(b.size()); }
                for(int var = 0; var < 3; var++)
                {
                    MemIn m; m.chunk = var == 2 ? 3 : SIZE_MAX; FILE *f = open_in(&m, b, var == 1);
                    for(int i = 0; i < 3; i++)
                    {
                        Chunk l(IFF_readChunk(f, 0, &IFF_defaultChunkRegistry));
                        if(!l.c) c.fail("chunk %d of %s was refused", i, hex(b).c_str());
                        Node g = from_lib(l, nullptr, nullptr); if(!(g == *q[i])) c.fail("chunk %d of a stream was read as %s instead of %s", i, desc(g).c_str(), desc(*q[i]).c_str());
                        if(var != 1 && m.pos != ends[i]) c.fail("after chunk %d the stream is at %zu instead of %zu", i, m.pos, ends[i]);
                        if(var == 1 && ftell(f) != (long)ends[i]) c.fail("after chunk %d the stream is at %ld instead of %zu", i, ftell(f), ends[i]);
                    }
                    if(fgetc(f) != EOF) c.fail("bytes left after three chunks");
                    fclose(f); ex++; c.trans(3);
                }
                c.state(hash_str(b));
            }
            c.execs(ex); c.validated(ex);
        });
    }
    // 5b. input that begins in the middle of a file: the application has read or skipped what is before it, by itself
    {
        static std::vector<Node> trees = Trees(a).upto(T ? 4 : 3); static const int ways = 5;
        E.scene("middle", trees.size(), [](Ctx &c)
        {
            const Node &t = trees[c.job]; std::string b = ser(t); u64 n = 0; Node decoy = fixed(mkgroup(FORM, TB, {mkraw(DB, "decoy")})); std::string p = fmt("%s/m%d", ::E->tmpdir.c_str(), (int)getpid()); int fds = open_fds();
            std::vector<std::string> pres = {"k", "MZ\x90", "12345678", ser(decoy), ser(decoy) + "odd", std::string(4095, 'z'), std::string(5000, '\0')}; if(t.count() > 2) { pres.erase(pres.begin() + 5); pres.pop_back(); }
            for(auto &pre : pres) for(int way = 0; way < ways; way++) for(int dir = 0; dir < 2; dir++)
            {
                std::vector<size_t> offs; if(t.count() <= 2 && pre.size() < 100) offs = every(b.size()); else offs = {0, 7, 8, b.size() / 2, b.size() - 1, b.size()}; offs.push_back(b.size() + 4);
                for(size_t at : offs)
                {
                    std::string in = pre + (b + "more").substr(0, at); MemIn m; FILE *f;
                    if(dir) { f = fopen(p.c_str(), "wb+"); if(!f) abort(); fwrite(in.data(), 1, in.size(), f); rewind(f); } else { m.chunk = way & 1 ? 3 : SIZE_MAX; f = open_in(&m, in, way & 1); }
                    if(way == 0) for(size_t i = 0; i < pre.size(); i++) fgetc(f);
                    else if(way == 1) { std::string x(pre.size(), 0); if(fread(&x[0], 1, x.size(), f) != x.size() || x != pre) abort(); }
                    else if(way == 2) fseek(f, pre.size(), SEEK_SET);
                    else if(way == 3) { for(size_t i = 0; i <= pre.size(); i++) fgetc(f); fseek(f, (long)pre.size(), SEEK_SET); }
                    else { for(size_t i = 0; i < pre.size(); i++) { int k = fgetc(f); ungetc(k, f); fgetc(f); } }
                    long start = ftell(f); diag_begin(); al_begin(0xA5); IFF_Chunk *l = IFF_readFd(f, nullptr); al_end(); long pos = ftell(f); fclose(f); n++; c.trans(1); c.state(comb(hash_str(in), way * 2 + dir));
                    if((l != nullptr) != (at >= b.size())) c.fail("%zu of %zu bytes behind %zu others: %s %s", at, b.size(), pre.size(), l ? "success" : "failure", g_diag.c_str());
                    if(l) { Node g = from_lib(l, nullptr, nullptr); IFF_free(l, nullptr); if(!(g == t)) c.fail("%s behind %zu other bytes is read as %s", desc(t).c_str(), pre.size(), desc(g).c_str()); if(pos != (long)(pre.size() + b.size()) && pos != (long)(pre.size() + b.size()) + (at > b.size())) /* it looks whether anything follows */ c.fail("after reading, the file is at %ld instead of %zu (%s, skipped in way %d; %zu were taken), before %ld, %s", pos, pre.size() + b.size(), dir ? "file" : "stream", way, m.pos, start, desc(t).c_str()); } else if(!g_diag_calls) c.fail("failing without a diagnostic");
                    if(al_live()) c.fail("memory left");
                }
            }
            unlink(p.c_str()); if(open_fds() != fds) c.fail("descriptors stay open"); c.execs(n); c.validated(n);
        });
    }
    // 6. large hierarchies: faults around every structural boundary and at a regular grid
    {
        static std::vector<Big> big = big_trees(T, T ? SIZE_MAX : 140000);
        if(!T) for(size_t s : {(size_t)262147, (size_t)524288, (size_t)1048577, (size_t)1500002, (size_t)16777219, (size_t)16777222}) { big.push_back({fmt("data size %zu, first", s), fixed(mkgroup(FORM, TA, {mkraw(DA, bigdata(s)), mkraw(DB, "xy")}))}); big.push_back({fmt("data size %zu, last", s), fixed(mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DB, "xy"), mkraw(DA, bigdata(s))})}))}); }
        E.fact("one_axis_large_trees", big.size());
        E.scene("large", big.size(), [T](Ctx &c)
        {
            const Node &n = big[c.job].n; std::string b = ser(n); c.note(big[c.job].name);
            std::vector<size_t> o; size_t z = b.size();
            for(size_t i = 0; i <= 24 && i <= z; i++) o.push_back(i);
            for(size_t i = z > 24 ? z - 24 : 0; i <= z; i++) o.push_back(i);
            for(size_t p = 32; p + 1 < z; p *= 2) { o.push_back(p - 1); o.push_back(p); o.push_back(p + 1); }
            for(int i = 1; i < 16; i++) o.push_back(z / 16 * i);
            if(z > (T ? 2000000 : 200000) || n.count() > 5000) o = {0, 7, 8, 11, 12, 20, z / 2, z - 13, z - 12, z - 11, z - 2, z - 1, z};
            faults(c, n, b, z, false, o);
        });
    }
    // 7. chunks with fields of their own and bytes behind them that the reader does not know: all of them have to be there
    {
        static const std::vector<int> sizes = {0, 1, 2, 3, 4, 7, 8, 11, 12, 13, 14, 15, 16, 17, 100, 255, 256, 257, 499, 500, 501, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4108, 8191, 8192, 8193, 9000, 16384, 32768, 65535, 65536, 65548, 70001};
        E.scene("unknown_bytes", sizes.size() * 4, [](Ctx &c)
        {
            int size = sizes[c.job / 4], place = c.job % 4; u64 n = 0; // place: 1: a sibling follows; 2: within a PROP
            std::string body = bigdata(size, 5), in; put32(in, ext::types[0].chunkId); put32(in, size); in += body; if(size & 1) in += '\0';
            if(place & 1) { put32(in, DA); put32(in, 3); in += std::string("sib\0", 4); }
            std::string b; size_t start;
            if(place & 2) { put32(b, LIST); put32(b, 16 + in.size()); put32(b, TA); put32(b, PROP); put32(b, 4 + in.size()); put32(b, TA); start = b.size(); b += in; }
            else { put32(b, FORM); put32(b, 4 + in.size()); put32(b, TA); start = b.size(); b += in; }
            std::vector<size_t> at; for(size_t i = 0; i <= 40 && i <= b.size(); i++) at.push_back(i); for(size_t i = b.size() > 30 ? b.size() - 30 : 0; i <= b.size(); i++) at.push_back(i);
            for(size_t p = 64; p < b.size(); p *= 2) for(int d = -1; d <= 1; d++) { at.push_back(p + d); at.push_back(start + 8 + p + d); } for(int i = 1; i < 8; i++) at.push_back(b.size() / 8 * i);
            int delivered = size >= 12 ? 12 : size >= 8 ? 8 : size >= 4 ? 4 : size >= 2 ? 2 : size; // the fields a, a2, b, c, d one after the other
            for(size_t t : at) if(t <= b.size()) for(int kind = 0; kind < NKINDS; kind++) for(int var = 0; var < 8; var++)
            {
                if(var / 2 % 2 && b.size() > 5000 && t % 3) continue; // tiny deliveries of large inputs are slow
                IFF_Chunk *l = attempt(c, b, t, (Kind)kind, var & 1, var & 2 ? 5 : SIZE_MAX, !(var & 4), false, &ext::registry); n++;
                c.state(comb(comb(hash_str(b), t), comb(kind * 8 + var, l != nullptr)));
                if(c.noting()) c.note(fmt("extension chunk of %d bytes, cut at %zu of %zu -> %s", size, t, b.size(), l ? "read" : "refused"));
                if(!l) { if(t >= b.size()) c.fail("a complete extension chunk of %d bytes is refused: %s", size, g_diag.c_str()); if(!g_diag_calls) c.fail("failing without a diagnostic"); continue; }
                if(t < b.size()) c.fail("input that %s after %zu of the %zu necessary bytes was read as a success; it has an extension chunk of %d bytes (%s)", kind == TRUNC ? "ends" : "fails", t, b.size(), size, var & 4 ? "not seekable" : "seekable");
                const IFF_Group *g = place & 2 ? (IFF_Group*)((IFF_List*)l)->prop[0] : (IFF_Group*)l; std::string why;
                if(g->chunkLength != 1u + (place & 1)) why = "number of chunks";
                else
                {
                    const ext::Exta *e = (const ext::Exta*)g->chunk[0]; auto B = [&](int i) { return (u32)(unsigned char)body[i]; };
                    if(e->chunkSize != size) why = "size";
                    if(delivered >= 1 && e->a != B(0)) why = "a"; if(delivered >= 2 && e->a2 != B(1)) why = "a2"; if(delivered >= 4 && e->b != (B(2) << 8 | B(3))) why = "b";
                    if(delivered >= 8 && (u32)e->c != (B(4) << 24 | B(5) << 16 | B(6) << 8 | B(7))) why = "c"; if(delivered >= 12 && e->d != (B(8) << 24 | B(9) << 16 | B(10) << 8 | B(11))) why = "d";
                    if(place & 1) { const IFF_RawChunk *r = (const IFF_RawChunk*)g->chunk[1]; if(r->chunkId != DA || r->chunkSize != 3 || memcmp(r->chunkData, "sib", 3)) why = "the next chunk"; }
                }
                IFF_free(l, &ext::registry);
                if(!why.empty()) c.fail("an extension chunk of %d bytes is read wrongly: %s", size, why.c_str());
                if(al_live()) c.fail("memory left after freeing");
            }
            c.execs(n); c.validated(n);
        });
    }
}
