// C02: writing and reading are inverse, and the serialized bytes are exact.
#include "api.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

static std::string slurp(const std::string &p)
{
    std::string s; FILE *f = fopen(p.c_str(), "rb"); if(!f) return "<cannot open>";
    char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static void spill(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "wb"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
static std::string scratch() { return fmt("%s/w%d", E->tmpdir.c_str(), (int)getpid()); }

static void same(Ctx &c, const Node &n, const std::string &got, const std::string &want, const char *how)
{
    if(got == want) return;
    size_t p = 0; while(p < got.size() && p < want.size() && got[p] == want[p]) p++;
    c.fail("%s: bytes differ at offset %zu (%zu written, %zu expected)\n tree %s\n written  %s\n expected %s", how, p, got.size(), want.size(), desc(n).c_str(), hex(got.substr(p > 16 ? p - 16 : 0), 64).c_str(), hex(want.substr(p > 16 ? p - 16 : 0), 64).c_str());
}
static void tree_is(Ctx &c, const IFF_Chunk *l, const Node &n, const char *how)
{
    if(!l) c.fail("%s: reading failed: %s (tree %s)", how, g_diag.c_str(), desc(n).c_str());
    std::string bad; Node g = from_lib(l, nullptr, &bad);
    if(!bad.empty()) c.fail("%s: %s (tree %s)", how, bad.c_str(), desc(n).c_str());
    if(!(g == n)) c.fail("%s: delivered %s instead of %s", how, desc(g).c_str(), desc(n).c_str());
}

// level: 0 memory streams; 1 also standard streams and consecutive chunks; 2 also named files
static void roundtrip(Ctx &c, const Node &n, int level)
{
    diag_begin();
    const std::string want = ser(n); std::string out;
    Chunk a(to_lib(n));
    if(!write_bytes(a, out)) c.fail("writing failed: %s %s", g_diag.c_str(), desc(n).c_str());
    same(c, n, out, want, "open stream");
    Chunk b(read_bytes(out)); tree_is(c, b, n, "read back");
    if(!IFF_compare(a, b, nullptr) || !IFF_compare(b, a, nullptr)) c.fail("hierarchy read back is not equal: %s", desc(n).c_str());
    std::string again; if(!write_bytes(b, again)) c.fail("writing what was read failed: %s", desc(n).c_str());
    same(c, n, again, want, "written, read and written");
    c.trans(6); c.validated();
    c.state(hash_str(want));
    if(c.noting()) c.note(desc(n) + " <-> " + hex(want, 80));
    if(level >= 1)
    {
        // unbuffered
        {
            MemOut m; FILE *f = open_out(&m, false);
            bool ok = IFF_writeFd(f, a, nullptr); fclose(f);
            if(!ok) c.fail("writing unbuffered failed: %s", desc(n).c_str());
            same(c, n, m.buf, want, "unbuffered stream");
        }
        // two hierarchies in one stream, and a prefix that is already there
        {
            MemOut m; FILE *f = open_out(&m, true); fputs("AB", f);
            bool ok = IFF_writeFd(f, a, nullptr) && IFF_writeChunk(f, b, 0, &IFF_defaultChunkRegistry); fclose(f);
            if(!ok) c.fail("writing twice failed: %s", desc(n).c_str());
            same(c, n, m.buf, "AB" + want + want, "consecutive writes");
            std::string two = m.buf.substr(2); MemIn in; FILE *r = open_in(&in, two, true);
            Chunk x(IFF_readChunk(r, 0, &IFF_defaultChunkRegistry)); long at = ftell(r);
            tree_is(c, x, n, "first of two");
            if(at != (long)want.size()) c.fail("reading the first of two chunks ended at %ld instead of %zu: %s", at, want.size(), desc(n).c_str());
            Chunk y(IFF_readChunk(r, 0, &IFF_defaultChunkRegistry)); fclose(r);
            tree_is(c, y, n, "second of two");
        }
        // standard streams
        {
            MemOut m; FILE *f = open_out(&m, true); bool ok;
            { SwapOut s(&stdout, f); ok = IFF_write(nullptr, a, nullptr); }
            std::string got = m.buf; fclose(f);
            if(!ok) c.fail("writing to the standard output failed: %s", desc(n).c_str());
            same(c, n, got, want, "standard output");
            MemIn in; FILE *r = open_in(&in, want, false); IFF_Chunk *x;
            { SwapOut s(&stdin, r); x = IFF_read(nullptr, nullptr); }
            fclose(r); Chunk xo(x); tree_is(c, xo, n, "standard input");
        }
        c.trans(8);
    }
    if(level >= 2)
    {
        std::string p = scratch();
        for(int how = 0; how < 4; how++)
        {
            spill(p, std::string(how & 1 ? want.size() + 1000 : 3, 'Z')); // an old, longer or shorter file
            bool ok = how < 2 ? IFF_write(p.c_str(), a, nullptr) : IFF_writeFile(p.c_str(), a, nullptr);
            if(!ok) c.fail("writing a named file failed: %s", g_diag.c_str());
            same(c, n, slurp(p), want, "named file");
            Chunk x(how < 2 ? IFF_readFile(p.c_str(), nullptr) : IFF_read(p.c_str(), nullptr)); tree_is(c, x, n, "named file");
        }
        unlink(p.c_str());
        c.trans(8);
    }
    // padding that is not zero and trailing bytes are not part of the value
    tree_is(c, a, n, "after all of this the written tree");
}

// bytes -> tree -> bytes for valid files, with the padding bytes and trailing bytes changed
static void canonical(Ctx &c, const Node &n)
{
    std::string want = ser(n);
    std::vector<size_t> pads; // offsets of padding bytes
    std::function<void(const Node&, size_t&)> walk = [&](const Node &x, size_t &pos) {
        size_t body = pos + 8; pos = body;
        if(x.is_group()) { pos += 4; for(auto &p : x.props) walk(p, pos); for(auto &k : x.kids) walk(k, pos); } else pos += x.data.size();
        if(x.size & 1) pads.push_back(pos++);
    };
    size_t pos = 0; walk(n, pos);
    for(u64 mask = 0; mask < (1ull << std::min(pads.size(), (size_t)4)); mask++)
        for(const char *tr : {"", "q", "FORM\1", "tttttttttttttttttttttttttttttttt"})
        {
            std::string b = want; for(size_t i = 0; i < pads.size() && i < 4; i++) if(mask >> i & 1) b[pads[i]] = (char)(0x80 + i);
            b += tr;
            diag_begin();
            Chunk l(read_bytes(b)); tree_is(c, l, n, "file with odd padding or trailing bytes");
            std::string out; if(!write_bytes(l, out)) c.fail("writing failed");
            same(c, n, out, want, "file with odd padding or trailing bytes, rewritten");
            c.state(hash_str(b)); c.trans(2);
        }
}

// hierarchies in the middle of real files, with every mode of opening and buffering that allows it
static void positions(Ctx &c, const Node &n)
{
    const std::string want = ser(n), p = scratch(); Chunk a(to_lib(n)); u64 ex = 0;
    for(const char *mode : {"w+b", "r+b", "wb", "ab", "a+b"}) for(int buf = 0; buf < 3; buf++) for(size_t pre : {0, 1, 7, 5000}) for(int old = 0; old < 2; old++)
    {
        const std::string head = bigdata(pre, 3), before = mode[0] == 'w' ? "" : mode[0] == 'a' ? head : old ? std::string(pre + want.size() * 2 + 50, 'o') : head;
        spill(p, before); FILE *f = fopen(p.c_str(), mode); if(!f) c.fail("cannot open the scratch file");
        static char bb[4096]; setvbuf(f, buf == 0 ? nullptr : bb, buf == 0 ? _IONBF : buf == 1 ? _IOFBF : _IOLBF, buf == 0 ? 0 : buf == 1 ? 64 : sizeof bb);
        if(mode[0] == 'w') fwrite(head.data(), 1, pre, f); else fseek(f, (long)pre, SEEK_SET);
        diag_begin(); bool ok = IFF_writeFd(f, a, nullptr); long at = ftell(f); ok = ok && IFF_writeFd(f, a, nullptr) && fputs("end", f) >= 0; fclose(f);
        if(!ok) c.fail("writing into a file opened with %s at offset %zu fails: %s", mode, pre, g_diag.c_str());
        std::string exp = head + want + want + "end"; if(mode[0] == 'r' && before.size() > exp.size()) exp += before.substr(exp.size());
        if(mode[0] == 'r' && old) exp.replace(0, pre, before.substr(0, pre));
        same(c, n, slurp(p), exp, fmt("file opened with %s, offset %zu, buffering %d", mode, pre, buf).c_str());
        if(at != (long)(pre + want.size())) c.fail("after writing at offset %zu the file opened with %s is at %ld instead of %zu", pre, mode, at, pre + want.size());
        ex++; c.trans(2);
        if(mode[0] != 'w' || mode[1] == '+')
        {
            // read both back from where they are, through a file that is opened anew
            FILE *r = fopen(p.c_str(), old ? "rb" : "r+b"); static char rb[4096]; setvbuf(r, buf == 0 ? nullptr : rb, buf == 0 ? _IONBF : _IOFBF, buf == 1 ? 64 : buf == 0 ? 0 : sizeof rb);
            fseek(r, (long)pre, SEEK_SET); Chunk x(IFF_readChunk(r, 0, &IFF_defaultChunkRegistry)); tree_is(c, x, n, "chunk in the middle of a file");
            if(ftell(r) != (long)(pre + want.size())) c.fail("after reading a chunk at offset %zu the file is at %ld instead of %zu", pre, ftell(r), pre + want.size());
            diag_begin(); Chunk y(IFF_readFd(r, nullptr)); tree_is(c, y, n, "hierarchy in the middle of a file"); fclose(r); c.trans(2); ex++;
        }
        c.state(comb(hash_str(want), comb(hash_str(mode), pre * 8 + buf * 2 + old)));
    }
    // through the standard streams: a file that is positioned already
    {
        spill(p, ""); FILE *f = fopen(p.c_str(), "w+b"); fputs("head", f); bool ok; { SwapOut s(&stdout, f); ok = IFF_write(nullptr, a, nullptr); } fseek(f, 4, SEEK_SET); IFF_Chunk *x; { SwapOut s(&stdin, f); x = IFF_read(nullptr, nullptr); } Chunk xo(x); fclose(f);
        if(!ok) c.fail("writing to a redirected standard output fails"); same(c, n, slurp(p), "head" + want, "redirected standard output"); tree_is(c, xo, n, "redirected standard input"); ex++; c.trans(2);
    }
    unlink(p.c_str()); c.execs(ex); c.validated(ex);
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("sizes are up to date (size updates: C07); media deliver and take all bytes (C04, C05)");
    Alphabet a; a.raws = {mkraw(DA, ""), mkraw(DB, "x"), mkraw(TEXT, "ab"), mkraw(FILL, std::string("\0\0\0", 3))}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
    {
        static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
        E.fact("legal_trees", trees.size());
        u64 B = 16;
        E.scene("trees", (trees.size() + B - 1) / B, [B](Ctx &c)
        {
            u64 n = 0; for(u64 i = c.job * B; i < trees.size() && i < (c.job + 1) * B; i++, n++) { roundtrip(c, trees[i], trees[i].count() <= 3 ? 2 : 1); canonical(c, trees[i]); }
            c.execs(n);
        });
    }
    {   // any nesting, any root
        Alphabet b = a; b.legal_only = false; b.raws = {mkraw(DA, "x"), mkraw(mkid("abcd"), "12345")};
        static std::vector<Node> trees = Trees(b).upto(T ? 4 : 3);
        for(auto &r : a.raws) trees.push_back(r);
        for(u32 t : {TA, LIST}) for(auto &r : a.raws) { trees.push_back(fixed(mkgroup(PROP, t, {r}))); trees.push_back(fixed(mkgroup(PROP, t, {r, r}))); }
        E.fact("arbitrary_trees", trees.size());
        u64 B = 16;
        E.scene("arbitrary_trees", (trees.size() + B - 1) / B, [B](Ctx &c)
        {
            u64 n = 0; for(u64 i = c.job * B; i < trees.size() && i < (c.job + 1) * B; i++, n++) roundtrip(c, trees[i], 1);
            c.execs(n);
        });
    }
    // every byte value at every position of short data, every size up to 600 in every kind of place
    E.scene("data", 256, [T](Ctx &c)
    {
        u64 n = 0; char v = (char)c.job;
        for(size_t len = 1; len <= 6; len++) for(size_t p = 0; p < len; p++) for(u32 id : {DA, TEXT, FILL})
        { std::string d(len, (char)~v); d[p] = v; roundtrip(c, fixed(mkgroup(FORM, TA, {mkraw(id, d), mkraw(DB, "z")})), 0); n++; }
        for(u32 ch = 0; ch < (T ? 256u : 16u); ch++) { std::string d; d += v; d += (char)(ch * (T ? 1 : 17)); roundtrip(c, fixed(mkgroup(FORM, TA, {mkraw(DA, d)})), 0); n++; }
        // IDs and types with every byte value at every position are carried unchanged
        for(int p = 0; p < 4; p++) { u32 x = (TA & ~(0xffu << 8 * p)) | (u32)(unsigned char)v << 8 * p;
            if(x != FORM && x != LIST && x != CATT && x != PROP) { roundtrip(c, fixed(mkgroup(CATT, x, {mkgroup(FORM, x, {mkraw(x, "123")}), mkgroup(LIST, x, {}, {mkgroup(PROP, x, {mkraw(x, "")})})})), 0); n++; } }
        size_t lo = c.job * 3; for(size_t s = lo; s < lo + 3; s++) { roundtrip(c, fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, bigdata(s)), mkraw(DB, "after")})}, {mkgroup(PROP, TA, {mkraw(DA, bigdata(s, 5))})})), 1); n++; }
        c.execs(n);
    });
    {
        Alphabet b = a; b.raws = {mkraw(DB, "x"), mkraw(DA, bigdata(6000))}; b.formtypes = {TA}; static std::vector<Node> trees = Trees(b).upto(T ? 4 : 3);
        for(size_t z : {1, 2, 3, 16, 511, 512, 4095, 4096, 4097, 8191, 8192, 12289, 65536, 70001}) { trees.push_back(fixed(mkgroup(FORM, TA, {mkraw(DA, std::string(z, 0))}))); if(z > 2) trees.push_back(fixed(mkgroup(FORM, TA, {mkraw(DA, "x" + std::string(z, 0) + "y"), mkraw(DB, std::string(z, 0))}))); }
        E.fact("positioned_trees", trees.size());
        E.scene("positions", trees.size(), [](Ctx &c) { c.note(desc(trees[c.job])); positions(c, trees[c.job]); });
    }
    {   // the name of a file does not matter: every file is created, read back and found again under its name only
        static const u64 NJ = 64;
        E.scene("names", NJ, [T](Ctx &c)
        {
            static Node n = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "abc")})}, {mkgroup(PROP, TA, {mkraw(DB, "p")})})), m = fixed(mkgroup(FORM, TB, {mkraw(DB, "other")}));
            std::string d = fmt("%s/n%d/", ::E->tmpdir.c_str(), (int)getpid()), want = ser(n), old = ser(m); u64 k = 0; if((mkdir(d.c_str(), 0700) && errno != EEXIST) || (mkdir((d + "sub").c_str(), 0700) && errno != EEXIST)) abort();
            auto v = file_names(d, T); Chunk a(to_lib(n)), b(to_lib(m));
            auto alone = [&](const std::string &name, const char *after) { DIR *h = opendir(d.c_str()); if(!h) abort(); int files = 0; while(dirent *e = readdir(h)) if(e->d_type != DT_DIR) files++; closedir(h); if(files != 1) c.fail("%d files in the folder of %s %s", files, name.c_str(), after); };
            for(size_t i = c.job; i < v.size(); i += NJ) for(int how = 0; how < 2; how++)
            {
                const char *p = v[i].c_str(); diag_begin();
                auto put = [&](IFF_Chunk *x) { return how ? IFF_write(p, x, nullptr) : IFF_writeFile(p, x, nullptr); }; auto get = [&] { return how ? IFF_read(p, nullptr) : IFF_readFile(p, nullptr); };
                for(int round = 0; round < 2; round++) // the second time over an existing file
                {
                    if(!put(round ? a : b)) c.fail("cannot write %s (%zu characters): %s", p, v[i].size(), g_diag.c_str()); same(c, n, slurp(v[i]), round ? want : old, p); alone(v[i], "after writing it");
                    Chunk x(get()); if(!x.c) c.fail("cannot read %s (%zu characters): %s", p, v[i].size(), g_diag.c_str()); tree_is(c, x, round ? n : m, p); alone(v[i], "after reading it");
                }
                if(g_diag_calls) c.fail("diagnostics about %s: %s", p, g_diag.c_str());
                if(unlink(p)) c.fail("%s has gone", p); if(Chunk(get()).c) c.fail("%s is read although it does not exist", p);
                k++; c.trans(5); c.state(comb(hash_str(v[i].substr(d.size())), how));
            }
            c.execs(k); c.validated(k);
        });
    }
    {
        static std::vector<Big> big = big_trees(T);
        E.fact("one_axis_large_trees", big.size());
        E.scene("large", big.size(), [T](Ctx &c)
        {
            c.note(big[c.job].name);
            bool heavy = ser(big[c.job].n).size() > 300000 || big[c.job].n.count() > 5000;
            roundtrip(c, big[c.job].n, heavy && !T ? 0 : 2);
        });
    }
}
