// C14: the textual representation is exact and complete for every hierarchy.
#include "api.hpp"
#include <clocale>
using namespace mc;

static std::string where(const std::string &a, const std::string &b) // first difference
{
    size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 60 ? i - 60 : 0; return fmt("at offset %zu of %zu/%zu: ...%s| instead of ...%s|", i, a.size(), b.size(), a.substr(s, i - s + 40).c_str(), b.substr(s, i - s + 40).c_str());
}
static void judge(Ctx &c, const Node &t, unsigned ind, IFF_Chunk *l, const char *how)
{
    std::string want = pp(t, ind); c.trans();
    diag_begin(); std::string got = print_text(l, ind);
    if(got != want) c.fail("%s (%s, indentation %u) is printed differently %s", desc(t).c_str(), how, ind, where(got, want).c_str());
    if(g_diag_calls) c.fail("printing emits diagnostics: %s", g_diag.c_str());
}
static void both(Ctx &c, const Node &t, std::vector<unsigned> inds, bool readable)
{
    al_begin(0xA5); al_cap((size_t)1 << 28); diag_begin();
    {
        Chunk a(to_lib(t)); std::string bad; Node before = from_lib(a, nullptr, &bad);
        for(unsigned i : inds) judge(c, t, i, a, "built");
        judge(c, t, inds[0], a, "printed again"); { std::string x = print_text(a, inds[0], &IFF_defaultChunkRegistry); if(x != pp(t, inds[0])) c.fail("%s is printed differently with the default registry", desc(t).c_str()); }
        if(!(from_lib(a, nullptr, &bad) == before)) c.fail("printing changed %s", desc(t).c_str());
        if(readable) { al_end(); al_begin(0x11); Chunk b(read_bytes(ser(t))); if(!b.c) c.fail("cannot read %s", desc(t).c_str()); for(unsigned i : inds) judge(c, t, i, b, "read"); }
        c.state(hash_str(pp(t, 0)));
    }
    if(al_live()) c.fail("printing leaves memory allocated for %s", desc(t).c_str());
    al_end(); c.validated(); if(c.noting()) c.note(desc(t));
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("default registry; the standard output accepts all bytes (iffpp reports the opposite: C15)");
    {
        Alphabet a; a.raws = {mkraw(DA, "\x01\x9a"), mkraw(TEXT, "a'%s\n"), mkraw(DB, "")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
        static std::vector<Node> legal = Trees(a).upto(T ? 6 : 5);
        a.legal_only = false; a.raws = {mkraw(DA, "z"), mkraw(TEXT, "")}; a.formtypes = {TA}; a.conttypes = {mkid("%d\xff")};
        static std::vector<Node> any = Trees(a).upto(4);
        E.fact("legal_trees", legal.size()); E.fact("arbitrary_trees", any.size());
        E.scene("legal", (legal.size() + 31) / 32, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 32; i < legal.size() && i < c.job * 32 + 32; i++) { both(c, legal[i], {0, 1, 2, 3}, true); n++; } c.execs(n); });
        E.scene("arbitrary", (any.size() + 31) / 32, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 32; i < any.size() && i < c.job * 32 + 32; i++) { both(c, any[i], {0, 2}, false); n++; } c.execs(n); });
        // deviating trees: stale and negative sizes, odd IDs
        static std::vector<Node> base = legal; base.resize(std::min(base.size(), (size_t)(T ? 6000 : 900)));
        E.scene("deviations", base.size(), [](Ctx &c)
        {
            u64 n = 0; const Node &t = base[c.job]; size_t cnt = t.count();
            for(size_t i = 0; i < cnt; i++) for(int k = 0; k < Dev::N; k++)
            {
                Node d = t; if(!Dev::apply(d, i, k)) continue; bool ok = true; std::vector<Node*> f;
                std::function<void(Node&)> fix = [&](Node &x) { if(x.is_group()) x.data.clear(); else { x.kids.clear(); x.type = 0; if(x.size > 0) { if(x.size > 100000) x.size = 100; x.data.resize(x.size, '\x7f'); } else x.data.clear(); } if(x.id != LIST) x.props.clear(); for(auto &p : x.props) { if(p.id != PROP) ok = false; fix(p); } for(auto &p : x.kids) fix(p); };
                fix(d); if(!ok) continue; both(c, d, {0, 1}, false); n++;
            }
            c.execs(n);
        });
    }
    // long contents: special bytes at the beginning, in the middle and at the end
    {
        static const std::vector<int> ls = {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32766, 32767, 32768, 65535, 65536, 65537, 100000};
        E.scene("long_contents", ls.size(), [](Ctx &c)
        {
            u64 n = 0; int len = ls[c.job];
            for(char v : {'\n', '\r', '\0', '\t', ' ', '%', '\x1a', '\x7f', '\x80', '\xff'}) for(int m = 1; m < 8; m++) for(u32 id : {TEXT, DA})
            {
                std::string d = bigdata(len, 3); for(auto &b : d) if(b == v) b = 'x'; if(m & 1) d[0] = v; if(m & 2) d[len / 2] = v; if(m & 4) d[len - 1] = v;
                both(c, fixed(mkgroup(FORM, TA, {mkraw(id, d)})), {0}, m == 4); n++;
            }
            c.execs(n); c.note(fmt("%d bytes", len));
        });
    }
    // all contents: every byte value at every column, every length around the line breaks
    E.scene("bytes", 256, [T](Ctx &c)
    {
        u64 n = 0; char v = (char)c.job;
        for(int len = 0; len <= (T ? 64 : 33); len++) for(int at = 0; at < std::max(len, 1); at++) for(u32 id : {DA, TEXT})
        {
            if(len > 21 && at > 2 && at + 12 < len) continue;
            std::string d = bigdata(len, c.job); if(len) d[at] = v; if(len > 2) d[len - 1 - at] = v;
            Node t = fixed(mkgroup(FORM, TA, {mkraw(id, d)})); both(c, t, {0}, (len + at) % 8 == 0); n++;
        }
        c.execs(n); c.note(fmt("byte %d", (int)c.job));
    });
    E.scene("byte_pairs", 256, [](Ctx &c)
    {
        u64 n = 0; for(int w = 0; w < 256; w++) { std::string d; d += (char)c.job; d += (char)w; Node t = fixed(mkgroup(FORM, TA, {mkraw(TEXT, d), mkraw(DA, d + "12345678" + d)})); both(c, t, {1}, false); n++; } c.execs(n);
    });
    // every character at every position of every kind of ID; only exactly TEXT is text
    E.scene("identifiers", 256, [](Ctx &c)
    {
        u64 n = 0;
        for(int p = 0; p < 4; p++) for(u32 b : {TEXT, DA, (u32)0})
        {
            u32 id = (b & ~(0xffu << (8 * p))) | (u32)c.job << (8 * p); if(id == FORM || id == CATT || id == LIST || id == PROP) continue;
            both(c, fixed(mkgroup(FORM, TA, {mkraw(id, "ab\n")})), {0}, true); n++;
            both(c, fixed(mkgroup(LIST, id, {mkgroup(FORM, id), mkgroup(CATT, id)}, {mkgroup(PROP, id)})), {0}, true); n++;
        }
        c.execs(n);
    });
    // sizes: all boundary values, in every kind of chunk
    E.scene("sizes", 33, [](Ctx &c)
    {
        u64 n = 0; int64_t v0 = c.job == 32 ? 0 : (int64_t)1 << c.job; std::vector<int32_t> v; for(int d = -2; d <= 2; d++) { v.push_back((int32_t)(u32)(v0 + d)); v.push_back((int32_t)(u32)(-(v0 + d))); } for(int64_t p = 1; p <= 1000000000; p *= 10) { v.push_back(p); v.push_back(p - 1); v.push_back(-p); }
        for(int32_t s : v) { for(u32 g : {FORM, CATT, LIST}) { Node t = mkgroup(g, TA, {mkgroup(FORM, TA)}); t.size = s; t.kids[0].size = -s / 3; if(g == LIST) { t.props = {mkgroup(PROP, TB)}; t.props[0].size = s; } both(c, t, {0}, false); n++; }
            if(s < 0) { Node r = mkraw(c.job & 1 ? DA : TEXT, ""); r.size = s; both(c, r, {0, 2}, false); n++; } }
        c.execs(n);
    });
    // indentation and nesting
    E.scene("indentation", T ? 400 : 130, [](Ctx &c)
    {
        u64 n = 0; unsigned i = c.job; Node t = fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DA, "0123456789ab"), mkraw(TEXT, "one\ntwo")}), mkgroup(CATT, TB, {mkgroup(FORM, TB)})}, {mkgroup(PROP, TA, {mkraw(DB, "p")})}));
        both(c, t, {i}, true); both(c, t.kids[0].kids[0], {i}, false); both(c, t.kids[0].kids[1], {i}, false); both(c, t.props[0], {i}, false); n += 4; c.execs(n);
        // the building blocks
        al_begin(0xA5); { Chunk r(to_lib(t.kids[0].kids[0])); std::string in(2 * i, ' '), w = pp(t.kids[0].kids[0], i), g; { Capture cap; IFF_printRaw((IFF_RawChunk*)r.c, i); g = cap.end(); } size_t a = w.find(in + "bytes"), b = w.rfind(in + "}"); if(g != w.substr(a, b - a)) c.fail("IFF_printRaw at level %u", i);
          { Capture cap; IFF_printIndent(stdout, i, "%s-%d-%c\n", "x", -5, 'y'); g = cap.end(); } if(g != in + "x--5-y\n") c.fail("IFF_printIndent at level %u gives %s", i, g.c_str());
          { Capture cap; IFF_printGroupType("someType", TA, i); g = cap.end(); } if(g != in + "someType = 'TSTA';\n") c.fail("IFF_printGroupType at level %u gives %s", i, g.c_str()); }
        { Chunk r(to_lib(t.kids[0].kids[1])); std::string in(2 * i, ' '), w = pp(t.kids[0].kids[1], i), g; Capture cap; IFF_printText((IFF_RawChunk*)r.c, i); g = cap.end(); size_t a = w.find(in + "text"), b = w.rfind(in + "}"); if(g != w.substr(a, b - a)) c.fail("IFF_printText at level %u", i); }
        al_end(); c.trans(4);
    });
    // very deep starting levels
    {
        static const std::vector<unsigned> lv = {200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131072, 1 << 20};
        E.scene("deep_indentation", lv.size(), [](Ctx &c)
        {
            unsigned i = lv[c.job]; Node t = fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DA, "0123456789ab"), mkraw(TEXT, "one\ntwo")})}, {mkgroup(PROP, TA, {mkraw(DB, "p")})}));
            both(c, t, {i}, true); both(c, t.kids[0].kids[1], {i}, false); c.execs(2); c.note(fmt("level %u", i));
        });
    }
    // the output goes to the standard output only as far as it is asked for: buffered, unbuffered and line-buffered streams give the same bytes
    E.scene("streams", 64, [](Ctx &c)
    {
        Node t = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, bigdata(c.job * 3)), mkraw(TEXT, bigdata(c.job))})}, {mkgroup(PROP, TA)})); Chunk l(to_lib(t)); std::string w = pp(t);
        for(int mode : {_IONBF, _IOLBF, _IOFBF}) { MemOut m; FILE *f = open_out(&m, false); setvbuf(f, m.ob, mode, mode == _IONBF ? 0 : 1 + c.job * 7 % 999); { SwapOut s(&stdout, f); IFF_print(l, 0, nullptr); } fclose(f); if(m.buf != w) c.fail("output depends on the buffering"); c.trans(); }
        c.state(c.job); c.execs(3);
    });
    {
        static std::vector<Big> big = big_trees(T, T ? 3000000 : 140000);
        E.scene("large", big.size(), [](Ctx &c) { c.note(big[c.job].name); both(c, big[c.job].n, {0}, true); });
    }
}
