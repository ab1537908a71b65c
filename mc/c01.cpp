// C01: reading plus checking accepts exactly the valid files, and delivers exactly their tree.
#include "api.hpp"
using namespace mc;

static std::atomic<u64> *n_valid, *n_refused;

// the oracle: the strict grammar of model.hpp, evaluated on the bytes alone
static void judge(Ctx &c, const std::string &b, bool buffered = true)
{
    Strict st(b); Node want; bool valid = st.file(want);
    diag_begin();
    MemIn m; FILE *f = open_in(&m, b, buffered);
    IFF_Chunk *raw = IFF_readFd(f, nullptr);
    fclose(f);
    bool read_ok = raw != nullptr, accepted = false;
    Chunk lib(raw);
    if(read_ok) accepted = IFF_check(lib, nullptr) != FALSE;
    c.trans(2); c.validated();
    c.state(comb(hash_str(b), accepted));
    if(c.noting()) c.note(fmt("%s -> %s%s%s", hex(b, 96).c_str(), accepted ? "accepted" : read_ok ? "refused by check" : "refused by read", valid ? "" : ": ", st.why.c_str()));
    (*(valid ? n_valid : n_refused))++;
    if(accepted && !valid) c.fail("accepted although invalid (%s): %s", st.why.c_str(), hex(b).c_str());
    if(!accepted && valid) c.fail("refused although valid: %s\n%s tree: %s\ndiagnostics: %s", hex(b).c_str(), read_ok ? "IFF_check refused" : "reading failed", desc(want).c_str(), g_diag.c_str());
    if(accepted)
    {
        std::string bad; Node got = from_lib(lib, nullptr, &bad);
        if(!bad.empty()) c.fail("%s in the tree read from %s", bad.c_str(), hex(b).c_str());
        if(!(got == want)) c.fail("tree differs: read %s, file contains %s: %s", desc(got).c_str(), desc(want).c_str(), hex(b).c_str());
        // the verdict does not change when it is repeated
        if(!IFF_check(lib, nullptr)) c.fail("second check of the same tree refuses: %s", hex(b).c_str());
        if(!buffered) return;
    }
    else if(read_ok)
    {
        // what reading delivers is not a valid tree either
        if(IFF_check(lib, nullptr)) c.fail("second check of the same tree accepts: %s", hex(b).c_str());
    }
}

// a file of up to 2 GB: its head, zeroes, and its tail
struct GiantIn { std::string head, tail; u64 zeroes, pos = 0; };
static ssize_t giant_read(void *k, char *b, size_t n)
{
    GiantIn *g = (GiantIn*)k; size_t r = 0; u64 h = g->head.size(), z = h + g->zeroes, e = z + g->tail.size();
    while(r < n && g->pos < e)
    {
        if(g->pos < h || g->pos >= z) { b[r++] = g->pos < h ? g->head[g->pos] : g->tail[g->pos - z]; g->pos++; }
        else { u64 m = std::min((u64)(n - r), z - g->pos); memset(b + r, 0, m); r += m; g->pos += m; }
    }
    return (ssize_t)r;
}
static void giant(Ctx &c, u64 data, int shape)
{
    // FORM{DATB#1 DATA#data DATB#3}, FORM{DATA#data} in a CAT, PROP{DATA#data} in a LIST
    GiantIn g; g.zeroes = data; auto w = [&](u32 v) { put32(g.head, v); }; u64 pd = data + (data & 1); const u32 type = TA;
    if(data & 1) g.tail = std::string(1, '\0');
    u64 total = shape == 0 ? 4 + 10 + 8 + pd + 12 : shape == 1 ? 4 + 12 + 8 + pd : 4 + 12 + 8 + pd + 12; bool fits = total <= 0x7fffffff;
    if(shape == 0) { w(FORM); w((u32)total); w(type); w(DB); w(1); g.head += std::string("x\0", 2); w(DA); w((u32)data); put32(g.tail, DB); put32(g.tail, 3); g.tail += std::string("abc\0", 4); }
    else if(shape == 1) { w(CATT); w((u32)total); w(type); w(FORM); w((u32)(total - 12)); w(type); w(DA); w((u32)data); }
    else { w(LIST); w((u32)total); w(type); w(PROP); w((u32)(4 + 8 + pd)); w(type); w(DA); w((u32)data); put32(g.tail, FORM); put32(g.tail, 4); put32(g.tail, type); }
    cookie_io_functions_t io = { giant_read, nullptr, nullptr, nullptr }; FILE *f = fopencookie(&g, "rb", io); static char buf[1 << 16]; setvbuf(f, buf, _IOFBF, sizeof buf);
    diag_begin(); Chunk l(IFF_readFd(f, nullptr)); fclose(f); bool ok = l.c && IFF_check(l, nullptr); c.trans(2); c.validated(); c.state(comb(data, comb(shape, ok)));
    c.note(fmt("shape %d with %lu bytes of data: %s", shape, data, ok ? "accepted" : "refused"));
    (*(fits ? n_valid : n_refused))++;
    if(ok != fits) c.fail("a file with a chunk of %lu bytes (shape %d, main chunk of %lu bytes) is %s: %s", data, shape, total, ok ? "accepted" : "refused", g_diag.c_str());
    if(!ok) return;
    const IFF_Group *m = (const IFF_Group*)l.c, *in = shape == 0 ? m : shape == 1 ? (const IFF_Group*)m->chunk[0] : (const IFF_Group*)((const IFF_List*)m)->prop[0];
    const IFF_RawChunk *r = (const IFF_RawChunk*)in->chunk[shape == 0 ? 1 : 0]; bool zero = true;
    if(m->chunkSize != (IFF_Long)total || r->chunkId != DA || (u64)r->chunkSize != data) c.fail("a chunk of %lu bytes is delivered with another size or ID", data);
    for(u64 i = 0; i < data && zero; i += i + 4099 < data ? 4099 : 1) zero = r->chunkData[i] == 0;
    if(!zero) c.fail("a chunk of %lu bytes is delivered with other data", data);
    if(shape == 0 && (m->chunkLength != 3 || memcmp(((IFF_RawChunk*)m->chunk[2])->chunkData, "abc", 3))) c.fail("the chunk behind one of %lu bytes is wrong", data);
}

static Alphabet small()
{
    Alphabet a; a.raws = {mkraw(DA, ""), mkraw(DB, "x"), mkraw(TEXT, "ab")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; return a;
}

void mc_main(Engine &E)
{
    n_valid = E.counter("valid_streams"); n_refused = E.counter("invalid_streams");
    bool T = E.thorough;
    E.assume("streams deliver the bytes unchanged (stream faults: C04); default registry (extension registries: C11, C12)");

    // 1. every byte string over a vocabulary of 4-byte words (chunk IDs, sizes, types), every length up to the bound
    {
        static std::vector<u32> W = {FORM, CATT, LIST, PROP, TA, JJJJ, DA, 0, 4, 12, 1, 16};
        static const int L = T ? 7 : 6;
        // one job per prefix of 2 words; inside, a flat depth-first enumeration of all continuations
        u64 w = W.size();
        E.scene("words", w * w * w, [w](Ctx &c)
        {
            u64 n = 0;
            std::string pre; u64 j = c.job; for(int i = 0; i < 3; i++) { put32(pre, W[j % w]); j /= w; }
            // shorter strings belong to the job with zero tails
            if(c.job < w) for(int len = 0; len <= 1; len++) { judge(c, pre.substr(0, 4 * len)); n++; }
            if(c.job < w * w) { judge(c, pre.substr(0, 8)); n++; }
            std::function<void(std::string&, int)> rec = [&](std::string &s, int left)
            {
                judge(c, s); n++;
                if(left == 0) return;
                for(u32 x : W) { put32(s, x); rec(s, left - 1); s.resize(s.size() - 4); }
            };
            rec(pre, L - 3);
            c.execs(n);
        });
    }
    // 2. every legal and every illegal nesting up to a node bound, with correct sizes
    {
        Alphabet a = small(); a.legal_only = false; a.conttypes = {TA, JJJJ};
        static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
        E.fact("trees_any_nesting", trees.size());
        u64 B = 256;
        E.scene("nestings", (trees.size() + B - 1) / B, [B](Ctx &c)
        {
            u64 n = 0;
            for(u64 i = c.job * B; i < trees.size() && i < (c.job + 1) * B; i++) { std::string b = ser(trees[i]); judge(c, b); n++; if(i % 16 == 0) { judge(c, b, false); judge(c, b + "zz"); n += 2; } }
            c.execs(n);
        });
    }
    // 3. every legal tree within a bound, with every single deviation at every node (thorough: every pair)
    {
        Alphabet a = small(); a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab")};
        static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
        E.fact("legal_trees", trees.size());
        E.scene("deviations", trees.size(), [](Ctx &c)
        {
            const Node &t = trees[c.job]; u64 n = 0, cnt = t.count();
            std::string b0 = ser(t);
            judge(c, b0); n++;
            // undisturbed: also with trailing bytes and with every padding byte non-zero
            for(const char *tr : {"\0", "x", "FORM", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"}) { judge(c, b0 + std::string(tr, *tr ? strlen(tr) : 1)); n++; }
            for(size_t i = 0; i < cnt; i++)
                for(int k = 0; k < Dev::N; k++)
                {
                    Node m = t; if(!Dev::apply(m, i, k)) continue;
                    std::string b = ser(m);
                    
                    judge(c, b); n++;
                }
            // every single size word altered in the undisturbed byte string
            for(size_t p = 0; p + 4 <= b0.size(); p += 2)
                for(int d : {-8, -4, -2, -1, 1, 2, 4, 8}) { std::string b = b0; u32 v = get32(b, p) + d; b.replace(p, 4, std::string{(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}); judge(c, b); n++; }
            // every byte altered by one bit or set to a telling value, every byte removed, every byte doubled, every prefix
            for(size_t p = 0; p < b0.size(); p++)
            {
                for(unsigned char v : {0x00, 0x01, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x41}) { std::string b = b0; b[p] = (char)v; judge(c, b); n++; }
                { std::string b = b0; b.erase(p, 1); judge(c, b); }
                { std::string b = b0; b.insert(p, 1, b0[p]); judge(c, b); }
                judge(c, b0.substr(0, p)); n += 3;
            }
            c.execs(n);
        });
        if(T)
        {
            static std::vector<Node> t3 = Trees(a).upto(4);
            E.scene("deviation_pairs", t3.size(), [](Ctx &c)
            {
                const Node &t = t3[c.job]; u64 n = 0, cnt = t.count();
                for(size_t i = 0; i < cnt; i++) for(int k = 0; k < Dev::N; k++)
                {
                    Node m = t; if(!Dev::apply(m, i, k)) continue;
                    u64 cnt2 = m.count();
                    for(size_t i2 = 0; i2 < cnt2; i2++) for(int k2 = 0; k2 < Dev::N; k2++)
                    {
                        Node q = m; if(!Dev::apply(q, i2, k2)) continue;
                        std::string b = ser(q);
                        judge(c, b); n++;
                    }
                }
                c.execs(n ? n : 1);
            });
        }
    }
    // 4. every ID and every type position with every character at each of its four places, and every reserved name
    {
        static std::vector<Node> host = {
            fixed(mkgroup(FORM, TA, {mkraw(DA, "x"), mkgroup(FORM, TB, {mkraw(DB, "yy")})})),
            fixed(mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DA, "x")}), mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DA, "q")})})})),
            fixed(mkgroup(LIST, JJJJ, {mkgroup(CATT, TB, {mkgroup(FORM, TB)}), mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DB, "")}), mkgroup(PROP, TB)})),
            // nothing in them contradicts their types
            fixed(mkgroup(FORM, TA)), fixed(mkgroup(CATT, TA)), fixed(mkgroup(LIST, TA)), fixed(mkgroup(LIST, TA, {}, {mkgroup(PROP, TB)})), fixed(mkgroup(CATT, JJJJ, {mkgroup(CATT, TA), mkgroup(LIST, TB, {}, {mkgroup(PROP, TA)}), mkgroup(FORM, TA)})), fixed(mkgroup(FORM, TA, {mkgroup(CATT, TB), mkgroup(LIST, TB)})) };
        static std::vector<u32> special;
        for(const char *s : {"LIST", "FORM", "PROP", "CAT ", "JJJJ", "    ", "TEXT", "LIS0", "FOR0", "CAT0", "LISA", "FORA", "CATA", "LISS", "PROQ", "PRO1", "JJJ1", "JJJK", "    ", "   A", "A   ", "A B ", "A  B", "AAAA", "ZZZZ", "0000", "9999", "aaaa", "zzzz", "TSTA", "TSTB"}) special.push_back(mkid(s));
        for(char d = '0'; d <= '9' + 1; d++) for(const char *s : {"LIS", "FOR", "CAT", "PRO", "JJJ"}) special.push_back(mkid((std::string(s) + d).c_str()));
        static std::vector<std::pair<int, size_t>> places; // host, node
        for(size_t h = 0; h < host.size(); h++) for(size_t i = 0; i < host[h].count(); i++) places.push_back({(int)h, i});
        E.scene("identifiers", places.size() * 2, [](Ctx &c)
        {
            auto [h, i] = places[c.job / 2]; bool type = c.job & 1; u64 n = 0;
            Node t = host[h]; std::vector<Node*> v; flatten(t, v); Node *x = v[i];
            if(type && !x->is_group()) { c.execs(1); return; }
            u32 &w = type ? x->type : x->id, orig = w;
            auto go = [&](u32 val) {
                w = val; judge(c, ser(t)); n++; // shape of the original chunk kept: ser() follows the new kind
                fixsizes(t); judge(c, ser(t)); n++;
                // all types of the hierarchy changed alike, so that contents types still match
                if(type) { Node u = t; std::vector<Node*> z; flatten(u, z); for(Node *q : z) if(q->is_group() && q->type == orig) q->type = val; judge(c, ser(u)); n++; }
                w = orig; fixsizes(t);
            };
            for(int p = 0; p < 4; p++) for(u32 ch = 0; ch < 256; ch++) go((orig & ~(0xffu << (24 - 8 * p))) | ch << (24 - 8 * p));
            for(u32 s : special) go(s);
            static const u32 bc[6] = {' ', 0x1f, '~', 0x7f, 'A', 0x80}; for(int w4 = 0; w4 < 1296; w4++) go(bc[w4 / 216] << 24 | bc[w4 / 36 % 6] << 16 | bc[w4 / 6 % 6] << 8 | bc[w4 % 6]);
            c.execs(n);
        });
    }
    // 4b. one stated size that is wrong by a power of two, up to the whole width of the size field
    {
        struct W { size_t data; int shape; }; static std::vector<W> w;
        for(size_t d : {(size_t)3, (size_t)127, (size_t)255, (size_t)256, (size_t)300, (size_t)513, (size_t)32760, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)65552, (size_t)131079}) for(int sh = 0; sh < 8; sh++) w.push_back({d, sh});
        for(int sh : T ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 5}) w.push_back({(size_t)16777240, sh});
        E.scene("size_wrap", w.size(), [](Ctx &c)
        {
            auto [d, sh] = w[c.job]; Node r = mkraw(DA, bigdata(d)), t; u64 n = 0;
            switch(sh)
            {
                case 0: t = mkgroup(FORM, TA, {r, mkraw(DB, "yz")}); break;
                case 1: t = mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DB, "q"), r}), mkgroup(FORM, TA)}); break;
                case 2: t = mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {r}), mkgroup(PROP, TB, {mkraw(DB, "")})}); break;
                case 3: t = mkgroup(FORM, TA, {mkgroup(LIST, JJJJ, {mkgroup(CATT, TB, {mkgroup(FORM, TB, {r})})}), mkraw(DA, "1")}); break;
                case 5: t = mkgroup(FORM, TA, {mkraw(DB, "yz"), r}); break; // the large chunk is the last thing of the file
                case 6: t = mkgroup(CATT, TA, {mkgroup(FORM, TA), mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DB, "1"), r})})}); break;
                case 7: t = mkgroup(FORM, TA, {mkraw(DB, "1"), mkgroup(LIST, TB, {}, {mkgroup(PROP, TB, {r})})}); break;
                default: t = mkgroup(FORM, TA); for(int i = 0; i < 8; i++) t.kids.push_back(mkraw(DA, bigdata(d / 8, i))); break;
            }
            fixsizes(t); std::string b = ser(t); judge(c, b); n++;
            // the offsets of all size fields
            std::vector<size_t> at; std::function<void(const Node&, size_t&)> walk = [&](const Node &x, size_t &p) { at.push_back(p + 4); p += 8; if(x.is_group()) { p += 4; for(auto &k : x.props) walk(k, p); for(auto &k : x.kids) walk(k, p); } else p += x.data.size(); p += x.size & 1; };
            size_t p0 = 0; walk(t, p0);
            for(size_t p : at) for(int k = 2; k < 32; k++) for(int sg = -1; sg <= 1; sg += 2)
            {
                if(d > 1000000 && k < 23 && k % 8) continue;
                u32 v = get32(b, p) + (u32)sg * (1u << k); std::string e = b; e[p] = (char)(v >> 24); e[p + 1] = (char)(v >> 16); e[p + 2] = (char)(v >> 8); e[p + 3] = (char)v;
                judge(c, e); n++;
            }
            // the sizes of all groups that end with the file, from one level to another, are wrong alike
            std::vector<size_t> spine; { size_t p = 0; const Node *x = &t; for(;;) { spine.push_back(p + 4); if(!x->is_group()) break; p += 12; const Node *last = x->kids.empty() ? (x->props.empty() ? nullptr : &x->props.back()) : &x->kids.back(); if(!last) break; for(auto &k : x->props) if(&k != last) p += 8 + padded(k.size); for(auto &k : x->kids) if(&k != last) p += 8 + padded(k.size); x = last; } }
            for(size_t i = 0; i < spine.size(); i++) for(size_t j = i + 1; j < spine.size(); j++) for(int k = 2; k < 32; k++) for(int sg = -1; sg <= 1; sg += 2)
            {
                if(d > 1000000 && k < 23 && k % 8) continue;
                std::string e = b; for(size_t q = i; q <= j; q++) { u32 v = get32(b, spine[q]) + (u32)sg * (1u << k); e.replace(spine[q], 4, 4, 0); e[spine[q]] = (char)(v >> 24); e[spine[q] + 1] = (char)(v >> 16); e[spine[q] + 2] = (char)(v >> 8); e[spine[q] + 3] = (char)v; }
                judge(c, e); n++;
            }
            c.note(fmt("shape %d, %zu bytes of data", sh, d)); c.execs(n);
        });
    }
    // 5. sizes, fan-out and depth far beyond the exhaustive bound, one dimension at a time; undisturbed and with single deviations
    {
        static std::vector<Big> big = big_trees(T);
        E.fact("one_axis_large_trees", big.size());
        E.scene("large", big.size(), [T](Ctx &c)
        {
            const Node &t = big[c.job].n; u64 n = 0; c.note(big[c.job].name);
            std::string b = ser(t);
            judge(c, b); n++;
            if(b.size() <= (T ? 1 << 20 : 70000))
            {
                judge(c, b + '\1'); judge(c, b.substr(0, b.size() - 1)); n += 2;
                size_t cnt = t.count();
                for(size_t i : {(size_t)0, (size_t)1, cnt / 2, cnt - 1}) for(int k : {0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 17, 19, 20, 28, 33, 35, 36, 39, 40})
                {
                    if(cnt > 3000 && !T && k > 3) continue;
                    if(cnt > 300 && !T && i > 1 && (k == 35 || k == 36)) continue;
                    Node m = t; if(!Dev::apply(m, i, k)) continue;
                    std::string d; if(k == 10 || k == 11 || k == 12) { d = b; } else d = ser(m);
                    judge(c, d); n++;
                }
            }
            c.execs(n);
        });
    }
    // 5b. two of up to many PROPs have the same type, wherever they are; and all different ones are accepted
    {
        static std::vector<size_t> np; for(size_t k = 2; k <= (T ? 70 : 40); k++) np.push_back(k); for(size_t k : {64, 65, 127, 128, 129, 256, 257, 300}) np.push_back(k);
        E.scene("equal_props", np.size() * 2, [](Ctx &c)
        {
            size_t k = np[c.job / 2]; bool nested = c.job & 1; u64 n = 0;
            auto type = [](size_t i) { return (u32)('A' + i / 26 % 26) << 24 | (u32)('A' + i % 26) << 16 | (u32)('0' + i / 676) << 8 | 'X'; };
            auto doc = [&](size_t i, size_t j) { Node l = mkgroup(LIST, TA, {mkgroup(FORM, TA)}); for(size_t p = 0; p < k; p++) l.props.push_back(mkgroup(PROP, p == j ? type(i) : type(p), {mkraw(DA, std::string(p % 3, 'p'))})); return fixed(nested ? mkgroup(FORM, TA, {l}) : l); };
            judge(c, ser(doc(0, 0))); n++;
            for(size_t j = 1; j < k; j++) for(size_t i = 0; i < j; i++) { if(k > 40 && i > 2 && i + 3 < j && i % 32 > 1) continue; judge(c, ser(doc(i, j))); n++; }
            c.note(fmt("%zu PROPs", k)); c.execs(n);
        });
        static const std::vector<size_t> far = {1024, 1025, 1026, 2048, 2050, 4096, 4097, 4100};
        E.scene("equal_props_far", far.size(), [](Ctx &c)
        {
            size_t k = far[c.job]; u64 n = 0;
            auto type = [](size_t i) { return (u32)('A' + i / 26 % 26) << 24 | (u32)('A' + i % 26) << 16 | (u32)('0' + i / 676) << 8 | 'X'; };
            Node l = mkgroup(LIST, TA, {mkgroup(FORM, TA)}); for(size_t p = 0; p < k; p++) l.props.push_back(mkgroup(PROP, type(p), {mkraw(DA, std::string(p % 3, 'p'))})); l = fixed(l);
            judge(c, ser(l)); n++;
            for(size_t j : {k - 1, k / 2 + 1, (size_t)1}) for(size_t i : {(size_t)0, j / 2, j - 1}) { u32 was = l.props[j].type; l.props[j].type = type(i); judge(c, ser(l)); n++; l.props[j].type = was; }
            c.note(fmt("%zu PROPs", k)); c.execs(n);
        });
    }
    // 6. the largest sizes that a chunk can have
    {
        struct G { u64 n; int sh; }; static std::vector<G> v;
        if(T) { for(u64 n : {(u64)0x10000001, (u64)0x20000000, (u64)0x3fffffff, (u64)0x40000000, (u64)0x7fffff00, (u64)0x7fffffdc, (u64)0x7fffffe0, (u64)0x7fffffe4, (u64)0x7fffffe7, (u64)0x7fffffe8}) for(int sh = 0; sh < 3; sh++) v.push_back({n, sh}); }
        else v = {{0x40000001, 0}, {0x7fffffe6, 1}};
        E.scene("giant", v.size(), [](Ctx &c) { giant(c, v[c.job].n, v[c.job].sh); });
    }
}
