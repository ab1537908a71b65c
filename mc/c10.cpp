// C10: comparison is true exactly for structurally equal hierarchies.
#include "api.hpp"
#include <set>
using namespace mc;

struct T { Node n; IFF_Chunk *built = nullptr, *other = nullptr; std::string bytes; bool legal = false; u64 h = 0; };
// raw data as long as stated, so that the trees can exist in memory
static bool sane(Node &n) { if(n.is_group()) n.data.clear(); else { n.type = 0; n.kids.clear(); } if(n.id != LIST) n.props.clear(); if(!n.is_group()) { if(n.size < 0 || n.size > 70000000) return false; n.data.resize(n.size, '\1'); return true; } for(auto &p : n.props) if(p.id != PROP || !sane(p)) return false; for(auto &k : n.kids) if(!sane(k)) return false; return true; }
static std::string key(const Node &n) { std::string o; put32(o, n.id); put32(o, n.size); if(!n.is_group()) return o + n.data; put32(o, n.type); put32(o, n.props.size()); put32(o, n.kids.size()); for(auto &p : n.props) o += key(p); for(auto &k : n.kids) o += key(k); return o; }

static void cmp(Ctx &c, const Node &a, IFF_Chunk *x, const char *how1, const Node &b, IFF_Chunk *y, const char *how2, const IFF_ChunkRegistry *reg = nullptr)
{
    bool want = a == b; c.trans(2);
    int r = IFF_compare(x, y, reg), s = IFF_compare(y, x, reg);
    if((r != 0) != want) c.fail("%s (%s) and %s (%s) compare as %s", desc(a).c_str(), how1, desc(b).c_str(), how2, r ? "equal" : "different");
    if((s != 0) != want) c.fail("%s (%s) and %s (%s) compare as %s the other way around", desc(b).c_str(), how2, desc(a).c_str(), how1, s ? "equal" : "different");
}
static void prepare(T &t)
{
    t.built = to_lib(t.n); t.legal = conform(t.n); diag_begin();
    if(t.legal) { write_bytes(t.built, t.bytes); t.other = read_bytes(t.bytes); } else t.other = to_lib(t.n);
}
static void unchanged(Ctx &c, const T &t) { std::string bad; for(IFF_Chunk *x : {t.built, t.other}) if(!(from_lib(x, nullptr, &bad) == t.n) || !bad.empty()) c.fail("comparing changed %s", desc(t.n).c_str()); }

// one tree against all its deviations, and all deviations against each other
static u64 against(Ctx &c, const Node &base, bool pairs, size_t limit = 1000000)
{
    std::vector<Node> v; std::vector<std::string> what; Node b = base; if(!sane(b)) return 0;
    v.push_back(b); what.push_back("original");
    size_t cnt = b.count();
    for(size_t i = 0; i < cnt; i++)
    {
        if(i > limit && i + limit < cnt) continue;
        for(int k = 0; k < Dev::N; k++) { Node d = b; std::string w; if(Dev::apply(d, i, k, &w) && sane(d)) { v.push_back(d); what.push_back(w); } }
    }
    for(size_t i = 0; i < cnt; i++) // single bytes
    {
        if(i > limit && i + limit < cnt) continue;
        std::vector<Node*> f; Node d = b; flatten(d, f); size_t n = f[i]->data.size();
        for(size_t p = 0; p < n && !f[i]->is_group(); p++)
        {
            if(n > 70 && p > 33 && p + 33 < n && !((p + 2) % 4096 < 4)) continue;
            for(int bit : {0, 7}) { f[i]->data[p] ^= 1 << bit; v.push_back(d); what.push_back(fmt("byte %zu of node %zu", p, i)); f[i]->data[p] ^= 1 << bit; if(v.size() > 400 && !pairs) { // keep the memory small
                diag_begin(); Chunk x(to_lib(b)), y(to_lib(v.back())); cmp(c, b, x, "built", v.back(), y, "built"); v.pop_back(); what.pop_back(); } }
        }
    }
    diag_begin(); al_begin(0x5A); al_cap((size_t)1 << 28); u64 n = 0;
    {
        std::vector<Chunk> l; for(auto &x : v) { l.emplace_back(to_lib(x)); }
        al_end(); al_begin(0xC3); // the second set comes from memory with other contents
        Chunk twin(to_lib(b)); diag_begin(); cmp(c, b, l[0], "built", b, twin, "built again"); cmp(c, b, l[0], "built", b, l[0], "itself");
        for(size_t i = 1; i < v.size(); i++) { cmp(c, b, l[0], "built", v[i], l[i], what[i].c_str()); cmp(c, v[i], l[i], what[i].c_str(), v[i], l[i], "itself"); n += 2; }
        if(pairs) for(size_t i = 1; i < v.size(); i++) for(size_t j = 1; j < i; j++) { cmp(c, v[i], l[i], what[i].c_str(), v[j], l[j], what[j].c_str()); n++; }
        for(size_t i = 0; i < v.size(); i++) { std::string bad; if(!(from_lib(l[i], nullptr, &bad) == v[i]) || !bad.empty()) c.fail("comparing changed %s", desc(v[i]).c_str()); c.state(hash_str(key(v[i]))); }
    }
    if(al_live()) c.fail("comparing leaves memory allocated for %s", desc(b).c_str());
    al_end();
    if(g_diag_calls) c.fail("comparing emits diagnostics for %s: %s", desc(b).c_str(), g_diag.c_str());
    return n + 2;
}

void mc_main(Engine &E)
{
    bool Th = E.thorough;
    E.assume("raw data is as long as stated");
    // 1. all pairs of trees
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(DA, "y"), mkraw(TEXT, "xy"), mkraw(DB, "")}; a.formtypes = {TA, TB}; a.conttypes = {JJJJ, TA};
        static std::vector<T> v; std::vector<Node> ns = Trees(a).upto(Th ? 4 : 3);
        a.legal_only = false; a.raws = {mkraw(DA, "x"), mkraw(DA, "")}; for(auto &n : Trees(a).upto(3)) ns.push_back(n);
        // the same trees with outdated sizes
        size_t k = ns.size(); for(size_t i = 0; i < k; i += Th ? 3 : 5) { Node n = ns[i]; n.size = i % 2 ? n.size + 2 : -n.size; ns.push_back(n); }
        for(auto &n : ns) { T t; t.n = n; v.push_back(t); }
        al_begin(0x77); for(auto &t : v) prepare(t); al_end();
        E.fact("trees", v.size()); E.fact("pairs_of_trees", v.size() * v.size());
        E.scene("pairs", v.size(), [](Ctx &c)
        {
            const T &x = v[c.job]; diag_begin(); u64 n = 0;
            for(auto &y : v)
            {
                int r = IFF_compare(x.built, y.other, nullptr), s = IFF_compare(y.other, x.built, &IFF_defaultChunkRegistry); bool want = x.n == y.n;
                if((r != 0) != want || (s != 0) != want) c.fail("%s and %s compare as %s, the other way around as %s", desc(x.n).c_str(), desc(y.n).c_str(), r ? "equal" : "different", s ? "equal" : "different");
                if(x.legal && y.legal && (x.bytes == y.bytes) != (r != 0)) c.fail("%s and %s compare as %s but are written %s", desc(x.n).c_str(), desc(y.n).c_str(), r ? "equal" : "different", x.bytes == y.bytes ? "alike" : "differently");
                n++;
            }
            if(g_diag_calls) c.fail("comparing emits diagnostics: %s", g_diag.c_str());
            unchanged(c, x); c.trans(2 * n); c.validated(n); c.execs(n); c.state(hash_str(key(x.n))); if(c.noting()) c.note(desc(x.n));
        });
    }
    // 2. trees against their deviations
    {
        Alphabet a; a.raws = {mkraw(DA, "xyz"), mkraw(TEXT, "")}; a.formtypes = {TA}; a.conttypes = {JJJJ};
        static std::vector<Node> small = Trees(a).upto(Th ? 4 : 3), larger = Trees(a).upto(Th ? 5 : 4);
        E.fact("trees_with_pairs_of_deviations", small.size()); E.fact("trees_with_deviations", larger.size());
        // relatives: all members of one group against each other, against copies in the same group, in a group within it, in another one, and against free ones
        {
            static std::vector<Node> all; static std::vector<IFF_Chunk*> in[4], out; std::vector<Node> first = Trees(a).upto(3); std::set<std::string> seen; for(auto &r : a.raws) first.push_back(fixed(r));
            for(auto &b : first) { if(seen.insert(key(b)).second) all.push_back(b); if(b.count() > (Th ? 3 : 2)) continue; for(size_t i = 0; i < b.count(); i++) for(int k = 0; k < Dev::N; k++) { Node d = b; std::string w; if(Dev::apply(d, i, k, &w) && sane(d) && seen.insert(key(d)).second) all.push_back(d); } }
            E.fact("relatives", all.size()); al_begin(0x3C); al_cap((size_t)1 << 28); diag_begin();
            IFF_List *top = IFF_createEmptyList(); IFF_Form *form = IFF_createEmptyForm(TA), *other = IFF_createEmptyForm(TA); IFF_addToList(top, (IFF_Chunk*)form);
            for(auto &n : all) { for(int g = 0; g < 4; g++) { IFF_Chunk *x = to_lib(n); in[g].push_back(x); IFF_attachToGroup(g < 2 ? (IFF_Group*)form : g == 2 ? (IFF_Group*)top : (IFF_Group*)other, x); } out.push_back(to_lib(n)); }
            al_end();
            E.scene("relatives", all.size(), [](Ctx &c)
            {
                size_t i = c.job; u64 n = 0; diag_begin();
                for(size_t j = 0; j < all.size(); j++)
                {
                    cmp(c, all[i], in[0][i], "member", all[j], in[0][j], "member of the same group"); cmp(c, all[i], in[0][i], "member", all[j], in[1][j], "other member of the same group"); cmp(c, all[i], in[0][i], "member", all[j], in[2][j], "member of a group around it");
                    cmp(c, all[i], in[0][i], "member", all[j], in[3][j], "member of another group"); cmp(c, all[i], in[0][i], "member", all[j], out[j], "free"); n += 5;
                }
                if(g_diag_calls) c.fail("comparing emits diagnostics: %s", g_diag.c_str()); std::string bad; for(int g = 0; g < 3; g++) if(!(from_lib(in[g][i], g < 2 ? in[0][i]->parent : in[2][i]->parent, &bad) == all[i]) || !bad.empty()) c.fail("comparing changed %s: %s", desc(all[i]).c_str(), bad.c_str());
                c.execs(n); c.validated(n); c.state(hash_str(key(all[i]))); if(c.noting()) c.note(desc(all[i]));
            });
        }
        E.scene("deviation_pairs", small.size(), [](Ctx &c) { u64 n = against(c, small[c.job], true); c.execs(n); c.validated(n); if(c.noting()) c.note(desc(small[c.job])); });
        E.scene("deviations", (larger.size() + 15) / 16, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 16; i < larger.size() && i < c.job * 16 + 16; i++) n += against(c, larger[i], false); c.execs(n); c.validated(n); });
    }
    // 3. every bit of every stored number and every data byte value decides
    E.scene("bits", 32, [](Ctx &c)
    {
        u32 bit = 1u << c.job; u64 n = 0;
        Node t = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "1234567"), mkraw(DB, "")}), mkgroup(CATT, TA, {mkgroup(FORM, TA)}), mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DA, "q")})})}, {mkgroup(PROP, TA, {mkraw(DA, "p"), mkraw(TEXT, "t")}), mkgroup(PROP, TB)}));
        std::vector<Node*> f0; flatten(t, f0);
        for(size_t i = 0; i < f0.size(); i++) for(int what = 0; what < 3; what++)
        {
            Node d = t; std::vector<Node*> f; flatten(d, f); Node &x = *f[i];
            if(what == 0) { if(x.is_group()) { continue; } x.id ^= bit; if(x.is_group()) continue; } else if(what == 1) { if(!x.is_group()) continue; x.type ^= bit; } else { if(!x.is_group()) { if(bit > 65536) continue; x.size ^= bit; x.data.resize(x.size, 'z'); } else x.size ^= bit; }
            diag_begin(); al_begin(0xA5); { Chunk p(to_lib(t)), q(to_lib(d)); cmp(c, t, p, "built", d, q, "one bit changed"); cmp(c, d, q, "changed", d, q, "itself"); } if(al_live()) c.fail("memory stays allocated"); al_end(); n += 2; c.state(hash_str(key(d)));
        }
        for(int v = c.job * 8; v < c.job * 8 + 8; v++) for(int w = 0; w < 256; w++)
        {
            Node p = fixed(mkgroup(FORM, TA, {mkraw(w & 1 ? DA : TEXT, std::string("a") + (char)v + "b")})), q = p; q.kids[0].data[1] = w;
            diag_begin(); al_begin(0xA5); { Chunk x(to_lib(p)), y(to_lib(q)); cmp(c, p, x, "built", q, y, "built"); } al_end(); n++;
        }
        c.execs(n); c.validated(n); c.note(fmt("bit %lu", c.job));
    });
    // 4. reading tolerates padding and trailing bytes: they do not take part
    {
        static const char *dummy = ""; (void)dummy;
        E.scene("padding", 256, [](Ctx &c)
        {
            Node t = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "123"), mkraw(DB, "1")})}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}));
            std::string s = ser(t), u; u64 n = 0; std::vector<size_t> pads; // positions of the padding bytes
            std::function<size_t(const Node&, size_t)> walk = [&](const Node &x, size_t p) { size_t b = p + 8; if(x.is_group()) { b += 4; for(auto &k : x.props) b = walk(k, b); for(auto &k : x.kids) b = walk(k, b); } else b += x.data.size(); if(x.size & 1) pads.push_back(b++); return b; };
            walk(t, 0);
            diag_begin(); al_begin(0xA5);
            for(size_t i = 0; i < pads.size(); i++) { u = s; u[pads[i]] = (char)c.job; u += std::string(i, (char)c.job); Chunk x(read_bytes(s)), y(read_bytes(u)); if(!x.c || !y.c) c.fail("cannot read"); cmp(c, t, x, "read", t, y, "read with other padding"); n++; }
            if(al_live()) c.fail("memory stays allocated"); al_end(); c.execs(n); c.validated(n); c.state(c.job);
        });
    }
    // 5. contents that differ in few bytes in ways that sums, products and well-known digests do not notice
    {
        static const int L = 20;
        E.scene("two_bytes", L * (L - 1) / 2, [Th](Ctx &c)
        {
            int i = 0, j = 0; { u64 k = c.job; for(i = 0; i < L; i++) { if(k < (u64)(L - 1 - i)) { j = i + 1 + k; break; } k -= L - 1 - i; } }
            std::string base; for(int k = 0; k < L; k++) base += (char)(120 + k % 7); u64 n = 0; diag_begin(); al_begin(0xA5);
            {
                Node t = fixed(mkgroup(FORM, TA, {mkraw((i + j) & 1 ? TEXT : DA, base)})); Chunk x(to_lib(t)), y(to_lib(t)); unsigned char *d = ((IFF_RawChunk*)((IFF_Form*)y.c)->chunk[0])->chunkData; const unsigned char *e = (const unsigned char*)base.data();
                int R = 256;
                for(int a = 0; a < R; a++) for(int b = 0; b < R; b++)
                {
                    d[i] = R == 256 ? a : e[i] + a - 64; d[j] = R == 256 ? b : e[j] + b - 64; bool want = d[i] == e[i] && d[j] == e[j], got = IFF_compare(x, y, nullptr), back = IFF_compare(y, x, nullptr); n++;
                    if(back != want) c.fail("contents that differ in the bytes %d (%02x, %02x) and %d (%02x, %02x) compare as %s the other way around", i, e[i], d[i], j, e[j], d[j], back ? "equal" : "different");
                    if(got != want) c.fail("contents that differ in the bytes %d (%02x, %02x) and %d (%02x, %02x) compare as %s", i, e[i], d[i], j, e[j], d[j], got ? "equal" : "different");
                }
                for(int a = -8; a <= 8; a++) for(int b = -16; b <= 16; b++) for(int g = -8; g <= 8; g++) for(int k = j + 1; k < L; k++) if(a && b && g) // a third one
                {
                    if(!Th && k - j > 4 && k - j != j - i) continue;
                    d[i] = e[i] + a; d[j] = e[j] + b; d[k] = e[k] + g; n++; if(IFF_compare(x, y, nullptr)) c.fail("contents that differ in the bytes %d, %d and %d by %d, %d and %d compare as equal", i, j, k, a, b, g); d[k] = e[k];
                }
            }
            if(al_live()) c.fail("memory stays allocated"); al_end(); c.trans(n); c.execs(n); c.validated(n); c.state(comb(i, j)); c.note(fmt("bytes %d and %d", i, j));
        });
        // contents whose last bytes are anything, in chunks of several IDs: every pair of values of the last byte, with every one before it
        E.scene("last_bytes", 256, [](Ctx &c)
        {
            u64 n = 0; diag_begin(); al_begin(0xA5);
            for(u32 id : {DA, TEXT, FILL, mkid("NAME"), mkid("ANNO"), mkid("AUTH"), mkid("(c) "), (u32)0}) for(int len = 1; len <= 9; len++)
            {
                Node t = fixed(mkgroup(FORM, TA, {mkraw(id, bigdata(len, 3))})); Chunk x(to_lib(t)), y(to_lib(t)); unsigned char *d = ((IFF_RawChunk*)((IFF_Form*)x.c)->chunk[0])->chunkData, *e = ((IFF_RawChunk*)((IFF_Form*)y.c)->chunk[0])->chunkData;
                for(int before = 0; before < (len > 1 ? 3 : 1); before++)
                {
                    if(len > 1) d[len - 2] = e[len - 2] = before == 0 ? 0 : before == 1 ? '\n' : 'e';
                    d[len - 1] = (unsigned char)c.job; for(int v = 0; v < 256; v++) { e[len - 1] = v; bool r = IFF_compare(x, y, nullptr), s = IFF_compare(y, x, nullptr); n++; if(r != (v == (int)c.job) || s != r) c.fail("'%s' chunks of %d bytes that end in %02x and %02x compare as %s, the other way around as %s", idtext(id).c_str(), len, (unsigned)c.job, v, r ? "equal" : "different", s ? "equal" : "different"); }
                }
            }
            if(al_live()) c.fail("memory stays allocated"); al_end(); c.trans(2 * n); c.execs(n); c.validated(n); c.state(c.job);
        });
        // identifiers and sizes that differ in two bytes: every pair of bytes, all values
        E.scene("two_bytes_of_numbers", 6 * 9, [](Ctx &c)
        {
            static const int is[] = {0, 0, 0, 1, 1, 2}, js[] = {1, 2, 3, 2, 3, 3}; int i = is[c.job % 6] * 8, j = js[c.job % 6] * 8, where = c.job / 6; u64 n = 0;
            Node t = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TB, {mkraw(DA, "abc")}), mkgroup(CATT, TA), mkgroup(LIST, TB)}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}));
            diag_begin(); al_begin(0xA5);
            {
                Chunk x(to_lib(t)), y(to_lib(t)); IFF_List *l = (IFF_List*)y.c; u32 *f = nullptr, *at[] = {(u32*)&l->contentsType, (u32*)&((IFF_Form*)l->chunk[0])->formType, (u32*)&((IFF_Form*)l->chunk[0])->chunk[0]->chunkId, (u32*)&((IFF_CAT*)l->chunk[1])->contentsType, (u32*)&((IFF_List*)l->chunk[2])->contentsType, (u32*)&l->prop[0]->formType, (u32*)&l->prop[0]->chunk[0]->chunkId, (u32*)&l->chunkSize, (u32*)&l->chunk[1]->chunkSize};
                f = at[where]; u32 was = *f;
                for(u32 a = 0; a < 256; a++) for(u32 b = 0; b < 256; b++) { u32 v = (was & ~(0xffu << i) & ~(0xffu << j)) | a << i | b << j; if((where == 2 || where == 6) && (v == FORM || v == CATT || v == LIST || v == PROP)) continue; *f = v; bool r = IFF_compare(x, y, nullptr), s = IFF_compare(y, x, nullptr); n++; if(r != (v == was) || s != r) c.fail("hierarchies with %08x and %08x in field %d compare as %s", was, v, where, r ? "equal" : "different"); }
                *f = was;
            }
            if(al_live()) c.fail("memory stays allocated"); al_end(); c.trans(2 * n); c.execs(n); c.validated(n); c.state(c.job);
        });
        struct Digest { const char *name; u64 (*f)(const unsigned char*, size_t); };
        struct D { 
            static u64 crc(const unsigned char *p, size_t n, u32 poly, u32 h) { for(size_t i = 0; i < n; i++) { h ^= p[i]; for(int k = 0; k < 8; k++) h = h & 1 ? h >> 1 ^ poly : h >> 1; } return h; }
            static u64 crcn(const unsigned char *p, size_t n, u32 poly, int w, u32 h) { u32 top = 1u << (w - 1), mask = top | (top - 1); for(size_t i = 0; i < n; i++) { h ^= (u32)p[i] << (w - 8); for(int k = 0; k < 8; k++) h = (h & top ? h << 1 ^ poly : h << 1) & mask; } return h; }
            static u64 mul(const unsigned char *p, size_t n, u32 m, u32 h) { for(size_t i = 0; i < n; i++) h = h * m + p[i]; return h; }
            static u64 mulx(const unsigned char *p, size_t n, u32 m, u32 h) { for(size_t i = 0; i < n; i++) h = h * m ^ p[i]; return h; }
            static u64 words(const unsigned char *p, size_t n, int how) { u32 h = 0; for(size_t i = 0; i < n; i += 4) { u32 w = 0; for(int k = 0; k < 4; k++) w |= (i + k < n ? p[i + k] : 0) << 8 * k; h = how == 0 ? h + w : how == 1 ? h ^ w : how == 2 ? (h << 5 | h >> 27) ^ w : h * 0x9e3779b1u + w; } return h; }
            static u64 fletcher(const unsigned char *p, size_t n, u32 mod) { u32 a = 1, b = 0; for(size_t i = 0; i < n; i++) { a = (a + p[i]) % mod; b = (b + a) % mod; } return (u64)b << 32 | a; }
        };
        static const Digest digests[] = {
            {"CRC-32", [](const unsigned char *p, size_t n) { return D::crc(p, n, 0xEDB88320u, ~0u); }}, {"CRC-32C", [](const unsigned char *p, size_t n) { return D::crc(p, n, 0x82F63B78u, ~0u); }}, {"CRC-32 (MPEG)", [](const unsigned char *p, size_t n) { return D::crcn(p, n, 0x04C11DB7u, 32, ~0u); }},
            {"CRC-16", [](const unsigned char *p, size_t n) { return D::crc(p, n, 0xA001, 0); }}, {"CRC-CCITT", [](const unsigned char *p, size_t n) { return D::crcn(p, n, 0x1021, 16, 0xffff); }}, {"CRC-8", [](const unsigned char *p, size_t n) { return D::crcn(p, n, 7, 8, 0); }},
            {"FNV-1", [](const unsigned char *p, size_t n) { return D::mulx(p, n, 16777619u, 2166136261u); }}, {"FNV-1a", [](const unsigned char *p, size_t n) { u32 h = 2166136261u; for(size_t i = 0; i < n; i++) h = (h ^ p[i]) * 16777619u; return (u64)h; }},
            {"djb2", [](const unsigned char *p, size_t n) { return D::mul(p, n, 33, 5381); }}, {"djb2a", [](const unsigned char *p, size_t n) { return D::mulx(p, n, 33, 5381); }}, {"x31", [](const unsigned char *p, size_t n) { return D::mul(p, n, 31, 0); }}, {"x31 xor", [](const unsigned char *p, size_t n) { return D::mulx(p, n, 31, 7); }}, {"x131", [](const unsigned char *p, size_t n) { return D::mul(p, n, 131, 0); }}, {"x257", [](const unsigned char *p, size_t n) { return D::mul(p, n, 257, 0); }}, {"x37", [](const unsigned char *p, size_t n) { return D::mul(p, n, 37, 0); }}, {"x17", [](const unsigned char *p, size_t n) { return D::mul(p, n, 17, 0); }}, {"sdbm", [](const unsigned char *p, size_t n) { return D::mul(p, n, 65599u, 0); }}, {"x1000003", [](const unsigned char *p, size_t n) { return D::mulx(p, n, 1000003u, 0); }},
            {"Adler-32", [](const unsigned char *p, size_t n) { return D::fletcher(p, n, 65521); }}, {"Fletcher-16", [](const unsigned char *p, size_t n) { return D::fletcher(p, n, 255); }}, {"rolling sums", [](const unsigned char *p, size_t n) { return D::fletcher(p, n, 256); }},
            {"one at a time", [](const unsigned char *p, size_t n) { u32 h = 0; for(size_t i = 0; i < n; i++) { h += p[i]; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15; return (u64)h; }}, {"ELF", [](const unsigned char *p, size_t n) { u32 h = 0; for(size_t i = 0; i < n; i++) { h = (h << 4) + p[i]; u32 g = h & 0xf0000000u; h ^= g >> 24; h &= ~g; } return (u64)h; }},
            {"sum of words", [](const unsigned char *p, size_t n) { return D::words(p, n, 0); }}, {"xor of words", [](const unsigned char *p, size_t n) { return D::words(p, n, 1); }}, {"rotated xor of words", [](const unsigned char *p, size_t n) { return D::words(p, n, 2); }}, {"product of words", [](const unsigned char *p, size_t n) { return D::words(p, n, 3); }},
            {"rotated sum", [](const unsigned char *p, size_t n) { u32 h = 0; for(size_t i = 0; i < n; i++) h = (h >> 1 | h << 31) + p[i]; return (u64)h; }}, {"BSD sum", [](const unsigned char *p, size_t n) { u32 h = 0; for(size_t i = 0; i < n; i++) h = ((h >> 1 | h << 15) + p[i]) & 0xffff; return (u64)h; }}, {"rotated xor", [](const unsigned char *p, size_t n) { u32 h = 0; for(size_t i = 0; i < n; i++) h = (h << 5 | h >> 27) ^ p[i]; return (u64)h; }}, {"xxHash-like", [](const unsigned char *p, size_t n) { u32 h = 374761393u + n; for(size_t i = 0; i < n; i++) { h += p[i] * 374761393u; h = (h << 11 | h >> 21) * 2654435761u; } h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (u64)h; }},
        };
        static const size_t ND = sizeof digests / sizeof *digests; static auto *found = E.counter("digest_collisions");
        E.fact("digests", ND);
        // every pair with equal digests in a fixed family of contents of 8 and of 11 bytes
        E.scene("digests", ND * 2, [Th](Ctx &c)
        {
            const Digest &g = digests[c.job / 2]; size_t len = c.job & 1 ? 11 : 8, N = Th ? 2000000 : 400000; u64 n = 0;
            auto content = [&](u32 k, unsigned char *p) { u64 x = k * 0x9E3779B97F4A7C15ull; x ^= x >> 31; for(size_t i = 0; i < len; i++) p[i] = i < 8 ? x >> 8 * i : len + (k >> i & 7); };
            std::vector<std::pair<u64, u32>> v; v.reserve(N); unsigned char p[16], q[16]; for(u32 k = 0; k < N; k++) { content(k, p); v.push_back({g.f(p, len), k}); } std::sort(v.begin(), v.end());
            diag_begin(); al_begin(0x5A);
            {
                Node t = fixed(mkgroup(FORM, TA, {mkraw(DA, std::string(len, 'x'))})); Chunk x(to_lib(t)), y(to_lib(t)); unsigned char *d = ((IFF_RawChunk*)((IFF_Form*)x.c)->chunk[0])->chunkData, *e = ((IFF_RawChunk*)((IFF_Form*)y.c)->chunk[0])->chunkData;
                for(size_t i = 0; i + 1 < N && n < 100000; i++)
                {
                    if(v[i].first != v[i + 1].first) continue; content(v[i].second, p); content(v[i + 1].second, q); if(!memcmp(p, q, len)) continue;
                    memcpy(d, p, len); memcpy(e, q, len); n++; bool r = IFF_compare(x, y, nullptr), s = IFF_compare(y, x, nullptr); memcpy(e, p, len); bool w = IFF_compare(x, y, nullptr);
                    if(r || s) c.fail("two contents with the same %s compare as equal: %s and %s", g.name, hex(std::string((char*)p, len)).c_str(), hex(std::string((char*)q, len)).c_str()); if(!w) c.fail("equal contents compare as different");
                }
            }
            if(al_live()) c.fail("memory stays allocated"); al_end(); *found += n; c.trans(3 * n); c.execs(n); c.validated(n); c.state(comb(c.job, n)); c.note(fmt("%s: %lu pairs", g.name, n));
        });
    }
    {
        static std::vector<Big> big = big_trees(Th, Th ? 5000000 : 140000);
        E.scene("large", big.size(), [Th](Ctx &c)
        {
            const Node &t = big[c.job].n; c.note(big[c.job].name); u64 n = 0;
            if(t.size <= 70000 && t.count() < 3000 && t.depth() < 300) { n = against(c, t, false, 1); }
            else
            {   // a few: first, last and middle bytes of every large leaf, one member less, twins
                Node d = t; std::vector<Node*> f; flatten(d, f); diag_begin(); al_begin(0xA5); al_cap((size_t)1 << 29);
                { Chunk x(to_lib(t)), y(to_lib(t)); cmp(c, t, x, "built", t, y, "built"); n++;
                for(size_t i = 0; i < f.size(); i++) { if(i > 3 && i + 3 < f.size()) continue; size_t k = f[i]->data.size(); if(f[i]->is_group() || !k) continue;
                    for(size_t p : {(size_t)0, (size_t)1, k / 2, k - 2, k - 1, (size_t)255, (size_t)256, (size_t)4095, (size_t)4096, (size_t)65534, (size_t)65535, (size_t)65536, (size_t)131072}) if(p < k) { f[i]->data[p] ^= 0x40; Chunk z(to_lib(d)); cmp(c, t, x, "built", d, z, "one byte changed"); f[i]->data[p] ^= 0x40; n++; } }
                for(int k : {35, 36, 37}) { size_t cnt = f.size(); for(size_t i : {(size_t)1, cnt / 2, cnt - 1}) { Node e = t; if(Dev::apply(e, i, k) && sane(e)) { Chunk z(to_lib(e)); cmp(c, t, x, "built", e, z, "deviating"); n++; } } } }
                if(al_live()) c.fail("memory stays allocated"); al_end();
            }
            c.execs(n); c.validated(n); c.state(hash_str(key(t)));
        });
    }
}
