// C11: every operation handles a chunk with the same, most specific registered type.
#include "api.hpp"
#include <map>
#include <unordered_map>
#include <utility>
using namespace mc;

// ---- handlers that record their invocations ------------------------------------------------------------------------
enum { CREATE, READ, WRITE, CHECK, PRINT, COMPARE, FREE, OPS };
static const char *opname[] = {"create", "read", "write", "check", "print", "compare", "free"};
struct Ev { int op, tag; u32 id; bool operator<(const Ev &o) const { return op != o.op ? op < o.op : tag != o.tag ? tag < o.tag : id < o.id; } bool operator==(const Ev &o) const { return op == o.op && tag == o.tag && id == o.id; } };
static std::vector<Ev> ev;
static std::unordered_map<const void*, int> owner; // live chunk -> tag of the handler that created it
static std::string wrong;                           // a chunk was handled by another handler than the one that created it
static int fail_op = -1; static long fail_at = 0;   // let the n-th invocation of an operation fail
static bool trip(int op) { return op == fail_op && --fail_at == 0; }
static void touch(int op, int tag, const IFF_Chunk *c)
{
    ev.push_back({op, tag, c->chunkId});
    auto it = owner.find(c);
    if(it == owner.end()) wrong = fmt("%s handler %d gets a '%s' chunk that is not alive or was not created through a handler", opname[op], tag, idtext(c->chunkId).c_str());
    else if(it->second != tag) wrong = fmt("'%s' was created by handler %d, but %s goes to handler %d", idtext(c->chunkId).c_str(), it->second, opname[op], tag);
}
static const IFF_ChunkType *base(u32 id)
{
    static const IFF_ChunkType g[] = {
        {CATT, &IFF_createUnparsedCAT, &IFF_readCAT, &IFF_writeCAT, &IFF_checkCAT, &IFF_freeCAT, &IFF_printCAT, &IFF_compareCAT},
        {FORM, &IFF_createUnparsedForm, &IFF_readForm, &IFF_writeForm, &IFF_checkForm, &IFF_freeForm, &IFF_printForm, &IFF_compareForm},
        {LIST, &IFF_createUnparsedList, &IFF_readList, &IFF_writeList, &IFF_checkList, &IFF_freeList, &IFF_printList, &IFF_compareList},
        {PROP, &IFF_createUnparsedProp, &IFF_readProp, &IFF_writeProp, &IFF_checkProp, &IFF_freeProp, &IFF_printProp, &IFF_compareProp},
        {0, &IFF_createRawChunk, &IFF_readRawChunk, &IFF_writeRawChunk, &IFF_checkRawChunk, &IFF_freeRawChunk, &IFF_printRawChunk, &IFF_compareRawChunk}};
    for(auto &x : g) if(x.chunkId == id) return &x;
    return &g[4];
}
template<int N> struct H
{
    static IFF_Chunk *create(const IFF_ID id, const IFF_Long size) { ev.push_back({CREATE, N, id}); if(trip(CREATE)) return nullptr; IFF_Chunk *c = base(id)->createExtensionChunk(id, size); if(c) owner[c] = N; return c; }
    static IFF_Bool read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { touch(READ, N, c); if(trip(READ)) return FALSE; return base(c->chunkId)->readExtensionChunkFields(f, c, r, p); }
    static IFF_Bool write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { touch(WRITE, N, c); if(trip(WRITE)) return FALSE; return base(c->chunkId)->writeExtensionChunkFields(f, c, r, p); }
    static IFF_Bool check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { touch(CHECK, N, c); if(trip(CHECK)) return FALSE; return base(c->chunkId)->checkExtensionChunk(c, r); }
    static void freec(IFF_Chunk *c, const IFF_ChunkRegistry *r) { touch(FREE, N, c); owner.erase(c); base(c->chunkId)->freeExtensionChunk(c, r); }
    static void print(const IFF_Chunk *c, const unsigned i, const IFF_ChunkRegistry *r) { touch(PRINT, N, c); IFF_printIndent(stdout, i + 1, "handler %d\n", N); base(c->chunkId)->printExtensionChunk(c, i, r); }
    static IFF_Bool compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { touch(COMPARE, N, a); touch(COMPARE, N, b); ev.pop_back(); if(trip(COMPARE)) return FALSE; return base(a->chunkId)->compareExtensionChunk(a, b, r); }
    static IFF_ChunkType type(u32 id) { return {id, &create, &read, &write, &check, &freec, &print, &compare}; }
};
template<int... I> static IFF_ChunkType pick(int n, u32 id, std::integer_sequence<int, I...>) { typedef IFF_ChunkType (*F)(u32); static const F f[] = {&H<I>::type...}; return f[n](id); }
static const int TAGS = 64;
static IFF_ChunkType handler(int tag, u32 id) { return pick(tag, id, std::make_integer_sequence<int, TAGS>()); }

// ---- registries --------------------------------------------------------------------------------------------------------
struct Spec { // what is registered: independent of the library's representation
    std::map<u32, std::vector<std::map<u32, int>>> forms; // form type -> chain of nodes: ID -> tag
    std::map<u32, bool> nullnode;
    std::vector<std::map<u32, int>> global; int def = 0;
    std::map<u32, u32> alias;                             // form type -> form type whose node object it shares
    int find(u32 scope, u32 id) const
    {
        auto f = forms.find(scope);
        if(f != forms.end()) for(auto &n : f->second) { auto i = n.find(id); if(i != n.end()) return i->second; }
        for(auto &n : global) { auto i = n.find(id); if(i != n.end()) return i->second; }
        return def;
    }
};
struct Reg {
    std::vector<std::vector<IFF_ChunkType>> types; std::vector<IFF_ChunkTypesNode> nodes; std::vector<IFF_FormChunkTypes> forms; IFF_ChunkType def; IFF_ChunkRegistry reg;
    IFF_ChunkTypesNode *chain(const std::vector<std::map<u32, int>> &c)
    {
        IFF_ChunkTypesNode *below = nullptr;
        for(size_t i = c.size(); i-- > 0;)
        {
            types.emplace_back(); for(auto &e : c[i]) types.back().push_back(handler(e.second, e.first)); // std::map: ordered by unsigned ID
            nodes.push_back({(unsigned)types.back().size(), types.back().empty() ? nullptr : types.back().data(), below}); below = &nodes.back();
        }
        return below;
    }
    Reg(const Spec &s)
    {
        types.reserve(200); nodes.reserve(200); std::map<u32, IFF_ChunkTypesNode*> made;
        for(auto &f : s.forms) { auto al = s.alias.find(f.first); IFF_ChunkTypesNode *n = al != s.alias.end() && made.count(al->second) ? made[al->second] : s.nullnode.count(f.first) ? nullptr : chain(f.second); made[f.first] = n; forms.push_back({f.first, n}); }
        def = handler(s.def, 0);
        IFF_ChunkRegistry r = {(unsigned)forms.size(), forms.empty() ? nullptr : forms.data(), chain(s.global), &def};
        memcpy((void*)&reg, &r, sizeof r);
    }
    const IFF_ChunkType *expect(const Spec &s, u32 scope, u32 id) // the very entry
    {
        auto at = [&](const IFF_ChunkTypesNode *n) -> const IFF_ChunkType* { for(; n; n = n->parent) for(unsigned i = 0; i < n->chunkTypesLength; i++) if(n->chunkTypes[i].chunkId == id) return &n->chunkTypes[i]; return nullptr; };
        for(auto &f : forms) if(f.formType == scope) if(auto *t = at(f.chunkTypesNode)) return t;
        if(auto *t = at(reg.globalChunkTypesNode)) return t; return &def;
    }
};

static void expected(const Spec &s, const Node &n, u32 scope, int op, std::vector<Ev> &out)
{
    out.push_back({op, s.find(scope, n.id), n.id}); if(!n.is_group()) return;
    for(auto &p : n.props) expected(s, p, n.type, op, out); for(auto &k : n.kids) expected(s, k, n.type, op, out);
}
static std::string show(const std::vector<Ev> &v) { std::string o; for(auto &e : v) { o += fmt("%s:%d ", idtext(e.id).c_str(), e.tag); if(o.size() > 300) break; } return o; }
static void events(Ctx &c, const Spec &s, const Node &t, const char *what, std::vector<int> ops, bool partial = false)
{
    std::vector<Ev> w; for(int op : ops) expected(s, t, 0, op, w);
    std::vector<Ev> a = w, b = ev; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if(!wrong.empty()) { std::string x = wrong; wrong.clear(); c.fail("%s of %s: %s", what, desc(t).c_str(), x.c_str()); }
    if(partial ? !std::includes(a.begin(), a.end(), b.begin(), b.end()) : !(a == b)) c.fail("%s of %s invokes the handlers %s instead of %s", what, desc(t).c_str(), show(b).c_str(), show(a).c_str());
    ev.clear(); c.trans();
}
static void print_expected(const Spec &s, const Node &n, u32 scope, std::string &o, unsigned ind = 0)
{
    // the default representation with the handler's line after the size
    std::string in(2 * ind, ' '), in1(2 * ind + 2, ' ');
    o += in + "'" + idtext(n.id) + "' = {\n" + in1 + "chunkSize = " + std::to_string(n.size) + ";\n" + in1 + fmt("handler %d\n", s.find(scope, n.id));
    if(!n.is_group()) { std::string r = pp(n, ind); size_t p = r.find('\n', r.find('\n') + 1) + 1; o += r.substr(p); return; }
    o += in + (n.id == FORM || n.id == PROP ? "formType = '" : "contentsType = '") + idtext(n.type) + "';\n";
    if(n.id == LIST) { o += in + "prop = [\n"; for(auto &p : n.props) print_expected(s, p, n.type, o, ind + 1); o += in + "];\n"; }
    o += in + "[\n"; for(auto &k : n.kids) print_expected(s, k, n.type, o, ind + 1); o += in + "];\n" + in + "}\n\n";
}

static void judge(Ctx &c, const Spec &s, Reg &r, const Node &t, const std::string &bytes)
{
    ev.clear(); owner.clear(); wrong.clear(); fail_op = -1; diag_begin();
    al_begin(0xA5);
    IFF_Chunk *a = read_bytes(bytes, &r.reg), *b;
    if(!a) c.fail("%s is not read: %s", desc(t).c_str(), g_diag.c_str());
    events(c, s, t, "reading", {CREATE, READ});
    std::string bad; Node back = from_lib(a, nullptr, &bad);
    if(!(back == t) || !bad.empty()) c.fail("%s is read as %s %s", desc(t).c_str(), desc(back).c_str(), bad.c_str());
    std::string out; if(!write_bytes(a, out, &r.reg)) c.fail("%s is not written", desc(t).c_str());
    events(c, s, t, "writing", {WRITE});
    if(out != bytes) c.fail("%s is written differently from what was read", desc(t).c_str());
    bool ok = IFF_check(a, &r.reg); if(!ok && conform(t)) c.fail("%s is refused: %s", desc(t).c_str(), g_diag.c_str());
    events(c, s, t, "checking", {CHECK}, !conform(t)); // a refusal may come at any point
    { Capture cap; IFF_print(a, 0, &r.reg); std::string p = cap.end(), w; print_expected(s, t, 0, w); events(c, s, t, "printing", {PRINT}); if(p != w) c.fail("%s is printed as\n%sinstead of\n%s", desc(t).c_str(), p.c_str(), w.c_str()); }
    b = read_bytes(bytes, &r.reg); ev.clear();
    if(!IFF_compare(a, b, &r.reg)) c.fail("%s differs from itself", desc(t).c_str());
    events(c, s, t, "comparing", {COMPARE});
    IFF_free(b, &r.reg); events(c, s, t, "freeing", {FREE});
    IFF_free(a, &r.reg); events(c, s, t, "freeing", {FREE});
    if(!owner.empty()) c.fail("%zu chunks of %s are never freed", owner.size(), desc(t).c_str());
    if(al_live()) c.fail("%lu blocks stay allocated after freeing %s", al_live(), desc(t).c_str());
    al_end(); c.validated();
}

// the k-th invocation of an operation fails, or the stream ends early: the operation fails, and everything that was created is freed once, by its handler
static u64 failures(Ctx &c, const Spec &s, Reg &r, const Node &t, bool cuts)
{
    std::string bytes = ser(t), out; size_t cnt = t.count(); u64 n = 0; diag_begin();
    for(int op : {CREATE, READ, WRITE, CHECK, COMPARE})
        for(size_t k = 1; k <= cnt; k++)
        {
            ev.clear(); owner.clear(); wrong.clear(); fail_op = -1; al_begin(0xA5);
            IFF_Chunk *a = nullptr, *b = nullptr;
            if(op >= WRITE) { a = read_bytes(bytes, &r.reg); b = read_bytes(bytes, &r.reg); ev.clear(); }
            fail_op = op; fail_at = k; bool ok = true;
            if(op < WRITE) { a = read_bytes(bytes, &r.reg); ok = a != nullptr; }
            if(op == WRITE) ok = write_bytes(a, out, &r.reg);
            if(op == CHECK) ok = IFF_check(a, &r.reg);
            if(op == COMPARE) ok = IFF_compare(a, b, &r.reg);
            bool fired = fail_at <= 0; fail_op = -1;
            if(fired && ok) c.fail("the %zu. %s handler fails for %s, but the operation succeeds", k, opname[op], desc(t).c_str());
            if(!fired && op != CHECK) c.fail("the %zu. %s handler is not invoked for %s", k, opname[op], desc(t).c_str());
            if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("%s failing at the %zu. handler of %s: %s", opname[op], k, desc(t).c_str(), w.c_str()); }
            if(a) IFF_free(a, &r.reg); if(b) IFF_free(b, &r.reg);
            if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("freeing %s: %s", desc(t).c_str(), w.c_str()); }
            if(!owner.empty()) c.fail("%s failing at the %zu. handler of %s: %zu chunks are never freed", opname[op], k, desc(t).c_str(), owner.size());
            if(al_live()) c.fail("%s failing at the %zu. handler of %s leaves memory allocated", opname[op], k, desc(t).c_str());
            al_end(); n++; c.trans();
        }
    // memory runs out at every allocation in turn: whatever was created is freed once, by its handler
    if(cuts) for(int mode = 0; mode < 2; mode++) for(u64 k = 1;; k++)
    {
        ev.clear(); owner.clear(); wrong.clear(); al_begin(0xA5); MemIn m; FILE *f = open_in(&m, bytes, true); u64 before = al_count(); al_fail(before + k, mode);
        IFF_Chunk *a = IFF_readFd(f, &r.reg); bool reached = al_count() >= before + k; al_fail(0, 0); fclose(f);
        if(a && mode && reached) c.fail("%s is read although memory ran out for good at allocation %lu", desc(t).c_str(), k);
        if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("%s while allocation %lu fails: %s", desc(t).c_str(), k, w.c_str()); }
        if(a) IFF_free(a, &r.reg);
        if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("freeing %s: %s", desc(t).c_str(), w.c_str()); }
        if(!owner.empty() || al_live()) c.fail("%s while allocation %lu fails: %zu chunks are never freed, %lu blocks stay allocated", desc(t).c_str(), k, owner.size(), al_live());
        al_end(); n++; c.trans(); if(!reached) break;
    }
    if(cuts) for(size_t k = 0; k < bytes.size(); k++)
    {
        ev.clear(); owner.clear(); wrong.clear(); al_begin(0xA5); MemIn m; std::string cut = bytes.substr(0, k); FILE *f = open_in(&m, cut, true);
        IFF_Chunk *a = IFF_readFd(f, &r.reg); fclose(f);
        if(a) c.fail("%s cut at %zu is read", desc(t).c_str(), k);
        if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("%s cut at %zu: %s", desc(t).c_str(), k, w.c_str()); }
        if(!owner.empty() || al_live()) c.fail("%s cut at %zu: %zu chunks are never freed", desc(t).c_str(), k, owner.size());
        al_end(); n++; c.trans();
    }
    return n;
}

static std::vector<Node> rich()
{
    std::vector<Node> v; Node da = mkraw(DA, "x"), db = mkraw(DB, "yy"), dt = mkraw(TEXT, "");
    Node fa = mkgroup(FORM, TA, {da, db, dt}), fb = mkgroup(FORM, TB, {da, db}), pa = mkgroup(PROP, TA, {da, db}), pb = mkgroup(PROP, TB, {db, da});
    v.push_back(fa); v.push_back(fb);
    v.push_back(mkgroup(FORM, TA, {da, mkgroup(FORM, TB, {da, db, mkgroup(FORM, TA, {db, da})}), db}));
    v.push_back(mkgroup(FORM, TA, {mkgroup(CATT, TB, {fb}), da, mkgroup(LIST, TA, {fa}, {pa, pb}), db}));
    v.push_back(mkgroup(CATT, JJJJ, {fa, fb, fa})); v.push_back(mkgroup(CATT, TA, {fa, mkgroup(CATT, TA, {fa}), mkgroup(LIST, TA, {fa}, {pb})}));
    v.push_back(mkgroup(LIST, TA, {fa}, {pa, pb})); v.push_back(mkgroup(LIST, JJJJ, {fa, fb, mkgroup(CATT, TB, {fb})}, {pb, pa})); v.push_back(mkgroup(LIST, TB, {fb, mkgroup(LIST, TB, {fb}, {pa})}, {mkgroup(PROP, TA)}));
    for(auto &n : v) fixsizes(n);
    return v;
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("registries are sorted by ID, as documented; handlers keep to their contract; handlers registered for group IDs create the library's group structures");
    const int G = 40; // tags of the group handlers
    static Spec plain; plain.global = {{{CATT, G}, {FORM, G + 1}, {LIST, G + 2}, {PROP, G + 3}}}; plain.def = 0;
    static std::vector<std::vector<std::map<u32, int>>> chains; // registrations of DATA and DATB along up to 3 nodes
    {
        auto node = [](int sub, int tag) { std::map<u32, int> m; if(sub & 1) m[DA] = tag; if(sub & 2) m[DB] = tag + 1; return m; };
        for(int a = 0; a < 4; a++) { chains.push_back({node(a, 1)}); for(int b = 0; b < 4; b++) { chains.push_back({node(a, 1), node(b, 3)}); for(int d = 0; d < 4; d++) chains.push_back({node(a, 1), node(b, 3), node(d, 5)}); } }
    }
    static std::vector<Node> trees = rich(); { Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(DB, "")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; for(auto &n : Trees(a).upto(T ? 4 : 3)) trees.push_back(n); }
    static std::vector<std::string> bytes; for(auto &t : trees) bytes.push_back(ser(t));
    E.fact("chains_of_nodes", chains.size()); E.fact("trees", trees.size());
    // 1. all registrations in the scope of one form type x the other one x the global scope
    int NC = chains.size() + 2;
    E.scene("scopes", (u64)NC * 6 * 4, [NC, G](Ctx &c)
    {
        int ch = c.job % NC, other = c.job / NC % 6, glob = c.job / NC / 6; Spec s = plain;
        if(glob & 1) s.global[0][DA] = 20; if(glob & 2) s.global[0][DB] = 21;
        if(ch == 1) { s.forms[TA]; s.nullnode[TA] = true; } else if(ch > 1) s.forms[TA] = chains[ch - 2];
        switch(other) { case 1: s.forms[TB] = {{{DA, 10}}}; break; case 2: s.forms[TB] = {{{DB, 11}}, {{DA, 12}, {DB, 13}}}; break; case 3: if(ch < 2) return; s.forms[TB] = s.forms[TA]; s.alias[TB] = TA; break;
            case 4: s.forms[mkid("AAAA")] = {{{DA, 14}}}; s.forms[TA + 0x100] = {{{DA, 15}}}; s.forms[TB] = {{{DA, 16}}}; break; case 5: s.forms[JJJJ] = {{{DA, 17}, {DB, 18}}}; s.forms[mkid("ZZZZ")] = {{{DB, 19}}}; break; }
        Reg r(s); u64 n = 0;
        for(u32 scope : {TA, TB, TC, (u32)0, JJJJ, mkid("ZZZZ")}) for(u32 id : {DA, DB, TEXT, FORM, CATT, LIST, PROP, (u32)0}) { if(IFF_findChunkType(&r.reg, scope, id) != r.expect(s, scope, id)) c.fail("looking up %s in the scope of %s finds another chunk type", idtext(id).c_str(), idtext(scope).c_str()); n++; }
        for(size_t i = 0; i < trees.size(); i++) { judge(c, s, r, trees[i], bytes[i]); n++; }
        c.execs(n); c.state(c.job); c.note(fmt("chain %d, other %d, global %d", ch, other, glob));
    });
    // 2. handlers for group IDs inside scopes and in parents of the global scope
    E.scene("group_handlers", 16 * 16 * 3, [G](Ctx &c)
    {
        int sub = c.job % 16, sub2 = c.job / 16 % 16, mode = c.job / 256; Spec s = plain; static const u32 gs[] = {CATT, FORM, LIST, PROP}; std::map<u32, int> a, b; u64 n = 0;
        for(int i = 0; i < 4; i++) { if(sub >> i & 1) a[gs[i]] = 24 + i; if(sub2 >> i & 1) b[gs[i]] = 30 + i; }
        if(mode == 0) { s.forms[TA] = {a}; s.forms[TB] = {b}; }
        else if(mode == 1) { a[DA] = 1; b[DB] = 2; s.forms[TA] = {a, b}; s.forms[JJJJ] = {b}; }
        else { s.global = {a, {{CATT, G}, {DA, 9}, {FORM, G + 1}, {LIST, G + 2}, {PROP, G + 3}}}; s.forms[TA] = {b}; }
        Reg r(s); for(size_t i = 0; i < trees.size() && i < 1500; i++) { judge(c, s, r, trees[i], bytes[i]); n++; }
        c.execs(n); c.state(c.job);
    });
    // 3. every position in tables of every length, IDs of every sign and byte order
    E.scene("positions", 17, [](Ctx &c)
    {
        u64 n = 0; int len = c.job;
        static const std::vector<u32> ids = {mkid("!~~~"), mkid("0000"), mkid("AAAA"), mkid("CAT!"), mkid("DASA"), mkid("DATA"), mkid("DATB"), mkid("DBAA"), mkid("FORA"), mkid("LIS "), mkid("LISA"), mkid("PRO~"), mkid("TSTA"), mkid("a000"), mkid("zzzz"), mkid("~~~~"), mkid("TEXT")};
        for(int skip = 0; skip <= (int)ids.size() - len; skip++)
        {
            Spec s = plain; std::map<u32, int> nd; for(int i = 0; i < len; i++) nd[ids[skip + i]] = 1 + i % 19;
            s.forms[TA] = {nd}; for(int i = 0; i < len; i++) { u32 ft = ids[skip + i]; if(ft != TA) s.forms[ft] = {{{DA, 20 + i % 18}}}; }
            Reg r(s);
            for(u32 scope : ids) for(u32 id : ids) { if(IFF_findChunkType(&r.reg, scope, id) != r.expect(s, scope, id)) c.fail("%d entries: looking up %s in the scope of %s finds another chunk type", len, idtext(id).c_str(), idtext(scope).c_str()); n++; }
            Node f = mkgroup(FORM, TA); for(u32 id : ids) f.kids.push_back(mkraw(id, "d")); Node t = mkgroup(CATT, JJJJ, {f}); for(u32 ft : ids) t.kids.push_back(mkgroup(FORM, ft, {mkraw(DA, "1"), mkraw(ids[0], "2")}));
            fixsizes(t); judge(c, s, r, t, ser(t)); n++;
            // types with the top bit set are ordered as unsigned numbers
            Spec h = plain; for(int i = 0; i < len; i++) { h.forms[0x10000000u * (i % 16) + 0x41414141u * 1u] = {{{0x10000000u * ((i + skip) % 16), 1 + i}, {DA, 21 + i % 17}}}; }
            Reg q(h); for(int i = 0; i < 16; i++) for(int k = 0; k < 16; k++) { u32 scope = 0x10000000u * i + 0x41414141u, id = 0x10000000u * k; if(IFF_findChunkType(&q.reg, scope, id) != q.expect(h, scope, id)) c.fail("looking up %08x in the scope of %08x finds another chunk type", id, scope); n++; }
            Spec w = plain; std::map<u32, int> hd; for(int i = 0; i < len; i++) hd[0x10000000u * ((i + skip) % 16) + 0x01414141u] = 1 + i; w.forms[TA] = {hd}; w.global = {hd};
            Reg z(w); for(int k = 0; k < 16; k++) for(u32 scope : {TA, TB}) { u32 id = 0x10000000u * k + 0x01414141u; if(IFF_findChunkType(&z.reg, scope, id) != z.expect(w, scope, id)) c.fail("%d entries: looking up %08x in the scope of %08x finds another chunk type", len, id, scope); n++; }
        }
        c.execs(n); c.state(len);
    });
    // 4. failing handlers and truncated streams
    {
        static std::vector<Node> ft = rich(); { Alphabet a; a.raws = {mkraw(DA, "x")}; a.formtypes = {TA}; a.conttypes = {TA}; for(auto &n : Trees(a).upto(T ? 5 : 4)) ft.push_back(n); }
        E.scene("failures", ft.size() * 4, [](Ctx &c)
        {
            const Node &t = ft[c.job / 4]; Spec s = plain;
            switch(c.job % 4) { case 1: s.forms[TA] = {{{DA, 1}, {DB, 2}}}; break; case 2: s.forms[TA] = {{{DA, 1}, {FORM, 5}, {PROP, 6}}, {{DB, 3}}}; s.forms[TB] = {{{DA, 7}, {LIST, 8}}}; break; case 3: s.global[0][DA] = 9; s.forms[JJJJ] = {{{PROP, 10}, {CATT, 11}, {FORM, 12}}}; s.forms[TB] = {{{PROP, 13}}}; break; }
            Reg r(s); u64 n = failures(c, s, r, t, true); c.execs(n); c.validated(n); c.state(c.job); if(c.noting()) c.note(desc(t));
        });
    }
    // the functions on single chunks: the scope that is given decides, wherever the chunk is
    E.scene("given_scope", 24 * 4, [](Ctx &c)
    {
        static const u32 scopes[] = {0, TA, TB, TC, JJJJ, FORM}; Spec s = plain; u64 n = 0;
        switch(c.job % 4) { case 0: s.forms[TA] = {{{DA, 1}, {DB, 2}}}; s.forms[TB] = {{{DA, 3}}}; break; case 1: s.forms[TA] = {{{DA, 1}, {FORM, 5}, {PROP, 6}}, {{DB, 3}}}; s.forms[TB] = {{{DA, 7}, {LIST, 8}, {FORM, 9}}}; s.forms[JJJJ] = {{{DA, 4}}}; break; case 2: s.global[0][DA] = 9; s.forms[JJJJ] = {{{PROP, 10}, {CATT, 11}, {FORM, 12}, {DB, 15}}}; s.forms[TB] = {{{PROP, 13}, {TEXT, 14}}}; break; case 3: for(u32 t : {TA, TB, TC, JJJJ, FORM}) { int b = 10 + 4 * (int)s.forms.size(); s.forms[t] = {{{DA, b}, {DB, b + 1}, {FORM, b + 2}, {LIST, b + 3}}}; } break; }
        Reg r(s); fail_op = -1;
        for(size_t i = c.job / 4; i < trees.size() && i < 800; i += 24)
        {
            const Node &t = trees[i]; size_t k = t.count();
            for(size_t w = 0; w < k; w++) for(u32 scope : scopes) for(int op : {READ, WRITE, CHECK, PRINT, COMPARE, FREE})
            {
                al_begin(0xA5); diag_begin(); owner.clear(); wrong.clear(); ev.clear();
                IFF_Chunk *whole[2] = {to_lib(t), to_lib(t)}, *x[2]; const Node *xn = nullptr; Node copy = t; std::vector<Node*> flat; flatten(copy, flat); xn = flat[w];
                for(int q = 0; q < 2; q++)
                {   // the chunk at the same place
                    std::vector<IFF_Chunk*> f; std::function<void(const Node&, IFF_Chunk*)> go = [&](const Node &m, IFF_Chunk *l) { f.push_back(l); if(!m.is_group()) return; for(size_t j = 0; j < m.props.size(); j++) go(m.props[j], (IFF_Chunk*)((IFF_List*)l)->prop[j]); for(size_t j = 0; j < m.kids.size(); j++) go(m.kids[j], ((IFF_Group*)l)->chunk[j]); };
                    go(t, whole[q]); x[q] = f[w];
                    std::function<void(const Node&, IFF_Chunk*, u32)> own = [&](const Node &m, IFF_Chunk *l, u32 sc) { owner[l] = s.find(sc, m.id); if(!m.is_group()) return; for(size_t j = 0; j < m.props.size(); j++) own(m.props[j], (IFF_Chunk*)((IFF_List*)l)->prop[j], m.type); for(size_t j = 0; j < m.kids.size(); j++) own(m.kids[j], ((IFF_Group*)l)->chunk[j], m.type); };
                    own(*xn, x[q], scope);
                }
                std::string what = fmt("%s with the scope %s, within %s,", op == READ ? "IFF_readChunk" : op == WRITE ? "IFF_writeChunk" : op == CHECK ? "IFF_checkChunk" : op == PRINT ? "IFF_printChunk" : op == COMPARE ? "IFF_compareChunk" : "IFF_freeChunk", idtext(scope).c_str(), desc(t).c_str());
                std::vector<Ev> want; bool partial = false;
                if(op == READ) { std::string b = ser(*xn); MemIn m; FILE *f = open_in(&m, b, true); IFF_Chunk *g = IFF_readChunk(f, scope, &r.reg); fclose(f); if(!g) c.fail("%s fails", what.c_str()); expected(s, *xn, scope, CREATE, want); Node back = from_lib(g, nullptr, nullptr); if(!(back == *xn)) c.fail("%s delivers %s", what.c_str(), desc(back).c_str()); expected(s, *xn, scope, READ, want); expected(s, *xn, scope, FREE, want); IFF_freeChunk(g, scope, &r.reg); }
                if(op == WRITE) { MemOut m; FILE *f = open_out(&m, true); bool ok = IFF_writeChunk(f, x[0], scope, &r.reg); fclose(f); if(!ok || m.buf != ser(*xn)) c.fail("%s writes something else", what.c_str()); }
                if(op == CHECK) { bool ok = IFF_checkChunk(x[0], scope, &r.reg); if(!ok && conform(*xn)) c.fail("%s refuses: %s", what.c_str(), g_diag.c_str()); partial = !ok; }
                if(op == PRINT) { Capture cap; IFF_printChunk(x[0], 0, scope, &r.reg); std::string g = cap.end(), e; print_expected(s, *xn, scope, e); if(g != e) c.fail("%s prints\n%s", what.c_str(), g.c_str()); }
                if(op == COMPARE) { bool ok = IFF_compareChunk(x[0], x[1], scope, &r.reg); if(!ok) c.fail("%s finds a difference", what.c_str()); }
                if(op != READ && op != FREE) { if(!wrong.empty()) { std::string q = wrong; wrong.clear(); c.fail("%s: %s", what.c_str(), q.c_str()); } expected(s, *xn, scope, op, want); }
                if(op == FREE)
                {
                    if(w) { for(int q = 0; q < 2; q++) IFF_free(whole[q], nullptr); whole[0] = whole[1] = nullptr; owner.clear(); x[0] = to_lib(*xn); ev.clear(); std::function<void(const Node&, IFF_Chunk*, u32)> own = [&](const Node &m, IFF_Chunk *l, u32 sc) { owner[l] = s.find(sc, m.id); if(!m.is_group()) return; for(size_t j = 0; j < m.props.size(); j++) own(m.props[j], (IFF_Chunk*)((IFF_List*)l)->prop[j], m.type); for(size_t j = 0; j < m.kids.size(); j++) own(m.kids[j], ((IFF_Group*)l)->chunk[j], m.type); }; own(*xn, x[0], scope); }
                    IFF_freeChunk(x[0], scope, &r.reg); if(!w) whole[0] = nullptr; expected(s, *xn, scope, FREE, want);
                    if(!wrong.empty()) { std::string q = wrong; wrong.clear(); c.fail("%s: %s", what.c_str(), q.c_str()); }
                }
                std::sort(want.begin(), want.end()); std::sort(ev.begin(), ev.end());
                if(partial ? !std::includes(want.begin(), want.end(), ev.begin(), ev.end()) : !(want == ev)) c.fail("%s invokes the handlers %s instead of %s", what.c_str(), show(ev).c_str(), show(want).c_str());
                for(int q = 0; q < 2; q++) if(whole[q]) IFF_free(whole[q], nullptr);
                if(al_live()) c.fail("%s leaves memory allocated", what.c_str());
                al_end(); n++; c.trans(); c.state(comb(comb(c.job, i * 64 + w), scope * 8 + op));
            }
        }
        c.execs(n); c.validated(n);
    });
    // input that is refused half-way: all handlers, with every registration of group handlers
    {
        static std::vector<std::pair<std::string, std::string>> bad; bad.clear();
        Node da = mkraw(DA, "x"), fa = mkgroup(FORM, TA, {da}), pa = mkgroup(PROP, TA, {da}), pb = mkgroup(PROP, TB, {mkraw(DB, "yy")});
        for(u32 outer : {FORM, CATT, LIST}) for(u32 ty : {TA, TB, JJJJ}) for(auto &first : {fa, da, mkgroup(CATT, TA, {fa}), mkgroup(LIST, TA, {fa}, {pa})}) for(auto &late : {pa, pb, mkgroup(PROP, TA, {mkgroup(FORM, TA, {da})}), mkgroup(PROP, JJJJ)})
        {
            Node in = mkgroup(CATT, ty, {first, late, fa}); std::string e = ser(fixed(in)); e.replace(0, 4, idtext(outer)); bad.push_back({"a PROP behind another member in " + idtext(outer), e});
            Node two = mkgroup(CATT, ty, {late, first, late}); e = ser(fixed(two)); e.replace(0, 4, idtext(outer)); bad.push_back({"a PROP before and behind another member in " + idtext(outer), e});
            std::string w; put32(w, LIST); put32(w, 4 + e.size() + 12); put32(w, ty); w += e; put32(w, PROP); put32(w, 4); put32(w, TA); bad.push_back({"the same within a LIST that has a late PROP of its own", w});
        }
        for(u32 id : {FORM, CATT, LIST, PROP, DA, DB}) for(int over : {1, 2, 4, 9, 1000}) for(u32 g : {FORM, LIST, CATT}) for(u32 ty : {TA, JJJJ})
        {   // a member that does not fit, behind ones that do
            std::string m = ser(fixed(g == LIST ? pa : fa)), b; put32(b, g); put32(b, 4 + m.size() + 8 + 4); put32(b, ty); b += m; put32(b, id); put32(b, 4 + over); put32(b, TA); std::string longer = b; longer.append(over + 8, 'z'); bad.push_back({"a member that is too large", b}); bad.push_back({"a member that is too large, with bytes", longer});
        }
        E.fact("refused_inputs", bad.size());
        E.scene("refused_inputs", (u64)16 * 6, [G](Ctx &c)
        {
            int sub = c.job % 16, mode = c.job / 16; Spec s = plain; static const u32 gs[] = {CATT, FORM, LIST, PROP}; std::map<u32, int> m; for(int i = 0; i < 4; i++) if(sub >> i & 1) m[gs[i]] = 24 + i; u64 n = 0;
            if(mode & 1) m[DA] = 3; if(mode / 2 == 0) s.forms[TA] = {m}; else if(mode / 2 == 1) { s.forms[TB] = {m}; s.forms[JJJJ] = {m}; } else { s.forms[TA] = {m}; s.forms[JJJJ] = {{{PROP, 40 - 1}, {DA, 5}}}; }
            Reg r(s);
            for(auto &b : bad) for(int cut = 0; cut < 3; cut++)
            {
                std::string in = b.second.substr(0, b.second.size() - cut * 5); ev.clear(); owner.clear(); wrong.clear(); diag_begin(); al_begin(0xA5); MemIn i; FILE *f = open_in(&i, in, true); IFF_Chunk *a = IFF_readFd(f, &r.reg); fclose(f);
                if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("reading %s: %s: %s", b.first.c_str(), w.c_str(), hex(in).c_str()); }
                if(a) { IFF_check(a, &r.reg); IFF_free(a, &r.reg); if(!wrong.empty()) { std::string w = wrong; wrong.clear(); c.fail("checking or freeing %s: %s: %s", b.first.c_str(), w.c_str(), hex(in).c_str()); } }
                if(!owner.empty() || al_live()) c.fail("reading %s: %zu chunks are never freed, %lu blocks stay allocated: %s", b.first.c_str(), owner.size(), al_live(), hex(in).c_str());
                al_end(); n++; c.trans(); c.state(comb(hash_str(in), c.job));
            }
            c.execs(n); c.validated(n);
        });
    }
    // 4c. tables of every kind of length, far beyond what a byte or two can count: every entry, and what lies between two entries
    {
        static const std::vector<int> lens = {1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
        E.scene("lookups", lens.size() * 6, [](Ctx &c)
        {
            int N = lens[c.job / 6], way = c.job % 6; u64 n = 0; // 0: form types; 1: chunk types of one scope; 2: global ones; 3: of a parent; 4: both; 5: form types that share one node
            u32 step = way == 4 ? 3 : 0x101, base = mkid("AAAA"); auto id = [&](int i) { return base + step * (u32)i; }; IFF_ChunkType def = handler(0, 0), h = handler(1, 0), o = handler(2, 0);
            std::vector<IFF_ChunkType> types, one; for(int i = 0; i < N; i++) { h.chunkId = id(i); types.push_back(h); } o.chunkId = DA; one.push_back(o);
            IFF_ChunkTypesNode big = {(unsigned)N, types.data(), nullptr}, small = {1, one.data(), nullptr}, child = {1, one.data(), &big}; std::vector<IFF_ChunkTypesNode> nodes; std::vector<IFF_FormChunkTypes> forms; nodes.reserve(N);
            if(way == 0 || way == 4) for(int i = 0; i < N; i++) { nodes.push_back({1, &types[i], nullptr}); forms.push_back({id(i), &nodes[i]}); }
            else if(way == 5) for(int i = 0; i < N; i++) forms.push_back({id(i), &small}); else if(way == 1) forms = {{TB, &big}}; else if(way == 3) forms = {{TB, &child}};
            IFF_ChunkRegistry reg = {(unsigned)forms.size(), forms.empty() ? nullptr : forms.data(), way == 2 || way == 4 ? &big : &small, &def};
            auto ask = [&](u32 scope, u32 x, const IFF_ChunkType *want) { n++; const IFF_ChunkType *got = IFF_findChunkType(&reg, scope, x); if(got != want) c.fail("%d entries (table %d): looking up %08x in the scope of %08x finds %s", N, way, x, scope, got == &def ? "the default type" : got == one.data() ? "the other type" : got >= types.data() && got < types.data() + N ? fmt("entry %td instead of %td", got - types.data(), want - types.data()).c_str() : "none of the types"); };
            auto fallback = [&](u32 x) -> const IFF_ChunkType* { if(way == 2 || way == 4) { if(x < base || (x - base) % step || (x - base) / step >= (u32)N) return &def; return &types[(x - base) / step]; } return x == DA ? one.data() : &def; };
            for(int i = 0; i < N; i++) for(int d : {0, -1, 1})
            {
                u32 x = id(i) + d; const IFF_ChunkType *w = d ? nullptr : &types[i]; if(d && x >= base && (x - base) % step == 0 && (x - base) / step < (u32)N) continue;
                if(way == 0 || way == 4) { ask(x, id(i), w ? w : fallback(id(i))); ask(x, DA, fallback(DA)); if(N < 70 && !d) for(int j = 0; j < N; j++) ask(x, id(j), i == j ? w : fallback(id(j))); }
                else if(way == 1) { ask(TB, x, w ? w : fallback(x)); ask(TA, x, fallback(x)); } else if(way == 2) { ask(0, x, fallback(x)); ask(TB, x, fallback(x)); } else if(way == 3) { ask(TB, x, w ? w : x == DA ? one.data() : &def); ask(TB, DA, one.data()); }
                else { ask(x, DA, one.data()); ask(x, DB, &def); }
            }
            for(u32 x : {(u32)0, base - 1, id(N), id(N) + 1, 0xffffffffu, 0x7fffffffu, 0x80000000u}) { ask(x, x, fallback(x)); ask(x, DB, fallback(DB)); }
            c.trans(n); c.execs(n); c.validated(n); c.state(c.job); c.note(fmt("%d entries, table %d", N, way));
        });
    }
    // 4d. registries that take turns, and whose tables an application changes in between: every sequence of three look-ups
    E.scene("alternating", 54, [T](Ctx &c)
    {
        // a look-up: one of two registries, filled with one of three contents in the same memory, one of three scopes, one of three IDs
        u64 n = 0; static const u32 scopes[] = {0, TA, TB}, ids[] = {DA, DB, FORM}; IFF_ChunkType def[2] = {handler(0, 0), handler(0, 0)};
        struct Mem { IFF_ChunkType a[2], b[2], g[2]; IFF_ChunkTypesNode na, nb, ng; IFF_FormChunkTypes f[2]; alignas(IFF_ChunkRegistry) unsigned char r[sizeof(IFF_ChunkRegistry)]; } mem[2]; std::map<u32, const IFF_ChunkType*> sc[2][4];
        auto fill = [&](int s, int k)
        {
            Mem &m = mem[s]; for(auto &x : sc[s]) x.clear(); auto put = [&](IFF_ChunkType *t, std::initializer_list<u32> l, std::map<u32, const IFF_ChunkType*> &e) { int i = 0; for(u32 id : l) { t[i] = handler(1 + s * 20 + k * 6 + i, id); e[id] = &t[i]; i++; } return (unsigned)l.size(); };
            if(k == 0) { m.na = {put(m.a, {DA}, sc[s][1]), m.a, nullptr}; m.nb = {put(m.b, {DB}, sc[s][2]), m.b, nullptr}; m.ng = {put(m.g, {FORM}, sc[s][3]), m.g, nullptr}; m.f[0] = {TA, &m.na}; m.f[1] = {TB, &m.nb}; }
            if(k == 1) { m.na = {put(m.a, {DB, FORM}, sc[s][2]), m.a, nullptr}; m.nb = {put(m.b, {DA}, sc[s][1]), m.b, nullptr}; m.ng = {put(m.g, {DA, DB}, sc[s][3]), m.g, nullptr}; m.f[0] = {TA, &m.nb}; m.f[1] = {TB, &m.na}; }
            if(k == 2) { m.na = {put(m.a, {DA, DB}, sc[s][1]), m.a, nullptr}; m.ng = {put(m.g, {DB}, sc[s][3]), m.g, nullptr}; m.nb = m.na; m.f[0] = {TA, &m.na}; m.f[1] = {TC, &m.nb}; if(s) { m.f[0] = {TB, &m.na}; sc[s][2] = sc[s][1]; sc[s][1].clear(); } }
            IFF_ChunkRegistry r = {k == 2 ? 1u : 2u, m.f, &m.ng, &def[s]}; memcpy(m.r, &r, sizeof r);
        };
        auto q = [&](int i) { int s = i % 2, sci = i / 6 % 3, idi = i / 18; u32 x = ids[idi]; auto &e = sc[s][sci]; auto &g = sc[s][3]; const IFF_ChunkType *want = sci && e.count(x) ? e[x] : g.count(x) ? g[x] : &def[s], *got = IFF_findChunkType((const IFF_ChunkRegistry*)mem[s].r, scopes[sci], x); n++; return got == want; };
        for(int j = 0; j < 54; j++) for(int k = 0; k < 54; k++) for(int l = 0; l < (T ? 54 : 1); l++)
        {
            int seq[] = {(int)c.job, j, k, l};
            for(int change = 0; change < 2; change++) // the contents change only with the look-ups, or before each one
            { fill(0, 0); fill(1, 0); int have[2] = {0, 0}; for(int i = 0; i < (T ? 4 : 3); i++) { int s = seq[i] % 2, w = seq[i] / 2 % 3; if(change || have[s] != w) fill(s, w); have[s] = w; if(!q(seq[i])) c.fail("look-up %d of a sequence (%d, %d, %d, %d) finds another chunk type: %s in the scope of %s", i + 1, seq[0], seq[1], seq[2], seq[3], idtext(ids[seq[i] / 18]).c_str(), idtext(scopes[seq[i] / 6 % 3]).c_str()); } }
        }
        c.trans(n); c.execs(n); c.validated(n); c.state(c.job);
    });
    // 5. long chains of parents and large hierarchies
    E.scene("long_chains", T ? 60 : 20, [](Ctx &c)
    {
        u64 n = 0; int len = c.job + 1;
        for(int at = 0; at < len; at++) for(int at2 : {at, len - 1})
        { Spec s = plain; std::vector<std::map<u32, int>> ch(len); ch[at][DA] = 1; ch[at2][DB] = 2; for(int i = at + 1; i < len; i++) ch[i][DA] = 3; s.forms[TA] = ch; s.forms[TB] = {{{TEXT, 4}}}; Reg r(s); for(int i = 0; i < 9; i++) { judge(c, s, r, trees[i], bytes[i]); n++; } }
        c.execs(n); c.state(len);
    });
    {
        static std::vector<Big> big; for(auto &b : big_trees(T, T ? 300000 : 20000)) if(T ? b.n.depth() <= 1025 && b.n.count() < 40000 : b.n.count() < 4000) big.push_back(b); // deeper than that, the expectation itself does not fit a stack
        E.scene("large", big.size(), [](Ctx &c) { const Node &t = big[c.job].n; c.note(big[c.job].name); Spec s = plain; s.forms[TA] = {{{DA, 1}}, {{TEXT, 2}, {FORM, 3}}}; s.forms[TB] = {{{DA, 4}}}; s.forms[JJJJ] = {{{PROP, 5}}}; Reg r(s); judge(c, s, r, t, ser(t)); c.state(c.job); });
    }
}
