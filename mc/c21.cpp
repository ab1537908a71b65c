// C21: every inspection depends only on the present state of a hierarchy, whatever was inspected, changed or freed before.
#include "api.hpp"
using namespace mc;

static const u32 DC = mkid("DATC");
static std::atomic<u64> *n_reused, *n_queries;

struct At { const Node *n; IFF_Chunk *l; int up; };
static void pairup(const Node &n, IFF_Chunk *l, int up, std::vector<At> &v)
{
    int me = v.size(); v.push_back({&n, l, up}); if(!n.is_group()) return;
    for(size_t i = 0; i < n.props.size(); i++) pairup(n.props[i], (IFF_Chunk*)((IFF_List*)l)->prop[i], me, v);
    for(size_t i = 0; i < n.kids.size(); i++) pairup(n.kids[i], ((IFF_Group*)l)->chunk[i], me, v);
}
// places in a hierarchy: digits are members, letters PROPs ("1a": the first PROP of the second member)
static Node *model_at(Node &r, const char *p) { Node *n = &r; for(; *p; p++) { auto &v = *p >= 'a' ? n->props : n->kids; size_t i = *p >= 'a' ? *p - 'a' : *p - '0'; if(i >= v.size()) return nullptr; n = &v[i]; } return n; }
static IFF_Chunk *lib_at(IFF_Chunk *l, const char *p) { for(; *p; p++) l = *p >= 'a' ? (IFF_Chunk*)((IFF_List*)l)->prop[*p - 'a'] : ((IFF_Group*)l)->chunk[*p - '0']; return l; }

struct World {
    Node m; IFF_Chunk *l = nullptr; Node other; IFF_Chunk *o = nullptr; bool refused = false; int shape = 0; // the hierarchy, and another one that stays as it is
    void build(const Node &n) { m = n; l = to_lib(n); }
    void drop() { if(l) IFF_free(l, nullptr); l = nullptr; }
    ~World() { drop(); if(o) IFF_free(o, nullptr); }
};

// ---- inspections -----------------------------------------------------------------------------------------------------------
enum Kind { WRITE, PRINT, CHECK, TWIN, OTHER, GET, OWN, ALL, FROMPROP, PROPOF, SEARCH, SEARCH2, SELF, KINDS };
static const char *kname[] = {"writing", "printing", "checking", "comparing with an equal one", "comparing with another one", "looking up", "looking up the own", "collecting", "looking up in the PROP", "asking for the PROP", "searching", "searching two types", "comparing with itself"};
struct Query { Kind k; const char *at; u32 id; std::string text() const { return fmt("%s%s%s at \"%s\"", kname[k], id ? " " : "", id ? idtext(id).c_str() : "", at); } };

static void wanted(const At *v, size_t i, const std::vector<At> &all, const std::vector<u32> &types, std::vector<IFF_Chunk*> &out)
{
    const Node &n = *all[i].n; if(n.id == FORM) for(u32 t : types) if(n.type == t) { out.push_back(all[i].l); return; }
    if(n.id == FORM || n.id == CATT || n.id == LIST) for(size_t j = i + 1; j < all.size(); j++) if(all[j].up == (int)i && !(all[j].n->id == PROP)) wanted(v, j, all, types, out);
}
// asks; an answer that differs from the model's is a violation
static void ask(Ctx &c, World &w, const Query &q, const std::string &history)
{
    Node *n = model_at(w.m, q.at); if(!n) return; IFF_Chunk *l = lib_at(w.l, q.at); (*n_queries)++; c.trans(); diag_begin();
    auto bad = [&](const std::string &how) { c.fail("%s of %s %s, after: %s", q.text().c_str(), desc(w.m).c_str(), how.c_str(), history.c_str()); };
    switch(q.k)
    {
        case WRITE: { std::string b; bool ok = write_bytes(l, b); if(!ok || b != ser(*n)) bad(ok ? "gives " + hex(b) : "fails: " + g_diag); return; }
        case PRINT: { std::string p = print_text(l, 1); if(p != pp(*n, 1)) bad("gives\n" + p + "\ninstead of\n" + pp(*n, 1)); return; }
        case CHECK: { bool r = IFF_check(l, nullptr); if(r != conform(*n)) bad(r ? "accepts it" : "refuses it: " + g_diag); if(!r && !g_diag_calls) bad("gives no diagnostic"); return; }
        case TWIN: { Chunk t(to_lib(*n)); if(!IFF_compare(l, t, nullptr) || !IFF_compare(t, l, nullptr)) bad("says that they differ"); return; }
        case OTHER: { bool r = IFF_compare(l, w.o, nullptr), s = IFF_compare(w.o, l, nullptr), e = *n == w.other; if(r != e || s != e) bad(e ? "says that they differ" : "says that they are equal"); return; }
        case SELF: { if(!IFF_compare(l, l, nullptr)) bad("says that it differs"); return; }
        default: break;
    }
    std::vector<At> v; pairup(w.m, w.l, -1, v); size_t me = 0; while(v[me].n != n) me++;
    std::vector<IFF_Chunk*> own; if(n->is_group()) for(size_t i = 0; i < n->kids.size(); i++) if(n->kids[i].id == q.id) own.push_back(((IFF_Group*)l)->chunk[i]);
    auto one = [&](IFF_Chunk *got, IFF_Chunk *want) { if(got != want) bad(!got ? "gives nothing" : want ? "gives another chunk" : "gives a chunk although there is none"); };
    switch(q.k)
    {
        case OWN: if(n->id == FORM) one(IFF_getDataChunkFromForm((IFF_Form*)l, q.id), own.empty() ? nullptr : own[0]); return;
        case FROMPROP: if(n->id == PROP) one(IFF_getChunkFromProp((IFF_Prop*)l, q.id), own.empty() ? nullptr : own[0]); return;
        case PROPOF: { if(n->id != LIST) return; IFF_Chunk *want = nullptr; for(size_t i = 0; i < n->props.size() && !want; i++) if(n->props[i].type == q.id) want = (IFF_Chunk*)((IFF_List*)l)->prop[i]; one((IFF_Chunk*)IFF_getPropFromList((IFF_List*)l, q.id), want); return; }
        case GET:
        {
            if(n->id != FORM) return; IFF_Chunk *want = own.empty() ? nullptr : own[0];
            for(int a = v[me].up; !want && a >= 0; a = v[a].up) if(v[a].n->id == LIST) for(size_t i = 0; i < v[a].n->props.size() && !want; i++) { const Node &p = v[a].n->props[i]; if(p.type != n->type) continue; for(size_t j = 0; j < p.kids.size() && !want; j++) if(p.kids[j].id == q.id) want = ((IFF_List*)v[a].l)->prop[i]->chunk[j]; }
            one(IFF_getChunkFromForm((IFF_Form*)l, q.id), want); return;
        }
        case ALL: { if(n->id != FORM) return; unsigned k = 77; IFF_Chunk **r = IFF_getChunksFromForm((IFF_Form*)l, q.id, &k); bool same = k == own.size(); for(size_t i = 0; same && i < k; i++) same = r[i] == own[i]; free(r); if(!same) bad("gives other chunks"); return; }
        case SEARCH: case SEARCH2:
        {
            std::vector<u32> t = {q.id}; if(q.k == SEARCH2) t.push_back(TC); std::vector<IFF_Chunk*> want; wanted(v.data(), me, v, t, want); unsigned k = 77;
            IFF_Form **r = q.k == SEARCH ? IFF_searchForms(l, q.id, &k) : IFF_searchFormsFromArray(l, (const IFF_ID*)t.data(), 2, &k);
            bool same = k == want.size(); for(size_t i = 0; same && i < k; i++) same = (IFF_Chunk*)r[i] == want[i]; free(r); if(!same) bad(fmt("gives %u forms instead of %zu, or other ones", k, want.size())); return;
        }
        default: return;
    }
}

// ---- changes -----------------------------------------------------------------------------------------------------------------
static Node variant(int k, int shape) // hierarchies of one shape
{
    if(shape == 1) { u32 a = k & 1 ? TB : TA, x = k & 2 ? DB : DA; return fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, a, {mkraw(x, "abcdefghijklmnopqrstuvwxyz0123456789")})}, {mkgroup(PROP, a)})); }
    u32 a = k & 1 ? TB : TA, b = k & 1 ? TA : TB, x = k & 2 ? DB : DA, y = k & 2 ? DA : DB;
    return fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, a, {mkraw(x, "abcdefghijklmnopqrstuvwxyz0123456789"), mkraw(y, "x")}), mkgroup(CATT, b, {mkgroup(FORM, b)}), mkgroup(LIST, a, {mkgroup(FORM, a, {mkgroup(FORM, b)})})}, {mkgroup(PROP, a, {mkraw(x, "p")})}));
}
struct Change { const char *name; std::function<bool(World&)> go; };
static bool put_raw(World &w, const char *at, u32 id, const char *d)
{
    Node *n = model_at(w.m, at); if(!n || (n->id != FORM && n->id != PROP)) return false; Node k = mkraw(id, d); IFF_Chunk *x = to_lib(k), *l = lib_at(w.l, at);
    bool ok = n->id == FORM ? IFF_addToForm((IFF_Form*)l, x) : IFF_addToProp((IFF_Prop*)l, x); n->kids.push_back(k); n->size += 8 + padded(k.size); if(!ok) w.refused = true; return true;
}
static bool put_group(World &w, const char *at, Node k, bool adapt = false)
{
    Node *n = model_at(w.m, at); if(!n || !n->is_group() || n->id == PROP || (k.id == PROP && n->id != LIST) || (adapt && n->id == FORM)) return false; fixsizes(k); IFF_Chunk *x = to_lib(k), *l = lib_at(w.l, at); bool ok;
    if(k.id == PROP) { for(auto &p : n->props) if(p.type == k.type) { IFF_free(x, nullptr); return false; } ok = IFF_addPropToList((IFF_List*)l, (IFF_Prop*)x); n->props.push_back(k); }
    else
    {
        if(adapt) { if(n->kids.empty()) n->type = k.type; else if(n->type != JJJJ && n->type != k.type) n->type = JJJJ; }
        ok = n->id == FORM ? IFF_addToForm((IFF_Form*)l, x) : n->id == CATT ? (adapt ? IFF_addToCATAndUpdateContentsType((IFF_CAT*)l, x) : IFF_addToCAT((IFF_CAT*)l, x)) : adapt ? IFF_addToListAndUpdateContentsType((IFF_List*)l, x) : IFF_addToList((IFF_List*)l, x);
        n->kids.push_back(k);
    }
    n->size += 8 + padded(k.size); if(!ok) w.refused = true; return true;
}
static void refit(World &w, std::string at) // the model of IFF_updateChunkSizes
{
    for(;;) { Node *n = model_at(w.m, at.c_str()); if(n->is_group()) { u64 s = 4; for(auto *v : {&n->props, &n->kids}) for(auto &k : *v) s += 8 + padded(k.size); n->size = s; } if(at.empty()) return; at.pop_back(); }
}
static bool update(World &w, const char *at) { if(!model_at(w.m, at)) return false; IFF_updateChunkSizes(lib_at(w.l, at)); refit(w, at); return true; }
static bool text(World &w, const char *at, const char *s) { Node *n = model_at(w.m, at); if(!n || n->is_group()) return false; n->data = s; n->size = n->data.size(); if(!IFF_setTextData((IFF_RawChunk*)lib_at(w.l, at), s)) w.refused = true; return true; }
static bool retype(World &w, const char *at, u32 t) { Node *n = model_at(w.m, at); if(!n || !n->is_group() || n->type == t) return false; n->type = t; ((IFF_Group*)lib_at(w.l, at))->groupType = t; return true; }
static bool swapped(World &w, const Node &n, bool read) { w.drop(); w.m = n; w.l = read ? read_bytes(ser(n)) : to_lib(n); if(!w.l) w.refused = true; return true; }

static const std::vector<Change> &changes()
{
    static std::vector<Change> v = {
        {"adding DATA to the first FORM", [](World &w) { return put_raw(w, "0", DA, "new"); }},
        {"adding DATC to the nested FORM", [](World &w) { return put_raw(w, "20", DC, ""); }},
        {"adding DATA to the FORM in the CAT", [](World &w) { return put_raw(w, "10", DA, "in"); }},
        {"adding DATB to the PROP", [](World &w) { return put_raw(w, "a", DB, "pp"); }},
        {"adding a PROP of the other type", [](World &w) { return put_group(w, "", mkgroup(PROP, w.m.props[0].type == TA ? TB : TA, {mkraw(DA, "r"), mkraw(DB, "s")})); }},
        {"adding a PROP to the inner LIST", [](World &w) { return put_group(w, "2", mkgroup(PROP, TA, {mkraw(DA, "inner")})); }},
        {"adding a FORM to the first FORM", [](World &w) { return put_group(w, "0", mkgroup(FORM, TB, {mkraw(DA, "n")})); }},
        {"adding a FORM and adapting the LIST", [](World &w) { return put_group(w, w.shape ? "" : "2", mkgroup(FORM, TC), true); }},
        {"adding a FORM and adapting the CAT", [](World &w) { return put_group(w, "1", mkgroup(FORM, TA), true); }},
        {"replacing the text", [](World &w) { return text(w, "00", "a text that is much longer than the groups that it is a part of were before it had been set: 0123456789 0123456789 0123456789 0123456789 0123456789"); }},
        {"replacing the text of the property", [](World &w) { return !w.m.props[0].kids.empty() && text(w, "a0", w.m.props[0].kids[0].data == "q" ? "pq" : "q"); }},
        {"changing a byte in place", [](World &w) { Node *n = model_at(w.m, "00"); n->data[0] ^= 1; ((IFF_RawChunk*)lib_at(w.l, "00"))->chunkData[0] ^= 1; return true; }},
        {"changing the type of the first FORM", [](World &w) { return retype(w, "0", w.m.kids[0].type == TA ? TB : TA); }},
        {"changing the type of the PROP", [](World &w) { u32 t = w.m.props[0].type == TA ? TB : TA; return w.m.props.size() == 1 && retype(w, "a", t); }},
        {"changing the ID of a chunk", [](World &w) { Node *n = model_at(w.m, "00"); n->id = n->id == DA ? DC : DA; lib_at(w.l, "00")->chunkId = n->id; return true; }},
        {"making a size outdated", [](World &w) { const char *p = w.shape ? "0" : "20"; Node *n = model_at(w.m, p); n->size += 2; lib_at(w.l, p)->chunkSize += 2; return true; }},
        {"updating the sizes from the first FORM", [](World &w) { return update(w, "00"); }},
        {"updating the sizes from the nested FORM", [](World &w) { return update(w, "20"); }},
        {"updating the sizes from the PROP", [](World &w) { return update(w, "a0"); }},
        {"freeing it and building another one", [](World &w) { return swapped(w, variant(w.m.props[0].type == TA ? 1 : 0, w.shape), false); }},
        {"freeing it and building one with other IDs", [](World &w) { return swapped(w, variant(w.m.kids[0].kids[0].id == DA ? 2 : 0, w.shape), false); }},
        {"freeing it and reading another one", [](World &w) { return swapped(w, variant(w.m.props[0].type == TA ? 3 : 0, w.shape), true); }},
        {"an addition without memory", [](World &w) { al_begin(-1); IFF_Chunk *x = to_lib(mkraw(DA, "z")); unsigned long k = al_count(); al_fail(k + 1, 1); bool r = IFF_addToForm((IFF_Form*)lib_at(w.l, "0"), x); al_fail(0, 0); al_end(); if(r) { Node *n = model_at(w.m, "0"); n->kids.push_back(mkraw(DA, "z")); n->size += 10; } else IFF_free(x, nullptr); return true; }},
        {"a failing read", [](World &w) { std::string s = ser(variant(1, w.shape)); if(read_bytes(s.substr(0, s.size() - 3))) w.refused = true; return true; }},
        {"a failing write", [](World &w) { std::string b; if(write_bytes(w.l, b, nullptr, false, 30)) w.refused = true; return true; }},
    };
    return v;
}
static const std::vector<Query> &queries()
{
    static std::vector<Query> v; if(!v.empty()) return v;
    v.push_back({TWIN, "", 0}); v.push_back({OTHER, "", 0}); v.push_back({SELF, "", 0});
    for(Kind k : {WRITE, PRINT, CHECK}) for(const char *p : {"", "0", "2"}) v.push_back({k, p, 0});
    for(const char *p : {"0", "10", "20", "200", "02"}) for(u32 id : {DA, DB, DC}) if(id != DC || p[0] == '2') v.push_back({GET, p, id});
    for(u32 id : {DA, DB}) { v.push_back({OWN, "0", id}); v.push_back({ALL, "0", id}); v.push_back({FROMPROP, "a", id}); }
    v.push_back({ALL, "20", DC}); v.push_back({FROMPROP, "2a", DA});
    for(u32 id : {TA, TB}) { v.push_back({PROPOF, "", id}); v.push_back({SEARCH, "", id}); v.push_back({SEARCH, "2", id}); v.push_back({SEARCH, "0", id}); v.push_back({SEARCH2, "", id}); } v.push_back({PROPOF, "2", TA}); v.push_back({SEARCH, "1", TA}); v.push_back({SEARCH, "", TC});
    return v;
}
static void start(World &w, int shape) { w.shape = shape; w.build(variant(0, shape)); w.other = variant(0, shape); w.o = to_lib(w.other); }
static void whole(Ctx &c, World &w, const std::string &h) { std::string bad; Node g = from_lib(w.l, nullptr, &bad); if(!bad.empty() || !(g == w.m)) c.fail("it is %s instead of %s %s, after: %s", desc(g).c_str(), desc(w.m).c_str(), bad.c_str(), h.c_str()); }

// all sequences of D changes after the first ones; f: what is asked before the first and after each change
static u64 sequences(Ctx &c, int shape, int D, std::vector<int> s, const std::function<void(World&, int, const std::string&)> &f, bool state)
{
    auto &C = changes(); u64 n = 0;
    std::function<void()> rec = [&]()
    {
        if((int)s.size() < D) { for(size_t i = 0; i < C.size(); i++) { s.push_back(i); rec(); s.pop_back(); } return; }
        al_begin(0xA5); al_end(); World w; start(w, shape); std::string h; f(w, 0, "nothing");
        for(size_t i = 0; i < s.size(); i++) { if(!C[s[i]].go(w)) return; /* does not apply */ h += (i ? ", " : "") + std::string(C[s[i]].name); if(w.refused) c.fail("%s: the last one has the wrong outcome: %s", h.c_str(), g_diag.c_str()); f(w, i + 1, h); }
        whole(c, w, h); n++; c.trans(D); if(state) c.state(hash_str(pp(w.m)));
    };
    rec(); return n;
}

// ---- moves: the hierarchy becomes part of another one, which ends, and others are built in its place
static const int WRAPS = 8;
static std::string wrap(World &w, int k) // returns the place of the old root
{
    auto pr = [](u32 t, u32 id) { return mkgroup(PROP, t, {mkraw(id, "shared")}); }; Node n = w.m, m; size_t at = 0;
    switch(k)
    {
        case 0: m = mkgroup(FORM, TA, {n}); break;
        case 1: m = mkgroup(CATT, JJJJ, {n}); break;
        case 2: m = mkgroup(LIST, JJJJ, {n}); break;
        case 3: m = mkgroup(LIST, TA, {n}, {pr(TA, DA)}); break;
        case 4: m = mkgroup(LIST, JJJJ, {n}, {pr(TB, DA), pr(TA, DB)}); break;
        case 5: m = mkgroup(LIST, JJJJ, {mkgroup(FORM, TA), n}, {pr(TA, DB), pr(TB, DB)}); at = 1; break;
        case 6: m = mkgroup(CATT, TB, {mkgroup(FORM, TB), n}); at = 1; break;
        default: m = mkgroup(FORM, TB, {mkraw(DA, "own"), n}); at = 1; break;
    }
    Node e = m; e.kids.clear(); e.props.clear(); e.size = 4; IFF_Chunk *l = to_lib(e); bool ok = true;
    for(auto &p : m.props) { fixsizes(p); ok = ok && IFF_addPropToList((IFF_List*)l, (IFF_Prop*)to_lib(p)); }
    for(size_t i = 0; i < m.kids.size(); i++) { Node x = m.kids[i]; if(i != at) fixsizes(x); IFF_Chunk *y = i == at ? w.l : to_lib(x); ok = ok && (m.id == FORM ? IFF_addToForm((IFF_Form*)l, y) : m.id == CATT ? IFF_addToCAT((IFF_CAT*)l, y) : IFF_addToList((IFF_List*)l, y)); }
    if(!ok) w.refused = true; fixsizes(m); w.m = m; w.l = l; return std::string(1, '0' + at);
}
static void places(const Node &n, const std::string &p, std::vector<std::string> &v) { if(!n.is_group() || n.kids.size() + n.props.size() > 9) return; v.push_back(p); for(size_t i = 0; i < n.kids.size(); i++) places(n.kids[i], p + char('0' + i), v); for(size_t i = 0; i < n.props.size(); i++) places(n.props[i], p + char('a' + i), v); }

void mc_main(Engine &E)
{
    bool T = E.thorough; n_reused = E.counter("hierarchies_at_the_address_of_a_freed_one"); n_queries = E.counter("inspections_asked");
    E.assume("the fields of the structures are changed only between operations, and to values that the building functions could have given them");
    E.fact("changes", changes().size()); E.fact("inspections", queries().size()); u64 NC = changes().size(), NQ = queries().size();
    // 1. one inspection before and after each of a sequence of changes
    E.scene("same_inspection", NC * NQ * 2, [NC, NQ, T](Ctx &c)
    {
        const Query &q = queries()[c.job / NC % NQ]; u64 n = sequences(c, c.job / NC / NQ, T ? 4 : 3, {(int)(c.job % NC)}, [&](World &w, int, const std::string &h) { ask(c, w, q, h); }, false);
        c.execs(n); c.validated(n); if(c.noting()) c.note(q.text() + ", first change: " + changes()[c.job % NC].name);
    });
    // 2. everything is asked after each change, forwards and backwards
    E.scene("all_inspections", NC * NC * 2, [NC, NQ, T](Ctx &c)
    {
        u64 n = sequences(c, c.job / NC / NC, T ? 4 : 3, {(int)(c.job % NC), (int)(c.job / NC % NC)}, [&](World &w, int k, const std::string &h) { for(size_t i = 0; i < NQ; i++) ask(c, w, queries()[k & 1 ? NQ - 1 - i : i], h); }, true); c.execs(n); c.validated(n);
    });
    // 3. two inspections in turn
    E.scene("two_inspections", NQ * NQ * 2, [NQ](Ctx &c)
    {
        const Query &a = queries()[c.job / NQ % NQ], &b = queries()[c.job % NQ];
        u64 n = sequences(c, c.job / NQ / NQ, 2, {}, [&](World &w, int k, const std::string &h) { if(k != 1) ask(c, w, a, h); if(k) ask(c, w, b, h); }, false); c.execs(n); c.validated(n);
    });
    // 4. hierarchies that are built where freed ones were: every ordered pair of a family, every inspection of both
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(DB, "yz")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; static std::vector<Node> v = Trees(a).upto(T ? 3 : 2); { Alphabet b = a; b.raws = {mkraw(DA, "x")}; b.conttypes = {TB}; for(auto &t : Trees(b).upto(3)) v.push_back(t); }
        E.fact("reuse_family", v.size());
        E.scene("reused_memory", v.size(), [](Ctx &c)
        {
            static const Query qs[] = {{WRITE, "", 0}, {PRINT, "", 0}, {CHECK, "", 0}, {TWIN, "", 0}, {SELF, "", 0}, {OTHER, "", 0}, {GET, "", DA}, {GET, "0", DA}, {GET, "0", DB}, {OWN, "", DB}, {ALL, "", DA}, {PROPOF, "", TA}, {PROPOF, "", TB}, {SEARCH, "", TA}, {SEARCH, "", TB}, {SEARCH, "0", TA}, {SEARCH2, "", TB}, {FROMPROP, "a", DA}};
            const Node &x = v[c.job]; u64 n = 0;
            for(auto &y : v) for(auto &q : qs)
            {
                World w; w.build(x); w.other = x; w.o = to_lib(x); IFF_Chunk *old = w.l; ask(c, w, q, "building it"); w.drop(); w.build(y); if(w.l == old) (*n_reused)++;
                ask(c, w, q, "the same inspection of " + desc(x) + ", which was freed"); n++; c.trans(2);
                w.drop(); w.m = y; w.l = read_bytes(ser(y)); if(!w.l) c.fail("cannot read %s", desc(y).c_str()); if(w.l == old) (*n_reused)++; ask(c, w, q, "the same inspection of freed ones, reading it");
            }
            c.execs(n); c.validated(n); c.state(hash_str(ser(x))); if(c.noting()) c.note(desc(x));
        });
    }
    // 4b. groups of many members, each with an identifier of its own: every sequence of two look-ups, wherever the members are
    {
        static const std::vector<int> sizes = T ? std::vector<int>{15, 16, 17, 33, 64, 65, 66, 100, 128, 129, 200, 257, 300, 513, 1025} : std::vector<int>{9, 16, 17, 33, 65, 66, 129, 257, 300}; static const int ways = 7;
        E.scene("large", sizes.size() * ways, [](Ctx &c)
        {
            int N = sizes[c.job / ways], way = c.job % ways; u64 n = 0; auto id = [](int i) { return mkid("D000") + (u32)(i % 10) + ((u32)(i / 10 % 10) << 8) + ((u32)(i / 100 % 10) << 16) + ((u32)(i / 1000) << 24); }; Node m;
            // 0, 1, 2: chunks of a FORM, by the three functions; 3: chunks of a PROP; 4: PROPs of a LIST; 5: chunks of a shared PROP, for a FORM; 6: FORMs of a CAT
            std::vector<Node> k; for(int i = 0; i < N; i++) k.push_back(way < 4 || way == 5 ? mkraw(id(i), std::string(i % 3, 'a' + i % 26)) : mkgroup(way == 4 ? PROP : FORM, id(i), {mkraw(DA, std::string(i % 2, 'p'))}));
            if(way < 3) m = mkgroup(LIST, TA, {mkgroup(FORM, TA, k)}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}); else if(way == 3 || way == 5) m = mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, k)}); else if(way == 4) m = mkgroup(LIST, JJJJ, {mkgroup(FORM, TA)}, k); else m = mkgroup(CATT, JJJJ, k);
            fixsizes(m); al_begin(0xA5);
            {
                Chunk w(to_lib(m)), twin(to_lib(m)); IFF_List *l = (IFF_List*)w.c; IFF_Form *f = way < 6 ? (IFF_Form*)l->chunk[0] : nullptr; IFF_Chunk **v = way < 3 ? f->chunk : way == 3 || way == 5 ? l->prop[0]->chunk : way == 4 ? (IFF_Chunk**)l->prop : ((IFF_CAT*)w.c)->chunk;
                std::vector<IFF_Chunk*> was(v, v + N); if(!was[N - 1]) abort();
                auto q = [&](int i, bool second) -> void
                {
                    u32 x = i < N ? id(i) : mkid("NONE"); IFF_Chunk *want = i < N ? was[i] : nullptr, *got = nullptr; unsigned len = 9;
                    if(way == 0 || way == 5) got = IFF_getChunkFromForm(f, x); else if(way == 1) got = IFF_getDataChunkFromForm(f, x);
                    else if(way == 2) { IFF_Chunk **r = IFF_getChunksFromForm(f, x, &len); got = len == 1 && r ? r[0] : nullptr; if(len != (i < N)) c.fail("%d of %d members: the collection has %u chunks", i, N, len); free(r); }
                    else if(way == 3) got = IFF_getChunkFromProp(l->prop[0], x); else if(way == 4) got = (IFF_Chunk*)IFF_getPropFromList(l, x); else { IFF_Form **r = IFF_searchForms(w, x, &len); got = len == 1 && r ? (IFF_Chunk*)r[0] : nullptr; free(r); }
                    n++; if(got != want) c.fail("look-up %d: member %d of %d is %s%s", way, i, N, got ? "another one" : "not found", second ? " the second time" : ""); if(memcmp(v, was.data(), N * sizeof *v)) c.fail("look-up %d of member %d of %d changes the order of the members", way, i, N);
                };
                for(int i = 0; i <= N; i++) for(int j = 0; j <= N; j++) { if(N > 130 && i > 3 && i < N - 2 && i % 64 > 2 && j > 3 && j < N - 2 && j % 64 > 2 && i != j && i != j + 1 && j != i + 1) continue; q(i, false); q(j, false); q(i, true); }
                std::string bad; Node g = from_lib(w, nullptr, &bad); if(!bad.empty() || !(g == m)) c.fail("looking up changed the hierarchy"); std::string b; if(!write_bytes(w, b) || b != ser(m)) c.fail("after looking up, the hierarchy is written differently"); if(print_text(w) != pp(m, 0)) c.fail("after looking up, the hierarchy is printed differently"); if(!IFF_compare(w, twin, nullptr) || !IFF_compare(twin, w, nullptr)) c.fail("after looking up, the hierarchy differs from an equal one"); if((bool)IFF_check(w, nullptr) != conform(m)) c.fail("after looking up, the check judges differently");
            }
            if(al_live()) c.fail("memory left"); al_end(); *n_queries += n; c.trans(n); c.execs(n); c.validated(n); c.state(c.job); c.note(fmt("%d members, look-up %d", N, way));
        });
    }
    // 5. one and the same question, while the hierarchy becomes part of others, and after those have been freed and others built
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(DB, "yz")}; a.formtypes = {TA, TB}; a.conttypes = {TA}; static std::vector<Node> v = Trees(a).upto(T ? 4 : 3);
        E.fact("moved_hierarchies", v.size());
        E.scene("moves", v.size() * WRAPS, [](Ctx &c)
        {
            const Node &t = v[c.job / WRAPS]; int k1 = c.job % WRAPS; u64 n = 0; std::vector<std::string> ps; places(t, "", ps);
            for(auto &p : ps) for(Kind k : {GET, OWN, SEARCH, CHECK, PRINT, WRITE, TWIN}) for(u32 id : {DA, DB, TA})
            {
                const Node *x = model_at(const_cast<Node&>(t), p.c_str()); if((k == GET || k == OWN) && (x->id != FORM || id == TA)) continue; if(k != GET && k != OWN && id != TA) continue;
                for(int k2 = -1; k2 < WRAPS; k2++) for(int k3 = 0; k3 < WRAPS; k3++)
                {
                    al_begin(0xA5); al_end(); World w; std::string at = p, h; auto say = [&](const char *s) { h += h.empty() ? s : fmt(", %s", s); };
                    auto q = [&] { ask(c, w, Query{k, at.c_str(), k == SEARCH || k == GET || k == OWN ? id : 0}, h.empty() ? "nothing" : h); };
                    auto in = [&](int kind) { at = wrap(w, kind) + at; if(w.refused) c.fail("cannot add"); say(fmt("the same, adding it to group kind %d", kind).c_str()); };
                    w.build(t); q(); in(k1); q(); if(k2 >= 0) { in(k2); q(); }
                    IFF_Chunk *old = w.l; w.drop(); say("freeing all"); at = p; w.build(t); in(k3); if(w.l == old) (*n_reused)++; q(); say("the same"); q(); n++; c.trans(4 + (k2 >= 0));
                }
            }
            c.execs(n); c.validated(n); c.state(comb(hash_str(ser(t)), k1)); if(c.noting()) c.note(desc(t));
        });
    }
}
