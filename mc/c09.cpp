// C09: form search returns exactly the outermost matching forms in document order.
#include "api.hpp"
using namespace mc;

struct Pair { const Node *n; IFF_Chunk *l; };
static void pairup(const Node &n, IFF_Chunk *l, std::vector<Pair> &v)
{
    v.push_back({&n, l}); if(!n.is_group()) return;
    IFF_Group *g = (IFF_Group*)l;
    for(size_t i = 0; i < n.props.size(); i++) pairup(n.props[i], (IFF_Chunk*)((IFF_List*)l)->prop[i], v);
    for(size_t i = 0; i < n.kids.size(); i++) pairup(n.kids[i], g->chunk[i], v);
}
typedef std::vector<u32> Set;
static bool in(const Set &s, u32 t) { for(u32 x : s) if(x == t) return true; return false; }
static void want_below(const Node &n, IFF_Chunk *l, const Set &s, std::vector<IFF_Form*> &out);
static void want_at(const Node &n, IFF_Chunk *l, const Set &s, std::vector<IFF_Form*> &out)
{
    if(n.id == FORM && in(s, n.type)) { out.push_back((IFF_Form*)l); return; }
    if(n.id == FORM || n.id == CATT || n.id == LIST) want_below(n, l, s, out);
}
static void want_below(const Node &n, IFF_Chunk *l, const Set &s, std::vector<IFF_Form*> &out) { for(size_t i = 0; i < n.kids.size(); i++) want_at(n.kids[i], ((IFF_Group*)l)->chunk[i], s, out); }

static void same(Ctx &c, const char *f, const Node &n, const Node &t, const Set &s, IFF_Form **got, unsigned len, const std::vector<IFF_Form*> &want)
{
    c.trans();
    std::string q; for(u32 x : s) q += idtext(x) + ",";
    bool ok = len == want.size() && (want.empty() || got != nullptr);
    for(size_t i = 0; ok && i < len; i++) if(got[i] != want[i]) ok = false;
    unsigned gl = len; free(got);
    if(!ok) c.fail("%s for {%s} in %s (part of %s) gives %u forms%s instead of the %zu outermost ones in document order", f, q.c_str(), desc(n).c_str(), desc(t).c_str(), gl, gl == want.size() ? " which are not" : "", want.size());
}
static u64 searches(Ctx &c, const Node &t, IFF_Chunk *l, const std::vector<Set> &sets, size_t limit)
{
    std::vector<Pair> v; pairup(t, l, v); u64 h = 7;
    for(size_t i = 0; i < v.size(); i++)
    {
        if(i > limit && i + limit < v.size()) continue;
        const Node &n = *v[i].n; IFF_Chunk *x = v[i].l;
        for(const Set &s : sets)
        {
            std::vector<IFF_Form*> w, wb; want_at(n, x, s, w); if(n.is_group()) want_below(n, x, s, wb);
            const IFF_ID dummy = 0; const IFF_ID *p = s.empty() ? &dummy : s.data(); unsigned k = s.size(), len; IFF_Form **r;
            len = 4711; r = IFF_searchFormsFromArray(x, p, k, &len); same(c, "IFF_searchFormsFromArray", n, t, s, r, len, w);
            if(k == 1) { len = 4711; r = IFF_searchForms(x, s[0], &len); same(c, "IFF_searchForms", n, t, s, r, len, w); }
            if(n.id == FORM) { len = 4711; r = IFF_searchFormsInForm((IFF_Form*)x, p, k, &len); same(c, "IFF_searchFormsInForm", n, t, s, r, len, w); }
            if(n.id == CATT) { len = 4711; r = IFF_searchFormsInCAT((IFF_CAT*)x, p, k, &len); same(c, "IFF_searchFormsInCAT", n, t, s, r, len, w); }
            if(n.id == LIST) { len = 4711; r = IFF_searchFormsInList((IFF_List*)x, p, k, &len); same(c, "IFF_searchFormsInList", n, t, s, r, len, w); }
            if(n.is_group() && n.id != PROP) { len = 4711; r = IFF_searchFormsInGroup((IFF_Group*)x, p, k, &len); same(c, "IFF_searchFormsInGroup", n, t, s, r, len, wb); }
            h = comb(h, w.size() * 131 + wb.size());
        }
    }
    return h;
}
static void judge(Ctx &c, const Node &t, const std::vector<Set> &sets, bool read_too, size_t limit = 1000000)
{
    diag_begin(); al_begin(0xA5); al_cap((size_t)1 << 28);
    {
        Chunk a(to_lib(t)); diag_begin(); std::string bad; Node m0 = from_lib(a, nullptr, &bad);
        u64 h = searches(c, t, a, sets, limit);
        Node m1 = from_lib(a, nullptr, &bad);
        if(!(m0 == m1) || !bad.empty()) c.fail("searching changed the hierarchy %s", desc(t).c_str());
        if(h != searches(c, t, a, sets, limit)) c.fail("repeating the search gives another result in %s", desc(t).c_str());
        if(read_too) { Chunk b(read_bytes(ser(t))); if(!b.c) c.fail("cannot read %s", desc(t).c_str()); searches(c, t, b, sets, limit); }
        c.state(comb(hash_str(ser(t)), h));
    }
    if(g_diag_calls) c.fail("searching emits diagnostics: %s", g_diag.c_str());
    if(al_live()) c.fail("%lu blocks stay allocated after searching and freeing %s", al_live(), desc(t).c_str());
    al_end(); c.validated();
    if(c.noting()) c.note(desc(t));
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("memory is available (C06); the returned arrays belong to the caller");
    static const std::vector<Set> sets = {{}, {TA}, {TB}, {TC}, {TA, TB}, {TB, TA}, {TA, TA}, {TB, TC, TA}, {TC, DA, FORM, LIST}, {JJJJ}, {(u32)0}};
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TA, "yy")}; a.formtypes = {TA, TB}; a.conttypes = {JJJJ, TA};
        static std::vector<Node> legal = Trees(a).upto(T ? 6 : 5);
        E.fact("legal_trees", legal.size());
        E.scene("legal", (legal.size() + 63) / 64, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 64; i < legal.size() && i < c.job * 64 + 64; i++) { judge(c, legal[i], sets, true); n++; } c.execs(n); });
        a.legal_only = false; a.raws = {mkraw(TA, "x")}; a.conttypes = {TA};
        static std::vector<Node> any = Trees(a).upto(T ? 5 : 4);
        E.fact("arbitrary_trees", any.size());
        E.scene("arbitrary", (any.size() + 63) / 64, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 64; i < any.size() && i < c.job * 64 + 64; i++) { judge(c, any[i], sets, false); n++; } c.execs(n); });
        // only groups: deeper nesting and longer member lists
        a.legal_only = true; a.raws.clear(); a.prop = false; a.conttypes = {JJJJ};
        static std::vector<Node> deep = Trees(a).upto(T ? 7 : 6);
        E.fact("group_trees", deep.size());
        E.scene("groups", (deep.size() + 63) / 64, [](Ctx &c) { static const std::vector<Set> few = {{TA}, {TB}, {TB, TA}}; u64 n = 0; for(u64 i = c.job * 64; i < deep.size() && i < c.job * 64 + 64; i++) { judge(c, deep[i], few, false); n++; } c.execs(n); });
    }
    // the decision depends on all bits of the type, at every place of the type array
    E.scene("types", 32 * 17, [](Ctx &c)
    {
        u32 bit = 1u << (c.job % 32); int at = c.job / 32; u64 n = 0;
        Node t = mkgroup(LIST, JJJJ, {mkgroup(FORM, TA ^ bit, {mkgroup(FORM, TA, {mkraw(DA, "1")})}), mkgroup(CATT, TA, {mkgroup(FORM, TA), mkgroup(FORM, TA ^ bit)}), mkgroup(FORM, TB, {mkgroup(CATT, TB, {mkgroup(FORM, TA)})})}, {mkgroup(PROP, TA, {mkraw(TA, "p")})});
        Set s; for(int i = 0; i < 17; i++) s.push_back(i == at ? TA : mkid("Q\0\0\0") + i);
        Set r = s; r[at] = TA ^ bit; r.resize(at + 1);
        judge(c, fixed(t), {s, r, {TA ^ bit}, {TA ^ bit, TA}}, true); n++;
        // only the FORM ID makes a match
        Node u = mkgroup(CATT, JJJJ, {mkgroup(FORM, TB, {mkraw(FORM ^ bit, "TSTA"), mkraw(CATT ^ bit, "x"), mkgroup(FORM, TA), mkraw(LIST ^ bit, "TSTA")})});
        bool clash = false; for(u32 k : {FORM ^ bit, CATT ^ bit, LIST ^ bit}) if(k == FORM || k == CATT || k == LIST || k == PROP) clash = true;
        if(!clash) { judge(c, fixed(u), {s, {TA}}, true); n++; }
        c.execs(n);
    });
    {
        static std::vector<Big> big = big_trees(T, 70000);
        // matches spread over several siblings: every distribution of up to 3 clusters of matches
        static std::vector<Node> spread; int M = T ? 9 : 6;
        for(int x = 0; x <= M; x++) for(int y = 0; y <= M; y++) for(int z = 0; z <= M; z++)
            for(u32 g : {CATT, LIST, FORM}) { auto cl = [&](int k) { Node n = mkgroup(g, g == FORM ? TB : JJJJ); for(int i = 0; i < k; i++) n.kids.push_back(mkgroup(FORM, i % 3 == 2 ? TC : TA)); return n; }; spread.push_back(fixed(mkgroup(g, g == FORM ? TB : JJJJ, {cl(x), mkgroup(FORM, TA), cl(y), cl(z)}))); }
        E.fact("spread_trees", spread.size());
        E.scene("spread", (spread.size() + 15) / 16, [](Ctx &c) { static const std::vector<Set> few = {{TA}, {TC, TA}}; u64 n = 0; for(u64 i = c.job * 16; i < spread.size() && i < c.job * 16 + 16; i++) { judge(c, spread[i], few, false); n++; } c.execs(n); });
        E.scene("large", big.size(), [](Ctx &c) { static const std::vector<Set> few = {{TA}, {TB}, {TB, TA}, {TC}}; c.note(big[c.job].name); judge(c, big[c.job].n, few, true, 20); });
    }
    // every number of results found so far meets every small number of further ones
    E.scene("counts", T ? 700 : 300, [](Ctx &c)
    {
        static const std::vector<Set> few = {{TA}, {TC, TA}}; u64 n = 0; int x = c.job;
        for(int y : {0, 1, 2, 3, 4, 31, 257}) for(u32 g : {CATT, LIST})
        {
            auto cl = [&](int k) { Node q = mkgroup(g, JJJJ); for(int i = 0; i < k; i++) q.kids.push_back(mkgroup(FORM, i % 5 == 4 ? TC : TA)); return q; };
            Node t = mkgroup(g, JJJJ, {cl(x), cl(y)}); if(y == 2) t.kids.push_back(mkgroup(FORM, TB, {cl(1), cl(2)}));
            judge(c, fixed(t), few, false, 1); n++;
        }
        c.execs(n); c.note(fmt("%d matches first", x));
    });
    // very many results that come from a nested group, with others before and behind
    {
        static const int N[] = {32767, 32768, 65534, 65535, 65536, 65537, 70001, 131073}; static const int NN = T ? 8 : 7;
        E.scene("many_nested_results", NN * 9, [](Ctx &c)
        {
            static const u32 gs[] = {CATT, LIST, FORM}; int k = N[c.job / 9]; u32 g1 = gs[c.job / 3 % 3], g2 = gs[c.job % 3]; u64 n = 0; static const std::vector<Set> few = {{TA}, {TC, TA}};
            Node in = mkgroup(g2, g2 == FORM ? TB : JJJJ); for(int i = 0; i < k; i++) in.kids.push_back(mkgroup(FORM, i % 5 == 4 ? TC : TA));
            Node t = mkgroup(g1, g1 == FORM ? TB : JJJJ, {mkgroup(FORM, TA), in, mkgroup(FORM, TC)}); judge(c, fixed(t), few, false, 2); n++;
            t = mkgroup(g2, g2 == FORM ? TB : JJJJ, {t}); judge(c, fixed(t), few, false, 1); n++;
            c.execs(n); c.note(fmt("%d forms", k));
        });
    }
    // the search follows the members, whatever sizes the groups state at the moment
    {
        Alphabet a; a.raws = {mkraw(DA, "x")}; a.formtypes = {TA, TB}; a.conttypes = {JJJJ};
        static std::vector<Node> st = Trees(a).upto(T ? 5 : 4); E.fact("trees_with_stale_sizes", st.size());
        E.scene("stale_sizes", (st.size() + 15) / 16, [](Ctx &c)
        {
            static const std::vector<int> sizes = {0, 1, 3, 4, 5, 8, 11, 12, -1, -2, INT32_MIN, INT32_MAX, 65536}; static const std::vector<Set> few = {{TA}, {TB, TA}}; u64 n = 0;
            for(u64 i = c.job * 16; i < st.size() && i < c.job * 16 + 16; i++)
            {
                Node t = st[i]; std::vector<Node*> g; flatten(t, g); size_t gs = 0; for(Node *q : g) if(q->is_group()) gs++;
                for(int z : sizes)
                {
                    for(Node *q : g) if(q->is_group()) { int old = q->size; q->size = z; judge(c, t, few, false); n++; q->size = old; }
                    if(gs > 1) { std::vector<int> old; for(Node *q : g) { old.push_back(q->size); if(q->is_group()) q->size = z; } judge(c, t, few, false); n++; for(size_t k = 0; k < g.size(); k++) g[k]->size = old[k]; }
                }
            }
            c.execs(n);
        });
    }
    // arrays of very many form types: the matching one at every kind of place
    E.scene("many_types", 24, [T](Ctx &c)
    {
        static const int lens[] = {15, 16, 17, 63, 64, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 767, 1024, 4096, 4097, 65535, 65536, 65537, 66000}; u64 n = 0; int k = lens[c.job];
        Node t = fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkgroup(FORM, TA)}), mkgroup(FORM, TB, {mkgroup(CATT, JJJJ, {mkgroup(FORM, TA), mkgroup(FORM, TC)})}), mkgroup(CATT, JJJJ, {mkgroup(FORM, TB)})}, {mkgroup(PROP, TA)}));
        Set none; for(int i = 0; i < k; i++) none.push_back(mkid("Q\0\0\0") + i);
        std::vector<int> at = {0, 1, k / 2, k - 2, k - 1}; for(int p : {126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536}) if(p < k) at.push_back(p); if(T && k < 600) { at.clear(); for(int p = 0; p < k; p++) at.push_back(p); }
        std::vector<Set> q = {none}; for(int p : at) { Set s = none; s[p] = TA; q.push_back(s); s[k - 1 - p] = TC; q.push_back(s); }
        for(auto &s : q) { judge(c, t, {s}, k < 600, 1000); n++; }
        c.execs(n); c.note(fmt("%d form types", k));
    });
    // merging arrays: every pair of lengths
    E.scene("merge", T ? 65 : 33, [T](Ctx &c)
    {
        u64 n = 0; int a = c.job; static char cell[300];
        for(int b = 0; b <= (T ? 130 : 40); b++)
        {
            al_begin(0xA5); IFF_Form **t = a ? (IFF_Form**)malloc(0) : nullptr; if(a) { free(t); t = nullptr; unsigned k = 0; std::vector<IFF_Form*> one(a); for(int i = 0; i < a; i++) one[i] = (IFF_Form*)&cell[i]; t = IFF_mergeFormArray(nullptr, &k, one.data(), a); if(k != (unsigned)a) c.fail("merging %d forms into nothing gives %u", a, k); }
            std::vector<IFF_Form*> s(b + 1); for(int i = 0; i < b; i++) s[i] = (IFF_Form*)&cell[100 + i];
            unsigned len = a; t = IFF_mergeFormArray(t, &len, b ? s.data() : nullptr, b);
            if(len != (unsigned)(a + b)) c.fail("merging %d and %d forms gives %u", a, b, len);
            for(int i = 0; i < a + b; i++) if((char*)t[i] != &cell[i < a ? i : 100 + i - a]) c.fail("merging %d and %d forms: element %d is wrong", a, b, i);
            free(t); if(al_live()) c.fail("merging %d and %d forms leaves memory allocated", a, b); al_end(); c.trans(); n++;
        }
        c.state(a); c.execs(n);
    });
}
