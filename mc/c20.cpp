// C20: every part of a hierarchy means the same on its own as inside it.
#include "api.hpp"
#include "ext.hpp"
#include "giant.hpp"
using namespace mc;

struct Pair { const Node *n; IFF_Chunk *l; };
static void pairup(const Node &n, IFF_Chunk *l, std::vector<Pair> &v)
{
    v.push_back({&n, l}); if(!n.is_group()) return;
    IFF_Group *g = (IFF_Group*)l;
    for(size_t i = 0; i < n.props.size(); i++) pairup(n.props[i], (IFF_Chunk*)((IFF_List*)l)->prop[i], v);
    for(size_t i = 0; i < n.kids.size(); i++) pairup(n.kids[i], g->chunk[i], v);
}
static std::string W(Ctx &c, const char *how, const Node &n, IFF_Chunk *l, const Node &t, const IFF_ChunkRegistry *reg = nullptr)
{
    std::string b; c.trans(); diag_begin(); if(!write_bytes(l, b, reg)) c.fail("%s: writing %s, a part of %s, fails: %s", how, desc(n).c_str(), desc(t).c_str(), g_diag.c_str()); return b;
}
// everything that can be asked of one part; e: what the model says
static void part(Ctx &c, const char *how, const Node &n, IFF_Chunk *l, const Node &t, bool check, unsigned ind, const IFF_ChunkRegistry *reg = nullptr)
{
    std::string b = W(c, how, n, l, t, reg), w = ser(n);
    if(b != w) c.fail("%s: %s, a part of %s, is written as %s instead of %s", how, desc(n).c_str(), desc(t).c_str(), hex(b).c_str(), hex(w).c_str());
    if(check) { diag_begin(); bool got = IFF_check(l, reg), want = conform(n); c.trans(); if(got != want) c.fail("%s: %s, a part of %s, is %s", how, desc(n).c_str(), desc(t).c_str(), got ? "accepted although it is not valid" : ("refused although it is valid: " + g_diag).c_str()); }
    if(!reg) { std::string p = print_text(l, ind); c.trans(); if(p != pp(n, ind)) c.fail("%s: %s, a part of %s, is printed as\n%s\ninstead of\n%s", how, desc(n).c_str(), desc(t).c_str(), p.c_str(), pp(n, ind).c_str()); }
}
static void parts(Ctx &c, const char *how, const Node &t, IFF_Chunk *l, size_t limit = SIZE_MAX, bool check = true)
{
    std::vector<Pair> v; pairup(t, l, v); u64 h = 3;
    for(size_t i = 0; i < v.size(); i++)
    {
        if(i > limit && i + limit < v.size()) continue;
        const Node &n = *v[i].n; part(c, how, n, v[i].l, t, check, i % 3);
        // against a free-standing copy and against every other part
        { Chunk copy(to_lib(n)); diag_begin(); c.trans(2); if(!IFF_compare(v[i].l, copy, nullptr) || !IFF_compare(copy, v[i].l, nullptr)) c.fail("%s: %s, a part of %s, differs from a copy of its own", how, desc(n).c_str(), desc(t).c_str()); }
        for(size_t j = 0; j < v.size() && v.size() <= 12; j++) { bool want = n == *v[j].n, got = IFF_compare(v[i].l, v[j].l, nullptr); c.trans(); if(got != want) c.fail("%s: the parts %s and %s of %s compare %s", how, desc(n).c_str(), desc(*v[j].n).c_str(), desc(t).c_str(), got ? "equal" : "different"); }
        h = comb(h, hash_str(ser(n)));
    }
    std::string bad; Node after = from_lib(l, nullptr, &bad); if(!(after == t) || !bad.empty()) c.fail("%s: using the parts of %s changed it to %s (%s)", how, desc(t).c_str(), desc(after).c_str(), bad.c_str());
    c.state(h);
}
static void whole(Ctx &c, const Node &t, bool readable, size_t limit = SIZE_MAX, bool check = true)
{
    al_begin(0xA5); al_cap((size_t)1 << 28); diag_begin();
    {
        Chunk a(to_lib(t)); parts(c, "built", t, a, limit, check);
        if(readable)
        {
            Chunk b(read_bytes(ser(t))); if(!b.c) c.fail("cannot read %s: %s", desc(t).c_str(), g_diag.c_str()); parts(c, "read", t, b, limit, check);
            // a part that was written on its own is a file of its own
            std::vector<Pair> v; pairup(t, b, v);
            for(size_t i = 1; i < v.size(); i++)
            {
                if(i > limit && i + limit < v.size()) continue;
                diag_begin(); Chunk r(read_bytes(ser(*v[i].n))); c.trans(2); if(!r.c || g_diag_calls) c.fail("%s, written alone out of %s, cannot be read: %s", desc(*v[i].n).c_str(), desc(t).c_str(), g_diag.c_str());
                if(!IFF_compare(r, v[i].l, nullptr)) c.fail("%s, written alone out of %s, is read back differently", desc(*v[i].n).c_str(), desc(t).c_str());
                std::string bad; if(!(from_lib(r, nullptr, &bad) == *v[i].n) || !bad.empty()) c.fail("%s, written alone, comes back as %s", desc(*v[i].n).c_str(), desc(from_lib(r, nullptr, &bad)).c_str());
            }
        }
    }
    if(al_live()) { al_end(); c.fail("memory is left after using the parts of %s", desc(t).c_str()); }
    al_end(); c.validated(); if(c.noting()) c.note(desc(t));
}
// ---- moving a hierarchy into others does not change what it is
static const int NWRAP = 12;
struct Wrap { Node m; size_t at; }; // a group around a chunk that is its member number `at`
static Wrap wrap_model(const Node &n, int k)
{
    switch(k)
    {
        case 0: return {mkgroup(FORM, TA, {n}), 0};
        case 1: return {mkgroup(FORM, TB, {n}), 0};
        case 2: return {mkgroup(CATT, n.type, {n}), 0};
        case 3: return {mkgroup(CATT, JJJJ, {n}), 0};
        case 4: return {mkgroup(LIST, n.type, {n}), 0};
        case 5: return {mkgroup(LIST, JJJJ, {n}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}), 0};
        case 6: return {mkgroup(FORM, TA, {mkraw(DB, "odd"), n, mkraw(TEXT, "t")}), 1};
        case 7: return {mkgroup(CATT, TA, {mkgroup(FORM, TA), n}), 1};
        case 8: return {mkgroup(CATT, JJJJ, {n, mkgroup(FORM, TB, {mkraw(DA, "x")})}), 0};
        case 9: return {mkgroup(LIST, TB, {mkgroup(CATT, TB), n}, {mkgroup(PROP, TB)}), 1};
        case 10: return {mkgroup(FORM, mkid("bad!"), {n}), 0};                                     // the container is not valid
        default: return {mkgroup(LIST, TA, {n}, {mkgroup(PROP, TA), mkgroup(PROP, TA, {n})}), 0};  // nor this one
    }
}
static IFF_Chunk *attach(Ctx &c, const Wrap &w, IFF_Chunk *x)
{
    const Node &m = w.m; IFF_Chunk *g = m.id == FORM ? (IFF_Chunk*)IFF_createEmptyForm(m.type) : m.id == CATT ? (IFF_Chunk*)IFF_createEmptyCATWithContentsType(m.type) : (IFF_Chunk*)IFF_createEmptyListWithContentsType(m.type);
    for(auto &p : m.props) IFF_addPropToList((IFF_List*)g, (IFF_Prop*)to_lib(p));
    for(size_t i = 0; i < m.kids.size(); i++)
    {
        IFF_Chunk *y = i == w.at ? x : to_lib(m.kids[i]);
        if(!(m.id == FORM ? IFF_addToForm((IFF_Form*)g, y) : m.id == CATT ? IFF_addToCAT((IFF_CAT*)g, y) : IFF_addToList((IFF_List*)g, y))) c.fail("cannot add");
    }
    return g;
}
static void move_through(Ctx &c, const Node &t)
{
    // each wrapping, and each wrapping of a wrapping, of one and the same library object
    for(int k = 0; k < NWRAP; k++) for(int k2 = -1; k2 < NWRAP; k2++) for(int stale = 0; stale < (k2 < 0 ? 6 : 3); stale++)
    {
        al_begin(0xA5);
        {
            IFF_Chunk *l = to_lib(t); part(c, "alone", t, l, t, true, 0);
            Wrap w = wrap_model(t, k); fixsizes(w.m); IFF_Chunk *g = attach(c, w, l); if(stale) { static const IFF_Long z[] = {0, 0, 4, 0, 0x7ffffff0, -20}; g->chunkSize = stale == 1 ? g->chunkSize - 2 : z[stale]; } // a container with a wrong size
            part(c, "inside one group", t, l, w.m, true, k % 4);
            if(k2 >= 0)
            {
                Wrap w2 = wrap_model(w.m, k2); fixsizes(w2.m); IFF_Chunk *g2 = attach(c, w2, g);
                part(c, "inside two groups", t, l, w2.m, true, k2 % 3); if(!stale) part(c, "a group inside another", w.m, g, w2.m, true, 0);
                IFF_updateChunkSizes(l); part(c, "after updating sizes", t, l, w2.m, true, 1); part(c, "a group inside another, updated", w.m, g, w2.m, true, 1); part(c, "the outer group, updated", w2.m, g2, w2.m, true, 0);
                Chunk del(g2);
            }
            else Chunk del(g);
        }
        if(al_live()) { al_end(); c.fail("memory is left after moving %s", desc(t).c_str()); }
        al_end();
    }
    c.validated();
}
// ---- extension chunks: the handlers of a FORM's scope serve it wherever it is
static IFF_Chunk *ext_form(const std::vector<u32> &kids, u32 type)
{
    IFF_Form *f = IFF_createEmptyForm(type);
    for(u32 k : kids)
    {
        IFF_Chunk *x;
        if(k == ext::types[0].chunkId && type == TA) { ext::Exta *e = (ext::Exta*)ext::create(k, 12); e->a = 1; e->a2 = 2; e->b = 0x0304; e->c = 0x05060708; e->d = mkid("abcd"); x = (IFF_Chunk*)e; }
        else { x = IFF_createRawChunk(k, 12); IFF_copyDataToRawChunkData((IFF_RawChunk*)x, (IFF_UByte*)"\x01\x02\x03\x04\x05\x06\x07\x08" "abcd"); }
        IFF_addToForm(f, x);
    }
    return (IFF_Chunk*)f;
}

// ---- sizes at the limit of what a chunk can state: the verdict is that of the file it would be
static void giant(Ctx &c, const Gi &m)
{
    al_begin(0xA5);
    IFF_Chunk *l = gi_build(m); std::vector<std::pair<const Gi*, IFF_Chunk*>> v; gi_pairs(m, l, v);
    for(auto &p : v) if(p.first->group())
    {
        int32_t was = p.second->chunkSize; u64 t = p.first->size();
        for(int32_t s : {(int32_t)(u32)t, (int32_t)(u32)(t + 2), (int32_t)(u32)(t - 8), (int32_t)0x80000000, -1, 0x7fffffff, 0x7ffffffe, 0, 4})
        {
            p.second->chunkSize = s; bool want = true;
            for(auto &q : v) if(!q.first->fits() || q.first->size() != (u64)(int64_t)q.second->chunkSize) want = false;
            diag_begin(); bool got = IFF_check(l, nullptr) != 0; c.trans(); c.state(comb(hash_str(p.first->text()), comb(s, &p - &v[0])));
            if(got != want) c.fail("%s, whose part %s states size %d, is %s: %s", m.text().c_str(), p.first->text().c_str(), s, got ? "accepted although it is not valid" : "refused although it is valid", g_diag.c_str());
            if(!want && !g_diag_calls) c.fail("%s is refused without a diagnostic", m.text().c_str());
        }
        p.second->chunkSize = was;
    }
    gi_free(l); if(al_live()) c.fail("%lu blocks are never freed", al_live());
    al_end(); c.validated(); if(c.noting()) c.note(m.text());
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("property lookup and size updates look beyond the given part on purpose and have checks of their own (C07, C08)");
    {
        Alphabet a; a.raws = {mkraw(DA, "\x01\x9a\x03"), mkraw(TEXT, "")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
        static std::vector<Node> legal = Trees(a).upto(6);
        // deeper and longer ones over fewer types
        Alphabet na; na.raws = {mkraw(DA, "\x01\x9a\x03")}; na.formtypes = {TA}; na.conttypes = {JJJJ};
        static std::vector<Node> narrow; if(T) narrow = Trees(na).upto(7);
        a.legal_only = false; a.raws = {mkraw(DA, "z")}; a.formtypes = {TA, mkid("no.t")}; a.conttypes = {TA, TB};
        static std::vector<Node> any = Trees(a).upto(T ? 5 : 4);
        E.fact("legal_trees", legal.size()); E.fact("arbitrary_trees", any.size());
        E.scene("legal", (legal.size() + 15) / 16, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 16; i < legal.size() && i < c.job * 16 + 16; i++) { whole(c, legal[i], true); n++; } c.execs(n); });
        if(T) { E.fact("legal_trees_over_fewer_types", narrow.size()); E.scene("narrow", (narrow.size() + 15) / 16, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 16; i < narrow.size() && i < c.job * 16 + 16; i++) { whole(c, narrow[i], true); n++; } c.execs(n); }); }
        // parts of hierarchies that are not valid as a whole: each part is judged by itself
        E.scene("arbitrary", (any.size() + 15) / 16, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 16; i < any.size() && i < c.job * 16 + 16; i++) { whole(c, any[i], false); n++; } c.execs(n); });
        // stated sizes that do not fit, in hierarchies that are otherwise valid or not: the verdict about every part is that of its own file
        static std::vector<Node> st; for(size_t i = 0; i < legal.size() && legal[i].count() <= (T ? 5 : 4); i++) st.push_back(legal[i]); for(auto &t : any) { bool ok = true; std::function<void(const Node&)> bad = [&](const Node &x) { if(x.id == LIST) for(auto &q : x.kids) if(q.id == PROP) ok = false; for(auto &q : x.kids) bad(q); for(auto &q : x.props) bad(q); }; bad(t); if(ok) st.push_back(t); }
        E.fact("trees_with_stale_sizes", st.size());
        E.scene("stale", (st.size() + 7) / 8, [](Ctx &c)
        {
            u64 n = 0;
            for(u64 j = c.job * 8; j < st.size() && j < c.job * 8 + 8; j++)
            {
                Node t = st[j]; al_begin(0xA5); IFF_Chunk *l = to_lib(t); { std::vector<Pair> v; pairup(t, l, v); std::vector<Node*> f; flatten(t, f);
                auto verdicts = [&] { for(auto &p : v) { diag_begin(); bool want = conform(*p.n), got = IFF_check(p.l, nullptr) != 0; c.trans(); if(got != want) c.fail("%s, a part of %s, is %s: %s", desc(*p.n).c_str(), desc(t).c_str(), got ? "accepted although it is not valid" : "refused although it is valid", g_diag.c_str()); if(!want && !g_diag_calls) c.fail("%s is refused without a diagnostic", desc(*p.n).c_str()); } n++; c.state(hash_str(desc(t))); };
                for(size_t i = 0; i < f.size(); i++) if(f[i]->is_group())
                {
                    int32_t was = f[i]->size; std::vector<int32_t> z; for(int k = -1; k <= 13; k++) z.push_back(k); for(int k = -12; k <= 14; k++) z.push_back(was + k); z.push_back(was + 65536); z.push_back((int32_t)0x80000000); z.push_back(0x7fffffff); std::sort(z.begin(), z.end()); z.erase(std::unique(z.begin(), z.end()), z.end());
                    for(int32_t s : z) { f[i]->size = v[i].l->chunkSize = s; verdicts();
                        if(t.count() <= 3) for(size_t k = i + 1; k < f.size(); k++) if(f[k]->is_group()) { int32_t w2 = f[k]->size; for(int d : {-4, -2, 2, 4, 8}) { f[k]->size = v[k].l->chunkSize = w2 + d; verdicts(); } f[k]->size = v[k].l->chunkSize = w2; } }
                    f[i]->size = v[i].l->chunkSize = was;
                } }
                IFF_free(l, nullptr); if(al_live()) c.fail("memory is left"); al_end();
            }
            c.execs(n); c.validated(n);
        });
        static std::vector<Node> base = legal; base.resize(std::min(base.size(), (size_t)(T ? 4000 : 700)));
        E.scene("deviations", base.size(), [](Ctx &c)
        {
            u64 n = 0; const Node &t = base[c.job]; size_t cnt = t.count();
            for(size_t i = 0; i < cnt; i++) for(int k = 14; k < Dev::N; k++) // changes that leave the sizes right
            {
                Node d = t; if(!Dev::apply(d, i, k)) continue; bool ok = true;
                std::function<void(Node&)> fix = [&](Node &x) { if(x.is_group()) x.data.clear(); else { x.kids.clear(); x.type = 0; } if(x.id != LIST) x.props.clear(); for(auto &p : x.props) { if(p.id != PROP) ok = false; fix(p); } for(auto &p : x.kids) fix(p); };
                fix(d); fixsizes(d); if(!ok) continue;
                // a PROP among the members of a LIST cannot come from a file at that place
                std::function<void(const Node&)> bad = [&](const Node &x) { if(x.id == LIST) for(auto &q : x.kids) if(q.id == PROP) ok = false; for(auto &q : x.kids) bad(q); }; bad(d); if(!ok) continue;
                whole(c, d, false); n++;
            }
            c.execs(n);
        });
    }
    {
        Alphabet a; a.raws = {mkraw(DA, "\x01\x9a\x03")}; a.formtypes = {TA}; a.conttypes = {TA, JJJJ};
        static std::vector<Node> seeds = Trees(a).upto(T ? 5 : 4);
        // invalid ones stay invalid wherever they are
        static std::vector<Node> inv = {fixed(mkgroup(FORM, mkid("x!xx"), {mkraw(DA, "q")})), fixed(mkgroup(CATT, TA, {mkgroup(FORM, TB)})), fixed(mkgroup(CATT, TB, {mkraw(DA, "raw")})), fixed(mkgroup(FORM, TA, {mkgroup(PROP, TA)})), fixed(mkgroup(LIST, TA, {}, {mkgroup(PROP, TA), mkgroup(PROP, TA)}))};
        for(auto &n : inv) seeds.push_back(n);
        E.fact("moved_trees", seeds.size());
        E.scene("moves", seeds.size(), [](Ctx &c) { move_through(c, seeds[c.job]); c.note(desc(seeds[c.job])); c.state(hash_str(ser(seeds[c.job]))); c.execs(NWRAP * (NWRAP + 1) * 2); });
    }
    // extension chunks
    E.scene("extension", 1 << 2, [](Ctx &c)
    {
        u64 n = 0; u32 X = ext::types[0].chunkId;
        for(u32 type : {TA, TB}) for(int outer = 0; outer < 6; outer++) for(int len = 0; len <= 2; len++) for(int pick = 0; pick < 1 << len; pick++) for(u32 otype : {TA, TB})
        {
            std::vector<u32> kids; for(int i = 0; i < len; i++) kids.push_back(pick >> i & 1 ? X : DA);
            al_begin(c.job & 1 ? 0xA5 : 0x11); diag_begin();
            {
                Node m = mkgroup(FORM, type); for(u32 k : kids) m.kids.push_back(mkraw(k, std::string("\x01\x02\x03\x04\x05\x06\x07\x08" "abcd"))); fixsizes(m);
                IFF_Chunk *f = ext_form(kids, type), *root = f;
                for(int lv = 0; lv < (outer ? (outer - 1) / 3 + 1 : 0); lv++)
                {
                    IFF_Chunk *g; int kind = outer % 3;
                    if(kind == 0) { g = (IFF_Chunk*)IFF_createEmptyForm(otype); IFF_addToForm((IFF_Form*)g, root); } else if(kind == 1) { g = (IFF_Chunk*)IFF_createEmptyCATWithContentsType(JJJJ); IFF_addToCAT((IFF_CAT*)g, root); } else { g = (IFF_Chunk*)IFF_createEmptyListWithContentsType(otype); IFF_addPropToList((IFF_List*)g, (IFF_Prop*)IFF_createEmptyProp(otype)); IFF_addToList((IFF_List*)g, root); }
                    root = g;
                }
                Chunk whole(root, &ext::registry), copy(ext_form(kids, type), &ext::registry);
                std::string b; if(!write_bytes(root, b, &ext::registry)) c.fail("writing fails");
                Chunk again(read_bytes(b, &ext::registry), &ext::registry); if(!again.c) c.fail("reading fails: %s", g_diag.c_str());
                IFF_Chunk *g = again; while(g->chunkId != FORM || ((IFF_Form*)g)->chunkLength != kids.size() || ((IFF_Form*)g)->formType != type || (((IFF_Form*)g)->chunkLength == 1 && ((IFF_Form*)g)->chunk[0]->chunkId == FORM)) g = ((IFF_Group*)g)->chunk[0];
                for(IFF_Chunk *p : {f, g})
                {
                    std::string w = W(c, "extension", m, p, m, &ext::registry); if(w != ser(m)) c.fail("FORM with extension chunks inside %d groups of type %s is written as %s instead of %s", outer, idtext(otype).c_str(), hex(w).c_str(), hex(ser(m)).c_str());
                    if(!IFF_check(p, &ext::registry)) c.fail("FORM with extension chunks is refused"); c.trans(2);
                    if(!IFF_compare(p, copy, &ext::registry) || !IFF_compare(copy, p, &ext::registry)) c.fail("FORM with extension chunks differs from its copy");
                    std::string t1 = print_text(p, 1, &ext::registry), t2 = print_text(copy, 1, &ext::registry); c.trans(2); if(t1 != t2) c.fail("FORM with extension chunks is printed differently inside other groups: %s instead of %s", t1.c_str(), t2.c_str());
                    Chunk r(read_bytes(w, &ext::registry), &ext::registry); if(!r.c || !IFF_compare(r, copy, &ext::registry)) c.fail("FORM with extension chunks cannot be read back alone");
                }
                n++;
            }
            if(al_live()) { al_end(); c.fail("memory is left"); }
            al_end(); c.state(comb(hash_bytes(kids.data(), kids.size() * 4), outer * 4 + (type == TA) * 2 + (otype == TA))); c.validated();
        }
        c.execs(n);
    });
    {
        static std::vector<Gi> gi = gi_all(gi_sizes(T), T ? 3 : 2); E.fact("giant_hierarchies", gi.size());
        E.scene("giant", (gi.size() + 31) / 32, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 32; i < gi.size() && i < c.job * 32 + 32; i++) { giant(c, gi[i]); n++; } c.execs(n); });
    }
    {
        static std::vector<Big> big = big_trees(T, T ? 1100000 : 70000);
        E.scene("large", big.size(), [](Ctx &c) { c.note(big[c.job].name); whole(c, big[c.job].n, big[c.job].n.count() < 2000, 3, true); });
    }
}
