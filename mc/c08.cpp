// C08: property lookup follows the scoping rules of shared properties.
#include "api.hpp"
using namespace mc;

struct P { const Node *n; IFF_Chunk *l; int parent; };
static void pairup(const Node &n, IFF_Chunk *l, int parent, std::vector<P> &v)
{
    int me = v.size(); v.push_back({&n, l, parent});
    if(!n.is_group()) return;
    IFF_Group *g = (IFF_Group*)l;
    for(size_t i = 0; i < n.props.size(); i++) pairup(n.props[i], (IFF_Chunk*)((IFF_List*)l)->prop[i], me, v);
    for(size_t i = 0; i < n.kids.size(); i++) pairup(n.kids[i], g->chunk[i], me, v);
}
static const u32 DC = mkid("DATC");

static u64 lookups(Ctx &c, const Node &t, IFF_Chunk *l, const std::vector<u32> &ids, const char *how, size_t limit = 100000)
{
    std::vector<P> v; pairup(t, l, -1, v);
    std::vector<int> firstkid; u64 h = 1;
    // index of the lib pointer of each child, by model position
    auto lib_of = [&](const P &p, const Node *k) -> IFF_Chunk* { IFF_Group *g = (IFF_Group*)p.l; for(size_t i = 0; i < p.n->kids.size(); i++) if(&p.n->kids[i] == k) return g->chunk[i]; return nullptr; };
    size_t done = 0;
    for(size_t x = 0; x < v.size(); x++)
    {
        const P &p = v[x];
        if(limit < v.size() && done > limit && x + limit < v.size()) continue; // large trees: the first and the last ones
        if(p.n->id == FORM || p.n->id == PROP)
        {
            done++;
            for(u32 id : ids)
            {
                std::vector<IFF_Chunk*> own; for(auto &k : p.n->kids) if(k.id == id) own.push_back(lib_of(p, &k));
                if(p.n->id == PROP)
                {
                    IFF_Chunk *got = IFF_getChunkFromProp((IFF_Prop*)p.l, id), *want = own.empty() ? nullptr : own[0]; c.trans();
                    if(got != want) c.fail("%s: IFF_getChunkFromProp(%s, %s) gives %s", how, desc(*p.n).c_str(), idtext(id).c_str(), !got ? "nothing" : want ? "another chunk" : "a chunk");
                    continue;
                }
                IFF_Chunk *want = own.empty() ? nullptr : own[0];
                IFF_Chunk *d = IFF_getDataChunkFromForm((IFF_Form*)p.l, id);
                if(d != want) c.fail("%s: IFF_getDataChunkFromForm(%s, %s) gives %s", how, desc(*p.n).c_str(), idtext(id).c_str(), !d ? "nothing" : want ? "another chunk" : "a chunk");
                const Node *src = nullptr;
                for(int a = p.parent; !want && a >= 0; a = v[a].parent)
                    if(v[a].n->id == LIST)
                        for(size_t i = 0; i < v[a].n->props.size() && !want; i++)
                        {
                            const Node &pr = v[a].n->props[i]; if(pr.type != p.n->type) continue;
                            for(size_t j = 0; j < pr.kids.size() && !want; j++) if(pr.kids[j].id == id) { want = ((IFF_List*)v[a].l)->prop[i]->chunk[j]; src = v[a].n; }
                        }
                IFF_Chunk *g = IFF_getChunkFromForm((IFF_Form*)p.l, id);
                if(g != want) c.fail("%s: looking up %s in %s, which is part of %s, gives %s instead of %s", how, idtext(id).c_str(), desc(*p.n).c_str(), desc(t).c_str(), g ? "another chunk" : "nothing", !want ? "nothing" : src ? ("the shared property of " + desc(*src)).c_str() : "its own chunk");
                unsigned n = 12345; IFF_Chunk **all = IFF_getChunksFromForm((IFF_Form*)p.l, id, &n);
                bool same = n == own.size(); for(size_t i = 0; same && i < n; i++) if(all[i] != own[i]) same = false;
                if(n == 0 && all != nullptr && own.empty()) same = true;
                free(all);
                if(!same) c.fail("%s: collecting %s in %s gives %u chunks instead of its own %zu in order", how, idtext(id).c_str(), desc(*p.n).c_str(), n, own.size());
                c.trans(3);
                h = comb(h, want ? want->chunkSize * 2 + 1 : 0); h = comb(h, n);
            }
        }
        if(p.n->id == LIST)
        {
            std::vector<u32> tys = {TA, TB, LIST, DA, (u32)0, JJJJ}; if(p.n->props.size() < 60) for(auto &q : p.n->props) tys.push_back(q.type); else for(size_t q = 0; q < p.n->props.size(); q += q < 40 || q + 40 > p.n->props.size() ? 1 : p.n->props.size() / 30) tys.push_back(p.n->props[q].type);
            for(u32 ty : tys)
            {
                IFF_Prop *want = nullptr; for(size_t i = 0; i < p.n->props.size() && !want; i++) if(p.n->props[i].type == ty) want = ((IFF_List*)p.l)->prop[i];
                if(IFF_getPropFromList((IFF_List*)p.l, ty) != want) c.fail("%s: IFF_getPropFromList(%s, %s) is wrong", how, desc(*p.n).c_str(), idtext(ty).c_str());
                c.trans();
            }
        }
    }
    return h;
}

static void judge(Ctx &c, const Node &t, const std::vector<u32> &ids, bool both = true, size_t limit = 100000)
{
    diag_begin(); al_begin(0xA5); al_cap((size_t)1 << 28);
    {
        Chunk a(to_lib(t)); std::string before, after; if(!write_bytes(a, before)) c.fail("cannot write %s", desc(t).c_str());
        u64 h = lookups(c, t, a, ids, "built", limit);
        if(!write_bytes(a, after) || before != after) c.fail("looking up changed the hierarchy %s", desc(t).c_str());
        if(h != lookups(c, t, a, ids, "built, second time", limit)) c.fail("repeating the lookups in %s gives other results", desc(t).c_str());
        if(both) { Chunk b(read_bytes(before)); if(!b.c) c.fail("cannot read %s", desc(t).c_str()); lookups(c, t, b, ids, "read", limit); }
        c.state(comb(hash_str(before), h));
    }
    if(g_diag_calls) c.fail("lookups emit diagnostics: %s", g_diag.c_str());
    if(al_live()) c.fail("lookups leave %lu blocks allocated in %s", al_live(), desc(t).c_str());
    al_end(); c.validated();
    if(c.noting()) c.note(desc(t));
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    static const std::vector<u32> ids = {DA, DB, DC, FORM, TA};
    E.assume("at most one PROP per form type in a LIST (more are refused: C01); results of collecting are owned by the caller");
    // 1. a FORM at the end of every chain of ancestors
    {
        static std::vector<std::vector<Node>> propsets; // PROP sets of a LIST
        std::vector<Node> pa = {mkgroup(PROP, TA), mkgroup(PROP, TA, {mkraw(DA, "1")}), mkgroup(PROP, TA, {mkraw(DB, "2")}), mkgroup(PROP, TA, {mkraw(DB, "3"), mkraw(DA, "4"), mkraw(DA, "5")})};
        Node pb = mkgroup(PROP, TB, {mkraw(DA, "6"), mkraw(DB, "7")}), pl = mkgroup(PROP, LIST, {mkraw(DA, "8"), mkraw(DC, "9")});
        propsets.push_back({}); propsets.push_back({pb}); propsets.push_back({pl});
        for(auto &p : pa) { propsets.push_back({p}); propsets.push_back({p, pb}); propsets.push_back({pb, p}); }
        if(T) for(auto &p : pa) propsets.push_back({pl, pb, p});
        static std::vector<Node> levels; // the ancestors; the member is added
        for(auto &s : propsets) levels.push_back(mkgroup(LIST, JJJJ, {}, s));
        levels.push_back(mkgroup(CATT, JJJJ)); levels.push_back(mkgroup(FORM, TA, {mkraw(DA, "outer"), mkraw(DC, "outer")})); levels.push_back(mkgroup(FORM, TB));
        // contents types say nothing about where properties come from
        for(u32 t : {TA, TB, mkid("TSTC")}) { levels.push_back(mkgroup(CATT, t)); levels.push_back(mkgroup(LIST, t)); levels.push_back(mkgroup(LIST, t, {}, {pa[3]})); levels.push_back(mkgroup(LIST, t, {}, {pb, pa[1]})); if(T) levels.push_back(mkgroup(LIST, t, {}, {pb})); }
        static std::vector<Node> targets = {mkgroup(FORM, TA), mkgroup(FORM, TA, {mkraw(DA, "a")}), mkgroup(FORM, TA, {mkraw(DB, "b"), mkraw(DA, "c"), mkraw(DB, "d"), mkraw(DA, "e")}), mkgroup(FORM, TA, {mkgroup(FORM, TA, {mkraw(DA, "inner")}), mkraw(DB, "b")}), mkgroup(FORM, TB, {mkraw(DC, "x")}), mkgroup(FORM, TB)};
        E.fact("kinds_of_ancestors", levels.size()); E.fact("targets", targets.size());
        int D = T ? 4 : 3;
        u64 L = levels.size();
        E.scene("chains", L * L * targets.size(), [D, L](Ctx &c)
        {
            u64 n = 0, j = c.job; const Node &tg = targets[j % targets.size()]; j /= targets.size();
            const Node *l1 = &levels[j % L], *l2 = &levels[j / L];
            auto wrap = [](const Node &lv, const Node &k) { Node x = lv; x.kids.push_back(k); return x; };
            if(j / L == 0) { judge(c, fixed(wrap(*l1, tg)), ids); n++; if(j % L == 0) { judge(c, fixed(tg), ids); n++; } }
            Node two = wrap(*l2, wrap(*l1, tg)); judge(c, fixed(two), ids); n++;
            std::function<void(const Node&, int)> up = [&](const Node &k, int left) { if(!left) return; for(size_t i = 0; i < L; i++) { Node x = wrap(levels[i], k); judge(c, fixed(x), ids, left == 1 && D == 3); n++; up(x, left - 1); } };
            up(two, D - 2);
            c.execs(n);
        });
        // long chains: the providing LIST at every distance, through every kind of group in between
        E.scene("long_chains", 40, [T](Ctx &c)
        {
            u64 n = 0; int len = c.job + 1;
            for(int mid = 0; mid < 4; mid++) for(int prov = 0; prov < len; prov++) for(int prov2 = prov; prov2 < len; prov2 += 3)
            {
                Node x = mkgroup(FORM, TA, {mkraw(DC, "own")});
                for(int i = 0; i < len; i++)
                {
                    Node g = i == prov || i == prov2 ? mkgroup(LIST, JJJJ, {}, {mkgroup(PROP, TB, {mkraw(DA, "no")}), mkgroup(PROP, TA, {mkraw(i == prov ? DB : DA, std::string(1 + i % 3, 'p'))})})
                           : mid == 0 ? mkgroup(CATT, JJJJ) : mid == 1 ? mkgroup(FORM, TB) : mid == 2 ? mkgroup(LIST, JJJJ) : mkgroup(LIST, JJJJ, {}, {mkgroup(PROP, TA), mkgroup(PROP, TB, {mkraw(DA, "b")})});
                    g.kids.push_back(x); x = g;
                }
                judge(c, fixed(x), ids, false); n++;
            }
            c.execs(n);
        });
    }
    // 2. all trees
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(DB, "yy")}; a.formtypes = {TA, TB}; a.conttypes = {JJJJ, TA};
        static std::vector<Node> trees = Trees(a).upto(T ? 6 : 5);
        E.fact("legal_trees", trees.size());
        E.scene("trees", (trees.size() + 63) / 64, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 64; i < trees.size() && i < c.job * 64 + 64; i++) { judge(c, trees[i], ids); n++; } c.execs(n); });
        a.legal_only = false; a.formtypes = {TA}; a.raws = {mkraw(DA, "x")};
        static std::vector<Node> any; Trees(a).child(0, JJJJ, 4, [&](const Node &n) { std::function<bool(const Node&)> ok = [&](const Node &x) { for(size_t i = 0; i < x.props.size(); i++) for(size_t k = 0; k < i; k++) if(x.props[i].type == x.props[k].type) return false; for(auto &k : x.kids) if(!ok(k)) return false; for(auto &k : x.props) if(!ok(k)) return false; return true; }; if(ok(n)) any.push_back(fixed(n)); });
        E.fact("arbitrary_trees", any.size());
        E.scene("arbitrary_trees", (any.size() + 63) / 64, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 64; i < any.size() && i < c.job * 64 + 64; i++) { judge(c, any[i], ids, false); n++; } c.execs(n); });
    }
    // 3. every form of ID: the decision depends on the whole ID
    E.scene("identifiers", 32, [](Ctx &c)
    {
        u64 n = 0; u32 bit = 1u << c.job;
        Node t = mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DB ^ bit, "1"), mkraw(DB, "2")}), mkgroup(FORM, TA ^ bit, {mkraw(DB, "3")})}, {mkgroup(PROP, TA ^ bit, {mkraw(DA, "4")}), mkgroup(PROP, TA, {mkraw(DA ^ bit, "5"), mkraw(DA, "6")})});
        judge(c, fixed(t), {DA, DA ^ bit, DB, DB ^ bit}); n++;
        c.execs(n);
    });
    {
        static std::vector<Big> big = big_trees(T, 2000);
        E.scene("large", big.size(), [](Ctx &c) { c.note(big[c.job].name); judge(c, big[c.job].n, {DA, DB, TEXT, FORM, DC}, true, 40); });
    }
    // 4. the PROPs of a LIST in every order of their types, with members of every type
    {
        static const std::vector<u32> ty = {TA, TB, mkid("AAAA"), mkid("ZZ9 "), mkid("0000"), LIST};
        static std::vector<std::vector<int>> perms; perms.clear();
        for(size_t k = 2; k <= ty.size(); k++) // every sequence of k different types
        {
            std::function<void(std::vector<int>&)> rec = [&](std::vector<int> &v) { if(v.size() == k) { perms.push_back(v); return; } for(int i = 0; i < (int)ty.size(); i++) { bool in = false; for(int x : v) if(x == i) in = true; if(in) continue; v.push_back(i); rec(v); v.pop_back(); } };
            std::vector<int> v; rec(v);
        }
        E.fact("orders_of_PROPs", perms.size());
        E.scene("orders_of_PROPs", (perms.size() + 15) / 16, [](Ctx &c)
        {
            u64 n = 0;
            for(u64 j = c.job * 16; j < perms.size() && j < c.job * 16 + 16; j++)
            {
                Node t = mkgroup(LIST, JJJJ);
                for(size_t i = 0; i < perms[j].size(); i++) t.props.push_back(mkgroup(PROP, ty[perms[j][i]], i % 3 == 2 ? std::vector<Node>{mkraw(DB, "b")} : std::vector<Node>{mkraw(DA, std::string(i + 1, 'p'))}));
                for(u32 x : ty) if(x != LIST) t.kids.push_back(mkgroup(FORM, x, {mkgroup(FORM, x)}));
                t.kids.push_back(mkgroup(CATT, TA, {mkgroup(FORM, TA)}));
                judge(c, fixed(t), {DA, DB, DC}); n++;
            }
            c.execs(n);
        });
        // a PROP of type LIST, and contents types equal to anything, never provide anything
        E.scene("foreign_PROPs", ty.size() * 7, [](Ctx &c)
        {
            u32 pt = ty[c.job % ty.size()], ct = (u32[]){JJJJ, TA, TB, LIST, FORM, mkid("AAAA"), DA}[c.job / ty.size()]; u64 n = 0;
            for(u32 ft : {TA, TB, mkid("AAAA")}) for(u32 gt : {JJJJ, TA, ft}) for(u32 mid : {(u32)0, CATT, LIST, FORM})
            {
                Node f = mkgroup(FORM, ft, {mkraw(DB, "own")}), t = mkgroup(LIST, ct, {}, {mkgroup(PROP, pt, {mkraw(DA, "1"), mkraw(DB, "2")})});
                if(mid) f = mkgroup(mid, mid == FORM ? (gt == JJJJ ? TB : gt) : gt, {f});
                t.kids.push_back(f); judge(c, fixed(t), {DA, DB, DC, FORM}); n++;
                Node u = mkgroup(CATT, ct, {t}); judge(c, fixed(u), {DA, DB}, false); n++;
                Node w = mkgroup(LIST, pt == LIST ? TB : pt, {t}, {mkgroup(PROP, ft, {mkraw(DC, "far")})}); judge(c, fixed(w), {DA, DB, DC}, false); n++;
            }
            c.execs(n);
        });
    }
    // lookups follow parents and members, whatever sizes the groups state at the moment
    {
        Alphabet a; a.raws = {mkraw(DA, "x")}; a.formtypes = {TA}; a.conttypes = {TA}; static std::vector<Node> st = Trees(a).upto(T ? 5 : 4);
        for(auto &n : {fixed(mkgroup(LIST, JJJJ, {mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DB, "b")})}), mkgroup(FORM, TB, {mkgroup(FORM, TA)})}, {mkgroup(PROP, TB, {mkraw(DA, "1")}), mkgroup(PROP, TA, {mkraw(DA, "2"), mkraw(DC, "3")})})), fixed(mkgroup(LIST, TA, {mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DB, "")})})}, {mkgroup(PROP, TA, {mkraw(DA, "5")})}))}) st.push_back(n);
        E.fact("trees_with_stale_sizes", st.size());
        E.scene("stale_sizes", (st.size() + 15) / 16, [](Ctx &c)
        {
            static const std::vector<int> sizes = {0, 1, 3, 4, 5, 8, 11, 12, -1, -2, INT32_MIN, INT32_MAX, 65536}; u64 n = 0;
            auto one = [&](const Node &t) { diag_begin(); al_begin(0xA5); { Chunk l(to_lib(t)); diag_begin(); std::string bad; Node m0 = from_lib(l, nullptr, &bad); u64 h = lookups(c, t, l, ids, "built with stale sizes"); if(h != lookups(c, t, l, ids, "built with stale sizes, second time")) c.fail("repeating the lookups in %s gives other results", desc(t).c_str()); if(!(from_lib(l, nullptr, &bad) == m0) || !bad.empty()) c.fail("looking up changed the hierarchy %s", desc(t).c_str()); c.state(comb(hash_str(desc(t)), h)); } if(g_diag_calls) c.fail("lookups emit diagnostics: %s", g_diag.c_str()); if(al_live()) c.fail("lookups leave %lu blocks allocated in %s", al_live(), desc(t).c_str()); al_end(); c.validated(); n++; };
            for(u64 i = c.job * 16; i < st.size() && i < c.job * 16 + 16; i++)
            {
                Node t = st[i]; std::vector<Node*> g; flatten(t, g);
                for(int z : sizes)
                {
                    for(Node *q : g) if(q->is_group()) { int old = q->size; q->size = z; one(t); q->size = old; }
                    std::vector<int> old; for(Node *q : g) { old.push_back(q->size); if(q->is_group()) q->size = z; } one(t); for(size_t k = 0; k < g.size(); k++) g[k]->size = old[k];
                }
            }
            c.execs(n);
        });
    }
    // 5. the wanted chunk, PROP or LIST lies behind very many others
    {
        static const std::vector<size_t> sz = {250, 255, 256, 257, 300, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 70000};
        E.scene("far_away", sz.size() * 3, [](Ctx &c)
        {
            size_t k = sz[c.job / 3]; Node t; u64 n = 0;
            if(c.job % 3 == 0) { t = mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DA, "shared")})}); Node &f = t.kids[0]; for(size_t i = 0; i < k; i++) f.kids.push_back(mkraw(DB, i % 2 ? "x" : "")); f.kids.push_back(mkraw(DA, "here")); f.kids.push_back(mkraw(DC, "and")); f.kids.push_back(mkraw(DA, "there")); }
            else if(c.job % 3 == 1) { t = mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA)}); Node &f = t.props[0]; for(size_t i = 0; i < k; i++) f.kids.push_back(mkraw(DB, "")); f.kids.push_back(mkraw(DA, "here")); f.kids.push_back(mkraw(DA, "there")); }
            else { t = mkgroup(LIST, JJJJ, {mkgroup(FORM, TA), mkgroup(FORM, TB, {mkgroup(FORM, TC)})}); for(size_t i = 0; i < k; i++) t.props.push_back(mkgroup(PROP, mkid("A000") + ((u32)(i / 10 % 10) << 8) + ((u32)(i / 100 % 10) << 16) + ((u32)(i / 1000) << 24) + (u32)(i % 10), {mkraw(DA, "no")})); for(u32 x : {TB, TC, TA}) t.props.push_back(mkgroup(PROP, x, {mkraw(DA, idtext(x)), mkraw(DC, "c")})); }
            judge(c, fixed(t), {DA, DB, DC, FORM}, k < 5000, 6); n++; c.execs(n); c.note(fmt("%zu others before", k));
        });
    }
}
