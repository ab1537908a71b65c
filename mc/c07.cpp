// C07: building operations always keep sizes, counts and parent links consistent.
// Explicit-state exploration: a state is a pool of chunks with everything that has been built from them so far; the
// transitions are the real adding, data-setting and size-updating functions; after every transition the real structures are
// compared with the model, and states that were reached before (with the same remaining budget) are not explored again.
#include "api.hpp"
#include "giant.hpp"
#include <unistd.h>
using namespace mc;

struct M { // model of one chunk
    u32 id, type; std::string data; std::vector<M*> props, kids; M *parent = nullptr; IFF_Chunk *lib = nullptr;
    bool dirty = false; // the stated size need not be right (something below changed after it was added)
    bool group() const { return id == FORM || id == CATT || id == LIST || id == PROP; }
    bool under(const M *a) const { for(const M *p = this; p; p = p->parent) if(p == a) return true; return false; }
    u64 true_size() const { if(!group()) return data.size(); u64 s = 4; for(M *p : props) s += 8 + padded(p->true_size()); for(M *k : kids) s += 8 + padded(k->true_size()); return s; }
    bool clean_all() const { if(dirty) return false; for(M *p : props) if(!p->clean_all()) return false; for(M *k : kids) if(!k->clean_all()) return false; return true; }
    Node node() const { Node n; n.id = id; n.type = type; n.data = data; n.size = true_size(); for(M *p : props) n.props.push_back(p->node()); for(M *k : kids) n.kids.push_back(k->node()); return n; }
};

static u64 hash_of(const M *m)
{
    u64 h = comb(m->id, m->type); h = hash_str(m->data, h); h = comb(h, m->dirty * 2 + 1); h = comb(h, (u32)m->lib->chunkSize);
    for(M *p : m->props) h = comb(h, hash_of(p) ^ 77); for(M *k : m->kids) h = comb(h, hash_of(k)); return h;
}

// the real structures against the model
static void verify(Ctx &c, const M *m, const std::string &after)
{
    const IFF_Chunk *l = m->lib;
    if(l->chunkId != m->id) c.fail("a chunk changed its ID after %s", after.c_str());
    if((const void*)l->parent != (const void*)(m->parent ? m->parent->lib : nullptr)) c.fail("a chunk (%s) does not refer to its parent after %s", idtext(m->id).c_str(), after.c_str());
    if(!m->dirty && (u64)(int64_t)l->chunkSize != m->true_size()) c.fail("%s states size %d instead of %lu after %s", desc(m->node()).c_str(), l->chunkSize, m->true_size(), after.c_str());
    if(m->group())
    {
        const IFF_Group *g = (const IFF_Group*)l;
        if(g->groupType != m->type) c.fail("%s has type %08x instead of %08x after %s", idtext(m->id).c_str(), g->groupType, m->type, after.c_str());
        if(g->chunkLength != m->kids.size()) c.fail("%s has %u members instead of %zu after %s", idtext(m->id).c_str(), g->chunkLength, m->kids.size(), after.c_str());
        for(size_t i = 0; i < m->kids.size(); i++) { if(g->chunk[i] != m->kids[i]->lib) c.fail("member %zu of %s is not the one added there after %s", i, desc(m->node()).c_str(), after.c_str()); verify(c, m->kids[i], after); }
        if(m->id == LIST)
        {
            const IFF_List *L = (const IFF_List*)l;
            if(L->propLength != m->props.size()) c.fail("LIST has %u PROPs instead of %zu after %s", L->propLength, m->props.size(), after.c_str());
            for(size_t i = 0; i < m->props.size(); i++) { if((IFF_Chunk*)L->prop[i] != m->props[i]->lib) c.fail("PROP %zu of %s is not the one added there after %s", i, desc(m->node()).c_str(), after.c_str()); verify(c, m->props[i], after); }
        }
    }
    else if(!m->data.empty() && memcmp(((const IFF_RawChunk*)l)->chunkData, m->data.data(), m->data.size())) c.fail("data of %s changed after %s", desc(m->node()).c_str(), after.c_str());
}
static void verify_root(Ctx &c, const M *m, const std::string &after, bool serial)
{
    verify(c, m, after);
    if(!m->clean_all()) return;
    Node n = m->node();
    if(m->id == FORM || m->id == CATT || m->id == LIST)
    {
        bool ok = IFF_check(m->lib, nullptr) != 0, want = conform(n);
        if(ok != want) c.fail("%s is %s by the conformance check after %s: %s", desc(n).c_str(), ok ? "accepted" : "refused", after.c_str(), g_diag.c_str());
    }
    if(serial) { std::string out; if(!write_bytes(m->lib, out) || out != ser(n)) c.fail("%s is not written as built after %s", desc(n).c_str(), after.c_str()); c.trans(); }
}

// all stated sizes of the pool, for "unrelated chunks are left alone"
static std::vector<int32_t> sizes(const std::vector<M> &pool) { std::vector<int32_t> v; for(auto &m : pool) v.push_back(m.lib->chunkSize); return v; }
static void unrelated(Ctx &c, const std::vector<M> &pool, const std::vector<int32_t> &before, const M *x, const std::string &op)
{
    for(size_t i = 0; i < pool.size(); i++) if(!x->under(&pool[i]) && pool[i].lib->chunkSize != before[i]) c.fail("%s changed the size of an unrelated chunk %s", op.c_str(), desc(pool[i].node()).c_str());
}

static void mark_above(M *m) { for(M *p = m->parent; p; p = p->parent) p->dirty = true; }
static void update_model(M *m)
{
    for(M *p = m; p; p = p->parent)
    {
        bool ok = true; for(M *k : p->props) if(k->dirty) ok = false; for(M *k : p->kids) if(k->dirty) ok = false;
        p->dirty = p->group() ? !ok : false;
    }
}

static IFF_Chunk *make(u32 id, u32 type, const std::string &d)
{
    switch(id)
    {
        case 0x464F524D: return (IFF_Chunk*)IFF_createEmptyForm(type);
        case 0x50524F50: return (IFF_Chunk*)IFF_createEmptyProp(type);
        case 0x43415420: return (IFF_Chunk*)(type == JJJJ ? IFF_createEmptyCAT() : IFF_createEmptyCATWithContentsType(type));
        case 0x4C495354: return (IFF_Chunk*)(type == JJJJ ? IFF_createEmptyList() : IFF_createEmptyListWithContentsType(type));
    }
    IFF_Chunk *r = IFF_createRawChunk(id, d.size()); IFF_copyDataToRawChunkData((IFF_RawChunk*)r, (IFF_UByte*)d.data()); return r;
}

struct Kind { u32 id, type; const char *data; };
static const Kind kinds[] = { {FORM, TA, ""}, {CATT, JJJJ, ""}, {LIST, JJJJ, ""}, {PROP, TA, ""}, {DA, 0, "x"}, {TEXT, 0, "ab"}, {FORM, TB, ""}, {LIST, TA, ""}, {DB, 0, ""}, {PROP, TB, ""}, {CATT, TA, ""} };

static bool fits(const M *p, const M *k, int how)
{
    if(how == 1 && p->id != LIST && p->id != CATT) return false;  // ...AndUpdateContentsType
    if(how == 2 && !(p->id == LIST && k->id == PROP)) return false; // addPropToList
    if(how != 2 && p->id == LIST && k->id == PROP) return false;
    if(p->id == PROP) return !k->group();
    if(p->id == CATT || p->id == LIST) return k->group() && (k->id != PROP || how == 2);
    return k->id != PROP;
}

struct Limits { int ops, sets, updates; };

static void explore(Ctx &c, const std::vector<int> &pk, Limits lim, bool sym)
{
    diag_begin(); al_begin(0xA5); al_cap(1 << 20);
    std::vector<M> pool(pk.size());
    for(size_t i = 0; i < pk.size(); i++) { const Kind &k = kinds[pk[i]]; M &m = pool[i]; m.id = k.id; m.type = k.type; m.data = k.data; m.lib = make(k.id, k.type, k.data); }
    c.trans(pk.size());
    std::string hist;
    bool done = false;
    for(int step = 0; !done; step++)
    {
        // canonical hash of the forest (the order of the pool is irrelevant)
        std::vector<u64> hs; for(auto &m : pool) if(!m.parent) hs.push_back(hash_of(&m)); std::sort(hs.begin(), hs.end());
        u64 h = comb(lim.ops * 64 + lim.sets * 8 + lim.updates, 5); for(u64 x : hs) h = comb(h, x);
        if(step && c.visited(h)) break;
        c.state(comb(h, 3));
        if(lim.ops == 0) break;
        // enabled transitions
        struct Op { int what, a, b, how; }; std::vector<Op> ops; ops.push_back({-1, 0, 0, 0});
        for(size_t p = 0; p < pool.size(); p++) if(pool[p].group())
            for(size_t k = 0; k < pool.size(); k++) if(!pool[k].parent && !pool[p].under(&pool[k]))
                for(int how = 0; how < 4; how++) { if(how == 3 && pool[p].id == LIST && pool[k].id == PROP) continue; if(fits(&pool[p], &pool[k], how)) ops.push_back({0, (int)p, (int)k, how}); }
        if(lim.sets) for(size_t k = 0; k < pool.size(); k++) if(!pool[k].group()) for(int how = 0; how < 4; how++) ops.push_back({1, (int)k, how, 0});
        if(lim.updates) for(size_t k = 0; k < pool.size(); k++) ops.push_back({2, (int)k, 0, 0});
        const Op op = ops[c.choose(ops.size())]; lim.ops--; c.trans();
        std::vector<int32_t> before = sizes(pool);
        std::string name;
        M *changed = nullptr;
        if(op.what < 0) { lim.ops = 0; name = "end"; }
        else if(op.what == 0)
        {
            M &p = pool[op.a], &k = pool[op.b]; IFF_Bool ok;
            static const char *hows[] = {"add", "add and update contents type", "add PROP", "add to group"};
            name = fmt("%s %s#%d to %s#%d", hows[op.how], idtext(k.id).c_str(), op.b, idtext(p.id).c_str(), op.a);
            if(op.how == 3) ok = IFF_addToGroup((IFF_Group*)p.lib, k.lib);
            else if(op.how == 2) ok = IFF_addPropToList((IFF_List*)p.lib, (IFF_Prop*)k.lib);
            else if(p.id == CATT) ok = op.how ? IFF_addToCATAndUpdateContentsType((IFF_CAT*)p.lib, k.lib) : IFF_addToCAT((IFF_CAT*)p.lib, k.lib);
            else if(p.id == LIST) ok = op.how ? IFF_addToListAndUpdateContentsType((IFF_List*)p.lib, k.lib) : IFF_addToList((IFF_List*)p.lib, k.lib);
            else if(p.id == PROP) ok = IFF_addToProp((IFF_Prop*)p.lib, k.lib);
            else ok = IFF_addToForm((IFF_Form*)p.lib, k.lib);
            if(!ok) c.fail("%s is refused (%s)", name.c_str(), hist.c_str());
            k.parent = &p; (op.how == 2 ? p.props : p.kids).push_back(&k);
            if(op.how == 1)
            {   // the common type of the members, or JJJJ (see C18)
                u32 t = p.kids.size() == 1 ? k.type : p.type == k.type ? p.type : JJJJ; p.type = t;
            }
            if(k.dirty) p.dirty = true;
            mark_above(&p); changed = &p;
        }
        else if(op.what == 1)
        {
            M &k = pool[op.a]; static const char *texts[] = {"", "q", "qr", "long text"}; IFF_RawChunk *r = (IFF_RawChunk*)k.lib;
            name = fmt("%s of %s#%d to %zu bytes", op.b & 1 ? "set text" : "set data", idtext(k.id).c_str(), op.a, strlen(texts[op.b]));
            if(op.b & 1) { if(!IFF_setTextData(r, texts[op.b])) c.fail("%s fails", name.c_str()); }
            else { IFF_UByte *old = r->chunkData; IFF_Chunk *t = IFF_createRawChunk(k.id, strlen(texts[op.b])); IFF_copyDataToRawChunkData((IFF_RawChunk*)t, (IFF_UByte*)texts[op.b]); IFF_setRawChunkData(r, ((IFF_RawChunk*)t)->chunkData, t->chunkSize); ((IFF_RawChunk*)t)->chunkData = old; IFF_free(t, nullptr); }
            k.data = texts[op.b]; mark_above(&k); lim.sets--; changed = &k;
        }
        else { M &k = pool[op.a]; name = fmt("update sizes from %s#%d", idtext(k.id).c_str(), op.a); IFF_updateChunkSizes(k.lib); update_model(&k); lim.updates--; changed = &k; }
        hist += (hist.empty() ? "" : "; ") + name;
        if(changed) unrelated(c, pool, before, changed, hist);
        for(auto &m : pool) if(!m.parent) verify_root(c, &m, hist, lim.ops == 0 || op.what < 0 || !sym);
        c.validated();
        if(op.what < 0) done = true;
    }
    if(c.noting()) c.note(hist);
    for(auto &m : pool) if(!m.parent) IFF_free(m.lib, nullptr);
    if(al_live()) c.fail("%lu blocks are never freed after: %s", al_live(), hist.c_str());
    al_end();
}

// building whole trees in different orders, changing any data chunk, updating
static IFF_Chunk *build(const Node &n, int order, std::vector<std::pair<const Node*, IFF_Chunk*>> &all)
{
    IFF_Chunk *l = make(n.id, n.type, n.data); all.push_back({&n, l});
    auto add = [&](const Node &k, bool prop) {
        IFF_Chunk *x;
        if(order == 0) x = build(k, 0, all); // complete before it is added
        else { x = make(k.id, k.type, k.data); }
        bool ok = prop ? IFF_addPropToList((IFF_List*)l, (IFF_Prop*)x) : n.id == FORM ? IFF_addToForm((IFF_Form*)l, x) : n.id == PROP ? IFF_addToProp((IFF_Prop*)l, x) : n.id == CATT ? IFF_addToCAT((IFF_CAT*)l, x) : IFF_addToList((IFF_List*)l, x);
        (void)ok; return x; };
    if(order == 0) { for(auto &p : n.props) add(p, true); for(auto &k : n.kids) add(k, false); }
    else
    {
        // members first, PROPs afterwards; each one filled after it was added
        std::function<void(const Node&, IFF_Chunk*)> fill = [&](const Node &m, IFF_Chunk *ml) {
            for(auto &k : m.kids) { IFF_Chunk *x = make(k.id, k.type, k.data); all.push_back({&k, x}); m.id == FORM ? IFF_addToForm((IFF_Form*)ml, x) : m.id == PROP ? IFF_addToProp((IFF_Prop*)ml, x) : m.id == CATT ? IFF_addToCAT((IFF_CAT*)ml, x) : IFF_addToList((IFF_List*)ml, x); fill(k, x); }
            for(auto &p : m.props) { IFF_Chunk *x = make(p.id, p.type, p.data); all.push_back({&p, x}); IFF_addPropToList((IFF_List*)ml, (IFF_Prop*)x); fill(p, x); } };
        fill(n, l);
    }
    return l;
}
static void same(Ctx &c, const IFF_Chunk *l, const Node &n, const char *when)
{
    std::string bad; Node g = from_lib(l, nullptr, &bad);
    if(!bad.empty()) c.fail("%s %s: %s", bad.c_str(), when, desc(n).c_str());
    if(!(g == n)) c.fail("%s is %s instead of %s", when, desc(g).c_str(), desc(n).c_str());
    if(n.props.size() < 10000 && (n.id == FORM || n.id == CATT || n.id == LIST)) if((IFF_check(l, nullptr) != 0) != conform(n)) c.fail("%s: wrong verdict of the conformance check on %s: %s", when, desc(n).c_str(), g_diag.c_str());
}
static void tree_build(Ctx &c, const Node &t, size_t max_changes)
{
    diag_begin(); al_begin(0xA5); al_cap((size_t)1 << 28);
    {
        std::vector<std::pair<const Node*, IFF_Chunk*>> all; IFF_Chunk *l = build(t, 0, all);
        same(c, l, t, "built from complete children"); c.trans(all.size());
        std::vector<size_t> leaves; for(size_t i = all.size(); i-- > 0;) if(!all[i].first->is_group()) leaves.push_back(i); // the last one first
        for(size_t q = 0, step = std::max<size_t>(1, leaves.size() / max_changes), changes = 0; q < leaves.size() && changes < max_changes; q += step, changes++)
        {
            size_t i = leaves[q]; // change one data chunk to each of several sizes, update from there; the model is recomputed
            for(const char *d : {"", "1", "12", "123", "123456789012345678901234567890"})
            {
                IFF_RawChunk *r = (IFF_RawChunk*)all[i].second;
                IFF_setTextData(r, d); IFF_updateChunkSizes(all[i].second);
                Node m = t; std::vector<Node*> v; flatten(m, v); std::vector<Node*> o; flatten(const_cast<Node&>(t), o);
                for(size_t j = 0; j < o.size(); j++) if(o[j] == all[i].first) v[j]->data = d;
                fixsizes(m); same(c, l, m, "after changing a data chunk and updating"); c.trans(2); c.state(hash_str(ser(m)));
            }
            // and back
            IFF_RawChunk *r = (IFF_RawChunk*)all[i].second; IFF_UByte *old = r->chunkData; IFF_UByte *nd = (IFF_UByte*)malloc(all[i].first->data.size() + 1); memcpy(nd, all[i].first->data.data(), all[i].first->data.size());
            IFF_setRawChunkData(r, nd, all[i].first->data.size()); free(old); IFF_updateChunkSizes(all[i].second);
            same(c, l, t, "after restoring a data chunk and updating");
        }
        IFF_free(l, nullptr);
    }
    {
        std::vector<std::pair<const Node*, IFF_Chunk*>> all; all.reserve(8); IFF_Chunk *l = build(t, 1, all);
        // children were added before they were filled: updates from all chunks, innermost first, repair everything
        if(all.size() <= 4096) for(size_t i = all.size(); i-- > 0;) if(((IFF_Group*)all[i].second)->parent == nullptr || !all[i].first->is_group() || all[i].first->kids.empty()) IFF_updateChunkSizes(all[i].second);
        Node m = t; bool big = all.size() > 4096;
        if(!big) { std::function<void(const IFF_Chunk*, const Node&)> cmp = [&](const IFF_Chunk *x, const Node &n) { if(x->chunkSize != n.size) c.fail("filled after adding, then updated from every leaf: size %d instead of %d in %s", x->chunkSize, n.size, desc(t).c_str()); if(n.is_group()) { const IFF_Group *g = (const IFF_Group*)x; for(size_t i = 0; i < n.kids.size(); i++) cmp(g->chunk[i], n.kids[i]); for(size_t i = 0; i < n.props.size(); i++) cmp((IFF_Chunk*)((IFF_List*)x)->prop[i], n.props[i]); } };
            // a PROP without contents is a leaf as well
            for(size_t i = all.size(); i-- > 0;) IFF_updateChunkSizes(all[i].second);
            cmp(l, t); same(c, l, t, "filled after adding, then updated"); c.trans(all.size()); }
        IFF_free(l, nullptr);
    }
    if(al_live()) c.fail("%lu blocks are never freed after building %s", al_live(), desc(t).c_str());
    al_end(); c.state(hash_str(ser(t)));
    if(c.noting()) c.note(desc(t));
}

// hierarchies whose sizes reach the limit of what a chunk can state
static void giant(Ctx &c, const Gi &m)
{
    diag_begin(); al_begin(0xA5);
    gi_wrong.clear(); IFF_Chunk *l = gi_build(m); std::vector<std::pair<const Gi*, IFF_Chunk*>> v; gi_pairs(m, l, v); c.trans(v.size());
    if(!gi_wrong.empty()) c.fail("%s", gi_wrong.c_str());
    auto judge = [&](const char *when) {
        for(auto &p : v) if(p.first->fits() && (u64)(int64_t)p.second->chunkSize != p.first->size()) c.fail("%s %s states size %d instead of %lu in %s", when, p.first->text().c_str(), p.second->chunkSize, p.first->size(), m.text().c_str());
        diag_begin(); bool ok = IFF_check(l, nullptr) != 0; c.trans();
        if(ok != m.fits()) c.fail("%s %s is %s by the conformance check: %s", when, m.text().c_str(), ok ? "accepted although it does not fit into a chunk" : "refused", g_diag.c_str()); };
    judge("built"); for(auto &p : v) if(!p.first->group()) { IFF_updateChunkSizes(p.second); c.trans(); judge("updated"); }
    c.state(hash_str(m.text()));
    // every data chunk in turn gets small and large again; the update repairs the sizes of everything around it
    for(auto &p : v) if(!p.first->group()) for(int n : {5, 0})
    {
        u64 was = p.first->raw; IFF_RawChunk *r = (IFF_RawChunk*)p.second;
        const_cast<Gi*>(p.first)->raw = n; IFF_setRawChunkData(r, gi_zeroes(), n); IFF_updateChunkSizes(p.second); judge("shrunk and updated");
        const_cast<Gi*>(p.first)->raw = was; IFF_setRawChunkData(r, gi_zeroes(), (IFF_Long)was); IFF_updateChunkSizes(p.second); judge("grown and updated"); c.trans(4); c.state(comb(hash_str(m.text()), was + n));
    }
    gi_free(l); if(al_live()) c.fail("%lu blocks are never freed", al_live());
    al_end(); c.validated(); if(c.noting()) c.note(m.text());
}

// texts at the limit of what a chunk can state and beyond: one small piece of memory is mapped again and again
static void endless_text(Ctx &c, u64 n, int in)
{
    const size_t P = 1 << 20; size_t pieces = n / P + 1; // the last piece holds the end of the text
    int fd = memfd_create("text", 0); if(fd < 0 || ftruncate(fd, 2 * P)) { perror("memfd"); exit(2); }
    char *m = (char*)mmap(nullptr, 2 * P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if(m == MAP_FAILED) { perror("mmap"); exit(2); }
    memset(m, 'x', P); memset(m + P, 'y', n % P); m[P + n % P] = 0; munmap(m, 2 * P);
    char *t = (char*)mmap(nullptr, pieces * P, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(t == MAP_FAILED) { perror("mmap"); exit(2); }
    for(size_t i = 0; i < pieces; i++) if(mmap(t + i * P, P, PROT_READ, MAP_SHARED | MAP_FIXED, fd, i + 1 == pieces ? P : 0) == MAP_FAILED) { perror("mmap"); exit(2); }
    close(fd);
    diag_begin(); al_begin(-1); al_cap(SIZE_MAX);
    IFF_RawChunk *r = (IFF_RawChunk*)IFF_createRawChunk(TEXT, 3); IFF_copyDataToRawChunkData(r, (IFF_UByte*)"old"); IFF_Form *f = nullptr;
    if(in) { f = IFF_createEmptyForm(TA); IFF_addToForm(f, (IFF_Chunk*)r); }
    bool fits = n <= 0x7fffffff, ok = IFF_setTextData(r, t) != 0; c.trans();
    c.note(fmt("text of %lu bytes: %s", n, ok ? "set" : "refused")); c.state(comb(n, comb(in, ok)));
    if(ok != fits) c.fail("setting a text of %lu bytes %s", n, ok ? "succeeds although no chunk can state that size" : ("fails: " + g_diag).c_str());
    if(ok && ((u64)(int64_t)r->chunkSize != n || memcmp(r->chunkData, t, n))) c.fail("a chunk with a text of %lu bytes has size %d or other data", n, r->chunkSize);
    if(!ok && (r->chunkSize != 3 || memcmp(r->chunkData, "old", 3) || g_diag.empty())) c.fail("refusing a text of %lu bytes alters the chunk or gives no diagnostic", n);
    if(!ok) { if(!IFF_setTextData(r, "four")) c.fail("a text is refused after one of %lu bytes", n); IFF_updateChunkSizes((IFF_Chunk*)r); if(r->chunkSize != 4 || (f && f->chunkSize != 16)) c.fail("wrong sizes after a text of %lu bytes was refused", n); }
    IFF_free(f ? (IFF_Chunk*)f : (IFF_Chunk*)r, nullptr);
    if(al_live()) c.fail("%lu blocks are never freed after setting a text of %lu bytes", al_live(), n);
    al_end(); munmap(t, pieces * P); c.validated();
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("memory is available (C06); data buffers handed over with IFF_setRawChunkData are freed by the caller beforehand");
    // pools: all multisets of kinds
    {
        static std::vector<std::vector<int>> pools; int K = T ? 11 : 7;
        std::function<void(std::vector<int>&, int, int)> gen = [&](std::vector<int> &v, int from, int left) { if(left == 0) { bool g = false; for(int k : v) if(kinds[k].type) g = true; if(g) pools.push_back(v); return; } for(int k = from; k < K; k++) { v.push_back(k); gen(v, k, left - 1); v.pop_back(); } };
        std::vector<int> v; for(int n = 1; n <= 3; n++) gen(v, 0, n);
        E.fact("pools_up_to_3", pools.size());
        E.scene("operations_3", pools.size(), [T](Ctx &c) { explore(c, pools[c.job], {T ? 9 : 7, T ? 3 : 2, T ? 3 : 2}, true); });
        static std::vector<std::vector<int>> p4; pools.swap(p4); gen(v, 0, 4); pools.swap(p4);
        E.fact("pools_of_4", p4.size());
        E.scene("operations_4", p4.size(), [T](Ctx &c) { explore(c, p4[c.job], {T ? 8 : 6, T ? 2 : 1, T ? 2 : 2}, true); });
        static std::vector<std::vector<int>> p5; K = T ? 7 : 6; pools.swap(p5); gen(v, 0, 5); pools.swap(p5);
        E.fact("pools_of_5", p5.size());
        E.scene("operations_5", p5.size(), [T](Ctx &c) { explore(c, p5[c.job], {T ? 7 : 5, T ? 2 : 1, T ? 2 : 1}, true); });
    }
    {
        static std::vector<Gi> gi = gi_all(gi_sizes(T), T ? 3 : 2); E.fact("giant_hierarchies", gi.size());
        E.scene("giant", (gi.size() + 31) / 32, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 32; i < gi.size() && i < c.job * 32 + 32; i++) { Gi m = gi[i]; giant(c, m); n++; } c.execs(n); });
    }
    {
        static std::vector<u64> v = {0x7fffffff, 0x80000000, 0x80000005, 0x100000000, 0x100000003};
        if(T) for(u64 n : {0x7ffffffeul, 0xfffffffful, 0xfffffffeul, 0x17ffffffful, 0x180000001ul, 0x200000000ul, 0x10000ul, 0x100000ul, 0xffffful}) v.push_back(n);
        E.scene("endless_text", v.size() * 2, [](Ctx &c) { endless_text(c, v[c.job / 2], c.job % 2); });
    }
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab"), mkraw(DB, "")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
        static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
        E.fact("legal_trees", trees.size());
        E.scene("trees", (trees.size() + 31) / 32, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * 32; i < trees.size() && i < c.job * 32 + 32; i++) { tree_build(c, trees[i], 8); n++; } c.execs(n); });
        static std::vector<Big> big = big_trees(T, T ? SIZE_MAX : 300000);
        E.scene("large", big.size(), [](Ctx &c) { c.note(big[c.job].name); tree_build(c, big[c.job].n, big[c.job].n.count() > 2000 ? 1 : 3); });
    }
}
