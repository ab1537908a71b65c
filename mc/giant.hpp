// Hierarchies with chunks of up to 2 GB, whose sums pass the largest size that a chunk can have.  The data is one shared
// read-only region of zeroes that is never touched, so a hierarchy costs nothing.
#pragma once
#include "api.hpp"
#include <sys/mman.h>

struct Gi { // a chunk with its true sizes; raw: type 0
    u32 id = 0, type = 0; u64 raw = 0; std::vector<Gi> props, kids;
    bool group() const { return type != 0; }
    u64 size() const { if(!group()) return raw; u64 s = 4; for(auto *v : {&props, &kids}) for(auto &k : *v) s += 8 + padded(k.size()); return s; }
    bool fits() const { if(size() > 0x7fffffffu) return false; for(auto *v : {&props, &kids}) for(auto &k : *v) if(!k.fits()) return false; return true; }
    std::string text() const { std::string s = idtext(id); if(!group()) return s + mc::fmt("[0x%lx]", raw); s += "<" + idtext(type) + ">("; for(auto &p : props) s += p.text() + " "; s += "|"; for(auto &k : kids) s += " " + k.text(); return s + ")"; }
};
static IFF_UByte *gi_zeroes() { static IFF_UByte *z = nullptr; if(!z) { z = (IFF_UByte*)mmap(nullptr, 1ul << 31, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(z == MAP_FAILED) { perror("mmap"); exit(2); } } return z; }
static IFF_Chunk *gi_raw(u32 id, u64 n) { IFF_Chunk *r = IFF_createRawChunk(id, 0); free(((IFF_RawChunk*)r)->chunkData); IFF_setRawChunkData((IFF_RawChunk*)r, gi_zeroes(), (IFF_Long)n); return r; }
// builds a hierarchy; a chunk that makes a group too large must be refused (gi_wrong tells if not) and is put there all the same
static std::string gi_wrong;
static IFF_Chunk *gi_build(const Gi &m)
{
    if(!m.group()) return gi_raw(m.id, m.raw);
    IFF_Chunk *l = m.id == FORM ? (IFF_Chunk*)IFF_createEmptyForm(m.type) : m.id == PROP ? (IFF_Chunk*)IFF_createEmptyProp(m.type) : m.id == CATT ? (IFF_Chunk*)IFF_createEmptyCATWithContentsType(m.type) : (IFF_Chunk*)IFF_createEmptyListWithContentsType(m.type);
    u64 size = 4; bool fits = true;
    for(int kids = 0; kids < 2; kids++) for(auto &k : kids ? m.kids : m.props)
    {
        IFF_Chunk *x = gi_build(k); IFF_Group *g = (IFF_Group*)l; auto number = [&] { return g->chunkLength + (m.id == LIST ? ((IFF_List*)l)->propLength : 0); };
        auto add = [&] { return (!kids ? IFF_addPropToList((IFF_List*)l, (IFF_Prop*)x) : m.id == FORM ? IFF_addToForm((IFF_Form*)l, x) : m.id == PROP ? IFF_addToProp((IFF_Prop*)l, x) : m.id == CATT ? IFF_addToCAT((IFF_CAT*)l, x) : IFF_addToList((IFF_List*)l, x)) != 0; };
        size += 8 + padded(k.size()); fits = fits && k.fits() && size <= 0x7fffffff;
        unsigned before = number(); IFF_Long stated = l->chunkSize; int calls = g_diag_calls; bool ok = add();
        if(ok != fits) gi_wrong = mc::fmt("adding %s to %s is %s", k.text().c_str(), m.text().c_str(), ok ? "accepted although the group gets too large" : "refused");
        if(!ok)
        {
            if(gi_wrong.empty() && (number() != before || l->chunkSize != stated || x->parent != nullptr || g_diag_calls == calls)) gi_wrong = mc::fmt("refusing to add %s to %s changes the group or the chunk, or gives no diagnostic", k.text().c_str(), m.text().c_str());
            if(gi_wrong.empty() && kids && (m.id == CATT || m.id == LIST))
            {   // adding it with an adaptation of the contents type must not adapt anything
                u32 was = g->groupType; g->groupType = was ^ 1; ok = (m.id == CATT ? IFF_addToCATAndUpdateContentsType((IFF_CAT*)l, x) : IFF_addToListAndUpdateContentsType((IFF_List*)l, x)) != 0;
                if(ok || g->groupType != (was ^ 1) || number() != before || l->chunkSize != stated || x->parent != nullptr) { gi_wrong = mc::fmt("adding %s to %s and updating the contents type is accepted or changes something", k.text().c_str(), m.text().c_str()); if(ok) return l; }
                g->groupType = was;
            }
            IFF_Long s = x->chunkSize; x->chunkSize = 0; l->chunkSize = 0; add(); x->chunkSize = s; l->chunkSize = -1;
        }
    }
    return l;
}
static void gi_free(IFF_Chunk *l)
{
    std::function<void(IFF_Chunk*)> drop = [&](IFF_Chunk *x) {
        if(x->chunkId == FORM || x->chunkId == PROP || x->chunkId == CATT || x->chunkId == LIST) { IFF_Group *g = (IFF_Group*)x; for(unsigned i = 0; i < g->chunkLength; i++) drop(g->chunk[i]); if(x->chunkId == LIST) for(unsigned i = 0; i < ((IFF_List*)x)->propLength; i++) drop((IFF_Chunk*)((IFF_List*)x)->prop[i]); }
        else if(((IFF_RawChunk*)x)->chunkData == gi_zeroes()) ((IFF_RawChunk*)x)->chunkData = nullptr; };
    drop(l); IFF_free(l, nullptr);
}
static void gi_pairs(const Gi &m, IFF_Chunk *l, std::vector<std::pair<const Gi*, IFF_Chunk*>> &v)
{
    v.push_back({&m, l}); if(!m.group()) return;
    for(size_t i = 0; i < m.props.size(); i++) gi_pairs(m.props[i], (IFF_Chunk*)((IFF_List*)l)->prop[i], v);
    for(size_t i = 0; i < m.kids.size(); i++) gi_pairs(m.kids[i], ((IFF_Group*)l)->chunk[i], v);
}
// all hierarchies: FORMs, CATs and LISTs with up to three (two in LISTs with PROPs) sizes out of `s` in every distribution
static std::vector<Gi> gi_all(const std::vector<u64> &s, int per_form)
{
    std::vector<Gi> out; auto raw = [](u64 n) { Gi g; g.id = DA; g.raw = n; return g; };
    auto form = [&](u32 id, u32 t, const std::vector<u64> &v) { Gi g; g.id = id; g.type = t; for(u64 n : v) g.kids.push_back(raw(n)); return g; };
    std::vector<std::vector<u64>> t1, t2, t3; for(u64 a : s) { t1.push_back({a}); for(u64 b : s) { t2.push_back({a, b}); if(per_form > 2) for(u64 c : s) t3.push_back({a, b, c}); } }
    for(auto *v : {&t1, &t2, &t3}) for(auto &x : *v) out.push_back(form(FORM, TA, x));
    for(u32 id : {CATT, LIST}) for(auto &x : t1) { Gi g; g.id = id; g.type = TA; g.kids = {form(FORM, TA, x)}; out.push_back(g); Gi f; f.id = FORM; f.type = TA; f.kids = {g}; out.push_back(f); Gi c; c.id = CATT; c.type = TA; c.kids = {g}; out.push_back(c); f.kids.push_back(raw(2)); out.push_back(f); }
    for(u32 id : {CATT, LIST}) for(auto &x : t2) { Gi g; g.id = id; g.type = TA; g.kids = {form(FORM, TA, {x[0]}), form(FORM, TA, {x[1]})}; out.push_back(g); Gi f; f.id = FORM; f.type = TB; f.kids = {g}; out.push_back(f); }
    for(auto &x : t1) { Gi g; g.id = LIST; g.type = TA; g.props = {form(PROP, TA, x)}; out.push_back(g); }
    for(auto &x : t2) { Gi g; g.id = LIST; g.type = TA; g.props = {form(PROP, TA, {x[0]})}; g.kids = {form(FORM, TA, {x[1]})}; out.push_back(g); g.kids.clear(); g.props.push_back(form(PROP, TB, {x[1]})); out.push_back(g); g.kids = {form(FORM, TA, {x[0]})}; out.push_back(g); g.props = {form(PROP, TA, x)}; out.push_back(g); }
    return out;
}
static std::vector<u64> gi_sizes(bool more)
{
    std::vector<u64> s = {0, 1, 2, 0x3ffffff0, 0x3ffffffa, 0x40000000, 0x7fffff00, 0x7fffffdd, 0x7fffffff};
    for(u64 n = more ? 0x7fffffc0 : 0x7fffffd8; n < 0x7fffffff; n += more ? 1 : 2) s.push_back(n);
    if(more) for(u64 n = 0x3fffffe0; n <= 0x40000004; n += 2) s.push_back(n);
    std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); return s;
}
