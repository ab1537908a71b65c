// C22: every public building block does exactly its own part, also for groups of an application's own.
#include "api.hpp"
#include <set>
using namespace mc;
static const u32 GRP = mkid("GRP "), VGR = mkid("VGRP"), NOPE = mkid("NOPE");
static const IFF_ChunkRegistry *DEF = &IFF_defaultChunkRegistry;

// ---- sizes -------------------------------------------------------------------------------------------------------------
static std::vector<int32_t> sizes()
{
    std::set<int32_t> s; for(int i = -3; i <= 40; i++) s.insert(i);
    for(int b = 6; b < 32; b++) for(int64_t d = -18; d <= 18; d++) { int64_t v = ((int64_t)1 << b) + d; if(v <= 0x7fffffff) s.insert((int32_t)v); if(-v >= INT32_MIN && (d & 3) == 1) s.insert((int32_t)-v); }
    for(int64_t d = 0; d < 40; d++) { s.insert((int32_t)(0x7fffffff - d)); s.insert((int32_t)(INT32_MIN + d)); }
    for(int b = 1; b < 31; b++) s.insert((int32_t)(0x55555555u >> b)), s.insert((int32_t)(0x66666667u >> b));
    return std::vector<int32_t>(s.begin(), s.end());
}
static int64_t inc(int64_t a, int64_t b) { if(a < 0 || b < 0) return -1; int64_t r = a + 8 + b + (b & 1); return r > 0x7fffffff ? -1 : r; }

// ---- a group type of an application, built from the group functions of the library ------------------------------------------
struct VGroup { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; IFF_ID groupType; unsigned int chunkLength; IFF_Chunk **chunk; IFF_UWord version; };
static bool custom(u32 id) { return id == GRP || id == VGR; }
static bool grouplike(const Node &n) { return n.is_group() || (custom(n.id) && n.type); } // where it is not registered, it is a data chunk without a type
static std::vector<std::pair<char, u32>> calls; static long refuse_type = 0, refuse_sub = 0; // refuse the n-th question
static IFF_Bool gt_check(const IFF_ID t) { calls.push_back({'t', t}); return refuse_type && --refuse_type == 0 ? FALSE : IFF_checkId(t); }
static IFF_Bool gs_check(const IFF_Group *g, const IFF_Chunk *s) { calls.push_back({'s', s->chunkId}); (void)g; if(refuse_sub && --refuse_sub == 0) return FALSE; return s->chunkId != NOPE && s->chunkId != PROP; }
static IFF_Bool g_read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { return IFF_readGroup(f, c, "groupType", r, p); }
static IFF_Bool g_write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { return IFF_writeGroup(f, c, "groupType", r, p); }
static IFF_Bool g_check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { return IFF_checkGroup((const IFF_Group*)c, &gt_check, &gs_check, r); }
static void g_free(IFF_Chunk *c, const IFF_ChunkRegistry *r) { IFF_freeGroup((IFF_Group*)c, r); }
static void g_print(const IFF_Chunk *c, const unsigned i, const IFF_ChunkRegistry *r) { IFF_printGroup((const IFF_Group*)c, i, "groupType", r); }
static IFF_Bool g_compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { return IFF_compareGroup((const IFF_Group*)a, (const IFF_Group*)b, r); }
static IFF_Chunk *v_create(const IFF_ID id, const IFF_Long size) { VGroup *v = (VGroup*)IFF_createChunk(id, size, sizeof(VGroup)); if(v) { IFF_initGroup((IFF_Group*)v, 0); v->version = 0; } return (IFF_Chunk*)v; }
static IFF_Bool v_read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { IFF_FieldStatus s = IFF_readUWordField(f, &((VGroup*)c)->version, c, "version", p); if(s != IFF_FIELD_MORE) return IFF_deriveSuccess(s); return IFF_readGroup(f, c, "groupType", r, p); }
static IFF_Bool v_write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *p) { IFF_FieldStatus s = IFF_writeUWordField(f, ((const VGroup*)c)->version, c, "version", p); if(s != IFF_FIELD_MORE) return IFF_deriveSuccess(s); return IFF_writeGroup(f, c, "groupType", r, p); }
static IFF_Bool v_check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { IFF_Long n; return gt_check(((const IFF_Group*)c)->groupType) && (n = IFF_checkGroupSubChunks((const IFF_Group*)c, &gs_check, r)) != -1 && IFF_checkGroupChunkSize((const IFF_Group*)c, n + 6); }
static void v_print(const IFF_Chunk *c, const unsigned i, const IFF_ChunkRegistry *r) { IFF_printIndent(stdout, i, "version = %u;\n", ((const VGroup*)c)->version); IFF_printGroupType("groupType", ((const IFF_Group*)c)->groupType, i); IFF_printGroupSubChunks((const IFF_Group*)c, i, r); }
static IFF_Bool v_compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { return ((const VGroup*)a)->version == ((const VGroup*)b)->version && IFF_compareGroup((const IFF_Group*)a, (const IFF_Group*)b, r); }
static IFF_ChunkType gtypes[] = {
    {CATT, &IFF_createUnparsedCAT, &IFF_readCAT, &IFF_writeCAT, &IFF_checkCAT, &IFF_freeCAT, &IFF_printCAT, &IFF_compareCAT},
    {FORM, &IFF_createUnparsedForm, &IFF_readForm, &IFF_writeForm, &IFF_checkForm, &IFF_freeForm, &IFF_printForm, &IFF_compareForm},
    {GRP, &IFF_createUnparsedGroup, &g_read, &g_write, &g_check, &g_free, &g_print, &g_compare},
    {LIST, &IFF_createUnparsedList, &IFF_readList, &IFF_writeList, &IFF_checkList, &IFF_freeList, &IFF_printList, &IFF_compareList},
    {PROP, &IFF_createUnparsedProp, &IFF_readProp, &IFF_writeProp, &IFF_checkProp, &IFF_freeProp, &IFF_printProp, &IFF_compareProp},
    {VGR, &v_create, &v_read, &v_write, &v_check, &g_free, &v_print, &v_compare}};
static IFF_ChunkType stypes[] = {gtypes[2], gtypes[5]};
static IFF_ChunkTypesNode gnode = {6, gtypes, nullptr}, snode = {2, stypes, nullptr};
static IFF_FormChunkTypes sforms[] = {{TA, &snode}};
static const IFF_ChunkRegistry everywhere = {0, nullptr, &gnode, &IFF_defaultChunkType}, scoped = {1, sforms, &IFF_globalChunkTypesNode, &IFF_defaultChunkType};
static const IFF_ChunkRegistry *const regs[2] = {&everywhere, &scoped};

// the model with such groups: the version of a VGRP is in `data`
static void size2(Node &n) { if(!grouplike(n)) { n.size = n.data.size(); return; } u64 s = n.id == VGR ? 6 : 4; for(auto *v : {&n.props, &n.kids}) for(auto &k : *v) { size2(k); s += 8 + padded(k.size); } n.size = s; }
static void ser2(const Node &n, std::string &o, bool head = true)
{
    if(head) { put32(o, n.id); put32(o, n.size); }
    if(grouplike(n)) { if(n.id == VGR) o += n.data; put32(o, n.type); for(auto *v : {&n.props, &n.kids}) for(auto &k : *v) ser2(k, o); } else o += n.data;
    if(head && n.size & 1) o += (char)0;
}
static std::string bytes2(const Node &n) { std::string o; ser2(n, o); return o; }
static bool is_custom(const Node &n, u32 scope, int r) { return custom(n.id) && n.type && (r == 0 || scope == TA); }
// where the types are not registered, such a chunk is a data chunk
static Node plain(const Node &n, u32 scope, int r)
{
    if(!grouplike(n)) return n;
    if(custom(n.id) && !is_custom(n, scope, r)) { std::string b; ser2(n, b, false); Node x = mkraw(n.id, b); return x; }
    Node x = n; for(auto *v : {&x.props, &x.kids}) for(auto &k : *v) k = plain(k, n.type, r); return x;
}
static bool valid2(const Node &n, u32 scope, int r)
{
    if(!n.is_group() && !is_custom(n, scope, r)) return n.id == FILL || ok_id(n.id);
    u64 s = n.id == VGR ? 6 : 4; for(auto *v : {&n.props, &n.kids}) for(auto &k : *v) { if(k.size < 0 || !valid2(k, n.type, r)) return false; s += 8 + padded(k.size); }
    if(s != (u64)n.size) return false;
    if(n.id == FORM ? !ok_formtype(n.type) : n.id == PROP ? n.type != LIST && !ok_formtype(n.type) : !ok_id(n.type)) return false;
    for(size_t i = 0; i < n.props.size(); i++) for(size_t j = 0; j < i; j++) if(n.props[i].type == n.props[j].type) return false;
    for(auto &k : n.kids)
    {
        if(n.id == FORM && k.id == PROP) return false; if(n.id == PROP && k.is_group()) return false; if(custom(n.id) && (k.id == PROP || k.id == NOPE)) return false;
        if((n.id == CATT || n.id == LIST) && (!k.is_group() || k.id == PROP || (n.type != JJJJ && k.type != n.type))) return false;
    }
    return true;
}
static void pp2(const Node &n, unsigned ind, u32 scope, int r, std::string &o)
{
    if(!n.is_group() && !is_custom(n, scope, r)) { o += pp(n, ind); return; }
    std::string in(2 * ind, ' '); o += in + "'" + idtext(n.id) + "' = {\n" + in + "  chunkSize = " + std::to_string(n.size) + ";\n";
    if(n.id == VGR) o += in + fmt("version = %u;\n", (unsigned char)n.data[0] << 8 | (unsigned char)n.data[1]);
    o += in + (custom(n.id) ? "groupType" : n.id == FORM || n.id == PROP ? "formType" : "contentsType") + " = '" + idtext(n.type) + "';\n";
    if(n.id == LIST) { o += in + "prop = [\n"; for(auto &p : n.props) pp2(p, ind + 1, n.type, r, o); o += in + "];\n"; }
    o += in + "[\n"; for(auto &k : n.kids) pp2(k, ind + 1, n.type, r, o); o += in + "];\n" + in + "}\n\n";
}
static Node back2(const IFF_Chunk *c, const IFF_Group *parent, u32 scope, int r, std::string &bad)
{
    Node n; n.id = c->chunkId; n.size = c->chunkSize; if(c->parent != parent && bad.empty()) bad = "a chunk does not refer to its parent";
    if(!n.is_group() && !(custom(n.id) && (r == 0 || scope == TA))) { if(n.size > 0) n.data.assign((const char*)((const IFF_RawChunk*)c)->chunkData, n.size); return n; }
    const IFF_Group *g = (const IFF_Group*)c; n.type = g->groupType;
    if(n.id == VGR) { u32 v = ((const VGroup*)c)->version; n.data = {(char)(v >> 8), (char)v}; }
    if(n.id == LIST) for(unsigned i = 0; i < ((const IFF_List*)c)->propLength; i++) n.props.push_back(back2((const IFF_Chunk*)((const IFF_List*)c)->prop[i], g, n.type, r, bad));
    for(unsigned i = 0; i < g->chunkLength; i++) n.kids.push_back(back2(g->chunk[i], g, n.type, r, bad));
    return n;
}
// built with the functions of the library; the stated sizes are those that adding gives
static IFF_Chunk *make2(const Node &n, u32 scope, int r)
{
    IFF_Chunk *c;
    if(!grouplike(n) || (custom(n.id) && !is_custom(n, scope, r))) { c = IFF_createRawChunk(n.id, n.data.size()); IFF_copyDataToRawChunkData((IFF_RawChunk*)c, (IFF_UByte*)n.data.data()); return c; }
    if(n.id == GRP) c = (IFF_Chunk*)IFF_createEmptyGroup(GRP, n.type);
    else if(n.id == VGR) { c = v_create(VGR, 6); ((VGroup*)c)->groupType = n.type; ((VGroup*)c)->version = (unsigned char)n.data[0] << 8 | (unsigned char)n.data[1]; }
    else c = n.id == FORM ? (IFF_Chunk*)IFF_createEmptyForm(n.type) : n.id == PROP ? (IFF_Chunk*)IFF_createEmptyProp(n.type) : n.id == CATT ? (IFF_Chunk*)IFF_createEmptyCATWithContentsType(n.type) : (IFF_Chunk*)IFF_createEmptyListWithContentsType(n.type);
    for(auto &p : n.props) IFF_addPropToList((IFF_List*)c, (IFF_Prop*)make2(p, n.type, r));
    for(auto &k : n.kids) IFF_addToGroup((IFF_Group*)c, make2(k, n.type, r));
    return c;
}
static std::vector<Node> base_trees(int n)
{
    Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(DB, "yy")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; Trees t(a); return t.upto(n);
}
// the nodes of a tree that become groups of the application
static void spots(Node &n, bool root, std::vector<Node*> &v) { if(n.id == FORM && !root) v.push_back(&n); for(auto *x : {&n.props, &n.kids}) for(auto &k : *x) spots(k, false, v); }

struct Found { std::vector<const void*> v; };
static void forms2(const Node &n, IFF_Chunk *c, u32 type, u32 scope, int r, std::vector<const void*> &o)
{
    if(!n.is_group() || n.id == PROP) return; if(n.id == FORM && n.type == type) { o.push_back(c); return; }
    for(size_t i = 0; i < n.kids.size(); i++) forms2(n.kids[i], ((IFF_Group*)c)->chunk[i], type, n.type, r, o);
}
struct Up { const Node *n; IFF_Chunk *c; };
static const void *lookup2(const std::vector<Up> &up, u32 id) // up: from the root down to the FORM
{
    const Up &f = up.back(); for(size_t i = 0; i < f.n->kids.size(); i++) if(f.n->kids[i].id == id) return ((IFF_Group*)f.c)->chunk[i];
    for(size_t j = up.size() - 1; j-- > 0;) if(up[j].n->id == LIST)
        for(size_t p = 0; p < up[j].n->props.size(); p++) if(up[j].n->props[p].type == f.n->type) { IFF_Group *g = (IFF_Group*)((IFF_List*)up[j].c)->prop[p]; for(size_t i = 0; i < up[j].n->props[p].kids.size(); i++) if(up[j].n->props[p].kids[i].id == id) return g->chunk[i]; break; }
    return nullptr;
}
static void lookups2(Ctx &c, const Node &t, std::vector<Up> &up)
{
    Up u = up.back();
    if(u.n->id == FORM) for(u32 id : {DA, DB, GRP}) { const void *want = lookup2(up, id), *got = IFF_getChunkFromForm((IFF_Form*)u.c, id); c.trans(); if(got != want) c.fail("looking up '%s' in %s, a part of %s, gives %s", idtext(id).c_str(), desc(*u.n).c_str(), desc(t).c_str(), got ? "a wrong chunk" : "nothing"); }
    if(!grouplike(*u.n)) return;
    for(size_t i = 0; i < u.n->kids.size(); i++) { up.push_back({&u.n->kids[i], ((IFF_Group*)u.c)->chunk[i]}); lookups2(c, t, up); up.pop_back(); }
}

static void judge2(Ctx &c, const Node &t0, int r, bool faults)
{
    const IFF_ChunkRegistry *reg = regs[r]; Node t = plain(t0, 0, r); size2(t); std::string b = bytes2(t); bool ok = valid2(t, 0, r); diag_begin();
    std::string d = std::string(r ? "(in FORM TSTA) " : "") + desc(t) + " = " + hex(b, 60);
    al_begin(0xA5); refuse_type = refuse_sub = 0;
    {
        Chunk m(make2(t, 0, r), reg); std::string bad; Node n = back2(m, nullptr, 0, r, bad); c.trans(t.count());
        if(!(n == t) || !bad.empty()) c.fail("%s is built as %s %s", d.c_str(), desc(n).c_str(), bad.c_str());
        std::string o; if(!write_bytes(m, o, reg) || o != b) c.fail("%s is written as %s", d.c_str(), hex(o).c_str());
        Chunk x(read_bytes(b, reg), reg); if(!x.c) c.fail("%s is not read: %s", d.c_str(), g_diag.c_str());
        n = back2(x, nullptr, 0, r, bad); if(!(n == t) || !bad.empty()) c.fail("%s is read as %s %s", d.c_str(), desc(n).c_str(), bad.c_str());
        if(g_diag_calls) c.fail("diagnostics for %s: %s", d.c_str(), g_diag.c_str());
        for(IFF_Chunk *y : {m.c, x.c}) { bool got = IFF_check(y, reg); c.trans(); if(got != ok) c.fail("%s is %s: %s", d.c_str(), got ? "accepted" : "refused", g_diag.c_str()); }
        std::string w; pp2(t, 1, 0, r, w); std::string p = print_text(x, 1, reg); if(p != w) c.fail("%s is printed as\n%s\ninstead of\n%s", d.c_str(), p.c_str(), w.c_str());
        if(!IFF_compare(m, x, reg) || !IFF_compare(x, m, reg)) c.fail("%s differs from itself", d.c_str());
        c.trans(5);
        // the least difference anywhere is noticed, and only there
        std::vector<Node*> v; Node q = t; std::function<void(Node&)> fl = [&](Node &k) { v.push_back(&k); if(grouplike(k)) for(auto *s : {&k.props, &k.kids}) for(auto &j : *s) fl(j); }; fl(q);
        for(size_t i = 1; i < v.size(); i++) for(int k = 0; k < 2; k++)
        {
            Node old = *v[i]; if(k == 0 ? v[i]->data.empty() : v[i]->type == 0) continue;
            if(k == 0) v[i]->data.back() ^= 1; else v[i]->type ^= 0x100; // type's last letter but one
            Node q2 = q; bool same_shape = true; if(k == 1 && r == 1) same_shape = false; // another type may change which chunks are registered
            if(same_shape) { Chunk y(make2(q2, 0, r), reg); c.trans(2); if(IFF_compare(y, x, reg) || IFF_compare(m, y, reg)) c.fail("a difference at node %zu of %s is not noticed", i, d.c_str()); }
            *v[i] = old;
        }
        // wrong sizes are noticed by the check at whatever group
        std::vector<IFF_Chunk*> lv; std::vector<Node*> nv; std::function<void(Node&, IFF_Chunk*)> fl2 = [&](Node &k, IFF_Chunk *y) { lv.push_back(y); nv.push_back(&k); IFF_Group *g = (IFF_Group*)y; if(!grouplike(k)) return; for(size_t j = 0; j < k.props.size(); j++) fl2(k.props[j], (IFF_Chunk*)((IFF_List*)y)->prop[j]); for(size_t j = 0; j < k.kids.size(); j++) fl2(k.kids[j], g->chunk[j]); };
        Node tt = t; fl2(tt, m);
        for(size_t i = 0; i < lv.size(); i++) if(lv[i]->parent == nullptr || nv[i]->is_group() || (custom(nv[i]->id) && nv[i]->type)) for(int dlt : {-2, -1, 1, 2, 4})
        {
            int32_t s = nv[i]->size; nv[i]->size += dlt; lv[i]->chunkSize += dlt; bool want = valid2(tt, 0, r), got = IFF_check(m, reg); c.trans(); nv[i]->size = s; lv[i]->chunkSize = s;
            if(got != want) c.fail("with a size of %d at node %zu, %s is %s", s + dlt, i, d.c_str(), got ? "accepted" : "refused");
        }
        // searching does not look into what is not a group of the format; properties are found through any parents
        for(u32 ty : {TA, TB}) { unsigned k = 99; IFF_Form **f = IFF_searchForms(m, ty, &k); std::vector<const void*> want; forms2(t, m, ty, 0, r, want); c.trans(); if(k != want.size()) c.fail("searching %s finds %u instead of %zu", d.c_str(), k, want.size()); for(unsigned i = 0; i < k; i++) if(f[i] != want[i]) c.fail("searching %s finds another FORM at %u", d.c_str(), i); free(f); }
        std::vector<Up> up = {{&t, m.c}}; lookups2(c, t, up);
        std::string bad2; if(!(back2(m, nullptr, 0, r, bad2) == t) || !(back2(x, nullptr, 0, r, bad2) == t) || !bad2.empty()) c.fail("inspecting %s changed it", d.c_str());
    }
    if(al_live()) c.fail("memory is left after using %s", d.c_str());
    al_end(); c.validated(); c.state(hash_str(b, r));
    if(faults)
    {
        for(size_t k = 0; k < b.size(); k++) { al_begin(0xA5); std::string cut = b.substr(0, k); for(int err = 0; err < 2; err++) { MemIn mi; FILE *f = open_in(&mi, err ? b : cut, true); if(err) mi.fail_at = k; IFF_Chunk *x = IFF_readFd(f, reg); fclose(f); c.trans(); if(x) c.fail("%s is read although it ends at %zu", d.c_str(), k); } if(al_live()) c.fail("%s, cut at %zu, leaves memory allocated", d.c_str(), k); al_end(); }
        for(size_t k = 0; k < b.size(); k++) { al_begin(0xA5); { Chunk m(make2(t, 0, r), reg); MemOut mo; mo.budget = k; FILE *f = open_out(&mo, k & 1); bool w = IFF_writeFd(f, m, reg); fclose(f); c.trans(); if(w) c.fail("%s is written to a medium of %zu bytes", d.c_str(), k); } if(al_live()) c.fail("memory left"); al_end(); }
        for(int mode = 0; mode < 2; mode++) for(u64 k = 1;; k++)
        {
            al_begin(0xA5); MemIn mi; FILE *f = open_in(&mi, b, true); u64 before = al_count(); al_fail(before + k, mode); IFF_Chunk *x = IFF_readFd(f, reg); bool reached = al_count() >= before + k; al_fail(0, 0); fclose(f); c.trans();
            if(x && mode && reached) c.fail("%s is read without memory", d.c_str()); if(!x && !reached) c.fail("%s is not read", d.c_str());
            if(x) { std::string bad; if(!(back2(x, nullptr, 0, r, bad) == t)) c.fail("%s is read as something else when allocation %lu fails", d.c_str(), k); IFF_free(x, reg); }
            if(al_live()) c.fail("%s leaves memory allocated when allocation %lu fails", d.c_str(), k); al_end(); if(!reached) break;
        }
        // the application's rules are asked and obeyed: one refusal anywhere makes the whole refused
        if(ok) for(int what = 0; what < 2; what++) for(long k = 1;; k++)
        {
            Chunk m(make2(t, 0, r), reg); calls.clear(); refuse_type = what ? 0 : k; refuse_sub = what ? k : 0; bool got = IFF_check(m, reg), used = what ? refuse_sub == 0 : refuse_type == 0; refuse_type = refuse_sub = 0; c.trans();
            if(got == used) c.fail("%s is %s although the application %s its %ld. %s", d.c_str(), got ? "accepted" : "refused", used ? "refuses" : "allows", k, what ? "member" : "type");
            if(!used)
            {
                std::vector<std::pair<char, u32>> want; std::function<void(const Node&, u32)> as = [&](const Node &n, u32 s) { if(is_custom(n, s, r)) { want.push_back({'t', n.type}); for(auto &j : n.kids) want.push_back({'s', j.id}); } if(n.is_group() || is_custom(n, s, r)) for(auto *z : {&n.props, &n.kids}) for(auto &j : *z) as(j, n.type); }; as(t, 0);
                std::sort(want.begin(), want.end()); std::sort(calls.begin(), calls.end()); if(calls != want) c.fail("checking %s asks the application %zu questions instead of %zu", d.c_str(), calls.size(), want.size());
                break;
            }
        }
    }
    if(c.noting()) c.note(d);
}

// ---- the functions of each kind ------------------------------------------------------------------------------------------------
struct Kind { u32 id; const IFF_ChunkType *t; };
static const IFF_ChunkType &kind(u32 id) { for(auto &x : gtypes) if(x.chunkId == id && !custom(id)) return x; return IFF_defaultChunkType; }
static IFF_Bool kread(u32 id, FILE *f, IFF_Chunk *c, IFF_Long *p) { switch(id) { case FORM: return IFF_readForm(f, c, DEF, p); case CATT: return IFF_readCAT(f, c, DEF, p); case LIST: return IFF_readList(f, c, DEF, p); case PROP: return IFF_readProp(f, c, DEF, p); } return IFF_readRawChunk(f, c, DEF, p); }
static IFF_Bool kwrite(u32 id, FILE *f, const IFF_Chunk *c, IFF_Long *p) { switch(id) { case FORM: return IFF_writeForm(f, c, DEF, p); case CATT: return IFF_writeCAT(f, c, DEF, p); case LIST: return IFF_writeList(f, c, DEF, p); case PROP: return IFF_writeProp(f, c, DEF, p); } return IFF_writeRawChunk(f, c, DEF, p); }
static IFF_Bool kcheck(u32 id, const IFF_Chunk *c) { switch(id) { case FORM: return IFF_checkForm(c, DEF); case CATT: return IFF_checkCAT(c, DEF); case LIST: return IFF_checkList(c, DEF); case PROP: return IFF_checkProp(c, DEF); } return IFF_checkRawChunk(c, DEF); }
static void kprint(u32 id, const IFF_Chunk *c, unsigned i) { switch(id) { case FORM: IFF_printForm(c, i, DEF); return; case CATT: IFF_printCAT(c, i, DEF); return; case LIST: IFF_printList(c, i, DEF); return; case PROP: IFF_printProp(c, i, DEF); return; } IFF_printRawChunk(c, i, DEF); }
static IFF_Bool kcompare(u32 id, const IFF_Chunk *a, const IFF_Chunk *b) { switch(id) { case FORM: return IFF_compareForm(a, b, DEF); case CATT: return IFF_compareCAT(a, b, DEF); case LIST: return IFF_compareList(a, b, DEF); case PROP: return IFF_compareProp(a, b, DEF); } return IFF_compareRawChunk(a, b, DEF); }
static IFF_Chunk *kcreate(u32 id, int32_t s) { switch(id) { case FORM: return IFF_createUnparsedForm(id, s); case CATT: return IFF_createUnparsedCAT(id, s); case LIST: return IFF_createUnparsedList(id, s); case PROP: return IFF_createUnparsedProp(id, s); } return IFF_createRawChunk(id, s); }
static void kfree(u32 id, IFF_Chunk *c) { switch(id) { case FORM: IFF_freeForm(c, DEF); break; case CATT: IFF_freeCAT(c, DEF); break; case LIST: IFF_freeList(c, DEF); break; case PROP: IFF_freeProp(c, DEF); break; default: IFF_freeRawChunk(c, DEF); } free(c); }
static void kupdate(u32 id, IFF_Chunk *c) { switch(id) { case FORM: IFF_updateFormChunkSizes((IFF_Form*)c); break; case CATT: IFF_updateCATChunkSizes((IFF_CAT*)c); break; case LIST: IFF_updateListChunkSizes((IFF_List*)c); break; case PROP: IFF_updatePropChunkSizes((IFF_Prop*)c); } }
static bool group_valid(const Node &n) { Node m = mkgroup(FORM, TA, {n}); m.size = 4 + 8 + padded((u32)n.size); return valid2(n, 0, 1); }

static void bodies(Ctx &c, const Node &t)
{
    diag_begin(); al_begin(0xA5); std::string d = desc(t); u32 id = t.id; std::string b; ser2(t, b, false); bool ok = valid2(t, 0, 1); std::string bad;
    {
        Chunk m(to_lib(t)); c.trans(9);
        for(IFF_Long from : {0}) { MemOut mo; FILE *f = open_out(&mo); IFF_Long p = from; bool w = kwrite(id, f, m, &p); fclose(f); if(!w || mo.buf != b || p != from + (IFF_Long)b.size()) c.fail("the body of %s is written as %s, and %d bytes are counted", d.c_str(), hex(mo.buf).c_str(), p); }
        { std::string s = b + "TRAIL"; MemIn mi; FILE *f = open_in(&mi, s); IFF_Long p = 0; IFF_Chunk *x = kcreate(id, t.size); bool w = kread(id, f, x, &p); fclose(f);
          if(!w || p != (IFF_Long)b.size() || mi.pos != b.size()) c.fail("the body of %s is read %s, %d bytes are counted, %zu are taken", d.c_str(), w ? "well" : "not", p, mi.pos);
          if(!(back2(x, nullptr, 0, 1, bad) == t) || !bad.empty()) c.fail("the body of %s is read as %s %s", d.c_str(), desc(back2(x, nullptr, 0, 1, bad)).c_str(), bad.c_str());
          if(!kcompare(id, x, m) || !kcompare(id, m, x)) c.fail("the bodies of two %s differ", d.c_str());
          IFF_Long old = x->chunkSize; if(t.is_group()) { x->chunkSize += 2; if(!kcompare(id, x, m)) c.fail("the bodies of two %s differ in the size of their chunks", d.c_str()); x->chunkSize = old; }
          kfree(id, x); }
        { bool got = kcheck(id, m); if(t.is_group() ? got != ok : !got) c.fail("%s is %s by the check of its kind", d.c_str(), got ? "accepted" : "refused"); }
        for(u32 scope : {0u, TA}) { if(IFF_checkChunk(m, scope, DEF) != ok) c.fail("%s is judged wrongly by IFF_checkChunk", d.c_str()); MemOut mo; FILE *f = open_out(&mo); if(!IFF_writeChunk(f, m, scope, DEF) || mo.buf != bytes2(t)) c.fail("IFF_writeChunk writes %s as %s", d.c_str(), hex(mo.buf).c_str()); fclose(f);
            std::string s = bytes2(t) + "XY"; MemIn mi; f = open_in(&mi, s); IFF_Chunk *x = IFF_readChunk(f, scope, DEF); fclose(f); if(!x || mi.pos != s.size() - 2 || !(back2(x, nullptr, 0, 1, bad) == t)) c.fail("IFF_readChunk does not read %s, or takes %zu bytes", d.c_str(), mi.pos); if(!IFF_compareChunk(x, m, scope, DEF)) c.fail("IFF_compareChunk: %s differs", d.c_str()); IFF_freeChunk(x, scope, DEF); }
        for(unsigned ind : {0u, 2u})
        {
            std::string w = pp(t, ind), in(2 * ind, ' '); { Capture cap; IFF_printChunk(m, ind, 0, DEF); std::string p = cap.end(); if(p != w) c.fail("%s is printed as\n%s", d.c_str(), p.c_str()); }
            size_t at = w.find('\n', w.find('\n') + 1) + 1; w = w.substr(at, w.size() - at - in.size() - 3); Capture cap; kprint(id, m, ind); std::string p = cap.end(); if(p != w) c.fail("the body of %s is printed as\n%s\ninstead of\n%s", d.c_str(), p.c_str(), w.c_str());
        }
        if(t.is_group())
        {
            IFF_Group *g = (IFF_Group*)m.c; IFF_Long sub = 0; std::string sb; for(auto &k : t.kids) { sub += 8 + padded(k.size); ser2(k, sb); }
            for(IFF_Long from : {0, 4, 1000, 0x7fffffff - sub}) { MemOut mo; FILE *f = open_out(&mo); IFF_Long p = from; bool w = IFF_writeGroupSubChunks(f, g, DEF, &p); fclose(f); c.trans(); if(!w || mo.buf != sb || p != from + sub) c.fail("the members of %s are written as %s, and the count goes from %d to %d", d.c_str(), hex(mo.buf).c_str(), from, p); }
            { Capture cap; IFF_printGroupSubChunks(g, 3, DEF); std::string p = cap.end(), w = "      [\n"; for(auto &k : t.kids) w += pp(k, 4); w += "      ];\n"; if(p != w) c.fail("the members of %s are printed as\n%s", d.c_str(), p.c_str()); }
            { Capture cap; IFF_printGroup(g, 1, "some%sType", DEF); std::string p = cap.end(), w = "  some%sType = '" + idtext(t.type) + "';\n  [\n"; for(auto &k : t.kids) w += pp(k, 2); w += "  ];\n"; if(p != w) c.fail("the group %s is printed as\n%s", d.c_str(), p.c_str()); }
            bool kids_ok = true; for(auto &k : t.kids) kids_ok = kids_ok && valid2(k, 0, 1);
            for(long k = 0; k <= (long)t.kids.size(); k++)
            {
                calls.clear(); refuse_sub = k; IFF_Long got = IFF_checkGroupSubChunks(g, &gs_check, DEF); bool used = k && refuse_sub == 0; refuse_sub = 0; c.trans(); bool member = true; for(auto &x : t.kids) member = member && x.id != NOPE && x.id != PROP;
                IFF_Long want = used || !kids_ok || !member ? -1 : sub; if(got != want) c.fail("the members of %s are said to have %d bytes instead of %d, with refusal %ld", d.c_str(), got, want, k);
                if(got >= 0 && calls.size() != t.kids.size()) c.fail("%zu members of %s are asked for", calls.size(), d.c_str());
            }
            for(int32_t dl : {-1000, -4, -2, -1, 0, 1, 2, 4, 0x10000}) if(IFF_checkGroupChunkSize(g, t.size + dl) != (dl == 0)) c.fail("size %d of %s is judged wrongly", t.size + dl, d.c_str());
            { IFF_Group *a = g; Chunk y(to_lib(t)); if(!IFF_compareGroup(a, (IFF_Group*)y.c, DEF)) c.fail("the groups %s differ", d.c_str()); ((IFF_Group*)y.c)->groupType ^= 1; if(IFF_compareGroup(a, (IFF_Group*)y.c, DEF)) c.fail("the types of %s are not compared", d.c_str()); ((IFF_Group*)y.c)->groupType ^= 1; }
        }
        if(!(back2(m, nullptr, 0, 1, bad) == t) || !bad.empty()) c.fail("%s is changed by what was done", d.c_str());
    }
    if(al_live()) c.fail("memory is left after using the functions of %s", d.c_str());
    al_end(); c.validated(); c.state(hash_str(bytes2(t))); if(c.noting()) c.note(d);
}

// one level of sizes only: with members whose stated sizes are anything
static void one_level(Ctx &c, Node t, const std::vector<int32_t> &S)
{
    std::vector<Node*> v; flatten(t, v); std::string d0 = desc(t); al_begin(-1); diag_begin();
    {
        Chunk m(to_lib(t)); std::vector<IFF_Chunk*> l; std::function<void(const Node&, IFF_Chunk*)> fl = [&](const Node &n, IFF_Chunk *x) { l.push_back(x); if(!n.is_group()) return; for(size_t i = 0; i < n.props.size(); i++) fl(n.props[i], (IFF_Chunk*)((IFF_List*)x)->prop[i]); for(size_t i = 0; i < n.kids.size(); i++) fl(n.kids[i], ((IFF_Group*)x)->chunk[i]); }; fl(t, m);
        for(size_t i = 0; i < v.size(); i++) for(size_t j = 0; j < v.size(); j++) if(v[j]->is_group()) for(int32_t s : S)
        {
            for(size_t k = 0; k < v.size(); k++) l[k]->chunkSize = v[k]->size;
            l[i]->chunkSize = s; int64_t want = 4; for(auto *x : {&v[j]->kids, &v[j]->props}) for(auto &k : *x) { int32_t ks = &k == v[i] ? s : k.size; want = inc(want, ks); }
            for(int how = 0; how < 2; how++)
            {
                l[j]->chunkSize = how ? 77 : i == j ? s : v[j]->size; if(how && v[j]->id == LIST) continue;
                if(how) IFF_updateGroupChunkSizes((IFF_Group*)l[j]); else kupdate(v[j]->id, l[j]); c.trans();
                if(want < 0 ? l[j]->chunkSize >= 0 : l[j]->chunkSize != want) c.fail("updating node %zu of %s, where node %zu says %d, gives %d instead of %ld", j, d0.c_str(), i, s, l[j]->chunkSize, want);
                for(size_t k = 0; k < v.size(); k++) if(k != j && l[k]->chunkSize != (k == i ? s : v[k]->size)) c.fail("updating node %zu of %s changes node %zu", j, d0.c_str(), k);
            }
        }
        for(size_t k = 0; k < v.size(); k++) l[k]->chunkSize = v[k]->size;
        std::string bad; if(!(from_lib(m, nullptr, &bad) == t) || !bad.empty()) c.fail("updating sizes changes %s", d0.c_str());
    }
    if(al_live()) c.fail("memory is left"); al_end(); c.validated(); c.state(hash_str(ser(t))); if(c.noting()) c.note(d0);
}

void mc_main(Engine &E)
{
    E.assume("an application's group has the members of IFF_Group first, and its functions are composed of the group functions of the library");
    static std::vector<int32_t> S; S = sizes();
    E.scene("increment", S.size(), [](Ctx &c)
    {
        diag_begin(); int32_t a = S[c.job];
        for(int32_t b : S) for(int k = 0; k < 2; k++)
        {
            IFF_RawChunk raw; memset(&raw, 0x5c, sizeof raw); raw.chunkId = DA; IFF_List li; memset(&li, 0x5c, sizeof li); li.chunkId = LIST; IFF_Chunk *x = k ? (IFF_Chunk*)&li : (IFF_Chunk*)&raw; x->chunkSize = b;
            g_diag_calls = 0; IFF_Long got = IFF_incrementChunkSize(a, x); int64_t want = inc(a, b); c.trans();
            if(got != want) c.fail("%d with a member of %d gives %d instead of %ld", a, b, got, want);
            if((want < 0) != (g_diag_calls > 0)) c.fail("%d with a member of %d: %u diagnostics", a, b, g_diag_calls);
            if(x->chunkSize != b) c.fail("the member is changed");
        }
        c.execs(2 * S.size()); c.validated(2 * S.size()); c.state(c.job); c.note(fmt("from %d", a));
    });
    E.scene("group_size", S.size(), [](Ctx &c)
    {
        diag_begin(); for(int32_t b : S) { IFF_Group g; memset(&g, 0, sizeof g); g.chunkId = FORM; g.chunkSize = S[c.job]; g_diag_calls = 0; bool got = IFF_checkGroupChunkSize(&g, b); c.trans(); if(got != (b == S[c.job])) c.fail("sizes %d and %d are said to be %s", S[c.job], b, got ? "equal" : "different"); if(got != (g_diag_calls == 0)) c.fail("diagnostics for %d and %d", S[c.job], b); }
        c.execs(S.size()); c.validated(S.size()); c.state(c.job); c.note(fmt("size %d", S[c.job]));
    });
    // the members of a group that says anything, with sizes that say anything
    E.scene("group_of_sizes", S.size(), [](Ctx &c)
    {
        diag_begin(); int32_t a = S[c.job]; if(a < 0) return;
        for(int32_t b : S) if(b >= 0)
        {
            IFF_RawChunk r1, r2; memset(&r1, 0, sizeof r1); r1.chunkId = DA; r2 = r1; r1.chunkSize = a; r2.chunkSize = b; IFF_Chunk *v[2] = {(IFF_Chunk*)&r1, (IFF_Chunk*)&r2};
            IFF_Group g; memset(&g, 0, sizeof g); g.chunkId = FORM; g.groupType = TA; g.chunkLength = 2; g.chunk = v; int64_t sum = inc(inc(0, a), b), full = inc(inc(4, a), b);
            IFF_Long got = IFF_checkGroupSubChunks(&g, &gs_check, DEF); if(got != sum) c.fail("members of %d and %d have %d bytes instead of %ld", a, b, got, sum);
            for(int64_t s : {full, full - 1, full + 1, (int64_t)-1, (int64_t)0x7fffffff, (int64_t)INT32_MIN, (int64_t)INT32_MIN + 3}) if(s >= INT32_MIN && s <= 0x7fffffff) { g.chunkSize = s; bool ok = IFF_checkGroup(&g, &gt_check, &gs_check, DEF), want = full >= 0 && s == full; c.trans(); if(ok != want) c.fail("a group of %ld bytes with members of %d and %d is %s", s, a, b, ok ? "accepted" : "refused"); }
            g.chunkSize = 99; IFF_updateGroupChunkSizes(&g); if(full < 0 ? g.chunkSize >= 0 : g.chunkSize != full) c.fail("the size of a group with members of %d and %d is updated to %d", a, b, g.chunkSize);
            calls.clear();
        }
        c.execs(S.size()); c.validated(S.size()); c.state(c.job); c.note(fmt("members of %d and any", a));
    });
    static std::vector<Node> T; { Alphabet a; a.raws = {mkraw(DA, ""), mkraw(DB, "abc"), mkraw(TEXT, "hi")}; a.formtypes = {TA}; a.conttypes = {TA, JJJJ}; Trees t(a); T = t.upto(E.thorough ? 5 : 4); }
    static std::vector<int32_t> few = {0, 1, 2, 3, 4, 5, 255, 256, 65535, 0x7ffffff2, 0x7ffffff3, 0x7ffffff4, 0x7ffffff8, 0x7fffffff, -1, INT32_MIN};
    E.scene("one_level", T.size(), [](Ctx &c) { one_level(c, T[c.job], few); });
    static std::vector<Node> P; // every part of every tree, deviations included
    { std::set<std::string> seen; Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "hi"), mkraw(FILL, "")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; Trees t(a); auto all = t.upto(E.thorough ? 5 : 4); a.legal_only = false; a.raws = {mkraw(DA, "x"), mkraw(NOPE, "")}; a.formtypes = {TA, JJJJ}; for(auto &n : t.upto(E.thorough ? 4 : 3)) all.push_back(n);
      for(auto &n : all) { std::vector<Node*> v; flatten(n, v); for(auto *k : v) { if(k->id == LIST) { bool misplaced = false; for(auto &x : k->kids) misplaced |= x.id == PROP; if(misplaced) continue; } if(seen.insert(ser(*k)).second) P.push_back(*k); } } }
    E.scene("bodies", P.size(), [](Ctx &c) { bool nested = false; std::function<void(const Node&)> chk = [&](const Node &n) { if(n.id == LIST) for(auto &k : n.kids) if(k.id == PROP) nested = true; for(auto &k : n.kids) chk(k); for(auto &k : n.props) chk(k); }; chk(P[c.job]); if(!nested) bodies(c, P[c.job]); });
    // a group too small for its type: nothing is taken, nothing is written
    E.scene("tiny_groups", 4 * 4, [](Ctx &c)
    {
        static const u32 ids[4] = {FORM, CATT, LIST, PROP}; u32 id = ids[c.job / 4]; int32_t s = c.job % 4; diag_begin(); al_begin(0xA5); IFF_Chunk *x = kcreate(id, s); std::string in = "TSTADATA"; MemIn mi; FILE *f = open_in(&mi, in); IFF_Long p = 0; bool ok = kread(id, f, x, &p); fclose(f);
        if(!ok || p || mi.pos) c.fail("reading a '%s' of %d bytes takes %zu bytes and counts %d", idtext(id).c_str(), s, mi.pos, p); MemOut mo; f = open_out(&mo); ok = kwrite(id, f, x, &p); fclose(f); if(!ok || p || !mo.buf.empty()) c.fail("writing a '%s' of %d bytes gives %s", idtext(id).c_str(), s, hex(mo.buf).c_str());
        kfree(id, x); if(al_live()) c.fail("memory is left"); al_end(); c.trans(3); c.validated(); c.state(c.job); c.note(fmt("%s of %d", idtext(id).c_str(), s));
    });
    E.scene("merge", 6 * 6 * 2, [](Ctx &c)
    {
        unsigned a = c.job / 2 % 6, b = c.job / 12; bool fail = c.job & 1; diag_begin(); al_begin(0xA5); IFF_Form *f[16]; for(int i = 0; i < 16; i++) f[i] = (IFF_Form*)(uintptr_t)(0x1000 + 16 * i);
        IFF_Form **t = a ? (IFF_Form**)malloc(a * sizeof *t) : nullptr; for(unsigned i = 0; i < a; i++) t[i] = f[i]; unsigned n = a; if(fail) al_fail(al_count() + 1, 1); IFF_Form **r = IFF_mergeFormArray(t, &n, f + 8, b); al_fail(0, 0); c.trans();
        unsigned want = fail ? a : a + b; if(n != want) c.fail("merging %u and %u gives %u", a, b, n); for(unsigned i = 0; i < n; i++) if(r[i] != (i < a ? f[i] : f[8 + i - a])) c.fail("merging %u and %u: element %u is wrong", a, b, i); if(fail && b && !g_diag_calls) c.fail("a failure is not explained");
        free(r); if(al_live()) c.fail("memory is left"); al_end(); c.validated(); c.state(c.job); c.note(fmt("%u and %u%s", a, b, fail ? " without memory" : ""));
    });
    // IDs and indentation: every byte at every place
    E.scene("texts", 4 * 6, [](Ctx &c)
    {
        static const u32 ctx[6] = {0x41424344, 0, 0xffffffff, 0x20202020, 0x25732564, 0x0a0d0927}; int lane = c.job % 4; diag_begin();
        for(u32 v = 0; v < 256; v++) { u32 id = (ctx[c.job / 4] & ~(0xffu << (8 * lane))) | v << (8 * lane); { Capture cap; IFF_printId(id); if(cap.end() != idtext(id)) c.fail("the ID %08x is printed wrongly", id); } { Capture cap; IFF_printGroupType("x%d", id, v % 5); if(cap.end() != std::string(2 * (v % 5), ' ') + "x%d = '" + idtext(id) + "';\n") c.fail("the type %08x is printed wrongly", id); } c.trans(2); }
        c.execs(512); c.validated(512); c.state(c.job); c.note(fmt("context %08x", ctx[c.job / 4]));
    });
    // names of group types: texts of any length with any characters
    E.scene("type_names", 64, [](Ctx &c)
    {
        u64 n = 0; diag_begin(); std::vector<std::string> names;
        if(c.job < 60) for(size_t k = c.job; k < 420; k += 60) names.push_back(padded_name("", k)); else if(c.job == 60) for(size_t k : {511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 70000}) names.push_back(std::string(k, 'n')); else if(c.job == 61) for(int b = 1; b < 256; b++) names.push_back(std::string("a") + (char)b + "z"); else if(c.job == 62) names = {"%s", "%n%n", "%%", "%", "a%5", "\\n", "'"}; else for(int b = 1; b < 256; b++) for(int e : {'%', 'd', 's', '\n'}) names.push_back({(char)b, (char)e});
        Node t = fixed(mkgroup(FORM, TA, {mkraw(DA, "x"), mkgroup(FORM, TB)})); Chunk m(to_lib(t)); std::string kids; 
        for(auto &x : names) for(unsigned ind : {0u, 1u, 7u}) { std::string in(2 * ind, ' '), head = in + x + " = 'TSTA';\n", body = in + "[\n"; for(auto &k : t.kids) body += pp(k, ind + 1); body += in + "];\n"; { Capture cap; IFF_printGroupType(x.c_str(), TA, ind); if(cap.end() != head) c.fail("a group type with the name \"%s\" is printed wrongly", x.substr(0, 100).c_str()); } { Capture cap; IFF_printGroup((IFF_Group*)m.c, ind, x.c_str(), DEF); std::string p = cap.end(); if(p != head + body) c.fail("a group whose type has the name \"%s\" is printed as\n%s", x.substr(0, 100).c_str(), p.c_str()); } n += 2; c.trans(2); c.state(comb(hash_str(x), ind)); }
        c.execs(n); c.validated(n); c.note(fmt("%zu names", names.size()));
    });
    // chunks of an application may have any size in memory, all of which is theirs
    E.scene("structures", 64, [](Ctx &c)
    {
        diag_begin(); u64 n = 0;
        for(size_t z = sizeof(IFF_Chunk) + c.job; z <= 5000; z += 64) for(int32_t s : {0, 1, 4, 0x7fffffff, -1, INT32_MIN})
        {
            al_begin(0xA5); IFF_Chunk *x = IFF_createChunk(0x12345678 + n, s, z); c.trans(); n++; if(!x) c.fail("a chunk of %zu bytes is not created", z);
            if(x->chunkId != 0x12345678 + n - 1 || x->chunkSize != s || x->parent) c.fail("a chunk with %zu bytes in memory is not as asked for", z); if(al_live_bytes() < z) c.fail("a chunk with %zu bytes in memory gets %lu", z, al_live_bytes()); memset(x, 0x5a, z); free(x); if(al_live()) c.fail("memory is left"); al_end();
        }
        c.execs(n); c.validated(n); c.state(c.job); c.note("structures of up to 5000 bytes");
    });
    // the latest group that a chunk is put into is its parent, whatever was its parent before
    E.scene("attach", 5 * 6 * 6, [](Ctx &c)
    {
        static const u32 gids[5] = {FORM, CATT, LIST, PROP, GRP}; u32 first = gids[c.job % 5]; int how1 = c.job / 5 % 6, how2 = c.job / 30; diag_begin(); u64 n = 0;
        auto mk = [&](u32 id) { return id == LIST ? (IFF_Group*)IFF_createEmptyListWithContentsType(JJJJ) : IFF_createEmptyGroup(id, id == CATT ? JJJJ : TA); };
        auto put = [&](IFF_Group *g, IFF_Chunk *x, int how) { switch(how) { case 0: return IFF_attachToGroup(g, x); case 1: return IFF_addToGroup(g, x); case 2: return IFF_addToForm((IFF_Form*)g, x); case 3: return g->chunkId == LIST ? IFF_addToListAndUpdateContentsType((IFF_List*)g, x) : IFF_addToCATAndUpdateContentsType((IFF_CAT*)g, x); case 4: return IFF_addToCAT((IFF_CAT*)g, x); default: return g->chunkId == LIST && x->chunkId == PROP ? IFF_addPropToList((IFF_List*)g, (IFF_Prop*)x) : IFF_addToProp((IFF_Prop*)g, x); } };
        for(u32 second : gids) for(Node k : {mkraw(DA, "xyz"), fixed(mkgroup(FORM, TA, {mkraw(DA, "1")})), fixed(mkgroup(PROP, TB))}) for(int before = 0; before < 3; before++)
        {
            al_begin(0xA5); IFF_Group *a = mk(first), *b = mk(second); IFF_Chunk *x = to_lib(k); std::vector<IFF_Chunk*> others;
            for(int i = 0; i < before; i++) { IFF_Chunk *o = to_lib(mkgroup(FORM, TA, {})); o->chunkSize = 4; others.push_back(o); if(!IFF_addToGroup(b, o)) c.fail("not added"); }
            u32 ty = a->groupType, ty2 = b->groupType; IFF_Long s2 = b->chunkSize; if(!put(a, x, how1) || x->parent != a) c.fail("a member of its first group, a '%s', has another parent", idtext(first).c_str()); (void)ty;
            if(!put(b, x, how2) || x->parent != b) c.fail("a member of its second group, a '%s' (first a '%s'), has another parent", idtext(second).c_str(), idtext(first).c_str());
            bool prop = how2 == 5 && second == LIST && k.id == PROP; IFF_Chunk **v = prop ? (IFF_Chunk**)((IFF_List*)b)->prop : b->chunk; unsigned len = prop ? ((IFF_List*)b)->propLength : b->chunkLength, want = prop ? 1 : before + 1;
            if(len != want || v[len - 1] != x || b->chunkLength != (unsigned)before + !prop) c.fail("a '%s' has %u members instead of %u, or another last one", idtext(second).c_str(), len, want); for(int i = 0; i < before; i++) if(b->chunk[i] != others[i] || others[i]->parent != b) c.fail("an earlier member of a '%s' is changed", idtext(second).c_str());
            if(b->chunkSize != s2 + (how2 ? (IFF_Long)(8 + padded(k.size)) : 0)) c.fail("putting %s into a '%s' makes its size %d", desc(k).c_str(), idtext(second).c_str(), b->chunkSize);
            if(how2 != 3 && b->groupType != ty2) c.fail("the type of a '%s' is changed", idtext(second).c_str()); std::string bad; Node back = from_lib(x, b, &bad); if(!(back == k) || !bad.empty()) c.fail("the member is changed"); if(g_diag_calls) c.fail("diagnostics: %s", g_diag.c_str());
            // taken out of the first group by hand
            if(how1 == 5 && first == LIST && k.id == PROP) ((IFF_List*)a)->propLength = 0; else a->chunkLength = 0;
            for(IFF_Group *g : {a, b}) { if(g->chunkId == GRP) { for(unsigned i = 0; i < g->chunkLength; i++) IFF_freeChunk(g->chunk[i], TA, DEF); free(g->chunk); free(g); } else IFF_freeChunk((IFF_Chunk*)g, 0, DEF); } if(al_live()) c.fail("memory is left: '%s' to '%s', ways %d and %d", idtext(first).c_str(), idtext(second).c_str(), how1, how2); al_end(); n++; c.trans(2); c.state(comb(c.job, comb(second, comb(k.id, before))));
        }
        c.execs(n); c.validated(n); c.note(fmt("from '%s', ways %d and %d", idtext(first).c_str(), how1, how2));
    });
    // groups of an application
    static std::vector<Node> B; B = base_trees(E.thorough ? 6 : 5); static std::atomic<u64> *cust = E.counter("hierarchies_with_groups_of_an_application");
    E.scene("own_groups", B.size() * 2, [](Ctx &c)
    {
        Node t = B[c.job / 2]; int r = c.job % 2; std::vector<Node*> v; spots(t, true, v); bool any = false;
        for(Node *n : v) { u32 k = c.choose(3); if(k) { any = true; n->id = k == 1 ? GRP : VGR; n->data = k == 2 ? std::string("\x12\xfe", 2) : ""; } }
        if(!any) return; ++*cust; judge2(c, t, r, t.count() <= 4);
    });
    E.scene("own_groups_variants", 4 * 4 * 5 * 2, [](Ctx &c)
    {
        // types, members and places that the application or the format refuses; groups in groups in groups
        static const u32 types[4] = {TA, mkid("abc."), mkid(" BAD"), mkid("A\x01" "BC")}; u64 j = c.job; u32 ty = types[j % 4]; j /= 4; int mem = j % 4; j /= 4; int place = j % 5; int r = j / 5;
        Node g = mkgroup(c.flag() ? GRP : VGR, ty); if(g.id == VGR) g.data = std::string("\x80\x01", 2);
        if(mem == 1) g.kids = {mkraw(NOPE, "12")}; if(mem == 2) g.kids = {mkgroup(PROP, TA, {mkraw(DA, "p")})}; if(mem == 3) g.kids = {mkraw(DA, "1"), mkgroup(CATT, TA, {mkgroup(FORM, TA)}), g, mkraw(DB, "")};
        Node t = place == 0 ? mkgroup(FORM, TA, {g, mkraw(DA, "z")}) : place == 1 ? mkgroup(CATT, JJJJ, {g}) : place == 2 ? mkgroup(LIST, TA, {mkgroup(FORM, TA, {g})}, {mkgroup(PROP, TA, {mkraw(DB, "p"), g})}) : place == 3 ? mkgroup(FORM, TB, {g, mkgroup(FORM, TA, {g})}) : mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkgroup(GRP, TA, {mkgroup(LIST, TA, {mkgroup(FORM, TA, {g})}, {mkgroup(PROP, TB, {mkraw(DA, "b")})})})})}, {mkgroup(PROP, TA, {mkraw(DA, "a")})});
        judge2(c, t, r, true);
    });
}
