// C06: running out of memory fails cleanly at every allocation.
#include "api.hpp"
#include "ext.hpp"
#include <memory>
#include <unistd.h>
// The tools' own functions belong to no library: if they are missing or take something else, their scene is left out.
enum { UNAVAILABLE = -12345 };
namespace missing { template<class... A> static int IFF_join(A...) { return UNAVAILABLE; } template<class... A> static int IFF_prettyPrint(A...) { return UNAVAILABLE; } }
extern "C" {
#if __has_include("../iffjoin/join.h")
#include "../iffjoin/join.h"
#endif
#if __has_include("../iffpp/pp.h")
#include "../iffpp/pp.h"
#endif
}
using namespace mc;
static int call_join(char **in, unsigned n, const char *out) { using namespace missing; return IFF_join(in, n, out); }
static int call_print(const char *in) { using namespace missing; return IFF_prettyPrint(in, 0); }

// One operation under test.  prepare() builds what exists before; run() performs the operation and tells whether it reported
// success; verify(success) looks at everything afterwards; cleanup() frees all.  A failure "reported" by a diagnostic only
// (searches) is passed to verify as well.
struct Op {
    std::string name;
    std::function<void()> prepare = []{}, cleanup = []{};
    std::function<bool()> run;
    std::function<std::string(bool, bool)> verify = [](bool, bool) { return std::string(); }; // (success, complete = nothing was injected); "" = fine
    bool frees_on_success = false; // the result of a successful run is owned by cleanup
};

static u64 drive(Ctx &c, const Op &op, unsigned limit_k = 1u << 30)
{
    u64 ex = 0;
    for(int all = 0; all < 2; all++)
        for(unsigned k = 0; k <= limit_k; k++) // k = 0: nothing fails
        {
            diag_begin(); al_begin(0xA5); al_cap((size_t)1 << 26);
            op.prepare();
            unsigned long base = al_count(), live0 = al_live();
            if(k) al_fail(base + k, all);
            bool ok = op.run();
            unsigned long used = al_count() - base, failed = al_failed(); unsigned diags = g_diag_calls;
            al_fail(0, 0);
            bool injected = failed > 0;
            std::string why = op.verify(ok, !injected);
            unsigned long live1 = al_live();
            c.trans(1); ex++;
            c.state(comb(comb(hash_str(op.name), k * 2 + all), comb(ok, comb(used, diags > 0))));
            if(c.noting()) c.note(fmt("%s: allocation %u of %lu fails%s -> %s, %u diagnostics, %lu blocks more than before", op.name.c_str(), k, used, all ? " and all later ones" : "", ok ? "success" : "failure", diags, live1 - live0));
            const char *when = k == 0 ? "" : all ? " and all later ones" : "";
            if(!why.empty()) c.fail("%s, allocation %u fails%s: %s", op.name.c_str(), k, when, why.c_str());
            if(!injected && !ok) c.fail("%s fails although memory is available: %s", op.name.c_str(), g_diag.c_str());
            if(!ok && live1 != live0) c.fail("%s, allocation %u fails%s: reports failure but leaves %ld blocks allocated", op.name.c_str(), k, when, (long)(live1 - live0));
            op.cleanup();
            if(al_live()) c.fail("%s, allocation %u fails%s: %lu blocks are never freed", op.name.c_str(), k, when, al_live());
            al_end();
            if(k && !injected) break; // k is larger than the number of allocations
            if(k == 0 && all) { }
        }
    c.validated(ex);
    return ex;
}

static std::string is_tree(const IFF_Chunk *l, const Node &n, const char *what)
{
    std::string bad; Node g = from_lib(l, nullptr, &bad);
    if(!bad.empty()) return bad + " in " + what;
    if(!(g == n)) return std::string(what) + " is " + desc(g) + " instead of " + desc(n);
    return "";
}
// every operation that does not allocate still works on the hierarchy
static std::string usable(IFF_Chunk *l, const Node &n)
{
    std::string w = is_tree(l, n, "the hierarchy that existed before"); if(!w.empty()) return w;
    bool want = conform(n);
    if((IFF_check(l, nullptr) != 0) != want) return "the hierarchy that existed before is judged differently";
    if(!IFF_compare(l, l, nullptr)) return "the hierarchy that existed before differs from itself";
    return "";
}

int main_never;
void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("allocations go through malloc, calloc and realloc; one allocation fails, or all from one on");
    static std::vector<Op> ops;
    static IFF_Chunk *r; // result of a constructor
    auto ctor = [&](const char *name, std::function<IFF_Chunk*()> f, Node want) {
        Op o; o.name = name; o.run = [f] { r = f(); return r != nullptr; };
        o.verify = [want](bool ok, bool) -> std::string { if(!ok) return ""; return is_tree(r, want, "the new chunk"); };
        o.cleanup = [] { if(r) IFF_free(r, nullptr); r = nullptr; };
        ops.push_back(o);
    };
    auto N = [](u32 id, int32_t size, u32 type) { Node n; n.id = id; n.size = size; n.type = type; return n; };
    { Op o; o.name = "IFF_createChunk"; o.run = [] { r = IFF_createChunk(DA, 7, 64); return r != nullptr; };
      o.verify = [](bool ok, bool) -> std::string { if(ok && (r->chunkId != DA || r->chunkSize != 7 || r->parent)) return "wrong chunk"; return ""; }; o.cleanup = [] { free(r); r = nullptr; }; ops.push_back(o); }
    ctor("IFF_createGroup FORM", [] { return (IFF_Chunk*)IFF_createGroup(FORM, 4, TA); }, N(FORM, 4, TA));
    ctor("IFF_createEmptyGroup CAT", [] { return (IFF_Chunk*)IFF_createEmptyGroup(CATT, TA); }, N(CATT, 4, TA));
    ctor("IFF_createUnparsedGroup", [] { return IFF_createUnparsedGroup(FORM, 0); }, N(FORM, 0, 0));
    ctor("IFF_createForm", [] { return (IFF_Chunk*)IFF_createForm(4, TA); }, N(FORM, 4, TA));
    ctor("IFF_createEmptyForm", [] { return (IFF_Chunk*)IFF_createEmptyForm(TA); }, N(FORM, 4, TA));
    ctor("IFF_createUnparsedForm", [] { return IFF_createUnparsedForm(FORM, 0); }, N(FORM, 0, 0));
    ctor("IFF_createProp", [] { return (IFF_Chunk*)IFF_createProp(4, TA); }, N(PROP, 4, TA));
    ctor("IFF_createEmptyProp", [] { return (IFF_Chunk*)IFF_createEmptyProp(TA); }, N(PROP, 4, TA));
    ctor("IFF_createUnparsedProp", [] { return IFF_createUnparsedProp(PROP, 0); }, N(PROP, 0, 0));
    ctor("IFF_createCAT", [] { return (IFF_Chunk*)IFF_createCAT(4, TA); }, N(CATT, 4, TA));
    ctor("IFF_createEmptyCAT", [] { return (IFF_Chunk*)IFF_createEmptyCAT(); }, N(CATT, 4, JJJJ));
    ctor("IFF_createEmptyCATWithContentsType", [] { return (IFF_Chunk*)IFF_createEmptyCATWithContentsType(TA); }, N(CATT, 4, TA));
    ctor("IFF_createUnparsedCAT", [] { return IFF_createUnparsedCAT(CATT, 0); }, N(CATT, 0, 0));
    ctor("IFF_createList", [] { return (IFF_Chunk*)IFF_createList(4, TA); }, N(LIST, 4, TA));
    ctor("IFF_createEmptyList", [] { return (IFF_Chunk*)IFF_createEmptyList(); }, N(LIST, 4, JJJJ));
    ctor("IFF_createEmptyListWithContentsType", [] { return (IFF_Chunk*)IFF_createEmptyListWithContentsType(TA); }, N(LIST, 4, TA));
    ctor("IFF_createUnparsedList", [] { return IFF_createUnparsedList(LIST, 0); }, N(LIST, 0, 0));
    for(int s : {1, 2, 100, 70000}) { Op o; o.name = fmt("IFF_createRawChunk %d", s); o.run = [s] { r = IFF_createRawChunk(DA, s); return r != nullptr; };
      o.verify = [s](bool ok, bool) -> std::string { if(ok && (r->chunkId != DA || r->chunkSize != s || !((IFF_RawChunk*)r)->chunkData)) return "wrong chunk"; return ""; }; o.cleanup = [] { if(r) IFF_free(r, nullptr); r = nullptr; }; ops.push_back(o); }

    // adding children: to each kind of group, with any number of children already there, through every function
    static IFF_Chunk *g, *ch; static Node gn, cn;
    struct Add { const char *name; u32 gid; bool prop; int how; };
    static const Add adds[] = {
        {"IFF_addToForm", FORM, false, 0}, {"IFF_addToProp", PROP, false, 1}, {"IFF_addToCAT", CATT, false, 2}, {"IFF_addToList", LIST, false, 3}, {"IFF_addPropToList", LIST, true, 4},
        {"IFF_addToCATAndUpdateContentsType", CATT, false, 5}, {"IFF_addToListAndUpdateContentsType", LIST, false, 6}, {"IFF_addToGroup", FORM, false, 7}, {"IFF_addToGroup(CAT)", CATT, false, 7}, {"IFF_attachToGroup", FORM, false, 8}, {"IFF_addToCAT(list)", LIST, false, 9}, {"IFF_addToForm(prop)", PROP, false, 10} };
    for(auto &a : adds) for(int have = 0; have <= (T ? 33 : 9); have++)
    {
        Op o; o.name = fmt("%s with %d children", a.name, have);
        bool data = a.gid == FORM || a.gid == PROP; bool prop = a.prop; int how = a.how; u32 gid = a.gid;
        o.prepare = [=] {
            gn = mkgroup(gid, gid == CATT || gid == LIST ? (have ? TA : JJJJ) : TA);
            for(int i = 0; i < have; i++) { if(prop) gn.props.push_back(mkgroup(PROP, TA + i, {mkraw(DA, "x")})); else gn.kids.push_back(data ? mkraw(DA, "abc") : mkgroup(FORM, TA)); }
            if(gid == LIST && !prop) gn.props.push_back(mkgroup(PROP, TB));
            fixsizes(gn); g = to_lib(gn); cn = fixed(prop ? mkgroup(PROP, TC, {mkraw(DA, "123")}) : data ? mkraw(DB, "12345") : mkgroup(FORM, TB, {mkraw(DA, "1")})); ch = to_lib(cn);
        };
        o.run = [=]() -> bool {
            switch(how) { case 0: return IFF_addToForm((IFF_Form*)g, ch); case 1: return IFF_addToProp((IFF_Prop*)g, ch); case 2: return IFF_addToCAT((IFF_CAT*)g, ch); case 3: return IFF_addToList((IFF_List*)g, ch);
                case 4: return IFF_addPropToList((IFF_List*)g, (IFF_Prop*)ch); case 5: return IFF_addToCATAndUpdateContentsType((IFF_CAT*)g, ch); case 6: return IFF_addToListAndUpdateContentsType((IFF_List*)g, ch);
                case 7: return IFF_addToGroup((IFF_Group*)g, ch); case 8: return IFF_attachToGroup((IFF_Group*)g, ch); case 9: return IFF_addToCAT((IFF_CAT*)g, ch); default: return IFF_addToForm((IFF_Form*)g, ch); } };
        o.verify = [=](bool ok, bool) -> std::string {
            if(!ok) { std::string w = is_tree(g, gn, "the group (adding failed)"); if(w.empty()) w = is_tree(ch, cn, "the child that was not added"); IFF_free(ch, nullptr); ch = to_lib(cn);
                if(!w.empty()) return w;
                // it is usable: adding works once there is memory again
                if(!(prop ? IFF_addPropToList((IFF_List*)g, (IFF_Prop*)ch) : IFF_addToGroup((IFF_Group*)g, ch))) return "adding again fails";
                Node n = gn; (prop ? n.props : n.kids).push_back(cn); fixsizes(n); w = is_tree(g, n, "the group after adding again");
                IFF_free(g, nullptr); g = to_lib(gn); ch = to_lib(cn); // as many blocks as before
                return w; }
            Node n = gn; (prop ? n.props : n.kids).push_back(cn); if(how == 8) { Node m = n; fixsizes(m); } else fixsizes(n);
            if(how == 5 || how == 6) n.type = have == 0 ? TB : JJJJ;
            std::string w = is_tree(g, n, "the group after adding"); ch = nullptr; return w; };
        o.cleanup = [] { if(ch) IFF_free(ch, nullptr); IFF_free(g, nullptr); ch = g = nullptr; };
        ops.push_back(o);
    }
    // text
    for(const char *text : {"x", "hello world", "0123456789012345678901234567890123456789"}) for(int old : {0, 5})
    {
        Op o; o.name = fmt("IFF_setTextData \"%s\" replacing %d bytes", text, old); std::string t = text;
        o.prepare = [=] { g = IFF_createRawChunk(TEXT, old); memset(((IFF_RawChunk*)g)->chunkData, 'o', old); };
        o.run = [=]() -> bool { return IFF_setTextData((IFF_RawChunk*)g, t.c_str()); };
        o.verify = [=](bool ok, bool) -> std::string { return is_tree(g, mkraw(TEXT, ok ? t : std::string(old, 'o')), "the text chunk"); };
        o.cleanup = [] { IFF_free(g, nullptr); g = nullptr; };
        ops.push_back(o);
    }
    E.scene("building", ops.size(), [](Ctx &c) { c.execs(drive(c, ops[c.job])); });

    // reading, then everything else, for many hierarchies
    Alphabet a; a.raws = {mkraw(DA, ""), mkraw(TEXT, "abc")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
    static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4);
    for(auto &b : big_trees(false, 5000)) if(b.n.count() <= 70) trees.push_back(b.n);
    E.fact("hierarchies", trees.size());
    E.scene("reading", trees.size(), [](Ctx &c)
    {
        const Node &n = trees[c.job]; std::string b = ser(n); u64 e = 0;
        for(int cut = 0; cut < 2; cut++) // also while reading a file that is truncated near its end
        {
            Op o; o.name = "IFF_readFd of " + desc(n) + (cut ? " truncated" : ""); std::string d = cut ? b.substr(0, b.size() - 1) : b;
            o.run = [&]() -> bool { r = read_bytes(d); return r != nullptr; };
            o.verify = [&](bool ok, bool) -> std::string { if(!ok) return g_diag_calls ? "" : "no diagnostic"; if(cut) return "a truncated file was read"; return is_tree(r, n, "the tree read"); };
            o.cleanup = [] { if(r) IFF_free(r, nullptr); r = nullptr; };
            if(cut) { // fails in any case: only crashes, leaks and partial results are looked for
                for(int all = 0; all < 2; all++) for(unsigned k = 1;; k++) { diag_begin(); al_begin(0xA5); al_fail(k, all); bool ok = o.run(); bool inj = al_failed(); al_fail(0, 0); e++; if(ok) c.fail("%s succeeds", o.name.c_str()); if(al_live()) c.fail("%s: allocation %u fails: %lu blocks left", o.name.c_str(), k, al_live()); al_end(); if(!inj) break; } }
            else e += drive(c, o);
        }
        c.execs(e);
    });
    E.scene("searching", trees.size(), [](Ctx &c)
    {
        const Node &n = trees[c.job]; u64 e = 0;
        struct Res { std::vector<const void*> v; }; 
        static std::vector<const void*> full; static IFF_Form **forms; static IFF_Chunk **chunks; static unsigned len; static IFF_Chunk *root;
        static const IFF_ID sets[3][2] = {{TA, TA}, {TB, TB}, {TA, TB}};
        for(int s = 0; s < 3; s++)
        {
            Op o; o.name = fmt("IFF_searchFormsFromArray %d in ", s) + desc(n); 
            o.prepare = [&] { root = to_lib(n); unsigned l; IFF_Form **f = IFF_searchFormsFromArray(root, sets[s], 2, &l); full.assign(f, f + l); free(f); };
            o.run = [&]() -> bool { unsigned before = g_diag_calls; len = 0xdeadbeef; forms = IFF_searchFormsFromArray(root, sets[s], 2, &len); return g_diag_calls == before; };
            o.verify = [&](bool ok, bool) -> std::string {
                // without a diagnostic the result is complete; with one it is a genuine part with a matching count
                if(len > full.size()) return fmt("count %u although only %zu forms match", len, full.size());
                if(ok && len != full.size()) return fmt("count %u instead of %zu and no diagnostic", len, full.size());
                if(len && !forms) return "count without an array";
                size_t at = 0; for(unsigned i = 0; i < len; i++) { while(at < full.size() && full[at] != forms[i]) at++; if(at++ >= full.size()) return "a result that is not a match, or out of order"; }
                free(forms); forms = nullptr; return usable(root, n); };
            o.cleanup = [&] { free(forms); forms = nullptr; IFF_free(root, nullptr); };
            e += drive(c, o);
        }
        if(n.id == FORM) for(u32 id : {DA, TEXT, FORM})
        {
            Op o; o.name = "IFF_getChunksFromForm in " + desc(n);
            o.prepare = [&] { root = to_lib(n); unsigned l; IFF_Chunk **f = IFF_getChunksFromForm((IFF_Form*)root, id, &l); full.assign(f, f + l); free(f); };
            o.run = [&]() -> bool { unsigned before = g_diag_calls; len = 0xdeadbeef; chunks = IFF_getChunksFromForm((IFF_Form*)root, id, &len); return g_diag_calls == before; };
            o.verify = [&](bool ok, bool) -> std::string {
                if(len > full.size()) return fmt("count %u although only %zu chunks match", len, full.size());
                if(ok && len != full.size()) return fmt("count %u instead of %zu and no diagnostic", len, full.size());
                if(len && !chunks) return "count without an array";
                for(unsigned i = 0; i < len; i++) if(chunks[i] != full[i]) return "a result that is not a match, or out of order";
                free(chunks); chunks = nullptr; return usable(root, n); };
            o.cleanup = [&] { free(chunks); chunks = nullptr; IFF_free(root, nullptr); };
            e += drive(c, o);
        }
        c.execs(e);
    });
    E.scene("using", trees.size(), [](Ctx &c)
    {
        // operations on an existing hierarchy: none of them needs memory on the documented path, but when one does it has to cope
        const Node &n = trees[c.job]; u64 e = 0; static IFF_Chunk *x, *y; static std::string out; std::string want = ser(n);
        auto op = [&](const char *name, std::function<bool()> run, std::function<std::string(bool)> ver) {
            Op o; o.name = std::string(name) + " " + desc(n); o.prepare = [&] { x = to_lib(n); y = to_lib(n); }; o.run = run;
            o.verify = [=](bool ok, bool) { std::string w = ver(ok); if(w.empty()) w = usable(x, n); if(w.empty()) w = usable(y, n); return w; };
            o.cleanup = [] { IFF_free(x, nullptr); IFF_free(y, nullptr); };
            e += drive(c, o); };
        op("IFF_writeFd", [&] { return write_bytes(x, out); }, [&](bool ok) { return ok && out != want ? std::string("incomplete output reported as a success") : std::string(); });
        op("IFF_check", [&] { unsigned d = g_diag_calls; return IFF_check(x, nullptr) || g_diag_calls == d; }, [](bool) { return std::string(); });
        op("IFF_compare", [&] { return IFF_compare(x, y, nullptr) != 0; }, [](bool) { return std::string(); });
        op("IFF_print", [&] { out = print_text(x); return true; }, [&](bool) { return out == pp(n) ? std::string() : std::string("output differs"); });
        op("IFF_updateChunkSizes", [&] { IFF_updateChunkSizes(x); return true; }, [](bool) { return std::string(); });
        if(n.id == FORM) op("IFF_getChunkFromForm", [&] { for(u32 id : {DA, TEXT, DB}) IFF_getChunkFromForm((IFF_Form*)x, id); return true; }, [](bool) { return std::string(); });
        c.execs(e);
    });
    // zero filling of stated sizes beyond the contents
    {
        static std::vector<Node> st; for(int extra : {1, 2, 5, 100, 5000}) for(u32 id : {FORM, CATT, LIST, PROP}) { Node k = mkgroup(id, TA); k.size = 4 + extra; st.push_back(k); if(id == FORM) { k = mkgroup(FORM, TA, {mkgroup(FORM, TB), mkraw(DA, "z")}); fixsizes(k); k.size += extra; k.kids[0].size += extra; st.push_back(k); } }
        E.scene("filling", st.size(), [](Ctx &c)
        {
            const Node &n = st[c.job]; static IFF_Chunk *x; static std::string out, ref;
            Op o; o.name = "IFF_writeFd with filler " + desc(n); o.prepare = [&] { x = to_lib(n); }; o.cleanup = [] { IFF_free(x, nullptr); };
            o.run = [&] { return write_bytes(x, out); };
            o.verify = [&](bool ok, bool complete) -> std::string { if(complete) ref = out; if(ok && out != ref) return "incomplete output reported as a success"; return is_tree(x, n, "the hierarchy"); };
            c.execs(drive(c, o));
        });
    }
    // extension chunks with their own memory
    {
        static std::vector<Node> et; 
        for(size_t s = 0; s < 9; s++) { et.push_back(fixed(mkgroup(FORM, TA, {mkraw(mkid("EXTA"), std::string(s, 'e')), mkraw(DA, "x")}))); et.push_back(fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(mkid("EXTA"), std::string(s, 'e'))})}, {mkgroup(PROP, TA, {mkraw(mkid("EXTA"), "123456789")})}))); }
        E.scene("extensions", et.size(), [](Ctx &c)
        {
            const Node &n = et[c.job]; std::string b = ser(n); Op o; o.name = "IFF_readFd with an extension registry " + desc(n);
            o.run = [&]() -> bool { r = read_bytes(b, &ext::registry); return r != nullptr; };
            o.verify = [&](bool ok, bool) -> std::string { if(!ok) return g_diag_calls ? "" : "no diagnostic"; std::string w; if(!write_bytes(r, w, &ext::registry)) return "cannot be written"; 
                std::string first; Node m = n; return w.size() == b.size() ? "" : "wrong size when written"; };
            o.cleanup = [] { if(r) IFF_free(r, &ext::registry); r = nullptr; };
            c.execs(drive(c, o));
        });
    }
    // the tools' own functions
    {
        static std::vector<std::vector<Node>> sets;
        std::vector<Node> f = { fixed(mkgroup(FORM, TA, {mkraw(DA, "x")})), fixed(mkgroup(CATT, TA, {mkgroup(FORM, TA)})), fixed(mkgroup(LIST, TB, {mkgroup(FORM, TB)}, {mkgroup(PROP, TB, {mkraw(DB, "12")})})), fixed(mkgroup(FORM, mkid("low."))) /* refused */ };
        for(auto &x : f) { sets.push_back({x}); for(auto &y : f) { sets.push_back({x, y}); for(auto &z : f) sets.push_back({x, y, z}); } }
        E.scene("tools", sets.size(), [](Ctx &c)
        {
            auto &s = sets[c.job]; std::string dir = fmt("%s/t%d-", ::E->tmpdir.c_str(), (int)getpid()); std::vector<std::string> names; std::vector<char*> argv; std::string out = dir + "out"; bool all_ok = true;
            for(size_t i = 0; i < s.size(); i++) { names.push_back(dir + std::to_string(i)); FILE *f = fopen(names[i].c_str(), "wb"); std::string b = ser(s[i]); fwrite(b.data(), 1, b.size(), f); fclose(f); if(!conform(s[i])) all_ok = false; }
            for(auto &x : names) argv.push_back((char*)x.c_str());
            u64 e = 0; std::string want; { Node k = mkgroup(CATT, s[0].type, s); for(auto &x : s) if(x.type != k.type) k.type = JJJJ; fixsizes(k); want = ser(k); }
            for(int all = 0; all < 2; all++) for(unsigned k = 0;; k++)
            {
                { FILE *f = fopen(out.c_str(), "wb"); fputs("OLD", f); fclose(f); }
                diag_begin(); al_begin(0xA5); if(k) al_fail(k, all);
                int st = call_join(argv.data(), argv.size(), out.c_str());
                bool inj = al_failed(); unsigned long live = al_live(); al_fail(0, 0); al_end(); e++;
                if(st == UNAVAILABLE) break;
                std::string got; { FILE *f = fopen(out.c_str(), "rb"); char b[4096]; size_t z; while((z = fread(b, 1, sizeof b, f)) > 0) got.append(b, z); fclose(f); }
                c.state(comb(comb(c.job, k * 2 + all), st));
                if(live) c.fail("IFF_join, allocation %u fails%s: %lu blocks left", k, all ? " and all later ones" : "", live);
                if(st == 0 && (!all_ok || got != want)) c.fail("IFF_join, allocation %u fails%s: success although the output is not the concatenation", k, all ? " and all later ones" : "");
                if(st != 0 && !inj && all_ok) c.fail("IFF_join fails although nothing is wrong");
                if(st != 0 && got != "OLD") c.fail("IFF_join, allocation %u fails%s: fails but alters its output", k, all ? " and all later ones" : "");
                if(k && !inj) break;
            }
            if(s.size() == 1) for(int all = 0; all < 2; all++) for(unsigned k = 0;; k++)
            {
                diag_begin(); al_begin(0xA5); if(k) al_fail(k, all);
                std::string txt; int st; { FILE *devnull = fopen("/dev/null", "w"); SwapOut se(&stderr, devnull); Capture cap; st = call_print(names[0].c_str()); txt = cap.end(); fclose(devnull); }
                bool inj = al_failed(); unsigned long live = al_live(); al_fail(0, 0); al_end(); e++;
                if(st == UNAVAILABLE) break;
                if(live) c.fail("IFF_prettyPrint, allocation %u fails: %lu blocks left", k, live);
                if(st == 0 && (!all_ok || txt != pp(s[0]))) c.fail("IFF_prettyPrint, allocation %u fails: success although the output is wrong", k);
                if(st != 0 && !inj && all_ok) c.fail("IFF_prettyPrint fails although nothing is wrong");
                if(st != 0 && !txt.empty()) c.fail("IFF_prettyPrint, allocation %u fails: fails but prints", k);
                if(k && !inj) break;
            }
            for(auto &x : names) unlink(x.c_str()); unlink(out.c_str());
            c.execs(e); c.validated(e); c.trans(e);
        });
    }
}
