// The reference model: a plain value tree, written from the IFF-85 text and the README, independent of the code.
#pragma once
#include "mc.hpp"
#include "iffall.hpp"
#include "stream.hpp"
#include <string>
#include <vector>

typedef uint32_t u32; typedef uint64_t u64;

constexpr u32 mkid(const char *s) { return (u32)(unsigned char)s[0] << 24 | (u32)(unsigned char)s[1] << 16 | (u32)(unsigned char)s[2] << 8 | (u32)(unsigned char)s[3]; }
static const u32 FORM = mkid("FORM"), CATT = mkid("CAT "), LIST = mkid("LIST"), PROP = mkid("PROP"), JJJJ = mkid("JJJJ"), TEXT = mkid("TEXT"), FILL = mkid("    ");

struct Node {
    u32 id = 0; int32_t size = 0; u32 type = 0;
    std::vector<Node> props, kids; // props: LIST only
    std::string data;
    bool is_group() const { return id == FORM || id == CATT || id == LIST || id == PROP; }
    size_t count() const { size_t n = 1; for(auto &p : props) n += p.count(); for(auto &k : kids) n += k.count(); return n; }
    size_t depth() const { size_t d = 0; for(auto &p : props) d = std::max(d, p.depth()); for(auto &k : kids) d = std::max(d, k.depth()); return d + 1; }
    bool operator==(const Node &o) const { return id == o.id && size == o.size && type == o.type && data == o.data && props == o.props && kids == o.kids; }
};
static inline Node mkraw(u32 id, const std::string &d) { Node n; n.id = id; n.data = d; n.size = (int32_t)d.size(); return n; }
static inline Node mkgroup(u32 id, u32 type, std::vector<Node> kids = {}, std::vector<Node> props = {}) { Node n; n.id = id; n.type = type; n.kids = kids; n.props = props; n.size = 4; return n; }

static inline u64 padded(u64 n) { return n + (n & 1); }
static inline void fixsizes(Node &n)
{
    if(!n.is_group()) { n.size = (int32_t)n.data.size(); return; }
    u64 s = 4;
    for(auto &p : n.props) { fixsizes(p); s += 8 + padded(p.size); }
    for(auto &k : n.kids) { fixsizes(k); s += 8 + padded(k.size); }
    n.size = (int32_t)s;
}
static inline Node fixed(Node n) { fixsizes(n); return n; }

static inline void put32(std::string &o, u32 v) { o += (char)(v >> 24); o += (char)(v >> 16); o += (char)(v >> 8); o += (char)v; }
static inline u32 get32(const std::string &s, size_t p) { return (u32)(unsigned char)s[p] << 24 | (u32)(unsigned char)s[p + 1] << 16 | (u32)(unsigned char)s[p + 2] << 8 | (u32)(unsigned char)s[p + 3]; }

// serialization of a tree with the sizes as they are stated
static inline void ser(const Node &n, std::string &o)
{
    put32(o, n.id); put32(o, (u32)n.size);
    size_t start = o.size();
    if(n.is_group())
    {
        if(n.size >= 4) { put32(o, n.type); for(auto &p : n.props) ser(p, o); for(auto &k : n.kids) ser(k, o); }
    }
    else o += n.data;
    // a stated size far beyond the contents is not filled up: the data just ends
    if(n.size > 0 && o.size() - start < (size_t)n.size && (size_t)n.size - (o.size() - start) < 4096) o.append((size_t)n.size - (o.size() - start), 0);
    if(n.size & 1) o += (char)0;
}
static inline std::string ser(const Node &n) { std::string o; ser(n, o); return o; }

// ---- rules ---------------------------------------------------------------------------------------------------------
static inline bool ok_id(u32 id)
{
    for(int i = 0; i < 4; i++) { u32 c = id >> (24 - 8 * i) & 0xff; if(c < 0x20 || c > 0x7e) return false; }
    return id >> 24 != ' ';
}
static inline bool reserved(u32 t)
{
    if(t == LIST || t == FORM || t == PROP || t == CATT || t == JJJJ) return true;
    u32 last = t & 0xff;
    return last >= '1' && last <= '9' && (t >> 8 == mkid("LIS ") >> 8 || t >> 8 == mkid("FOR ") >> 8 || t >> 8 == mkid("CAT ") >> 8);
}
static inline bool ok_formtype(u32 t)
{
    if(!ok_id(t) || reserved(t)) return false;
    for(int i = 0; i < 4; i++) { u32 c = t >> (24 - 8 * i) & 0xff; if(!((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ' ')) return false; }
    return true;
}

// ---- strict grammar on bytes: the definition of a valid file ---------------------------------------------------------
struct Strict {
    const std::string &s; std::string why; size_t used = 0;
    bool odd_pad = false; // tolerated oddity met on the way
    Strict(const std::string &x) : s(x) {}
    bool no(const char *w) { if(why.empty()) why = w; return false; }
    // a chunk within [pos, end)
    bool chunk(size_t &pos, size_t end, Node &n)
    {
        if(end - pos < 8) return no("incomplete chunk header");
        n.id = get32(s, pos); n.size = (int32_t)get32(s, pos + 4);
        if(n.size < 0) return no("negative size");
        if(padded((u32)n.size) > end - pos - 8) return no("chunk exceeds its container");
        size_t body = pos + 8, stop = body + (u32)n.size;
        if(!n.is_group())
        {
            if(n.id != FILL && !ok_id(n.id)) return no("illegal ID");
            n.data = s.substr(body, (u32)n.size);
        }
        else
        {
            if(n.size < 4) return no("group without type");
            n.type = get32(s, body); body += 4;
            if(n.id == FORM) { if(!ok_formtype(n.type)) return no("illegal FORM type"); }
            else if(n.id == PROP) { if(n.type != LIST && !ok_formtype(n.type)) return no("illegal PROP type"); }
            else if(!ok_id(n.type)) return no("illegal contents type");
            while(body < stop)
            {
                Node k;
                if(!chunk(body, stop, k)) return false;
                if(n.id == FORM) { if(k.id == PROP) return no("PROP in FORM"); n.kids.push_back(k); }
                else if(n.id == PROP) { if(k.is_group()) return no("group in PROP"); n.kids.push_back(k); }
                else
                {
                    if(n.id == LIST && k.id == PROP)
                    {
                        for(auto &p : n.props) if(p.type == k.type) return no("two PROPs of one type");
                        if(!n.kids.empty()) return no("PROP after other members");
                        n.props.push_back(k);
                    }
                    else
                    {
                        if(!k.is_group() || k.id == PROP) return no("illegal member of CAT or LIST");
                        if(n.type != JJJJ && k.type != n.type) return no("contents type mismatch");
                        n.kids.push_back(k);
                    }
                }
            }
        }
        if(n.size & 1) { if(s[stop] != 0) odd_pad = true; }
        pos = stop + (n.size & 1);
        return true;
    }
    bool file(Node &n)
    {
        size_t pos = 0;
        if(s.size() < 8) return no("no chunk");
        u32 id = get32(s, 0);
        if(id != FORM && id != CATT && id != LIST) return no("not FORM, CAT or LIST");
        if(!chunk(pos, s.size(), n)) return false;
        used = pos; return true;
    }
};
// validity of a tree in memory (for trees built through the interface)
static inline bool conform(const Node &n)
{
    std::string b = ser(n); Strict st(b); Node m;
    return st.file(m) && st.used == b.size() && m == n;
}

// ---- lenient reading: what reading alone accepts (before the conformance check) --------------------------------------
struct Lenient {
    const std::string &s; size_t pos = 0; bool overrun = false, odd_pad = false, tiny_group = false;
    u64 big = 0; // largest raw size whose buffer had to be allocated
    u64 cap = ~0ull;
    Lenient(const std::string &x) : s(x) {}
    bool chunk(Node &n)
    {
        if(s.size() - pos < 8) { return false; }
        n.id = get32(s, pos); n.size = (int32_t)get32(s, pos + 4); pos += 8;
        if(n.size < 0) return false;
        u64 done = 0;
        if(!n.is_group())
        {
            if((u64)n.size > big) big = n.size;
            if((u64)n.size > s.size() - pos) return false;
            n.data = s.substr(pos, n.size); pos += n.size; done = n.size;
        }
        else if(n.size >= 4)
        {
            if(s.size() - pos < 4) return false;
            n.type = get32(s, pos); pos += 4; done = 4;
            while(done < (u64)n.size)
            {
                Node k; if(!chunk(k)) return false;
                done += 8 + padded((u32)k.size);
                if(n.id == LIST && k.id == PROP) { if(!n.kids.empty()) return false; n.props.push_back(k); } else n.kids.push_back(k);
            }
            if(done > (u64)n.size) overrun = true;
        }
        else if(n.size > 0) tiny_group = true;
        if(done < (u64)n.size) { u64 skip = n.size - done; if(skip > s.size() - pos) return false; pos += skip; }
        if(n.size & 1) { if(pos >= s.size()) return false; if(s[pos] != 0) odd_pad = true; pos++; }
        return true;
    }
};

// ---- the library's structures -----------------------------------------------------------------------------------------
// deep copy of a library hierarchy into a Node (default registry: everything except the four groups is raw);
// bad is set when parent links, counters or pointers are inconsistent
static inline Node from_lib(const IFF_Chunk *c, const IFF_Group *parent, std::string *bad, unsigned limit = 2000000)
{
    Node n; n.id = c->chunkId; n.size = c->chunkSize;
    if(bad && c->parent != parent && bad->empty()) *bad = "a chunk does not refer to its parent";
    if(n.is_group())
    {
        const IFF_Group *g = (const IFF_Group*)c; n.type = g->groupType;
        if(n.id == LIST)
        {
            const IFF_List *l = (const IFF_List*)c;
            for(unsigned i = 0; i < l->propLength && i < limit; i++) n.props.push_back(from_lib((const IFF_Chunk*)l->prop[i], g, bad, limit));
        }
        for(unsigned i = 0; i < g->chunkLength && i < limit; i++) n.kids.push_back(from_lib(g->chunk[i], g, bad, limit));
    }
    else if(n.size > 0) n.data.assign((const char*)((const IFF_RawChunk*)c)->chunkData, n.size);
    return n;
}
// build through the public constructors; stated sizes are applied afterwards, so that they keep nothing from being added
static inline IFF_Chunk *to_lib(const Node &n)
{
    IFF_Chunk *c;
    auto add = [](const Node &k, auto f) { IFF_Chunk *x = to_lib(k); x->chunkSize = 0; f(x); x->chunkSize = k.size; };
    if(n.id == FORM || n.id == PROP)
    {
        IFF_Form *f = n.id == FORM ? IFF_createEmptyForm(n.type) : (IFF_Form*)IFF_createEmptyProp(n.type); c = (IFF_Chunk*)f;
        for(auto &k : n.kids) add(k, [&](IFF_Chunk *x) { if(n.id == FORM) IFF_addToForm(f, x); else IFF_addToProp(f, x); });
    }
    else if(n.id == CATT)
    {
        IFF_CAT *f = IFF_createEmptyCATWithContentsType(n.type); c = (IFF_Chunk*)f;
        for(auto &k : n.kids) add(k, [&](IFF_Chunk *x) { IFF_addToCAT(f, x); });
    }
    else if(n.id == LIST)
    {
        IFF_List *f = IFF_createEmptyListWithContentsType(n.type); c = (IFF_Chunk*)f;
        for(auto &p : n.props) add(p, [&](IFF_Chunk *x) { IFF_addPropToList(f, (IFF_Prop*)x); });
        for(auto &k : n.kids) add(k, [&](IFF_Chunk *x) { IFF_addToList(f, x); });
    }
    else
    {
        c = IFF_createRawChunk(n.id, (IFF_Long)n.data.size());
        if(!n.data.empty()) IFF_copyDataToRawChunkData((IFF_RawChunk*)c, (IFF_UByte*)n.data.data());
    }
    c->chunkSize = n.size;
    return c;
}

// ---- textual representation -------------------------------------------------------------------------------------------
static inline std::string idtext(u32 id) { std::string s; s += (char)(id >> 24); s += (char)(id >> 16); s += (char)(id >> 8); s += (char)id; return s; }
static inline void pp(const Node &n, unsigned ind, std::string &o)
{
    auto in = [&](unsigned k) { o.append(2 * (size_t)k, ' '); };
    in(ind); o += "'" + idtext(n.id) + "' = {\n";
    in(ind + 1); o += "chunkSize = " + std::to_string(n.size) + ";\n";
    if(n.is_group())
    {
        in(ind); o += (n.id == FORM || n.id == PROP ? "formType = '" : "contentsType = '") + idtext(n.type) + "';\n";
        if(n.id == LIST) { in(ind); o += "prop = [\n"; for(auto &p : n.props) pp(p, ind + 1, o); in(ind); o += "];\n"; }
        in(ind); o += "[\n"; for(auto &k : n.kids) pp(k, ind + 1, o); in(ind); o += "];\n";
    }
    else if(n.id == TEXT)
    {
        in(ind); o += "text = '\n"; in(ind + 1); o += n.data; o += "\n"; in(ind); o += "';\n";
    }
    else
    {
        in(ind); o += "bytes = \n"; in(ind + 1);
        static const char d[] = "0123456789abcdef";
        for(size_t i = 0; i < n.data.size(); i++)
        {
            if(i && i % 10 == 0) { o += "\n"; in(ind + 1); }
            unsigned char b = n.data[i]; o += d[b >> 4]; o += d[b & 15]; o += ' ';
        }
        o += "\n"; in(ind); o += ";\n";
    }
    in(ind); o += "}\n\n";
}
static inline std::string pp(const Node &n, unsigned ind = 0) { std::string o; pp(n, ind, o); return o; }

// short description for notes
static inline std::string desc(const Node &n)
{
    std::string o;
    for(int i = 3; i >= 0; i--) { unsigned char c = n.id >> (8 * i); if(c >= 0x20 && c < 0x7f) o += (char)c; else o += mc::fmt("\\x%02x", c); }
    o += mc::fmt("#%d", n.size);
    if(n.is_group())
    {
        o += "<"; for(int i = 3; i >= 0; i--) { unsigned char c = n.type >> (8 * i); if(c >= 0x20 && c < 0x7f) o += (char)c; else o += mc::fmt("\\x%02x", c); } o += ">{";
        for(auto &p : n.props) { o += desc(p); o += " "; if(o.size() > 400) { o += "..."; break; } }
        for(auto &k : n.kids) { o += desc(k); o += " "; if(o.size() > 400) { o += "..."; break; } }
        o += "}";
    }
    return o;
}

// ---- families of trees --------------------------------------------------------------------------------------------------
struct Alphabet {
    std::vector<Node> raws;                 // leaves
    std::vector<u32> formtypes, conttypes;  // group types
    bool form = true, cat = true, list = true, prop = true;
    bool legal_only = true;                 // only grammatical nesting
};
// all trees with exactly n nodes whose root is of the given kind / all sequences of children with n nodes in total
struct Trees {
    const Alphabet &a;
    Trees(const Alphabet &x) : a(x) {}
    // context: what may appear as a child of `parent` (0: main chunk)
    void child(u32 parent, u32 ptype, int n, const std::function<void(const Node&)> &f)
    {
        bool all = !a.legal_only;
        bool inform = parent == FORM || parent == PROP, incoll = parent == CATT || parent == LIST;
        if(n == 1 && (inform || all) && parent) for(auto &r : a.raws) f(r);
        if(a.form && (parent != PROP || all)) for(u32 t : a.formtypes) { if(incoll && !all && ptype != JJJJ && ptype != t) continue; group(FORM, t, n, f); }
        if(a.cat && (parent != PROP || all)) for(u32 t : a.conttypes) { if(incoll && !all && ptype != JJJJ && ptype != t) continue; group(CATT, t, n, f); }
        if(a.list && (parent != PROP || all)) for(u32 t : a.conttypes) { if(incoll && !all && ptype != JJJJ && ptype != t) continue; group(LIST, t, n, f); }
        if(a.prop && parent && all && parent != LIST) for(u32 t : a.formtypes) group(PROP, t, n, f);
    }
    void group(u32 id, u32 type, int n, const std::function<void(const Node&)> &f)
    {
        Node g = mkgroup(id, type);
        if(id == LIST && a.prop) props(g, n - 1, f); else kids(g, n - 1, f);
    }
    void kids(Node &g, int n, const std::function<void(const Node&)> &f)
    {
        if(n == 0) { f(g); return; }
        for(int k = 1; k <= n; k++)
            child(g.id, g.type, k, [&](const Node &c) { g.kids.push_back(c); kids(g, n - k, f); g.kids.pop_back(); });
    }
    void props(Node &g, int n, const std::function<void(const Node&)> &f)
    {
        kids(g, n, f);
        for(int k = 1; k <= n; k++)
            for(u32 t : a.formtypes)
            {
                bool dup = false; for(auto &p : g.props) if(p.type == t) dup = true;
                if(dup && a.legal_only) continue;
                group(PROP, t, k, [&](const Node &c) { g.props.push_back(c); props(g, n - k, f); g.props.pop_back(); });
            }
    }
    std::vector<Node> upto(int n)
    {
        std::vector<Node> v;
        for(int k = 1; k <= n; k++) child(0, JJJJ, k, [&](const Node &c) { v.push_back(fixed(c)); });
        return v;
    }
};

static inline std::string bigdata(size_t n, unsigned salt = 0)
{
    std::string s(n, 0);
    for(size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + (i >> 8) * 29 + (i >> 16) * 101 + (i >> 24) * 53 + salt * 37 + 3);
    return s;
}
static const u32 TA = mkid("TSTA"), TB = mkid("TSTB"), TC = mkid("TSTC"), DA = mkid("DATA"), DB = mkid("DATB");

// one-axis-large trees: one dimension is taken far beyond the exhaustive bound, everything else stays minimal
struct Big { std::string name; Node n; };
static inline std::vector<size_t> big_sizes(bool thorough)
{
    std::vector<size_t> v = {3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 21, 29, 30, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256, 257, 258, 299, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000,
        16383, 16384, 16385, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 99999, 100000, 131071, 131072, 131073, 262143, 262144, 262145, 524287, 524288, 524289, 1048575, 1048576, 1048577};
    if(thorough) for(size_t s : {(size_t)2097151, (size_t)2097152, (size_t)4194305, (size_t)8388607, (size_t)8388608, (size_t)16777215, (size_t)16777216, (size_t)16777217, (size_t)33554433}) v.push_back(s);
    else { v.push_back(16777215); v.push_back(16777216); v.push_back(16777217); v.push_back(33554435); }
    return v;
}
static inline std::vector<Big> big_trees(bool thorough, size_t max_data = SIZE_MAX)
{
    std::vector<Big> v;
    auto add = [&](const std::string &s, Node n) { fixsizes(n); v.push_back({s, n}); };
    for(size_t s : big_sizes(thorough))
    {
        if(s > max_data) continue;
        add(mc::fmt("data size %zu in FORM", s), mkgroup(FORM, TA, {mkraw(DA, bigdata(s)), mkraw(DB, "xy")}));
        if(s <= 131073) add(mc::fmt("TEXT size %zu, last, in FORM in CAT", s), mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DB, "x"), mkraw(TEXT, bigdata(s))})}));
        if(s <= 131073) add(mc::fmt("data size %zu in PROP", s), mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DB, "x")})}, {mkgroup(PROP, TA, {mkraw(DA, bigdata(s, 1))}), mkgroup(PROP, TB, {mkraw(DA, bigdata(s + 1, 2))})}));
    }
    std::vector<size_t> fan = {9, 10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025};
    if(thorough) for(size_t s : {(size_t)4097, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)65537}) fan.push_back(s); else fan.push_back(65537);
    for(size_t s : fan)
    {
        std::vector<Node> k; for(size_t i = 0; i < s; i++) k.push_back(mkraw(i % 3 ? DA : TEXT, std::string(i % 4, (char)('a' + i % 26))));
        add(mc::fmt("FORM with %zu chunks", s), mkgroup(FORM, TA, k));
        k.clear(); for(size_t i = 0; i < s; i++) k.push_back(mkgroup(FORM, i % 5 ? TA : TB, i % 7 == 0 ? std::vector<Node>{mkraw(DA, std::string(i % 3, 'q'))} : std::vector<Node>{}));
        add(mc::fmt("CAT with %zu forms", s), mkgroup(CATT, JJJJ, k));
        if(s <= 1025) add(mc::fmt("LIST with %zu forms and a PROP", s), mkgroup(LIST, JJJJ, k, {mkgroup(PROP, TA, {mkraw(DA, "abc")})}));
        std::vector<Node> p; for(size_t i = 0; i < s && (s <= 4000 || s == 65537); i++) p.push_back(mkgroup(PROP, mkid("A000") + ((u32)(i / 10 / 26 % 26) << 24) + ((u32)('A' - '0' + i / 10 % 26) << 16) + ((u32)(i / 6760) << 8) + (u32)(i % 10), {mkraw(DA, std::string(i % 3, 'p')), mkraw(DB, std::to_string(i))}));
        if(p.size()) add(mc::fmt("LIST with %zu PROPs", s), mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DB, "z")})}, p));
        k.clear(); for(size_t i = 0; i < s; i++) k.push_back(mkraw(DA, std::string(i % 3, 'a')));
        if(s <= 1025) add(mc::fmt("PROP with %zu chunks", s), mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, k)}));
    }
    std::vector<size_t> dep = {5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257}; dep.push_back(1025); if(thorough) { dep.push_back(1000); dep.push_back(4097); }
    for(size_t d : dep)
    {
        Node f = mkgroup(FORM, TA, {mkraw(DA, "deep!")}); for(size_t i = 1; i < d; i++) f = mkgroup(FORM, TA, {f});
        add(mc::fmt("FORM nested %zu deep", d), f);
        Node c = mkgroup(FORM, TA, {mkraw(DA, "c")}); for(size_t i = 1; i < d; i++) c = mkgroup(i % 2 ? CATT : LIST, TA, {c});
        add(mc::fmt("CAT/LIST nested %zu deep", d), c);
        Node l = mkgroup(FORM, TA, {mkraw(DB, "own")}); for(size_t i = 1; i < d; i++) l = mkgroup(LIST, TA, {l}, {mkgroup(PROP, i == d - 1 ? TA : TB, {mkraw(DA, std::to_string(i))})});
        add(mc::fmt("LIST with PROPs nested %zu deep", d), l);
        Node m = mkgroup(FORM, TA, {mkraw(DA, "m")}); for(size_t i = 1; i < d; i++) { if(i % 3 == 0) m = mkgroup(FORM, TA, {mkraw(DB, "odd"), m, mkraw(TEXT, "t")}); else if(i % 3 == 1) m = mkgroup(LIST, JJJJ, {m}, {mkgroup(PROP, TA, {mkraw(DB, "1")})}); else m = mkgroup(CATT, JJJJ, {m, mkgroup(FORM, TB)}); }
        add(mc::fmt("mixed groups nested %zu deep", d), m);
    }
    return v;
}
