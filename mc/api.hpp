// Shared helpers of the checks: reading and writing through the public interface with controlled streams.
#pragma once
#include "model.hpp"
#include <sys/types.h>

struct Chunk { // owns a library hierarchy
    IFF_Chunk *c = nullptr; const IFF_ChunkRegistry *reg = nullptr;
    Chunk(IFF_Chunk *x = nullptr, const IFF_ChunkRegistry *r = nullptr) : c(x), reg(r) {}
    Chunk(const Chunk&) = delete; Chunk &operator=(const Chunk&) = delete;
    Chunk(Chunk &&o) : c(o.c), reg(o.reg) { o.c = nullptr; }
    ~Chunk() { if(c) IFF_free(c, reg); }
    operator IFF_Chunk*() const { return c; }
    IFF_Chunk *release() { IFF_Chunk *x = c; c = nullptr; return x; }
};

static inline IFF_Chunk *read_bytes(const std::string &b, const IFF_ChunkRegistry *reg = nullptr, bool buffered = true)
{
    MemIn m; FILE *f = open_in(&m, b, buffered);
    IFF_Chunk *c = IFF_readFd(f, reg);
    fclose(f); return c;
}
static inline bool write_bytes(const IFF_Chunk *c, std::string &out, const IFF_ChunkRegistry *reg = nullptr, bool buffered = true, size_t medium = (size_t)40 << 20)
{
    MemOut m; m.budget = medium; FILE *f = open_out(&m, buffered); // the medium is finite: a stated size of 2 GB need not be filled up
    bool ok = IFF_writeFd(f, c, reg);
    out = m.buf; // before closing: success means that everything has been handed over
    fclose(f); return ok;
}
static inline std::string print_text(const IFF_Chunk *c, unsigned indent = 0, const IFF_ChunkRegistry *reg = nullptr)
{
    Capture cap; IFF_print(c, indent, reg); return cap.end();
}

// ---- names of files ---------------------------------------------------------------------------------------------------------
// every name below that can exist inside folder d (which ends in a slash): with every byte, every length up to the limit of the system
static inline std::string padded_name(const std::string &d, size_t len) { std::string s = d; while(s.size() + 2 < len) s += "./"; while(s.size() < len) s += 'f'; return s; }
static inline std::vector<std::string> file_names(const std::string &d, bool every_length)
{
    std::vector<std::string> v;
    for(int b = 1; b < 256; b++) if(b != '/') { v.push_back(d + "n" + (char)b); v.push_back(d + (char)b + "n"); if(b != '.') v.push_back(d + (char)b); }
    for(const char *n : {"-", "--", "%s%n%d%s", "%", "%%", "stdin", "stdout", "null", "~", "$HOME", "*", "a b", " a", "a ", "x.iff", "x.IFF", "x.gz", "x.tmp", "..a", "a:b", "file:a", "a|b", "|a", "<a", ">a", "a~", "#a", "sub/../a"}) v.push_back(d + n);
    for(size_t n = 1; n <= 255; n += every_length || n < 20 || n > 250 ? 1 : 13) { std::string s = d; for(size_t i = 0; i < n; i++) s += 'a' + i % 26; v.push_back(s); }
    for(size_t n = d.size() + 3; n < 4096; n++) if(every_length || n < 300 || ((n + 3) & (n + 3 - 1) & 0xff0) == 0 || n % 97 == 0 || n > 4090 || (n & 127) < 2 || (n & 127) == 127 || n % 100 < 2) v.push_back(padded_name(d, n));
    return v;
}

// ---- structural deviations ----------------------------------------------------------------------------------------------
// A tree as a flat list of node pointers (pre-order, PROPs before members)
static inline void flatten(Node &n, std::vector<Node*> &v) { v.push_back(&n); for(auto &p : n.props) flatten(p, v); for(auto &k : n.kids) flatten(k, v); }

// Applies deviation number k (of the given vocabulary) to node i; false if it does not apply.  Deviations are of the kind a
// writer with a bug, a damaged medium or a hostile author produces.
struct Dev {
    static const int N = 44;
    static bool apply(Node &root, size_t i, int k, std::string *what = nullptr)
    {
        std::vector<Node*> v; flatten(root, v); if(i >= v.size()) return false;
        Node &n = *v[i];
        // find the parent and the place
        Node *par = nullptr; std::vector<Node> *sib = nullptr; size_t at = 0;
        for(Node *q : v) { for(auto *s : {&q->props, &q->kids}) for(size_t j = 0; j < s->size(); j++) if(&(*s)[j] == &n) { par = q; sib = s; at = j; } }
        auto say = [&](const char *s) { if(what) *what = mc::fmt("%s at node %zu", s, i); return true; };
        auto refit = [&]() { fixsizes(root); };
        switch(k)
        {
            case 0: n.size += 1; return say("size+1");
            case 1: n.size -= 1; return say("size-1");
            case 2: n.size += 2; return say("size+2");
            case 3: n.size -= 2; return say("size-2");
            case 4: n.size += 4; return say("size+4");
            case 5: n.size -= 4; return say("size-4");
            case 6: n.size += 8; return say("size+8");
            case 7: n.size -= 8; return say("size-8");
            case 8: n.size += 12; return say("size+12");
            case 9: n.size = 0; return say("size 0");
            case 10: n.size = 0x7fffffff; return say("size 0x7fffffff");
            case 11: n.size = (int32_t)0x80000000; return say("size 0x80000000");
            case 12: n.size = -1; return say("size -1");
            case 13: n.size = 0x01000000 | (n.size & 0xff); return say("size with high byte");
            case 14: n.id = FORM; refit(); return say("id FORM");
            case 15: n.id = CATT; refit(); return say("id CAT");
            case 16: n.id = LIST; refit(); return say("id LIST");
            case 17: n.id = PROP; refit(); return say("id PROP");
            case 18: n.id = mkid("DATA"); refit(); return say("id DATA");
            case 19: n.id = FILL; refit(); return say("id filler");
            case 20: n.id = mkid(" ATA"); refit(); return say("id with leading space");
            case 21: n.id = mkid("D\x1f" "TA"); refit(); return say("id with control character");
            case 22: n.id = mkid("DAT\x7f"); refit(); return say("id with DEL");
            case 23: n.id = mkid("DA\x80" "A"); refit(); return say("id with byte 0x80");
            case 24: n.id = mkid("form"); refit(); return say("id form");
            case 25: n.id = mkid("FOR1"); refit(); return say("id FOR1");
            case 26: n.type = JJJJ; return n.is_group() && say("type JJJJ");
            case 27: n.type = LIST; return n.is_group() && say("type LIST");
            case 28: n.type = mkid("TsTA"); return n.is_group() && say("type with lowercase");
            case 29: n.type = mkid(" STA"); return n.is_group() && say("type with leading space");
            case 30: n.type = mkid("TST."); return n.is_group() && say("type with punctuation");
            case 31: n.type = mkid("CAT9"); return n.is_group() && say("type CAT9");
            case 32: n.type = mkid("TST "); return n.is_group() && say("type with trailing space");
            case 33: n.type = TB; return n.is_group() && say("other type");
            case 34: n.type = 0; return n.is_group() && say("type 0");
            case 35: if(!sib) return false; sib->erase(sib->begin() + at); refit(); return say("removed");
            case 36: if(!sib) return false; { Node c = n; sib->insert(sib->begin() + at, c); } refit(); return say("duplicated");
            case 37: if(!sib || at + 1 >= sib->size()) return false; std::swap((*sib)[at], (*sib)[at + 1]); return say("swapped with next");
            case 38: if(!n.is_group()) return false; n.kids.insert(n.kids.begin(), mkgroup(PROP, TA, {mkraw(DA, "p")})); refit(); return say("PROP inserted first");
            case 39: if(!n.is_group()) return false; n.kids.push_back(mkgroup(PROP, TB, {mkraw(DA, "p")})); refit(); return say("PROP appended");
            case 40: if(!n.is_group()) return false; n.kids.insert(n.kids.begin(), mkraw(DA, "r")); refit(); return say("data chunk inserted first");
            case 41: if(!n.is_group()) return false; n.kids.push_back(mkgroup(FORM, TB)); refit(); return say("FORM appended");
            case 42: if(!n.is_group()) return false; n.kids.push_back(mkgroup(LIST, TA, {}, {mkgroup(PROP, TA)})); refit(); return say("LIST appended");
            case 43: if(!n.is_group()) return false; n.kids.push_back(mkraw(FILL, "12")); refit(); return say("filler appended");
        }
        return false;
    }
};
