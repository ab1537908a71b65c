// C12: extension chunk fields respect the chunk size as a virtual end of file.
#include "api.hpp"
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

// a real file that is full of old bytes: what a writer steps over instead of writing it stays visible
struct OldFile
{
    int fd; FILE *f; size_t len;
    OldFile(size_t n, size_t at) : len(n) { fd = memfd_create("old", 0); std::string o(n, 'o'); if(fd < 0 || ::write(fd, o.data(), n) != (ssize_t)n) abort(); f = fdopen(fd, "r+b"); fseek(f, at, SEEK_SET); }
    std::string end() { fflush(f); struct stat b; fstat(fd, &b); std::string s(b.st_size, 0); ssize_t k = pread(fd, &s[0], s.size(), 0); s.resize(k < 0 ? 0 : k); fclose(f); return s; }
};

enum { UB, UW, W, UL, L, ID, KINDS };
static const int width[] = {1, 2, 2, 4, 4, 4};
static const char *kname[] = {"UBYTE", "UWORD", "WORD", "ULONG", "LONG", "ID"};
static const u32 EXTA = mkid("EXTA");
typedef std::vector<int> Layout;
static int total(const Layout &l) { int s = 0; for(int k : l) s += width[k]; return s; }
static std::string lname(const Layout &l) { std::string o; for(int k : l) { o += o.empty() ? "" : ","; o += kname[k]; } return "(" + o + ")"; }

// ---- an extension chunk whose layout is set by the explorer ------------------------------------------------------------
static Layout layout;
struct Slot { unsigned char b[16]; };
struct Ext { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; Slot f[8]; int status[8]; int done; };
static IFF_FieldStatus rd(int k, FILE *f, void *p, const IFF_Chunk *c, IFF_Long *n)
{
    switch(k) { case UB: return IFF_readUByteField(f, (IFF_UByte*)p, c, "a", n); case UW: return IFF_readUWordField(f, (IFF_UWord*)p, c, "b", n); case W: return IFF_readWordField(f, (IFF_Word*)p, c, "c", n); case UL: return IFF_readULongField(f, (IFF_ULong*)p, c, "d", n); case L: return IFF_readLongField(f, (IFF_Long*)p, c, "e", n); }
    return IFF_readIdField(f, (IFF_ID*)p, c, "f", n);
}
static IFF_FieldStatus wr(int k, FILE *f, const void *p, const IFF_Chunk *c, IFF_Long *n)
{
    switch(k) { case UB: return IFF_writeUByteField(f, *(IFF_UByte*)p, c, "a", n); case UW: return IFF_writeUWordField(f, *(IFF_UWord*)p, c, "b", n); case W: return IFF_writeWordField(f, *(IFF_Word*)p, c, "c", n); case UL: return IFF_writeULongField(f, *(IFF_ULong*)p, c, "d", n); case L: return IFF_writeLongField(f, *(IFF_Long*)p, c, "e", n); }
    return IFF_writeIdField(f, *(IFF_ID*)p, c, "f", n);
}
static Ext *last_read; static int st[8], stn;
static IFF_Chunk *e_create(const IFF_ID id, const IFF_Long size) { Ext *e = (Ext*)IFF_createChunk(id, size, sizeof(Ext)); if(e) { memset(e->f, 0xEE, sizeof e->f); e->done = 0; } return (IFF_Chunk*)e; }
static IFF_Bool e_read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *, IFF_Long *n)
{
    Ext *e = (Ext*)c; last_read = e; stn = 0;
    for(size_t i = 0; i < layout.size(); i++) { IFF_FieldStatus s = rd(layout[i], f, e->f[i].b + 4, c, n); st[stn++] = s; if(s != IFF_FIELD_MORE) return IFF_deriveSuccess(s); e->done++; }
    return TRUE;
}
static IFF_Bool e_write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *, IFF_Long *n)
{
    const Ext *e = (const Ext*)c; stn = 0;
    for(size_t i = 0; i < layout.size(); i++) { IFF_FieldStatus s = wr(layout[i], f, e->f[i].b + 4, c, n); st[stn++] = s; if(s != IFF_FIELD_MORE) return IFF_deriveSuccess(s); }
    return TRUE;
}
static IFF_Bool e_check(const IFF_Chunk *, const IFF_ChunkRegistry *) { return TRUE; }
static Ext freed; static bool was_freed;
static void e_free(IFF_Chunk *c, const IFF_ChunkRegistry *) { memcpy(&freed, c, sizeof freed); was_freed = true; }
static void e_print(const IFF_Chunk *, const unsigned, const IFF_ChunkRegistry *) {}
static IFF_Bool e_compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *) { return !memcmp(((Ext*)a)->f, ((Ext*)b)->f, sizeof freed.f); }
static IFF_ChunkType types[] = {{EXTA, &e_create, &e_read, &e_write, &e_check, &e_free, &e_print, &e_compare}};
static IFF_ChunkTypesNode node = {1, types, nullptr};
static IFF_FormChunkTypes forms[] = {{TA, &node}};
static const IFF_ChunkRegistry reg = {1, forms, &IFF_globalChunkTypesNode, &IFF_defaultChunkType};

// native value from stored bytes / the other way around
static void native(int k, const unsigned char *be, unsigned char *out) { for(int i = 0; i < width[k]; i++) out[i] = be[width[k] - 1 - i]; } // little-endian host
static bool slot_ok(const Slot &s, int k, const unsigned char *be)
{
    unsigned char w[16]; memset(w, 0xEE, 16); if(be) native(k, be, w + 4); return !memcmp(w, s.b, 16);
}

// placements of the extension chunk: bytes before and after it
struct Place { const char *name; std::string pre, post; };
static std::string around(int place, const std::string &chunk, size_t *start, size_t *after)
{
    std::string sib; put32(sib, DA); put32(sib, 3); sib += "sib"; sib += '\0';
    std::string in = place & 1 ? sib + chunk + sib : chunk + sib; size_t off = place & 1 ? sib.size() : 0;
    std::string o;
    if(place < 2) { put32(o, FORM); put32(o, 4 + in.size()); put32(o, TA); off += 12; o += in; }
    else { std::string f; put32(f, FORM); put32(f, 4); put32(f, TA); put32(o, LIST); put32(o, 4 + 12 + in.size() + f.size()); put32(o, TA); put32(o, PROP); put32(o, 4 + in.size()); put32(o, TA); off += 24; o += in; o += f; }
    *start = off; *after = off + chunk.size(); return o;
}
static const Ext *find_ext(const IFF_Chunk *c) { const IFF_Group *g = (const IFF_Group*)c; if(c->chunkId == LIST) g = (const IFF_Group*)((const IFF_List*)c)->prop[0]; for(unsigned i = 0; i < g->chunkLength; i++) if(g->chunk[i]->chunkId == EXTA) return (const Ext*)g->chunk[i]; return nullptr; }
static const IFF_Chunk *sibling(const IFF_Chunk *c) { const IFF_Group *g = (const IFF_Group*)c; if(c->chunkId == LIST) g = (const IFF_Group*)((const IFF_List*)c)->prop[0]; return g->chunkLength ? g->chunk[g->chunkLength - 1] : nullptr; }

static std::string bodybytes(size_t n, int salt) { std::string s(n, 0); for(size_t i = 0; i < n; i++) s[i] = (char)(salt == 0 ? 0x81 + i * 3 : salt == 1 ? 0xff : salt == 2 ? 0 : salt == 3 ? 0x7f - i : 0x80); return s; }

static u64 reading(Ctx &c, const Layout &l, int size, int place, int salt, bool cuts)
{
    layout = l; std::string body = bodybytes(size, salt), chunk; put32(chunk, EXTA); put32(chunk, size); chunk += body; if(size & 1) chunk += '\0';
    size_t start, after; std::string s = around(place, chunk, &start, &after); u64 n = 0;
    auto fields = [&](const Ext &e, int upto, const char *when, size_t at) {
        int off = 0; bool open = true;
        for(size_t i = 0; i < l.size(); i++)
        {
            bool in = open && off + width[l[i]] <= upto; if(!in) open = false;
            if(!slot_ok(e.f[i], l[i], in ? (const unsigned char*)body.data() + off : nullptr)) c.fail("%s (at %zu): field %zu of %s in a chunk of %d bytes %s", when, at, i, lname(l).c_str(), size, in ? "does not have its value" : "was touched");
            off += width[l[i]];
        }
        for(size_t i = l.size(); i < 8; i++) if(!slot_ok(e.f[i], 0, nullptr)) c.fail("memory behind the fields was touched");
    };
    for(int v = 0; v < 3; v++)
    {
        MemIn m; m.chunk = v == 1 ? 1 : SIZE_MAX; m.seekable = v != 2; diag_begin(); al_begin(0xA5); FILE *f = open_in(&m, s, v != 2);
        IFF_Chunk *r = IFF_readFd(f, &reg); fclose(f);
        if(!r) c.fail("%s in a chunk of %d bytes is not read: %s", lname(l).c_str(), size, g_diag.c_str());
        if(g_diag_calls) c.fail("%s in a chunk of %d bytes: %s", lname(l).c_str(), size, g_diag.c_str());
        const Ext *e = find_ext(r); const IFF_Chunk *sb = sibling(r);
        if(!e) c.fail("the extension chunk is missing");
        fields(*e, size, "reading", 0);
        if(e->chunkSize != size) c.fail("the size of the chunk changed");
        if(!sb || sb->chunkId != DA || sb->chunkSize != 3 || memcmp(((IFF_RawChunk*)sb)->chunkData, "sib", 3)) c.fail("after %s in a chunk of %d bytes reading does not go on at the next chunk", lname(l).c_str(), size);
        // statuses: MORE for the delivered fields, LAST for the first one that does not fit
        int off = 0; size_t i = 0; for(; i < l.size(); i++) { bool in = off + width[l[i]] <= size; if(st[i] != (in ? IFF_FIELD_MORE : IFF_FIELD_LAST)) c.fail("field %zu of %s in a chunk of %d bytes has status %d", i, lname(l).c_str(), size, st[i]); if(!in) break; off += width[l[i]]; }
        // and writing it again
        std::string out; if(!write_bytes(r, out, &reg)) c.fail("%s in a chunk of %d bytes is not written: %s", lname(l).c_str(), size, g_diag.c_str());
        std::string w = s; for(int k = off; k < size; k++) w[start + 8 + k] = 0;
        if(out != w) c.fail("%s in a chunk of %d bytes is written as %s instead of %s", lname(l).c_str(), size, hex(out).c_str(), hex(w).c_str());
        IFF_free(r, &reg); if(al_live()) c.fail("memory stays allocated"); al_end(); c.trans(3); n++;
        c.state(comb(hash_str(s, hash_str(lname(l))), off));
    }
    if(cuts) for(size_t at = start; at < after; at++) for(int kind = 0; kind < 2; kind++) // the stream ends or fails inside the chunk
    {
        MemIn m; std::string t = kind ? s : s.substr(0, at); if(kind) m.fail_at = at; was_freed = false; stn = 0;
        diag_begin(); al_begin(0xA5); FILE *f = open_in(&m, t, false); IFF_Chunk *r = IFF_readFd(f, &reg); fclose(f);
        if(r) c.fail("the stream %s at byte %zu of the chunk, but reading succeeds", kind ? "fails" : "ends", at - start);
        if(!g_diag_calls) c.fail("the stream %s at byte %zu of the chunk, without a diagnostic", kind ? "fails" : "ends", at - start);
        if(al_live()) c.fail("memory stays allocated after a failed reading"); al_end();
        if(at >= start + 8)
        {
            if(!was_freed) c.fail("the chunk was not freed");
            int have = at - start - 8; fields(freed, std::min(have, size), "failing stream", have);
            int off = 0; for(int i = 0; i < stn; i++) { int e = off + width[l[i]]; int want = e <= have && e <= size ? IFF_FIELD_MORE : e > size ? IFF_FIELD_LAST : IFF_FIELD_FAILURE; if(st[i] != want) c.fail("the stream %s after %d of %d bytes: field %d of %s has status %d instead of %d", kind ? "fails" : "ends", have, size, i, lname(l).c_str(), st[i], want); off = e; }
        }
        c.trans(); n++;
    }
    return n;
}

static u64 writing(Ctx &c, const Layout &l, int size, int place, int salt, bool faults)
{
    layout = l; u64 n = 0; std::string body = bodybytes(total(l), salt);
    diag_begin(); al_begin(0xA5);
    IFF_Form *g = place < 2 ? IFF_createEmptyForm(TA) : (IFF_Form*)IFF_createEmptyProp(TA); IFF_Chunk *x = e_create(EXTA, size); Ext *e = (Ext*)x;
    int off = 0; for(size_t i = 0; i < l.size(); i++) { native(l[i], (const unsigned char*)body.data() + off, e->f[i].b + 4); off += width[l[i]]; }
    auto sib = [&]() { IFF_Chunk *r = IFF_createRawChunk(DA, 3); IFF_copyDataToRawChunkData((IFF_RawChunk*)r, (IFF_UByte*)"sib"); return r; };
    if(place & 1) IFF_addToForm(g, sib()); IFF_addToForm(g, x); IFF_addToForm(g, sib());
    IFF_Chunk *root = (IFF_Chunk*)g; if(place >= 2) { IFF_List *ls = IFF_createEmptyListWithContentsType(TA); IFF_addPropToList(ls, (IFF_Prop*)g); IFF_addToList(ls, (IFF_Chunk*)IFF_createEmptyForm(TA)); root = (IFF_Chunk*)ls; }
    int fit = 0; off = 0; for(int k : l) { if(off + width[k] > size) break; off += width[k]; } fit = off;
    std::string chunk; put32(chunk, EXTA); put32(chunk, size); chunk += body.substr(0, fit); chunk.append(size - fit, 0); if(size & 1) chunk += '\0';
    size_t start, after; std::string w = around(place, chunk, &start, &after), out;
    if(!write_bytes(root, out, &reg)) c.fail("%s in a chunk of %d bytes is not written: %s", lname(l).c_str(), size, g_diag.c_str());
    if(out != w) c.fail("%s in a chunk of %d bytes is written as %s instead of %s", lname(l).c_str(), size, hex(out).c_str(), hex(w).c_str());
    if(g_diag_calls) c.fail("writing %s: %s", lname(l).c_str(), g_diag.c_str());
    { int o = 0; for(int i = 0; i < stn; i++) { bool in = o + width[l[i]] <= size; if(st[i] != (in ? IFF_FIELD_MORE : IFF_FIELD_LAST)) c.fail("writing field %d of %s in a chunk of %d bytes has status %d", i, lname(l).c_str(), size, st[i]); if(!in) break; o += width[l[i]]; } }
    { MemOut m; FILE *f = open_out(&m, true); if(!IFF_writeChunk(f, x, TA, &reg)) c.fail("not written"); fclose(f); if(m.buf != chunk) c.fail("the chunk alone is written as %s", hex(m.buf).c_str()); }
    if(l.size() <= 3 || (faults && place == 0)) for(int full = 0; full < 2; full++)
    {
        size_t room = full ? w.size() + 40 : 5; OldFile o(room, 5); diag_begin(); bool ok = IFF_writeFd(o.f, root, &reg); long at = ftell(o.f); std::string got = o.end(), exp = "ooooo" + w; if(room > exp.size()) exp += std::string(room - exp.size(), 'o');
        if(!ok || g_diag_calls) c.fail("%s in a chunk of %d bytes is not written into a file: %s", lname(l).c_str(), size, g_diag.c_str());
        if(got != exp) c.fail("%s in a chunk of %d bytes is written into a file%s as %s instead of %s", lname(l).c_str(), size, full ? " over old bytes" : "", hex(got).c_str(), hex(exp).c_str());
        if(at != (long)(5 + w.size())) c.fail("after writing %s in a chunk of %d bytes the file is at %ld instead of %zu", lname(l).c_str(), size, at, 5 + w.size());
        n++; c.trans();
    }
    c.state(comb(hash_str(w, hash_str(lname(l))), 5)); n += 2; c.trans(2);
    if(faults) for(size_t at = start; at < after; at++)
    {
        MemOut m; m.budget = at; diag_begin(); FILE *f = open_out(&m, false); bool ok = IFF_writeFd(f, root, &reg); fclose(f);
        if(ok) c.fail("the stream fails at byte %zu of the chunk, but writing succeeds", at - start);
        if(!g_diag_calls) c.fail("the stream fails at byte %zu of the chunk, without a diagnostic", at - start);
        if(at >= start + 8) { int have = at - start - 8, o = 0; for(int i = 0; i < stn; i++) { int en = o + width[l[i]]; int want = en > size ? IFF_FIELD_LAST : en <= have ? IFF_FIELD_MORE : IFF_FIELD_FAILURE; if(st[i] != want) c.fail("writing fails after %d bytes: field %d of %s has status %d instead of %d", have, i, lname(l).c_str(), st[i], want); o = en; } }
        c.trans(); n++;
    }
    IFF_free(root, &reg); if(al_live()) c.fail("memory stays allocated"); al_end();
    return n;
}

void mc_main(Engine &E)
{
    bool T = E.thorough;
    E.assume("read and write functions stop at the first field status other than IFF_FIELD_MORE, as documented; little-endian host");
    static std::vector<Layout> ls; int maxf = T ? 6 : 5;
    for(int n = 0; n <= maxf; n++) { Layout l(n, 0); for(;;) { ls.push_back(l); int i = 0; while(i < n && ++l[i] == KINDS) l[i++] = 0; if(i == n) break; } }
    E.fact("layouts", ls.size());
    // 1. every layout x every declared size x placement, with stream faults at every byte of the chunk
    E.scene("read", ls.size(), [T](Ctx &c) { const Layout &l = ls[c.job]; u64 n = 0; for(int size = 0; size <= total(l) + 5; size++) for(int place = 0; place < 4; place++) n += reading(c, l, size, place, (size + place) % 5, T || l.size() <= 3 || place == 0); c.execs(n); c.validated(n); if(c.noting()) c.note(lname(l)); });
    E.scene("write", ls.size(), [T](Ctx &c) { const Layout &l = ls[c.job]; u64 n = 0; for(int size = 0; size <= total(l) + 5; size++) for(int place = 0; place < 4; place++) n += writing(c, l, size, place, (size + place) % 5, T || l.size() <= 3 || place == 0); c.execs(n); c.validated(n); if(c.noting()) c.note(lname(l)); });
    // 2. chunks that are far larger than their fields
    {
        static std::vector<Layout> few = {{}, {UB}, {UW, UB}, {L, ID, W}, {UB, UL, UB, W, ID}}; static std::vector<size_t> sz = big_sizes(T);
        E.scene("surplus", few.size() * sz.size(), [](Ctx &c) { const Layout &l = few[c.job % few.size()]; size_t s = sz[c.job / few.size()]; u64 n = 0; for(int place : {0, 3}) { n += reading(c, l, s, place, 0, false); n += writing(c, l, s, place, 0, false); } c.execs(n); c.validated(n); });
    }
    // 3. single field accesses: every combination of declared size, position and bytes that are left in the stream
    {
        static std::vector<int> v = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 0x7ffffff0, 0x7ffffffa, 0x7ffffffb, 0x7ffffffc, 0x7ffffffd, 0x7ffffffe, 0x7fffffff};
        static std::vector<int> neg = {-1, -2, -3, -4, -5, -128, -32768, -65536, (int)0x80000001, (int)0x80000000};
        E.scene("single", KINDS * 2, [](Ctx &c)
        {
            int k = c.job / 2; bool write = c.job & 1; u64 n = 0; std::vector<int> sizes = v; sizes.insert(sizes.end(), neg.begin(), neg.end());
            for(int size : sizes) { std::vector<int> ps = v; for(int d = -6; d <= 6; d++) { int64_t p = (int64_t)size + d; if(p >= 0 && p <= 0x7fffffff) ps.push_back(p); }
            for(int pos : ps) for(int have = 0; have <= 5; have++)
            {
                IFF_Chunk ch; memset((void*)&ch, 0, sizeof ch); ch.chunkId = EXTA; ch.chunkSize = size; IFF_Long p = pos; Slot s; memset(s.b, 0xEE, 16); diag_begin();
                bool fit = (int64_t)pos + width[k] <= (int64_t)size; int want = !fit ? IFF_FIELD_LAST : have >= width[k] ? IFF_FIELD_MORE : IFF_FIELD_FAILURE, got; size_t used;
                static const unsigned char src[] = {0x91, 0xA2, 0x03, 0xF4, 0x15};
                if(!write) { MemIn m; std::string b((const char*)src, have); FILE *f = open_in(&m, b, false); got = rd(k, f, s.b + 4, &ch, &p); fclose(f); used = m.pos; if(!slot_ok(s, k, want == IFF_FIELD_MORE ? src : nullptr)) c.fail("reading %s at %d of %d with %d bytes left: the variable is %s", kname[k], pos, size, have, hex(std::string((char*)s.b, 16)).c_str()); }
                else { native(k, src, s.b + 4); MemOut m; m.budget = have; FILE *f = open_out(&m, false); got = wr(k, f, s.b + 4, &ch, &p); fclose(f); used = m.buf.size(); if(want == IFF_FIELD_MORE && m.buf != std::string((const char*)src, width[k])) c.fail("writing %s gives %s", kname[k], hex(m.buf).c_str()); }
                if(got != want) c.fail("%s %s at %d of %d with %d bytes left has status %d instead of %d", write ? "writing" : "reading", kname[k], pos, size, have, got, want);
                if(p != (want == IFF_FIELD_MORE ? pos + width[k] : pos)) c.fail("%s %s at %d of %d with %d bytes left moves the position to %d", write ? "writing" : "reading", kname[k], pos, size, have, p);
                if(!fit && used) c.fail("%s %s at %d of %d accesses the stream", write ? "writing" : "reading", kname[k], pos, size);
                if((want == IFF_FIELD_FAILURE) != (g_diag_calls > 0)) c.fail("%s %s at %d of %d with %d bytes left: %s", write ? "writing" : "reading", kname[k], pos, size, have, g_diag_calls ? g_diag.c_str() : "no diagnostic");
                n++; c.trans();
            } }
            c.execs(n); c.validated(n); c.state(c.job);
            for(int s : {IFF_FIELD_MORE, IFF_FIELD_LAST, IFF_FIELD_FAILURE}) if((IFF_deriveSuccess((IFF_FieldStatus)s) != 0) != (s != IFF_FIELD_FAILURE)) c.fail("status %d counts as %s", s, s == IFF_FIELD_FAILURE ? "success" : "failure");
        });
        // the same with spans around every power of two: the streams only count
        {
            static std::vector<std::pair<int, int>> spans; for(int b = 7; b <= (T ? 30 : 25); b++) for(int d = -1; d <= 1; d++) for(int from : {0, 1, 4, 1000}) spans.push_back({(1 << b) + d + from, from}); if(T) for(int from : {0, 1, 0x7ffffff0}) spans.push_back({0x7fffffff, from});
            E.scene("filler_wide", spans.size(), [](Ctx &c)
            {
                struct Count { size_t left, seen, nonzero; }; int size = spans[c.job].first, done = spans[c.job].second; size_t need = size - done; u64 n = 0;
                for(int rel = -1; rel <= 1; rel++)
                {
                    diag_begin(); Count k = {need + rel, 0, 0}; cookie_io_functions_t in = {[](void *p, char *b, size_t z) -> ssize_t { Count *k = (Count*)p; if(z > k->left) z = k->left; memset(b, 'x', z); k->left -= z; k->seen += z; return z; }, nullptr, nullptr, nullptr}; FILE *f = fopencookie(&k, "rb", in);
                    bool ok = IFF_skipUnknownBytes(f, EXTA, size, done); size_t tail = 0; while(tail < 2 && fgetc(f) != EOF) tail++; fclose(f); n++; c.trans();
                    if(ok != (rel >= 0) || tail != (rel > 0)) c.fail("skipping to %d of %d with %zu bytes left %s, and %zu are left afterwards", done, size, need + rel, ok ? "succeeds" : "fails", tail); if(ok == (g_diag_calls > 0)) c.fail("skipping: diagnostics %u", g_diag_calls);
                    diag_begin(); al_begin(-1); al_cap((size_t)1 << 32); Count o = {need + rel, 0, 0}; cookie_io_functions_t out = {nullptr, [](void *p, const char *b, size_t z) -> ssize_t { Count *k = (Count*)p; if(z > k->left) z = k->left; for(size_t i = 0; i < z; i++) k->nonzero += b[i] != 0; k->left -= z; k->seen += z; return z; }, nullptr, nullptr}; f = fopencookie(&o, "wb", out);
                    ok = IFF_writeZeroFillerBytes(f, EXTA, size, done); ok = fclose(f) == 0 && ok; n++; c.trans();
                    if(ok != (rel >= 0) || o.seen != std::min(need, need + rel) || o.nonzero) c.fail("filling from %d to %d with room for %zu bytes %s with %zu bytes, %zu of them not zero", done, size, need + rel, ok ? "succeeds" : "fails", o.seen, o.nonzero); if(al_live()) c.fail("memory stays allocated"); al_end(); al_cap((size_t)1 << 30);
                }
                c.execs(n); c.validated(n); c.state(c.job); c.note(fmt("from %d to %d", done, size));
            });
        }
        // filler and padding functions directly
        E.scene("filler", 64, [](Ctx &c)
        {
            u64 n = 0; int size = c.job;
            for(int done = 0; done <= size + 3; done++) for(int have = 0; have <= size + 4; have++)
            {
                int need = done < size ? size - done : 0; diag_begin(); al_begin(0xA5);
                { MemIn m; std::string b(have, 'x'); FILE *f = open_in(&m, b, false); bool ok = IFF_skipUnknownBytes(f, EXTA, size, done); fclose(f); if(ok != (have >= need)) c.fail("skipping to %d of %d with %d bytes left %s", done, size, have, ok ? "succeeds" : "fails"); if(ok && m.pos != (size_t)need) c.fail("skipping to %d from %d consumes %zu bytes", size, done, m.pos); if(ok == (g_diag_calls > 0)) c.fail("skipping: diagnostics %u", g_diag_calls); }
                diag_begin();
                { MemOut m; m.budget = have; FILE *f = open_out(&m, false); bool ok = IFF_writeZeroFillerBytes(f, EXTA, size, done); fclose(f); if(ok != (have >= need)) c.fail("filling from %d to %d with room for %d bytes %s", done, size, have, ok ? "succeeds" : "fails"); if(ok && m.buf != std::string(need, 0)) c.fail("filling gives %s", hex(m.buf).c_str()); if(ok == (g_diag_calls > 0)) c.fail("filling: diagnostics %u", g_diag_calls); }
                for(int full = 0; full < 2; full++) { diag_begin(); OldFile o(full ? need + 9 : 3, 3); bool ok = IFF_writeZeroFillerBytes(o.f, EXTA, size, done); std::string got = o.end(), exp = "ooo" + std::string(need, 0) + (full ? "oooooo" : ""); if(!ok || got != exp) c.fail("filling from %d to %d in a file gives %s", done, size, hex(got).c_str()); n++; c.trans(); }
                if(al_live()) c.fail("memory stays allocated"); al_end(); n += 2; c.trans(2);
            }
            for(int have = 0; have < 2; have++) for(int b = 0; b < 256; b++)
            {
                int need = size & 1; diag_begin(); std::string s(have, (char)b); MemIn m; FILE *f = open_in(&m, s, false); bool ok = IFF_readPaddingByte(f, size, EXTA); fclose(f);
                if(ok != (have >= need) || (ok && m.pos != (size_t)need)) c.fail("reading the padding byte of %d bytes with %d left: %d, %zu consumed", size, have, ok, m.pos);
                if((g_diag_calls > 0) != (need && (have == 0 || b))) c.fail("padding byte %d: %s", b, g_diag_calls ? g_diag.c_str() : "no diagnostic");
                diag_begin(); MemOut o; o.budget = have; f = open_out(&o, false); ok = IFF_writePaddingByte(f, size, EXTA); fclose(f);
                if(ok != (have >= need) || (ok && o.buf != std::string(need, 0))) c.fail("writing the padding byte of %d bytes with room for %d: %d", size, have, ok);
                if(ok == (g_diag_calls > 0)) c.fail("writing the padding byte: diagnostics %u", g_diag_calls);
                n += 2; c.trans(2);
            }
            c.execs(n); c.validated(n); c.state(size);
        });
    }
    // 4. several extension chunks in a row, sizes independent of each other
    {
        static std::vector<Layout> three; for(size_t i = 0; i < ls.size(); i++) if(ls[i].size() <= 3) three.push_back(ls[i]);
        E.scene("rows", three.size(), [](Ctx &c)
        {
            const Layout &l = three[c.job]; layout = l; u64 n = 0; int M = total(l) + 2; if(M > 9) M = 9;
            for(int a = 0; a <= M; a++) for(int b = 0; b <= M; b++)
            {
                std::string in; for(int s : {a, b, a}) { put32(in, EXTA); put32(in, s); in += bodybytes(s, 0); if(s & 1) in += '\0'; }
                std::string o; put32(o, FORM); put32(o, 4 + in.size()); put32(o, TA); o += in; diag_begin(); al_begin(0xA5);
                IFF_Chunk *r = read_bytes(o, &reg); if(!r) c.fail("extension chunks of %d, %d and %d bytes with %s are not read: %s", a, b, a, lname(l).c_str(), g_diag.c_str());
                IFF_Group *g = (IFF_Group*)r; if(g->chunkLength != 3 || !IFF_check(r, &reg)) c.fail("extension chunks of %d, %d and %d bytes with %s: %u chunks", a, b, a, lname(l).c_str(), g->chunkLength);
                for(int i = 0; i < 3; i++) { int s = i == 1 ? b : a, off = 0; bool open = true; std::string body = bodybytes(s, 0); if(g->chunk[i]->chunkSize != s) c.fail("chunk %d has another size", i); for(size_t k = 0; k < l.size(); k++) { bool inn = open && off + width[l[k]] <= s; if(!inn) open = false; if(!slot_ok(((Ext*)g->chunk[i])->f[k], l[k], inn ? (const unsigned char*)body.data() + off : nullptr)) c.fail("field %zu of chunk %d is wrong (sizes %d, %d, %s)", k, i, a, b, lname(l).c_str()); off += width[l[k]]; } }
                IFF_free(r, &reg); if(al_live()) c.fail("memory stays allocated"); al_end(); n++; c.trans(3); c.state(hash_str(o, hash_str(lname(l))));
            }
            c.execs(n); c.validated(n);
        });
    }
}
