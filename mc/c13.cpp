// C13: numbers and IDs are stored big-endian and survive for every value.
#include "api.hpp"
using namespace mc;

enum { UB, UW, W, UL, L, ID, KINDS };
static const int width[] = {1, 2, 2, 4, 4, 4};
static const char *kname[] = {"UByte", "UWord", "Word", "ULong", "Long", "Id"};
static bool rd(int k, FILE *f, void *p) { switch(k) { case UB: return IFF_readUByte(f, (IFF_UByte*)p, DA, "a"); case UW: return IFF_readUWord(f, (IFF_UWord*)p, DA, "a"); case W: return IFF_readWord(f, (IFF_Word*)p, DA, "a"); case UL: return IFF_readULong(f, (IFF_ULong*)p, DA, "a"); case L: return IFF_readLong(f, (IFF_Long*)p, DA, "a"); } return IFF_readId(f, (IFF_ID*)p, DA, "a"); }
static bool wr(int k, FILE *f, u32 v) { switch(k) { case UB: return IFF_writeUByte(f, (IFF_UByte)v, DA, "a"); case UW: return IFF_writeUWord(f, (IFF_UWord)v, DA, "a"); case W: return IFF_writeWord(f, (IFF_Word)v, DA, "a"); case UL: return IFF_writeULong(f, v, DA, "a"); case L: return IFF_writeLong(f, (IFF_Long)v, DA, "a"); } return IFF_writeId(f, v, DA, "a"); }
static void put(int k, u32 v, unsigned char *o) { for(int i = 0; i < width[k]; i++) o[i] = v >> (8 * (width[k] - 1 - i)); }
static u32 native(int k, const void *p) { switch(k) { case UB: return *(IFF_UByte*)p; case UW: return *(IFF_UWord*)p; case W: return (u32)(int32_t)*(IFF_Word*)p & 0xffff; case L: return (u32)*(IFF_Long*)p; } return *(u32*)p; }

// a stretch of values through one stream
template<class F> static void stretch(Ctx &c, int k, u64 n, F value)
{
    static std::vector<unsigned char> want, got; want.resize(n * width[k]); got.resize(n * width[k] + 1);
    u64 i; for(i = 0; i < n; i++) put(k, value(i), &want[i * width[k]]);
    FILE *f = fmemopen(got.data(), got.size(), "wb"); setvbuf(f, nullptr, _IOFBF, 1 << 16);
    for(i = 0; i < n; i++) if(!wr(k, f, value(i))) c.fail("IFF_write%s does not write %08x", kname[k], value(i));
    fclose(f);
    for(i = 0; i < n; i++) if(memcmp(&got[i * width[k]], &want[i * width[k]], width[k])) c.fail("IFF_write%s writes %08x as %s", kname[k], value(i), hex(std::string((char*)&got[i * width[k]], width[k])).c_str());
    f = fmemopen(want.data(), want.size(), "rb"); setvbuf(f, nullptr, _IOFBF, 1 << 16);
    for(i = 0; i < n; i++)
    {
        unsigned char cell[12]; memset(cell, 0xEE, 12); u32 v = value(i);
        if(!rd(k, f, cell + 4)) c.fail("IFF_read%s does not read %08x", kname[k], v);
        u32 r = native(k, cell + 4); if(r != v) c.fail("IFF_read%s reads %08x as %08x", kname[k], v, r);
        for(int j = 0; j < 12; j++) if((j < 4 || j >= 4 + width[k]) && cell[j] != 0xEE) c.fail("IFF_read%s writes outside its variable for %08x", kname[k], v);
        if(k == W && *(IFF_Word*)(cell + 4) != (int)(int16_t)v) c.fail("IFF_readWord reads %04x as %d", v, *(IFF_Word*)(cell + 4));
    }
    if(fgetc(f) != EOF) c.fail("IFF_read%s does not consume all bytes", kname[k]);
    fclose(f); c.trans(2 * n);
}
static void text(Ctx &c, u32 v)
{
    char cell[12]; memset(cell, 0x55, 12); IFF_idToString(v, *(IFF_ID2*)(void*)(cell + 4)); unsigned char w[4]; put(ID, v, w);
    if(memcmp(cell + 4, w, 4)) c.fail("IFF_idToString(%08x) gives %s", v, hex(std::string(cell + 4, 4)).c_str());
    for(int j = 0; j < 4; j++) if(cell[j] != 0x55 || cell[8 + j] != 0x55) c.fail("IFF_idToString(%08x) writes outside its array", v);
}

void mc_main(Engine &E)
{
    E.assume("little-endian host (the big-endian branch of the source is a plain copy and is not compiled here)");
    diag_begin();
    E.scene("bytes_and_words", 3, [](Ctx &c) { diag_begin(); int k = c.job; u64 n = k == UB ? 256 : 65536; stretch(c, k, n, [](u64 i) { return (u32)i; }); stretch(c, k, n, [n](u64 i) { return (u32)(n - 1 - i); }); if(g_diag_calls) c.fail("diagnostics: %s", g_diag.c_str()); c.execs(2 * n); c.validated(2 * n); c.state(k); c.note(fmt("all values of %s", kname[k])); });
    // all 2^32 values in blocks; first all values in which any two bytes are arbitrary and the others come from a small set
    auto all = [&] { E.scene("all_32_bit_values", 4096 * 4, [](Ctx &c)
    {
        diag_begin(); u32 base = (u32)(c.job / 4) << 20; int k = c.job % 4;
        if(k == 3) for(u32 i = 0; i < 1u << 20; i++) text(c, base + i); else stretch(c, UL + k, 1 << 20, [base](u64 i) { return base + (u32)i; });
        if(g_diag_calls) c.fail("diagnostics: %s", g_diag.c_str()); c.execs(1 << 20); c.validated(1 << 20); c.state(c.job);
    }); };
    E.scene("pairs_of_bytes", 6 * 36 * 4, [](Ctx &c)
    {
        diag_begin(); static const int lanes[6][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}, {1, 2, 0, 3}, {1, 3, 0, 2}, {2, 3, 0, 1}}; static const u32 ctx[6] = {0, 0xff, 0x80, 0x7f, 0x5a, 0x20};
        int k = c.job % 4; const int *l = lanes[c.job / 4 % 6]; u32 fix = ctx[c.job / 24 % 6] << (8 * l[2]) | ctx[c.job / 144] << (8 * l[3]);
        auto val = [=](u64 i) { return (u32)(i & 255) << (8 * l[0]) | (u32)(i >> 8) << (8 * l[1]) | fix; };
        if(k == 3) for(u64 i = 0; i < 65536; i++) text(c, val(i)); else stretch(c, UL + k, 65536, val);
        if(g_diag_calls) c.fail("diagnostics: %s", g_diag.c_str()); c.execs(65536); c.validated(65536); c.state(c.job); c.note(fmt("%08x with two free bytes", fix));
    });
    // streams that end or fail early: failure, and the variable keeps its value
    E.scene("short_streams", KINDS * 256, [](Ctx &c)
    {
        int k = c.job / 256; u64 n = 0; unsigned char first = c.job;
        for(int have = 0; have <= width[k] + 1; have++) for(int kind = 0; kind < 2; kind++) for(int var = 0; var < 4; var++) for(int old = 0; old < 256; old += 51)
        {
            std::string b(kind ? 8 : have, (char)first); if(b.size() > 1) b[1] = (char)~first; MemIn m; m.d = (unsigned char*)b.data(); m.n = b.size(); if(kind) m.fail_at = have; if(var & 1) m.chunk = 1;
            unsigned char cell[12]; memset(cell, old, 12); diag_begin(); FILE *f = open_in(&m, var & 2); bool ok = rd(k, f, cell + 4); size_t used = m.pos; fclose(f); bool want = have >= width[k];
            if(ok != want) c.fail("IFF_read%s with %d bytes available %s", kname[k], have, ok ? "succeeds" : "fails");
            for(int j = 0; j < 12; j++) if((!ok || j < 4 || j >= 4 + width[k]) && cell[j] != old) c.fail("IFF_read%s with %d bytes available changes %s", kname[k], have, j < 4 || j >= 4 + width[k] ? "foreign memory" : "the variable");
            if(ok) { unsigned char w[8]; u32 v = native(k, cell + 4); put(k, v, w); if(memcmp(w, b.data(), width[k])) c.fail("IFF_read%s reads %s as %08x", kname[k], hex(b).c_str(), v); if(!(var & 2) && used != (size_t)width[k]) c.fail("IFF_read%s consumes %zu bytes", kname[k], used); }
            if(ok == (g_diag_calls > 0)) c.fail("IFF_read%s with %d bytes available: %u diagnostics", kname[k], have, g_diag_calls);
            n++; c.trans();
        }
        for(int room = 0; room <= width[k] + 1; room++) for(u32 v : {(u32)first, (u32)first << 8, (u32)first << 16, (u32)first << 24, (u32)first * 0x01010101u, ~(u32)first})
        {
            MemOut m; m.budget = room; diag_begin(); FILE *f = open_out(&m, false); bool ok = wr(k, f, v); fclose(f); bool want = room >= width[k]; unsigned char w[4]; put(k, v, w);
            if(ok != want) c.fail("IFF_write%s with room for %d bytes %s", kname[k], room, ok ? "succeeds" : "fails");
            if(ok && m.buf != std::string((char*)w, width[k])) c.fail("IFF_write%s writes %08x as %s", kname[k], v, hex(m.buf).c_str());
            if(ok == (g_diag_calls > 0)) c.fail("IFF_write%s with room for %d bytes: %u diagnostics", kname[k], room, g_diag_calls);
            n++; c.trans();
        }
        c.execs(n); c.validated(n); c.state(c.job);
    });
    // the sizes and IDs of chunks go the same way
    E.scene("headers", 256, [](Ctx &c)
    {
        u64 n = 0;
        for(u32 i = 0; i < 256; i++) for(int sh : {0, 8, 16, 24})
        {
            u32 id = (u32)c.job << sh | i << ((sh + 8) % 32) | 0x41u << ((sh + 16) % 32) | 0x80u << ((sh + 24) % 32); if(id == FORM || id == LIST || id == CATT || id == PROP) continue; diag_begin(); int size = sh == 0 ? (int)i : sh == 8 ? (int)c.job * 3 : 2;
            std::string d = bigdata(size, sh), w; put32(w, id); put32(w, size); w += d; if(size & 1) w += '\0';
            Chunk a(IFF_createRawChunk(id, size)); if(size) IFF_copyDataToRawChunkData((IFF_RawChunk*)a.c, (IFF_UByte*)d.data());
            MemOut m; FILE *f = open_out(&m, true); bool ok = IFF_writeChunk(f, a, 0, &IFF_defaultChunkRegistry); fclose(f);
            if(!ok || m.buf != w) c.fail("a chunk with ID %08x and size %d is written as %s", id, size, hex(m.buf).c_str());
            Chunk b(read_bytes(w)); if(!b.c || b.c->chunkId != id || b.c->chunkSize != size) c.fail("the header %s is not read back", hex(w.substr(0, 8)).c_str());
            n++; c.trans(2);
        }
        c.execs(n); c.validated(n); c.state(c.job);
    });
    all();
}
