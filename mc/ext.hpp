// An extension chunk type with fields and memory of its own: EXTA { UBYTE a; WORD-aligned UWORD b; LONG c; ID d; UBYTE *rest }
#pragma once
#include "iffall.hpp"
#include <cstdlib>
#include <cstring>
namespace ext {
struct Exta { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; IFF_UByte a, a2; IFF_UWord b; IFF_Long c; IFF_ID d; IFF_UByte *own; };
static IFF_Chunk *create(const IFF_ID id, const IFF_Long size)
{
    Exta *e = (Exta*)IFF_createChunk(id, size, sizeof(Exta));
    if(e) { e->a = e->a2 = 0; e->b = 0; e->c = 0; e->d = 0; e->own = (IFF_UByte*)malloc(16); if(!e->own) { free(e); return nullptr; } }
    return (IFF_Chunk*)e;
}
static IFF_Bool read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *, IFF_Long *p)
{
    Exta *e = (Exta*)c; IFF_FieldStatus s;
    if((s = IFF_readUByteField(f, &e->a, c, "a", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_readUByteField(f, &e->a2, c, "a2", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_readUWordField(f, &e->b, c, "b", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_readLongField(f, &e->c, c, "c", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_readIdField(f, &e->d, c, "d", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    return TRUE;
}
static IFF_Bool write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *, IFF_Long *p)
{
    const Exta *e = (const Exta*)c; IFF_FieldStatus s;
    if((s = IFF_writeUByteField(f, e->a, c, "a", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_writeUByteField(f, e->a2, c, "a2", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_writeUWordField(f, e->b, c, "b", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_writeLongField(f, e->c, c, "c", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    if((s = IFF_writeIdField(f, e->d, c, "d", p)) != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    return TRUE;
}
static IFF_Bool check(const IFF_Chunk *, const IFF_ChunkRegistry *) { return TRUE; }
static void freec(IFF_Chunk *c, const IFF_ChunkRegistry *) { free(((Exta*)c)->own); }
static void print(const IFF_Chunk *c, const unsigned ind, const IFF_ChunkRegistry *) { const Exta *e = (const Exta*)c; IFF_printIndent(stdout, ind, "ext %u %u %u %d %u;\n", e->a, e->a2, e->b, e->c, e->d); }
static IFF_Bool compare(const IFF_Chunk *x, const IFF_Chunk *y, const IFF_ChunkRegistry *) { const Exta *a = (const Exta*)x, *b = (const Exta*)y; return a->a == b->a && a->a2 == b->a2 && a->b == b->b && a->c == b->c && a->d == b->d; }
static IFF_ChunkType types[] = { { ((IFF_ID)'E' << 24 | 'X' << 16 | 'T' << 8 | 'A'), &create, &read, &write, &check, &freec, &print, &compare } };
static IFF_ChunkTypesNode node = { 1, types, nullptr };
static IFF_FormChunkTypes forms[] = { { ((IFF_ID)'T' << 24 | 'S' << 16 | 'T' << 8 | 'A'), &node } };
static const IFF_ChunkRegistry registry = { 1, forms, &IFF_globalChunkTypesNode, &IFF_defaultChunkType };
}
