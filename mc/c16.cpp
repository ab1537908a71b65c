// C16: ID and form type validity is decided correctly for every 32-bit value.
#include "api.hpp"
using namespace mc;

static unsigned calls; static void count_cb(const char *, va_list) { calls++; }
// independent of ok_id/ok_formtype in the model: tables per character
static bool t_any[256], t_first[256], t_form[256]; static std::vector<u32> names;
static void tables()
{
    for(int i = 0; i < 256; i++) { t_any[i] = i >= 32 && i <= 126; t_first[i] = i > 32 && i <= 126; t_form[i] = i == ' ' || strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", i) != nullptr; } t_form[0] = false;
    for(const char *s : {"LIST", "FORM", "PROP", "CAT ", "JJJJ"}) names.push_back(mkid(s));
    for(const char *s : {"LIS", "FOR", "CAT"}) for(char d = '1'; d <= '9'; d++) { char b[5] = {s[0], s[1], s[2], d, 0}; names.push_back(mkid(b)); }
    std::sort(names.begin(), names.end());
}
static bool v_id(u32 x) { return t_first[x >> 24] && t_any[x >> 16 & 255] && t_any[x >> 8 & 255] && t_any[x & 255]; }
static bool v_form(u32 x) { return v_id(x) && t_form[x >> 24] && t_form[x >> 16 & 255] && t_form[x >> 8 & 255] && t_form[x & 255] && !std::binary_search(names.begin(), names.end(), x); }
static inline void judge(Ctx &c, u32 x)
{
    calls = 0; bool r = IFF_checkId(x) != 0; unsigned n = calls; bool w = v_id(x);
    if(r != w) c.fail("ID %08x is %s", x, r ? "accepted" : "refused");
    if(r != (n == 0)) c.fail("ID %08x is %s with %u diagnostics", x, r ? "accepted" : "refused", n);
    calls = 0; r = IFF_checkFormType(x) != 0; n = calls; w = v_form(x);
    if(r != w) c.fail("form type %08x is %s", x, r ? "accepted" : "refused");
    if(r != (n == 0)) c.fail("form type %08x is %s with %u diagnostics", x, r ? "accepted" : "refused", n);
}
// in hierarchies: every place where an ID is used
static u64 places(Ctx &c, u32 x)
{
    std::vector<Node> v;
    bool group = x == FORM || x == CATT || x == LIST || x == PROP;
    if(!group) { v.push_back(mkgroup(FORM, TA, {mkraw(x, "ab")})); v.push_back(mkgroup(FORM, TA, {mkraw(DA, "ab"), mkgroup(FORM, TB, {mkraw(x, "c")})})); v.push_back(mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DB, ""), mkraw(x, "d")})})); v.push_back(mkraw(x, "main")); }
    v.push_back(mkgroup(FORM, x, {mkraw(DA, "x")})); v.push_back(mkgroup(CATT, JJJJ, {mkgroup(FORM, x)})); v.push_back(mkgroup(FORM, TA, {mkgroup(FORM, x)}));
    v.push_back(mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, x)})); v.push_back(mkgroup(LIST, x, {}, {mkgroup(PROP, x)}));
    v.push_back(mkgroup(CATT, x)); v.push_back(mkgroup(LIST, x)); v.push_back(mkgroup(CATT, x, {mkgroup(FORM, x)})); v.push_back(mkgroup(CATT, x, {mkgroup(CATT, x)})); v.push_back(mkgroup(LIST, x, {mkgroup(LIST, x)})); v.push_back(mkgroup(CATT, x, {mkgroup(FORM, TA)})); v.push_back(mkgroup(CATT, TA, {mkgroup(CATT, x)})); v.push_back(mkgroup(FORM, TA, {mkgroup(LIST, x), mkgroup(CATT, x)}));
    for(auto &t : v)
    {
        fixsizes(t); Chunk l(to_lib(t)); diag_begin(); bool r = IFF_check(l, nullptr) != 0, w = conform(t); c.trans();
        if(r != w) c.fail("%s is %s%s", desc(t).c_str(), r ? "accepted" : "refused: ", g_diag.c_str());
        if(r != (g_diag_calls == 0)) c.fail("%s is %s with %u diagnostics", desc(t).c_str(), r ? "accepted" : "refused", g_diag_calls);
        c.state(hash_str(ser(t)));
    }
    return v.size();
}

void mc_main(Engine &E)
{
    tables(); static bool T = E.thorough;
    E.assume("the IDs are compared with tables written from the IFF-85 text; internal spaces in IDs are legal (only leading ones are excluded)");
    if(T) E.scene("all_32_bit_values", 65536, [](Ctx &c) { IFF_errorCallback = &count_cb; u32 b = (u32)c.job << 16; for(u32 i = 0; i < 65536; i++) judge(c, b + i); c.execs(131072); c.validated(131072); c.trans(131072); c.state(c.job); });
    E.scene("pairs_of_bytes", 6 * 64, [](Ctx &c)
    {
        static const int lanes[6][4] = {{0, 1, 2, 3}, {0, 2, 1, 3}, {0, 3, 1, 2}, {1, 2, 0, 3}, {1, 3, 0, 2}, {2, 3, 0, 1}}; static const u32 ctx[8] = {0x20, 'A', 'z', '9', '.', 0x7f, 0x1f, 0xC1};
        IFF_errorCallback = &count_cb; const int *l = lanes[c.job % 6]; u32 fix = ctx[c.job / 6 % 8] << (8 * l[2]) | ctx[c.job / 48] << (8 * l[3]);
        for(u32 i = 0; i < 65536; i++) judge(c, (i & 255) << (8 * l[0]) | (i >> 8) << (8 * l[1]) | fix);
        c.execs(131072); c.validated(131072); c.trans(131072); c.state(c.job); c.note(fmt("%08x with two free bytes", fix));
    });
    // all words over the characters of valid form types and all words over the characters at the borders
    E.scene("form_type_alphabet", 37, [](Ctx &c) { static const char *al = " ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; IFF_errorCallback = &count_cb; u64 n = 0; for(int i = 0; i < 37; i++) for(int j = 0; j < 37; j++) for(int k = 0; k < 37; k++) { judge(c, (u32)al[c.job] << 24 | al[i] << 16 | al[j] << 8 | al[k]); n++; } c.execs(2 * n); c.validated(2 * n); c.trans(2 * n); c.state(c.job); });
    E.scene("border_alphabet", 34, [](Ctx &c) { static const unsigned char al[35] = "\x20\x21\x1f\x01\x7e\x7f\x80\xff\xa0\xc1/09:@AZ[`az{-._TSFORMLIC"; static bool init; unsigned char a[34]; memcpy(a, al, 34); a[3] = 0; IFF_errorCallback = &count_cb; u64 n = 0; for(int i = 0; i < 34; i++) for(int j = 0; j < 34; j++) for(int k = 0; k < 34; k++) { judge(c, (u32)a[c.job] << 24 | a[i] << 16 | a[j] << 8 | a[k]); n++; } c.execs(2 * n); c.validated(2 * n); c.trans(2 * n); c.state(c.job); });
    // neighbours of the reserved names: every byte of every name replaced by every value
    E.scene("reserved", names.size(), [](Ctx &c) { u64 n = 0; for(int p = 0; p < 4; p++) for(u32 b = 0; b < 256; b++) { u32 x = (names[c.job] & ~(0xffu << (8 * p))) | b << (8 * p); IFF_errorCallback = &count_cb; judge(c, x); n += 2 + places(c, x); } c.execs(n); c.validated(n); });
    E.scene("places_single_bytes", 4 * 256, [](Ctx &c) { u64 n = 0; for(u32 b : {TA, DA, FILL, mkid("a.~z"), mkid("A  "), mkid("0 9Z")}) { u32 p = c.job / 256, x = (b & ~(0xffu << (8 * p))) | (u32)(c.job % 256) << (8 * p); n += places(c, x); } c.execs(n); c.validated(n); });
    E.scene("places_words", T ? 1 << 16 : 4096, [](Ctx &c)
    {
        static const unsigned char al[17] = {' ', 'A', 'Z', '0', '9', 'a', '.', '~', '1', 0x7f, 0x1f, 'F', 'J', 0x80, '!', 'S'}; int bits = T ? 4 : 3; static const unsigned char s8[8] = {' ', 'A', '9', 'a', '.', '~', 0x7f, 0x1f}; u32 x = 0;
        for(int i = 0; i < 4; i++) { int d = c.job >> (bits * i) & ((1 << bits) - 1); x = x << 8 | (T ? al[d] : s8[d]); }
        u64 n = places(c, x); c.execs(n); c.validated(n);
    });
    // several occurrences: one bad ID anywhere in a larger hierarchy is found, with exactly that cause
    {
        Alphabet a; a.raws = {mkraw(DA, "x")}; a.formtypes = {TA}; a.conttypes = {TA, JJJJ}; static std::vector<Node> trees = Trees(a).upto(T ? 5 : 4); E.fact("trees", trees.size());
        E.scene("anywhere", trees.size(), [](Ctx &c)
        {
            u64 n = 0; static const u32 ids[] = {FILL, mkid(" ATA"), mkid("DAT\x7f"), mkid("\x1f" "ATA"), mkid("D TA"), mkid("dat."), mkid("FOR1"), mkid("FOR0"), mkid("JJJJ"), mkid("TST."), mkid("tSTA"), mkid("A   "), mkid("LISA"), mkid("CAT "), mkid("PROP"), mkid("\xc1" "AAA")};
            size_t cnt = trees[c.job].count();
            for(size_t i = 0; i < cnt; i++) for(u32 x : ids) for(int what = 0; what < 2; what++)
            {
                Node d = trees[c.job]; std::vector<Node*> f; flatten(d, f); Node &m = *f[i]; if(what == 0) { if(m.is_group()) continue; m.id = x; if(m.is_group()) continue; } else { if(!m.is_group()) continue; m.type = x; }
                Chunk l(to_lib(d)); diag_begin(); bool r = IFF_check(l, nullptr) != 0, w = conform(d); if(r != w) c.fail("%s is %s: %s", desc(d).c_str(), r ? "accepted" : "refused", g_diag.c_str()); if(r != (g_diag_calls == 0)) c.fail("%s is %s with %u diagnostics", desc(d).c_str(), r ? "accepted" : "refused", g_diag_calls); n++; c.trans(); c.state(hash_str(ser(d)));
            }
            c.execs(n); c.validated(n);
        });
    }
}
