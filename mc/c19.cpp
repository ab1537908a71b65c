// C19: diagnostics explain every refusal, only go to the sink, and never cry wolf.
// Every operation runs twice, with different addresses and contents of fresh memory, and with a different operation before
// it; what reaches the installed callback has to be the same text, and nothing may reach the standard streams directly.
#include "api.hpp"
#include "ext.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

static void (*const initial_callback)(const char*, va_list) = IFF_errorCallback; // as the library comes
static std::atomic<u64> *n_silent, *n_spoke;

// the real standard streams, while the code under test runs
struct Fds {
    static int m1, m2, s1, s2; static pid_t owner; bool on = true;
    static void setup() { if(owner == getpid()) return; owner = getpid(); m1 = memfd_create("1", MFD_CLOEXEC); m2 = memfd_create("2", MFD_CLOEXEC); s1 = fcntl(1, F_DUPFD_CLOEXEC, 10); s2 = fcntl(2, F_DUPFD_CLOEXEC, 10); }
    Fds() { setup(); fflush(stdout); fflush(stderr); dup2(m1, 1); dup2(m2, 2); }
    static std::string take(int m) { off_t n = lseek(m, 0, SEEK_END); if(!n) return ""; std::string s(n, 0); pread(m, &s[0], n, 0); ftruncate(m, 0); lseek(m, 0, SEEK_SET); return s; }
    std::string out, err;
    void end() { if(!on) return; on = false; fflush(stdout); fflush(stderr); dup2(s1, 1); dup2(s2, 2); out = take(m1); err = take(m2); }
    ~Fds() { end(); }
};
int Fds::m1, Fds::m2, Fds::s1, Fds::s2; pid_t Fds::owner;

// ---- an operation whose diagnostics are judged ---------------------------------------------------------------------------
typedef std::function<bool()> Op; // true: success
static size_t cap = (size_t)1 << 20; // allocations above fail
static std::string hostile; // something that fails, run before the second time
static std::string run_op(Ctx &c, const Op &op, bool &ok, const std::string &what)
{
    std::string text; unsigned calls = 0;
    for(int round = 0; round < 2; round++)
    {
        void *shift = nullptr;
        if(round) { diag_begin(); Chunk x(read_bytes(hostile)); shift = malloc(40); }
        diag_begin(); g_diag_bad = false; al_begin(round ? 0x5A : 0xA5); al_cap(cap); Fds f; bool r = op(); f.end(); al_end(); free(shift); c.trans();
        if(!f.out.empty()) c.fail("%s writes to the standard output: %s", what.c_str(), f.out.c_str());
        if(!f.err.empty()) c.fail("%s writes to the standard error although a callback is installed: %s", what.c_str(), f.err.c_str());
        if(g_diag_bad) c.fail("%s passes a malformed format to the callback", what.c_str());
        if(IFF_errorCallback != &diag_cb) c.fail("%s replaces the callback", what.c_str());
        if((g_diag_calls > 0) != !g_diag.empty()) c.fail("%s calls back without text", what.c_str());
        if(!g_diag.empty() && g_diag.back() != '\n') c.fail("%s leaves an incomplete text: %s", what.c_str(), g_diag.c_str());
        if(g_diag.find("(null)") != std::string::npos) c.fail("%s: meaningless text: %s", what.c_str(), g_diag.c_str());
        if(!r && g_diag.empty()) c.fail("%s is refused without any diagnostic", what.c_str());
        if(!round) { ok = r; text = g_diag; calls = g_diag_calls; }
        else if(r != ok || text != g_diag || calls != g_diag_calls) c.fail("%s is explained differently the second time:\n%s---\n%s", what.c_str(), text.c_str(), g_diag.c_str());
    }
    (*(text.empty() ? n_silent : n_spoke))++;
    return text;
}
// warnings: the numbers in each of them
static std::vector<std::vector<int64_t>> warnings(const std::string &t)
{
    std::vector<std::vector<int64_t>> v; size_t p = 0;
    while(p < t.size())
    {
        size_t e = t.find('\n', p); if(e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p), low = l; for(char &ch : low) ch = tolower(ch);
        if(low.find("warning") != std::string::npos) { std::vector<int64_t> n; for(size_t i = 0; i < l.size();) { if(isdigit((unsigned char)l[i])) { bool neg = i && l[i - 1] == '-'; int64_t x = 0; while(i < l.size() && isdigit((unsigned char)l[i])) x = x * 10 + (l[i++] - '0'); n.push_back(neg ? -x : x); } else i++; } v.push_back(n); }
        p = e + 1;
    }
    std::sort(v.begin(), v.end()); return v;
}
// the oddities that reading tolerates, by the model
struct Odd {
    const std::string &s; size_t pos = 0; bool tiny = false; std::vector<std::vector<int64_t>> w;
    Odd(const std::string &x) : s(x) {}
    bool chunk(u32 &id, int32_t &size)
    {
        if(s.size() - pos < 8) return false;
        id = get32(s, pos); size = get32(s, pos + 4); pos += 8; if(size < 0) return false; u64 done = 0;
        bool group = id == FORM || id == CATT || id == LIST || id == PROP;
        if(!group) { if((u64)size > s.size() - pos) return false; pos += size; done = size; }
        else if(size >= 4)
        {
            if(s.size() - pos < 4) return false; pos += 4; done = 4; bool member = false;
            while(done < (u64)size) { u32 ci; int32_t cs; if(!chunk(ci, cs)) return false; done += 8 + padded((u32)cs); if(id == LIST && ci == PROP) { if(member) return false; } else member = true; }
            if(done > (u64)size) w.push_back({size, (int64_t)done});
        }
        else if(size > 0) tiny = true;
        if(done < (u64)size) { if(size - done > s.size() - pos) return false; pos += size - done; }
        if(size & 1) { if(pos >= s.size()) return false; if(s[pos]) w.push_back({}); pos++; }
        return true;
    }
    bool file() { u32 i; int32_t z; if(!chunk(i, z)) return false; if(pos < s.size()) w.push_back({(int64_t)(unsigned char)s[pos]}); std::sort(w.begin(), w.end()); return true; }
};
static std::string nums(const std::vector<std::vector<int64_t>> &v) { std::string o; for(auto &x : v) { o += "("; for(auto y : x) o += fmt("%ld ", (long)y); o += ") "; } return o; }

// everything about one input: reading, checking, writing what was read
static void input(Ctx &c, const std::string &b, const IFF_ChunkRegistry *reg = nullptr, bool writing = true)
{
    bool ok; std::string t = run_op(c, [&] { IFF_Chunk *x = read_bytes(b, reg); if(x) IFF_free(x, reg); return x != nullptr; }, ok, "reading " + hex(b));
    if(!reg)
    {
        Odd o(b); bool tolerated = o.file();
        if(ok != tolerated) c.fail("%s is %s", hex(b).c_str(), ok ? "read" : "not read");
        if(ok && !o.tiny && warnings(t) != o.w) c.fail("%s is read; the warnings should be %s, but the text is: %s", hex(b).c_str(), o.w.empty() ? "none" : nums(o.w).c_str(), t.c_str());
        Strict s(b); Node n; bool valid = s.file(n);
        if(valid && o.w.empty() && !t.empty()) c.fail("reading the valid file %s: %s", hex(b).c_str(), t.c_str());
    }
    c.state(comb(hash_str(b), hash_str(t)));
    if(!ok) { diag_begin(); al_cap(cap); MemIn m; FILE *f = open_in(&m, b, false); IFF_Chunk *x = IFF_readChunk(f, 0, reg ? reg : &IFF_defaultChunkRegistry); fclose(f); al_cap(SIZE_MAX); if(x) IFF_freeChunk(x, 0, reg ? reg : &IFF_defaultChunkRegistry); else if(!g_diag_calls) c.fail("reading the chunk %s is refused without any diagnostic", hex(b).c_str()); c.trans(); } // without the wording of the layers above
    if(!ok) { if(c.noting()) c.note("refused: " + t); return; }
    diag_begin(); Chunk x(read_bytes(b, reg), reg); bool conforming;
    t = run_op(c, [&] { return IFF_check(x, reg) != 0; }, conforming, "checking " + hex(b));
    if(conforming && !t.empty()) c.fail("%s conforms, but the check says: %s", hex(b).c_str(), t.c_str());
    if(c.noting()) c.note(conforming ? "conforms, nothing is said" : "read, refused by the check: " + t);
    c.state(comb(hash_str(b), hash_str(t)));
    if(writing) { t = run_op(c, [&] { std::string out; return write_bytes(x, out, reg); }, ok, "writing " + hex(b)); if(ok && conforming && !t.empty()) c.fail("writing %s: %s", hex(b).c_str(), t.c_str()); if(conforming && !ok) c.fail("%s cannot be written", hex(b).c_str()); }
}
static void silent(Ctx &c, const Node &n, const std::string &what)
{
    std::string b = ser(n), t; bool ok; Chunk a(to_lib(n));
    auto quiet = [&](const char *w, const Op &op) { t = run_op(c, op, ok, std::string(w) + " of " + what); if(!ok || !t.empty()) c.fail("%s of %s %s: %s", w, what.c_str(), ok ? "succeeds" : "fails", t.c_str()); };
    quiet("checking", [&] { return IFF_check(a, nullptr) != 0; });
    quiet("writing", [&] { std::string o; return write_bytes(a, o); });
    quiet("reading", [&] { IFF_Chunk *x = read_bytes(b); if(x) IFF_free(x, nullptr); return x != nullptr; });
    quiet("comparing", [&] { return IFF_compare(a, a, nullptr) != 0; });
    quiet("searching", [&] { unsigned k; u32 ty[] = {TA, TB}; IFF_Form **f = IFF_searchFormsFromArray(a, ty, 2, &k); free(f); return true; });
    quiet("printing", [&] { print_text(a); return true; });
    quiet("building", [&] { Chunk y(to_lib(n)); IFF_updateChunkSizes(y); return true; });
    c.state(hash_str(b));
}

// callbacks for the histories
static std::string sinkA, sinkB;
static void cbA(const char *f, va_list ap) { char b[600]; int n = vsnprintf(b, sizeof b, f, ap); sinkA.append(b, n); }
static void cbB(const char *f, va_list ap) { char b[600]; int n = vsnprintf(b, sizeof b, f, ap); sinkB.append(b, n); }

void mc_main(Engine &E)
{
    bool T = E.thorough; n_silent = E.counter("silent_operations"); n_spoke = E.counter("operations_with_diagnostics");
    E.assume("allocations above 1 MB fail (256 MB in valid_large); diagnostics are judged as complete text; warnings are the lines that contain the word `warning'");
    hostile = ser(fixed(mkgroup(LIST, TB, {mkgroup(FORM, TB, {mkraw(DB, "hostile")})}, {mkgroup(PROP, TB, {mkraw(DA, "p")})}))); hostile.resize(hostile.size() - 3);
    Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab"), mkraw(FILL, "f")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
    // 1. silence about well-formed hierarchies
    static std::vector<Node> fam = Trees(a).upto(T ? 6 : 5);
    { static const u64 step = 64; E.scene("valid", (fam.size() + step - 1) / step, [](Ctx &c) { u64 n = 0; for(u64 i = c.job * step; i < (c.job + 1) * step && i < fam.size(); i++) { silent(c, fam[i], desc(fam[i])); n++; if(c.noting()) c.note(desc(fam[i])); } c.execs(n); c.validated(n); }); }
    { static std::vector<Big> big = big_trees(T, T ? SIZE_MAX : 300000); E.scene("valid_large", big.size(), [](Ctx &c) { cap = (size_t)1 << 28; silent(c, big[c.job].n, big[c.job].name); cap = (size_t)1 << 20; c.execs(1); c.validated(); if(c.noting()) c.note(big[c.job].name); }); }
    { static std::vector<Node> x; Alphabet e = a; e.raws = {mkraw(mkid("EXTA"), std::string("\1\2\3\4\5\6\7\10\x41\x42\x43\x44", 12)), mkraw(mkid("EXTA"), "abc"), mkraw(DA, "q")}; x = Trees(e).upto(T ? 6 : 5);
      E.scene("valid_extension", x.size(), [](Ctx &c) { std::string b = ser(x[c.job]), t; diag_begin(); Chunk l(read_bytes(b, &ext::registry), &ext::registry); if(!l || g_diag_calls || !IFF_check(l, &ext::registry)) c.fail("%s: %s", hex(b).c_str(), g_diag.c_str()); std::string o; if(!write_bytes(l, o, &ext::registry) || g_diag_calls) c.fail("%s: %s", hex(b).c_str(), g_diag.c_str()); input(c, b, &ext::registry); c.validated(); }); }
    // 2. strings of words
    {
        static std::vector<u32> W = {FORM, CATT, LIST, PROP, TA, 0, 4, 1, 12, 0xffffffff, 0x7fffffff}; static const int L = T ? 7 : 6;
        E.scene("words", W.size() * W.size(), [](Ctx &c)
        {
            u64 n = 0; std::string pre; put32(pre, W[c.job % W.size()]); put32(pre, W[c.job / W.size()]);
            if(c.job < W.size()) for(int k = 0; k < 8; k++) { input(c, pre.substr(0, k)); n++; }
            std::function<void(std::string&, int)> rec = [&](std::string &s, int left) { input(c, s); n++; if(left) for(u32 x : W) { put32(s, x); rec(s, left - 1); s.resize(s.size() - 4); } };
            rec(pre, L - 2); c.execs(n); c.validated(n);
        });
    }
    // 3. one deviation, two deviations
    static std::vector<Node> base = { mkgroup(FORM, TA, {mkraw(DA, "abc"), mkgroup(FORM, TB, {mkraw(DB, "z")})}), mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DA, "1")}), mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA)})}),
        mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DB, "zz")}), mkgroup(CATT, TB, {mkgroup(FORM, TB, {mkraw(DA, "q")})})}, {mkgroup(PROP, TA, {mkraw(DA, "p")}), mkgroup(PROP, TB, {mkraw(DB, "pq"), mkraw(TEXT, "t")})}) };
    for(auto &n : base) fixsizes(n);
    E.scene("deviations", base.size() * Dev::N, [T](Ctx &c)
    {
        const Node &b = base[c.job / Dev::N]; int k = c.job % Dev::N; u64 n = 0;
        auto judge = [&](const Node &x)
        {
            input(c, ser(x)); n++;
            // the same deviation of a hierarchy in memory (stated sizes of raw chunks are honest there)
            bool mem = true; Node y = x; std::vector<Node*> v; flatten(y, v); for(Node *q : v) if(!q->is_group() && q->size != (int32_t)q->data.size()) mem = false; if(!mem) return;
            for(Node *q : v) if(q->is_group()) { bool stray = false; if(q->id != LIST) for(auto &p : q->props) { (void)p; stray = true; } if(stray || (q->id != FORM && q->id != CATT && q->id != LIST && q->id != PROP)) return; for(auto &k : q->kids) if(q->id == LIST && k.id == PROP) return; for(auto &p : q->props) if(p.id != PROP) return; }
            Chunk l(to_lib(x)); bool ok, fine = conform(from_lib(l, nullptr, nullptr)); std::string t = run_op(c, [&] { return IFF_check(l, nullptr) != 0; }, ok, "checking " + desc(x)); if(ok != fine) c.fail("%s is %s", desc(x).c_str(), ok ? "accepted" : "refused"); if(ok && !t.empty()) c.fail("%s conforms, but the check says %s", desc(x).c_str(), t.c_str());
            t = run_op(c, [&] { std::string o; return write_bytes(l, o, nullptr, true, 1 << 20); }, ok, "writing " + desc(x)); if(ok && fine && !t.empty()) c.fail("writing %s: %s", desc(x).c_str(), t.c_str()); n++; c.state(comb(hash_str(t), hash_str(desc(x))));
        };
        for(size_t i = 0; i < b.count(); i++)
        {
            Node x = b; if(!Dev::apply(x, i, k)) continue; judge(x);
            for(int k2 = k; k2 < Dev::N; k2++) for(size_t j = 0; j < x.count(); j++) if(T || c.job / Dev::N <= 1) { Node y = x; if(Dev::apply(y, j, k2)) judge(y); }
        }
        c.execs(n); c.validated(n);
    });
    // 4. truncations, failing streams
    E.scene("lengths", base.size(), [](Ctx &c)
    {
        std::string s = ser(base[c.job]); u64 n = 0;
        for(size_t k = 0; k <= s.size(); k++)
        {
            input(c, s.substr(0, k)); n++;
            for(int buf = 0; buf < 2; buf++) { bool ok; std::string t = run_op(c, [&] { MemIn m; m.fail_at = k; FILE *f = open_in(&m, s, buf); IFF_Chunk *x = IFF_readFd(f, nullptr); fclose(f); if(x) IFF_free(x, nullptr); return x != nullptr; }, ok, fmt("reading from a stream that fails at byte %zu", k)); if(ok != (k == s.size())) c.fail("reading from a stream that fails at byte %zu of %zu succeeds: %d", k, s.size(), ok); c.state(comb(c.job * 2 + buf, comb(k, hash_str(t)))); n++; }
        }
        c.execs(n); c.validated(n);
    });
    E.scene("sinks", base.size() + 4, [](Ctx &c)
    {
        static Node odd = fixed(mkgroup(FORM, TA, {mkraw(DA, std::string(5000, 'x')), mkraw(TEXT, "t")})); static Node ex[] = { odd, fixed(mkgroup(FORM, TA)), fixed(mkgroup(LIST, TA, {}, {mkgroup(PROP, TA, {mkraw(DA, "a")})})), [] { Node n = fixed(mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DA, "1")})})); n.size += 6; return n; }() };
        const Node &b = c.job < base.size() ? base[c.job] : ex[c.job - base.size()]; std::string w = ser(b); Chunk l(to_lib(b)); u64 n = 0; diag_begin(); { std::string o; write_bytes(l, o); w = o; }
        for(size_t k = 0; k <= w.size(); k += w.size() > 2000 && k > 50 && k + 50 < w.size() ? 61 : 1) for(int buf = 0; buf < 2; buf++) for(int tr = 0; tr < 2; tr++)
        {
            bool ok; std::string t = run_op(c, [&] { MemOut m; m.budget = k; m.transient = tr; FILE *f = open_out(&m, buf); bool r = IFF_writeFd(f, l, nullptr) != 0; fclose(f); return r; }, ok, fmt("writing to a stream that takes %zu of %zu bytes", k, w.size()));
            if(k < w.size() && ok) c.fail("writing to a stream that takes %zu of %zu bytes succeeds", k, w.size());
            if(ok && !t.empty()) c.fail("writing succeeds with a diagnostic: %s", t.c_str()); n++; c.state(comb(c.job * 4 + buf * 2 + tr, comb(k, hash_str(t))));
        }
        c.execs(n); c.validated(n);
    });
    // 5. memory runs out
    E.scene("memory", base.size() * 2, [](Ctx &c)
    {
        const Node &b = base[c.job / 2]; std::string s = ser(b); u64 n = 0; const IFF_ChunkRegistry *reg = c.job & 1 ? &ext::registry : nullptr;
        for(unsigned k = 1; k < 200; k++) for(int all = 0; all < 2; all++)
        {
            bool ok, hit = false; run_op(c, [&] { MemIn m; FILE *f = open_in(&m, s, true); al_fail(al_count() + k, all); IFF_Chunk *x = IFF_readFd(f, reg); hit = al_failed() > 0; al_fail(0, 0); fclose(f); if(x) IFF_free(x, reg); return x != nullptr; }, ok, fmt("reading while allocation %u fails", k));
            n++; c.state(comb(c.job, k * 2 + all)); if(!hit && all) { k = 1000; break; }
        }
        c.execs(n); c.validated(n);
    });
    // 6. warnings: every trailing byte, every padding byte at every place, every overrunning size
    E.scene("trailing", 256, [](Ctx &c) { u64 n = 0; for(auto &b : base) for(std::string t : {std::string(1, (char)c.job), std::string(1, (char)c.job) + "abc", std::string(1, (char)c.job) + std::string(3000, '\7')}) { input(c, ser(b) + t); n++; } c.execs(n); c.validated(n); });
    E.scene("padding", 256, [](Ctx &c)
    {
        u64 n = 0; Node b = fixed(mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DA, "a"), mkraw(TEXT, "abc")}), mkgroup(CATT, TB, {mkgroup(FORM, TB, {mkraw(DB, "12345")})})}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}));
        std::string s = ser(b); std::vector<size_t> pads; for(std::string d : {"a", "abc", "12345", "p"}) { std::string k; put32(k, d.size()); pads.push_back(s.find(k + d) + 4 + d.size()); }
        for(unsigned mask = 0; mask < 16; mask++) { std::string x = s; for(int i = 0; i < 4; i++) if(mask >> i & 1) x[pads[i]] = (char)c.job; input(c, x); n++; if(mask == 5) { input(c, x + "\xfe"); n++; } }
        c.execs(n); c.validated(n);
    });
    E.scene("overrun", 4 * 4, [T](Ctx &c)
    {
        // an outer group with members, an inner one with members; both state any size
        u64 n = 0; u32 outer = std::vector<u32>{FORM, CATT, LIST, PROP}[c.job % 4], inner = std::vector<u32>{FORM, CATT, LIST, PROP}[c.job / 4];
        for(int variant = 0; variant < (T ? 3 : 2); variant++)
        {
            Node in = mkgroup(inner, TA, {}), out = mkgroup(outer, TA);
            if(inner == LIST && variant) in.props.push_back(mkgroup(PROP, TA, {mkraw(DB, "pp")})); else in.kids.push_back(mkraw(DA, "abc"));
            if(variant == 2) in.kids.push_back(mkraw(DB, ""));
            (outer == LIST && inner == PROP ? out.props : out.kids).push_back(in); out.kids.push_back(mkraw(DB, "q")); fixsizes(out);
            int S = out.size + 8; for(int so = 0; so <= S; so++) for(int si = 0; si <= S; si++) { Node x = out; x.size = so; (x.props.empty() ? x.kids[0] : x.props[0]).size = si; input(c, ser(x)); n++; }
        }
        c.execs(n); c.validated(n);
    });
    // 7. named files and standard streams
    E.scene("files", 4, [](Ctx &c)
    {
        std::string d = fmt("%s/d%d", ::E->tmpdir.c_str(), (int)getpid()); mkdir(d.c_str(), 0700); u64 n = 0; bool ok; std::string t, w = ser(base[c.job % 3]); Chunk l(to_lib(base[c.job % 3]));
        { FILE *f = fopen((d + "/good").c_str(), "wb"); fwrite(w.data(), 1, w.size(), f); fclose(f); f = fopen((d + "/cut").c_str(), "wb"); fwrite(w.data(), 1, w.size() - 1, f); fclose(f); f = fopen((d + "/empty").c_str(), "wb"); fclose(f); mkdir((d + "/dir").c_str(), 0700); }
        std::string lng = d + "/"; lng += std::string(3000, 'n');
        struct { std::string name; bool ok; } in[] = {{d + "/good", true}, {d + "/cut", false}, {d + "/empty", false}, {d + "/dir", false}, {d + "/none", false}, {d + "/%s%n%d", false}, {"", false}, {lng, false}, {"/dev/null", false}};
        for(auto &i : in) for(int how = 0; how < 2; how++) { t = run_op(c, [&] { IFF_Chunk *x = how ? IFF_read(i.name.c_str(), nullptr) : IFF_readFile(i.name.c_str(), nullptr); if(x) IFF_free(x, nullptr); return x != nullptr; }, ok, "reading " + i.name); n++; c.state(hash_str(t)); if(ok != i.ok) c.fail("reading %s: %d", i.name.c_str(), ok); if(ok && !t.empty()) c.fail("reading a valid file: %s", t.c_str()); }
        struct { std::string name; bool ok; } out[] = {{d + "/new", true}, {d + "/dir", false}, {d + "/none/x", false}, {"/dev/full", false}, {"", false}, {lng, false}, {"/dev/null", true}};
        for(auto &i : out) for(int how = 0; how < 2; how++) { t = run_op(c, [&] { return (how ? IFF_write(i.name.c_str(), l, nullptr) : IFF_writeFile(i.name.c_str(), l, nullptr)) != 0; }, ok, "writing " + i.name); n++; c.state(hash_str(t)); if(ok != i.ok) c.fail("writing %s: %d", i.name.c_str(), ok); if(ok && !t.empty()) c.fail("writing a valid file: %s", t.c_str()); }
        for(size_t k = 0; k <= w.size(); k++) { t = run_op(c, [&] { MemIn m; std::string b = w.substr(0, k); FILE *f = open_in(&m, b, true); IFF_Chunk *x; { SwapOut s(&stdin, f); x = IFF_read(nullptr, nullptr); } fclose(f); if(x) IFF_free(x, nullptr); return x != nullptr; }, ok, "reading the standard input"); if(ok != (k == w.size()) || (ok && !t.empty())) c.fail("reading %zu of %zu bytes from the standard input: %s", k, w.size(), t.c_str()); n++; }
        for(size_t k = 0; k <= w.size(); k++) { t = run_op(c, [&] { MemOut m; m.budget = k; FILE *f = open_out(&m, true); bool r; { SwapOut s(&stdout, f); r = IFF_write(nullptr, l, nullptr) != 0; } fclose(f); return r; }, ok, "writing the standard output"); if(ok != (k == w.size()) || (ok && !t.empty())) c.fail("writing %zu of %zu bytes to the standard output: %s", k, w.size(), t.c_str()); n++; }
        c.execs(n); c.validated(n);
    });
    // 8. the callback: every history of installations and operations
    static std::vector<std::string> acts; // inputs; each act is reading and checking it
    acts = { ser(base[0]), ser(base[0]).substr(0, 9), ser(base[2]) + "\x81", [] { std::string s = ser(base[1]); s[9] = '.'; return s; }(), [] { Node n = base[2]; n.size -= 8; return ser(n); }() };
    {
        static const int D = T ? 8 : 6; static u64 A; A = 3 + acts.size(); static std::vector<std::string> alone;
        for(auto &s : acts) { diag_begin(); Chunk x(read_bytes(s)); if(x) IFF_check(x, nullptr); alone.push_back(g_diag); }
        u64 jobs = A * A;
        E.scene("callbacks", jobs, [](Ctx &c)
        {
            u64 n = 0; std::vector<int> h = {(int)(c.job % A), (int)(c.job / A)};
            std::function<void()> rec = [&]()
            {
                if((int)h.size() < D) { for(u64 i = 0; i < A; i++) { h.push_back(i); rec(); h.pop_back(); } return; }
                IFF_errorCallback = initial_callback; sinkA.clear(); sinkB.clear(); std::string A0, B0, E0; int cur = 2;
                { Fds f; for(int x : h) { if(x < 3) { cur = x; IFF_errorCallback = x == 0 ? &cbA : x == 1 ? &cbB : &IFF_errorCallbackStderr; } else { (cur == 0 ? A0 : cur == 1 ? B0 : E0) += alone[x - 3]; Chunk k(read_bytes(acts[x - 3])); if(k) IFF_check(k, nullptr); } } f.end();
                  if(!f.out.empty()) c.fail("diagnostics on the standard output: %s", f.out.c_str()); if(f.err != E0) c.fail("standard error gets\n%s---instead of\n%s", f.err.c_str(), E0.c_str()); }
                if(sinkA != A0 || sinkB != B0) c.fail("callbacks get\n%s---\n%s---instead of\n%s---\n%s", sinkA.c_str(), sinkB.c_str(), A0.c_str(), B0.c_str());
                n++; c.trans(D); c.state(comb(hash_str(A0), comb(hash_str(B0), hash_str(E0))));
            };
            rec(); c.execs(n); c.validated(n); diag_begin();
        });
    }
    // 9. the text does not depend on what happened before: every sequence of operations
    {
        static std::vector<Op> ops; static std::vector<std::string> name, alone; static std::vector<IFF_Chunk*> held;
        for(auto &s : acts) { ops.push_back([s] { Chunk x(read_bytes(s)); return x && IFF_check(x, nullptr); }); name.push_back("reading and checking " + hex(s, 40)); }
        for(size_t i = 0; i < base.size(); i++) { held.push_back(to_lib(base[i])); IFF_Chunk *l = held.back(); size_t z = ser(base[i]).size(); for(size_t k : {z, z - 1, z / 2}) { ops.push_back([l, k] { MemOut m; m.budget = k; FILE *f = open_out(&m, false); bool r = IFF_writeFd(f, l, nullptr) != 0; fclose(f); return r; }); name.push_back(fmt("writing tree %zu to a stream that takes %zu bytes", i, k)); } }
        for(u32 id : {0u, mkid(" ABC"), mkid("A\1BC"), mkid("ABC\xff"), mkid("ABCD")}) { ops.push_back([id] { return IFF_checkId(id) != 0; }); name.push_back(fmt("checking ID %08x", id)); ops.push_back([id] { return IFF_checkFormType(id) != 0; }); name.push_back(fmt("checking form type %08x", id)); }
        ops.push_back([] { return IFF_readFile("/nonexistent/x", nullptr) != nullptr; }); name.push_back("reading a missing file");
        for(auto &o : ops) { diag_begin(); o(); alone.push_back(g_diag); }
        static const int D = T ? 5 : 4; u64 k = ops.size();
        E.scene("sequences", k, [k](Ctx &c)
        {
            u64 n = 0; std::vector<u64> s = {c.job}; std::function<void()> rec = [&]() { if((int)s.size() < D) { for(u64 i = 0; i < k; i++) { s.push_back(i); rec(); s.pop_back(); } return; } for(u64 i : s) { diag_begin(); ops[i](); if(g_diag != alone[i]) c.fail("%s after %s says\n%s---instead of\n%s", name[i].c_str(), name[s[0]].c_str(), g_diag.c_str(), alone[i].c_str()); } n++; c.trans(D); };
            rec(); c.execs(n); c.validated(n); c.state(c.job); if(c.noting()) c.note("all sequences that start with " + name[c.job]);
        });
    }
    // 10. identifiers: every value of every character
    E.scene("identifiers", 256, [](Ctx &c)
    {
        u64 n = 0;
        for(int pos = 0; pos < 4; pos++) for(int other = 0; other < 256; other += other < 32 ? 31 : other < 126 ? 1 : 43) for(int p2 = 0; p2 < 4; p2++)
        {
            unsigned char x[4] = {'A', 'B', 'C', 'D'}; x[p2] = other; x[pos] = c.job; u32 id = (u32)x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3];
            diag_begin(); bool ok = IFF_checkId(id) != 0; if(ok == (g_diag_calls > 0)) c.fail("identifier %08x is %s %s diagnostic", id, ok ? "accepted" : "refused", ok ? "with a" : "without a");
            if(!ok && g_diag.back() != '\n') c.fail("identifier %08x: incomplete text", id);
            diag_begin(); ok = IFF_checkFormType(id) != 0; if(ok == (g_diag_calls > 0)) c.fail("form type %08x is %s %s diagnostic", id, ok ? "accepted" : "refused", ok ? "with a" : "without a");
            n += 2; c.trans(2);
        }
        c.execs(n); c.validated(n); c.state(c.job);
    });
    // 11. what a diagnostic concerns is named: the chunk in which the input ends or the output fails, whatever its ID
    {
        static const std::vector<u32> nm = {mkid("QRST"), mkid("zyxw"), mkid("A   "), mkid("!~.^"), mkid("%s%n"), mkid("%dxx"), mkid("1234"), TEXT, FILL, mkid("Ab\\\"")};
        E.scene("named_chunks", nm.size() * 5, [](Ctx &c)
        {
            u32 a = nm[c.job % nm.size()], b2 = nm[(c.job + 3) % nm.size()], d = nm[(c.job + 5) % nm.size()]; Node t; u64 n = 0;
            switch(c.job / nm.size())
            {
                case 0: t = mkgroup(FORM, TA, {mkraw(a, "abc"), mkraw(b2, "")}); break;
                case 1: t = mkgroup(LIST, JJJJ, {mkgroup(FORM, TB, {mkraw(b2, "12345")}), mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(d, "x"), mkraw(a, "yz")})})}, {mkgroup(PROP, TA, {mkraw(a, "p"), mkraw(d, "")})}); break;
                case 2: t = mkgroup(FORM, TA, {mkgroup(FORM, TB, {mkraw(a, std::string(300, 'q'))}), mkraw(d, std::string(71, 'r')), mkraw(b2, "1")}); break;
                case 3: t = mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(a, "1")}), mkgroup(LIST, TA, {}, {mkgroup(PROP, TB, {mkraw(b2, "2")})}), mkgroup(FORM, TA, {mkraw(d, "3")})}); break;
                default: t = mkgroup(FORM, TA, {mkgroup(CATT, TB), mkraw(a, ""), mkgroup(LIST, TB, {}, {mkgroup(PROP, TB), mkgroup(PROP, TA, {mkraw(a, "abcde")})}), mkraw(b2, "2")}); break;
            }
            fixsizes(t); std::string s = ser(t);
            std::vector<u32> who(s.size()); // the innermost chunk of every byte
            std::function<void(const Node&, size_t&)> walk = [&](const Node &x, size_t &p) { size_t p0 = p, e = p + 8 + padded(x.size); for(size_t i = p0; i < e; i++) who[i] = x.id; p += 8; if(x.is_group()) { p += 4; for(auto &k : x.props) walk(k, p); for(auto &k : x.kids) walk(k, p); } p = e; };
            size_t p0 = 0; walk(t, p0);
            std::vector<bool> header(s.size(), false); { std::function<void(const Node&, size_t&)> w2 = [&](const Node &x, size_t &p) { for(int i = 0; i < 4; i++) header[p + i] = true; size_t e = p + 8 + padded(x.size); p += 8; if(x.is_group()) { p += 4; for(auto &k : x.props) w2(k, p); for(auto &k : x.kids) w2(k, p); } p = e; }; size_t q = 0; w2(t, q); }
            Chunk l(to_lib(t));
            for(size_t k = 0; k < s.size(); k++)
            {
                for(int how = 0; how < 3; how++) // ends, fails, fails and is buffered
                {
                    bool ok; std::string x = run_op(c, [&] { MemIn m; std::string cut = how ? s : s.substr(0, k); if(how) m.fail_at = k; FILE *f = open_in(&m, cut, how == 2); IFF_Chunk *r = IFF_readFd(f, nullptr); fclose(f); if(r) IFF_free(r, nullptr); return r != nullptr; }, ok, fmt("reading %zu of %zu bytes", k, s.size()));
                    if(ok) c.fail("%zu of %zu bytes are read as a success", k, s.size());
                    if(!header[k] && x.find(idtext(who[k])) == std::string::npos) c.fail("the input %s at byte %zu, within the chunk '%s', but the diagnostics do not name it: %s", how ? "fails" : "ends", k, idtext(who[k]).c_str(), x.c_str());
                    n++; c.state(comb(hash_str(s), comb(k, hash_str(x))));
                }
                bool ok; std::string x = run_op(c, [&] { MemOut m; m.budget = k; FILE *f = open_out(&m, false); bool r = IFF_writeFd(f, l, nullptr) != 0; fclose(f); return r; }, ok, fmt("writing %zu of %zu bytes", k, s.size()));
                if(ok) c.fail("writing %zu of %zu bytes succeeds", k, s.size());
                if(x.find(idtext(who[k])) == std::string::npos) c.fail("the output fails at byte %zu, within the chunk '%s', but the diagnostics do not name it: %s", k, idtext(who[k]).c_str(), x.c_str());
                n++; c.state(comb(hash_str(s), comb(k, hash_str(x))));
            }
            // impossible and wrong sizes, misplaced chunks
            std::vector<size_t> at; { std::function<void(const Node&, size_t&)> w3 = [&](const Node &x, size_t &p) { at.push_back(p); size_t e = p + 8 + padded(x.size); p += 8; if(x.is_group()) { p += 4; for(auto &k : x.props) w3(k, p); for(auto &k : x.kids) w3(k, p); } p = e; }; size_t q = 0; w3(t, q); }
            for(size_t p : at) for(u32 v : {0x80000000u, 0x80000001u, 0x80000007u, 0xffffffffu, 0xfffffffeu, 0xffff0000u})
            {
                std::string y = s; y[p + 4] = (char)(v >> 24); y[p + 5] = (char)(v >> 16); y[p + 6] = (char)(v >> 8); y[p + 7] = (char)v; bool ok;
                std::string x = run_op(c, [&] { IFF_Chunk *r = read_bytes(y); if(r) IFF_free(r, nullptr); return r != nullptr; }, ok, "reading a negative size"); if(ok) c.fail("a negative size is read as a success"); n++;
                if(x.find(idtext(get32(s, p))) == std::string::npos || x.find(std::to_string((int32_t)v)) == std::string::npos) c.fail("the size %d of chunk '%s' is impossible, but the diagnostics do not name both: %s", (int32_t)v, idtext(get32(s, p)).c_str(), x.c_str());
            }
            for(u32 host : {PROP, CATT, LIST}) { Node bad = host == PROP ? mkgroup(LIST, TA, {}, {mkgroup(PROP, TA, {mkraw(DB, "1"), mkgroup(FORM, TA)})}) : mkgroup(host, TA, {mkgroup(FORM, TA), mkraw(a, "abc")}); fixsizes(bad); Chunk k(to_lib(bad)); bool ok; std::string x = run_op(c, [&] { return IFF_check(k, nullptr) != 0; }, ok, "checking " + desc(bad)); u32 w = host == PROP ? FORM : a; if(ok) c.fail("%s is accepted", desc(bad).c_str()); n++; if(x.find(idtext(w)) == std::string::npos) c.fail("%s has a misplaced '%s', but the diagnostics do not name it: %s", desc(bad).c_str(), idtext(w).c_str(), x.c_str()); }
            c.execs(n); c.validated(n);
        });
    }
    // 12. files that cannot be opened are named completely, and the default sink gets the same text as any other
    E.scene("named_files", T ? 4200 : 1100, [T](Ctx &c)
    {
        size_t len = T || c.job < 600 ? c.job : 600 + (c.job - 600) * 7 + c.job % 7; u64 n = 0; std::string d = fmt("%s/none/", ::E->tmpdir.c_str()); static Node t = fixed(mkgroup(FORM, TA, {mkraw(DA, "x")})); Chunk l(to_lib(t));
        for(int shape = 0; shape < 3; shape++)
        {
            std::string name = d; for(size_t i = 0; i < len; i++) name += shape == 0 ? (char)('a' + i % 26) : shape == 1 ? (i % 100 == 99 ? '/' : (char)('0' + i % 10)) : "%s%n%d\xff\t"[i % 8];
            for(int how = 0; how < 4; how++)
            {
                auto op = [&] { if(how & 1) return (how & 2 ? IFF_write(name.c_str(), l, nullptr) : IFF_writeFile(name.c_str(), l, nullptr)) != 0; IFF_Chunk *x = how & 2 ? IFF_read(name.c_str(), nullptr) : IFF_readFile(name.c_str(), nullptr); if(x) IFF_free(x, nullptr); return x != nullptr; };
                bool ok; std::string x = run_op(c, op, ok, how & 1 ? "writing a file in a missing folder" : "reading a file in a missing folder"), err;
                if(ok) c.fail("'%s' is opened", name.c_str());
                if(x.find(name) == std::string::npos) c.fail("a file with a name of %zu characters cannot be opened, but the diagnostics do not name it: %s", name.size(), x.c_str());
                IFF_errorCallback = initial_callback; { Fds f; op(); f.end(); err = f.err; if(!f.out.empty()) c.fail("diagnostics on the standard output"); } diag_begin();
                if(err != x) c.fail("the default sink gets\n%s---instead of\n%s", err.c_str(), x.c_str());
                n++; c.state(comb(hash_str(x), how));
            }
        }
        c.execs(n); c.validated(n);
    });
}
