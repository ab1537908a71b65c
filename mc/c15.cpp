// C15: iffpp prints exactly the valid files and its exit status tells the truth.
// The built program is executed for every combination of the enumerated inputs, sources, options and output faults; the
// expected outcome comes from the reference grammar, never from the program.
#include "proc.hpp"
using namespace mc;
extern "C" int tool_main(int, char**);

static std::atomic<u64> *n_runs, *n_shown, *n_refused;
struct Want { bool readable, valid; std::string text; };
static Want want_of(const std::string &b)
{
    Want w; Lenient l(b); Node n; w.readable = l.chunk(n);
    Strict s(b); Node m; w.valid = s.file(m);
    if(w.readable) w.text = pp(n);
    if(w.valid && (!w.readable || !(m == n))) { fprintf(stderr, "the two models of reading disagree on %s\n", hex(b).c_str()); abort(); }
    return w;
}
static const char *srcname[] = {"a named file", "standard input (pipe)", "standard input (file)", "standard input (byte by byte)"};
static const char *copt[] = {nullptr, "-c", "--disable-check"};

static void prepare(Proc &p, int src, int opt, const std::string &b)
{
    p.argv = {E->args[0]}; if(copt[opt]) p.argv.push_back(copt[opt]); p.cwd = workdir();
    p.input = b;
    if(src == 0) { spill_file(p.cwd + "/f.IFF", b); p.argv.push_back("f.IFF"); p.in = IN_FILE; p.input = ser(fixed(mkgroup(FORM, TC, {mkraw(DA, "not this one")}))); }
    else p.in = src == 1 ? IN_PIPE : src == 2 ? IN_FILE : IN_PACKETS;
}
static void judge(Ctx &c, Proc &p, const Want &w, bool unchecked, const std::string &what)
{
    (*n_runs)++; c.trans();
    bool show = w.readable && (w.valid || unchecked); (*(show ? n_shown : n_refused))++;
    if(p.signaled) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
    if(show)
    {
        if(p.status != 0) c.fail("%s is %s, but: %s", what.c_str(), w.valid ? "valid" : "readable", p.outcome().c_str());
        if(p.so != w.text) c.fail("%s is printed as\n%s\ninstead of\n%s", what.c_str(), p.so.substr(0, 800).c_str(), w.text.substr(0, 800).c_str());
    }
    else
    {
        if(p.status == 0) c.fail("%s is %s, but the status is 0; stdout: %s", what.c_str(), w.readable ? "not valid" : "not readable", p.so.substr(0, 300).c_str());
        if(!p.so.empty()) c.fail("%s is %s, but something is printed: %s", what.c_str(), w.readable ? "not valid" : "not readable", p.so.substr(0, 300).c_str());
        if(p.se.empty()) c.fail("%s is %s, but there is no diagnostic on the standard error", what.c_str(), w.readable ? "not valid" : "not readable");
    }
    c.state(comb(hash_str(p.so), comb(p.status, hash_str(what))));
}
static void input(Ctx &c, const std::string &b, int srcs, int opts)
{
    Want w = want_of(b);
    for(int src = 0; src < 4; src++) if(srcs >> src & 1) for(int opt = 0; opt < 3; opt++) if(opts >> opt & 1)
    {
        Proc p; prepare(p, src, opt, b); if(!p.run()) { fprintf(stderr, "cannot run %s\n", p.line().c_str()); abort(); }
        judge(c, p, w, opt > 0, fmt("`%s' with %s from %s", p.line().c_str(), hex(b, 120).c_str(), srcname[src]));
    }
}

static std::vector<Node> family(int n)
{
    Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab"), mkraw(DB, "")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ};
    Trees t(a); return t.upto(n);
}
static std::vector<Node> bases()
{
    std::vector<Node> v = { mkgroup(FORM, TA, {mkraw(DA, "abc"), mkraw(TEXT, "some text")}), mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(DA, "1")}), mkgroup(FORM, TA)}),
        mkgroup(LIST, JJJJ, {mkgroup(FORM, TA, {mkraw(DB, "zz")}), mkgroup(CATT, TB, {mkgroup(FORM, TB, {mkraw(DA, "q")})})}, {mkgroup(PROP, TA, {mkraw(DA, "p")}), mkgroup(PROP, TB, {mkraw(DB, "pq"), mkraw(TEXT, "t")})}),
        mkgroup(FORM, TB, {mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(FILL, "12")})}), mkraw(DA, "last")}) };
    for(auto &n : v) fixsizes(n); return v;
}

void mc_main(Engine &E)
{
    bool T = E.thorough; n_runs = E.counter("program_runs"); n_shown = E.counter("runs_that_print"); n_refused = E.counter("runs_that_refuse");
    E.assume("the program is built from src/iffpp and src/libiff with the project's definitions; the process is alone with its input and output; C locale; SIGPIPE and SIGXFSZ ignored, as under a shell script that handles errors itself");
    static std::vector<Node> fam = family(T ? 5 : 4), base = bases();
    E.fact("valid_trees", fam.size());
    // 1. valid trees
    { static const u64 step = 8; E.scene("valid", (fam.size() + step - 1) / step, [T](Ctx &c) { u64 n = 0; for(u64 i = c.job * step; i < (c.job + 1) * step && i < fam.size(); i++) { bool small = fam[i].count() <= 3; input(c, ser(fam[i]), small ? 15 : 1 << (i % 4), small ? 7 : T ? 3 : 1 << (i % 3)); n++; if(c.noting()) c.note(desc(fam[i])); } c.execs(n); c.validated(n); }); }
    // 2. every deviation of the bases (and pairs of them), from each source, checked and unchecked
    {
        static const size_t paired = T ? 9 : 1; // bases whose deviations are combined in pairs
        E.scene("deviations", base.size() * Dev::N, [](Ctx &c)
        {
            u64 n = 0; const Node &b = base[c.job / Dev::N]; int k = c.job % Dev::N; size_t m = b.count();
            for(size_t i = 0; i < m; i++)
            {
                Node x = b; if(!Dev::apply(x, i, k)) continue; input(c, ser(x), n % 2 ? 2 : 1, 3); n++;
                if(c.job / Dev::N < paired) for(int k2 = k; k2 < Dev::N; k2++) for(size_t j = 0; j < x.count(); j++) { Node y = x; if(!Dev::apply(y, j, k2)) continue; input(c, ser(y), 2, n % 3 ? 1 : 2); n++; }
            }
            c.execs(n); c.validated(n);
        });
    }
    // 3. truncations and trailing bytes
    E.scene("lengths", base.size(), [](Ctx &c)
    {
        std::string s = ser(base[c.job]); u64 n = 0;
        for(size_t k = 0; k <= s.size(); k++) { input(c, s.substr(0, k), k % 3 ? 2 : 15, 3); n++; }
        for(std::string t : {std::string("\0", 1), std::string("x"), std::string("\n"), std::string("FORM\0\0\0\4TSTA", 12), std::string(5000, '\xff'), std::string("\xff")}) { input(c, s + t, 15, 3); input(c, t + s, 15, 3); n += 2; }
        c.execs(n); c.validated(n); if(c.noting()) c.note(desc(base[c.job]) + " at every length");
    });
    // 4. strings of words
    {
        static std::vector<u32> W = {FORM, CATT, LIST, PROP, TA, DA, 0, 4, 12, 1, 0xffffffff}; static const int L = T ? 5 : 4;
        E.scene("words", W.size() * W.size(), [](Ctx &c)
        {
            u64 n = 0; std::string pre; put32(pre, W[c.job % W.size()]); put32(pre, W[c.job / W.size()]);
            std::function<void(std::string&, int)> rec = [&](std::string &s, int left) { input(c, s, n % 2 ? 1 : 2, 1 << (n / 2 % 2)); n++; if(left) for(u32 x : W) { put32(s, x); rec(s, left - 1); s.resize(s.size() - 4); } };
            rec(pre, L - 2); c.execs(n); c.validated(n);
        });
    }
    // 5. how the input arrives: every split in two, packets of every small size
    E.scene("arrival", base.size(), [](Ctx &c)
    {
        std::string s = ser(base[c.job]); Want w = want_of(s); u64 n = 0;
        for(int cut = 0; cut < 2; cut++) { std::string b = cut ? s.substr(0, s.size() - 1) : s; Want bw = want_of(b);
        for(size_t first = 1; first <= b.size(); first++) for(size_t pk : {b.size(), (size_t)1, (size_t)3}) { Proc p; prepare(p, 3, first % 2, b); p.first = first; p.packet = pk; if(!p.run()) abort(); judge(c, p, bw, first % 2, fmt("`%s' with %s arriving in pieces of %zu and %zu bytes", p.line().c_str(), hex(b, 120).c_str(), first, pk)); n++; } }
        c.execs(n); c.validated(n);
    });
    // 6. the output fails after every number of bytes
    E.scene("output", base.size() * 2, [](Ctx &c)
    {
        std::string s = ser(base[c.job / 2]); int src = c.job % 2; Want w = want_of(s); u64 n = 0;
        for(size_t lim = 0; lim <= w.text.size() + 1; lim++)
        {
            Proc p; prepare(p, src, lim % 3, s); p.limit = lim; if(!p.run()) abort(); n++; (*n_runs)++; c.trans();
            bool fits = lim >= w.text.size();
            if((p.status == 0) != fits) c.fail("`%s': the output has %zu bytes and can take %zu, but: %s", p.line().c_str(), w.text.size(), lim, p.outcome().c_str());
            if(p.so != w.text.substr(0, p.so.size()) || (fits && p.so != w.text)) c.fail("`%s': the output is not (the start of) the representation", p.line().c_str());
            c.state(comb(c.job, lim));
        }
        for(OutMode o : {OUT_FULL, OUT_BROKEN, OUT_CLOSED, OUT_PIPE}) for(int opt = 0; opt < 3; opt++)
        {
            Proc p; prepare(p, src, opt, s); p.out = o; if(!p.run()) abort(); n++; (*n_runs)++; c.trans();
            // with a closed standard output a named input file takes its descriptor, which is open for reading only
            if((p.status == 0) != (o == OUT_PIPE)) c.fail("`%s' with %s standard output: %s", p.line().c_str(), o == OUT_FULL ? "a full" : o == OUT_BROKEN ? "a broken" : o == OUT_CLOSED ? "a closed" : "a working", p.outcome().c_str());
            if(o == OUT_PIPE && p.so != w.text) c.fail("`%s': wrong representation on a pipe", p.line().c_str());
            c.state(comb(c.job * 8 + o, opt));
        }
        c.execs(n); c.validated(n); if(c.noting()) c.note(desc(base[c.job / 2]) + " printed to an output that takes any number of bytes");
    });
    // 6b. the output refuses bytes once, at any point, and takes everything afterwards (a terminal or a pipe that does not wait)
    {
        static std::vector<Node> nodes = base; { Node t = fixed(mkgroup(FORM, TA, {mkraw(DA, bigdata(3000)), mkraw(TEXT, "end")})); nodes.push_back(t); }
        E.scene("output_hiccups", nodes.size() * 3, [T](Ctx &c)
        {
            std::string s = ser(nodes[c.job / 3]); Want w = want_of(s); u64 n = 0; size_t z = w.text.size();
            for(size_t at = 0; at <= z + 1; at++)
            {
                if(z > 5000 && !T && at > 40 && at + 40 < z && (at + 3) % 1024 > 6) continue;
                Proc p; prepare(p, 1 + n % 2, n % 3, s); p.fn = tool_main; p.hiccup = at; p.obuf = c.job % 3; if(!p.run()) abort(); n++; (*n_runs)++; c.trans();
                if(p.signaled) c.fail("`%s' with an output that refuses bytes once: %s", p.line().c_str(), p.outcome().c_str());
                if(p.status == 0 && p.so != w.text) c.fail("`%s': %zu of %zu bytes of the output got lost when it refused bytes once after %zu, but the status is 0", p.line().c_str(), z - std::min(z, p.so.size()), z, at);
                if(at >= z && (p.status != 0 || p.so != w.text)) c.fail("`%s' with a standard output of its own: %s", p.line().c_str(), p.outcome().c_str());
                c.state(comb(c.job, comb(at, p.status)));
            }
            c.execs(n); c.validated(n); if(c.noting()) c.note(desc(nodes[c.job / 3]) + " printed to an output that refuses bytes once");
        });
    }
    // 6d. memory runs out at any allocation the program makes, once or for good, for valid, invalid and truncated inputs
    {
        static std::vector<std::string> ins; for(auto &n : base) { std::string s = ser(n); ins.push_back(s); ins.push_back(s.substr(0, s.size() - 1)); }
        for(auto &n : {mkgroup(FORM, mkid("TS.A"), {mkraw(DA, "x")}), mkgroup(CATT, TB, {mkgroup(FORM, TA)}), mkgroup(FORM, TA, {mkgroup(PROP, TA)}), mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "xyz")}), mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DA, "p")})}), mkgroup(CATT, TA, {mkgroup(LIST, TA, {mkgroup(CATT, TA, {mkgroup(FORM, TA, {mkraw(TEXT, "deep")})})})})}) ins.push_back(ser(fixed(n)));
        E.scene("memory", ins.size() * 2, [](Ctx &c)
        {
            const std::string &s = ins[c.job / 2]; bool all = c.job & 1; Want w = want_of(s); u64 n = 0;
            for(int src = 0; src < 3; src++) for(int opt = 0; opt < 3; opt++) for(unsigned k = 1;; k++)
            {
                Proc p; prepare(p, src, opt, s); p.fn = tool_main; p.memory = k; p.memory_all = all; if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(c.job * 9 + src * 3 + opt, comb(k, p.status)));
                if(p.signaled) c.fail("`%s' with %s when allocation %u%s fails: %s", p.line().c_str(), hex(s, 120).c_str(), k, all ? " and every later one" : "", p.outcome().c_str());
                if(!p.refused) { judge(c, p, w, opt, fmt("`%s' with %s and enough memory", p.line().c_str(), hex(s, 120).c_str())); break; }
                if(p.status == 0 ? p.so != w.text || !w.readable : !p.so.empty() || p.se.empty()) c.fail("`%s' with %s when allocation %u%s fails: %s", p.line().c_str(), hex(s, 120).c_str(), k, all ? " and every later one" : "", p.outcome().c_str());
                if(k > 100000) c.fail("`%s': more than %u allocations", p.line().c_str(), k);
            }
            c.execs(n); c.validated(n); if(c.noting()) c.note(hex(s, 60) + " printed while memory runs out at every point");
        });
    }
    // 6c. large files that are refused
    E.scene("large_refused", 12, [](Ctx &c)
    {
        size_t z = std::vector<size_t>{70000, 1u << 20, (1u << 24) + 1}[c.job % 3]; Node t;
        switch(c.job / 3)
        {
            case 0: t = mkgroup(FORM, mkid("TS.A"), {mkraw(DA, bigdata(z))}); break;
            case 1: t = mkgroup(CATT, TB, {mkgroup(FORM, TA, {mkraw(DA, bigdata(z))})}); break;
            case 2: t = mkgroup(LIST, TA, {mkgroup(FORM, TA)}, {mkgroup(PROP, TA, {mkraw(DA, bigdata(z))}), mkgroup(PROP, TA)}); break;
            default: t = mkgroup(FORM, TA, {mkraw(DA, bigdata(z)), mkgroup(PROP, TA)}); break;
        }
        fixsizes(t); input(c, ser(t), 7, 1); c.execs(3); c.validated(3); if(c.noting()) c.note(fmt("invalid file with %zu bytes of data", z));
    });
    // 7. large inputs and outputs (several stream buffers), failing late
    {
        static std::vector<Big> bigs; for(auto &b : big_trees(false, T ? 200000 : 20000)) { size_t z = ser(b.n).size(); if(z <= (T ? 300000u : 40000u) && z > 300) bigs.push_back(b); }
        E.scene("large", bigs.size(), [](Ctx &c)
        {
            const Node &n = bigs[c.job].n; std::string s = ser(n); input(c, s, 3, 1); input(c, s.substr(0, s.size() - 1), 2, 1); input(c, s + "t", 1, 2); Want w = want_of(s); u64 k = 4;
            for(size_t lim : {w.text.size(), w.text.size() - 1, w.text.size() / 2, (size_t)4096, (size_t)4095, (size_t)4097})
            { Proc p; prepare(p, 0, 0, s); p.limit = lim; if(!p.run()) abort(); k++; (*n_runs)++; bool fits = lim >= w.text.size(); if((p.status == 0) != fits || (fits && p.so != w.text)) c.fail("%s printed to an output that takes %zu of %zu bytes: %s", bigs[c.job].name.c_str(), lim, w.text.size(), p.outcome().c_str()); }
            c.execs(k); c.validated(k); if(c.noting()) c.note(bigs[c.job].name);
        });
    }
    // 7b. names of files are just names (behind `--' also those that look like options)
    {
        static std::vector<std::string> names = {"-", "-x", "--", "--help", "-o", "-c", "a b", "%s%d%n", "%%", "\xff\xfe", "new\nline", "tab\t", "'q\"", "$HOME", "*", "x.iff", "UPPER.IFF", ".hidden", "sub/f", "./sub/../g", "sub//h", std::string(100, 'n'), std::string(255, 'm'), "sub/" + std::string(200, 'k')};
        for(size_t len : {257, 511, 513, 1023, 1025, 2049, 4001, 4020}) names.push_back(padded_name("", len));
        E.scene("names", names.size() * 2, [](Ctx &c)
        {
            const std::string &x = names[c.job / 2]; bool abs = c.job & 1; std::string d = workdir() + "/"; u64 n = 0; mkdir((d + "sub").c_str(), 0700); std::string good = ser(base[0]), bad = good, cut = good.substr(0, good.size() - 1); bad[9] = '.';
            for(auto *b : {&good, &bad, &cut}) for(int link = 0; link < 2; link++) for(int chk = 0; chk < 2; chk++)
            {
                unlink((d + x).c_str()); unlink((d + "target").c_str()); if(link) { spill_file(d + "target", *b); if(symlink((d + "target").c_str(), (d + x).c_str())) abort(); } else spill_file(d + x, *b);
                Proc p; p.cwd = workdir(); p.argv = {::E->args[0]}; if(chk) p.argv.push_back("-c"); p.argv.push_back("--"); p.argv.push_back((abs ? d : "") + x); p.in = IN_PIPE; p.input = ser(base[1]);
                if(!p.run()) abort(); n++; judge(c, p, want_of(*b), chk, fmt("`%s' with %s", p.line().c_str(), hex(*b, 80).c_str())); unlink((d + x).c_str());
            }
            c.execs(n); c.validated(n);
        });
    }
    // 7c. the environment plays no part in what is read, printed and reported
    {
        static const std::vector<std::string> env = {"POSIXLY_CORRECT=1", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_ALL=C", "TZ=x", "HOME=/nonexistent", "TMPDIR=/nonexistent", "COLUMNS=10", "TERM=dumb", "PAGER=false", "NO_COLOR=1", "VERBOSE=1", "DEBUG=1", "QUIET=1", "IFF_DEBUG=1", "IFFPP_OPTIONS=-c", "IFF_DISABLE_CHECK=1", "PWD=/", "USER=nobody", "MALLOC_PERTURB_=165", "PATH=", "=", "X"};
        E.scene("environment", env.size(), [](Ctx &c)
        {
            const std::string &e = env[c.job]; u64 n = 0;
            std::string good = ser(base[0]), bad = good, cut = good.substr(0, good.size() - 1); bad[9] = '.';
            for(auto *b : {&good, &bad, &cut}) for(int chk = 0; chk < 2; chk++) for(int file = 0; file < 2; file++)
            {
                spill_file(workdir() + "/f", *b); Proc p; p.vars = {e}; p.cwd = workdir(); p.argv = {::E->args[0]}; if(chk) p.argv.push_back("-c"); if(file) p.argv.push_back("f"); p.in = file ? IN_NULL : IN_PIPE; p.input = *b;
                if(!p.run()) abort(); n++; judge(c, p, want_of(*b), chk, fmt("%s `%s' with %s", e.c_str(), p.line().c_str(), hex(*b, 80).c_str())); unlink((workdir() + "/f").c_str());
            }
            c.execs(n); c.validated(n);
        });
    }
    // 8. options and sources: every list of up to three words of the command line
    {
        static std::vector<const char*> V = {"-c", "--disable-check", "-h", "--help", "-v", "--version", "-x", "--bogus", "--disable-check=1", "good", "bad", "cut", "none", "dir", "empty", "--", "-ch", "-cv", "-cx", "/dev/null", "link", ""};
        static const int L = 3; u64 v = V.size(), jobs = v + 1;
        E.scene("options", jobs, [v](Ctx &c)
        {
            std::string good = ser(base[0]), bad = good, cut = good.substr(0, good.size() - 1); bad[9] = '.'; const std::string &d = workdir();
            spill_file(d + "/good", good); spill_file(d + "/bad", bad); spill_file(d + "/cut", cut); spill_file(d + "/empty", ""); mkdir((d + "/dir").c_str(), 0700); if(symlink("good", (d + "/link").c_str())) {}
            u64 n = 0; std::vector<const char*> a; if(c.job) a.push_back(V[c.job - 1]);
            std::function<void()> rec = [&]()
            {
                // the meaning of the line: GNU conventions, options are recognized anywhere before `--'
                bool chk = true, opts = true; const char *file = nullptr; int files = 0, mode = 0; // 1 help 2 version 3 wrong
                for(const char *w : a) { std::string s = w; if(mode) break; if(opts && s == "--") opts = false; else if(opts && s.size() > 1 && s[0] == '-') { if(s == "-c" || s == "--disable-check") chk = false; else if(s == "-h" || s == "--help" || s == "-ch") mode = 1; else if(s == "-v" || s == "--version" || s == "-cv") mode = 2; else mode = 3; } else { if(!files++) file = w; } }
                if(mode == 0 && files > 1) {} // not documented
                else for(int in = 0; in < 4; in++)
                {
                    if(in && (mode || file) && a.size() > 1) break;
                    Proc p; p.argv = {::E->args[0]}; for(const char *w : a) p.argv.push_back(w); p.cwd = workdir(); p.in = in == 0 ? IN_PIPE : in == 1 ? IN_NULL : in == 2 ? IN_CLOSED : IN_DIR; if(in == 0) p.input = a.size() % 2 ? ser(base[1]) : bad;
                    if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(hash_str(p.line()), comb(in, p.status)));
                    std::string rep = mode == 0 ? "" : pp(base[0]), what = fmt("`%s'", p.line().c_str());
                    if(p.signaled) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
                    if(mode == 1 && (p.status != 0 || p.so.find("Usage") == std::string::npos || p.so.find("--disable-check") == std::string::npos || !p.se.empty())) c.fail("%s has to show the usage: %s", what.c_str(), p.outcome().c_str());
                    if(mode == 2 && (p.status != 0 || p.so.find("0.1") == std::string::npos || p.so.find("iffpp") == std::string::npos || p.so.find("Usage") != std::string::npos || !p.se.empty())) c.fail("%s has to show the version: %s", what.c_str(), p.outcome().c_str());
                    if(mode == 3 && (p.status == 0 || p.se.empty())) c.fail("%s has an unknown option: %s", what.c_str(), p.outcome().c_str());
                    if(mode && p.so.find("chunkSize") != std::string::npos) c.fail("%s prints a file", what.c_str());
                    if(mode == 0)
                    {
                        std::string f = file ? file : "<stdin>", b; bool have = true;
                        if(!file) { if(in == 0) b = p.input; else have = false; } else if(f == "good" || f == "link") b = good; else if(f == "bad") b = bad; else if(f == "cut") b = cut; else have = false;
                        Want w = want_of(b); if(!have) w.readable = w.valid = false; judge(c, p, w, !chk, what + (file ? "" : " with " + hex(b, 60) + " on the standard input"));
                    }
                }
                if((int)a.size() < L && !(c.job == 0)) for(const char *w : V) { a.push_back(w); rec(); a.pop_back(); }
            };
            rec(); c.execs(n); c.validated(n); if(c.noting()) c.note(fmt("all command lines that start with %s", c.job ? V[c.job - 1] : "(nothing)"));
        });
    }
}
