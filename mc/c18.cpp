// C18: iffjoin concatenates exactly its inputs, or fails without touching its output; the library's contents type rule.
#include "proc.hpp"
using namespace mc;
extern "C" int tool_main(int, char**);

static std::atomic<u64> *n_runs, *n_joined, *n_refused;

// an input file: its content, and the main chunk it contributes if it is valid
struct In { std::string name, bytes; bool present = true, ok = false; Node n; };
static In mkin(const std::string &name, const std::string &b) { In i; i.name = name; i.bytes = b; Strict s(b); i.ok = s.file(i.n); return i; }
static In mkin(const std::string &name, const Node &n) { return mkin(name, ser(fixed(n))); }

static Node joined(const std::vector<const In*> &v) { Node c = mkgroup(CATT, v[0]->n.type); for(auto *i : v) { if(i->n.type != c.type) c.type = JJJJ; c.kids.push_back(i->n); } fixsizes(c); return c; }

static std::vector<In> pool(bool more)
{
    std::vector<In> v;
    auto F = [](u32 t, std::vector<Node> k = {}) { return mkgroup(FORM, t, k); };
    v.push_back(mkin("formA", F(TA, {mkraw(DA, "abc")})));
    v.push_back(mkin("formB", F(TB)));
    v.push_back(mkin("catA", mkgroup(CATT, TA, {F(TA), F(TA, {mkraw(DB, "z")})})));
    v.push_back(mkin("listJ", mkgroup(LIST, JJJJ, {F(TA), F(TB)}, {mkgroup(PROP, TA, {mkraw(DA, "p")})})));
    v.push_back(mkin("trailing", ser(fixed(F(TA, {mkraw(TEXT, "t")}))) + "xyz"));
    v.push_back(mkin("bad", [] { Node n = fixed(mkgroup(FORM, mkid("TsTA"), {mkraw(DA, "abc")})); return ser(n); }()));
    v.push_back(mkin("cut", [&] { std::string s = v[0].bytes; return s.substr(0, s.size() - 1); }()));
    { In m; m.name = "missing"; m.present = false; v.push_back(m); }
    if(more)
    {
        v.push_back(mkin("listA", mkgroup(LIST, TA, {F(TA)}, {mkgroup(PROP, TB, {mkraw(DA, "pq")})})));
        v.push_back(mkin("catJ", mkgroup(CATT, JJJJ, {})));
        { std::string s = ser(fixed(F(TB, {mkraw(DA, "a")}))); s[s.size() - 1] = 'P'; v.push_back(mkin("oddpad", s)); }
        v.push_back(mkin("empty", ""));
        v.push_back(mkin("prop", ser(fixed(mkgroup(PROP, TA)))));
        v.push_back(mkin("raw", ser(mkraw(DA, "abcd"))));
        { Node n = fixed(F(TA, {mkraw(DA, "abc")})); n.size += 2; v.push_back(mkin("oversized", ser(n))); }
        { Node n = fixed(mkgroup(CATT, TA, {F(TB)})); v.push_back(mkin("mismatch", ser(n))); }
    }
    return v;
}

enum Mode { STDOUT, ABSENT, EXISTING, LONGER, SAME_FIRST, SAME_LAST, MODES };
static const char *mname[] = {"standard output", "a new file", "an existing short file", "an existing long file", "the first input", "the last input"};

static void join(Ctx &c, const std::vector<const In*> &v, int mode, int spelling = 0, size_t limit = SIZE_MAX)
{
    Proc p; p.cwd = workdir(); std::string d = p.cwd + "/", out = "out"; p.limit = limit;
    unlink((d + "out").c_str());
    for(auto *i : v) if(i->present) spill_file(d + i->name, i->bytes); else unlink((d + i->name).c_str());
    std::string before; bool existed = false;
    if(mode == EXISTING) { before = "old"; existed = true; spill_file(d + out, before); }
    if(mode == LONGER) { before = std::string(3000, 'o'); existed = true; spill_file(d + out, before); }
    if(mode == SAME_FIRST || mode == SAME_LAST) { const In *i = mode == SAME_FIRST ? v.front() : v.back(); out = i->name; existed = i->present; before = i->bytes; }
    p.argv = {E->args[1]};
    std::vector<std::string> names, opt; for(auto *i : v) names.push_back(i->name);
    if(mode != STDOUT) switch(spelling) { case 0: case 4: opt = {"-o", out}; break; case 1: opt = {"-o" + out}; break; case 2: opt = {"--output-file=" + out}; break; default: opt = {"--output-file", out}; }
    if(spelling == 4) { names.insert(names.end(), opt.begin(), opt.end()); opt.clear(); }
    for(auto &s : opt) p.argv.push_back(s); for(auto &s : names) p.argv.push_back(s);
    if(!p.run()) { fprintf(stderr, "cannot run %s\n", p.line().c_str()); abort(); }
    (*n_runs)++; c.trans();
    bool ok = true; for(auto *i : v) ok = ok && i->ok;
    std::string got = mode == STDOUT ? p.so : slurp(d + out), what = fmt("`%s' to %s", p.line().c_str(), mname[mode]);
    (*(ok ? n_joined : n_refused))++;
    if(p.signaled) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
    if(mode != STDOUT && !p.so.empty()) c.fail("%s also writes to the standard output: %s", what.c_str(), hex(p.so).c_str());
    if(ok)
    {
        Node n = joined(v); std::string want = ser(n); bool fits = limit >= want.size();
        if(fits != (p.status == 0)) c.fail("%s (limit %zd of %zu bytes): %s", what.c_str(), (ssize_t)limit, want.size(), p.outcome().c_str());
        if(fits && got != want) c.fail("%s gives\n %s\ninstead of\n %s", what.c_str(), hex(got).c_str(), hex(want).c_str());
        if(fits) { Strict s(got); Node m; if(!s.file(m) && conform(n)) c.fail("%s gives an invalid CAT: %s", what.c_str(), s.why.c_str()); }
    }
    else
    {
        if(p.status == 0) c.fail("%s, though an input is not a valid file, ends with status 0", what.c_str());
        if(p.se.empty()) c.fail("%s, though an input is not a valid file, without a diagnostic", what.c_str());
        if(mode == STDOUT ? !got.empty() : existed ? got != before : exists(d + out)) c.fail("%s: an input is not a valid file, but the output was %s: %s", what.c_str(), existed ? "altered" : "created", hex(got).c_str());
    }
    // the inputs are inputs only
    for(auto *i : v) if(i->present && !(mode >= SAME_FIRST && i->name == out) && slurp(d + i->name) != i->bytes) c.fail("%s alters its input %s", what.c_str(), i->name.c_str());
    c.state(comb(hash_str(p.line()), comb(mode * 2 + ok, hash_str(got, limit))));
}

// ---- the rule for the contents type through the library --------------------------------------------------------------------
static void library(Ctx &c, bool list, const std::vector<int> &seq, const std::vector<Node> &kinds, u32 initial)
{
    diag_begin(); Node n = mkgroup(list ? LIST : CATT, initial); IFF_Chunk *l = list ? (IFF_Chunk*)IFF_createEmptyListWithContentsType(initial) : (IFF_Chunk*)IFF_createEmptyCATWithContentsType(initial); Chunk own(l);
    if(list) { Node p = fixed(mkgroup(PROP, TC, {mkraw(DA, "p")})); IFF_addPropToList((IFF_List*)l, (IFF_Prop*)to_lib(p)); n.props.push_back(p); }
    for(size_t i = 0; i < seq.size(); i++)
    {
        const Node &k = kinds[seq[i]]; IFF_Chunk *x = to_lib(k);
        if(!(list ? IFF_addToListAndUpdateContentsType((IFF_List*)l, x) : IFF_addToCATAndUpdateContentsType((IFF_CAT*)l, x))) c.fail("adding %s is refused: %s", desc(k).c_str(), g_diag.c_str());
        n.kids.push_back(k); u32 t = n.kids[0].type; for(auto &m : n.kids) if(m.type != t) t = JJJJ; n.type = t; fixsizes(n);
        std::string bad; Node got = from_lib(l, nullptr, &bad); if(!bad.empty() || !(got == n)) c.fail("after adding %zu members: %s instead of %s %s", i + 1, desc(got).c_str(), desc(n).c_str(), bad.c_str());
        if((IFF_check(l, nullptr) != 0) != conform(n)) c.fail("%s is judged wrongly: %s", desc(n).c_str(), g_diag.c_str());
        c.trans(2); c.state(hash_str(ser(n)));
    }
}

void mc_main(Engine &E)
{
    bool T = E.thorough; n_runs = E.counter("program_runs"); n_joined = E.counter("runs_that_join"); n_refused = E.counter("runs_that_refuse");
    E.assume("the program is built from src/iffjoin and src/libiff with the project's definitions; no other process touches the files meanwhile; SIGPIPE and SIGXFSZ ignored");
    static std::vector<In> small = pool(false), large = pool(true);
    // 1. every list of inputs up to four (three for the larger pool), into every kind of output
    auto lists = [&](const char *name, std::vector<In> &P, int L, bool modes)
    {
        u64 k = P.size(); std::vector<In> *pp = &P;
        E.scene(name, k * k, [pp, k, L, modes](Ctx &c)
        {
            std::vector<const In*> v = { &(*pp)[c.job % k] }; u64 n = 0;
            std::function<void()> rec = [&]()
            {
                u64 h = 0; for(auto *i : v) h = h * 5 + (i - &(*pp)[0]);
                for(int m = 0; m < MODES; m++) if(modes || v.size() <= 2 || (int)(h % MODES) == m) { join(c, v, m, (h + m) % 5); n++; }
                if((int)v.size() < L) for(auto &i : *pp) { if(v.size() == 1 && (u64)(&i - &(*pp)[0]) != c.job / k) continue; v.push_back(&i); rec(); v.pop_back(); }
            };
            if(c.job / k == 0 || L > 1) { if(c.job / k == 0) rec(); else { v.push_back(&(*pp)[c.job / k]); rec(); v.pop_back(); } }
            c.execs(n); c.validated(n); if(c.noting()) c.note(fmt("all lists that start with %s", v[0]->name.c_str()));
        });
    };
    lists("lists", small, T ? 5 : 4, false);
    lists("lists_allmodes", small, T ? 4 : 3, true);
    lists("lists_wide", large, T ? 4 : 3, false);
    // 2. the output takes any number of bytes only
    {
        static std::vector<std::vector<int>> cases = {{0}, {1}, {0, 2}, {3, 0}, {4, 4, 4}, {0, 1, 2, 3}};
        E.scene("budget", cases.size() * 5, [](Ctx &c)
        {
            std::vector<const In*> v; for(int i : cases[c.job / 5]) v.push_back(&small[i]); int mode = c.job % 5; size_t full = ser(joined(v)).size(); u64 n = 0;
            for(size_t lim = 0; lim <= full + 2; lim++) { join(c, v, mode, lim % 5, lim); n++; }
            c.execs(n); c.validated(n); if(c.noting()) c.note(fmt("%zu inputs, every limit up to %zu bytes", v.size(), full + 2));
        });
    }
    // 3. outputs that cannot be opened or written, standard outputs that fail
    E.scene("unwritable", small.size(), [](Ctx &c)
    {
        const In &i = small[c.job]; u64 n = 0; std::string d = workdir() + "/";
        for(int k = 0; k < 9; k++)
        {
            mkdir((d + "dir").c_str(), 0700); if(i.present) spill_file(d + i.name, i.bytes);
            Proc p; p.cwd = workdir(); p.argv = {::E->args[1]}; bool good = false; if(symlink("/dev/full", (d + "fulllink").c_str())) {}
            switch(k) { case 0: p.argv.insert(p.argv.end(), {"-o", "dir"}); break; case 1: p.argv.insert(p.argv.end(), {"-o", "nodir/out"}); break; case 2: p.argv.insert(p.argv.end(), {"-o", "/dev/full"}); break; case 3: p.argv.insert(p.argv.end(), {"-o", ""}); break; case 4: p.out = OUT_FULL; break; case 5: p.out = OUT_BROKEN; break; case 6: p.out = OUT_CLOSED; break; case 7: p.out = OUT_PIPE; good = i.ok; break; case 8: p.argv.insert(p.argv.end(), {"-o", "fulllink"}); break; }
            p.argv.push_back(i.name); p.argv.push_back(i.name); if(!p.run()) abort(); (*n_runs)++; n++; c.trans();
            if(p.signaled || (p.status == 0) != good) c.fail("`%s', output case %d: %s", p.line().c_str(), k, p.outcome().c_str());
            if(!good && k < 4 && p.se.empty()) c.fail("`%s' fails without a diagnostic", p.line().c_str());
            if(good && p.so != ser(joined({&i, &i}))) c.fail("`%s' gives %s on a pipe", p.line().c_str(), hex(p.so).c_str());
            if(exists(d + "nodir")) c.fail("a folder was created");
            c.state(comb(c.job * 16 + k, p.status));
        }
        c.execs(n); c.validated(n);
    });
    // 3b. a standard output that refuses bytes once, at any point, and takes everything afterwards
    {
        static std::vector<std::vector<int>> cases = {{0}, {1}, {3, 0}, {0, 2, 1}};
        E.scene("hiccups", cases.size() * 3, [](Ctx &c)
        {
            std::vector<const In*> v; for(int i : cases[c.job / 3]) v.push_back(&small[i]); std::string want = ser(joined(v)), d = workdir() + "/"; u64 n = 0;
            for(size_t at = 0; at <= want.size() + 1; at++)
            {
                Proc p; p.cwd = workdir(); p.argv = {::E->args[1]}; for(auto *i : v) { spill_file(d + i->name, i->bytes); p.argv.push_back(i->name); }
                p.fn = tool_main; p.hiccup = at; p.obuf = c.job % 3; if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(c.job, comb(at, p.status)));
                if(p.signaled || (p.status == 0 && p.so != want)) c.fail("`%s' to a standard output that refuses bytes once after %zu of %zu: %s", p.line().c_str(), at, want.size(), p.outcome().c_str());
                if(at >= want.size() && (p.status != 0 || p.so != want)) c.fail("`%s' with a standard output of its own: %s", p.line().c_str(), p.outcome().c_str());
            }
            c.execs(n); c.validated(n);
        });
    }
    // 3e. memory runs out at any allocation the program makes, once or for good
    {
        static std::vector<std::vector<int>> cases; int S = small.size(); for(int a = 0; a < S; a++) { cases.push_back({a}); for(int b = 0; b < S; b++) cases.push_back({a, b}); } if(T) for(int a = 0; a < S; a++) for(int b = 0; b < S; b++) cases.push_back({0, a, b}); cases.push_back({0, 1, 0, 3, 0}); cases.push_back({0, 0, 0, 0, 0, 0, 0, 0, 0});
        E.scene("memory", cases.size() * 2, [](Ctx &c)
        {
            std::vector<const In*> v; bool ok = true, all = c.job & 1; for(int i : cases[c.job / 2]) { v.push_back(&small[i]); ok = ok && small[i].ok; } std::string want = ok ? ser(joined(v)) : "", d = workdir() + "/"; u64 n = 0;
            for(int mode : {STDOUT, ABSENT, LONGER, SAME_FIRST}) for(unsigned k = 1;; k++)
            {
                std::string out = mode == SAME_FIRST ? v[0]->name : "out"; bool there = false; std::string before; Proc p; p.cwd = workdir(); p.argv = {::E->args[1]}; unlink((d + "out").c_str());
                if(mode == LONGER) spill_file(d + "out", std::string(want.size() + 100, 'o')); if(mode != STDOUT) p.argv.insert(p.argv.end(), {"-o", out});
                for(auto *i : v) { if(i->present) spill_file(d + i->name, i->bytes); else unlink((d + i->name).c_str()); p.argv.push_back(i->name); }
                if(mode != STDOUT && (there = exists(d + out))) before = slurp(d + out);
                p.fn = tool_main; p.memory = k; p.memory_all = all; if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(c.job * 8 + mode, comb(k, p.status)));
                std::string what = fmt("`%s' when allocation %u%s fails", p.line().c_str(), k, all ? " and every later one" : ""); if(!p.refused && !p.signaled) what = fmt("`%s' with enough memory", p.line().c_str());
                std::string got = mode == STDOUT ? p.so : slurp(d + out);
                if(p.signaled || (!p.refused && (p.status == 0) != ok)) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
                if(p.status == 0 && (!ok || got != want)) c.fail("%s: status 0, but the output is %s", what.c_str(), hex(got, 200).c_str());
                if(p.status != 0 && (mode == STDOUT ? !got.empty() : there ? got != before : exists(d + out))) c.fail("%s: the output was %s: %s", what.c_str(), there ? "altered" : "created", hex(got, 200).c_str());
                for(auto *i : v) if(i->present && !(mode == SAME_FIRST && i->name == out) && slurp(d + i->name) != i->bytes) c.fail("%s: the input %s is altered", what.c_str(), i->name.c_str());
                if(!p.refused) break;
            }
            c.execs(n); c.validated(n); if(c.noting()) c.note(fmt("%zu inputs joined while memory runs out at every point", v.size()));
        });
    }
    // 3c. many inputs that are not valid (an exit status has eight bits), and inputs that are pipes
    E.scene("many_invalid", 24, [](Ctx &c)
    {
        size_t k = std::vector<size_t>{2, 127, 128, 255, 256, 257, 512, 768}[c.job / 3]; u64 n = 0; std::vector<const In*> v;
        for(const In &i : small) if(!i.ok) { if(n++ % 3 == c.job % 3) for(size_t j = 0; j < k; j++) v.push_back(&i); }
        for(int m : {STDOUT, ABSENT, LONGER}) join(c, v, m); v.push_back(&small[0]); join(c, v, STDOUT); v.insert(v.begin(), &small[1]); join(c, v, ABSENT); c.execs(5); c.validated(5);
    });
    E.scene("pipes", small.size() * 3, [](Ctx &c)
    {
        const In &i = small[c.job / 3]; if(!i.present) { c.execs(1); return; } int at = c.job % 3; std::string d = workdir() + "/"; const In &o = small[0]; spill_file(d + o.name, o.bytes); unlink((d + "out").c_str()); u64 n = 0;
        for(int to = 0; to < 2; to++)
        {
            Proc p; p.cwd = workdir(); p.argv = {::E->args[1]}; if(to) p.argv.insert(p.argv.end(), {"-o", "out"}); p.extra_fd = 9; p.extra = i.bytes; std::vector<const In*> v;
            for(int k = 0; k < 3; k++) { if(k == at) v.push_back(&i); else v.push_back(&o); p.argv.push_back(k == at ? "/dev/fd/9" : o.name); }
            if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); std::string got = to ? slurp(d + "out") : p.so; c.state(comb(c.job, comb(to, p.status)));
            if(p.signaled || (p.status == 0) != i.ok) c.fail("`%s' with %s in a pipe: %s", p.line().c_str(), i.name.c_str(), p.outcome().c_str());
            if(i.ok ? got != ser(joined(v)) : to ? exists(d + "out") : !got.empty()) c.fail("`%s' with %s in a pipe gives %s", p.line().c_str(), i.name.c_str(), hex(got).c_str());
            unlink((d + "out").c_str());
        }
        c.execs(n); c.validated(n);
    });
    // 3d. names of inputs and outputs are just names (behind `--' also those that look like options)
    {
        static std::vector<std::string> names = {"-", "-x", "--", "--help", "-o", "-c", "a b", "%s%d%n", "%%", "\xff\xfe", "new\nline", "tab\t", "'q\"", "$HOME", "*", "x.iff", "UPPER.IFF", ".hidden", "sub/f", "./sub/../g", "sub//h", std::string(100, 'n'), std::string(255, 'm'), "sub/" + std::string(200, 'k')};
        for(size_t len : {257, 511, 513, 1023, 1025, 2049, 4001, 4020}) names.push_back(padded_name("", len));
        E.scene("names", names.size() * 2, [](Ctx &c)
        {
            const std::string &x = names[c.job / 2]; bool abs = c.job & 1; std::string d = workdir() + "/"; u64 n = 0; mkdir((d + "sub").c_str(), 0700);
            for(int role = 0; role < 3; role++) for(const In *i : {&small[0], &small[3], &small[5], &small[6]}) for(int link = 0; link < 3; link++) // an input, the output, both
            {
                if(role == 1 && i != &small[0]) continue;
                spill_file(d + "other", small[1].bytes); unlink((d + x).c_str()); unlink((d + "target").c_str()); unlink((d + "out").c_str());
                std::string before = role == 1 ? "old" : i->bytes; if(link) { spill_file(d + "target", before); if(link == 1 ? symlink((d + "target").c_str(), (d + x).c_str()) : ::link((d + "target").c_str(), (d + x).c_str())) abort(); } else spill_file(d + x, before);
                std::string w = (abs ? d : "") + x; Proc p; p.cwd = workdir(); p.argv = {::E->args[1], "-o", role ? w : "out", "--", "other"}; if(role != 1) { p.argv.push_back(w); p.argv.push_back(w); }
                if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(hash_str(p.line()), comb(link, p.status)));
                std::vector<const In*> v = {&small[1]}; if(role != 1) { v.push_back(i); v.push_back(i); } bool ok = role == 1 || i->ok; std::string out = role ? d + x : d + "out";
                if(p.signaled || (p.status == 0) != ok) c.fail("`%s': %s", p.line().c_str(), p.outcome().c_str());
                if(ok ? slurp(out) != ser(joined(v)) : role ? slurp(out) != before : exists(out)) c.fail("`%s' (%s): the output is %s", p.line().c_str(), link == 1 ? "a symbolic link" : link ? "a hard link" : "a file", hex(slurp(out)).c_str());
                if(!role && slurp(d + x) != before) c.fail("`%s' alters its input", p.line().c_str());
                unlink((d + x).c_str());
            }
            c.execs(n); c.validated(n);
        });
    }
    // 3e. the environment plays no part
    {
        static const std::vector<std::string> env = {"POSIXLY_CORRECT=1", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=x", "HOME=/nonexistent", "TMPDIR=/nonexistent", "TERM=dumb", "VERBOSE=1", "DEBUG=1", "QUIET=1", "IFF_DEBUG=1", "IFFJOIN_OPTIONS=-o x", "OUTPUT=x", "PWD=/", "USER=nobody", "MALLOC_PERTURB_=165", "PATH=", "=", "X"};
        E.scene("environment", env.size(), [](Ctx &c)
        {
            std::string d = workdir() + "/"; u64 n = 0;
            for(const In *i : {&small[0], &small[3], &small[5], &small[6]}) for(int to = 0; to < 2; to++) for(int at = 0; at < 2; at++)
            {
                spill_file(d + "other", small[1].bytes); spill_file(d + "in", i->bytes); unlink((d + "out").c_str()); Proc p; p.vars = {env[c.job]}; p.cwd = workdir(); p.argv = {::E->args[1]}; if(to) p.argv.insert(p.argv.end(), {"-o", "out"}); p.argv.push_back(at ? "other" : "in"); p.argv.push_back(at ? "in" : "other");
                if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); std::string got = to ? slurp(d + "out") : p.so; c.state(comb(hash_str(p.line()), comb(c.job, p.status)));
                std::vector<const In*> v = {at ? &small[1] : i, at ? i : &small[1]}; if(p.signaled || (p.status == 0) != i->ok) c.fail("%s `%s' with %s: %s", env[c.job].c_str(), p.line().c_str(), i->name.c_str(), p.outcome().c_str());
                if(i->ok ? got != ser(joined(v)) : to ? exists(d + "out") : !got.empty()) c.fail("%s `%s' with %s gives %s", env[c.job].c_str(), p.line().c_str(), i->name.c_str(), hex(got).c_str());
            }
            unlink((d + "out").c_str()); c.execs(n); c.validated(n);
        });
    }
    // 4. what makes one input invalid: every truncation, every deviation of a rich file, first or last in the list
    {
        static Node rich = fixed(mkgroup(LIST, TA, {mkgroup(FORM, TA, {mkraw(DA, "abc")}), mkgroup(CATT, TA, {mkgroup(FORM, TA)})}, {mkgroup(PROP, TA, {mkraw(DA, "p")}), mkgroup(PROP, TB)}));
        E.scene("inputs", Dev::N + 1, [](Ctx &c)
        {
            u64 n = 0; std::string s = ser(rich);
            auto go = [&](const std::string &b) { In x = mkin("x", b); for(int m : {STDOUT, ABSENT, LONGER}) for(int at = 0; at < 2; at++) { std::vector<const In*> v = at ? std::vector<const In*>{&small[0], &x} : std::vector<const In*>{&x, &small[1]}; join(c, v, m, (n + at) % 5); n++; } };
            if(c.job == Dev::N) for(size_t k = 0; k <= s.size(); k++) go(s.substr(0, k));
            else for(size_t i = 0; i < rich.count(); i++) { Node y = rich; if(Dev::apply(y, i, c.job)) go(ser(y)); }
            c.execs(n); c.validated(n);
        });
    }
    // 5. valid trees in general, in pairs with each other
    {
        Alphabet a; a.raws = {mkraw(DA, "x"), mkraw(TEXT, "ab")}; a.formtypes = {TA, TB}; a.conttypes = {TA, JJJJ}; Trees t(a);
        static std::vector<In> fam; int q = 0; for(auto &n : t.upto(T ? 3 : 2)) fam.push_back(mkin(fmt("v%d", q++), n)); E.fact("valid_trees", fam.size());
        static std::vector<In> wide; for(auto &n : t.upto(T ? 5 : 4)) wide.push_back(mkin("w", n));
        E.scene("pairs", fam.size(), [](Ctx &c) { u64 n = 0; const In &a = fam[c.job]; for(auto &b : fam) { join(c, {&a, &b}, n % MODES, n % 5); n++; } c.execs(n); c.validated(n); if(c.noting()) c.note(desc(a.n) + " with every other tree of the family"); });
        E.scene("trees", wide.size(), [](Ctx &c) { join(c, {&wide[c.job]}, c.job % MODES, c.job % 5); join(c, {&small[0], &wide[c.job]}, STDOUT); join(c, {&wide[c.job], &small[1], &wide[c.job]}, ABSENT); c.execs(3); c.validated(3); });
    }
    // 6. many inputs, large inputs
    {
        static std::vector<size_t> many = {5, 8, 9, 16, 17, 33, 64, 65, 100, 128, 200, 256, 257, 300}; if(T) many.push_back(1000), many.push_back(1500);
        E.scene("many", many.size() * 3, [](Ctx &c)
        {
            std::vector<In> own; size_t k = many[c.job / 3]; int kind = c.job % 3;
            for(size_t i = 0; i < k; i++) own.push_back(mkin(fmt("m%zu", i), mkgroup(FORM, kind && i == (kind == 1 ? k - 1 : k / 2) ? TB : TA, {mkraw(DA, std::to_string(i))})));
            std::vector<const In*> v; for(auto &i : own) v.push_back(&i); join(c, v, STDOUT); join(c, v, LONGER, 2);
            In bad = mkin("bad", "FORM\0\0\0\5TSTA"); v.back() = &bad; join(c, v, STDOUT); join(c, v, EXISTING); join(c, v, ABSENT); c.execs(5); c.validated(5);
        });
        // the same few files again and again: more inputs than descriptors, than two bytes can count
        static std::vector<size_t> reps = {1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2048, 4097, 32769, 65535, 65536, 65537}; if(T) reps.push_back(100000);
        E.scene("repeated", reps.size() * 3, [](Ctx &c)
        {
            size_t k = reps[c.job / 3]; int kind = c.job % 3; Proc p; p.cwd = workdir(); std::string d = p.cwd + "/"; p.argv = {::E->args[1], "-oout"}; unlink((d + "out").c_str());
            In a = mkin("a", mkgroup(FORM, TA, {mkraw(DA, "one")})), b = mkin("b", mkgroup(FORM, kind == 1 ? TB : TA, {mkraw(DB, "other")})); spill_file(d + "a", a.bytes); spill_file(d + "b", b.bytes);
            std::string body; size_t odd = kind == 0 ? k / 2 : k - 1; for(size_t i = 0; i < k; i++) { body += i == odd ? b.bytes : a.bytes; p.argv.push_back(kind == 2 && i == odd ? "nothing" : i == odd ? "b" : "a"); } unlink((d + "nothing").c_str());
            std::string want; put32(want, CATT); put32(want, body.size() + 4); put32(want, kind == 1 ? JJJJ : TA); want += body;
            if(!p.run()) abort(); (*n_runs)++; c.trans(); c.execs(1); c.validated(); if(p.signaled) c.fail("%zu inputs: %s", k, p.outcome().c_str());
            if(kind == 2) { (*n_refused)++; if(p.status == 0 || p.se.empty() || exists(d + "out")) c.fail("%zu inputs, the last of which is missing, end with status %d, %s", k, p.status, exists(d + "out") ? "and create the output" : p.se.c_str()); }
            else { (*n_joined)++; std::string got = slurp(d + "out"); if(p.status || got != want) c.fail("%zu inputs end with status %d and %zu instead of %zu bytes: %s", k, p.status, got.size(), want.size(), p.se.c_str()); }
            c.state(comb(k, kind)); c.note(fmt("%zu inputs, kind %d", k, kind));
        });
        static std::vector<Big> bigs; for(auto &b : big_trees(T, T ? SIZE_MAX : 300000)) if(b.n.props.size() < 10000) bigs.push_back(b); // checking is quadratic in the number of PROPs
        E.scene("large", bigs.size(), [](Ctx &c) { In b = mkin("big", bigs[c.job].n); size_t z = b.bytes.size(); join(c, {&b, &small[1], &b}, STDOUT); join(c, {&small[0], &b}, SAME_LAST); join(c, {&b, &small[5]}, SAME_FIRST); In cut = mkin("cutbig", b.bytes.substr(0, z - 1)); join(c, {&b, &cut}, ABSENT); join(c, {&b}, ABSENT, 0, z + 11); join(c, {&b}, LONGER, 0, z + 12); c.execs(6); c.validated(6); if(c.noting()) c.note(bigs[c.job].name); });
    }
    // 7. options
    {
        static std::vector<const char*> V = {"-h", "--help", "-v", "--version", "-x", "--bogus", "--output-file", "-o", "-oq", "--output-file=q", "formA", "bad", "--", "--help=1", "missing"};
        static const int L = T ? 4 : 3; u64 v = V.size();
        E.scene("options", v + 1, [](Ctx &c)
        {
            u64 n = 0; std::vector<const char*> a; if(c.job) a.push_back(V[c.job - 1]); const std::string d = workdir() + "/"; const In *A = &small[0], *B = &small[5]; spill_file(d + A->name, A->bytes); spill_file(d + B->name, B->bytes); unlink((d + "missing").c_str());
            std::function<void()> rec = [&]()
            {
                int mode = 0; bool opts = true; std::vector<const In*> files; bool bad = false; std::string out; int outs = 0;
                for(size_t i = 0; i < a.size() && !mode; i++)
                {
                    std::string s = a[i];
                    if(opts && s == "--") opts = false;
                    else if(opts && s[0] == '-') { if(s == "-h" || s == "--help") mode = 1; else if(s == "-v" || s == "--version") mode = 2; else if(s == "-o" || s == "--output-file") { if(i + 1 < a.size()) { out = a[++i]; outs++; } else mode = 3; } else if(s == "-oq" || s == "--output-file=q") { out = "q"; outs++; } else mode = 3; }
                    else { if(s == "formA") files.push_back(A); else bad = true; }
                }
                bool odd = out != "" && out != "q"; // an output named like an option or an input: only the refusals are judged
                if(outs < 2 && !odd)
                {
                    unlink((d + "q").c_str()); Proc p; p.cwd = workdir(); p.argv = {::E->args[1]}; for(auto *w : a) p.argv.push_back(w); if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(hash_str(p.line()), p.status));
                    std::string what = fmt("`%s'", p.line().c_str());
                    if(p.signaled) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
                    bool good = mode == 0 && !bad && !files.empty();
                    if(mode == 1 && (p.status || p.so.find("Usage") == std::string::npos || p.so.find("--output-file") == std::string::npos)) c.fail("%s has to show the usage: %s", what.c_str(), p.outcome().c_str());
                    if(mode == 2 && (p.status || p.so.find("0.1") == std::string::npos || p.so.find("iffjoin") == std::string::npos)) c.fail("%s has to show the version: %s", what.c_str(), p.outcome().c_str());
                    if((mode == 3 || (mode == 0 && !good)) && (p.status == 0 || p.se.empty())) c.fail("%s has to be refused: %s", what.c_str(), p.outcome().c_str());
                    if(mode == 0 && !good && !p.so.empty()) c.fail("%s has to be refused, but writes %s", what.c_str(), hex(p.so).c_str());
                    if(!good && exists(d + "q")) c.fail("%s creates the output: %s", what.c_str(), p.outcome().c_str());
                    if(good && p.status) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
                    if(good && (out == "" ? p.so : slurp(d + "q")) != ser(joined(files))) c.fail("%s gives something else", what.c_str());
                }
                if((int)a.size() < L && c.job) for(const char *w : V) { a.push_back(w); rec(); a.pop_back(); }
            };
            rec(); c.execs(n); c.validated(n);
        });
    }
    // 7b. inputs that do not fit into one CAT together (sparse files), at every position among small ones
    E.scene("too_large", T ? 8 : 3, [T](Ctx &c)
    {
        std::string d = workdir() + "/"; u64 n = 0;
        auto sparse = [&](const std::string &name, u64 body) { std::string h; put32(h, FORM); put32(h, 12 + padded(body)); put32(h, TA); put32(h, DA); put32(h, body); spill_file(d + name, h); if(truncate((d + name).c_str(), 20 + padded(body))) abort(); return 20 + padded(body); };
        // all fit on their own; `cat' is the size of the CAT with both and a small FORM
        static const struct { u64 a, b; } s[] = {{0x7fffffe0, 0}, {0x50000000, 0x50000000}, {0x40000000, 0x3fffffff}, {0x3fffffc0, 0x3fffffe0}, {0x7fffffd0, 0}, {0x7fffffd0, 10}, {0x70000000, 0x60000000}, {0x3ffffff0, 0x3ffffff0}};
        spill_file(d + "small", small[1].bytes); std::vector<std::string> names = {"small"}; u64 cat = 4 + small[1].bytes.size();
        cat += sparse("a", s[c.job].a); names.push_back("a"); if(s[c.job].b) { cat += sparse("b", s[c.job].b); names.push_back("b"); }
        bool fits = cat <= 0x7fffffff; if(fits && !T) abort();
        for(int first = 0; first < 2; first++) for(int to = 0; to < 2; to++)
        {
            if(first) { if(!T) break; std::reverse(names.begin(), names.end()); }
            Proc p; p.cwd = workdir(); p.argv = {::E->args[1], "-o", "out"}; p.argv.insert(p.argv.end(), names.begin(), names.end()); unlink((d + "out").c_str()); if(to) spill_file(d + "out", "old");
            if(fits) { unlink((d + "out").c_str()); p.argv[2] = "/dev/null"; }
            if(!p.run()) abort(); n++; (*n_runs)++; c.trans(); c.state(comb(c.job, comb(to, p.status)));
            std::string what = fmt("`%s' with inputs of 0x%lx and 0x%lx bytes of data", p.line().c_str(), s[c.job].a, s[c.job].b);
            if(p.signaled) c.fail("%s: %s", what.c_str(), p.outcome().c_str());
            if(fits) { if(p.status) c.fail("%s: %s", what.c_str(), p.outcome().c_str()); continue; }
            if(p.status == 0 || p.se.empty()) c.fail("%s: the CAT would have 0x%lx bytes, but: %s", what.c_str(), cat, p.outcome().c_str());
            if(to ? slurp(d + "out") != "old" : exists(d + "out")) c.fail("%s: refused, but the output was %s", what.c_str(), to ? "altered" : "created");
        }
        for(const char *x : {"a", "b", "out", "small"}) unlink((d + x).c_str());
        c.execs(n); c.validated(n);
    });
    // 8. the contents type rule through the library
    {
        static std::vector<Node> kinds = { mkgroup(FORM, TA), mkgroup(FORM, TB), mkgroup(CATT, TA, {mkgroup(FORM, TA)}), mkgroup(LIST, TB, {mkgroup(FORM, TB)}), mkgroup(CATT, JJJJ, {mkgroup(FORM, TA), mkgroup(FORM, TB)}), mkgroup(LIST, JJJJ), mkgroup(FORM, TC) };
        for(auto &k : kinds) fixsizes(k); static const int L = T ? 7 : 5; u64 k = kinds.size();
        E.scene("rule", 2 * 3 * k, [k](Ctx &c)
        {
            bool list = c.job & 1; u32 init = std::vector<u32>{JJJJ, TA, TB}[c.job / 2 % 3]; std::vector<int> s = {(int)(c.job / 6)}; u64 n = 0;
            std::function<void()> rec = [&]() { if((int)s.size() == L) { library(c, list, s, kinds, init); n++; return; } for(size_t i = 0; i < k; i++) { s.push_back(i); rec(); s.pop_back(); } };
            rec(); c.execs(n); c.validated(n);
        });
    }
}
