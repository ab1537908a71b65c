#include "mc.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

Engine *E;

static const int MAXW = 64, MAXPATH = 20000, MSG = 16384, MAXJOBLOG = 1 << 16, MAXSAMPLES = 40, SAMPLELEN = 700, MAXCOUNTERS = 64, MAXFIND = 16;
static const u64 TABLE = 1ull << 27;

struct Slot {
    std::atomic<u64> beat; // executions done
    std::atomic<u64> job;
    std::atomic<int> active;
    int npath;
    u32 path[MAXPATH];
    u32 njobs; // jobs taken by this worker in this scene, in order
    u64 jobs[MAXJOBLOG];
};

struct Violation {
    std::atomic<int> lock; // 0 free, 1 being written, 2 complete
    u64 job;
    int npath, worker;
    u32 path[MAXPATH];
    char msg[MSG];
    char notes[MSG];
};

struct Shared {
    std::atomic<u64> next;
    std::atomic<int> stop;
    std::atomic<u64> execs, trans, validated, states, table_used, pruned, choicepoints, maxdepth;
    std::atomic<int> nsamples;
    char samples[MAXSAMPLES][SAMPLELEN];
    std::atomic<int> scene_samples;
    Violation v;
    struct { char name[64]; std::atomic<u64> val; } counters[MAXCOUNTERS];
    std::atomic<int> ncounters;
    struct { char id[64]; char what[512]; } finds[MAXFIND];
    std::atomic<int> nfinds;
    std::atomic<int> findlock;
    Slot slots[MAXW];
};

static Shared *S;
static std::atomic<u64> *table;
static Slot *my;
static std::string property, outfile, replay_dir, tier = "quick", stderr_file;
static std::vector<std::string> assumptions;
static std::map<std::string, std::string> known;
struct SceneStat { std::string name; u64 jobs, execs, trans, states; double wall; };
static std::vector<SceneStat> stats;
static std::map<std::string, u64> facts;
static double t0;
// replay request
static std::string r_scene; static std::vector<u64> r_jobs; static std::vector<u32> r_path; static bool r_full_last;

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

std::string fmt(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if(n < (int)sizeof b) return b;
    std::string s(n + 1, 0); va_start(ap, f); vsnprintf(&s[0], n + 1, f, ap); va_end(ap); s.resize(n); return s;
}

// overfull: new entries are not recorded any more; then `otherwise` is returned and "states_capped" is reported (it affects
// counting and the amount of pruning only, never what is explored)
static bool table_insert(u64 h, bool otherwise)
{
    if(h == 0) h = 1;
    if((S->table_used.load(std::memory_order_relaxed) & ~(1ull << 62)) > TABLE / 10 * 9) { S->table_used |= 1ull << 62; return otherwise; }
    u64 i = h & (TABLE - 1);
    for(u64 probes = 0; probes < 4096; probes++, i = (i + 1) & (TABLE - 1))
    {
        u64 cur = table[i].load(std::memory_order_relaxed);
        if(cur == h) return false;
        if(cur == 0)
        {
            if(table[i].compare_exchange_strong(cur, h)) { S->table_used++; return true; }
            if(cur == h) return false;
        }
    }
    S->table_used |= 1ull << 62;
    return otherwise;
}

u32 Ctx::choose(u32 n)
{
    if(n == 0) throw Fail{"internal: choose(0)"};
    if(pos < path.size())
    {
        if(lim[pos] == 0) lim[pos] = n; // replay from file: limits unknown
        else if(lim[pos] != n) throw Fail{fmt("the same inputs led to a different course of events (choice point %zu offered %u alternatives, earlier %u): behaviour depends on something other than its inputs", pos, n, lim[pos])};
        if(path[pos] >= n) throw Fail{fmt("replayed choice %zu out of range", pos)};
        return path[pos++];
    }
    if(path.size() >= (size_t)MAXPATH) throw Fail{"internal: path too long"};
    path.push_back(0); lim.push_back(n);
    if(my) { my->path[path.size() - 1] = 0; my->npath = path.size(); }
    pos++;
    return 0;
}

void Ctx::fail(const char *f, ...)
{
    va_list ap; va_start(ap, f); char b[MSG]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Fail{b};
}
void Ctx::require(bool ok, const char *f, ...)
{
    if(ok) return;
    va_list ap; va_start(ap, f); char b[MSG]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Fail{b};
}
static u64 scene_salt;
static bool no_prune; // set while replaying
static u64 l_trans, l_valid, l_execs; // flushed per execution
static void alive() { if(my) my->beat.store(my->beat.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed); }
void Ctx::state(u64 h) { alive(); if(S && table_insert(comb(h, scene_salt), false)) S->states++; }
void Ctx::trans(u64 n) { alive(); l_trans += n; }
void Ctx::validated(u64 n) { l_valid += n; }
void Ctx::execs(u64 n) { l_execs += n; }
bool Ctx::noting() const { return want_notes; }
void Ctx::note(const std::string &s) { if(want_notes) { notes += s; notes += '\n'; } }
bool Ctx::visited(u64 h)
{
    if(no_prune) return false;
    if(pos <= fresh && fresh > 0) return false; // still replaying the prefix of an earlier execution
    bool fresh_state = table_insert(comb(h, scene_salt ^ 0x5bd1e995), true);
    if(!fresh_state) S->pruned++;
    return !fresh_state;
}
void Ctx::finding(const char *id, const std::string &what)
{
    if(!known.count(id)) fail("%s", what.c_str());
    while(S->findlock.exchange(1)) usleep(10);
    bool have = false;
    for(int i = 0; i < S->nfinds; i++) if(!strcmp(S->finds[i].id, id)) have = true;
    if(!have && S->nfinds < MAXFIND) { snprintf(S->finds[S->nfinds].id, 64, "%s", id); snprintf(S->finds[S->nfinds].what, 512, "%s", what.c_str()); S->nfinds++; }
    S->findlock = 0;
}

void Engine::assume(const std::string &s) { assumptions.push_back(s); }
void Engine::fact(const std::string &n, u64 v) { facts[n] = v; }
std::atomic<u64> *Engine::counter(const char *name)
{
    for(int i = 0; i < S->ncounters; i++) if(!strcmp(S->counters[i].name, name)) return &S->counters[i].val;
    int i = S->ncounters++;
    snprintf(S->counters[i].name, 64, "%s", name); S->counters[i].val = 0;
    return &S->counters[i].val;
}

static bool advance(Ctx &c)
{
    // drop choices beyond what the last execution used, then increment the last one that can be incremented
    c.path.resize(c.pos); c.lim.resize(c.pos);
    while(!c.path.empty())
    {
        if(c.path.back() + 1 < c.lim.back()) { c.path.back()++; c.fresh = c.path.size() - 1; return true; }
        c.path.pop_back(); c.lim.pop_back();
    }
    return false;
}

void Engine::enumerate(const std::function<void(Ctx&)> &fn)
{
    Slot *save = my; my = nullptr;
    Ctx c; c.scene = "generator";
    do { c.pos = 0; fn(c); } while(advance(c));
    my = save;
}

static void run_one(Ctx &c, const std::function<void(Ctx&)> &fn, bool sample)
{
    c.pos = 0; c.notes.clear(); c.want_notes = sample;
    l_trans = l_valid = l_execs = 0;
    bool v0 = false; (void)v0;
    fn(c);
    S->execs += l_execs ? l_execs : 1;
    S->validated += l_valid ? l_valid : (l_execs ? l_execs : 1);
    S->trans += l_trans;
    S->choicepoints += c.pos;
    u64 d = c.pos, m = S->maxdepth; while(d > m && !S->maxdepth.compare_exchange_weak(m, d)) {}
}

static void record_violation(Ctx &c, const std::string &msg, int worker)
{
    int z = 0;
    if(!S->v.lock.compare_exchange_strong(z, 1)) return;
    S->v.job = c.job; S->v.npath = std::min((size_t)MAXPATH, std::min(c.pos, c.path.size())); S->v.worker = worker;
    for(int i = 0; i < S->v.npath; i++) S->v.path[i] = c.path[i];
    snprintf(S->v.msg, MSG, "%s", msg.c_str());
    snprintf(S->v.notes, MSG, "%s", c.notes.c_str());
    S->v.lock = 2;
    S->stop = 1;
}

static void worker_loop(int w, const char *name, u64 jobs, const std::function<void(Ctx&)> &fn)
{
    my = &S->slots[w];
    Ctx c; c.scene = name;
    u64 n = 0;
    while(!S->stop)
    {
        u64 j = S->next++;
        if(j >= jobs) break;
        // spread neighbouring jobs: large jobs are usually neighbours
        c.job = j; c.path.clear(); c.lim.clear(); c.fresh = 0;
        my->job = j; my->npath = 0;
        if(my->njobs < MAXJOBLOG) my->jobs[my->njobs++] = j;
        my->active = 1;
        bool more = true;
        while(more && !S->stop)
        {
            bool sample = (n == 0 || n == 200 || n == 20000) && S->scene_samples < 4 && S->nsamples < MAXSAMPLES;
            try { run_one(c, fn, sample); }
            catch(Fail &f) { record_violation(c, f.msg, w); _exit(3); }
            if(sample && !c.notes.empty())
            {
                int k = S->nsamples++; S->scene_samples++;
                if(k < MAXSAMPLES) snprintf(S->samples[k], SAMPLELEN, "%s: %s", name, c.notes.c_str()); else S->nsamples = MAXSAMPLES;
            }
            n++;
            my->beat++;
            more = advance(c);
            my->npath = c.path.size();
            for(size_t i = 0; i < c.path.size(); i++) my->path[i] = c.path[i];
        }
        my->active = 0;
    }
    _exit(0);
}

// ---- no progress -----------------------------------------------------------------------------------------------------
// An execution that takes so much processor time, or that has not ended after so much time on the clock (it may be blocked
// without using the processor), does not terminate.  On an overloaded machine the clock alone would prove nothing.
static const double CPU1 = 40, WALL1 = 150, CPU2 = 80, WALL2 = 240;
static double cpu_of(pid_t p)
{
    FILE *f = fopen(fmt("/proc/%d/stat", (int)p).c_str(), "r"); if(!f) return 0;
    char b[2048]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
    char *q = strrchr(b, ')'); unsigned long u = 0, k = 0;
    if(!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k) != 2) return 0;
    return (double)(u + k) / sysconf(_SC_CLK_TCK);
}

// ---- replay of one execution in a fresh child --------------------------------------------------------------------

struct ReplayResult { bool failed = false; std::string msg, notes; };

static ReplayResult replay_child(const char *name, const std::vector<u64> &jobs, const std::vector<u32> &path, bool full_last, const std::function<void(Ctx&)> &fn, double scale = 1)
{
    ReplayResult r;
    S->v.lock = 0; S->stop = 0;
    std::string errf = E->tmpdir + "/replay.stderr";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid == 0)
    {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        my = &S->slots[0];
        no_prune = true;
        Ctx c; c.scene = name;
        try
        {
            for(size_t i = 0; i < jobs.size(); i++)
            {
                bool last = i + 1 == jobs.size();
                c.job = jobs[i]; c.path.clear(); c.lim.clear(); c.fresh = 0;
                if(last && !full_last) { c.path = path; c.lim.assign(path.size(), 0); c.fresh = 0; run_one(c, fn, true); }
                else do { run_one(c, fn, last); } while(advance(c));
            }
        }
        catch(Fail &f) { record_violation(c, f.msg, 0); _exit(3); }
        _exit(0);
    }
    double start = now(); int st; bool hung = false;
    for(;;)
    {
        pid_t p = waitpid(pid, &st, WNOHANG);
        if(p == pid) break;
        if(now() - start > WALL2 * scale || cpu_of(pid) > CPU2 * scale) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(2000);
    }
    std::string err;
    if(FILE *f = fopen(errf.c_str(), "r")) { char b[6000]; size_t n = fread(b, 1, sizeof b, f); err.assign(b, n); fclose(f); }
    if(hung && full_last) r.failed = false; // many executions: slowness proves nothing
    else if(hung) { r.failed = true; r.msg = fmt("does not terminate (no end after %.0f s of processor time or %.0f s on the clock when run alone)", CPU2, WALL2); }
    else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) r.failed = false;
    else if(WIFEXITED(st) && WEXITSTATUS(st) == 3 && S->v.lock == 2) { r.failed = true; r.msg = S->v.msg; r.notes = S->v.notes; }
    else if(WIFSIGNALED(st)) { r.failed = true; r.msg = fmt("crashed with signal %d (%s)\n%s", WTERMSIG(st), strsignal(WTERMSIG(st)), err.c_str()); }
    else { r.failed = true; r.msg = fmt("process ended abnormally (exit status %d)\n%s", WEXITSTATUS(st), err.c_str()); }
    return r;
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for(unsigned char ch : s)
    {
        if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

static void write_out(int violations, const std::string &replay_path, const std::string &msg)
{
    FILE *f = fopen(outfile.c_str(), "w");
    if(!f) { perror(outfile.c_str()); _exit(2); }
    fprintf(f, "{\n \"property\": %s, \"tier\": %s, \"violations\": %d, \"wall_s\": %.2f,\n", jstr(property).c_str(), jstr(tier).c_str(), violations, now() - t0);
    fprintf(f, " \"replay\": %s, \"message\": %s,\n", jstr(replay_path).c_str(), jstr(msg).c_str());
    fprintf(f, " \"executions\": %lu, \"transitions\": %lu, \"validated\": %lu, \"states\": %lu, \"choice_points\": %lu, \"max_choices_per_execution\": %lu, \"pruned_revisits\": %lu, \"states_capped\": %s,\n",
        S->execs.load(), S->trans.load(), S->validated.load(), S->states.load(), S->choicepoints.load(), S->maxdepth.load(), S->pruned.load(), (S->table_used >> 62) ? "true" : "false");
    fprintf(f, " \"scenes\": [");
    for(size_t i = 0; i < stats.size(); i++) fprintf(f, "%s\n  {\"scene\": %s, \"jobs\": %lu, \"executions\": %lu, \"transitions\": %lu, \"states\": %lu, \"wall_s\": %.2f}", i ? "," : "", jstr(stats[i].name).c_str(), stats[i].jobs, stats[i].execs, stats[i].trans, stats[i].states, stats[i].wall);
    fprintf(f, "],\n \"facts\": {");
    bool first = true;
    for(auto &kv : facts) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jstr(kv.first).c_str(), kv.second); first = false; }
    for(int i = 0; i < S->ncounters; i++) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jstr(S->counters[i].name).c_str(), S->counters[i].val.load()); first = false; }
    fprintf(f, "},\n \"findings\": [");
    for(int i = 0; i < S->nfinds; i++) fprintf(f, "%s[%s, %s]", i ? ", " : "", jstr(S->finds[i].id).c_str(), jstr(S->finds[i].what).c_str());
    fprintf(f, "],\n \"assumptions\": [");
    for(size_t i = 0; i < assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(assumptions[i]).c_str());
    fprintf(f, "],\n \"samples\": [");
    int ns = std::min((int)S->nsamples, MAXSAMPLES);
    for(int i = 0; i < ns; i++) fprintf(f, "%s\n  %s", i ? "," : "", jstr(S->samples[i]).c_str());
    fprintf(f, "]\n}\n");
    fclose(f);
}

static void report(const char *name, const std::vector<u64> &jobs, const std::vector<u32> &path, bool full_last, const std::string &msg, const std::string &notes)
{
    std::string p = replay_dir + "/" + property + ".replay";
    FILE *f = fopen(p.c_str(), "w");
    if(f)
    {
        fprintf(f, "# property %s, violated in scene %s\n# replay with: python3 /verif/check.py %s --replay %s\n", property.c_str(), name, property.c_str(), p.c_str());
        std::string m = msg; for(size_t i = 0; (i = m.find('\n', i)) != std::string::npos; i += 3) m.replace(i, 1, "\n# ");
        fprintf(f, "# %s\n", m.c_str());
        m = notes; for(size_t i = 0; (i = m.find('\n', i)) != std::string::npos; i += 3) m.replace(i, 1, "\n# ");
        fprintf(f, "# history: %s\n", m.c_str());
        fprintf(f, "scene %s\n", name);
        fprintf(f, "tier %s\n", tier.c_str());
        fprintf(f, "jobs"); for(u64 j : jobs) fprintf(f, " %lu", j);
        fprintf(f, "\n%s", full_last ? "all" : "choices"); if(!full_last) for(u32 x : path) fprintf(f, " %u", x);
        fprintf(f, "\n");
        fclose(f);
    }
    write_out(1, p, msg);
    printf("%s: %s\n%s\n", name, msg.c_str(), notes.c_str());
    printf("VIOLATION property=%s replay=%s\n", property.c_str(), p.c_str());
    fflush(stdout);
    _exit(1);
}


static bool patient;
void Engine::scene(const char *name, u64 jobs, const std::function<void(Ctx&)> &fn)
{
    scene_salt = hash_str(name);
    if(replay)
    {
        if(r_scene != name) return;
        ReplayResult r = replay_child(name, r_jobs, r_path, r_full_last, fn);
        printf("replay of %s/%s: %s\n%s\n", property.c_str(), name, r.failed ? r.msg.c_str() : "property holds on this execution", r.notes.c_str());
        if(r.failed) printf("VIOLATION property=%s replay=-\n", property.c_str());
        fflush(stdout);
        _exit(r.failed ? 1 : 0);
    }
    if(const char *only = getenv("MC_SCENE")) if(strcmp(only, name)) return;
    double st0 = now();
    u64 e0 = S->execs, tr0 = S->trans, s0 = S->states;
    S->next = 0; S->stop = 0; S->v.lock = 0; S->scene_samples = 0;
    int W = (int)std::min<u64>(workers, jobs ? jobs : 1);
    fflush(stdout); fflush(stderr);
    std::vector<pid_t> pids(W);
    std::vector<u64> lastbeat(W, 0); std::vector<double> lastt(W, now()), lastcpu(W, -1), looked(W, now()); double longest = 0;
    std::string errf = tmpdir + "/worker";
    for(int w = 0; w < W; w++)
    {
        S->slots[w].beat = 0; S->slots[w].active = 0; S->slots[w].njobs = 0; S->slots[w].npath = 0;
        pid_t p = fork();
        if(p < 0) { perror("fork"); _exit(2); }
        if(p == 0)
        {
            int fd = open(fmt("%s%d.stderr", errf.c_str(), w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if(fd >= 0) dup2(fd, 2);
            worker_loop(w, name, jobs, fn);
        }
        pids[w] = p;
    }
    int left = W; int bad = -1; bool hang = false; int badst = 0;
    while(left > 0)
    {
        bool any = false;
        for(int w = 0; w < W; w++)
        {
            if(pids[w] <= 0) continue;
            int st; pid_t p = waitpid(pids[w], &st, WNOHANG);
            if(p == pids[w])
            {
                pids[w] = 0; left--; any = true;
                if(!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) && bad < 0) { bad = w; badst = st; S->stop = 1; }
                continue;
            }
            u64 b = S->slots[w].beat;
            if(b != lastbeat[w]) { longest = std::max(longest, now() - lastt[w]); lastbeat[w] = b; lastt[w] = looked[w] = now(); lastcpu[w] = -1; }
            else if(patient || bad >= 0 || !S->slots[w].active) ;
            else if(now() - looked[w] > 3)
            {
                // the processor time since the last sign of life, from the first look on
                looked[w] = now(); double t = cpu_of(pids[w]);
                if(lastcpu[w] < 0) lastcpu[w] = t;
                else if(t - lastcpu[w] > CPU1 || now() - lastt[w] > WALL1) { bad = w; hang = true; S->stop = 1; }
            }
        }
        if(S->stop && left > 0)
        {
            double until = now() + 1.5; // let the others finish their current execution
            while(now() < until && left > 0)
            {
                for(int w = 0; w < W; w++) { int st; if(pids[w] > 0 && waitpid(pids[w], &st, WNOHANG) == pids[w]) { pids[w] = 0; left--; if(!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) && bad < 0) { bad = w; badst = st; } } }
                usleep(5000);
            }
            for(int w = 0; w < W; w++) if(pids[w] > 0) { kill(pids[w], SIGKILL); waitpid(pids[w], nullptr, 0); pids[w] = 0; left--; }
        }
        if(!any) usleep(2000);
    }
    stats.push_back({name, jobs, S->execs - e0, S->trans - tr0, S->states - s0, now() - st0});
    if(getenv("MC_VERBOSE")) fprintf(stderr, "scene %-28s jobs=%lu execs=%lu states=%lu %.2fs longest=%.2fs\n", name, jobs, (u64)S->execs - e0, (u64)S->states - s0, now() - st0, longest);
    if(S->v.lock == 2 || bad >= 0)
    {
        std::vector<u64> job1, hist; std::vector<u32> path; std::string msg, notes;
        if(S->v.lock == 2)
        {
            int w = S->v.worker; job1 = {S->v.job}; path.assign(S->v.path, S->v.path + S->v.npath); msg = S->v.msg; notes = S->v.notes;
            hist.assign(S->slots[w].jobs, S->slots[w].jobs + S->slots[w].njobs);
        }
        else
        {
            Slot &sl = S->slots[bad];
            job1 = {sl.job}; path.assign(sl.path, sl.path + sl.npath);
            hist.assign(sl.jobs, sl.jobs + sl.njobs);
            std::string err;
            if(FILE *f = fopen(fmt("%s%d.stderr", errf.c_str(), bad).c_str(), "r")) { char b[6000]; size_t n = fread(b, 1, sizeof b, f); err.assign(b, n); fclose(f); }
            msg = hang ? std::string("does not terminate") : WIFSIGNALED(badst) ? fmt("crashed with signal %d\n%s", WTERMSIG(badst), err.c_str()) : fmt("ended abnormally with status %d\n%s", WEXITSTATUS(badst), err.c_str());
        }
        // replay before reporting: the execution alone, then its whole job, then everything its worker had done
        ReplayResult r = replay_child(name, job1, path, false, fn);
        if(r.failed) report(name, job1, path, false, r.msg, r.notes);
        r = replay_child(name, job1, path, true, fn);
        if(r.failed) report(name, job1, path, true, r.msg + "\n(depends on what the same process did before: all choices of the job replayed in order)", r.notes);
        if(hang)
        {
            // it was slow, but it ended when it ran alone: start over and wait
            fprintf(stderr, "a slow execution in scene %s ended when run alone; the scene is repeated without a time limit\n", name);
            patient = true; stats.pop_back(); scene(name, jobs, fn); return;
        }
        r = replay_child(name, hist, path, true, fn, 3);
        if(r.failed) report(name, hist, path, true, r.msg + "\n(depends on what the same process did before: all jobs of the worker replayed in order)", r.notes);
        if(bad >= 0 && WIFSIGNALED(badst) && WTERMSIG(badst) == SIGKILL) { fprintf(stderr, "worker killed from outside (out of memory?)\n"); _exit(2); }
        report(name, job1, path, false, msg + "\n(not reproduced in a fresh process: the outcome depends on hidden state)", notes);
    }
}

} // namespace mc

using namespace mc;

int main(int argc, char **argv)
{
    Engine e; E = &e;
    t0 = now();
    std::string rfile;
    for(int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if(i + 1 >= argc) { fprintf(stderr, "missing value of %s\n", a.c_str()); exit(2); } return argv[++i]; };
        if(a == "--property") property = val();
        else if(a == "--tier") tier = val();
        else if(a == "--out") outfile = val();
        else if(a == "--replays") replay_dir = val();
        else if(a == "--tmp") e.tmpdir = val();
        else if(a == "--known") { std::string k = val(); size_t p = k.find(' '); known[k.substr(0, p)] = p == std::string::npos ? "" : k.substr(p + 1); }
        else if(a == "--replay") rfile = val();
        else if(a == "--workers") e.workers = atoi(val().c_str());
        else if(a == "--arg") e.args.push_back(val());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    table = (std::atomic<u64>*)mmap(nullptr, TABLE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(S == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
    if(!rfile.empty())
    {
        e.replay = true;
        FILE *f = fopen(rfile.c_str(), "r"); if(!f) { perror(rfile.c_str()); return 2; }
        char *line = nullptr; size_t cap = 0;
        while(getline(&line, &cap, f) > 0)
        {
            if(line[0] == '#') continue;
            char *tok = strtok(line, " \n"); if(!tok) continue;
            std::string k = tok;
            if(k == "scene") { char *t = strtok(nullptr, "\n"); r_scene = t ? t : ""; }
            else if(k == "tier") { char *t = strtok(nullptr, " \n"); tier = t ? t : "quick"; }
            else if(k == "jobs") { while((tok = strtok(nullptr, " \n"))) r_jobs.push_back(strtoull(tok, 0, 10)); }
            else if(k == "choices") { while((tok = strtok(nullptr, " \n"))) r_path.push_back(strtoul(tok, 0, 10)); }
            else if(k == "all") r_full_last = true;
        }
        free(line); fclose(f);
    }
    e.thorough = tier == "thorough";
    mc_main(e);
    if(e.replay) { fprintf(stderr, "no such scene: %s\n", r_scene.c_str()); return 2; }
    write_out(0, "", "");
    return 0;
}
