// Stateless model checker for sequential C code (and, with sched.hpp, for cooperative threads).
//
// A *scene* is a function of (job, sequence of choices).  The engine enumerates every job and, for each job, every
// sequence of choices (depth first, odometer order), in W forked workers.  Nothing is sampled and nothing is capped
// silently.  Every execution is deterministic given (scene, job, choices), so a violation is identified by that
// triple, is replayed in a fresh process before it is reported, and is written to a replay file.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

typedef uint64_t u64;
typedef uint32_t u32;

static inline u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static inline u64 hash_bytes(const void *p, size_t n, u64 h = 0x9e3779b97f4a7c15ULL)
{
    const unsigned char *b = (const unsigned char*)p;
    while(n >= 8) { u64 w; memcpy(&w, b, 8); h = mix(h ^ w) + 0x9e3779b97f4a7c15ULL; b += 8; n -= 8; }
    u64 w = 0; if(n) memcpy(&w, b, n);
    return mix(h ^ w ^ ((u64)n << 56));
}
static inline u64 hash_str(const std::string &s, u64 h = 0x9e3779b97f4a7c15ULL) { return hash_bytes(s.data(), s.size(), h); }
static inline u64 comb(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ULL ^ b); }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Fail { std::string msg; };

class Ctx {
public:
    u64 job = 0;
    const char *scene = "";
    // one of n alternatives; 0 is explored first
    u32 choose(u32 n);
    bool flag() { return choose(2) != 0; }
    // report a violation of the property and end this execution
    [[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void require(bool ok, const char *f, ...) __attribute__((format(printf, 3, 4)));
    // count a distinct observed state / outcome
    void state(u64 h);
    // count n executed steps of the implementation (API calls)
    void trans(u64 n = 1);
    // count n executions whose result was compared with the reference model (default: one per execution)
    void validated(u64 n = 1);
    // for flat enumerations inside one job
    void execs(u64 n);
    // describe the execution (kept for samples and replay files)
    void note(const std::string &s);
    bool noting() const;
    // prune: true if the state was already explored with this remaining depth (see DESIGN.md, Engine)
    bool visited(u64 h);
    // a defect that is recorded in known_findings.txt is reported with this and exploration goes on
    void finding(const char *id, const std::string &what);
    // engine internals
    std::vector<u32> path, lim;
    size_t pos = 0, fresh = 0;
    std::string notes;
    bool want_notes = false;
};

class Engine {
public:
    bool thorough = false;
    bool replay = false;
    std::string tmpdir; // scratch folder of this run
    int workers = 8;
    std::vector<std::string> args;
    // explore all jobs of a scene; returns only if no violation was found
    void scene(const char *name, u64 jobs, const std::function<void(Ctx&)> &fn);
    // enumerate all leaves of a generator sequentially in this process (used to prepare job lists)
    static void enumerate(const std::function<void(Ctx&)> &fn);
    void assume(const std::string &s);
    // additional integer facts for the evidence file
    void fact(const std::string &name, u64 value);
    std::atomic<u64> *counter(const char *name); // shared counter that ends up in the evidence file
};

extern Engine *E;
} // namespace mc

// implemented by each check
void mc_main(mc::Engine &E);
