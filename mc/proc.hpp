// Runs a command-line tool with everything it can observe under the control of the explorer.
#pragma once
#include "api.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static inline std::string slurp_fd(int fd) { std::string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static inline bool exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
static inline std::string slurp(const std::string &p) { int fd = open(p.c_str(), O_RDONLY); if(fd < 0) return "<absent>"; std::string s = slurp_fd(fd); close(fd); return s; }
static inline void spill(const std::string &p, const std::string &d) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while(o < d.size()) { ssize_t n = write(fd, d.data() + o, d.size() - o); if(n <= 0) break; o += n; } close(fd); }
static inline void spill_file(const std::string &p, const std::string &d) { spill(p, d); }

enum InMode { IN_NULL, IN_PIPE, IN_FILE, IN_PACKETS, IN_CLOSED, IN_DIR };
enum OutMode { OUT_FILE, OUT_PIPE, OUT_FULL, OUT_BROKEN, OUT_CLOSED };

struct Proc {
    // what it gets
    std::vector<std::string> argv; std::string cwd; std::vector<std::string> vars = {"LC_ALL=C"}; // arguments, folder, environment
    InMode in = IN_NULL; std::string input; size_t packet = 1, first = 0; // IN_PACKETS: sizes of what one read delivers (the first one separately)
    OutMode out = OUT_FILE; size_t limit = SIZE_MAX; // largest file that can be written (stdout file and named files)
    int (*fn)(int, char**) = nullptr; size_t hiccup = SIZE_MAX; int obuf = 0; // run fn instead of argv[0]; its standard output refuses bytes once, after so many; 0 full, 1 line, 2 no buffering
    unsigned memory = 0; bool memory_all = false; // with fn: this allocation (and all later ones) of the program is refused
    int extra_fd = -1; std::string extra;   // a pipe with this content is open as descriptor extra_fd
    // what it does
    int status = -1; bool signaled = false, refused = false; std::string so, se; // refused: so many allocations were made that one was refused

    // false: the harness could not set the situation up
    bool run()
    {
        int fi = -1, fo = -1, pe[2], pi[2] = {-1, -1}, po[2] = {-1, -1}, px[2] = {-1, -1};
        // what does not fit into the buffers of the kernel is fed by a process of its own
        std::vector<pid_t> feeders;
        auto rest = [&](const std::function<void()> &f) { pid_t p = fork(); if(p < 0) return false; if(p == 0) { signal(SIGPIPE, SIG_IGN); alarm(60); f(); _exit(0); } feeders.push_back(p); return true; };
        auto feed = [&](int fd, int other, const std::string &s)
        {
            fcntl(fd, F_SETPIPE_SZ, 1 << 20); fcntl(fd, F_SETFL, O_NONBLOCK); size_t o = 0;
            while(o < s.size())
            {
                ssize_t n = write(fd, s.data() + o, s.size() - o);
                if(n < 0 && errno == EAGAIN) { if(!rest([&] { close(other); fcntl(fd, F_SETFL, 0); while(o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if(k <= 0) break; o += k; } })) return false; break; }
                if(n <= 0) return false; o += n;
            }
            close(fd); return true;
        };
        if(in == IN_NULL || in == IN_CLOSED) fi = open("/dev/null", O_RDONLY);
        else if(in == IN_DIR) fi = open(cwd.c_str(), O_RDONLY | O_DIRECTORY);
        else if(in == IN_FILE) { fi = memfd_create("in", 0); if(write(fi, input.data(), input.size()) != (ssize_t)input.size()) return false; lseek(fi, 0, SEEK_SET); }
        else if(in == IN_PIPE) { if(pipe(pi)) return false; fi = pi[0]; if(!feed(pi[1], pi[0], input)) return false; }
        else
        {
            if(socketpair(AF_UNIX, SOCK_SEQPACKET, 0, pi)) return false;
            int big = 1 << 22; setsockopt(pi[1], SOL_SOCKET, SO_SNDBUFFORCE, &big, sizeof big); fi = pi[0]; size_t o = 0; bool f = first > 0;
            auto packets = [&](int flags) { while(o < input.size()) { size_t k = f ? first : packet; if(k > input.size() - o) k = input.size() - o; if(send(pi[1], input.data() + o, k, flags) != (ssize_t)k) return false; f = false; o += k; } return true; };
            if(!packets(MSG_DONTWAIT) && ((errno != EAGAIN && errno != ENOBUFS) || !rest([&] { close(pi[0]); packets(0); shutdown(pi[1], SHUT_WR); }))) return false;
            if(feeders.empty()) shutdown(pi[1], SHUT_WR); close(pi[1]);
        }
        if(out == OUT_FILE) fo = memfd_create("out", 0);
        else if(out == OUT_FULL || out == OUT_CLOSED) fo = open("/dev/full", O_WRONLY);
        else { if(pipe(po)) return false; fo = po[1]; fcntl(fo, F_SETPIPE_SZ, 1 << 20); if(out == OUT_BROKEN) close(po[0]); }
        if(pipe(pe)) return false; fcntl(pe[1], F_SETPIPE_SZ, 1 << 20);
        if(extra_fd >= 0) { if(pipe(px)) return false; if(!feed(px[1], px[0], extra)) return false; }
        static volatile unsigned long *shared = (volatile unsigned long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); static pid_t owner = getpid();
        if(owner != getpid()) { owner = getpid(); shared = (volatile unsigned long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } // one page per worker
        *shared = 0;
        pid_t p = fork(); if(p < 0) return false;
        if(p == 0)
        {
            signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN);
            if(!cwd.empty() && chdir(cwd.c_str())) _exit(120);
            int a = fcntl(fi, F_DUPFD, 20), b = fcntl(fo, F_DUPFD, 20), e = fcntl(pe[1], F_DUPFD, 20), x = px[0] >= 0 ? fcntl(px[0], F_DUPFD, 20) : -1;
            dup2(a, 0); dup2(b, 1); dup2(e, 2); if(x >= 0) dup2(x, extra_fd);
            for(int f = 3; f < 64; f++) if(f != extra_fd) close(f);
            if(in == IN_CLOSED) close(0); if(out == OUT_CLOSED) close(1);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            if(limit != SIZE_MAX) { rl.rlim_cur = rl.rlim_max = limit; setrlimit(RLIMIT_FSIZE, &rl); }
            std::vector<char*> av; for(auto &s : argv) av.push_back((char*)s.c_str()); av.push_back(nullptr);
            std::vector<char*> env; for(auto &s : vars) env.push_back((char*)s.c_str()); env.push_back(nullptr);
            if(fn)
            {
                static MemOut m; m.budget = hiccup; m.transient = true; static char ob[4096]; cookie_io_functions_t io = { nullptr, [](void *k, const char *b, size_t n) -> ssize_t { MemOut *m = (MemOut*)k; size_t r = (size_t)mo_write(k, b, n); if(r && ::write(1, b, r) != (ssize_t)r) _exit(120); return r; }, nullptr, nullptr };
                stdout = fopencookie(&m, "wb", io); setvbuf(stdout, ob, obuf == 0 ? _IOFBF : obuf == 1 ? _IOLBF : _IONBF, obuf == 2 ? 0 : sizeof ob);
                alarm(60); if(memory) { al_begin(0xA5); al_fail(memory, memory_all); }
                int r = fn(argv.size(), av.data()); if(memory) { *shared = al_failed(); al_end(); } exit(r);
            }
            alarm(60); execve(av[0], av.data(), env.data()); _exit(121);
        }
        close(fi); close(pe[1]); if(px[0] >= 0) close(px[0]); if(po[1] >= 0) close(po[1]);
        // the standard error and a standard output that is a pipe are drained while it runs
        char b[65536]; ssize_t n; se.clear(); so.clear(); bool oe = true, oo = out == OUT_PIPE;
        while(oe || oo)
        {
            struct pollfd f[2] = {{oe ? pe[0] : -1, POLLIN, 0}, {oo ? po[0] : -1, POLLIN, 0}}; if(poll(f, 2, -1) < 0 && errno != EINTR) break;
            if(oe && f[0].revents) { if((n = read(pe[0], b, sizeof b)) > 0) { if(se.size() < 1000000) se.append(b, n); } else if(n == 0 || errno != EINTR) oe = false; }
            if(oo && f[1].revents) { if((n = read(po[0], b, sizeof b)) > 0) so.append(b, n); else if(n == 0 || errno != EINTR) oo = false; }
        }
        int w; while(waitpid(p, &w, 0) < 0 && errno == EINTR) {}
        for(pid_t q : feeders) { int x; kill(q, SIGKILL); while(waitpid(q, &x, 0) < 0 && errno == EINTR) {} }
        close(pe[0]); signaled = WIFSIGNALED(w); refused = *shared > 0; status = signaled ? 128 + WTERMSIG(w) : WEXITSTATUS(w);
        if(out == OUT_FILE) { so = slurp_fd(fo); close(fo); } else if(out == OUT_PIPE) close(po[0]); else if(out != OUT_BROKEN) close(fo);
        return status != 120 && status != 121;
    }
    std::string line() const { std::string s; for(size_t i = 0; i < argv.size(); i++) { std::string a = argv[i]; size_t k = i ? std::string::npos : a.rfind('/'); s += (i ? " " : "") + (k == std::string::npos ? a : a.substr(k + 1)); } return s; }
    std::string outcome() const { return mc::fmt("%s %d, stdout %zu bytes, stderr \"%s\"", signaled ? "killed, status" : "status", status, so.size(), se.substr(0, 200).c_str()); }
};

// a scratch folder per worker process
static inline const std::string &workdir()
{
    static std::string d; static pid_t owner = 0;
    if(owner != getpid()) { owner = getpid(); d = mc::fmt("%s/p%d", mc::E->tmpdir.c_str(), (int)owner); mkdir(d.c_str(), 0700); }
    return d;
}
