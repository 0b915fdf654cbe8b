// Crash/hang isolation: jobs [0,n) are run in forked workers; each worker appends its output lines to
// its own file; a crash or a hang becomes an output line of its own and the remaining jobs go on.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace pool {

inline unsigned hang_seconds = 20; // of processor time, so that a busy machine does not look like a hang

struct Shared {
    volatile long current; // job being run, -1 if none
    volatile unsigned length; // what the job is doing, for the report of a crash
    char note[1 << 16];
};

inline Shared* self = nullptr;

inline void set_note(const std::string& s)
{
    const size_t n = s.size() < sizeof(self->note) ? s.size() : sizeof(self->note);
    memcpy(self->note, s.data(), n);
    self->length = unsigned(n);
}

inline void limit(unsigned seconds)
{
    const itimerval t { { 0, 0 }, { time_t(seconds), 0 } };
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(seconds * 8);
}

// run(i, out) runs job i and writes whole lines to out.
inline void run_all(
    long n, int workers, const std::string& out_path,
    const std::function<void(long, FILE*)>& run
)
{
    auto* sh = static_cast<Shared*>(mmap(
        nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0
    ));
    std::vector<pid_t> pids(workers);
    std::vector<long> next(workers), end(workers);
    for (int w = 0; w < workers; ++w) {
        next[w] = n * w / workers;
        end[w] = n * (w + 1) / workers;
    }
    auto part = [&](int w) { return out_path + "." + std::to_string(w); };
    auto spawn = [&](int w) {
        sh[w].current = -1;
        fflush(nullptr);
        const pid_t p = fork();
        if (p == 0) {
            self = &sh[w];
            self->length = 0;
            // no core dumps; the stack is limited to the usual 8 MiB
            rlimit rl { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            FILE* f = fopen(part(w).c_str(), "ab");
            if (!f) {
                _exit(99);
            }
            for (long i = next[w]; i < end[w]; ++i) {
                sh[w].current = i;
                limit(hang_seconds);
                run(i, f);
                if (fflush(f) != 0) {
                    _exit(99);
                }
            }
            limit(0);
            fclose(f);
            _exit(0);
        }
        pids[w] = p;
    };
    for (int w = 0; w < workers; ++w) {
        remove(part(w).c_str());
        FILE* f = fopen(part(w).c_str(), "wb");
        if (f) {
            fclose(f);
        }
        spawn(w);
    }
    int alive = workers;
    while (alive > 0) {
        int st = 0;
        const pid_t p = wait(&st);
        if (p < 0) {
            if (errno == EINTR) {
                continue;
            }
            break;
        }
        for (int w = 0; w < workers; ++w) {
            if (pids[w] != p) {
                continue;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                --alive;
                break;
            }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
                fprintf(stderr, "worker could not write its output\n");
                exit(5);
            }
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                // out of memory in the sandbox or killed from outside: not the code's doing
                fprintf(stderr, "worker was killed\n");
                exit(6);
            }
            const long i = sh[w].current;
            FILE* f = fopen(part(w).c_str(), "ab");
            const bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF);
            fprintf(
                f, "\n{\"i\":%ld,\"crash\":\"%s\",\"code\":%d,\"note\":\"", i, hang ? "hang" : "crash",
                WIFSIGNALED(st) ? WTERMSIG(st) : 256 + WEXITSTATUS(st)
            );
            for (unsigned k = 0; k < sh[w].length; ++k) {
                fprintf(f, "%02x", (unsigned char)sh[w].note[k]);
            }
            fprintf(f, "\"}\n");
            fclose(f);
            next[w] = i + 1;
            spawn(w);
            break;
        }
    }
    FILE* out = fopen(out_path.c_str(), "wb");
    for (int w = 0; w < workers; ++w) {
        FILE* f = fopen(part(w).c_str(), "rb");
        std::vector<char> buf(1 << 16);
        size_t k;
        while ((k = fread(buf.data(), 1, buf.size(), f)) > 0) {
            if (fwrite(buf.data(), 1, k, out) != k) {
                exit(5);
            }
        }
        fclose(f);
        remove(part(w).c_str());
    }
    if (fclose(out) != 0) {
        exit(5);
    }
}

} // namespace pool
