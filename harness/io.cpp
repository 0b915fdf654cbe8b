// Loading of files, from real files in the current directory and from a scripted system.
//   io JOBS OUT WORKERS
// JOBS: u8 function, u32 length, path, u32 length, bytes already there, u8 scripted, u32 length, content, u32 count, i32 per read
// A scripted file is one whose reads give what the job says; functions which do not open it by fopen cannot be told
// what to do, and are recorded as such.
#include "pool.hpp"
#include "ulight/impl/io.hpp"
#include <cerrno>
#include <cstdint>
#include <dlfcn.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <vector>
using namespace ulight;

struct Script {
    std::string content;
    std::vector<int> plan;
    size_t at = 0, next = 0;
    std::vector<int> done;
    bool used = false;
};
static Script* script = nullptr;

static ssize_t play(void* cookie, char* buf, size_t size)
{
    Script& s = *static_cast<Script*>(cookie);
    int n = s.next < s.plan.size() ? s.plan[s.next++] : int(size);
    if (n < 0) {
        s.done.push_back(-1);
        errno = EIO;
        return -1;
    }
    const size_t k = std::min({ size_t(n), size, s.content.size() - s.at });
    memcpy(buf, s.content.data() + s.at, k);
    s.at += k;
    s.done.push_back(int(k));
    return ssize_t(k);
}

extern "C" FILE* fopen(const char* path, const char* mode)
{
    if (script && !script->used && !strcmp(path, "scripted")) {
        script->used = true;
        return fopencookie(script, mode, { play, nullptr, nullptr, nullptr });
    }
    using F = FILE* (*)(const char*, const char*);
    static const F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fopen"));
    return real(path, mode);
}

template <class T>
static std::string list(const T& v)
{
    std::string o = "[";
    bool first = true;
    for (auto x : v) {
        o += (first ? "" : ",");
        if constexpr (sizeof(x) == 1) {
            o += std::to_string(int((unsigned char)x));
        }
        else {
            o += std::to_string(int(x));
        }
        first = false;
    }
    return o + "]";
}

int main(int argc, char** argv)
{
    if (argc < 4) {
        return 2;
    }
    struct Job {
        unsigned fn, scripted;
        std::string path, pre, content;
        std::vector<int> plan;
    };
    std::vector<Job> jobs;
    {
        std::ifstream in(argv[1], std::ios::binary);
        const std::string data((std::istreambuf_iterator<char>(in)), {});
        size_t p = 0;
        auto u8 = [&] { return unsigned((unsigned char)data[p++]); };
        auto u32 = [&] {
            uint32_t v;
            memcpy(&v, &data[p], 4);
            p += 4;
            return v;
        };
        auto str = [&] {
            const uint32_t n = u32();
            p += n;
            return data.substr(p - n, n);
        };
        while (p < data.size()) {
            Job j;
            j.fn = u8();
            j.path = str();
            j.pre = str();
            j.scripted = u8();
            j.content = str();
            for (uint32_t n = u32(); n; --n) {
                j.plan.push_back(int(u32()));
            }
            jobs.push_back(std::move(j));
        }
    }
    static const char* const names[] = { "chunked", "bytes", "utf8_append", "utf8", "utf32", "utf8_or_error" };
    pool::run_all(long(jobs.size()), atoi(argv[3]), argv[2], [&](long i, FILE* f) {
        const Job& j = jobs[size_t(i)];
        Script s { j.content, j.plan, 0, 0, {}, false };
        script = j.scripted ? &s : nullptr;
        // exactly as long as it says
        std::unique_ptr<char[]> name(new char[j.path.size()]);
        memcpy(name.get(), j.path.data(), j.path.size());
        const std::string_view path { name.get(), j.path.size() };
        std::string out;
        int res = 0, said = 0;
        auto code = [&](const auto& r) { res = r ? 0 : 1 + int(r.error()); };
        std::vector<char8_t> v(j.pre.begin(), j.pre.end());
        switch (j.fn) {
        case 0: {
            auto take = [&](std::span<const std::byte> c) { out.append(reinterpret_cast<const char*>(c.data()), c.size()); };
            code(file_to_bytes_chunked(take, path));
            break;
        }
        case 1: {
            std::vector<std::byte> b;
            for (char c : j.pre) {
                b.push_back(std::byte(c));
            }
            code(file_to_bytes(b, path));
            out.assign(reinterpret_cast<const char*>(b.data()), b.size());
            break;
        }
        case 2:
            code(load_utf8_file(v, path));
            out.assign(v.begin(), v.end());
            break;
        case 3: {
            const auto r = load_utf8_file(path);
            code(r);
            if (r) {
                out.assign(r->begin(), r->end());
            }
            break;
        }
        case 4: {
            const auto r = load_utf32le_file(path);
            code(r);
            if (r) {
                out.assign(reinterpret_cast<const char*>(r->data()), r->size() * 4);
            }
            break;
        }
        default: {
            std::ostringstream o;
            std::streambuf* const old = std::cout.rdbuf(o.rdbuf());
            res = load_utf8_file_or_error(v, path) ? 0 : 9;
            std::cout.rdbuf(old);
            said = !o.str().empty();
            out.assign(v.begin(), v.end());
            break;
        }
        }
        script = nullptr;
        if (j.scripted && !s.used) {
            fprintf(f, "{\"i\":%ld,\"skip\":1}\n", i);
            return;
        }
        std::vector<int> reads = j.scripted ? s.done : j.plan;
        fprintf(f, "{\"i\":%ld,\"k\":\"%s\",\"open\":%d,\"reads\":%s,\"c\":%s,\"pre\":%s,\"res\":%d,\"out\":%s,\"said\":%d}\n", i, names[j.fn],
                j.scripted || !j.plan.empty(), list(reads).c_str(), list(j.content).c_str(), list(j.pre).c_str(), res, list(out).c_str(), said);
    });
    return 0;
}
