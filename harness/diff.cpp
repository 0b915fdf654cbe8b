// Line diffs.
//   diff JOBS OUT WORKERS      JOBS: u8 context, u8 color, u32 length, bytes, u32 length, bytes; repeated; color: bit 0 colored, bit 1 empty texts without lines
#include "ulight/impl/string_diff.hpp"
#include "pool.hpp"
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace ulight;

template <class T>
static std::string bytes(const T& s)
{
    std::string o = "[";
    bool first = true;
    for (auto c : s) {
        o += (first ? "" : ",") + std::to_string(int((unsigned char)c));
        first = false;
    }
    return o + "]";
}
static std::string all(const std::vector<std::u8string_view>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        o += (i ? "," : "") + bytes(v[i]);
    }
    return o + "]";
}

int main(int argc, char** argv)
{
    if (argc < 4) {
        return 2;
    }
    std::ifstream in(argv[1], std::ios::binary);
    const std::string data((std::istreambuf_iterator<char>(in)), {});
    struct Job {
        unsigned context, color;
        std::string a, b;
    };
    std::vector<Job> jobs;
    for (size_t p = 0; p + 10 <= data.size();) {
        Job j { (unsigned char)data[p], (unsigned char)data[p + 1], {}, {} };
        p += 2;
        for (std::string* s : { &j.a, &j.b }) {
            uint32_t n;
            memcpy(&n, &data[p], 4);
            *s = data.substr(p + 4, n);
            p += 4 + n;
        }
        jobs.push_back(std::move(j));
    }
    pool::run_all(long(jobs.size()), atoi(argv[3]), argv[2], [&](long i, FILE* f) {
        const Job& j = jobs[size_t(i)];
        std::unique_ptr<char8_t[]> a(new char8_t[j.a.size()]), b(new char8_t[j.b.size()]);
        memcpy(a.get(), j.a.data(), j.a.size());
        memcpy(b.get(), j.b.data(), j.b.size());
        const std::u8string_view from { a.get(), j.a.size() }, to { b.get(), j.b.size() };
        std::vector<std::u8string_view> fl, tl;
        // bit 1: empty texts have no lines
        if (!from.empty() || !(j.color & 2)) {
            split_lines(fl, from);
        }
        if (!to.empty() || !(j.color & 2)) {
            split_lines(tl, to);
        }
        std::string e = "[";
        for (Edit_Type t : shortest_edit_script(fl, tl)) {
            e += (e.size() > 1 ? "," : "") + std::to_string(int(t));
        }
        std::ostringstream out;
        if (j.color & 2) {
            print_diff(out, fl, tl, j.context, (j.color & 1) != 0);
        }
        else {
            print_lines_diff(out, from, to, j.context, (j.color & 1) != 0);
        }
        fprintf(f, "{\"i\":%ld,\"a\":%s,\"b\":%s,\"f\":%s,\"t\":%s,\"e\":%s],\"c\":%u,\"w\":%u,\"z\":%u,\"o\":%s}\n", i, bytes(from).c_str(),
                bytes(to).c_str(), all(fl).c_str(), all(tl).c_str(), e.c_str(), j.context, j.color & 1, j.color >> 1, bytes(out.str()).c_str());
    });
    return 0;
}
