// Runs parse_json with a visitor that records everything.
//   json JOBS OUT WORKERS     JOBS: u8 options, u32 length, bytes, repeated
// options: bit 0 comments, bit 1 numbers, bits 2.. escapes (0 none, 1 parse, 2 encode); bit 7: std::string_view overload
// Line: {"i":n,"ok":0/1,"ev":[[name,offset,line,column,...]]}
#include "pool.hpp"
#include "ulight/json.hpp"
#include <cmath>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
using namespace ulight;

static std::string bytes(std::u8string_view s)
{
    std::string o = "[";
    for (size_t i = 0; i < s.size(); ++i) {
        o += (i ? "," : "") + std::to_string(int((unsigned char)s[i]));
    }
    return o + "]";
}

struct V final : JSON_Visitor {
    std::string out;
    long n = 0;
    void ev(const char* name, const Source_Position& p, const std::string& args = "")
    {
        auto small = [](size_t x) { return std::to_string(x < 2000000000 ? x : 2000000000); };
        out += std::string(n++ ? "," : "") + "[\"" + name + "\"," + small(p.code_unit) + "," + small(p.line) + ","
            + small(p.line_code_unit) + (args.empty() ? "" : "," + args) + "]";
    }
    void line_comment(const Source_Position& p, std::u8string_view s) override { ev("line_comment", p, bytes(s)); }
    void block_comment(const Source_Position& p, std::u8string_view s) override { ev("block_comment", p, bytes(s)); }
    void literal(const Source_Position& p, std::u8string_view s) override { ev("literal", p, bytes(s)); }
    void escape(const Source_Position& p, std::u8string_view s) override { ev("escape", p, bytes(s)); }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c) override
    {
        ev("escape1", p, bytes(s) + "," + std::to_string(long(c)));
    }
    void escape(const Source_Position& p, std::u8string_view s, char32_t c, std::u8string_view u) override
    {
        ev("escape2", p, bytes(s) + "," + std::to_string(long(c)) + "," + bytes(u));
    }
    void number(const Source_Position& p, std::u8string_view s) override { ev("number", p, bytes(s)); }
    void number(const Source_Position& p, std::u8string_view s, double v) override
    {
        // v = (-1)^sign * m * 2^q with m an integer below 2^53, as limbs of base 10^4
        long q = 9999;
        std::string m = "[";
        if (std::isfinite(v)) {
            int e = 0;
            const double f = std::frexp(std::fabs(v), &e);
            q = f == 0 ? -1074 : e - 53;
            if (q < -1074) {
                q = -1074;
            }
            auto x = (unsigned long)(std::ldexp(std::fabs(v), int(-(q / 2)) ) * std::ldexp(1.0, int(-(q - q / 2))));
            for (bool first = true; x; x /= 10000, first = false) {
                m += (first ? "" : ",") + std::to_string(x % 10000);
            }
        }
        else if (std::isnan(v)) {
            q = 8888;
        }
        ev("number1", p, bytes(s) + "," + std::to_string(int(std::signbit(v))) + "," + m + "]," + std::to_string(q));
    }
    void null(const Source_Position& p) override { ev("null", p); }
    void boolean(const Source_Position& p, bool v) override { ev("boolean", p, v ? "1" : "0"); }
    void push_string(const Source_Position& p) override { ev("push_string", p); }
    void pop_string(const Source_Position& p) override { ev("pop_string", p); }
    void push_property(const Source_Position& p) override { ev("push_property", p); }
    void pop_property(const Source_Position& p) override { ev("pop_property", p); }
    void push_object(const Source_Position& p) override { ev("push_object", p); }
    void pop_object(const Source_Position& p) override { ev("pop_object", p); }
    void push_array(const Source_Position& p) override { ev("push_array", p); }
    void pop_array(const Source_Position& p) override { ev("pop_array", p); }
    Error_Reaction error(const Source_Position& p, JSON_Error e) override
    {
        ev("error", p, std::to_string(int(e)));
        return Error_Reaction::abort;
    }
};

int main(int, char** argv)
{
    std::ifstream in(argv[1], std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<std::pair<int, std::string>> jobs;
    for (size_t p = 0; p < all.size();) {
        uint32_t n;
        const int o = (unsigned char)all[p];
        memcpy(&n, all.data() + p + 1, 4);
        jobs.emplace_back(o, all.substr(p + 5, n));
        p += 5 + n;
    }
    pool::run_all(long(jobs.size()), atoi(argv[3]), argv[2], [&](long i, FILE* f) {
        const auto& [o, s] = jobs[size_t(i)];
        pool::set_note(s);
        std::unique_ptr<char8_t[]> b(new char8_t[s.size()]);
        memcpy(b.get(), s.data(), s.size());
        JSON_Options opt;
        opt.allow_comments = o & 1;
        opt.parse_numbers = o & 2;
        opt.escapes = Escape_Parsing((o >> 2) & 3);
        V v;
        const bool ok = o & 128
            ? parse_json(v, std::string_view { reinterpret_cast<const char*>(b.get()), s.size() }, opt)
            : parse_json(v, std::u8string_view { b.get(), s.size() }, opt);
        fprintf(f, "{\"i\":%ld,\"ok\":%d,\"ev\":[%s]}\n", i, int(ok), v.out.c_str());
    });
}
