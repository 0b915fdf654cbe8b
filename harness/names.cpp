// Names of languages and highlight types.
//   names OUT WORKERS INPUTS       INPUTS: u32 length + bytes, repeated
// Lines: {"k":"lookup","s":[bytes],"r":[8 results, 8 results with other bytes behind the string]}
//        {"k":"lang","l":n,"name":[..],"variants":same,"nul":0/1}   {"k":"entry","name":[..],"l":n,"nul":..}
//        {"k":"type","v":n,"long":"..","short":"..","same":0/1,"nul":0/1}
#include "pool.hpp"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"
#include <fstream>
#include <memory>
#include <string>
#include <vector>

static std::string ints(std::string_view s)
{
    std::string o = "[";
    for (size_t i = 0; i < s.size(); ++i) {
        o += (i ? "," : "") + std::to_string((unsigned char)s[i]);
    }
    return o + "]";
}

static std::string_view sv(ulight_string_view s) { return s.length ? std::string_view(s.text, s.length) : ""; }
static std::string_view sv(ulight_u8string_view s)
{
    return s.length ? std::string_view((const char*)s.text, s.length) : "";
}
static std::string_view sv(std::string_view s) { return s; }
static std::string_view sv(std::u8string_view s) { return { (const char*)s.data(), s.size() }; }

int main(int argc, char** argv)
{
    std::ifstream in(argv[3], std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<std::string> inputs;
    for (size_t p = 0; p < all.size();) {
        uint32_t n;
        memcpy(&n, all.data() + p, 4);
        inputs.push_back(all.substr(p + 4, n));
        p += 4 + n;
    }
    const long nl = long(inputs.size());
    pool::run_all(nl + 256 + 1 + 256, atoi(argv[2]), argv[1], [&](long i, FILE* f) {
        if (i < nl) {
            const std::string& s = inputs[size_t(i)];
            pool::set_note(s);
            std::string r;
            const char* const behind[] = { "", ".cpp", "p", "\xff" };
            for (const std::string tail : behind) {
                std::unique_ptr<char[]> b(new char[s.size() + tail.size()]);
                memcpy(b.get(), s.data(), s.size());
                memcpy(b.get() + s.size(), tail.data(), tail.size());
                const char* c = b.get();
                const auto* c8 = reinterpret_cast<const char8_t*>(c);
                const size_t n = s.size();
                const int rs[] = {
                    int(ulight_get_lang(c, n)),
                    int(ulight_get_lang_u8(c8, n)),
                    int(ulight::get_lang(std::string_view { c, n })),
                    int(ulight::get_lang(std::u8string_view { c8, n })),
                    int(ulight_lang_from_path(c, n)),
                    int(ulight_lang_from_path_u8(c8, n)),
                    int(ulight::lang_from_path(std::string_view { c, n })),
                    int(ulight::lang_from_path(std::u8string_view { c8, n })),
                };
                for (int x : rs) {
                    r += (r.empty() ? "" : ",") + std::to_string(x);
                }
            }
            fprintf(f, "{\"k\":\"lookup\",\"i\":%ld,\"s\":%s,\"r\":[%s]}\n", i, ints(s).c_str(), r.c_str());
            return;
        }
        i -= nl;
        if (i < 256) {
            const auto l = ulight_lang(i);
            const auto a = ulight_lang_display_name(l);
            const auto b = ulight_lang_display_name_u8(l);
            const auto c = ulight::lang_display_name(ulight::Lang(i));
            const auto d = ulight::lang_display_name_u8(ulight::Lang(i));
            const bool same = sv(a) == sv(b) && sv(a) == sv(c) && sv(a) == sv(d);
            const bool nul = a.length == 0 || (a.text[a.length] == 0 && b.text[b.length] == 0);
            fprintf(
                f, "{\"k\":\"lang\",\"i\":%ld,\"l\":%ld,\"name\":\"%s\",\"same\":%d,\"nul\":%d}\n", nl + i, i,
                std::string(sv(a)).c_str(), same, nul
            );
            if (i == 255) {
                for (int n : { 256, 258, 281, 65538, 2147483647, -1, -2, -254, -2147483647 }) {
                    const auto x = ulight_lang_display_name(ulight_lang(n));
                    const auto y = ulight_lang_display_name_u8(ulight_lang(n));
                    fprintf(
                        f, "{\"k\":\"lang\",\"i\":%ld,\"l\":%d,\"name\":\"%s\",\"same\":%d,\"nul\":1}\n", nl + i, n,
                        std::string(sv(x)).c_str(), sv(x) == sv(y)
                    );
                }
            }
            return;
        }
        i -= 256;
        if (i == 0) {
            for (size_t k = 0; k < ulight_lang_list_length; ++k) {
                const auto& e = ulight_lang_list[k];
                fprintf(
                    f, "{\"k\":\"entry\",\"i\":%ld,\"n\":%zu,\"name\":%s,\"l\":%d,\"nul\":%d}\n", nl + 256 + long(k),
                    k, ints({ e.name, e.name_length }).c_str(), int(e.lang), e.name[e.name_length] == 0
                );
            }
            return;
        }
        i -= 1;
        const auto t = ulight_highlight_type(i);
        const auto T = ulight::Highlight_Type(i);
        const auto ls = ulight_highlight_type_long_string(t);
        const auto l8 = ulight_highlight_type_long_string_u8(t);
        const auto ss = ulight_highlight_type_short_string(t);
        const auto s8 = ulight_highlight_type_short_string_u8(t);
        const auto id = ulight_highlight_type_id(t);
        const bool same = sv(ls) == sv(l8) && sv(ss) == sv(s8) && sv(ss) == sv(id)
            && sv(ls) == sv(ulight::highlight_type_long_string(T))
            && sv(ls) == sv(ulight::highlight_type_long_string_u8(T))
            && sv(ss) == sv(ulight::highlight_type_short_string(T))
            && sv(ss) == sv(ulight::highlight_type_short_string_u8(T)) && sv(ss) == sv(ulight::highlight_type_id(T));
        auto nulled = [](auto s) { return s.length == 0 || s.text[s.length] == 0; };
        const bool nul = nulled(ls) && nulled(l8) && nulled(ss) && nulled(s8) && nulled(id);
        fprintf(
            f, "{\"k\":\"type\",\"i\":%ld,\"v\":%ld,\"long\":\"%s\",\"short\":\"%s\",\"same\":%d,\"nul\":%d}\n",
            nl + 1000 + i, i, std::string(sv(ls)).c_str(), std::string(sv(ss)).c_str(), same, nul
        );
    });
}
