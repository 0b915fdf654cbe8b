// Enumerates highlighting requests with every combination of defective and proper fields.
//   api OUT WORKERS
// A line per request: [op, src, tb, ft, lang, xb, fx, tag, attr, status, callbacks, touched, msg, intact]
#include "pool.hpp"
#include "ulight/ulight.h"
#include <string>
#include <vector>

struct Req {
    int op, src, tb, ft, lang, xb, fx, tag, attr;
};

static int calls;

int main(int argc, char** argv)
{
    if (argc < 3) {
        return 2;
    }
    std::vector<Req> reqs;
    const int some_langs[] = { 0, 2, 26, 255, 258, -1 };
    const int more_langs[] = { 256, 258, 281, 65538, 2147483647, -1, -2, -254, -2147483647 };
    for (int src = 0; src < 4; ++src) {
        for (int tb = 0; tb < 4; ++tb) {
            for (int ft = 0; ft < 2; ++ft) {
                for (int lang = 0; lang < 256; ++lang) {
                    reqs.push_back({ 0, src, tb, ft, lang, 3, 1, 3, 3 });
                }
                for (int lang : more_langs) {
                    reqs.push_back({ 0, src, tb, ft, lang, 3, 1, 3, 3 });
                }
                for (int lang : some_langs) {
                    for (int xb = 0; xb < 4; ++xb) {
                        for (int fx = 0; fx < 2; ++fx) {
                            for (int tag = 0; tag < 4; ++tag) {
                                for (int attr = 0; attr < 4; ++attr) {
                                    reqs.push_back({ 1, src, tb, ft, lang, xb, fx, tag, attr });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    pool::run_all(long(reqs.size()), atoi(argv[2]), argv[1], [&](long i, FILE* f) {
        const Req& r = reqs[size_t(i)];
        // field values: 0 null and empty, 1 null but not empty, 2 not null but empty, 3 proper
        static char source[] = "int <&x";
        static char tag[] = "tt", attr[] = "aa";
        static ulight_token tokens[8];
        static char text[8];
        memset((void*)tokens, 0x5A, sizeof(tokens));
        memset(text, 0x5A, sizeof(text));
        auto ptr = [](int v, auto* p) { return v >= 2 ? p : nullptr; };
        auto len = [](int v, size_t n) { return v & 1 ? n : 0; };
        ulight_state st;
        ulight_init(&st);
        st.source = ptr(r.src, source);
        st.source_length = len(r.src, sizeof(source) - 1);
        st.lang = ulight_lang(r.lang);
        st.flags = ulight_flag(i % 4);
        st.token_buffer = ptr(r.tb, tokens);
        st.token_buffer_length = len(r.tb, 8);
        calls = 0;
        st.flush_tokens = r.ft ? +[](const void*, ulight_token*, size_t) { ++calls; } : nullptr;
        if (r.op == 1) {
            st.text_buffer = ptr(r.xb, text);
            st.text_buffer_length = len(r.xb, 8);
            st.flush_text = r.fx ? +[](const void*, char*, size_t) { ++calls; } : nullptr;
            st.html_tag_name = ptr(r.tag, tag);
            st.html_tag_name_length = len(r.tag, 2);
            st.html_attr_name = ptr(r.attr, attr);
            st.html_attr_name_length = len(r.attr, 2);
        }
        const ulight_status s = r.op ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
        int touched = 0;
        for (size_t k = 0; k < sizeof(tokens); ++k) {
            touched |= reinterpret_cast<const unsigned char*>(tokens)[k] != 0x5A;
        }
        for (char c : text) {
            touched |= c != 0x5A;
        }
        int msg = 0;
        if (st.error != nullptr && st.error_length != 0) {
            msg = 1;
            for (size_t k = 0; k < st.error_length; ++k) {
                if (st.error[k] == 0) {
                    msg = 2;
                }
            }
        }
        const int intact = memcmp(source, "int <&x", 8) == 0 && memcmp(tag, "tt", 3) == 0 && memcmp(attr, "aa", 3) == 0;
        fprintf(
            f, "{\"i\":%ld,\"r\":[%d,%d,%d,%d,%d,%d,%d,%d,%d],\"o\":[%d,%d,%d,%d,%d]}\n", i, r.op, r.src, r.tb, r.ft,
            r.lang, r.xb, r.fx, r.tag, r.attr, int(s), calls, touched, msg, intact
        );
    });
}
