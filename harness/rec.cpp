// Recorder: runs the public highlighting API on a list of jobs and writes one JSON line per job.
//   rec JOBS OUT WORKERS
// JOBS is binary: repeated  u8 op, u8 lang, u8 flags, u32 tokcap, u32 textcap, u32 len, bytes
//   op 0: ulight_source_to_tokens
//   op 1+k: ulight_source_to_html with the k-th pair of names of names.hpp (k = 0: those of ulight_init)
#include "names.hpp"
#include "pool.hpp"
#include "ulight/ulight.h"
#include <cstdint>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

struct Job {
    uint8_t op, lang, flags;
    uint32_t tokcap, textcap;
    std::string src;
};

struct Rec {
    std::vector<ulight_token> t;
    std::vector<size_t> fl;
    bool ptr_ok = true;
    const void* buf = nullptr;
    std::string h;
};

int main(int argc, char** argv)
{
    if (argc < 4) {
        return 2;
    }
    std::ifstream in(argv[1], std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<Job> jobs;
    size_t p = 0;
    auto u8 = [&] { return uint8_t(all[p++]); };
    auto u32 = [&] {
        uint32_t v;
        memcpy(&v, all.data() + p, 4);
        p += 4;
        return v;
    };
    while (p < all.size()) {
        Job j;
        j.op = u8();
        j.lang = u8();
        j.flags = u8();
        j.tokcap = u32();
        j.textcap = u32();
        const uint32_t n = u32();
        j.src = all.substr(p, n);
        p += n;
        jobs.push_back(std::move(j));
    }
    pool::run_all(long(jobs.size()), atoi(argv[3]), argv[2], [&](long i, FILE* f) {
        const Job& j = jobs[size_t(i)];
        Rec r;
        // exactly sized heap copies: any access outside is caught by the sanitizer
        std::unique_ptr<char[]> src(new char[j.src.size()]);
        memcpy(src.get(), j.src.data(), j.src.size());
        std::unique_ptr<ulight_token[]> buf(new ulight_token[j.tokcap]);
        std::unique_ptr<char[]> text(new char[j.textcap ? j.textcap : 1]);
        ulight_state st;
        ulight_init(&st);
        st.source = src.get();
        st.source_length = j.src.size();
        st.lang = ulight_lang(j.lang);
        st.flags = ulight_flag(j.flags);
        st.token_buffer = buf.get();
        st.token_buffer_length = j.tokcap;
        int status;
        if (j.op == 0) {
            r.buf = buf.get();
            st.flush_tokens_data = &r;
            st.flush_tokens = [](const void* d, ulight_token* t, size_t n) {
                Rec& x = *static_cast<Rec*>(const_cast<void*>(d));
                x.ptr_ok = x.ptr_ok && t == x.buf;
                x.fl.push_back(n);
                x.t.insert(x.t.end(), t, t + n);
            };
            status = ulight_source_to_tokens(&st);
        }
        else {
            r.buf = text.get();
            if (j.op > 1) {
                const auto& nm = html_names[j.op - 2];
                st.html_tag_name = nm.tag;
                st.html_tag_name_length = strlen(nm.tag);
                st.html_attr_name = nm.attr;
                st.html_attr_name_length = strlen(nm.attr);
            }
            st.text_buffer = text.get();
            st.text_buffer_length = j.textcap;
            st.flush_text_data = &r;
            st.flush_text = [](const void* d, char* t, size_t n) {
                Rec& x = *static_cast<Rec*>(const_cast<void*>(d));
                x.ptr_ok = x.ptr_ok && t == x.buf;
                x.fl.push_back(n);
                x.h.append(t, n);
            };
            status = ulight_source_to_html(&st);
        }
        const bool same = memcmp(src.get(), j.src.data(), j.src.size()) == 0;
        std::string o = "{\"i\":" + std::to_string(i) + ",\"st\":" + std::to_string(status)
            + ",\"ptr\":" + (r.ptr_ok ? "1" : "0") + ",\"same\":" + (same ? "1" : "0") + ",\"fl\":[";
        for (size_t k = 0; k < r.fl.size(); ++k) {
            o += (k ? "," : "") + std::to_string(r.fl[k]);
        }
        o += "],\"t\":[";
        for (size_t k = 0; k < r.t.size(); ++k) {
            o += (k ? ",[" : "[") + std::to_string(r.t[k].begin) + "," + std::to_string(r.t[k].length) + ","
                + std::to_string(int(r.t[k].type)) + "]";
        }
        o += "],\"h\":\"";
        static const char* hx = "0123456789abcdef";
        for (unsigned char c : r.h) {
            o += hx[c >> 4];
            o += hx[c & 15];
        }
        o += "\"}\n";
        fwrite(o.data(), 1, o.size(), f);
    });
    return 0;
}
