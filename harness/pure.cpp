// Histories of highlighting calls: reused states and memory, nested calls from callbacks, threads.
// A key may force the bytes behind the source (fill, tail); its first call never has any behind.
//   pure OUT WORKERS KEYS SEED HISTORIES THREADS
// KEYS: u8 kind, u8 lang, u8 flags, u8 fill, u8 tail, u32 cap, u32 len, bytes, repeated. kind 0: tokens, 1: HTML.
// One JSON line per history: {"id":n,"ev":[["B",t,d,key],["F",t,d,key,[..]],["R",t,d,key,status,intact],..]}
// The first history (id 0) calls every key once, each in a process of its own.
#include "pool.hpp"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"
#include <atomic>
#include <fstream>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <vector>

struct Key {
    int kind, lang, flags, fill, tail;
    unsigned cap;
    std::string src;
};
static std::vector<Key> keys;

static std::mutex log_mutex;
static std::string log_text;
static size_t log_events;

static bool first_call;

static void event(const std::string& s)
{
    std::lock_guard g(log_mutex);
    log_text += (log_events++ ? "," : "") + s;
}

struct Thread_State {
    int t = 0;
    std::mt19937_64 g;
    ulight_state c_state;             // reused
    ulight::State cpp_state;          // reused
    std::vector<char> arena = std::vector<char>(1 << 16); // sources at changing and at the same addresses
    std::vector<ulight_token> tok = std::vector<ulight_token>(4096);
    std::vector<char> text = std::vector<char>(4096);
};

static void call(Thread_State& T, size_t key, int depth, int mode);

struct Ctx {
    Thread_State& T;
    size_t key;
    int depth;
    bool nested = false;

    void tokens(ulight_token* t, size_t n)
    {
        std::string s;
        for (size_t i = 0; i < n; ++i) {
            s += (i ? "," : "") + std::to_string(t[i].begin) + "," + std::to_string(t[i].length) + ","
                + std::to_string(int(t[i].type));
        }
        flushed(s);
    }
    void bytes(char* t, size_t n)
    {
        std::string s;
        for (size_t i = 0; i < n; ++i) {
            s += (i ? "," : "") + std::to_string((unsigned char)t[i]);
        }
        flushed(s);
    }
    void flushed(const std::string& s)
    {
        event(
            "[\"F\"," + std::to_string(T.t) + "," + std::to_string(depth) + "," + std::to_string(key + 1) + ",[" + s
            + "]]"
        );
        if (depth < 2 && !nested && T.g() % 4 == 0) {
            nested = true;
            call(T, T.g() % keys.size(), depth + 1, int(T.g() % 3) + 3); // never the reused state
        }
    }
};

// mode: 0 reused C state, 1 reused C++ state, 2..5 fresh states
static void call(Thread_State& T, size_t key, int depth, int mode)
{
    const Key& k = keys[key];
    std::string note = "history key ";
    note += std::to_string(key);
    const std::string id
        = std::to_string(T.t) + "," + std::to_string(depth) + "," + std::to_string(key + 1);
    // the source is put where other sources have been before, followed by other bytes
    std::unique_ptr<char[]> own;
    char* src;
    const size_t tail = first_call ? 0 : k.tail ? size_t(k.tail) : T.g() % 9;
    const size_t place = depth * 20000 + (T.g() % 2 ? 0 : T.g() % 64);
    if (first_call || T.g() % 3 == 0) {
        own.reset(new char[k.src.size() + tail]);
        src = own.get();
    }
    else {
        src = T.arena.data() + place;
    }
    static const char tails[] = "\"'`*/\n<>\\a0_ )]}-=#:\xA9\x80\xff";
    memcpy(src, k.src.data(), k.src.size());
    for (size_t i = 0; i < tail; ++i) {
        src[k.src.size() + i] = k.tail ? char(k.fill) : tails[T.g() % (sizeof(tails) - 1)];
    }
    const size_t cap = std::min<size_t>(k.cap, 4096);
    std::vector<ulight_token> own_tok;
    std::vector<char> own_text;
    ulight_token* tok = T.tok.data();
    char* text = T.text.data();
    if (depth > 0 || mode >= 2) {
        own_tok.resize(cap);
        own_text.resize(cap);
        memset((void*)own_tok.data(), int(T.g()), sizeof(ulight_token) * cap);
        tok = own_tok.data();
        text = own_text.data();
    }
    Ctx ctx { T, key, depth };
    event("[\"B\"," + id + "]");
    int status;
    if (mode == 1 || mode == 3) {
        ulight::State fresh;
        ulight::State& s = mode == 1 ? T.cpp_state : fresh;
        if (T.g() % 2) {
            s.set_source(std::string_view { src, k.src.size() });
        }
        else {
            s.set_source(std::u8string_view { (const char8_t*)src, k.src.size() });
        }
        s.set_lang(ulight::Lang(k.lang));
        s.set_flags(ulight::Flag(k.flags));
        auto on_tok = [&](ulight::Token* t, std::size_t n) { ctx.tokens(t, n); };
        auto on_text = [&](char* t, std::size_t n) { ctx.bytes(t, n); };
        s.set_token_buffer({ tok, cap });
        s.on_flush_tokens(on_tok);
        if (k.kind == 1) {
            s.set_text_buffer({ text, cap });
            s.on_flush_text(on_text);
            s.set_html_tag_name("tag");
            s.set_html_attr_name("attribute");
            status = int(s.source_to_html());
        }
        else {
            status = int(s.source_to_tokens());
        }
    }
    else {
        ulight_state* heap = mode == 4 ? ulight_new() : nullptr;
        ulight_state fresh;
        ulight_state& s = mode == 0 ? T.c_state : heap ? *heap : fresh;
        if (mode != 0 && !heap) {
            memset((void*)&fresh, 0x77, sizeof(fresh));
            ulight_init(&fresh);
        }
        s.source = src;
        s.source_length = k.src.size();
        s.lang = ulight_lang(k.lang);
        s.flags = ulight_flag(k.flags);
        s.token_buffer = tok;
        s.token_buffer_length = cap;
        s.flush_tokens_data = &ctx;
        s.flush_tokens = [](const void* d, ulight_token* t, size_t n) { ((Ctx*)d)->tokens(t, n); };
        s.text_buffer = text;
        s.text_buffer_length = cap;
        s.flush_text_data = &ctx;
        s.flush_text = [](const void* d, char* t, size_t n) { ((Ctx*)d)->bytes(t, n); };
        s.html_tag_name = "tag";
        s.html_tag_name_length = 3;
        s.html_attr_name = "attribute";
        s.html_attr_name_length = 9;
        status = k.kind == 1 ? int(ulight_source_to_html(&s)) : int(ulight_source_to_tokens(&s));
        if (heap) {
            ulight_delete(heap);
        }
    }
    const bool intact = memcmp(src, k.src.data(), k.src.size()) == 0;
    event("[\"R\"," + id + "," + std::to_string(status) + "," + (intact ? "1" : "0") + "]");
}

int main(int argc, char** argv)
{
    std::ifstream in(argv[3], std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    for (size_t p = 0; p < all.size();) {
        Key k;
        k.kind = (unsigned char)all[p];
        k.lang = (unsigned char)all[p + 1];
        k.flags = (unsigned char)all[p + 2];
        k.fill = (unsigned char)all[p + 3];
        k.tail = (unsigned char)all[p + 4];
        uint32_t n;
        memcpy(&k.cap, all.data() + p + 5, 4);
        memcpy(&n, all.data() + p + 9, 4);
        k.src = all.substr(p + 13, n);
        p += 13 + n;
        keys.push_back(k);
    }
    const uint64_t seed = strtoull(argv[4], nullptr, 10);
    const long histories = atol(argv[5]);
    const int threads = atoi(argv[6]);
    const long nk = long(keys.size());
    pool::run_all(nk + histories, atoi(argv[2]), argv[1], [&](long i, FILE* f) {
        log_text.clear();
        log_events = 0;
        if (i < nk) {
            // each key in a process of its own, nothing done before
            int fd[2];
            if (pipe(fd) != 0) {
                _exit(99);
            }
            const pid_t p = fork();
            if (p == 0) {
                first_call = true;
                Thread_State T;
                T.g.seed(1);
                // no nested calls: the depth is passed as 2 and rewritten
                call(T, size_t(i), 2, 2);
                size_t off = 0;
                while (off < log_text.size()) {
                    const ssize_t w = write(fd[1], log_text.data() + off, log_text.size() - off);
                    if (w <= 0) {
                        _exit(1);
                    }
                    off += size_t(w);
                }
                _exit(0);
            }
            close(fd[1]);
            char buf[65536];
            ssize_t r;
            while ((r = read(fd[0], buf, sizeof(buf))) > 0) {
                log_text.append(buf, size_t(r));
            }
            close(fd[0]);
            int st = 0;
            waitpid(p, &st, 0);
            fprintf(f, "{\"base\":%ld,\"ok\":%d,\"ev\":[%s]}\n", i + 1, st == 0, log_text.c_str());
            return;
        }
        std::mt19937_64 g(seed * 7919 + uint64_t(i));
        // a small set of keys per history, so that they come back
        std::vector<size_t> set;
        for (int n = 0; n < 5; ++n) {
            set.push_back(g() % keys.size());
        }
        auto body = [&](int t, uint64_t s) {
            Thread_State T;
            T.t = t;
            T.g.seed(s);
            ulight_init(&T.c_state);
            for (int n = 0; n < 6; ++n) {
                call(T, T.g() % 4 ? set[T.g() % set.size()] : T.g() % keys.size(), 0, int(T.g() % 6));
            }
        };
        std::vector<std::thread> ts;
        if (threads == 1) {
            body(0, g());
        }
        else {
            for (int t = 0; t < threads; ++t) {
                ts.emplace_back(body, t, g());
            }
            for (auto& t : ts) {
                t.join();
            }
        }
        fprintf(f, "{\"id\":%ld,\"ev\":[%s]}\n", i - nk + 1, log_text.c_str());
    });
}
