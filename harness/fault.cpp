// Injects failing allocations and throwing callbacks.
//   fault JOBS OUT WORKERS MAXFAULTS
// JOBS: u8 kind (0 tokens, 1 html), u8 lang, u8 flags, u32 token buffer, u32 text buffer, u32 length, bytes
// Line: {"i":n,"base":[...],"n":allocations,"calls":[[fault, index, delivered, callbacks after the fault, status,
//        message length, exception escaped, live allocations, again ok],...]}
// faults: 0 none, 1 allocation `index` fails, 2 all from `index` fail, 3 callback `index` throws a runtime_error, 7 bad_alloc,
//         4 an int
#include "pool.hpp"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"
#include <atomic>
#include <fstream>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

static bool counting = false;
static long allocs = 0, live = 0, fail_at = -1;
static bool fail_on = false;
static bool fault_hit = false;

static void* allocate(size_t n, size_t align, bool nothrow)
{
    if (counting) {
        const long i = allocs++;
        if (fail_at >= 0 && (i == fail_at || (fail_on && i > fail_at))) {
            fault_hit = true;
            if (nothrow) {
                return nullptr;
            }
            throw std::bad_alloc();
        }
    }
    void* p = nullptr;
    if (align <= 16) {
        p = malloc(n ? n : 1);
    }
    else if (posix_memalign(&p, align, n ? n : 1) != 0) {
        p = nullptr;
    }
    if (!p) {
        abort();
    }
    if (counting) {
        ++live;
    }
    return p;
}
static void release(void* p)
{
    if (p && counting) {
        --live;
    }
    free(p);
}

void* operator new(size_t n) { return allocate(n, 1, false); }
void* operator new[](size_t n) { return allocate(n, 1, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 1, true); }
void* operator new(size_t n, std::align_val_t a) { return allocate(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return allocate(n, size_t(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return allocate(n, size_t(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return allocate(n, size_t(a), true); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { release(p); }

struct Job {
    uint8_t kind, lang, flags;
    uint32_t cap, textcap;
    std::string src;
};

struct Sink {
    std::vector<long> out;
    long callbacks = 0, throw_at = -1, late = 0;
    int what = 0;
    void hit()
    {
        if (fault_hit) {
            ++late;
        }
        if (callbacks++ == throw_at) {
            fault_hit = true;
            if (what == 4) {
                throw 42;
            }
            if (what == 7) {
                throw std::bad_alloc();
            }
            throw std::runtime_error("callback");
        }
    }
};

// not counted: the driver's own memory
struct Pause {
    bool was = counting;
    Pause() { counting = false; }
    ~Pause() { counting = was; }
};

int main(int, char** argv)
{
    std::ifstream in(argv[1], std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<Job> jobs;
    for (size_t p = 0; p < all.size();) {
        Job j;
        j.kind = uint8_t(all[p]);
        j.lang = uint8_t(all[p + 1]);
        j.flags = uint8_t(all[p + 2]);
        uint32_t n;
        memcpy(&j.cap, all.data() + p + 3, 4);
        memcpy(&j.textcap, all.data() + p + 7, 4);
        memcpy(&n, all.data() + p + 11, 4);
        j.src = all.substr(p + 15, n);
        p += 15 + n;
        jobs.push_back(std::move(j));
    }
    const long maxf = atol(argv[4]);
    pool::run_all(long(jobs.size()), atoi(argv[3]), argv[2], [&](long i, FILE* f) {
        const Job& j = jobs[size_t(i)];
        pool::set_note(j.src);
        std::unique_ptr<ulight_token[]> buf(new ulight_token[j.cap]);
        std::unique_ptr<char[]> text(new char[j.textcap]);
        ulight_state st;
        Sink sink;
        auto setup = [&] {
            ulight_init(&st);
            st.source = j.src.data();
            st.source_length = j.src.size();
            st.lang = ulight_lang(j.lang);
            st.flags = ulight_flag(j.flags);
        };
        // returns the status, or 100 if an exception escaped
        auto call = [&](int fault, long index) {
            st.token_buffer = buf.get();
            st.token_buffer_length = j.cap;
            st.error = nullptr;
            st.error_length = 0;
            sink = Sink {};
            sink.throw_at = fault >= 3 ? index : -1;
            sink.what = fault;
            st.flush_tokens_data = &sink;
            st.flush_tokens = [](const void* d, ulight_token* t, size_t n) {
                auto& s = *static_cast<Sink*>(const_cast<void*>(d));
                {
                    Pause p;
                    for (size_t k = 0; k < n; ++k) {
                        s.out.insert(s.out.end(), { long(t[k].begin), long(t[k].length), long(t[k].type) });
                    }
                }
                s.hit();
            };
            st.text_buffer = text.get();
            st.text_buffer_length = j.textcap;
            st.flush_text_data = &sink;
            st.flush_text = [](const void* d, char* t, size_t n) {
                auto& s = *static_cast<Sink*>(const_cast<void*>(d));
                {
                    Pause p;
                    for (size_t k = 0; k < n; ++k) {
                        s.out.push_back((unsigned char)t[k]);
                    }
                }
                s.hit();
            };
            allocs = live = 0;
            fault_hit = false;
            fail_at = fault == 1 || fault == 2 ? index : -1;
            fail_on = fault == 2;
            counting = true;
            int r = 100;
            try {
                r = j.kind == 0 ? int(ulight_source_to_tokens(&st)) : int(ulight_source_to_html(&st));
            } catch (...) {
            }
            counting = false;
            fail_at = -1;
            return r;
        };
        auto list = [](const std::vector<long>& v) {
            std::string o = "[";
            for (size_t k = 0; k < v.size(); ++k) {
                o += (k ? "," : "") + std::to_string(v[k]);
            }
            return o + "]";
        };
        setup();
        call(0, 0); // warm up
        setup();
        const int ok = call(0, 0);
        const std::vector<long> base = sink.out;
        const long n = allocs, k = sink.callbacks;
        std::string o = "{\"i\":" + std::to_string(i) + ",\"n\":" + std::to_string(n) + ",\"base\":" + list(base)
            + ",\"calls\":[[0,0," + list(base) + ",0," + std::to_string(ok) + ",0," + std::to_string(live) + ",1]";
        auto fault = [&](int kind, long index) {
            const int r = call(kind, index);
            if (!fault_hit) {
                return;
            }
            const size_t msg = r != 0 && st.error && st.error_length ? st.error_length : 0;
            const auto got = sink.out;
            const long late = sink.late, lv = live;
            // the same state is used once more, without a fault
            const int r2 = call(0, 0);
            const bool again = r2 == ok && sink.out == base;
            o += ",[" + std::to_string(kind) + "," + std::to_string(index) + "," + list(got) + "," + std::to_string(late)
                + "," + std::to_string(r) + "," + std::to_string(msg) + "," + std::to_string(lv) + ","
                + std::to_string(int(again)) + "]";
        };
        for (const int kind : { 1, 2 }) {
            for (long x = 0; x < n; x += n > maxf ? (n + maxf - 1) / maxf : 1) {
                fault(kind, x);
            }
        }
        for (const int kind : { 3, 4, 7 }) {
            for (long x = 0; x < k; x += k > maxf / 2 ? (k + maxf / 2 - 1) / (maxf / 2) : 1) {
                fault(kind, x);
            }
        }
        if (i == 0) {
            // creation of a state
            for (int x = 0; x < 2; ++x) {
                allocs = live = 0;
                fail_at = x == 0 ? 0 : -1;
                fail_on = false;
                counting = true;
                ulight_state* s = nullptr;
                bool threw = false;
                try {
                    s = ulight_new();
                } catch (...) {
                    threw = true;
                }
                counting = false;
                fail_at = -1;
                const bool null = s == nullptr;
                counting = true;
                if (s) {
                    ulight_delete(s);
                }
                ulight_delete(nullptr);
                counting = false;
                o += ",[" + std::to_string(5 + x) + ",0,[],0," + (threw ? "100" : null ? "0" : "1") + ",0," + std::to_string(live) + ",1]";
            }
        }
        fprintf(f, "%s]}\n", o.c_str());
    });
}
