// Bulk driver: runs the public API on very many generated inputs and keeps those runs whose outcome a
// cheap monitor finds suspicious (plus a sample of the others) for validation by TLC.
//   fuzz OUT WORKERS SEED BATCHES PER_BATCH RULES CORPUS_LIST DICT_FILE [LANG...]
// RULES: subset of letters  w(ell-formed) b(uffer size) c(oalescing) p(urity) s(trict) h(tml)
// The note of a crashed worker is: u8 lang, u8 flags, u32 cap, bytes.
#include "names.hpp"
#include "pool.hpp"
#include "ulight/ulight.h"
#include "ulight/ulight.hpp"
#include <algorithm>
#include <cstdint>
#include <fstream>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

using std::string;
using std::vector;

struct T {
    size_t b, l;
    unsigned t;
    bool operator==(const T&) const = default;
};

struct Out {
    vector<T> t;
    bool proto = true; // flush protocol kept
    bool last_partial = false;
    size_t cap = 0;
    const void* buf = nullptr;
    int status = 0;
    bool intact = true; // source and guard elements unmodified
};

static string rules;
static bool rule(char c) { return rules.find(c) != string::npos; }

static void flush_cb(const void* d, ulight_token* t, size_t n)
{
    Out& o = *static_cast<Out*>(const_cast<void*>(d));
    if (t != o.buf || n == 0 || n > o.cap || o.last_partial) {
        o.proto = false;
    }
    if (n < o.cap) {
        o.last_partial = true;
    }
    if (n <= o.cap) {
        for (size_t i = 0; i < n; ++i) {
            o.t.push_back({ t[i].begin, t[i].length, t[i].type });
        }
    }
}

static Out run(const string& s, int lang, int flags, size_t cap, char fill = 0, size_t tail = 0)
{
    string note;
    note += char(lang);
    note += char(flags);
    const auto c32 = uint32_t(cap);
    note.append(reinterpret_cast<const char*>(&c32), 4);
    note += s;
    pool::set_note(note);
    Out o;
    // exact allocation; `tail` bytes of other content may follow the source inside the allocation
    std::unique_ptr<char[]> src(new char[s.size() + tail]);
    memcpy(src.get(), s.data(), s.size());
    memset(src.get() + s.size(), fill, tail);
    std::unique_ptr<ulight_token[]> buf(new ulight_token[cap]);
    memset((void*)buf.get(), (unsigned char)fill, sizeof(ulight_token) * cap);
    ulight_state st;
    ulight_init(&st);
    st.source = src.get();
    st.source_length = s.size();
    st.lang = ulight_lang(lang);
    st.flags = ulight_flag(flags);
    st.token_buffer = buf.get();
    st.token_buffer_length = cap;
    o.cap = cap;
    o.buf = buf.get();
    st.flush_tokens_data = &o;
    st.flush_tokens = flush_cb;
    o.status = ulight_source_to_tokens(&st);
    o.intact = memcmp(src.get(), s.data(), s.size()) == 0;
    return o;
}

struct Text {
    string h;
    bool proto = true;
    bool last_partial = false;
    size_t cap = 0;
    const void* buf = nullptr;
    int status = 0;
};

static Text run_html(const string& s, int lang, int flags, size_t cap, size_t tcap, const Html_Names& nm)
{
    string note;
    note += char(lang);
    note += char(flags | 0x80);
    const auto c32 = uint32_t(tcap);
    note.append(reinterpret_cast<const char*>(&c32), 4);
    note += s;
    pool::set_note(note);
    Text o;
    std::unique_ptr<char[]> src(new char[s.size()]);
    memcpy(src.get(), s.data(), s.size());
    std::unique_ptr<ulight_token[]> buf(new ulight_token[cap]);
    std::unique_ptr<char[]> text(new char[tcap]);
    ulight_state st;
    ulight_init(&st);
    st.source = src.get();
    st.source_length = s.size();
    st.lang = ulight_lang(lang);
    st.flags = ulight_flag(flags);
    st.token_buffer = buf.get();
    st.token_buffer_length = cap;
    st.text_buffer = text.get();
    st.text_buffer_length = tcap;
    st.html_tag_name = nm.tag;
    st.html_tag_name_length = strlen(nm.tag);
    st.html_attr_name = nm.attr;
    st.html_attr_name_length = strlen(nm.attr);
    o.cap = tcap;
    o.buf = text.get();
    st.flush_text_data = &o;
    st.flush_text = [](const void* d, char* t, size_t n) {
        Text& x = *static_cast<Text*>(const_cast<void*>(d));
        if (t != x.buf || n == 0 || n > x.cap || x.last_partial) {
            x.proto = false;
        }
        x.last_partial = n < x.cap;
        if (n <= x.cap) {
            x.h.append(t, n);
        }
    };
    o.status = ulight_source_to_html(&st);
    return o;
}

static string rendered(const string& s, const vector<T>& t, const Html_Names& nm)
{
    string o;
    auto esc = [&](size_t b, size_t e) {
        for (size_t i = b; i < e; ++i) {
            const char c = s[i];
            if (c == '<') {
                o += "&lt;";
            }
            else if (c == '>') {
                o += "&gt;";
            }
            else if (c == '&') {
                o += "&amp;";
            }
            else {
                o += c;
            }
        }
    };
    size_t p = 0;
    for (auto& x : t) {
        if (x.b < p || x.b + x.l > s.size()) {
            return "(bad tokens)";
        }
        esc(p, x.b);
        const auto id = ulight_highlight_type_short_string(ulight_highlight_type(x.t));
        o += string("<") + nm.tag + " " + nm.attr + "=" + string(id.text, id.length) + ">";
        esc(x.b, x.b + x.l);
        o += string("</") + nm.tag + ">";
        p = x.b + x.l;
    }
    esc(p, s.size());
    return o;
}

static bool valid_utf8(const string& s)
{
    size_t i = 0;
    while (i < s.size()) {
        const unsigned char c = s[i];
        const int n = c < 0x80 ? 1 : c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0;
        if (!n || i + n > s.size()) {
            return false;
        }
        for (int k = 1; k < n; k++) {
            if (((unsigned char)s[i + k] & 0xC0) != 0x80) {
                return false;
            }
        }
        const unsigned char d = n > 1 ? s[i + 1] : 0;
        if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90)
            || (c == 0xF4 && d > 0x8F)) {
            return false;
        }
        i += n;
    }
    return true;
}

static vector<T> merged(const vector<T>& t)
{
    vector<T> m;
    for (auto& x : t) {
        if (!m.empty() && m.back().t == x.t && m.back().b + m.back().l == x.b) {
            m.back().l += x.l;
        }
        else {
            m.push_back(x);
        }
    }
    return m;
}

struct Stat {
    long runs = 0, inputs = 0, tokens = 0;
};

static string hex(const string& s)
{
    static const char* hx = "0123456789abcdef";
    string o;
    for (unsigned char c : s) {
        o += hx[c >> 4];
        o += hx[c & 15];
    }
    return o;
}

static FILE* outf;
static long cur_job;
static int reported;

static void suspect(const char* why, int lang, int flags, size_t cap, const string& s)
{
    if (reported++ > 20) {
        return;
    }
    fprintf(
        outf, "{\"i\":%ld,\"why\":\"%s\",\"lang\":%d,\"flags\":%d,\"cap\":%zu,\"src\":\"%s\"}\n", cur_job, why,
        lang, flags, cap, hex(s).c_str()
    );
    fflush(outf);
}

static void check(const string& s, int lang, std::mt19937_64& g, Stat& stat)
{
    ++stat.inputs;
    const bool v = valid_utf8(s);
    const size_t big = s.size() + 2;
    const int f0 = rule('w') ? int(g() % 4) : 0;
    const Out a = run(s, lang, f0, big);
    ++stat.runs;
    stat.tokens += long(a.t.size());
    if (rule('w')) {
        if (a.status != 0) {
            suspect("status", lang, f0, big, s);
            return;
        }
        size_t p = 0;
        for (auto& t : a.t) {
            const bool bad_range = t.l == 0 || t.b < p || t.b + t.l > s.size();
            const bool bad_type
                = t.t == 0 || ulight_highlight_type_short_string(ulight_highlight_type(t.t)).length == 0;
            const bool split = v
                && ((t.b < s.size() && ((unsigned char)s[t.b] & 0xC0) == 0x80)
                    || (t.b + t.l < s.size() && ((unsigned char)s[t.b + t.l] & 0xC0) == 0x80));
            if (bad_range || bad_type || split) {
                suspect(bad_range ? "range" : bad_type ? "type" : "split", lang, f0, big, s);
                return;
            }
            p = t.b + t.l;
        }
    }
    if (rule('b')) {
        const size_t caps[] = { 1, 2, 3, a.t.size(), a.t.size() + 1, 1 + g() % (a.t.size() + 2) };
        const int f = int(g() % 4);
        const Out ref = f ? run(s, lang, f, big) : a;
        for (const size_t cap : caps) {
            if (cap == 0) {
                continue;
            }
            const Out b = run(s, lang, f, cap);
            ++stat.runs;
            if (b.t != ref.t || b.status != ref.status || !b.proto) {
                suspect("buffer", lang, f, cap, s);
                break;
            }
        }
    }
    if (rule('c')) {
        const Out b = run(s, lang, 1, big);
        const Out c = run(s, lang, 1, 1 + g() % 4);
        stat.runs += 2;
        if (merged(a.t) != b.t || b.status != a.status) {
            suspect("coalesce", lang, 1, big, s);
        }
        else if (c.t != b.t || c.status != a.status || !c.proto) {
            suspect("coalesce_small", lang, 1, c.cap, s);
        }
    }
    if (rule('h')) {
        const int f = int(g() % 4);
        const size_t cap = g() % 3 ? big : 1 + g() % 4;
        const Out ref = run(s, lang, f, cap);
        const Html_Names& nm = html_names[g() % (sizeof(html_names) / sizeof(html_names[0]))];
        const string want = rendered(s, ref.t, nm);
        const size_t tcaps[] = { 1, 1 + g() % 8, 1 + g() % 64, 4096, want.size() ? want.size() : 1 };
        for (const size_t tc : tcaps) {
            const Text h = run_html(s, lang, f, cap, tc, nm);
            ++stat.runs;
            if (h.h != want || h.status != 0 || !h.proto) {
                suspect("html", lang, f, cap, s);
                break;
            }
        }
    }
    if (rule('p')) {
        // other content behind the source, other previous content of the buffers, repeated
        static const char fills[] = "\0\xff aA0_\"'`/*\n<>&;:-=({[)}]#@!\\$\xa9\x80";
        for (int k = 0; k < 4; ++k) {
            const char fill = fills[g() % (sizeof(fills) - 1)];
            const size_t tail = 1 + g() % 16;
            const Out b = run(s, lang, 0, big, fill, tail);
            ++stat.runs;
            if (b.t != a.t || b.status != a.status || !b.intact) {
                suspect("pure", lang, 0, (unsigned char)(fill) * 256 + tail, s);
                break;
            }
        }
    }
    if (rule('s')) {
        const Out b = run(s, lang, 2, big);
        ++stat.runs;
        const bool neutral = lang != ULIGHT_LANG_C && lang != ULIGHT_LANG_CPP && lang != ULIGHT_LANG_JSON;
        if (b.status != a.status || (neutral && b.t != a.t)) {
            suspect("strict", lang, 2, big, s);
        }
    }
    if (!a.intact) {
        suspect("modified", lang, f0, big, s);
    }
    if (g() % 1009 == 0 && s.size() < 200) {
        fprintf(
            outf, "{\"i\":%ld,\"why\":\"sample\",\"lang\":%d,\"flags\":%d,\"cap\":%zu,\"src\":\"%s\"}\n", cur_job,
            lang, f0, 1 + g() % 5, hex(s).c_str()
        );
    }
}

int main(int argc, char** argv)
{
    if (argc < 9) {
        return 2;
    }
    const string out = argv[1];
    const int workers = atoi(argv[2]);
    const uint64_t seed = strtoull(argv[3], nullptr, 10);
    const long batches = atol(argv[4]);
    const long per = atol(argv[5]);
    rules = argv[6];
    // corpus list: "<lang> <path>" per line; dictionary: "<lang or 0> <hex>" per line
    vector<vector<string>> corpus(26), dict(26);
    {
        std::ifstream f(argv[7]);
        int l;
        string p;
        while (f >> l >> p) {
            std::ifstream i(p, std::ios::binary);
            string s((std::istreambuf_iterator<char>(i)), {});
            if (!s.empty()) {
                corpus[size_t(l)].push_back(s);
            }
        }
    }
    {
        std::ifstream f(argv[8]);
        int l;
        string h;
        while (f >> l >> h) {
            string s;
            for (size_t i = 0; i + 1 < h.size(); i += 2) {
                s += char(std::stoi(h.substr(i, 2), nullptr, 16));
            }
            if (l == 0) {
                for (int k = 1; k < 26; ++k) {
                    dict[size_t(k)].push_back(s);
                }
            }
            else {
                dict[size_t(l)].push_back(s);
            }
        }
    }
    vector<int> langs;
    for (int i = 9; i < argc; ++i) {
        langs.push_back(atoi(argv[i]));
    }
    if (langs.empty()) {
        for (int l = 1; l < 26; ++l) {
            langs.push_back(l);
        }
    }
    const string special = "\n\r\t \"'`/*\\<>&#-=({[)}]$@!|:;,._0x1eaZ";
    // jobs: batch-major, so that workers get a mix of languages
    const long n = batches * long(langs.size());
    pool::hang_seconds = 60;
    pool::run_all(n, workers, out, [&](long job, FILE* f) {
        outf = f;
        cur_job = job;
        reported = 0;
        const int lang = langs[size_t(job % long(langs.size()))];
        const long batch = job / long(langs.size());
        std::mt19937_64 g(seed * 1000003 + uint64_t(job));
        Stat stat;
        auto& C = corpus[size_t(lang)];
        auto& D = dict[size_t(lang)];
        auto tok = [&]() -> string {
            if (!D.empty() && g() % 8) {
                return D[g() % D.size()];
            }
            return string(1, special[g() % special.size()]);
        };
        auto mutate = [&](string s) {
            int k = 1 + int(g() % 4);
            while (k--) {
                if (s.empty()) {
                    s = "x";
                }
                switch (g() % 7) {
                case 0: s.erase(g() % s.size(), 1 + g() % 8); break;
                case 1: s.insert(g() % (s.size() + 1), tok()); break;
                case 2: s[g() % s.size()] = char(g()); break;
                case 3: s = s.substr(0, g() % (s.size() + 1)); break;
                case 4: s = s.substr(g() % s.size()); break;
                case 5: {
                    auto& o = C[g() % C.size()];
                    s.insert(g() % (s.size() + 1), o.substr(g() % o.size(), g() % 30));
                    break;
                }
                case 6: {
                    const size_t p = g() % s.size();
                    s.insert(p, s.substr(p, 1 + g() % 6));
                    break;
                }
                }
            }
            return s;
        };
        for (long i = 0; i < per; ++i) {
            string s;
            const long idx = batch * per + i;
            const unsigned m = g() % 8;
            if (batch == 0 && i < long(C.size())) {
                s = C[size_t(i)];
            }
            else if (i % 4 == 0 && idx / 4 < long(256 + special.size() * special.size())) {
                // all single bytes and all pairs of special characters
                const long k = idx / 4;
                if (k < 256) {
                    s = string(1, char(k));
                }
                else {
                    s += special[size_t(k - 256) / special.size()];
                    s += special[size_t(k - 256) % special.size()];
                }
            }
            else if (m < 3) {
                // sequences of lexemes of the language
                int k = 1 + int(g() % 10);
                while (k--) {
                    s += tok();
                }
            }
            else if (m < 5 && !C.empty()) {
                auto& o = C[g() % C.size()];
                const size_t p = g() % o.size();
                s = mutate(o.substr(p, g() % 120));
            }
            else if (m == 5 && !C.empty()) {
                // truncations of a file around one place
                auto& o = C[g() % C.size()];
                const size_t p = g() % o.size();
                s = o.substr(p > 200 ? p - 200 : 0, std::min<size_t>(p, 200));
            }
            else if (m == 6) {
                int k = 1 + int(g() % 6);
                while (k--) {
                    s += special[g() % special.size()];
                }
            }
            else {
                int k = 1 + int(g() % 8);
                while (k--) {
                    s += char(g() % 3 ? g() % 128 : g());
                }
            }
            check(s, lang, g, stat);
        }
        fprintf(
            f, "{\"i\":%ld,\"stat\":[%ld,%ld,%ld],\"lang\":%d}\n", job, stat.inputs, stat.runs, stat.tokens, lang
        );
    });
    return 0;
}
