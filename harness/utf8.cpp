// UTF-8 decoding and encoding.
//   utf8 OUT WORKERS INPUTS SUSPICIOUS BITS    INPUTS: u32 length + bytes, repeated
// Records every input, all lead bytes and the encoding of all scalar values (blocks of 64; every block in
// which a boundary lies or which the monitor suspects, others sampled). The monitor also runs all four-byte
// sequences whose lead byte is not ASCII with a stride of 2^BITS in the last byte; suspicious ones are recorded.
#include "pool.hpp"
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"
#include <fstream>
#include <memory>
#include <string>
#include <vector>
using namespace ulight;
using sv8 = std::u8string_view;

static std::string list(const std::vector<long>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        o += (i ? "," : "") + std::to_string(v[i]);
    }
    return o + "]";
}
static long code(const std::expected<utf8::Code_Point_And_Length, utf8::Error_Code>& e)
{
    return e ? 0 : 1 + long(e.error());
}
static long pos(size_t p) { return p == size_t(-1) ? -1 : long(p); }

template <class P>
static std::string find(sv8 s, P p)
{
    return list({ pos(utf8::find_if(s, p)), pos(utf8::find_if_not(s, p)), long(utf8::length_if(s, p)),
                  long(utf8::length_if_not(s, p)), utf8::all_of(s, p), utf8::any_of(s, p), utf8::none_of(s, p),
                  utf8::any_not_of(s, p) });
}

static void record(const std::string& str, FILE* f)
{
    // an allocation of exactly the size of the string
    std::unique_ptr<char8_t[]> b(new char8_t[str.size()]);
    memcpy(b.get(), str.data(), str.size());
    const sv8 s { b.get(), str.size() };
    std::vector<long> bytes;
    for (char8_t c : s) {
        bytes.push_back(c);
    }
    const auto d = utf8::decode_and_length(s);
    const auto r = utf8::decode_and_length_or_replacement(s);
    int same = 1;
    const auto dd = utf8::decode(s);
    same &= dd.has_value() == d.has_value() && (!d || *dd == d->code_point) && (d || dd.error() == d.error());
    same &= utf8::decode_or_replacement(s) == r.code_point;
    try {
        const auto t = utf8::decode_and_length_or_throw(s);
        same &= d && t.code_point == d->code_point && t.length == d->length;
    } catch (const utf8::Unicode_Error& e) {
        same &= !d && e.get_error() == d.error();
    }
    if (!s.empty() && utf8::sequence_length(s[0]) != 0 && s.size() >= size_t(utf8::sequence_length(s[0]))) {
        const int n = utf8::sequence_length(s[0]);
        for (int pad = 0; pad < 2; ++pad) {
            auto a = utf8::first_n_padded<4>(s);
            for (int i = n; i < 4; ++i) {
                a[size_t(i)] = pad ? char8_t(0xBF) : char8_t(0);
            }
            const auto q = utf8::decode(a, n);
            same &= utf8::is_valid(a, n) == d.has_value() && q.has_value() == d.has_value()
                && (!d || *q == d->code_point) && (d || q.error() == d.error());
            const auto rr = utf8::decode_and_length_or_replacement(a);
            same &= rr.code_point == r.code_point && rr.length == r.length;
            same &= utf8::decode_or_replacement(a) == r.code_point && utf8::decode_or_replacement(a, n) == r.code_point;
            if (d) {
                same &= utf8::decode_unchecked(a, n) == d->code_point;
            }
        }
        if (d) {
            const auto u = utf8::decode_and_length_unchecked(s.data());
            same &= u.code_point == d->code_point && u.length == d->length
                && utf8::decode_unchecked(s.data()) == d->code_point;
        }
    }
    const auto v = utf8::is_valid(s);
    std::vector<long> pts, at, it;
    for (size_t i = 0; i < s.size();) {
        const auto x = utf8::decode_and_length_or_replacement(s.substr(i));
        pts.push_back(x.code_point);
        at.push_back(long(i));
        if (x.length <= 0) {
            break;
        }
        i += size_t(x.length);
    }
    utf8::Code_Point_View view { s };
    try {
        for (auto i = view.begin(); i != view.end(); ++i) {
            const auto n = i.next();
            if (!n) {
                it.push_back(-code(n));
                break;
            }
            same &= *i == n->code_point;
            it.push_back(n->code_point);
        }
    } catch (const utf8::Unicode_Error&) {
        it.push_back(-9);
    }
    const auto one = list({ code(d), d ? long(d->code_point) : 0, d ? long(d->length) : 0, long(r.code_point), long(r.length) });
    fprintf(
        f, "{\"k\":\"s\",\"s\":%s,\"one\":%s,\"v\":%ld,\"pts\":%s,\"at\":%s,\"it\":%s,\"find\":[%s,%s,%s,%s],\"count\":%ld,\"same\":%d}\n",
        list(bytes).c_str(), one.c_str(), v ? 0L : 1 + long(v.error()), list(pts).c_str(), list(at).c_str(),
        list(it).c_str(), find(s, [](char32_t c) { return c == 0xFFFD; }).c_str(),
        find(s, [](char32_t c) { return c == U'A'; }).c_str(), find(s, [](char32_t c) { return c >= 128; }).c_str(),
        find(s, [](char32_t c) { return c % 2 == 0; }).c_str(), v ? long(utf8::code_points_unchecked(s)) : -1L, same
    );
}

// The monitor's own idea of a four-byte buffer.
static bool monitor(const unsigned char* p)
{
    const char32_t lead = p[0];
    const int n = lead < 0x80 ? 1 : lead < 0xC2 ? 0 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : lead < 0xF5 ? 4 : 0;
    char32_t want = 0xFFFD;
    int len = 1;
    if (n == 1) {
        want = lead;
    }
    else if (n) {
        char32_t c = lead & (0x7Fu >> n);
        int i = 1;
        for (; i < n && (p[i] & 0xC0) == 0x80; ++i) {
            c = c << 6 | (p[i] & 0x3F);
            if (i == 1) {
                // lowest and highest continuation of two bytes
                const char32_t shifted = c << 6 * (n - 2);
                const char32_t top = shifted | ((1u << 6 * (n - 2)) - 1);
                const char32_t low = n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000;
                if (top < low || shifted > 0x10FFFF || (shifted >= 0xD800 && top <= 0xDFFF)) {
                    break;
                }
            }
        }
        len = i;
        if (i == n) {
            want = c;
        }
    }
    const std::array<char8_t, 4> a { p[0], p[1], p[2], p[3] };
    const auto r = utf8::decode_and_length_or_replacement(a);
    const sv8 s { a.data(), 4 };
    const auto q = utf8::decode_and_length_or_replacement(s);
    const auto d = utf8::decode_and_length(s);
    const bool ok = n && len == n;
    return r.code_point == want && r.length == len && q.code_point == want && q.length == len && d.has_value() == ok
        && (!ok || (d->code_point == want && d->length == len));
}

int main(int, char** argv)
{
    std::ifstream in(argv[3], std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(in)), {});
    std::vector<std::string> inputs;
    for (size_t p = 0; p < all.size();) {
        uint32_t n;
        memcpy(&n, all.data() + p, 4);
        inputs.push_back(all.substr(p + 4, n));
        p += 4 + n;
    }
    const long nl = long(inputs.size());
    const int bits = atoi(argv[4]);
    const int every = atoi(argv[5]);
    const long blocks = 0x110000 / 64;
    pool::hang_seconds = 300;
    // jobs: inputs; 256 lead bytes; blocks of code points; 256 * 16 prefixes of four-byte sequences
    pool::run_all(nl + 256 + blocks + 256 * 16, atoi(argv[2]), argv[1], [&](long i, FILE* f) {
        if (i < nl) {
            pool::set_note(inputs[size_t(i)]);
            record(inputs[size_t(i)], f);
            return;
        }
        i -= nl;
        if (i < 256) {
            const auto c = char8_t(i);
            fprintf(
                f, "{\"k\":\"b\",\"b\":%ld,\"l\":%d,\"u\":%d,\"lf\":%d,\"uf\":%d}\n", i, utf8::sequence_length(c),
                utf8::unchecked_sequence_length(c), utf8::sequence_length(c, 7), utf8::unchecked_sequence_length(c, 7)
            );
            return;
        }
        i -= 256;
        if (i < blocks) {
            if (i * 64 >= 0xD800 && i * 64 <= 0xDFFF) {
                return;
            }
            bool odd = (i % every) == 0 || i <= 40 || (i >= 0xD7C0 / 64 && i <= 0xE040 / 64) || i >= 0xFFC0 / 64 && i <= 0x10040 / 64
                || i >= 0x10FF80 / 64;
            std::string o = "{\"k\":\"c\",\"c\":" + std::to_string(i * 64) + ",\"b\":[";
            for (long c = i * 64; c < i * 64 + 64; ++c) {
                const auto e = utf8::encode8_unchecked(char32_t(c));
                const int want = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
                odd |= e.length != want || e.as_string().size() != size_t(want) || e.end() - e.begin() != want;
                std::vector<long> v;
                for (int k = 0; k < e.length && k < 4; ++k) {
                    v.push_back(e.code_units[size_t(k)]);
                    const int shift = 6 * (want - 1 - k);
                    const long bits = want == 1 ? c : k == 0 ? ((0xF00 >> want) & 0xFF) | (c >> shift) : 0x80 | ((c >> shift) & 0x3F);
                    odd |= v.back() != bits;
                }
                o += (c % 64 ? "," : "") + list(v);
            }
            if (odd) {
                fprintf(f, "%s]}\n", o.c_str());
            }
            return;
        }
        i -= blocks;
        // four-byte sequences: lead byte i/16, high half of the second byte i%16
        const int lead = int(i / 16);
        if (lead < 0xC0 && lead != 0x41 && lead != 0x80 && lead != 0xBF) {
            return;
        }
        long n = 0, bad = 0;
        for (int b1 = int(i % 16) * 16; b1 < int(i % 16) * 16 + 16; ++b1) {
            for (int b2 = 0; b2 < 256; ++b2) {
                for (int b3 = (lead * 7 + b1 * 3 + b2) % (1 << bits); b3 < 256; b3 += 1 << bits) {
                    const unsigned char p[4] = { (unsigned char)lead, (unsigned char)b1, (unsigned char)b2, (unsigned char)b3 };
                    ++n;
                    if (!monitor(p) && ++bad <= 2) {
                        const std::string s((const char*)p, 4);
                        pool::set_note(s);
                        record(s, f);
                    }
                }
            }
        }
        fprintf(f, "{\"k\":\"n\",\"n\":%ld,\"bad\":%ld}\n", n, bad);
    });
}
