// The C and C++ runtime of the WebAssembly build of the library used by C31: what Emscripten would provide.
// Allocation is decided by the embedder, so that a harness can fail it or make the memory grow.
#include <cstddef>
#include <cstdint>
#include <new>
#include "ulight/ulight.h"

extern "C" {
// How the next allocation goes: -1 fails, otherwise the number of pages by which memory grows first.
__attribute__((import_module("env"), import_name("vp_plan"))) int vp_plan(size_t size, size_t align);
__attribute__((import_module("env"), import_name("vp_freed"))) void vp_freed(void* p, size_t size, size_t align, int kind);
__attribute__((import_module("env"), import_name("emscripten_notify_memory_growth"))) void
emscripten_notify_memory_growth(int);
extern unsigned char __heap_base;
void __wasm_call_ctors();

__attribute__((export_name("_initialize"))) void _initialize()
{
    __wasm_call_ctors();
}

// The fields of a state as the C declaration lays them out.
__attribute__((export_name("vp_get"))) size_t vp_get(const ulight_state* s, int i)
{
    switch (i) {
    case 0: return size_t(s->source);
    case 1: return s->source_length;
    case 2: return size_t(s->lang);
    case 3: return size_t(s->flags);
    case 4: return size_t(s->token_buffer);
    case 5: return s->token_buffer_length;
    case 6: return size_t(s->html_tag_name);
    case 7: return s->html_tag_name_length;
    case 8: return size_t(s->html_attr_name);
    case 9: return s->html_attr_name_length;
    case 10: return size_t(s->text_buffer);
    case 11: return s->text_buffer_length;
    case 12: return size_t(s->error);
    case 13: return s->error_length;
    case 14: return sizeof(ulight_token);
    case 15: return alignof(ulight_token);
    case 16: return sizeof(ulight_state);
    default: return 0;
    }
}
__attribute__((export_name("vp_set"))) void vp_set(ulight_state* s, size_t tokens, size_t text)
{
    s->token_buffer_length = tokens;
    s->text_buffer_length = text;
}

static uintptr_t top;

__attribute__((export_name("vp_grow"))) int vp_grow(int pages)
{
    const int r = int(__builtin_wasm_memory_grow(0, size_t(pages)));
    if (r >= 0) {
        emscripten_notify_memory_growth(0);
    }
    return r;
}

// Memory is never reused within an instance: every address names one allocation.
static void* get(size_t size, size_t align)
{
    const int plan = vp_plan(size, align);
    if (plan < 0) {
        return nullptr;
    }
    if (plan > 0) {
        vp_grow(plan);
    }
    if (!top) {
        top = uintptr_t(&__heap_base);
    }
    const uintptr_t a = align < 16 ? 16 : align;
    const uintptr_t p = ((top + 16 + a - 1) / a) * a;
    const uintptr_t end = p + (size ? size : 1) + 16;
    const uintptr_t have = uintptr_t(__builtin_wasm_memory_size(0)) * 65536;
    if (end > have && vp_grow(int((end - have + 65535) / 65536)) < 0) {
        return nullptr;
    }
    top = end;
    return reinterpret_cast<void*>(p);
}

void* memcpy(void* d, const void* s, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        static_cast<volatile unsigned char*>(d)[i] = static_cast<const unsigned char*>(s)[i];
    }
    return d;
}
void* memmove(void* d, const void* s, size_t n)
{
    auto* const a = static_cast<volatile unsigned char*>(d);
    auto* const b = static_cast<const unsigned char*>(s);
    if (uintptr_t(d) <= uintptr_t(s)) {
        for (size_t i = 0; i < n; ++i) {
            a[i] = b[i];
        }
    }
    else {
        while (n--) {
            a[n] = b[n];
        }
    }
    return d;
}
void* memset(void* d, int c, size_t n)
{
    for (size_t i = 0; i < n; ++i) {
        static_cast<volatile unsigned char*>(d)[i] = static_cast<unsigned char>(c);
    }
    return d;
}
int memcmp(const void* x, const void* y, size_t n)
{
    auto* const a = static_cast<const volatile unsigned char*>(x);
    auto* const b = static_cast<const volatile unsigned char*>(y);
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) {
            return a[i] < b[i] ? -1 : 1;
        }
    }
    return 0;
}
void* memchr(const void* x, int c, size_t n)
{
    auto* const a = static_cast<const volatile unsigned char*>(x);
    for (size_t i = 0; i < n; ++i) {
        if (a[i] == static_cast<unsigned char>(c)) {
            return const_cast<unsigned char*>(static_cast<const unsigned char*>(x) + i);
        }
    }
    return nullptr;
}
size_t strlen(const char* s)
{
    size_t n = 0;
    while (static_cast<const volatile char*>(s)[n]) {
        ++n;
    }
    return n;
}
double strtod(const char*, char**)
{
    return 0; // the highlighters do not use the values of numbers
}
void exit(int)
{
    __builtin_trap();
}
void abort()
{
    __builtin_trap();
}
void __cxa_pure_virtual()
{
    __builtin_trap();
}
int __cxa_atexit(void (*)(void*), void*, void*)
{
    return 0;
}
void* __dynamic_cast(const void*, const void*, const void*, ptrdiff_t)
{
    __builtin_trap();
}
struct I128 {
    unsigned long long lo, hi;
};
void __multi3(I128* r, unsigned long long a, unsigned long long ah, unsigned long long b, unsigned long long bh)
{
    const unsigned long long a0 = a & 0xffffffffu, a1 = a >> 32, b0 = b & 0xffffffffu, b1 = b >> 32;
    const unsigned long long p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
    const unsigned long long mid = (p00 >> 32) + (p01 & 0xffffffffu) + (p10 & 0xffffffffu);
    r->lo = (mid << 32) | (p00 & 0xffffffffu);
    r->hi = p11 + (p01 >> 32) + (p10 >> 32) + (mid >> 32) + a * bh + ah * b;
}
// the tables of the classes that describe types: their identity is enough
extern "C" void* const _ZTVN10__cxxabiv117__class_type_infoE[8] = {};
extern "C" void* const _ZTVN10__cxxabiv120__si_class_type_infoE[8] = {};
extern "C" void* const _ZTVN10__cxxabiv121__vmi_class_type_infoE[8] = {};
extern "C" void* const _ZTINSt3pmr15memory_resourceE[2] = {};
void* _ZNSt3pmr15memory_resourceD2Ev(void* p)
{
    return p;
}
void _ZSt19__throw_logic_errorPKc(const char*)
{
    __builtin_trap();
}
void _ZSt20__throw_length_errorPKc(const char*)
{
    __builtin_trap();
}
void _ZSt24__throw_out_of_range_fmtPKcz(const char*, ...)
{
    __builtin_trap();
}
void _ZSt17__throw_bad_allocv()
{
    __builtin_trap();
}
}

const std::nothrow_t std::nothrow {};

void* operator new(size_t n)
{
    void* const p = get(n, 16);
    if (!p) {
        __builtin_trap();
    }
    return p;
}
void* operator new(size_t n, std::align_val_t a)
{
    void* const p = get(n, size_t(a));
    if (!p) {
        __builtin_trap();
    }
    return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return get(n, 16);
}
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    return get(n, size_t(a));
}
void operator delete(void* p) noexcept
{
    vp_freed(p, 0, 0, 1);
}
void operator delete(void* p, size_t n) noexcept
{
    vp_freed(p, n, 16, 0);
}
void operator delete(void* p, std::align_val_t a) noexcept
{
    vp_freed(p, 0, size_t(a), 1);
}
void operator delete(void* p, size_t n, std::align_val_t a) noexcept
{
    vp_freed(p, n, size_t(a), 0);
}
