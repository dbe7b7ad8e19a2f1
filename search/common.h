// Shared part of the concrete replay/search drivers: they run the real /repo code against reference oracles.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <type_traits>
#include <chrono>
#include <functional>
#include <climits>
#include <unistd.h>
#include "coil/Coil.h"

extern "C" void __sanitizer_set_death_callback(void (*)());

namespace drv
{
inline uint64_t rngState = 88172645463325252ull;
inline uint64_t rnd64()
{
    rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17;
    return rngState * 2685821657736338717ull;
}
inline size_t rnd(size_t n) { return n ? (rnd64() >> 11) % n : 0; }
inline bool coin(int n = 2) { return rnd(n) == 0; }

inline char caseBuf[1 << 16];
inline size_t caseLen = 0;
inline unsigned long long cases = 0;
inline bool done = false;

inline std::string esc(std::string const& s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c >= 32 && c < 127) r += char(c);
        else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
inline unsigned long long distinct = 0;
inline unsigned char seenBits[1 << 20];
inline char samples[3][201];
inline void closeCase()
{
    if (!caseLen) return;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < caseLen; i++) h = (h ^ (unsigned char)caseBuf[i]) * 1099511628211ull;
    h ^= h >> 29; size_t bit = h & ((size_t(1) << 23) - 1);
    if (caseLen > 12 && !(seenBits[bit >> 3] & (1 << (bit & 7)))) { seenBits[bit >> 3] |= (unsigned char)(1 << (bit & 7)); distinct++; }
    if (cases == 3 || cases == 50 || cases == 700) { char* d = samples[cases == 3 ? 0 : cases == 50 ? 1 : 2]; size_t k = 0; for (; k < 200 && k < caseLen; k++) d[k] = caseBuf[k] ? caseBuf[k] : '0'; d[k] = 0; }
    caseLen = 0;
}
inline void setCase(std::string const& s)
{
    closeCase();
    caseLen = s.size() < sizeof caseBuf ? s.size() : sizeof caseBuf - 1;
    memcpy(caseBuf, s.data(), caseLen);
    cases++;
}
inline void addCase(std::string const& s)
{
    size_t n = s.size();
    if (caseLen + n >= sizeof caseBuf) { size_t k = caseLen / 2; memmove(caseBuf, caseBuf + k, caseLen - k); caseLen -= k; }
    if (caseLen + n < sizeof caseBuf) { memcpy(caseBuf + caseLen, s.data(), n); caseLen += n; }
}
inline void report(char const* what)
{
    if (done) return;
    done = true;
    (void)!write(1, "FAIL: ", 6);
    (void)!write(1, what, strlen(what));
    (void)!write(1, "\nCASE: ", 7);
    (void)!write(1, caseBuf, caseLen);
    (void)!write(1, "\n", 1);
}
inline void onDeath() { report("memory or undefined-behaviour error (see sanitizer output)"); }
inline void onAbort(int) { report("internal check (assert), abort or fatal signal"); _exit(1); }
[[noreturn]] inline void fail(std::string const& msg)
{
    report(msg.c_str());
    fflush(stdout);
    _exit(1);
}
inline void check(bool c, std::string const& msg) { if (!c) fail(msg); }
template<typename A, typename B>
inline void same(A const& a, B const& b, std::string const& msg) { if (!(a == b)) fail(msg); }
inline void sameText(std::string const& got, std::string const& want, std::string const& msg)
{
    if (got != want) fail(msg + ": got " + esc(got) + ", expected " + esc(want));
}

// ---- allocation accounting
inline long live = 0;
inline long long allocs = 0;
struct Hdr { size_t magic; size_t pad; };
inline void* alloc(size_t n, size_t magic)
{
    if (n > (size_t(1) << 40)) throw std::bad_alloc();
    Hdr* h = static_cast<Hdr*>(malloc(n + sizeof(Hdr)));
    if (!h) throw std::bad_alloc();
    h->magic = magic; live++; allocs++;
    return h + 1;
}
inline void release(void* p, size_t magic)
{
    if (!p) return;
    Hdr* h = static_cast<Hdr*>(p) - 1;
    if (h->magic != magic) fail("released memory with the wrong operator, or released it twice");
    h->magic = 0; live--;
    free(h);
}

inline std::string S(coil::StringView v) { return std::string(v.data(), v.length()); }
inline std::string S(coil::String const& v) { return v.length() ? std::string(v.cStr(), v.length()) : std::string(); }

// text placed in a block of exactly its size (no terminator): any read outside is caught
struct Exact
{
    char* p; size_t n;
    explicit Exact(std::string const& s) : p(static_cast<char*>(malloc(s.size() ? s.size() : 1))), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { free(p); }
    Exact(Exact const&) = delete;
    coil::StringView view() const { return coil::StringView{p, n}; }
};

inline std::string randText(std::string const& alphabet, size_t maxLen)
{
    std::string s(rnd(maxLen + 1), 'x');
    for (char& c : s) c = alphabet[rnd(alphabet.size())];
    return s;
}
inline std::string randBytes(size_t maxLen)
{
    std::string s(rnd(maxLen + 1), 'x');
    for (char& c : s) c = coin(3) ? char(rnd(256)) : char("abc019 -+\0\xff\x80"[rnd(12)]);
    return s;
}
inline bool thorough = false;
struct Clock
{
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double s;
    explicit Clock(double sec) : s(sec) {}
    bool left() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < s; }
};
inline double budget = 5;

// reference text form of printf-style formatting
inline std::string fmt(char const* f, ...)
{
    va_list a; va_start(a, f); va_list b; va_copy(b, a);
    int n = vsnprintf(nullptr, 0, f, a); va_end(a);
    std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, b); va_end(b); s.resize(n);
    return s;
}
inline std::string cut0(std::string const& s) { return s.substr(0, s.find('\0')); }

// value with pieces stored in the given backing store
inline coil::Value mkValue(std::vector<std::string> const& pieces)
{
    coil::Vector<coil::StringView> v;
    for (auto& p : pieces) v.pushBack(coil::StringView{p.data(), p.size()});
    return coil::Value{coil::move(v)};
}
inline std::string joined(std::vector<std::string> const& pieces)
{
    std::string r;
    for (size_t i = 0; i < pieces.size(); i++) { if (i) r += ' '; r += pieces[i]; }
    return r;
}
inline std::string genericError(std::string const& type, std::vector<std::string> const& pieces, std::string const& details = "")
{
    std::string r = "Unable to convert '" + cut0(joined(pieces)) + "' to type '" + type + "'";
    if (!details.empty()) r += ": " + cut0(details);
    return r;
}
inline std::string countError(std::string const& type, std::vector<std::string> const& pieces, size_t want = 1)
{
    return genericError(type, pieces, fmt("Expected %zu subvalues, got %zu", want, pieces.size()));
}
inline std::string show(std::vector<std::string> const& v)
{
    std::string r = "[";
    for (auto& x : v) r += esc(x) + " ";
    return r + "]";
}
}
using namespace drv;

#ifndef DRV_NO_NEW
void* operator new(size_t n) { return drv::alloc(n, 0xA110C001); }
void* operator new[](size_t n) { return drv::alloc(n, 0xA110C002); }
void operator delete(void* p) noexcept { drv::release(p, 0xA110C001); }
void operator delete[](void* p) noexcept { drv::release(p, 0xA110C002); }
void operator delete(void* p, size_t) noexcept { drv::release(p, 0xA110C001); }
void operator delete[](void* p, size_t) noexcept { drv::release(p, 0xA110C002); }
#endif

void run();
int main(int argc, char** argv)
{
    uint64_t seed = 1;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], nullptr, 10);
        if (!strcmp(argv[i], "--time")) budget = atof(argv[i + 1]);
        if (!strcmp(argv[i], "--thorough")) thorough = atoi(argv[i + 1]);
    }
    rngState ^= seed * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 10; i++) rnd64();
    __sanitizer_set_death_callback(onDeath);
    signal(SIGABRT, onAbort);
    signal(SIGALRM, onAbort);
    alarm(unsigned(budget * 3 + 60)); // an input on which the code does not terminate
    run();
    done = true;
    closeCase();
    for (auto& x : samples) if (x[0]) printf("SAMPLE %s\n", esc(x).c_str());
    printf("OK cases=%llu distinct=%llu\n", cases, distinct);
    return 0;
}
