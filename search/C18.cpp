#include "common.h"
#include "coil/detail/StringConv.h"
#include "coil/detail/Utils.h"
#include <limits>
static std::string dec(__int128 v) { if (v < 0) return "-" + dec(-v); std::string r; do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return r; }
template<typename T> static void rt(T v, char const* name)
{
    setCase(fmt("%s %s", name, dec(v).c_str()));
    std::string t = S(coil::TypeSerializer<T>::toString(v)); sameText(t, dec(v), "text form");
    sameText(S(coil::toString(v)), dec(v), "toString");
    T back = T(~v); Exact e(t); check(coil::fromString(e.view(), back) && back == v, "reading the text back");
    auto r = coil::TypeSerializer<T>::fromString(coil::Value{e.view()}); check(r && *r == v, "reading the text back as an argument");
    if constexpr (!std::is_same_v<T, char>) { T const* p = &v; sameText(S(coil::TypeSerializer<T const*>::toString(p)), dec(v), "pointer"); }
}
static void ints(unsigned long long b)
{
    rt<short>(short(b), "short"); rt<unsigned short>((unsigned short)b, "unsigned short"); rt<int>(int(b), "int"); rt<unsigned>(unsigned(b), "unsigned"); rt<long>(long(b), "long"); rt<unsigned long>(b, "unsigned long"); rt<long long>((long long)b, "long long"); rt<unsigned long long>(b, "unsigned long long");
    rt<char>(char(b), "char"); rt<signed char>((signed char)b, "signed char"); rt<unsigned char>((unsigned char)b, "unsigned char");
}
template<typename T> static void fl(T v, char const* f, char const* name)
{
    setCase(fmt("%s %.21Lg", name, (long double)v)); bool tiny = v > T(-1e-6L) && v < T(1e-6L); (void)tiny;
    std::string want = (v > -1e-6 && v < 1e-6) ? "0" : fmt(f, v);
    sameText(S(coil::toString(v)), want, "text form"); sameText(S(coil::TypeSerializer<T>::toString(v)), want, "text form");
}
static void floats(double d)
{
    fl<double>(d, "%g", "double"); fl<float>(float(d), "%g", "float"); fl<long double>(d, "%Lg", "long double");
}
static void formats()
{
    std::string z = cut0(coin(8) ? randBytes(5000) : randBytes(30)); int n = int(rnd64() >> rnd(40)); size_t u = rnd64() >> rnd(63);
    setCase("format with text " + esc(z.substr(0, 200)) + fmt(" and number %d", n));
    auto S2 = [](coil::String const& s) { check(s.cStr()[s.length()] == 0, "formatted text not terminated"); return S(s); };
    sameText(S2(coil::sprintf("%s", z.c_str())), z, "%s"); sameText(S2(coil::sprintf("a%db%zu%%", n, u)), fmt("a%db%zu%%", n, u), "numbers");
    sameText(S2(coil::sprintf("%.*s|%c|%5s", int(z.size() / 2), z.data(), n & 127, z.c_str())), fmt("%.*s|%c|%5s", int(z.size() / 2), z.data(), n & 127, z.c_str()), "mixed");
    sameText(S2(coil::sprintf("%*d", n % 2000, 5)), fmt("%*d", n % 2000, 5), "width"); sameText(S2(coil::sprintf("%g %x", double(n) / 3, unsigned(n))), fmt("%g %x", double(n) / 3, unsigned(n)), "g x");
}
void run()
{
    Clock c(budget);
    for (int b = 0; b < 65536; b++) { if (thorough || b % 7 == 0 || b < 600) { rt<short>(short(b), "short"); rt<unsigned short>((unsigned short)b, "unsigned short"); } if (b < 256) { rt<char>(char(b), "char"); rt<signed char>((signed char)b, "signed char"); rt<unsigned char>((unsigned char)b, "unsigned char"); } }
    for (int b : {0, 7, 8, 15, 16, 31, 32, 63}) for (int d = -2; d <= 2; d++) { ints((1ull << b) + d); ints(-(1ull << b) + d); } ints(~0ull); ints(0); for (unsigned long long p = 1; p < 10000000000000000000ull; p *= 10) { ints(p); ints(p - 1); ints(-p); if (p >= 1000000000000000000ull) break; }
    for (double d : {0.0, -0.0, 1e-6, -1e-6, 9.9999999e-7, -9.9999999e-7, 1.0000001e-6, 1e-7, 1e300, -1e300, 0.1, 1.0 / 3, 123456.0, 1234567.0, 999999.5, 1e-5, 0.0001, 100000.0, 1e20}) floats(d);
    floats(std::numeric_limits<double>::infinity()); floats(-std::numeric_limits<double>::infinity()); floats(std::numeric_limits<double>::quiet_NaN()); floats(std::numeric_limits<double>::denorm_min()); floats(std::numeric_limits<double>::max());
    fl<long double>(std::numeric_limits<long double>::max(), "%Lg", "long double"); fl<long double>(1e-6L, "%Lg", "long double");
    setCase("bool and pointers"); sameText(S(coil::TypeSerializer<bool>::toString(true)), "true", "true"); sameText(S(coil::TypeSerializer<bool>::toString(false)), "false", "false"); int* np = nullptr; sameText(S(coil::TypeSerializer<int*>::toString(np)), "null", "null pointer"); bool tr = true; sameText(S(coil::TypeSerializer<bool*>::toString(&tr)), "true", "pointer"); coil::String const* sp = nullptr; sameText(S(coil::TypeSerializer<coil::String const*>::toString(sp)), "null", "null pointer");
    coil::Bindings b; static unsigned long long ret; b["r"] = [] { return ret; }; b["p"] = [] { return &ret; }; static double dr; b["d"] = []() -> double const& { return dr; };
    while (c.left())
    {
        ints(rnd64() >> rnd(64)); ints(-(rnd64() >> rnd(64))); double d; uint64_t x = rnd64(); memcpy(&d, &x, 8); floats(d); floats(double(long(rnd64() >> rnd(60))) / double(1 + rnd(1000000))); formats();
        ret = rnd64() >> rnd(64); setCase(fmt("command returning %llu", ret)); auto r = b.execute("r"); check(r.returnValue && S(*r.returnValue) == fmt("%llu", ret), "returned number"); r = b.execute("p"); check(r.returnValue && S(*r.returnValue) == fmt("%llu", ret), "returned pointer");
    }
}
