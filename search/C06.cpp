#include "common.h"
#include <limits>
#include "coil/detail/StringConv.h"
struct Pr { bool ok; __int128 v; };
static Pr refInt(std::string const& s, bool sgn, __int128 lo, __int128 hi)
{
    size_t i = 0; auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while (i < s.size() && ws(s[i])) i++;
    bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; if (neg && !sgn) return {false, 0}; }
    if (i >= s.size()) return {false, 0};
    __int128 v = 0;
    for (; i < s.size(); i++)
    {
        if (s[i] < '0' || s[i] > '9') return {false, 0};
        if (v < (__int128(1) << 100)) v = v * 10 + (s[i] - '0');
    }
    if (neg) v = -v;
    return {v >= lo && v <= hi, v};
}
template<typename T> static void one(std::string const& s, char const* name)
{
    __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    bool sgn = std::numeric_limits<T>::is_signed;
    setCase(std::string(name) + " from " + esc(s));
    Pr w = refInt(s, sgn, lo, hi);
    Exact x(s);
    T v = 77;
    bool ok = coil::fromString(x.view(), v);
    check(ok == w.ok, ok ? fmt("accepted as %lld", (long long)v) : "refused, expected to be accepted");
    if (ok) check(__int128(v) == w.v, fmt("converted to %lld (%llu)", (long long)v, (unsigned long long)v));
    auto r = coil::TypeSerializer<T>::fromString(coil::Value{x.view()});
    check(bool(r) == w.ok, "argument conversion: wrong acceptance");
    if (r) check(__int128(*r) == w.v, "argument conversion: wrong number");
    else sameText(S(r.error()), genericError(name, {s}), "conversion error");
}
static void all(std::string const& s)
{
    one<char>(s, "char"); one<signed char>(s, "signed char"); one<unsigned char>(s, "unsigned char"); one<short>(s, "short");
    one<unsigned short>(s, "unsigned short"); one<int>(s, "int"); one<unsigned>(s, "unsigned int"); one<long>(s, "long");
    one<unsigned long>(s, "unsigned long"); one<long long>(s, "long long"); one<unsigned long long>(s, "unsigned long long");
}
static std::string dec(__int128 v)
{
    if (v < 0) return "-" + dec(-v);
    std::string r; do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return r;
}
void run()
{
    Clock c(budget);
    std::string al = "0159 -+\t\nx."; al += '\0';
    // every short text over the interesting characters
    for (size_t n = 0; n <= (thorough ? 4 : 3); n++)
    {
        std::vector<size_t> ix(n, 0);
        while (true)
        {
            std::string t; for (size_t k : ix) t += al[k]; all(t);
            size_t k = 0; while (k < n && ++ix[k] == al.size()) ix[k++] = 0; if (k == n) break;
        }
    }
    static const int bits[] = {7, 8, 15, 16, 31, 32, 63, 64, 65};
    for (int b : bits) for (int d = -3; d <= 3; d++) for (int sg = 0; sg < 2; sg++)
        for (char const* pre : {"", "+", " ", "00", " \t\n\v\f\r", " +", "000000000000000000000000000"})
        {
            __int128 v = (__int128(1) << b) + d; std::string t = dec(v);
            all(std::string(pre) + t); all(std::string(pre) + "-" + t); all(t + pre); all("-" + t + "0");
        }
    while (c.left())
    {
        std::string t;
        switch (rnd(4))
        {
        case 0: t = randText(al, 8); break;
        case 1: t = dec(__int128(rnd64() >> rnd(64)) * (coin() ? 1 : -1)); break;
        case 2: t = dec(__int128(rnd64() >> rnd(64)) * (coin() ? 1 : -1)); if (!t.empty()) { if (coin()) t[rnd(t.size())] = char(rnd(256)); else t.insert(rnd(t.size() + 1), 1, al[rnd(al.size())]); } break;
        default: t = randBytes(12);
        }
        if (coin(4)) t = std::string(rnd(4), ' ') + t;
        all(t);
    }
}
