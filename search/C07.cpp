#include "common.h"
#include <cmath>
#include "coil/detail/StringConv.h"
#include <cerrno>
using P = std::vector<std::string>;
static void boolCase(P const& p)
{
    setCase("bool from " + show(p));
    auto r = coil::TypeSerializer<bool>::fromString(mkValue(p));
    int want = -1;
    if (p.size() == 1)
    {
        std::string l = p[0]; for (char& c : l) if (c >= 'A' && c <= 'Z') c += 32;
        if (p[0] == "1" || l == "true") want = 1; if (p[0] == "0" || l == "false") want = 0;
    }
    check(bool(r) == (want >= 0), r ? "accepted" : "refused");
    if (r) check(*r == (want == 1), "wrong truth value");
    else sameText(S(r.error()), p.size() == 1 ? genericError("bool", p) : countError("bool", p), "error");
}
static void textCase(P const& p)
{
    setCase("text from " + show(p));
    auto v = mkValue(p);
    auto r = coil::TypeSerializer<coil::String>::fromString(v);
    auto w = coil::TypeSerializer<coil::StringView>::fromString(v);
    check(bool(r) == (p.size() == 1) && bool(w) == (p.size() == 1), "wrong acceptance");
    if (p.size() == 1)
    {
        sameText(S(*r), p[0], "string"); sameText(S(*w), p[0], "view");
        check(!r->length() || r->cStr() != v.subvalues[0].data(), "string shares the argument's storage");
    }
    else { sameText(S(r.error()), countError("string", p), "error"); sameText(S(w.error()), countError("string", p), "error"); }
}
template<typename T, typename F> static void flt(P const& p, char const* name, F conv)
{
    setCase(std::string(name) + " from " + show(p));
    auto r = coil::TypeSerializer<T>::fromString(mkValue(p));
    bool ok = false; T want{};
    if (p.size() == 1 && !p[0].empty()) { char* e; errno = 0; want = conv(p[0].c_str(), &e); ok = !errno && e == p[0].c_str() + p[0].size(); }
    check(bool(r) == ok, r ? "accepted" : "refused");
    if (r) { T g = *r; check((g != g && want != want) || (g == want && std::signbit(g) == std::signbit(want)), "wrong number"); }
    else sameText(S(r.error()), p.size() == 1 ? genericError(name, p) : countError(name, p), "error");
}
static void all(P const& p)
{
    boolCase(p); textCase(p);
    flt<float>(p, "float", strtof); flt<double>(p, "double", strtod); flt<long double>(p, "long double", strtold);
}
void run()
{
    Clock c(budget);
    for (char const* s : {"", "0", "1", "true", "false", "TRUE", "False", "tRuE", "truE", "tru", "truee", " true", "true ", "00", "01", "10", "+1", "-0", "t", "yes", "TRUE\xff", "f\xe1lse", "1.5", "-1.5e3", "1e400", "1e-400", "-1e4000", "inf", "-INF", "nan", "0x10", "0x1.8p3", "1.", ".5", ".", "e5", "1e", "1e+", " 1.5", "1.5 ", "1,5", "340282356779733661637539395458142568447", "340282346638528859811704183484516925440", "1e39", "1e38", "infinity", "nan(x)", "\t2", "2\n"})
        all({s});
    all({}); all({"1", "1"}); all({"", ""}); all({std::string("1\0", 2)}); all({std::string("true\0", 5)}); all({std::string("\0", 1)}); all({std::string("1.5\0x", 5)});
    for (int a = 0; a < 256; a++) for (int pos = 0; pos < 4; pos++) { std::string s = "true"; s[pos] = char(a); boolCase({s}); std::string f = "false"; f[pos] = char(a); boolCase({f}); boolCase({std::string(1, char(a))}); }
    std::string al = "0159+-.eExXpinfNAtrueFALSE "; al += '\0';
    while (c.left())
    {
        P p; size_t n = coin(5) ? rnd(5) : 1;
        for (size_t i = 0; i < n; i++) switch (rnd(4))
        {
        case 0: p.push_back(randText(al, 8)); break;
        case 1: p.push_back(randBytes(coin(20) ? 2000 : 10)); break;
        case 2: { std::string s = coin() ? "true" : "false"; for (char& ch : s) if (coin()) ch ^= 32; if (coin(4)) s[rnd(s.size())] = char(rnd(256)); p.push_back(s); break; }
        default: { double d; uint64_t b = rnd64(); memcpy(&d, &b, 8); std::string s = fmt(coin() ? "%g" : "%.17g", d); if (coin(4) && s.size()) s[rnd(s.size())] = al[rnd(al.size())]; p.push_back(s); }
        }
        all(p);
    }
}
