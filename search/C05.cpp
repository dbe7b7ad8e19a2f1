#include "common.h"
// a callable runs exactly when all arguments convert
struct Odd { long v; };
static int customRan = 0;
namespace coil
{
    template<> struct TypeSerializer<Odd>
    {
        static Expected<Odd, String> fromString(Value const& v)
        {
            if (v.subvalues.size() == 1 && v.subvalues[0].length() % 2 == 1) return Odd{long(v.subvalues[0].length())};
            return makeUnexpected(coil::sprintf("odd error %zu", v.subvalues.size()));
        }
        static String toString(Odd const& o) { return coil::sprintf("odd%ld", o.v); }
    };
}
COIL_CREATE_TYPE_NAME(Odd, "Odd");
static int calls; static std::string got;
static void note(int v) { got += fmt("i%d;", v); }
static void note(bool v) { got += v ? "b1;" : "b0;"; }
static void note(double v) { got += fmt("d%a;", v); }
static void note(unsigned char v) { got += fmt("u%d;", v); }
static void note(coil::String const& v) { got += "s" + S(v) + ";"; }
static void note(coil::StringView v) { got += "w" + S(v) + ";"; }
static void note(Odd const& v) { got += fmt("o%ld;", v.v); }
static void note(coil::Value const& v) { got += "v" + S(v.str()) + ";"; }
using Args = std::vector<std::vector<std::string>>;
static bool reportOwn, ctxUsed; static int retMode;
template<typename T> static void expectArg(std::vector<std::string> const& a, std::string& want, std::vector<std::string>& errs)
{
    coil::Value v = mkValue(a);
    auto r = coil::TypeSerializer<T>::fromString(v);
    if (!r) { errs.push_back(S(r.error())); return; }
    std::string keep = got; got.clear(); note(static_cast<T const&>(r.value())); want += got; got = keep;
}
template<typename... T> static void trial(Args const& a, std::string const& names)
{
    coil::Bindings b; retMode = int(rnd(5)); reportOwn = coin(4); bool useCtx = coin() || reportOwn;
    int mode = retMode; bool rep = reportOwn;
    auto body = [](T const&... v) { calls++; (note(v), ...); };
    if (useCtx)
    {
        auto own = [rep](coil::Context& c) { if (rep) c.reportError("own error"); };
        switch (mode)
        {
        case 0: b["f"] = [=](coil::Context c, T... v) { own(c); body(v...); }; break;
        case 1: b["f"] = [=](coil::Context c, T... v) -> int { own(c); body(v...); return 42; }; break;
        case 2: b["f"] = [=](coil::Context c, T const&... v) -> coil::String { own(c); body(v...); return "text \x01"; }; break;
        case 3: b["f"] = [=](coil::Context c, T... v) -> bool { own(c); body(v...); return true; }; break;
        default: b["f"] = [=](coil::Context c, T&&... v) -> coil::String { own(c); body(v...); return coil::String{}; }; break;
        }
    }
    else
        switch (mode)
        {
        case 0: b["f"] = [=](T... v) { body(v...); }; break;
        case 1: b["f"] = [=](T const&... v) -> int { body(v...); return 42; }; break;
        case 2: b["f"] = [=](T... v) -> coil::String { body(v...); return "text \x01"; }; break;
        case 3: b["f"] = [=](T&&... v) -> bool { body(v...); return true; }; break;
        default: b["f"] = [=](T... v) -> coil::String { body(v...); return coil::String{}; }; break;
        }
    static char const* rets[] = {nullptr, "42", "text \x01", "true", ""};
    std::string d = "parameters (" + names + ") arguments";
    for (auto& x : a) d += " " + show(x);
    setCase(d + fmt(" return mode %d, callable reports %d", mode, rep));
    std::string want; std::vector<std::string> errs;
    size_t i = 0; (expectArg<T>(a[i++], want, errs), ...);
    coil::ExecutionInput in; in.name = "f";
    for (auto& x : a) in.arguments.pushBack(mkValue(x));
    calls = 0; got.clear();
    auto r = b.execute(coil::move(in));
    bool runs = errs.empty();
    check(calls == (runs ? 1 : 0), fmt("callable ran %d times, expected %d", calls, runs ? 1 : 0));
    if (runs) sameText(got, want, "arguments received");
    if (runs && rep) errs.push_back("own error");
    check(r.errors.size() == errs.size(), fmt("%zu errors, expected %zu", r.errors.size(), errs.size()));
    for (size_t k = 0; k < errs.size(); k++) sameText(S(r.errors[k]), errs[k], "error");
    bool ret = runs && !rep && rets[mode];
    check(r.returnValue.hasValue() == ret, ret ? "return value missing" : "unexpected return value");
    if (ret) sameText(S(*r.returnValue), rets[mode], "return value");
}
static std::vector<std::string> randArg()
{
    static char const* one[] = {"1", "0", "-5", "true", "FALSE", "3.5", "x", "", "300", "-", "99999999999", "1e400", "abc", "255", "nan"};
    size_t n = coin(4) ? rnd(4) : 1;
    std::vector<std::string> v;
    for (size_t i = 0; i < n; i++) v.push_back(coin(8) ? randBytes(6) : std::string(one[rnd(15)]));
    return v;
}
void run()
{
    Clock c(budget);
    while (c.left())
    {
        Args a; auto need = [&](size_t n) { a.clear(); for (size_t i = 0; i < n; i++) a.push_back(randArg()); };
        need(0); trial<>(a, "");
        need(1); trial<int>(a, "int");
        need(1); trial<Odd>(a, "Odd");
        need(2); trial<bool, coil::String>(a, "bool,String");
        need(2); trial<int, int>(a, "int,int");
        need(3); trial<double, unsigned char, coil::StringView>(a, "double,uchar,StringView");
        need(3); trial<Odd, int, Odd>(a, "Odd,int,Odd");
        need(4); trial<int, bool, coil::StringView, coil::String>(a, "int,bool,StringView,String");
        need(5); trial<int, int, int, int, int>(a, "int*5");
    }
}
