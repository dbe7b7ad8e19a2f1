#include "args.h"
// bound variables
static std::string str(int v) { return fmt("%d", v); }
static std::string str(bool v) { return v ? "true" : "false"; }
static std::string str(unsigned char v) { return fmt("%u", v); }
static std::string str(double v) { return v > -1e-6 && v < 1e-6 ? "0" : fmt("%g", v); }
static std::string str(coil::String const& v) { return S(v); }
template<typename T> static bool same2(T const& a, T const& b) { return a == b || (a != a && b != b); }
template<> bool same2<coil::String>(coil::String const& a, coil::String const& b) { return S(a) == S(b); }
static std::vector<std::string> randArg()
{
    static char const* one[] = {"1", "0", "-5", "true", "FALSE", "3.5", "x", "", "300", "-", "99999999999", "1e400", "abc", "255", "0.0000001", "-2e-7"};
    size_t n = coin(5) ? rnd(4) : 1; std::vector<std::string> v;
    for (size_t i = 0; i < n; i++) v.push_back(coin(8) ? randBytes(6) : std::string(one[rnd(16)]));
    return v;
}
template<typename T> static void trial(char const* name, T init)
{
    T var = init, other = init; coil::Bindings b; bool ro = coin();
    b["other"] = coil::variable(&other);
    if (ro) b["v"] = coil::variable(static_cast<T const*>(&var)); else b["v"] = coil::variable(&var);
    if (coin(4)) { coil::Bindings t(coil::move(b)); b = coil::move(t); }
    T model = init; std::string hist = std::string(ro ? "read-only " : "") + name + " variable:";
    for (int k = 0; k < 6; k++)
    {
        size_t argc = coin(5) ? rnd(4) : rnd(2); std::vector<std::vector<std::string>> a; hist += " execute(";
        for (size_t i = 0; i < argc; i++) { a.push_back(randArg()); hist += show(a.back()); } hist += ")";
        setCase(hist);
        if (coin(8)) { var = init; model = init; }
        coil::ExecutionInput in; in.name = "v"; for (auto& x : a) in.arguments.pushBack(mkValue(x));
        auto r = b.execute(coil::move(in));
        std::string err; bool val = false;
        if (argc == 0) val = true;
        else if (argc == 1)
        {
            coil::Value pv = mkValue(a[0]); auto c = coil::TypeSerializer<T>::fromString(pv);
            if (!c) err = S(c.error()); else if (ro) err = "This variable is read-only"; else { model = *c; val = true; }
        }
        else err = fmt("Wrong number of arguments to 'v': expected 0 or 1, got %zu", argc);
        check(same2(var, model), "variable holds " + str(var) + ", expected " + str(model));
        check(same2(other, init), "another variable changed");
        check(r.errors.size() == (err.empty() ? 0u : 1u), fmt("%zu errors", r.errors.size()));
        if (!err.empty()) sameText(S(r.errors[0]), err, "error");
        check(r.returnValue.hasValue() == val, "presence of the returned value");
        if (val) sameText(S(*r.returnValue), str(model), "returned value");
    }
}
void run()
{
    Clock c(budget);
    while (c.left())
    {
        trial<int>("int", int(rnd(100))); trial<bool>("bool", coin()); trial<unsigned char>("unsigned char", (unsigned char)rnd(256)); trial<double>("double", double(rnd(1000)) / 8); trial<coil::String>("String", coil::String(fmt("initial %zu", rnd(100)).c_str()));
    }
}
