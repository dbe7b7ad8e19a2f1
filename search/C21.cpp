#include "common.h"
#include "coil/StdLibCompat.h"
struct Obj { int x = 3; int get() const { return x; } void set(int v) { x = v; } double both(int, coil::String const&) { return 1; } coil::String& ref(coil::Context, bool) { static coil::String s; return s; } unsigned char const* cp(long long) { static unsigned char c = 1; return &c; } };
static int freeF(short, unsigned long) { return 0; }
static void freeC(coil::Context, char) {}
using VS = std::vector<std::string>;
struct Sig { VS params; std::string ret; };
static void same(coil::AnyFunctor const& f, Sig const& s, std::string const& what)
{
    check(f.arity() == s.params.size(), what + fmt(": arity %zu, expected %zu", f.arity(), s.params.size()));
    check(f.parameterTypes().size() == s.params.size(), what + ": number of parameter types");
    for (size_t i = 0; i < s.params.size(); i++) sameText(S(f.parameterTypes()[i]), s.params[i], what + fmt(": parameter %zu", i));
    sameText(S(f.returnType()), s.ret, what + ": return type");
}
struct Case { std::function<void(coil::Bindings&, coil::StringView)> reg; std::vector<Sig> sigs; char const* what; };
void run()
{
    static Obj o; static Obj const co; static int iv = 1; static coil::String sv; static double const dv = 1; static unsigned char uc = 0;
    using coil::Bindings; using coil::StringView;
    static std::vector<Case> const all = {
        {[](Bindings& b, StringView n) { b[n] = [] {}; }, {{{}, "void"}}, "no parameters"},
        {[](Bindings& b, StringView n) { b[n] = [](coil::Context) { return 1; }; }, {{{}, "int"}}, "context only"},
        {[](Bindings& b, StringView n) { b[n] = [](int, unsigned, short, unsigned short, long, unsigned long, long long, unsigned long long, char, signed char, unsigned char, bool) { return 'c'; }; }, {{{"int", "unsigned int", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "char", "signed char", "unsigned char", "bool"}, "char"}}, "integers"},
        {[](Bindings& b, StringView n) { b[n] = [](coil::Context, float, double, long double const&) -> float const& { static float f; return f; }; }, {{{"float", "double", "long double"}, "float"}}, "floats"},
        {[](Bindings& b, StringView n) { b[n] = [](coil::String const&, coil::StringView, std::string const&, std::string_view, std::vector<int> const&, std::optional<coil::String>, std::vector<std::optional<short>>) -> coil::String { return {}; }; }, {{{"string", "string", "string", "string", "vector<int>", "optional<string>", "vector<optional<short>>"}, "string"}}, "texts and containers"},
        {[](Bindings& b, StringView n) { b[n] = [](coil::Context, int) -> int const* { return &iv; }; }, {{{"int"}, "int"}}, "pointer result"},
        {[](Bindings& b, StringView n) { b[n] = [m = std::vector<int>{1}](bool) mutable -> unsigned char& { m.push_back(1); return uc; }; }, {{{"bool"}, "unsigned char"}}, "mutable functor"},
        {[](Bindings& b, StringView n) { b[n] = &freeF; }, {{{"short", "unsigned long"}, "int"}}, "free function"},
        {[](Bindings& b, StringView n) { b[n] = &freeC; }, {{{"char"}, "void"}}, "free function with context"},
        {[](Bindings& b, StringView n) { b[n] = coil::bind(&Obj::get, &o); }, {{{}, "int"}}, "bound getter"},
        {[](Bindings& b, StringView n) { b[n] = coil::bind(&Obj::get, &co); }, {{{}, "int"}}, "bound const getter"},
        {[](Bindings& b, StringView n) { b[n] = coil::bind(&Obj::both, &o); }, {{{"int", "string"}, "double"}}, "bound member"},
        {[](Bindings& b, StringView n) { b[n] = coil::bind(&Obj::ref, &o); }, {{{"bool"}, "string"}}, "bound member with context"},
        {[](Bindings& b, StringView n) { b[n] = coil::bind(&Obj::cp, &o); }, {{{"long long"}, "unsigned char"}}, "bound member returning a pointer"},
        {[](Bindings& b, StringView n) { b[n] = coil::variable(&iv); }, {{{}, "int"}, {{"int"}, "int"}}, "variable"},
        {[](Bindings& b, StringView n) { b[n] = coil::variable(&sv); }, {{{}, "string"}, {{"string"}, "string"}}, "text variable"},
        {[](Bindings& b, StringView n) { b[n] = coil::variable(&dv); }, {{{}, "double"}, {{"double"}, "double"}}, "read-only variable"},
        {[](Bindings& b, StringView n) { b[n] = coil::property([]() -> short const& { static short s; return s; }, [](int) {}); }, {{{}, "short"}, {{"short"}, "short"}}, "property"},
        {[](Bindings& b, StringView n) { b[n] = coil::bindProperty(&Obj::get, &Obj::set, &o); }, {{{}, "int"}, {{"int"}, "int"}}, "bound property"},
        {[](Bindings& b, StringView n) { b[n] = coil::bindProperty(&Obj::get, &o); }, {{{}, "int"}, {{"int"}, "int"}}, "bound read-only property"},
        {[](Bindings& b, StringView n) { b[n] = coil::overloaded([](int) {}, [](coil::Context, int, bool) { return 1.5; }, coil::bind(&Obj::both, &o), &freeF, [](char) { return true; }); }, {{{"int"}, "void"}, {{"int", "bool"}, "double"}, {{"int", "string"}, "double"}, {{"short", "unsigned long"}, "int"}, {{"char"}, "bool"}}, "overloads"},
    };
    Clock c(budget);
    while (c.left())
    {
        setCase("registrations:"); coil::Bindings b; std::map<std::string, size_t> ref; coil::Vector<coil::AnyFunctor> dummy;
        size_t n = 1 + rnd(40);
        for (size_t i = 0; i < n; i++)
        {
            std::string name = fmt("n%zu", rnd(25)); size_t k = rnd(all.size()); addCase(" " + name + "=" + all[k].what);
            if (coin(10)) { b.remove(StringView{name.data(), name.size()}); ref.erase(name); addCase("(removed)"); continue; }
            { std::string temp = name; all[k].reg(b, StringView{temp.data(), temp.size()}); } ref[name] = k;
            if (coin(12)) { coil::Bindings m{coil::move(b)}; b = coil::move(m); addCase(" moved"); }
        }
        for (auto& [name, k] : ref)
        {
            auto* cmd = b.get(StringView{name.data(), name.size()}); check(cmd, "a registered command is missing");
            sameText(S(cmd->name), name, "command name"); check(cmd->functors.size() == all[k].sigs.size(), std::string(all[k].what) + ": number of overloads");
            for (size_t i = 0; i < cmd->functors.size(); i++) same(cmd->functors[i], all[k].sigs[i], all[k].what);
        }
    }
}
