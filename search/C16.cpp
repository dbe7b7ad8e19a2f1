#include "tracked.h"
#include <stdexcept>
struct Thr { int v; };
struct NotStd { Tr t; NotStd() : t(5) {} };
namespace coil
{
    template<> struct TypeSerializer<Thr>
    {
        static Expected<Thr, String> fromString(Value const& v)
        {
            String tmp("temporary text that is on the heap");
            if (v.subvalues.size() && v.subvalues[0] == "throw") throw std::runtime_error("conversion threw");
            if (v.subvalues.size() && v.subvalues[0] == "throwint") throw 5;
            if (v.subvalues.size() && v.subvalues[0] == "bad") return makeUnexpected(String("bad Thr value"));
            return Thr{1};
        }
        static String toString(Thr const& t) { if (t.v == 7) throw std::logic_error("toString threw"); return "thr"; }
    };
}
COIL_CREATE_TYPE_NAME(Thr, "Thr");
static int mode; static std::string what; static int rets;
static void thrower(coil::Context& c)
{
    c.log("before;"); Tr local(3); coil::String tmp("another temporary text on the heap");
    if (rets & 1) c.reportError("reported before the throw");
    switch (mode)
    {
    case 0: return;
    case 1: throw std::runtime_error(what);
    case 2: throw std::logic_error(what);
    case 3: throw 42;
    case 4: throw NotStd();
    case 5: throw "text";
    case 6: throw std::bad_alloc();
    default: { coil::Vector<Tr> v; v.pushBack(Tr(1)); v.pushBack(Tr(2)); throw std::out_of_range(what); }
    }
}
static void trial()
{
    {
        coil::Bindings b; mode = int(rnd(8)); rets = int(rnd(2)); int kind = int(rnd(7)); what = coin(3) ? "" : coin() ? "message %s %d" : fmt("a longer message number %zu", rnd(1000));
        Tr keep(9);
        b["ok"] = [](int x) { return x + 1; };
        switch (kind)
        {
        case 0: b["f"] = [](coil::Context c) { thrower(c); }; break;
        case 1: b["f"] = [keep](coil::Context c) -> int { thrower(c); keep.use(); return 5; }; break;
        case 2: b["f"] = [](coil::Context c, Thr, coil::String s) { thrower(c); return s; }; break;
        case 3: b["f"] = coil::overloaded([](coil::Context c) { thrower(c); return Thr{7}; }, [](int) {}); break;
        case 4: b["f"] = [](coil::Context c, coil::String, Thr, Thr) { thrower(c); return true; }; break;
        case 5: { static Tr* g; g = &keep; b["f"] = [](coil::Context c) { Tr t(*g); thrower(c); return coil::String("returned text that is long"); }; break; }
        default: b["f"] = coil::property([] { if (mode == 1) throw std::runtime_error(what); if (mode == 3) throw 3; return 1; }, [](int) { if (mode == 2) throw std::logic_error(what); }); break;
        }
        static char const* tv[] = {"x", "throw", "throwint", "bad"}; std::vector<std::string> av; std::string cmd = "f";
        if (kind == 2) { av = {tv[rnd(4)], "second"}; } else if (kind == 4) av = {"first", tv[rnd(4)], tv[rnd(4)]}; else if (kind == 6 && coin()) av = {"5"};
        for (auto& a : av) cmd += " " + a;
        setCase(fmt("callable kind %d throw mode %d reports %d message ", kind, mode, rets) + esc(what) + " command " + esc(cmd));
        coil::ExecutionResult r; 
        try { r = b.execute(coil::StringView{cmd.c_str()}); } catch (...) { fail("an exception escaped from execute"); }
        // what must have happened
        std::vector<std::string> errs; std::string out; bool threw = false, conv = false, ret = false; std::string rv;
        auto any = [](std::string const& w) { return w; }; (void)any;
        int thrConv = 0, bad = 0; // throwing conversions, in an order the compiler may choose
        for (auto& a : av) { if (a == "throw") thrConv |= 1; if (a == "throwint") thrConv |= 2; if (a == "bad") bad++; }
        std::string E = "Exception caught during execution: ";
        if (thrConv) { threw = conv = true; }
        else if (bad) { for (int i = 0; i < bad; i++) errs.push_back("bad Thr value"); conv = true; }
        else if (kind == 6)
        {
            if (mode == 1) errs.push_back(E + what), threw = true; else if (mode == 3) errs.push_back("Exception caught during execution"), threw = true;
            if (!av.empty()) { if (mode == 2) errs.push_back(E + what), threw = true; }
            if (!threw) { ret = true; rv = "1"; }
        }
        else
        {
            out = "before;"; if (rets & 1) errs.push_back("reported before the throw");
            switch (mode)
            {
            case 0: if (kind == 3) { errs.push_back(E + "toString threw"); threw = true; } break;
            case 3: case 4: case 5: errs.push_back("Exception caught during execution"); threw = true; break;
            case 6: errs.push_back(E + std::bad_alloc().what()); threw = true; break;
            default: errs.push_back(E + what); threw = true;
            }
            if (!threw && !(rets & 1)) { ret = kind != 0; rv = kind == 1 ? "5" : kind == 2 ? "second" : kind == 4 ? "true" : "returned text that is long"; }
        }
        if (thrConv)
        {
            check(r.errors.size() == 1, fmt("%zu errors after a throwing conversion", r.errors.size())); std::string g = S(r.errors[0]);
            check((g == E + "conversion threw" && (thrConv & 1)) || (g == "Exception caught during execution" && (thrConv & 2)), "error after a throwing conversion: " + g);
        }
        else
        {
            check(r.errors.size() == errs.size(), fmt("%zu errors, expected %zu", r.errors.size(), errs.size()));
            for (size_t i = 0; i < errs.size(); i++) sameText(S(r.errors[i]), errs[i], "error");
        }
        sameText(S(r.output), out, "output before the throw");
        check(r.returnValue.hasValue() == ret, "presence of a return value"); if (ret) sameText(S(*r.returnValue), rv, "return value");
        sameText(S(r.input.name), "f", "name handed back"); check(r.input.arguments.size() == av.size(), "arguments handed back");
        // the registry still works
        auto r2 = b.execute("ok 4"); check(r2.errors.empty() && r2.returnValue.hasValue() && S(*r2.returnValue) == "5" && r2.output.empty(), "a later command does not run normally");
        check(b.get("f") && b.get("ok") && !b.get("g"), "the registry changed");
        int m0 = mode; mode = 0; std::string c2 = "f"; for (auto& a : av) c2 += a == "throw" || a == "throwint" || a == "bad" ? std::string(" x") : " " + a;
        auto r3 = b.execute(coil::StringView{c2.c_str()}); check(r3.errors.size() == (kind == 3 ? 1u : 0u) + (kind != 6 ? unsigned(rets & 1) : 0u), "running the same command again"); mode = m0;
    }
    allGone("after exceptions");
}
void run()
{
    Clock c(budget); for (int i = 0; i < 200; i++) trial(); what = ""; what.shrink_to_fit(); long before = live;
    while (c.left()) { for (int i = 0; i < 50; i++) trial(); what = ""; what.shrink_to_fit(); check(live <= before, fmt("memory leaked: %ld", live - before)); }
}
