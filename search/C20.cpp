#include "common.h"
#include "coil/detail/StringConv.h"
static std::string noNul(size_t n) { std::string s = randBytes(n); for (char& c : s) if (!c) c = '0'; return s; }
static coil::AnyFunctor mk(int arity)
{
    using coil::Value;
    auto w = [](auto f) { return coil::AnyFunctor{typename coil::detail::FuncTraits<decltype(f)>::FunctionWrapperType{coil::move(f)}}; };
    switch (arity)
    {
    case 0: return w([] {});
    case 1: return w([](coil::Context, Value) {});
    case 2: return w([](Value, Value) {});
    case 3: return w([](Value, Value, Value) {});
    case 4: return w([](coil::Context, Value, Value, Value, Value) {});
    default: return w([](Value, Value, Value, Value, Value, Value, Value, Value, Value, Value, Value, Value) {});
    }
}
void run()
{
    Clock c(budget); static int const ar[] = {0, 1, 2, 3, 4, 12};
    while (c.left())
    {
        std::string type = noNul(8), det = coin(3) ? "" : noNul(coin(10) ? 2000 : 12), big; size_t want = coin(5) ? size_t(rnd64()) : rnd(4); std::vector<std::string> p; size_t n = rnd(5);
        for (size_t i = 0; i < n; i++) p.push_back(noNul(coin(10) ? 1500 : 6));
        setCase("type " + esc(type) + " details " + esc(det) + " value " + show(p)); auto v = mkValue(p);
        Exact xt(type + "tail"), xd(det + "tail"); coil::StringView tv{xt.p, type.size()}, dv{xd.p, det.size()};
        sameText(S(v.str()), joined(p), "value text");
        auto e1 = coil::errors::createGenericError(tv, v, dv); sameText(S(e1.value()), genericError(type, p, det), "generic error");
        auto e2 = coil::errors::createMismatchedSubvaluesError(tv, v, want); sameText(S(e2.value()), countError(type, p, want), "count error");
        auto e3 = coil::errors::createGenericError<int>(v, dv); sameText(S(e3.value()), genericError("int", p, det), "typed generic error");
        auto e4 = coil::errors::createMismatchedSubvaluesError<coil::String>(v, want); sameText(S(e4.value()), countError("string", p, want), "typed count error");
        // command errors, with names that are parts of a longer text
        coil::Bindings b; std::vector<int> set; coil::Vector<coil::AnyFunctor> fs; size_t k = rnd(7); std::string list;
        for (size_t i = 0; i < k; i++) { int a = ar[rnd(6)]; set.push_back(a); fs.pushBack(mk(a)); list += (i == 0 ? "" : i + 1 == k ? " or " : ", ") + fmt("%d", a); }
        std::string name = noNul(10) + "f"; Exact xn(name + "suffix"); coil::StringView nv{xn.p, name.size()}; size_t given = rnd(14);
        setCase("command " + esc(name) + " accepting " + list + " called with " + fmt("%zu", given)); b.add(nv, coil::move(fs));
        coil::ExecutionInput in; in.name = nv; for (size_t i = 0; i < given; i++) in.arguments.pushBack(coil::Value{"x"});
        bool ok = false; for (int a : set) ok = ok || size_t(a) == given;
        auto r = b.execute(coil::move(in));
        if (ok) check(r.errors.empty(), "a matching overload was not called");
        else { check(r.errors.size() == 1, "error count"); sameText(S(r.errors[0]), "Wrong number of arguments to '" + name + "': expected " + list + ", got " + fmt("%zu", given), "argument count error"); }
        Exact xm(name + "zmore"); coil::ExecutionInput im; im.name = coil::StringView{xm.p, name.size() + 1}; auto rm = b.execute(coil::move(im));
        check(rm.errors.size() == 1, "unknown name"); sameText(S(rm.errors[0]), "No function '" + name + "z' is registered", "unknown name");
        auto re = b.execute(coil::ExecutionInput{}); check(re.errors.size() == 1, "empty name"); sameText(S(re.errors[0]), "No function name is specified", "empty name");
        // named argument keys
        std::string key = noNul(6), msg; Exact xk(key + "rest"); coil::StringView kv{xk.p, key.size()}; bool found = true;
        b["k"] = [&](coil::Context ctx) { auto g = ctx.namedArgs().get(kv); found = bool(g); if (!g) msg = S(g.error().message); ctx.namedArgs().get<int>(kv); ctx.namedArgs().getOrReport<int>(kv); ctx.namedArgs().getOrReport<int>(kv, coil::NamedArgs::ArgType::Required); };
        setCase("key " + esc(key)); auto rk = b.execute("k"); std::string m = "Missing named argument '" + key + "'";
        check(!found, "a missing key was found"); sameText(msg, m, "missing key"); check(rk.errors.size() == 1, "one error for the required key"); sameText(S(rk.errors[0]), m, "missing key");
        std::string bad = "q" + noNul(5); b["i"] = [](int, short) {}; coil::ExecutionInput ii; ii.name = "i"; ii.arguments.pushBack(coil::Value{coil::StringView{bad.data(), bad.size()}}); ii.arguments.pushBack(mkValue(p));
        setCase("conversion of " + esc(bad) + " and " + show(p)); auto ri = b.execute(coil::move(ii)); bool one = p.size() == 1; bool bad2 = true; if (one) { short x; bad2 = !coil::fromString(coil::StringView{p[0].data(), p[0].size()}, x); }
        check(ri.errors.size() == size_t(1 + bad2), "one error for each failing argument"); sameText(S(ri.errors[0]), genericError("int", {bad}), "first argument"); if (bad2) sameText(S(ri.errors[1]), one ? genericError("short", p) : countError("short", p), "second argument");
    }
}
