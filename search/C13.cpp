#include "args.h"
using coil::NamedArgs; using coil::Optional; using coil::StringView; using coil::Value; using coil::String;
static std::string V(int v) { return fmt("%d", v); }
static std::string V(bool v) { return v ? "true" : "false"; }
static std::string V(String const& v) { return S(v); }
static std::string V(double v) { return fmt("%a", v); }
template<typename T> static void typed(NamedArgs n, coil::Context& ctx, std::string const& key, NA const* f, char const* name, T def, std::vector<std::string>& errs)
{
    StringView k{key.data(), key.size()};
    std::string missing = "Missing named argument '" + cut0(key) + "'";
    std::string conv; bool ok = false; std::string val;
    if (f) { Value pv = mkValue(f->pieces); auto r = coil::TypeSerializer<T>::fromString(pv); ok = bool(r); if (ok) val = V(*r); else conv = S(r.error()); }
    auto r = n.get<T>(k);
    check(bool(r) == ok, std::string("get<") + name + ">: wrong outcome");
    if (ok) sameText(V(*r), val, "typed value");
    else { check((r.error().type == NamedArgs::Error::Type::MissingKey) == (f == nullptr), "error kind"); sameText(S(r.error().message), f ? conv : missing, "typed lookup error"); }
    for (int mode = 0; mode < 4; mode++)
    {
        bool req = mode & 1, hasDef = mode & 2;
        addCase(fmt(" getOrReport<%s>(%s,%s,%s)", name, esc(key).c_str(), req ? "required" : "optional", hasDef ? "default" : "none"));
        bool before = ctx.hasErrors(); (void)before;
        Optional<T> d; if (hasDef) d = Optional<T>(def);
        auto o = n.getOrReport<T>(k, req ? NamedArgs::ArgType::Required : NamedArgs::ArgType::Optional, coil::move(d));
        bool err = f ? !ok : req;
        if (err) errs.push_back(f ? conv : missing);
        bool want = ok || (!f && !req && hasDef);
        check(o.hasValue() == want, "reporting lookup: presence");
        if (want) sameText(V(*o), ok ? val : V(def), "reporting lookup value");
    }
}
void run()
{
    Clock c(budget);
    std::vector<std::string> keys = {"a", "b", "ab", "A", "key", std::string("a\0", 2), std::string("a\0b", 3), "", "long_key_name"};
    while (c.left())
    {
        auto nas = randNamed(keys); std::string desc = "named:";
        for (auto& a : nas) desc += " " + esc(a.key) + "=" + show(a.pieces);
        std::vector<std::string> errs; std::string look = keys[rnd(keys.size())], look2 = keys[rnd(keys.size())];
        coil::Bindings b;
        b["f"] = [&](coil::Context ctx)
        {
            NamedArgs n = ctx.namedArgs();
            check(n.size() == nas.size(), "size of named arguments");
            for (auto& key : {look, look2})
            {
                StringView k{key.data(), key.size()};
                setCase(desc + " look up " + esc(key));
                NA const* f = nullptr; size_t idx = 0;
                for (size_t i = 0; i < nas.size(); i++) if (nas[i].key == key) { f = &nas[i]; idx = i; break; }
                auto it = n.find(k);
                check((it != n.end()) == (f != nullptr) && (!f || it == n.begin() + idx), "find: wrong entry");
                auto r = n.get(k);
                check(bool(r) == (f != nullptr), "get: presence");
                if (f) check(&static_cast<Value const&>(*r) == &n.begin()[idx].value, "get: not the first entry with that key");
                else { check(r.error().type == NamedArgs::Error::Type::MissingKey, "error kind"); sameText(S(r.error().message), "Missing named argument '" + cut0(key) + "'", "missing key error"); }
                Value const* v = n.getOrReport(k); check(v == (f ? &n.begin()[idx].value : nullptr), "getOrReport (optional)");
                v = n.getOrReport(k, NamedArgs::ArgType::Required); check(v == (f ? &n.begin()[idx].value : nullptr), "getOrReport (required)");
                if (!f) errs.push_back("Missing named argument '" + cut0(key) + "'");
                typed<int>(n, ctx, key, f, "int", 17, errs); typed<bool>(n, ctx, key, f, "bool", true, errs); typed<double>(n, ctx, key, f, "double", 0.5, errs);
                typed<String>(n, ctx, key, f, "String", String("default text"), errs);
            }
            check(n.size() == nas.size(), "lookups changed the arguments");
            size_t i = 0; for (auto& a : n) { sameText(S(a.key), nas[i].key, "key after lookups"); sameText(S(a.value.str()), joined(nas[i].pieces), "value after lookups"); i++; }
        };
        coil::ExecutionInput in; in.name = "f";
        for (auto& a : nas) in.namedArguments.pushBack(coil::NamedValue{StringView{a.key.data(), a.key.size()}, mkValue(a.pieces)});
        setCase(desc);
        auto r = b.execute(coil::move(in));
        check(r.errors.size() == errs.size(), fmt("%zu errors reported, expected %zu", r.errors.size(), errs.size()));
        for (size_t i = 0; i < errs.size(); i++) sameText(S(r.errors[i]), errs[i], "reported error");
    }
}
