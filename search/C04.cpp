#include "common.h"
// dispatch by name and argument count
static std::vector<int> ran; static int idCounter = 0;
struct Ov { int arity, id; };
template<size_t... I> struct Mk
{
    template<size_t> using V = coil::Value;
    static coil::AnyFunctor mk(int id)
    {
        auto f = [id](V<I>...) { ran.push_back(id); };
        return coil::AnyFunctor{typename coil::detail::FuncTraits<decltype(f)>::FunctionWrapperType{coil::move(f)}};
    }
    static coil::AnyFunctor ctx(int id)
    {
        auto f = [id](coil::Context, V<I>...) { ran.push_back(id); };
        return coil::AnyFunctor{typename coil::detail::FuncTraits<decltype(f)>::FunctionWrapperType{coil::move(f)}};
    }
};
static coil::AnyFunctor mkFn(int arity, int id)
{
    bool c = coin(3);
    switch (arity)
    {
    case 0: return c ? Mk<>::ctx(id) : Mk<>::mk(id);
    case 1: return c ? Mk<0>::ctx(id) : Mk<0>::mk(id);
    case 2: return c ? Mk<0, 1>::ctx(id) : Mk<0, 1>::mk(id);
    case 3: return c ? Mk<0, 1, 2>::ctx(id) : Mk<0, 1, 2>::mk(id);
    default: return c ? Mk<0, 1, 2, 3>::ctx(id) : Mk<0, 1, 2, 3>::mk(id);
    }
}
static std::string accepted(std::vector<Ov> const& o)
{
    std::string r;
    for (size_t i = 0; i < o.size(); i++) { if (i) r += i + 1 == o.size() ? " or " : ", "; r += fmt("%d", o[i].arity); }
    return r;
}
void run()
{
    Clock c(budget);
    std::vector<std::string> names = {"f", "g", "ff", "f ", "", "F", std::string("f\0", 2), std::string("f\0x", 3), "add", "long_command_name_with_suffix", "long_command_name_with_suffiy"};
    while (c.left())
    {
        coil::Bindings b;
        std::map<std::string, std::vector<Ov>> model;
        size_t n = rnd(8);
        std::string desc;
        for (size_t i = 0; i < n; i++)
        {
            std::string nm = names[rnd(names.size())];
            std::vector<Ov> ov; coil::Vector<coil::AnyFunctor> fs;
            size_t k = coin(6) ? 0 : coin(8) ? rnd(14) : 1 + rnd(4);
            desc += " " + esc(nm) + ":";
            for (size_t j = 0; j < k; j++) { Ov o{int(rnd(5)), ++idCounter}; ov.push_back(o); fs.pushBack(mkFn(o.arity, o.id)); desc += fmt("%d,", o.arity); }
            b.add(coil::StringView{nm.data(), nm.size()}, coil::move(fs));
            model[nm] = ov;
        }
        for (int q = 0; q < 12; q++)
        {
            std::string nm = names[rnd(names.size())];
            size_t argc = rnd(6);
            std::vector<std::string> args;
            for (size_t i = 0; i < argc; i++) args.push_back(fmt("v%zu", i));
            bool named = coin(3), asText = coin() && nm.find_first_of(std::string(" \0", 2)) == std::string::npos;
            if (coin(6)) asText = true, nm = nm.find_first_of(std::string(" \0", 2)) == std::string::npos ? nm : "f";
            setCase("commands:" + desc + " | execute " + esc(nm) + fmt(" with %zu arguments%s%s", argc, named ? " and a named one" : "", asText ? " as text" : ""));
            ran.clear();
            std::string text = nm; for (auto& a : args) text += " " + a;
            if (named && !(asText && nm.empty() && argc == 0)) text += " key=val"; else named = false;
            coil::ExecutionInput in;
            in.name = coil::StringView{nm.data(), nm.size()};
            for (auto& a : args) in.arguments.pushBack(coil::Value{coil::StringView{a.data(), a.size()}});
            if (named) in.namedArguments.pushBack(coil::NamedValue{"key", "val"});
            std::string effName = nm; size_t effArgs = argc;
            if (asText && nm.empty() && argc) { effName = args[0]; effArgs = argc - 1; args.erase(args.begin()); }
            if (asText && nm.empty() && !argc && named) continue;
            auto r = asText ? b.execute(coil::StringView{text.data(), text.size()}) : b.execute(coil::move(in));
            std::vector<int> want; std::string err;
            auto it = model.find(effName);
            if (effName.empty()) err = "No function name is specified";
            else if (it == model.end()) err = "No function '" + cut0(effName) + "' is registered";
            else
            {
                for (auto& o : it->second) if (size_t(o.arity) == effArgs) { want.push_back(o.id); break; }
                if (want.empty()) err = "Wrong number of arguments to '" + cut0(effName) + "': expected " + accepted(it->second) + fmt(", got %zu", effArgs);
            }
            check(ran.size() == want.size(), fmt("%zu callables ran, expected %zu", ran.size(), want.size()));
            check(ran == want, "the wrong overload ran");
            check(r.errors.size() == (err.empty() ? 0u : 1u), fmt("%zu errors reported, expected %d", r.errors.size(), err.empty() ? 0 : 1));
            if (!err.empty()) sameText(S(r.errors[0]), err, "error");
            check(!r.returnValue.hasValue(), "unexpected return value");
            sameText(S(r.input.name), effName, "name handed back");
            check(r.input.arguments.size() == effArgs, "arguments handed back: count");
            for (size_t i = 0; i < effArgs; i++) { check(r.input.arguments[i].subvalues.size() == 1, "argument handed back"); sameText(S(r.input.arguments[i].subvalues[0]), args[i], "argument handed back"); }
            check(r.input.namedArguments.size() == (named ? 1u : 0u), "named arguments handed back");
            check(r.output.empty(), "unexpected output");
        }
        // text that does not parse runs nothing
        ran.clear(); static char const* badText[] = {"f 'x", "f (", "f = 3", "f x=", "= 1", "(a)", "f a==b"};
        char const* t = badText[rnd(7)]; setCase("commands:" + desc + " | execute text " + esc(t));
        auto r = b.execute(coil::StringView{t});
        check(ran.empty(), "a command ran although the text does not parse");
        check(r.errors.size() == 1 && S(r.errors[0]).rfind("Syntax error: ", 0) == 0, "exactly one syntax error expected");
        check(!r.returnValue.hasValue(), "unexpected return value");
    }
}
