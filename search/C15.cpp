#include "args.h"
// properties: calls to getter and setter
static std::string log_;
struct Obj
{
    int id, v; mutable int reads = 0;
    int get() const { log_ += fmt("g%d;", id); reads++; return v; }
    int const& ref() const { log_ += fmt("g%d;", id); return v; }
    int& mref() { log_ += fmt("g%d;", id); return v; }
    void set(int x) { log_ += fmt("s%d(%d);", id, x); v = x * 2; }
    void setRef(int const& x) { log_ += fmt("s%d(%d);", id, x); v = x * 2; }
    int setRet(int x) { log_ += fmt("s%d(%d);", id, x); v = x * 2; return -1; }
};
static int gv; static int freeGet() { log_ += "g0;"; return gv; } static void freeSet(int x) { log_ += "s0(" + std::to_string(x) + ");"; gv = x * 2; }
static int objGet(Obj* o) { return o->get(); } static void objSet(Obj* o, int x) { o->set(x); }
static std::vector<std::string> randArg()
{
    static char const* one[] = {"1", "0", "-5", "true", "x", "", "300", "-", "99999999999", "7"};
    size_t n = coin(5) ? rnd(4) : 1; std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(one[rnd(10)]); return v;
}
void run()
{
    Clock c(budget);
    while (c.left())
    {
        Obj o{1, int(rnd(50))}, o2{2, 33}; gv = int(rnd(50)); coil::Bindings b; bool ro = coin(); int kind = int(rnd(8)); bool rawValue = false; int id = 1;
        auto lg = [&o] { return o.get(); }; auto ls = [&o](int x) { o.set(x); };
        switch (kind)
        {
        case 0: if (ro) { b["p"] = coil::property(lg); rawValue = true; } else b["p"] = coil::property(lg, ls); break;
        case 1: id = 0; if (ro) { b["p"] = coil::property(&freeGet); rawValue = true; } else b["p"] = coil::property(&freeGet, &freeSet); break;
        case 2: if (ro) b["p"] = coil::bindProperty(&Obj::get, &o); else b["p"] = coil::bindProperty(&Obj::get, &Obj::set, &o); break;
        case 3: if (ro) b["p"] = coil::bindProperty(&Obj::ref, &o); else b["p"] = coil::bindProperty(&Obj::ref, &Obj::setRef, &o); break;
        case 4: if (ro) b["p"] = coil::bindProperty(&objGet, &o); else b["p"] = coil::bindProperty(&objGet, &objSet, &o); break;
        case 5: if (ro) b["p"] = coil::bindProperty(&Obj::mref, &o); else b["p"] = coil::bindProperty(&Obj::mref, &Obj::setRet, &o); break;
        case 6: if (ro) b["p"] = coil::bindProperty([](Obj* x) { return x->get(); }, &o); else b["p"] = coil::bindProperty([](Obj* x) { return x->get(); }, [](Obj* x, int v) { x->set(v); }, &o); break;
        default: ro = true; b["p"] = coil::bindProperty(&Obj::get, static_cast<Obj const*>(&o)); break;
        }
        b["q"] = coil::bindProperty(&Obj::get, &Obj::set, &o2);
        if (coin(4)) { coil::Bindings t(coil::move(b)); b = coil::move(t); }
        std::string hist = fmt("%s property, kind %d:", ro ? "read-only" : "writable", kind);
        int& cell = id ? o.v : gv; int model = cell;
        for (int k = 0; k < 5; k++)
        {
            size_t argc = coin(5) ? rnd(4) : rnd(2); std::vector<std::vector<std::string>> a; hist += " execute(";
            for (size_t i = 0; i < argc; i++) { a.push_back(randArg()); hist += show(a.back()); } hist += ")"; setCase(hist);
            coil::ExecutionInput in; in.name = "p"; for (auto& x : a) in.arguments.pushBack(mkValue(x));
            log_.clear(); auto r = b.execute(coil::move(in));
            std::string err, want; bool val = false; std::string g = fmt("g%d;", id);
            bool roCall = false;
            if (argc == 0) { val = true; want = g; }
            else if (argc == 1)
            {
                auto cv = coil::TypeSerializer<int>::fromString(mkValue(a[0])); bool okc = bool(cv) || (ro && rawValue);
                if (!okc) err = S(cv.error());
                else if (ro) { err = "This property is read-only"; roCall = true; }
                else { want = fmt("s%d(%d);", id, *cv) + g; model = *cv * 2; val = true; }
            }
            else err = fmt("Wrong number of arguments to 'p': expected 0 or 1, got %zu", argc);
            if (roCall) check(log_.find('s') == std::string::npos && log_.size() <= 2 * g.size(), "a read-only property called something that modifies it: " + log_);
            else sameText(log_, want, "calls made");
            check(cell == model && o2.v == 33, "value of the property");
            check(r.errors.size() == (err.empty() ? 0u : 1u), fmt("%zu errors", r.errors.size()));
            if (!err.empty()) sameText(S(r.errors[0]), err, "error");
            check(r.returnValue.hasValue() == val, "presence of the returned value");
            if (val) sameText(S(*r.returnValue), fmt("%d", model), "returned value");
        }
    }
}
