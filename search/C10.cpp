#include "vec.h"
// lifetimes through every container and through the registry
using coil::Optional; using coil::Expected;
static void optTrial()
{
    setCase("optionals/expected of tracked objects:");
    {
        Optional<Tr> o[2]; Expected<Tr, Tr> e[2] = {Tr(1), coil::makeUnexpected(Tr(2))};
        Expected<Tr, coil::String> es[2] = {Tr(1), coil::makeUnexpected(coil::String("long error message to be on the heap"))};
        for (int k = 0; k < 20; k++)
        {
            size_t a = rnd(2), b = rnd(2); int op = int(rnd(16)); addCase(fmt(" %d(%zu,%zu)", op, a, b));
            switch (op)
            {
            case 0: o[a] = o[b]; break;
            case 1: if (a != b) o[a] = coil::move(o[b]); break;
            case 2: o[a] = Tr(k); break;
            case 3: o[a] = {}; break;
            case 4: { Optional<Tr> t(o[a]); Optional<Tr> u(coil::move(t)); if (u) u->use(); } break;
            case 5: e[a] = e[b]; break;
            case 6: if (a != b) e[a] = coil::move(e[b]); break;
            case 7: e[a] = Tr(k); break;
            case 8: e[a] = coil::makeUnexpected(Tr(k)); break;
            case 9: { Expected<Tr, Tr> t(e[a]); Expected<Tr, Tr> u(coil::move(t)); if (u) u->use(); else u.error().use(); } break;
            case 10: es[a] = es[b]; break;
            case 11: if (a != b) es[a] = coil::move(es[b]); break;
            case 12: es[a] = coil::makeUnexpected(coil::String("another long error message, also heap")); break;
            case 13: es[a] = Tr(k); break;
            case 14: { Expected<Tr, coil::String> t(es[a]); es[b] = t; if (t) { Tr x = *coil::move(t); x.use(); } } break;
            default: { coil::UniquePtr<Tr> p = coil::makeUnique<Tr>(5l); coil::UniquePtr<Tr> q(coil::move(p)); coil::UniquePtr<Tr> r = coil::makeUnique<Tr>(6l); if (coin()) r = coil::move(q); if (coin()) q = coil::move(p); if (q) q->use(); }
            }
        }
    }
    allGone("optional/expected/owning pointer");
}
template<int N> struct Fn { Tr t; explicit Fn(long v) : t(v) {} void operator()(coil::StringView) const { t.use(); } };
struct Fn0 { Tr t; explicit Fn0(long v) : t(v) {} void operator()() const { t.use(); } };
struct Fn1 { Tr t; explicit Fn1(long v) : t(v) {} coil::String operator()(coil::Context c, int v) const { t.use(); if (v > 100) c.reportError("too big for this command to handle"); c.log("some output that is long enough"); return "a returned text of some length"; } };
struct Fn2 { Tr t; explicit Fn2(long v) : t(v) {} void operator()(Tr const& x) const { t.use(); x.use(); } };
namespace coil { template<> struct TypeSerializer<Tr> { static Expected<Tr, String> fromString(Value const& v) { if (v.subvalues.size() == 1 && v.subvalues[0].length() < 3) return Tr(long(v.subvalues[0].length())); return makeUnexpected(String("not a tracked object value at all")); } static String toString(Tr const& t) { t.use(); return "tracked"; } }; }
COIL_CREATE_TYPE_NAME(Tr, "Tr");
struct Guard { long m = 0x1234; void use() const { check(m == 0x1234, "wrong object"); } };
struct Obj { Guard t; int f(int x) { t.use(); return x; } void g() const { t.use(); } int get() const { t.use(); return 1; } void set(int) { t.use(); } };
static Obj* obj; static int freeFn(int x) { return x; }
static void registry()
{
    setCase("registry of tracked callables:");
    {
        coil::Bindings b; std::vector<std::string> n = {"a", "b", "c", "dd", "ee", "f"};
        size_t steps = coin(4) ? 60 : 15;
        for (size_t k = 0; k < steps; k++)
        {
            std::string nm = n[rnd(n.size())]; coil::StringView v{nm.data(), nm.size()}; int op = int(rnd(14)); addCase(fmt(" %d:%s", op, nm.c_str()));
            switch (op)
            {
            case 0: b[v] = Fn0(long(k)); break;
            case 1: b[v] = coil::overloaded(Fn0(1), Fn1(2), Fn2(3)); break;
            case 2: b.add(v, Fn<1>(4)); break;
            case 3: b.remove(v); break;
            case 4: { Tr var(3); static long keep; keep = 0; b[v] = coil::variable(&keep); } break;
            case 5: b[v] = coil::overloaded(Fn2(1)); break;
            case 6: if (coin(10)) b.clear(); else if (coin()) { coil::Bindings t(coil::move(b)); coil::Bindings u; u = coil::move(t); b = coil::move(u); } break;
            case 7: b[v] = coil::bind(coin() ? &Obj::f : &Obj::f, obj); break;
            case 8: b[v] = coin() ? coil::overloaded(&freeFn, coil::bind(&Obj::g, obj)) : coil::overloaded(coil::bind(&Obj::g, static_cast<Obj const*>(obj))); break;
            case 9: b[v] = coin() ? coil::bindProperty(&Obj::get, &Obj::set, obj) : coil::bindProperty(&Obj::get, obj); break;
            case 10: { Tr cap(9); b[v] = coil::property([cap] { cap.use(); return 1; }, [cap](int) { cap.use(); }); static long const ro = 4; if (coin()) b[v] = coil::variable(&ro); } break;
            default: { static char const* args[] = {"", " 5", " 500", " x", " x=1", " (a b) c", " 'x", " abcd", " a b c d"}; std::string cmd = nm + args[rnd(9)]; addCase(" " + cmd); auto r = b.execute(coil::StringView{cmd.c_str()}); (void)r; }
            }
        }
    }
    allGone("registry");
}
void run()
{
    Clock c(budget);
    obj = new Obj;
    long before = -1; { coil::Bindings b; b["x"] = [] {}; b.execute("x"); } before = live;
    while (c.left())
    {
        vecTrial<Tr>("tracked objects");
        for (int i = 0; i < 5; i++) optTrial();
        for (int i = 0; i < 5; i++) registry();
        check(Tr::alive.empty() && live == before, fmt("memory leaked: %ld allocations", live - before));
    }
}
