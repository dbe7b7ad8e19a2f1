#include "common.h"
struct Ty { int v; Ty(int v = 0) : v(v) {} bool operator==(Ty const& r) const { return v == r.v; } bool operator!=(Ty const& r) const { return v != r.v; } Ty(Ty const&) = default; Ty(Ty&& r) : v(r.v) { r.v = -7; } Ty& operator=(Ty const&) = default; Ty& operator=(Ty&& r) { int x = r.v; r.v = -7; v = x; return *this; } };
static std::string V(Ty const& t) { return fmt("%d", t.v); }
static std::string V(coil::String const& t) { return S(t); }
static Ty mkT(int n, Ty*) { return Ty(n); }
static coil::String mkT(int n, coil::String*) { return coil::String(fmt("text %d with some length", n).c_str()); }
struct O { bool has = false; std::string v; };
template<typename T> static void cmp(coil::Optional<T>& o, O const& w, char const* what)
{
    auto const& c = o;
    check(o.hasValue() == w.has && bool(c) == w.has, std::string(what) + ": state");
    if (w.has) { sameText(V(*o), w.v, what); sameText(V(*c), w.v, what); check(c.operator->() == &*c && o.operator->() == &*o, "arrow"); }
}
template<typename T> static void opt(char const* name)
{
    setCase(std::string("optional of ") + name + ":");
    coil::Optional<T> o[3]; O w[3];
    for (int k = 0; k < 25; k++)
    {
        size_t a = rnd(3), b = rnd(3); int n = int(rnd(3)); T t = mkT(n, (T*)nullptr); std::string tv = V(t);
        int op = int(rnd(10)); addCase(fmt(" %d(%zu,%zu,%d)", op, a, b, n));
        switch (op)
        {
        case 0: case 1: o[a] = static_cast<coil::Optional<T> const&>(o[b]); w[a] = w[b]; cmp(o[b], w[b], "source of copy"); break;
        case 2: case 3: if (a == b) break; o[a] = coil::move(o[b]); w[a] = w[b]; o[b] = {}; w[b] = {}; break;
        case 4: o[a] = coil::Optional<T>{}; w[a] = {}; break;
        case 5: o[a] = coil::Optional<T>(t); w[a] = {true, tv}; break;
        case 6: { coil::Optional<T> c(o[a]); cmp(c, w[a], "copy"); cmp(o[a], w[a], "copied from"); if (c) { *c = mkT(9, (T*)nullptr); cmp(o[a], w[a], "original"); } } break;
        case 7: { coil::Optional<T> c(coil::move(o[a])); cmp(c, w[a], "moved"); check(o[a].hasValue() == w[a].has, "moved-from state"); o[a] = coil::move(c); cmp(o[a], w[a], "moved back"); } break;
        case 8: { coil::Optional<T> c(coil::move(t)); cmp(c, O{true, tv}, "constructed from a value"); } break;
        default: check((o[a] == t) == (w[a].has && w[a].v == tv), "comparison with a value");
        }
        bool eq = w[a].has == w[b].has && (!w[a].has || w[a].v == w[b].v);
        check((o[a] == o[b]) == eq && (o[a] != o[b]) == !eq, "comparison");
        for (int i = 0; i < 3; i++) cmp(o[i], w[i], "content");
    }
}
template<typename T, typename E> static void cmpE(coil::Expected<T, E>& e, O const& w, char const* what)
{
    auto const& c = e;
    check(e.hasValue() == w.has && bool(c) == w.has, std::string(what) + ": state");
    if (w.has) { sameText(V(*e), w.v, what); sameText(V(c.value()), w.v, what); check(&*c == &c.value() && c.operator->() == &*c && e.operator->() == &e.value(), "access"); }
    else { sameText(V(e.error()), w.v, what); sameText(V(c.error()), w.v, what); }
}
template<typename T, typename E> static void exp(char const* name)
{
    setCase(std::string("expected of ") + name + ":");
    using X = coil::Expected<T, E>;
    X e[3] = {mkT(0, (T*)nullptr), coil::makeUnexpected(mkT(1, (E*)nullptr)), mkT(2, (T*)nullptr)};
    O w[3] = {{true, V(mkT(0, (T*)nullptr))}, {false, V(mkT(1, (E*)nullptr))}, {true, V(mkT(2, (T*)nullptr))}};
    for (int k = 0; k < 25; k++)
    {
        size_t a = rnd(3), b = rnd(3); int n = int(rnd(3)); int op = int(rnd(10)); addCase(fmt(" %d(%zu,%zu,%d)", op, a, b, n));
        T t = mkT(n, (T*)nullptr); E x = mkT(n, (E*)nullptr); std::string tv = V(t), xv = V(x);
        switch (op)
        {
        case 0: case 1: e[a] = static_cast<X const&>(e[b]); w[a] = w[b]; cmpE(e[b], w[b], "source of copy"); break;
        case 2: case 3: if (a == b) break; e[a] = coil::move(e[b]); w[a] = w[b]; check(e[b].hasValue() == w[b].has, "moved-from state"); e[b] = T(t); w[b] = {true, tv}; break;
        case 4: e[a] = X(t); w[a] = {true, tv}; break;
        case 5: e[a] = X(coil::makeUnexpected(x)); w[a] = {false, xv}; break;
        case 6: { X c(e[a]); cmpE(c, w[a], "copy"); cmpE(e[a], w[a], "copied from"); } break;
        case 7: { X c(coil::move(e[a])); cmpE(c, w[a], "moved"); e[a] = coil::move(c); cmpE(e[a], w[a], "moved back"); } break;
        case 8: { X c(e[a]); if (c) { T y = coil::move(c).value(); sameText(V(y), w[a].v, "value moved out"); } else { E y = coil::move(c).error(); sameText(V(y), w[a].v, "error moved out"); } } break;
        default: check((e[a] == t) == (w[a].has && w[a].v == tv), "comparison with a value"); check((e[a] == coil::makeUnexpected(x)) == (!w[a].has && w[a].v == xv), "comparison with an error");
        }
        bool eq = w[a].has == w[b].has && w[a].v == w[b].v;
        check((e[a] == e[b]) == eq, "comparison");
        for (int i = 0; i < 3; i++) cmpE(e[i], w[i], "content");
    }
}
struct Base { static inline int n = 0; int id; Base(int i) : id(i) { n++; } virtual ~Base() { n--; } };
struct Der : Base { coil::String s; Der(int i) : Base(i), s("derived object text on the heap") {} };
static void uptr()
{
    setCase("owning pointers:"); long before = live;
    {
        coil::UniquePtr<Base> p[3]; int w[3] = {-1, -1, -1}; int cnt;
        for (int k = 0; k < 25; k++)
        {
            size_t a = rnd(3), b = rnd(3); int op = int(rnd(5)); addCase(fmt(" %d(%zu,%zu)", op, a, b));
            switch (op)
            {
            case 0: p[a] = coil::makeUnique<Base>(k); w[a] = k; break;
            case 1: p[a] = coil::makeUnique<Der>(k); w[a] = k; break;
            case 2: if (a != b) { int t = w[b]; p[a] = coil::move(p[b]); w[a] = t; p[b] = coil::UniquePtr<Base>{}; w[b] = -1; } break;
            case 3: { coil::UniquePtr<Base> q(coil::move(p[a])); check(!p[a] && p[a].get() == nullptr, "moved-from owning pointer still owns"); check(bool(q) == (w[a] >= 0) && (w[a] < 0 || q->id == w[a]), "moved pointer"); if (coin()) p[a] = coil::move(q); else w[a] = -1; } break;
            default: { coil::UniquePtr<Der> d = coil::makeUnique<Der>(k); auto* raw = d.get(); coil::UniquePtr<Base> c = coil::move(d); check(c.get() == raw && !d, "converted pointer"); }
            }
            cnt = 0;
            for (int i = 0; i < 3; i++) { check(bool(p[i]) == (w[i] >= 0), "pointer state"); if (w[i] >= 0) { cnt++; check(p[i]->id == w[i] && (*p[i]).id == w[i] && p[i].get()->id == w[i], "pointed object"); } }
            check(Base::n <= cnt + 3, "objects kept alive");
        }
    }
    check(Base::n == 0 && live == before, "owning pointer leaked or freed twice");
}
void run()
{
    Clock c(budget); long before = live;
    while (c.left())
    {
        for (int i = 0; i < 10; i++) { opt<Ty>("Ty"); opt<coil::String>("String"); exp<Ty, coil::String>("Ty, String"); exp<coil::String, Ty>("String, Ty"); exp<coil::String, coil::String>("String, String"); uptr(); }
        check(live == before, "memory leaked");
    }
}
