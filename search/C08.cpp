#include "common.h"
// registry and hash map as maps
#include "coil/detail/UnorderedMap.h"
struct Key
{
    int k; Key(int k = 0) : k(k) {}
    bool operator==(Key const& r) const { return k == r.k; }
};
static int hashMode = 0;
namespace coil
{
    template<> struct Hash<Key> { size_t operator()(Key const& v) { return hashMode == 0 ? size_t(v.k) : hashMode == 1 ? 7 : hashMode == 2 ? size_t(v.k) * 0x9E3779B97F4A7C15ull : size_t(v.k / 3); } };
}
template<typename M> static void cmp(M& m, std::map<int, long> const& w, int maxKey)
{
    check(m.size() == w.size(), fmt("size %zu, expected %zu", m.size(), w.size()));
    M const& cm = m; size_t n = 0; std::map<int, int> seen;
    for (auto it = cm.begin(); it != cm.end(); ++it) { n++; check(seen[it->key().k]++ == 0, "a key is listed twice"); auto f = w.find(it->key().k); check(f != w.end() && f->second == long(*it->value()), "iteration shows a wrong entry"); }
    check(n == w.size(), "iteration misses entries");
    for (int k = -1; k <= maxKey; k++)
    {
        auto it = m.find(Key(k)); auto ci = cm.find(Key(k)); auto f = w.find(k);
        check((it != m.end()) == (f != w.end()) && (ci != cm.end()) == (f != w.end()), fmt("find(%d): wrong presence", k));
        if (it != m.end()) check(it->key().k == k && long(*it->value()) == f->second && long(*(*ci).value()) == f->second, fmt("find(%d): wrong entry", k));
    }
}
struct Box { long* p; Box(long v) : p(new long(v)) {} Box(Box&& r) : p(r.p) { r.p = nullptr; } Box& operator=(Box&& r) { std::swap(p, r.p); return *this; } ~Box() { delete p; } long operator*() const { return *p; } };
static void maps()
{
    static size_t const bc[] = {1, 1, 0, 2, 3, 7, 16}; static float const lf[] = {1.0f, 1.0f, 0.5f, 0.25f, 2.0f, 100.0f, 0.9f};
    int cfg = int(rnd(7)), cf2 = int(rnd(7)); hashMode = int(rnd(4)); int maxKey = coin() ? 4 : 3 + int(rnd(40));
    long before = live;
    {
        setCase(fmt("map buckets=%zu load=%g hash=%d:", bc[cfg], double(lf[cf2]), hashMode));
        coil::UnorderedMap<Key, Box> m(bc[cfg], lf[cf2]); std::map<int, long> w; long val = 0;
        size_t steps = coin(4) ? 120 : 25;
        for (size_t s = 0; s < steps; s++)
        {
            int k = int(rnd(size_t(maxKey + 1)));
            switch (rnd(coin(3) ? 8 : 7))
            {
            case 0: case 1: case 2: case 3: { addCase(fmt(" set(%d)", k)); auto it = m.insertOrAssign(Key(k), Box(++val)); w[k] = val; check(it->key().k == k && *it->value() == val, "insertOrAssign returned a wrong position"); break; }
            case 4: case 5: case 6: addCase(fmt(" erase(%d)", k)); m.erase(Key(k)); w.erase(k); break;
            default: if (coin(3)) { addCase(" clear"); m.clear(); w.clear(); } else if (coin()) { addCase(" move"); coil::UnorderedMap<Key, Box> t(coil::move(m)); m = coil::move(t); } break;
            }
            cmp(m, w, maxKey);
        }
    }
    check(live == before, "map leaked memory");
}
static void registry()
{
    std::vector<std::string> names = {"a", "b", "ab", "ba", "", "c", std::string("a\0", 2), std::string("a\0b", 3), "command", "commanD", "Aa", "BB", "\xff", "\x80\xff", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"};
    for (size_t i = 0, n = rnd(30); i < n; i++) names.push_back(coin() ? fmt("n%zu", i) : randBytes(8));
    setCase("registry:");
    coil::Bindings b; std::map<std::string, std::vector<int>> w; int id = 0; static std::vector<int> ran; static int cur;
    size_t steps = coin(4) ? 200 : 30;
    for (size_t s = 0; s < steps; s++)
    {
        std::string nm = names[rnd(names.size())];
        {
        Exact e(nm); // the name's storage goes away after the call
        switch (rnd(8))
        {
        case 0: case 1: { addCase(" add(" + esc(nm) + ")"); int i = ++id; auto& c = b.add(e.view(), [i] { cur = i; }); w[nm] = {i}; sameText(S(c.name), nm, "name reported by add"); check(c.functors.size() == 1, "overloads reported by add"); break; }
        case 2: { addCase(" add2(" + esc(nm) + ")"); int i = ++id, j = ++id; b[e.view()] = coil::overloaded([i] { cur = i; }, [j](coil::Value) { cur = j; }); w[nm] = {i, j}; break; }
        case 3: { addCase(" assign(" + esc(nm) + ")"); int i = ++id; b[e.view()] = [i] { cur = i; }; w[nm] = {i}; break; }
        case 4: case 5: addCase(" remove(" + esc(nm) + ")"); if (coin()) b.remove(e.view()); else b[e.view()] = nullptr; w.erase(nm); break;
        case 6: { auto* c = b.get(e.view()); if (c && coin()) { addCase(" remove-by-own-name(" + esc(nm) + ")"); b.remove(c->name); w.erase(nm); } else if (c) { addCase(" re-add-by-own-name(" + esc(nm) + ")"); int i = ++id; b.add(c->name, [i] { cur = i; }); w[nm] = {i}; } break; }
        default: if (coin(12)) { addCase(" clear"); b.clear(); w.clear(); } else if (coin(6)) { addCase(" move"); coil::Bindings t(coil::move(b)); b = coil::move(t); }
        }
        }
        for (auto& k : names)
        {
            Exact e(k);
            auto* c = b.get(e.view()); auto f = w.find(k);
            check((c != nullptr) == (f != w.end()), c ? "found a name that is not registered: " + esc(k) : "lost a registered name: " + esc(k));
            if (!c) continue;
            sameText(S(c->name), k, "command's own name");
            check(c->functors.size() == f->second.size(), "overload list of " + esc(k));
            if (k.empty()) continue;
            coil::ExecutionInput in; in.name = e.view(); cur = 0;
            auto r = b.execute(coil::move(in)); check(cur == f->second[0] && r.errors.empty(), "executing " + esc(k) + " ran something else");
        }
    }
}
void run()
{
    Clock c(budget);
    while (c.left()) { for (int i = 0; i < 20; i++) maps(); registry(); }
}
