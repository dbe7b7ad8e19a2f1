#include "tracked.h"
static long valOf(Tr const& t) { t.use(); return t.v; }
static long valOf(int t) { return t; }
static long valOf(coil::String const& s) { return s.length() ? atol(std::string(s.cStr(), s.length()).c_str()) : 0; }
template<typename T> static T mk(long v) { return T(v); }
template<> coil::String mk<coil::String>(long v) { return v ? coil::String(fmt("%ld", v).c_str()) : coil::String(); }
using W = std::vector<long>;
template<typename T> static void cmp(coil::Vector<T>& v, W const& w, char const* what)
{
    auto const& c = v;
    check(v.size() == w.size(), fmt("%s: size %zu, expected %zu", what, v.size(), w.size()));
    check(v.size() <= v.capacity(), "size exceeds capacity");
    check(v.empty() == w.empty(), "empty()");
    for (size_t i = 0; i < w.size(); i++)
        check(valOf(v[i]) == w[i] && valOf(c[i]) == w[i] && valOf(v.data()[i]) == w[i], fmt("%s: element %zu is %ld, expected %ld", what, i, valOf(v[i]), w[i]));
    size_t n = 0; for (auto const& x : c) { check(n < w.size() && valOf(x) == w[n], "iteration"); n++; }
    check(n == w.size(), "iteration length");
    if (!w.empty()) check(valOf(v.front()) == w.front() && valOf(v.back()) == w.back() && valOf(c.front()) == w.front() && valOf(c.back()) == w.back(), "front/back");
}
template<typename T> static void vecTrial(char const* name)
{
    setCase(std::string("vectors of ") + name + ":");
    long before = live;
    {
        coil::Vector<T> v[3]; W w[3]; long next = 1;
        size_t steps = coin(5) ? 80 : 20;
        for (size_t s = 0; s < steps; s++)
        {
            size_t a = rnd(3), b = rnd(3);
            switch (rnd(13))
            {
            case 0: case 1: case 2: addCase(fmt(" %zu.push(%ld)", a, next)); v[a].pushBack(mk<T>(next)); w[a].push_back(next++); break;
            case 3: if (!w[a].empty()) { addCase(fmt(" %zu.push(own element)", a)); size_t i = rnd(w[a].size()); v[a].pushBack(v[a][i]); w[a].push_back(long(w[a][i])); } break;
            case 4: if (!w[a].empty()) { addCase(fmt(" %zu.pop", a)); v[a].popBack(); w[a].pop_back(); } break;
            case 5: { size_t n = rnd(coin(4) ? 40 : 8); addCase(fmt(" %zu.resize(%zu)", a, n)); v[a].resize(n); w[a].resize(n, 0); break; }
            case 6: { size_t n = rnd(30); addCase(fmt(" %zu.reserve(%zu)", a, n)); v[a].reserve(n); check(v[a].capacity() >= n, "capacity after reserve"); break; }
            case 7: if (coin(3)) { addCase(fmt(" %zu.clear", a)); v[a].clear(); w[a].clear(); } break;
            case 8: if (a != b || coin()) { addCase(fmt(" %zu=copy(%zu)", a, b)); v[a] = static_cast<coil::Vector<T> const&>(v[b]); w[a] = w[b]; if (a != b) cmp(v[b], w[b], "source of copy"); } break;
            case 9: if (a != b) { addCase(fmt(" %zu=move(%zu)", a, b)); v[a] = coil::move(v[b]); w[a] = w[b]; v[b].clear(); w[b].clear(); } break;
            case 10: { addCase(fmt(" copy-construct(%zu)", a)); coil::Vector<T> t(v[a]); cmp(t, w[a], "copy"); cmp(v[a], w[a], "copied from"); t.pushBack(mk<T>(5)); if (t.size() > 1) t[0] = mk<T>(99); cmp(v[a], w[a], "original after changing the copy"); break; }
            case 11: { addCase(fmt(" move-construct(%zu)", a)); coil::Vector<T> t(coil::move(v[a])); cmp(t, w[a], "moved"); v[a] = coil::move(t); break; }
            default: { if (!w[a].empty()) { size_t i = rnd(w[a].size()); addCase(fmt(" %zu[%zu]=%ld", a, i, next)); v[a][i] = mk<T>(next); w[a][i] = next++; } { coil::Vector<T> t(v[a].begin(), v[a].end()); cmp(t, w[a], "range copy"); } coil::Vector<T> r(rnd(5)); check(r.size() == 0, "fresh vector not empty"); }
            }
            for (int i = 0; i < 3; i++) cmp(v[i], w[i], "content");
            check((v[a] == v[b]) == (w[a] == w[b]), fmt("equality of %zu and %zu", a, b));
        }
    }
    check(live == before, "vector leaked memory");
    allGone("vector");
}
