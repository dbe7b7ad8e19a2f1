#include "common.h"
void run()
{
    Clock c(budget);
    while (c.left())
    {
        std::string a = coin(8) ? randBytes(300) : randBytes(5), b = a;
        switch (rnd(6))
        {
        case 0: b = randBytes(5); break;
        case 1: if (!b.empty()) b[rnd(b.size())] ^= char(1 + rnd(255)); break;
        case 2: b += char(rnd(256)); break;
        case 3: if (!b.empty()) b.pop_back(); break;
        case 4: b += '\0'; break;
        default: break;
        }
        setCase(esc(a) + " and " + esc(b)); Exact x(a), y(b); auto va = x.view(), vb = y.view(); bool eq = a == b; coil::String sa{va}, sb{vb};
        check((va == vb) == eq && (vb == va) == eq, "equality of views"); check((va != vb) == !eq, "inequality of views");
        check((sa == sb) == eq, "equality of strings"); check((sa != sb) == !eq, "inequality of strings"); check((coil::StringView(sa) == vb) == eq, "equality of a string and a view");
        size_t ha = coil::Hash<coil::StringView>{}(va), hb = coil::Hash<coil::StringView>{}(vb), hs = coil::Hash<coil::String>{}(sa), ht = coil::Hash<coil::String>{}(sb);
        check(ha == hs && hb == ht, "the hash of a string differs from the hash of its view"); check(!eq || ha == hb, "equal texts hash differently");
       
        size_t o = rnd(a.size() + 1), l = rnd(a.size() - o + 1); auto s = va.substr(o, l); addCase(fmt(" substr(%zu, %zu)", o, l)); sameText(S(s), a.substr(o, l), "substr"); check(s.data() == va.data() + o, "substr position");
        check((va == va) && !(va != va), "a view differs from itself"); check(va.empty() == a.empty() && va.length() == a.size() && size_t(va.slength()) == a.size(), "length"); check(va.begin() == x.p && va.end() == x.p + a.size(), "range"); for (size_t i = 0; i < a.size(); i++) check(va[i] == a[i], "character");
        std::string z = cut0(a); coil::StringView vz{z.c_str()}; check(vz.length() == z.size() && S(vz) == z, "view of a terminated text");
    }
}
