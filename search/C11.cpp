#include "common.h"
static void cmp(coil::String& s, std::string const& w, bool virgin, char const* what)
{
    check(s.length() == w.size(), fmt("%s: length %zu, expected %zu", what, s.length(), w.size()));
    check(s.slength() == int(w.size()) && s.empty() == w.empty(), "slength/empty");
    if (virgin) return; // moved-from: length only
    check(memcmp(s.cStr(), w.data(), w.size()) == 0, std::string(what) + ": got " + esc(S(s)) + ", expected " + esc(w));
    check(s.cStr()[w.size()] == '\0', "not NUL-terminated");
    check(static_cast<size_t>(s.end() - s.begin()) == w.size() && s.data() == s.cStr(), "begin/end/data");
    if (!w.empty()) check(s.back() == w.back(), "back");
}
void run()
{
    Clock c(budget);
    while (c.left())
    {
        setCase("strings:");
        long before = live;
        {
            coil::String s[3]; std::string w[3]; bool mv[3] = {};
            size_t steps = coin(5) ? 60 : 15;
            for (size_t k = 0; k < steps; k++)
            {
                size_t a = rnd(3), b = rnd(3); std::string t = coin(10) ? randBytes(300) : randBytes(9); Exact e(t); std::string tz = cut0(t);
                switch (rnd(17))
                {
                case 0: addCase(fmt(" %zu=view", a) + esc(t)); s[a] = coil::String{e.view()}; w[a] = t; mv[a] = false; break;
                case 1: addCase(fmt(" %zu=cstr", a) + esc(tz)); s[a] = coil::String{tz.c_str()}; w[a] = tz; mv[a] = false; break;
                case 2: addCase(fmt(" %zu+=view", a) + esc(t)); s[a] += e.view(); w[a] += t; mv[a] = false; break;
                case 3: addCase(fmt(" %zu+=cstr", a) + esc(tz)); s[a] += tz.c_str(); w[a] += tz; mv[a] = false; break;
                case 4: { char ch = char(rnd(256)); addCase(fmt(" %zu+=char %d", a, ch)); s[a] += ch; w[a] += ch; mv[a] = false; break; }
                case 5: addCase(fmt(" %zu.append", a) + esc(t)); s[a].append(e.p, t.size()); w[a] += t; mv[a] = false; break;
                case 6: if (mv[b]) break; addCase(fmt(" %zu+=%zu", a, b)); { std::string add = w[b]; s[a] += s[b]; w[a] += add; mv[a] = false; } break;
                case 7: if (mv[a]) break; { size_t o = rnd(w[a].size() + 1), l = rnd(w[a].size() - o + 1); addCase(fmt(" %zu+=own[%zu,%zu]", a, o, l)); std::string add = w[a].substr(o, l); int how = int(rnd(3));
                    if (coin()) { s[a].reserve(w[a].size() + l + rnd(3)); }
                    if (how == 0) s[a].append(s[a].cStr() + o, l); else if (how == 1) s[a] += coil::StringView{s[a]}.substr(o, l); else { s[a] += s[a].cStr() + o; add = cut0(w[a].substr(o)); } w[a] += add; break; }
                case 8: { size_t n = rnd(coin(5) ? 200 : 20); addCase(fmt(" %zu.resize(%zu)", a, n)); size_t o = w[a].size(); s[a].resize(n); mv[a] = false; w[a].resize(n); for (size_t i = o; i < n; i++) s[a].data()[i] = w[a][i] = char('a' + i % 26); break; }
                case 9: { size_t n = rnd(60); addCase(fmt(" %zu.reserve(%zu)", a, n)); s[a].reserve(n); break; }
                case 10: addCase(fmt(" %zu=copy %zu", a, b)); s[a] = static_cast<coil::String const&>(s[b]); w[a] = w[b]; mv[a] = mv[b]; break;
                case 11: if (a == b) break; addCase(fmt(" %zu=move %zu", a, b)); s[a] = coil::move(s[b]); w[a] = w[b]; mv[a] = mv[b]; s[b] = coil::String{"reset"}; w[b] = "reset"; mv[b] = false; break;
                case 12: { addCase(fmt(" copy-construct %zu", a)); coil::String x(s[a]); cmp(x, w[a], mv[a], "copy"); x += "!"; std::string y = w[a] + "!"; cmp(x, y, false, "changed copy"); break; }
                case 13: { addCase(fmt(" move-construct %zu", a)); coil::String x(coil::move(s[a])); cmp(x, w[a], mv[a], "moved"); check(s[a].length() == 0, "moved-from length"); w[a].clear(); mv[a] = true; break; }
                case 14: if (mv[a] || mv[b]) break; { addCase(fmt(" concat %zu %zu", a, b)); coil::String x = s[a] + s[b]; std::string y = w[a] + w[b]; cmp(x, y, false, "concatenation"); x = s[a] + e.view(); y = w[a] + t; cmp(x, y, false, "concatenation with a view"); x = s[a] + tz.c_str(); y = w[a] + tz; cmp(x, y, false, "concatenation with text"); x = s[a] + 'q'; y = w[a] + 'q'; cmp(x, y, false, "concatenation with a character"); break; }
                case 15: if (mv[a] || mv[b]) break; addCase(fmt(" compare %zu %zu", a, b)); check((s[a] == s[b]) == (w[a] == w[b]), "equality of strings"); check((s[a] == e.view()) == (w[a] == t), "equality with a view"); check((s[a] == tz.c_str()) == (w[a] == tz), "equality with text"); break;
                default: if (mv[a]) break; { coil::StringView x = s[a]; sameText(S(x), w[a], "view of the string"); }
                }
                for (int i = 0; i < 3; i++) cmp(s[i], w[i], mv[i], "content");
            }
        }
        check(live == before, "string leaked memory");
    }
}
