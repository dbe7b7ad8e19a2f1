// reference parser written from the grammar
#pragma once
#include "common.h"
#include "coil/detail/DefaultLexer.h"
#include "coil/detail/ExecutionInput.h"
struct RVal { std::vector<std::string> pieces; std::vector<size_t> at; };
struct RParse
{
    bool ok = true; std::string err;
    std::string name; std::vector<RVal> args; std::vector<std::pair<std::string, RVal>> named;
};
struct Delims { std::string group = "()", quotes = "'\"", seps = ",;|", spaces = " \t\n\r"; };
struct Ref
{
    Delims d;
    static bool in(std::string const& s, char c) { return s.find(c) != std::string::npos; }
    bool sep(char c) const { return in(d.spaces, c) || in(d.seps, c); }
    char cls(char c) const
    {
        if (c == '=') return 'A';
        if (in(d.spaces, c)) return 'S';
        if (in(d.group, c)) return 'G';
        if (in(d.quotes, c)) return 'Q';
        return 'P';
    }
    RVal split(std::string const& t, size_t b, size_t e) const
    {
        RVal r; size_t i = b;
        while (true)
        {
            while (i < e && sep(t[i])) i++;
            if (i >= e) return r;
            size_t s = i; bool q = false;
            for (; i < e && (q || !sep(t[i])); i++) if (in(d.quotes, t[i])) q = !q;
            size_t f = i;
            if (f - s >= 2 && in(d.quotes, t[s]) && in(d.quotes, t[f - 1])) { s++; f--; }
            r.pieces.push_back(t.substr(s, f - s)); r.at.push_back(s);
        }
    }
    RParse parse(std::string const& t) const
    {
        struct Tok { char k; size_t b, e; };
        std::vector<Tok> ts; RParse r;
        auto bad = [&](std::string m) { r = RParse{}; r.ok = false; r.err = m; return r; };
        for (size_t i = 0; i < t.size();)
        {
            char c = cls(t[i]);
            if (c == 'S') { i++; continue; }
            if (c == 'A') { ts.push_back({'A', i, i + 1}); i++; continue; }
            if (c == 'P')
            {
                size_t s = i++; char k = 'W';
                for (; i < t.size() && cls(t[i]) == 'P'; i++) if (sep(t[i])) k = 'G';
                ts.push_back({k, s, i}); continue;
            }
            size_t s = i++;
            while (i < t.size() && cls(t[i]) != c) i++;
            if (i >= t.size()) return bad(fmt("Token '%c' doesn't have a corresponding opening/closing %s", t[s], c == 'Q' ? "quote" : "token"));
            ts.push_back({c == 'Q' ? 'W' : 'G', s + 1, i}); i++;
        }
        if (ts.empty()) return r;
        auto text = [&](Tok k) { return t.substr(k.b, k.e - k.b); };
        auto val = [&](Tok k) { if (k.k == 'G') return split(t, k.b, k.e); RVal v; v.pieces.push_back(text(k)); v.at.push_back(k.b); return v; };
        if (ts[0].k != 'W') return bad("Unexpected token '" + cut0(text(ts[0])) + "' at the beginning of the expression");
        r.name = text(ts[0]);
        for (size_t i = 1; i < ts.size();)
        {
            if (ts[i].k == 'A') return bad("Unexpected token '=': no name for the named argument is provided");
            if (i + 1 < ts.size() && ts[i + 1].k == 'A')
            {
                if (i + 2 >= ts.size()) return bad("Expected an argument value, found end of string");
                if (ts[i + 2].k == 'A') return bad("Expected an argument value, found '='");
                r.named.push_back({text(ts[i]), val(ts[i + 2])}); i += 3;
            }
            else { r.args.push_back(val(ts[i])); i++; }
        }
        return r;
    }
};
inline void inside(coil::StringView v, Exact const& x, char const* what)
{
    check(v.data() >= x.p && v.data() + v.length() <= x.p + x.n && v.length() <= x.n, std::string(what) + " is not a piece of the given text");
}
enum Focus { EXACT = 1, SAFE = 2, GROUPS = 4 };
inline coil::DefaultLexer* mkLexer(Delims const& d)
{
    return new coil::DefaultLexer(coil::StringView{d.group.data(), d.group.size()}, coil::StringView{d.quotes.data(), d.quotes.size()}, coil::StringView{d.seps.data(), d.seps.size()}, coil::StringView{d.spaces.data(), d.spaces.size()});
}
inline void cmpValue(coil::Value const& v, RVal const& w, Exact const& x, int focus)
{
    if (focus & (EXACT | GROUPS))
    {
        check(v.subvalues.size() == w.pieces.size(), fmt("a value has %zu pieces, expected %zu", v.subvalues.size(), w.pieces.size()));
        for (size_t i = 0; i < w.pieces.size(); i++)
            sameText(S(v.subvalues[i]), w.pieces[i], "piece of a value");
    }
    for (size_t i = 0; i < v.subvalues.size(); i++) inside(v.subvalues[i], x, "value piece");
}
inline void parseCase(coil::DefaultLexer const& lx, Ref const& ref, std::string const& t, int focus)
{
    setCase("parse " + esc(t) + " groups=" + esc(ref.d.group) + " quotes=" + esc(ref.d.quotes) + " separators=" + esc(ref.d.seps) + " spaces=" + esc(ref.d.spaces));
    Exact x(t);
    long before = live;
    {
        auto r = lx.parse(x.view());
        RParse w = ref.parse(t);
        if (focus & EXACT)
        {
            check(bool(r) == w.ok, r ? "accepted, expected syntax error: " + w.err : "refused (" + S(r.error()) + "), expected to parse");
            if (!r) sameText(S(r.error()), w.err, "syntax error");
        }
        if (r)
        {
            if (r->name.length()) inside(r->name, x, "command name");
            if (focus & EXACT)
            {
                sameText(S(r->name), w.name, "command name");
                check(r->arguments.size() == w.args.size(), fmt("%zu positional arguments, expected %zu", r->arguments.size(), w.args.size()));
                check(r->namedArguments.size() == w.named.size(), fmt("%zu named arguments, expected %zu", r->namedArguments.size(), w.named.size()));
            }
            for (size_t i = 0; i < r->arguments.size(); i++)
            {
                if (w.ok && i < w.args.size()) cmpValue(r->arguments[i], w.args[i], x, focus);
                else cmpValue(r->arguments[i], RVal{}, x, SAFE);
            }
            for (size_t i = 0; i < r->namedArguments.size(); i++)
            {
                inside(r->namedArguments[i].key, x, "key");
                if (w.ok && i < w.named.size())
                {
                    if (focus & EXACT) sameText(S(r->namedArguments[i].key), w.named[i].first, "key");
                    cmpValue(r->namedArguments[i].value, w.named[i].second, x, focus);
                }
                else cmpValue(r->namedArguments[i].value, RVal{}, x, SAFE);
            }
        }
    }
    check(live == before, "parsing leaked memory");
}
inline void sweep(Ref const& ref, std::string const& alpha, size_t len, int focus, std::string const& pre = "", std::string const& post = "")
{
    auto* lx = mkLexer(ref.d);
    std::vector<size_t> ix;
    for (size_t n = 0; n <= len; n++)
    {
        ix.assign(n, 0);
        while (true)
        {
            std::string t = pre;
            for (size_t k : ix) t += alpha[k];
            parseCase(*lx, ref, t + post, focus);
            size_t k = 0;
            while (k < n && ++ix[k] == alpha.size()) ix[k++] = 0;
            if (k == n) break;
        }
    }
    delete lx;
}
inline void lexerRun(int focus)
{
    Clock c(budget);
    Ref def;
    sweep(def, "a ='(,", thorough ? 7 : 5, focus);
    sweep(def, "a ='(,)\"=;\n", thorough ? 5 : 4, focus);
    sweep(def, "a ='\",", thorough ? 7 : 5, focus, "f (", ")");
    sweep(def, "a,='(|", thorough ? 6 : 5, focus, "f ", " z");
    Ref hi; hi.d = {"\xff[", "\x80`", "\xfe", "\x85 "};
    sweep(hi, "a=\xff\x80\xfe\x85", thorough ? 6 : 4, focus);
    Ref odd; odd.d = {"a(", "'=", "'(", "="};
    sweep(odd, "a ='(", 4, focus);
    Ref none; none.d = {"", "", "", ""};
    sweep(none, "a ='(,", 4, focus);
    while (c.left())
    {
        Ref r;
        if (!coin(3))
        {
            std::string pool = "()[]{}'\"`,;| \t\n=ab\x80\xff\x90:"; pool += '\0';
            r.d.group = randText(pool, 3); r.d.quotes = randText(pool, 3); r.d.seps = randText(pool, 3); r.d.spaces = randText(pool, 3);
        }
        auto* lx = mkLexer(r.d);
        std::string alpha = r.d.group + r.d.quotes + r.d.seps + r.d.spaces + "=abcxyz ";
        std::string al2 = alpha + "==" + std::string(1, '\0') + "\x80\xff";
        for (int k = 0; k < 60; k++)
        {
            std::string t = coin(4) ? randBytes(40) : randText(coin(2) ? alpha : al2, coin(10) ? 3000 : 24);
            if (coin(3)) t = "cmd " + t;
            if (coin(4) && !r.d.group.empty()) t = "f " + r.d.group.substr(0, 1) + t + r.d.group.substr(0, 1);
            parseCase(*lx, r, t, focus);
        }
        delete lx;
    }
}
