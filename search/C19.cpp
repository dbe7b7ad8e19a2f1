#include "common.h"
#include "coil/StdLibCompat.h"
#include <sstream>
template<typename T> static void elem(char const* name, std::function<bool(std::string const&, std::string&, std::string&)> conv, std::vector<std::string> const& pieces)
{
    // conv: piece -> ok?, text form, error text
    setCase(std::string("vector<") + name + "> from " + show(pieces));
    auto v = mkValue(pieces); auto r = coil::TypeSerializer<std::vector<T>>::fromString(v);
    std::string form = "[", err; bool ok = true; std::vector<std::string> forms;
    for (auto& p : pieces) { std::string f, e; if (!conv(p, f, e)) { ok = false; err = e; break; } forms.push_back(f); }
    for (size_t i = 0; i < forms.size(); i++) form += (i ? ", " : "") + forms[i];
    form += "]";
    check(bool(r) == ok, ok ? "a vector of convertible pieces was rejected" : "a vector with an unconvertible piece was accepted");
    if (ok)
    {
        check(r.value().size() == pieces.size(), fmt("%zu elements from %zu pieces", r.value().size(), pieces.size()));
        sameText(S(coil::TypeSerializer<std::vector<T>>::toString(r.value())), form, "text form of the vector");
        size_t i = 0; for (T const& x : r.value()) { sameText(S(coil::TypeSerializer<T>::toString(x)), forms[i], fmt("element %zu", i)); i++; }
    }
    else sameText(S(r.error()), genericError(std::string("vector<") + name + ">", pieces, err), "error of the vector");
    setCase(std::string("optional<") + name + "> from " + show(pieces));
    auto o = coil::TypeSerializer<std::optional<T>>::fromString(v);
    if (pieces.empty() || pieces[0].empty()) { check(bool(o) && !o.value().has_value(), "an absent value did not become an empty optional"); sameText(S(coil::TypeSerializer<std::optional<T>>::toString(o.value())), "", "text form of the empty optional"); return; }
    std::string f, e; bool good = conv(pieces[0], f, e);
    check(bool(o) == good, good ? "a convertible optional was rejected" : "an unconvertible optional was accepted");
    if (good) { check(o.value().has_value(), "the optional is empty"); sameText(S(coil::TypeSerializer<T>::toString(o.value().value())), f, "value of the optional"); sameText(S(coil::TypeSerializer<std::optional<T>>::toString(o.value())), f, "text form of the optional"); }
    else sameText(S(o.error()), genericError(std::string("optional<") + name + ">", pieces, e), "error of the optional");
}
static bool convInt(std::string const& p, std::string& f, std::string& e)
{
    char* end; errno = 0; std::string z = p; long v = strtol(z.c_str(), &end, 10);
    bool ok = !z.empty() && *end == 0 && errno == 0 && v >= INT_MIN && v <= INT_MAX && size_t(end - z.c_str()) == z.size();
    if (ok) f = fmt("%ld", v); else e = genericError("int", {p});
    return ok;
}
static bool convBool(std::string const& p, std::string& f, std::string& e)
{
    std::string l; for (char c : p) l += char(tolower((unsigned char)c));
    if (p == "1" || l == "true") { f = "true"; return true; }
    if (p == "0" || l == "false") { f = "false"; return true; }
    e = genericError("bool", {p}); return false;
}
static bool convStr(std::string const& p, std::string& f, std::string&) { f = p; return true; }
void run()
{
    Clock c(budget);
    static char const* ints[] = {"0", "12", "-7", "31", "2147483647", "2147483648", "", "1x", "abc", "-2147483648", "10"};
    static char const* bools[] = {"0", "1", "true", "FALSE", "tRuE", "", "2", "yes", "truex"};
    while (c.left())
    {
        std::vector<std::string> a, b, t; size_t n = coin(30) ? rnd(200) : rnd(6); bool good = coin();
        for (size_t i = 0; i < n; i++) { a.push_back(ints[rnd(good ? 5 : 11)]); b.push_back(bools[rnd(good ? 5 : 9)]); t.push_back(randBytes(coin(10) ? 300 : 8)); }
        elem<int>("int", convInt, a); elem<bool>("bool", convBool, b); elem<coil::String>("string", convStr, t); elem<std::string>("string", convStr, t);
        setCase("std::string and std::string_view from " + show(t)); auto v = mkValue(t);
        auto s = coil::TypeSerializer<std::string>::fromString(v); auto w = coil::TypeSerializer<std::string_view>::fromString(v);
        check(bool(s) == (t.size() == 1) && bool(w) == (t.size() == 1), "wrong acceptance");
        if (s)
        {
            sameText(s.value(), t[0], "std::string"); sameText(std::string(w.value()), t[0], "std::string_view"); check(w.value().data() == v.subvalues[0].data(), "the view was copied");
            sameText(S(coil::TypeSerializer<std::string>::toString(s.value())), t[0], "std::string text"); sameText(S(coil::TypeSerializer<std::string_view>::toString(w.value())), t[0], "std::string_view text");
            std::ostringstream os; os << coil::StringView{t[0].data(), t[0].size()} << '|' << coil::String{coil::StringView{t[0].data(), t[0].size()}}; sameText(os.str(), t[0] + "|" + t[0], "stream output");
            sameText(S(coil::fromStdString(t[0])), t[0], "fromStdString"); sameText(coil::toStdString(coil::StringView{t[0].data(), t[0].size()}), t[0], "toStdString");
        }
        else { sameText(S(s.error()), countError("string", t), "error"); sameText(S(w.error()), countError("string", t), "error"); }
        sameText(S(coil::TypeSerializer<std::string_view>::toString(std::string_view{})), "", "empty view");
        // nested: vector<optional<int>>
        setCase("vector<optional<int>> from " + show(a)); auto va = mkValue(a); auto vo = coil::TypeSerializer<std::vector<std::optional<int>>>::fromString(va); bool ok = true; std::string form = "[", err;
        for (size_t i = 0; i < a.size() && ok; i++) { std::string f, e; if (!a[i].empty() && !convInt(a[i], f, e)) { ok = false; err = genericError("optional<int>", {a[i]}, e); } form += (i ? ", " : "") + f; }
        check(bool(vo) == ok, "nested containers"); if (ok) sameText(S(coil::TypeSerializer<std::vector<std::optional<int>>>::toString(vo.value())), form + "]", "nested containers"); else sameText(S(vo.error()), genericError("vector<optional<int>>", a, err), "nested error");
    }
}
