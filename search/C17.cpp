#include "common.h"
void run()
{
    Clock c(budget); coil::Bindings b; std::string out; std::vector<std::string> errs; size_t steps = 0; std::string hist;
    auto body = [&](coil::Context ctx)
    {
        for (size_t k = 0; k < steps; k++)
        {
            std::string t = coin(15) ? randBytes(3000) : randBytes(12), z = cut0(t); coil::String s{coil::StringView{t.data(), t.size()}}; int n = int(rnd64());
            int op = int(rnd(9)); std::string d = fmt(" %d(%s)", op, esc(t.substr(0, 40)).c_str()); addCase(d);
            switch (op)
            {
            case 0: ctx.log(s); out += t; break;
            case 1: ctx.logline(s); out += t + "\n"; break;
            case 2: ctx.logf("<%s|%d>", z.c_str(), n); out += fmt("<%s|%d>", z.c_str(), n); break;
            case 3: ctx.loglinef("%s%c%5.2f", z.c_str(), 'x', double(n) / 7); out += fmt("%s%c%5.2f", z.c_str(), 'x', double(n) / 7) + "\n"; break;
            case 4: ctx.reportError(s); errs.push_back(t); break;
            case 5: ctx.reportErrors(s, coil::String("second"), s); errs.push_back(t); errs.push_back("second"); errs.push_back(t); break;
            case 6: ctx.log(""); break;
            case 7: ctx.loglinef("%s", ""); out += "\n"; break;
            default: { coil::Context copy = ctx; copy.log(s); out += t; }
            }
            check(ctx.hasErrors() == !errs.empty(), "hasErrors disagrees with the reported errors");
        }
        check(ctx.hasErrors() == !errs.empty(), "hasErrors disagrees with the reported errors");
    };
    b["f"] = body; b["g"] = [&](coil::Context ctx) { body(ctx); return 5; }; b["quiet"] = [] { return 1; };
    b["nest"] = [&](coil::Context ctx) { body(ctx); auto o = out; auto e = errs; auto r = b.execute("quiet"); check(r.output.empty() && r.errors.empty(), "output or errors of one call leaked into another"); auto r1 = b.execute("quiet 1"); check(r1.errors.size() == 1, "errors of a nested call"); out = o; errs = e; body(ctx); };
    b["inner"] = [&](coil::Context ctx) { ctx.log("inner output"); ctx.reportError("inner error"); auto so = out; auto se = errs; out.clear(); errs.clear(); auto r = b.execute("f"); sameText(S(r.output), out, "nested output"); check(r.errors.size() == errs.size(), "nested errors"); out = "inner output" + so; errs = se; errs.insert(errs.begin(), "inner error"); };
    while (c.left())
    {
        static char const* cmds[] = {"f", "g", "nest", "inner", "quiet", "missing", "f ("}; int q = int(rnd(7)); steps = rnd(8); out.clear(); errs.clear(); setCase(std::string("execute ") + cmds[q] + ":");
        auto r = b.execute(coil::StringView{cmds[q]});
        if (q < 4)
        {
            sameText(S(r.output), out, "output"); check(r.errors.size() == errs.size(), fmt("%zu errors, expected %zu", r.errors.size(), errs.size()));
            for (size_t i = 0; i < errs.size(); i++) sameText(S(r.errors[i]), errs[i], "error");
            check(r.returnValue.hasValue() == (q == 1 && errs.empty()), "return value presence");
        }
        else { check(r.output.empty(), "output leaked from another call"); check(r.errors.size() == (q == 4 ? 0u : 1u), "errors leaked from another call"); }
    }
}
