// Passes that add logic: clock enables, synchronous resets and pipeline registers. The golden text already has that logic.
#include "drv.hh"
#include "equiv.hh"
#include "pipeline.hh"

using namespace rd;

static void judge(drv::Case& c, eq::Res& res) {
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    c.st.add("ff_activations", res.ffs);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
}
static void run(drv::Case& c, Rng& r, Opt& o, std::vector<std::string> front, bool pipe) {
    Context ctx;
    Builder b(r, o, ctx);
    Mod m = b.module("top", o.child_depth, true);
    if (o.srst) Builder::mark(*m.g, r.chance(50) ? "pass" : "", std::string("sync-reset=srst") + (o.over_cen ? ";over_clk_en=true" : r.chance(50) ? ";over_clk_en=false" : ""));
    auto sp = eq::spec_of(m);
    if (!m.aux.empty()) sp.in.push_back({m.aux, 1});
    if (o.cen) sp.in.push_back({"clk_en", 1});
    if (o.srst) sp.in.push_back({"srst", 1});
    auto p = pl::P::random(r);
    p.passthrough = false;  // would change what is inserted where
    p.pipeline = pipe;
    p.dce = r.chance(25);
    auto seq = pl::sequence(p);
    // the insertion passes come first, as users run them
    seq.insert(seq.begin(), front.begin(), front.end());
    std::string names;
    for (auto& s : front) names += s + " ";
    names += p.str();
    if (c.a.show) std::cerr << "// passes: " << names << "\n" << b.golden << "\n//--------\n";
    std::string text;
    try {
        text = pl::emit(*m.g, seq);
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << text << "\n";
    auto res = eq::compare(b.golden, m.gn, text, m.g->name, sp, r, 32, true, false);
    judge(c, res);
    c.st.merge(b.feat, "feat.");
    if (res.toggles) c.st.see(b.golden);
    c.st.sample("passes: " + names + "\n" + b.golden);
}
static Opt base(Rng& r) {
    Opt o;
    o.items = r.range(2, 6);
    o.child_depth = r.below(3);
    o.expr_depth = r.range(1, 2);
    o.max_width = r.chance(70) ? 8 : 72;
    o.hier = r.chance(30);
    o.lane_clones = false;
    o.same_name_children = r.chance(20);
    o.bundles = r.chance(15);
    return o;
}
static bool tiny(drv::Case& c, Opt& o) {
    if (!c.a.opt.count("tiny")) return false;
    o.items = 1;
    o.expr_depth = 1;
    o.child_depth = c.a.opt.at("tiny") == "1";
    o.hier = o.switches = o.loops = o.functions = o.arrays = o.is_signed = false;
    o.max_width = 4;
    return true;
}
static void clken(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o = base(r);
    o.cen = true;
    run(c, r, o, {"auto_insert_clock_enable"}, false);
}
static void sreset(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o = base(r);
    o.srst = true;
    o.cen = r.chance(60);
    o.over_cen = r.chance(50);
    std::vector<std::string> f;
    if (o.cen) f.push_back("auto_insert_clock_enable");
    f.push_back("auto_insert_sync_reset");
    run(c, r, o, f, false);
}
static void pipe(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o = base(r);
    o.pipe = r.range(30, 70);
    tiny(c, o);
    run(c, r, o, {}, true);
}
int main(int argc, char** argv) { return drv::run(argc, argv, {{"clken", clken}, {"sreset", sreset}, {"pipe", pipe}}); }
