#include "drv.hh"
#include "equiv.hh"
#include "pipeline.hh"

using namespace rd;

static void judge(drv::Case& c, eq::Res& res) {
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    c.st.add("ff_activations", res.ffs);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
}

static void emit_mode(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.range(2, 8);
    o.child_depth = r.below(3);
    o.expr_depth = r.range(1, 4);
    o.same_name_children = r.chance(40);
    if (r.chance(25)) o.max_width = 8;
    auto p = pl::P::random(r);
    for (auto& kv : c.a.opt) {
        bool v = kv.second != "0";
        if (kv.first == "if") p.optimize_if = v;
        if (kv.first == "pass") p.passthrough = v;
        if (kv.first == "fanout") p.fanout = v;
        if (kv.first == "bundle") p.bundle = v;
        if (kv.first == "const") p.merge_const = v;
        if (kv.first == "unused") p.remove_unused = v;
    }
    if (r.chance(20)) o.single_driver = p.multi_driver = p.ff = false;
    Context ctx;
    Builder b(r, o, ctx);
    Mod m = b.module("top", o.child_depth, true);
    if (c.a.show) std::cerr << "// passes: " << p.str() << "\n" << b.golden << "\n//--------\n";
    std::string text;
    try {
        text = pl::emit(*m.g, pl::sequence(p));
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << text << "\n";
    auto res = eq::compare(b.golden, m.gn, text, m.g->name, eq::spec_of(m), r, 24);
    judge(c, res);
    c.st.merge(b.feat, "feat.");
    if (res.toggles) c.st.see(b.golden);
    c.st.sample("passes: " + p.str() + "\n" + b.golden);
}

int main(int argc, char** argv) { return drv::run(argc, argv, {{"emit", emit_mode}}); }
