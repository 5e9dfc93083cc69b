// Each rewriting pass, on designs that contain what it rewrites, must leave the behaviour alone.
#include "drv.hh"
#include "equiv.hh"
#include "pipeline.hh"

using namespace rd;

static void judge(drv::Case& c, eq::Res& res) {
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    c.st.add("ff_activations", res.ffs);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
}
static void run(drv::Case& c, Rng& r, Opt& o, std::vector<std::string> seq, std::function<void(Builder&, Mod&)> mark = nullptr) {
    Context ctx;
    Builder b(r, o, ctx);
    Mod m = b.module("top", o.child_depth, true);
    if (mark) mark(b, m);
    std::string names;
    for (auto& s : seq) names += s + " ";
    if (c.a.show) std::cerr << "// passes: " << names << "\n" << b.golden << "\n//--------\n";
    std::string text;
    try {
        text = pl::emit(*m.g, seq);
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << text << "\n";
    auto res = eq::compare(b.golden, m.gn, text, m.g->name, eq::spec_of(m), r, 24);
    judge(c, res);
    for (auto& s : seq) c.st.add("pass." + s);
    c.st.merge(b.feat, "feat.");
    if (res.toggles) c.st.see(b.golden);
    c.st.sample("passes: " + names + "\n" + b.golden);
}
static std::vector<std::string> tail(Rng& r, bool fanout) {
    std::vector<std::string> s = {"zero_out_stubs"};
    if (fanout) s.push_back("remove_fanout_one_wires");
    for (auto* n : {"zero_generator_inputs", "verify_generator_connectivity", "decouple_generator_ports", "fix_assignment_type"}) s.push_back(n);
    return s;
}
static void finish(std::vector<std::string>& s) {
    for (auto* n : {"verify_assignments", "hash_generators_parallel", "uniquify_generators", "create_module_instantiation", "create_interface_instantiation"}) s.push_back(n);
}
// logic-rewriting passes in random order and number
static void logic(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.range(2, 7);
    o.child_depth = r.below(2);
    o.expr_depth = r.range(1, 2);
    o.case_ladders = r.chance(70);
    o.bitwires = r.chance(70);
    o.ladder_sets = r.chance(60);
    o.empty_blocks = r.chance(50);
    o.unused = r.chance(50);
    o.max_width = r.chance(60) ? 8 : 72;
    o.single_driver = false;
    o.const_wires = r.chance(50);
    std::vector<std::string> pool = {"merge_if_block", "transform_if_to_case", "dead_code_elimination", "remove_empty_block", "merge_wire_assignments", "remove_unused_vars", "remove_unused_stmts",
                                     "merge_const_port_assignment", "remove_fanout_one_wires", "sort_stmts"};
    std::vector<std::string> s = {"fix_assignment_type"};
    std::string only;
    if (c.a.opt.count("only")) only = c.a.opt.at("only");
    uint32_t n = r.range(1, 5);
    if (!only.empty())
        s.push_back(only);
    else
        for (uint32_t i = 0; i < n; i++) s.push_back(r.pick(pool));
    for (auto& x : tail(r, false)) s.push_back(x);
    n = r.below(3);
    if (only.empty())
        for (uint32_t i = 0; i < n; i++) s.push_back(r.pick(pool));
    finish(s);
    run(c, r, o, s);
}
// hierarchy and wiring
static void hier(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.range(3, 7);
    o.child_depth = r.range(1, 2);
    o.expr_depth = r.range(1, 2);
    o.max_width = r.chance(60) ? 8 : 72;
    o.hier = true;
    auto flag = [&](const char* n, uint32_t pct) {
        bool x = r.chance(pct);
        return c.a.opt.count(n) ? c.a.opt.at(n) == "1" : x;
    };
    bool pass = flag("pass", 60), inl = flag("inl", 50), lift = flag("lift", 40), bundle = flag("bundle", 50), legal = flag("legal", 15), fanout = flag("fanout", 50), konst = flag("const", 40),
         unused = flag("unused", 40), par = flag("par", 50), ssa = flag("ssa", 20), sort = flag("sort", 20);
    o.inlines = inl;
    o.bundles = bundle;
    o.clash = r.chance(25);
    o.const_wires = flag("kwire", 50);
    o.direct_ports = flag("direct", 40);
    o.lane_clones = flag("clone", 50) && !pass && !inl && !bundle;
    std::vector<std::string> s;
    if (ssa) s.push_back("ssa_transform_fix");
    if (pass) s.push_back("remove_pass_through_modules");
    s.push_back("zero_out_stubs");
    if (fanout) s.push_back("remove_fanout_one_wires");
    s.push_back("zero_generator_inputs");
    if (bundle && !c.a.opt.count("nobs")) s.push_back("change_port_bundle_struct");
    s.push_back("verify_generator_connectivity");
    if (konst) s.push_back("merge_const_port_assignment");
    if (legal) s.push_back("port_legality_fix");
    s.push_back("decouple_generator_ports");
    s.push_back("fix_assignment_type");
    if (unused) s.push_back("remove_unused_vars");
    s.push_back("verify_assignments");
    if (inl) s.insert(s.end(), o.child_depth, "inline_instance");
    s.push_back("check_mixed_assignment");
    s.push_back("check_multiple_driver");
    s.push_back(par ? "hash_generators_parallel" : "hash_generators_sequential");
    s.push_back("uniquify_generators");
    s.push_back("create_module_instantiation");
    s.push_back("create_interface_instantiation");
    if (lift) s.push_back("lift_genvar_instances");
    if (sort) s.push_back("sort_stmts");
    run(c, r, o, s);
}
int main(int argc, char** argv) { return drv::run(argc, argv, {{"logic", logic}, {"hier", hier}}); }
