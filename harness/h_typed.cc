// Structs, arrays of structs and enums against the same design written with plain vectors.
// The design is built twice from the same random choices: typed, and flat (one plain variable for each member, numbers for enum values).
#include "drv.hh"
#include "sim.hh"
#include "typedgen.hh"
using namespace rd;
using typed::W;

namespace {
void structs(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    std::map<std::string, uint64_t> feat;
    std::string text[2], why[2];
    eq::Spec spec;
    std::string names;
    bool tiny = c.a.opt.count("tiny");
    for (int k = 0; k < 2; k++) {
        Rng r(s);
        Context ctx;
        W w(r, ctx, k == 1, &feat);
        try {
            w.make_types();
            int depth = tiny ? 0 : (int)r.below(3);
            auto m = w.module("top", depth, true);
            if (k == 0) spec = w.spec;
            Rng r2(s ^ 0xabcdef);
            auto p = k == 0 ? pl::P::random(r2) : pl::P();
            p.check_loop = false;
            if (k == 0) names = p.str();
            text[k] = pl::emit(*m.g, pl::sequence(p));
        } catch (const std::exception& e) {
            why[k] = e.what();
        }
    }
    if (c.a.show) std::cerr << "// passes " << names << "\n" << text[1] << "\n// ----\n" << text[0] << "\n";
    if (!why[1].empty()) {
        c.unjudged("the plain design is refused: " + why[1]);
        return;
    }
    if (!why[0].empty()) {
        c.violation("rejected", "a legal design is refused: " + why[0]);
        return;
    }
    Rng rv(s ^ 0x777);
    auto res = eq::compare(text[1], "top", text[0], "top", spec, rv, 32, true, false);
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
    c.st.merge(feat, "feat.");
    if (res.toggles) c.st.see(text[0]);
    c.st.sample("passes: " + names + "\n" + text[0]);
}
// a fixed probe: the first member of a packed struct is the most significant one in SystemVerilog
void order(drv::Case& c) {
    Context ctx;
    auto& g = ctx.generator("top");
    auto t = std::make_shared<PackedStruct>("pair", std::vector<std::tuple<std::string, uint32_t>>{{"a", 4}, {"b", 4}});
    auto& a = g.port(PortDirection::In, "a", 4);
    auto& b = g.port(PortDirection::In, "b", 4);
    auto& o = g.port(PortDirection::Out, "o", 8);
    auto& v = g.var_packed("s", t);
    g.add_stmt(v["a"].assign(a));
    g.add_stmt(v["b"].assign(b));
    g.add_stmt(o.assign(v));
    uint64_t built_in = 0;
    {
        Simulator sim(&g);
        sim.set(&a, std::optional<uint64_t>(0xa));
        sim.set(&b, std::optional<uint64_t>(0xb));
        built_in = sim.get(&o).value_or(0);
    }
    auto u = std::make_shared<sv::Unit>(sv::parse(pl::emit(g, pl::sequence(pl::P()))));
    sv::Design d(*u, "top");
    d.set("a", sv::BV(4, 0xa));
    d.set("b", sv::BV(4, 0xb));
    d.run();
    uint64_t text = d.get("o").u64();
    std::cout << "F simulator-member-order " << (built_in != text) << " simulator " << std::hex << built_in << ", text " << text << std::dec << std::endl;
    c.st.add("member_order_probe");
}
}  // namespace
int main(int argc, char** argv) { return drv::run(argc, argv, {{"structs", structs}, {"order", order}}); }
