// Parametrised designs against the same design built with plain numbers, for the values that are set and for other ones given from outside.
#include "drv.hh"
#include "paramgen.hh"
using namespace rd;
using pg::W;

namespace {
struct Built {
    std::string text, why;
    eq::Spec spec;
    std::vector<pg::Par> par;
};
Built build(uint64_t s, bool flat, bool generic, bool late, std::vector<int> vals, std::vector<int> first, int depth, std::map<std::string, uint64_t>* feat, const pl::P& p) {
    Built b;
    Rng r(s);
    Context ctx;
    W w(r, ctx, flat, generic, late, vals, first, feat);
    bool after = late && s % 4 == 1;
    w.after = after;
    try {
        auto& m = w.module("top", depth, nullptr);
        b.spec = w.spec;
        b.par = m.par;
        w.after = false;
        b.text = pl::emit(*m.g, pl::sequence(p));
        if (!flat && after) {
            for (size_t i = 0; i < m.par.size(); i++) m.par[i].p->set_value(vals[i]);
            w.hit("values_after_passes");
            b.text = pl::emit(*m.g, {});
        }
    } catch (const std::exception& e) {
        b.why = e.what();
    }
    return b;
}
// the design with values given from outside
std::string wrap(const Built& b, const std::vector<int>& vals) {
    std::ostringstream o;
    o << b.text << "\nmodule vtop (\n  input logic clk,\n  input logic rst";
    for (auto& x : b.spec.in) o << ",\n  input logic [" << x.total - 1 << ":0] " << x.name;
    for (auto& x : b.spec.out) o << ",\n  output logic [" << x.total - 1 << ":0] " << x.name;
    o << "\n);\ntop #(\n";
    for (size_t i = 0; i < b.par.size(); i++) o << (i ? ",\n" : "") << "  ." << b.par[i].name << "(" << b.par[i].bits << (b.par[i].sgn ? "'sh" : "'h") << std::hex << vals[i] << std::dec << ")";
    o << ")\nu (\n  .clk(clk),\n  .rst(rst)";
    for (auto& x : b.spec.in) o << ",\n  ." << x.name << "(" << x.name << ")";
    for (auto& x : b.spec.out) o << ",\n  ." << x.name << "(" << x.name << ")";
    o << "\n);\nendmodule\n";
    return o.str();
}
void params(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    std::map<std::string, uint64_t> feat;
    Rng r0(s ^ 0xabcdef);
    auto p = pl::P::random(r0);
    p.check_loop = false;
    bool generic = r0.chance(60), late = generic && r0.chance(50);
    if (c.a.opt.count("late")) late = generic = c.a.opt.at("late") == "1";
    int depth = c.a.opt.count("tiny") ? 0 : (int)r0.below(3);
    auto draw = [&] {
        std::vector<int> v;
        for (int i = 0; i < 3; i++) v.push_back(r0.range(1, 5));
        return v;
    };
    auto vals = draw(), first = draw();
    auto b = build(s, false, generic, late, vals, first, depth, &feat, p);
    std::vector<std::vector<int>> tries = {vals};
    if (generic)
        for (int i = 0; i < 2; i++) tries.push_back(draw());
    if (c.a.show) std::cerr << "// passes " << p.str() << (generic ? " generic" : "") << (late ? " late" : "") << "\n" << b.text << "\n";
    for (size_t t = 0; t < tries.size(); t++) {
        auto f = build(s, true, generic, late, tries[t], first, depth, &feat, pl::P());
        if (!f.why.empty()) {
            c.unjudged("the plain design is refused: " + f.why.substr(0, 60));
            return;
        }
        if (!b.why.empty()) {
            c.violation("rejected", "a legal design is refused: " + b.why);
            return;
        }
        if (c.a.show && (t == 0 || c.bad)) std::cerr << "// ---- flat\n" << f.text << "\n";
        Rng rv(s ^ 0x777);
        Built bb = b;
        bb.spec = f.spec;
        bool direct = t == 0;
        for (auto& q : b.par) direct &= !q.init;
        c.st.add(direct ? "as_printed" : t ? "other_values" : "current_values");
        auto res = eq::compare(f.text, "top", direct ? b.text : wrap(bb, tries[t]), direct ? "top" : "vtop", f.spec, rv, 24, t == 0, false);
        c.st.add("vectors", res.vectors);
        c.st.add("outputs_compared", res.compared);
        c.st.add("output_toggles", res.toggles);
        std::string at = t ? "with other values: " : "";
        if (t)
            for (int v : tries[t]) at += std::to_string(v) + " ";
        if (res.k != eq::Res::Same && res.k != eq::Res::Unjudged && c.a.show && t) std::cerr << "// ---- flat " << at << "\n" << f.text << "\n";
        switch (res.k) {
            case eq::Res::Same: c.st.add("agreed"); break;
            case eq::Res::Differ: c.violation("differ", at + res.msg); return;
            case eq::Res::Lint: c.violation("lint", at + res.msg); return;
            case eq::Res::Bad: c.violation("bad", at + res.msg); return;
            case eq::Res::Unjudged: c.unjudged(res.msg); break;
        }
        if (res.toggles && !t) c.st.see(b.text);
    }
    c.st.merge(feat, "feat.");
    c.st.sample("passes: " + p.str() + "\n" + b.text);
}
}  // namespace
int main(int argc, char** argv) { return drv::run(argc, argv, {{"params", params}}); }
