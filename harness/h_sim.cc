// The library's own simulator against the reference simulator.
#include "drv.hh"
#include "equiv.hh"
#include "eval.hh"
#include "sim.hh"

using namespace rd;

static std::vector<uint64_t> split(const sv::BV& v, uint32_t w) {
    std::vector<uint64_t> o;
    for (uint32_t i = 0; i < v.w; i += w) o.push_back(v.slice(i + w - 1, i).u64());
    return o;
}
static void gens_of(Generator* g, std::vector<Generator*>& o) {
    o.push_back(g);
    for (auto& c : g->get_child_generators()) gens_of(c.get(), o);
}

static void sim_mode(drv::Case& c) {
    Rng r(c.a.seed * 7919 + c.i * 3 + 11);
    Opt o;
    o.max_width = r.chance(30) ? 16 : 64;
    o.items = r.range(2, 7);
    o.child_depth = r.below(3);
    o.expr_depth = r.range(1, 4);
    o.functions = false;
    o.loops = false;
    o.safe_index = true;
    o.safe_div = true;
    o.single_driver = false;
    Context ctx;
    Builder b(r, o, ctx);
    Mod m = b.module("top", o.child_depth, true);
    if (c.a.show) std::cerr << b.golden << "\n";
    std::shared_ptr<sv::Unit> u;
    std::unique_ptr<sv::Design> d;
    try {
        u = std::make_shared<sv::Unit>(sv::parse(b.golden));
        d = std::make_unique<sv::Design>(*u, m.gn);
    } catch (const std::exception& e) {
        return c.unjudged(std::string("golden: ") + e.what());
    }
    Simulator sim(m.g);
    auto put = [&](Var* v, const std::string& n, uint32_t w, const sv::BV& x, bool arr) {
        d->set(n, x);
        if (arr)
            sim.set(v, split(x, w));
        else
            sim.set(v, std::optional<uint64_t>(x.u64()));
    };
    // a two-state start: every variable is zero, as in the reference
    auto rst = m.rst ? m.g->get_port("rst") : nullptr;
    auto clk = m.clk ? m.g->get_port("clk") : nullptr;
    if (m.clk) put(clk.get(), "clk", 1, sv::BV(1, 0), false);
    if (m.rst) put(rst.get(), "rst", 1, sv::BV(1, m.rst == 2), false);
    std::vector<Generator*> gs;
    gens_of(m.g, gs);
    for (auto* g : gs) {
        for (auto& n : g->get_all_var_names()) {
            auto v = g->get_var(n);
            if (!v || v == clk || v == rst) continue;
            if (v->type() != VarType::Base && v->type() != VarType::PortIO) continue;
            if (g != m.g && v->type() == VarType::PortIO && std::static_pointer_cast<Port>(v)->port_direction() == PortDirection::In) continue;
            bool arr = v->size().size() > 1 || v->size()[0] > 1;
            if (sim.get(v.get()) || sim.get_array(v.get())) continue;
            if (arr) {
                uint64_t n = 1;
                for (auto x : v->size()) n *= x;
                sim.set(v.get(), std::vector<uint64_t>(n, 0));
            } else
                sim.set(v.get(), std::optional<uint64_t>(0));
        }
    }
    d->run();
    std::vector<sv::BV> last;
    std::string hist;
    uint64_t toggles = 0;
    auto check = [&](uint32_t cyc, const char* when) {
        for (size_t i = 0; i < m.out.size(); i++) {
            auto& p = m.out[i];
            auto& want = d->get(p.n);
            c.st.add("outputs_compared");
            std::optional<std::vector<uint64_t>> got;
            if (p.scalar()) {
                auto x = sim.get(p.v);
                if (x) got = std::vector<uint64_t>{*x};
            } else
                got = sim.get_array(p.v);
            auto exp = split(want, p.w);
            if (!got || *got != exp) {
                std::string s;
                if (got)
                    for (auto x : *got) s = lit(p.w, x) + " " + s;
                else
                    s = "unknown";
                if (c.a.show)
                    for (auto* g : gs)
                        for (auto& n : g->get_all_var_names()) {
                            auto v = g->get_var(n);
                            auto x = sim.get_array(v.get());
                            std::string h = v->handle_name();
                            std::cerr << h << " =";
                            if (x)
                                for (auto y : *x) std::cerr << " " << std::hex << y << std::dec;
                            auto k = h.find('.');
                            auto gp = k == std::string::npos ? h : h.substr(k + 1);
                            if (d->find(gp) >= 0) std::cerr << "   ref " << d->get(gp).hex();
                            std::cerr << "\n";
                        }
                c.violation("value", "output " + p.n + " is " + s + " instead of " + want.hex() + " in cycle " + std::to_string(cyc) + " " + when);
                return false;
            }
            if (last.size() <= i)
                last.push_back(want);
            else if (last[i] != want) {
                last[i] = want;
                toggles++;
            }
        }
        return true;
    };
    bool ok = true;
    for (uint32_t cyc = 0; ok && cyc < 16; cyc++) {
        for (auto& p : m.in)
            if (cyc < 1 || r.chance(70)) {
                put(p.v, p.n, p.w, eq::rbv(r, p.total()), !p.scalar());
                d->run();
            }
        if (m.rst) {
            bool act = cyc == 1 || r.chance(8);
            put(rst.get(), "rst", 1, sv::BV(1, m.rst == 2 ? !act : act), false);
            d->run();
        }
        c.st.add("vectors");
        ok = check(cyc, "before the edge");
        if (ok && m.clk) {
            put(clk.get(), "clk", 1, sv::BV(1, 1), false);
            d->run();
            ok = check(cyc, "after the edge");
            // inputs and the reset also move while the clock is high
            if (ok && r.chance(40)) {
                for (int k = r.range(1, 3); ok && k > 0; k--) {
                    if (m.rst && r.chance(60)) {
                        bool act = r.chance(40);
                        put(rst.get(), "rst", 1, sv::BV(1, m.rst == 2 ? !act : act), false);
                        c.st.add("reset_moves_in_high_clock");
                    } else if (!m.in.empty()) {
                        auto& p = m.in[r.below(m.in.size())];
                        put(p.v, p.n, p.w, eq::rbv(r, p.total()), !p.scalar());
                    }
                    d->run();
                    ok = check(cyc, "while the clock is high");
                }
            }
            put(clk.get(), "clk", 1, sv::BV(1, 0), false);
            d->run();
            if (ok && r.chance(30)) ok = check(cyc, "after the falling edge");
        }
    }
    c.st.add("output_toggles", toggles);
    c.st.merge(b.feat, "feat.");
    if (toggles) c.st.see(b.golden);
    c.st.sample(b.golden);
}

int main(int argc, char** argv) { return drv::run(argc, argv, {{"sim", sim_mode}}); }
