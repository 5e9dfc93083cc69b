// Compares two SystemVerilog texts by running both on the same stimulus.
#pragma once
#include "rdesign.hh"
#include "svsim.hh"

namespace eq {
struct Port {
    std::string name;
    uint32_t total;
};
struct Spec {
    std::vector<Port> in, out;
    bool clk = false;
    int rst = 0;
};
struct Res {
    enum K { Same, Differ, Lint, Bad, Unjudged } k = Same;
    std::string msg;
    uint64_t vectors = 0, compared = 0, toggles = 0, ffs = 0;
    std::map<std::string, std::vector<sv::BV>> trace;
};
inline Spec spec_of(const rd::Mod& m) {
    Spec s;
    for (auto& p : m.in) s.in.push_back({p.n, p.total()});
    for (auto& p : m.out) s.out.push_back({p.n, p.total()});
    s.clk = m.clk;
    s.rst = m.rst;
    return s;
}
inline sv::BV rbv(rd::Rng& r, uint32_t w) {
    sv::BV v(w, 0);
    uint32_t how = r.below(8);
    for (uint32_t i = 0; i < w; i++) {
        bool b;
        switch (how) {
            case 0: b = false; break;
            case 1: b = true; break;
            case 2: b = i == 0; break;
            case 3: b = i + 1 == w; break;
            default: b = r.below(2); break;
        }
        v.set(i, b);
    }
    return v;
}
// golden must be fine: anything wrong with it is our own fault
inline Res compare(const std::string& golden, const std::string& gtop, const std::string& text, const std::string& top, const Spec& sp, rd::Rng& r, uint32_t cycles,
                   bool lint = true, bool boot = false) {
    Res res;
    std::shared_ptr<sv::Unit> ug, ue;
    std::unique_ptr<sv::Design> dg, de;
    try {
        ug = std::make_shared<sv::Unit>(sv::parse(golden));
        dg = std::make_unique<sv::Design>(*ug, gtop);
    } catch (const std::exception& e) {
        res.k = Res::Unjudged;
        res.msg = std::string("golden text: ") + e.what();
        return res;
    }
    if (!dg->issues.empty()) {
        res.k = Res::Unjudged;
        res.msg = "golden text: " + dg->issues[0];
        return res;
    }
    try {
        ue = std::make_shared<sv::Unit>(sv::parse(text));
        de = std::make_unique<sv::Design>(*ue, top);
    } catch (const sv::Unsupported& e) {
        res.k = Res::Unjudged;
        res.msg = std::string("unsupported: ") + e.what();
        return res;
    } catch (const std::exception& e) {
        res.k = Res::Bad;
        res.msg = std::string("emitted text is not acceptable: ") + e.what();
        return res;
    }
    if (lint && !de->issues.empty()) {
        res.k = Res::Lint;
        res.msg = de->issues[0];
        return res;
    }
    for (auto& p : sp.in)
        if (de->find(p.name) < 0) {
            res.k = Res::Bad;
            res.msg = "input " + p.name + " is missing";
            return res;
        }
    for (auto& p : sp.out)
        if (de->find(p.name) < 0) {
            res.k = Res::Bad;
            res.msg = "output " + p.name + " is missing";
            return res;
        }
    auto both = [&](const std::string& n, const sv::BV& v) {
        dg->set(n, v);
        de->set(n, v);
    };
    std::vector<sv::BV> last;
    auto check = [&](uint32_t c, const char* when) {
        bool first = last.empty();
        for (size_t i = 0; i < sp.out.size(); i++) {
            auto& a = dg->get(sp.out[i].name);
            auto& b = de->get(sp.out[i].name);
            res.compared++;
            if (a.w != b.w) {
                res.k = Res::Differ;
                res.msg = "output " + sp.out[i].name + " has width " + std::to_string(b.w) + " instead of " + std::to_string(a.w);
                return false;
            }
            if (a != b) {
                res.k = Res::Differ;
                res.msg = "output " + sp.out[i].name + " is " + b.hex() + " instead of " + a.hex() + " in cycle " + std::to_string(c) + " " + when;
                return false;
            }
            if (first)
                last.push_back(a);
            else if (last[i] != a) {
                res.toggles++;
                last[i] = a;
            }
        }
        return true;
    };
    try {
        if (boot) {
            // everything that has a reset starts in reset
            for (auto& p : sp.in) both(p.name, rbv(r, p.total));
            if (sp.clk) both("clk", sv::BV(1, 0));
            for (bool act : {false, true}) {
                if (sp.rst) both("rst", sv::BV(1, sp.rst == 2 ? !act : act));
                dg->run();
                de->run();
            }
        }
        for (uint32_t c = 0; c < cycles; c++) {
            for (auto& p : sp.in)
                if (c < 2 || r.chance(70)) both(p.name, rbv(r, p.total));
            if (sp.rst) {
                bool act = c == 1 || (boot && c == 0) || r.chance(8);
                both("rst", sv::BV(1, sp.rst == 2 ? !act : act));
            }
            if (sp.clk) both("clk", sv::BV(1, 0));
            dg->run();
            de->run();
            res.vectors++;
            if (!check(c, "before the edge")) return res;
            if (sp.clk) {
                both("clk", sv::BV(1, 1));
                dg->run();
                de->run();
                if (!check(c, "after the edge")) return res;
                // inputs and the reset also move while the clock is high
                if (r.chance(25)) {
                    if (sp.rst && r.chance(60)) {
                        bool act = r.chance(30);
                        both("rst", sv::BV(1, sp.rst == 2 ? !act : act));
                    } else if (!sp.in.empty()) {
                        auto& p = sp.in[r.below(sp.in.size())];
                        both(p.name, rbv(r, p.total));
                    }
                    dg->run();
                    de->run();
                    if (!check(c, "while the clock is high")) return res;
                }
            }
        }
    } catch (const sv::Unsupported& e) {
        res.k = Res::Unjudged;
        res.msg = e.what();
        return res;
    } catch (const std::exception& e) {
        res.k = Res::Bad;
        res.msg = e.what();
        return res;
    }
    res.ffs = dg->n_ff;
    return res;
}
}  // namespace eq
