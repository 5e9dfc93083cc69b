// Random state machines next to the golden text of what they mean.
#pragma once
#include "fsm.hh"
#include "rdesign.hh"
using namespace rd;


struct St {
    std::shared_ptr<FSMState> p;
    FSM* f;
    std::string name;   // as printed in graphs
    std::vector<std::pair<Ex, int>> tr;  // v == nullptr: otherwise
    std::vector<std::pair<bool, Ex>> out;  // false: unchanged
    int id = 0;
};
struct Machine {
    FSM* top;
    std::vector<FSM*> all;
    std::vector<St> st;
    std::vector<Sg> outs;
    int start = 0;
    bool moore = true, nested = false;
    std::string name;
    bool fn_local = false;
};

static Machine make(Builder& b, Mod& m, Sg& clk, Sg& rst, bool latches, bool manual, bool shared_names) {
    Rng& r = b.r;
    auto& g = *m.g;
    Machine x;
    static const std::vector<std::string> nm = {"Red", "Blue", "idle", "Busy", "S0", "S1", "wait_ack", "S_idle", "S_Red", "Done", "zz", "A"};
    x.name = m.fresh("Fsm");
    bool expl = r.chance(40);
    x.top = expl ? &g.fsm(x.name, clk.v->shared_from_this(), rst.v->shared_from_this()) : &g.fsm(x.name);
    x.all = {x.top};
    x.moore = r.chance(60);
    x.top->set_moore(x.moore);
    if (m.rst == 2 && r.chance(50)) x.top->set_reset_high(false);
    uint32_t no = r.range(1, 3);
    for (uint32_t i = 0; i < no; i++) {
        bool s = r.chance(20);
        x.outs.push_back(b.newvar(m, m.fresh("fo"), b.rwidth(), s, {}, r.chance(40) ? 2 : 0));
    }
    uint32_t nf = r.chance(30) ? r.range(1, 2) : 0;
    for (uint32_t i = 0; i < nf; i++) {
        auto n = i == 0 && r.chance(40) ? x.name + "_S" : m.fresh("Sub");
        auto& c = expl ? g.fsm(n, clk.v->shared_from_this(), rst.v->shared_from_this()) : g.fsm(n);
        c.set_moore(x.moore);
        r.pick(x.all)->add_child_fsm(&c);
        x.all.push_back(&c);
    }
    x.nested = nf;
    // defaults of outputs
    std::vector<std::pair<Var*, std::string>> def(no, {nullptr, ""});
    for (uint32_t i = 0; i < no; i++) {
        if (r.chance(30)) {
            auto e = b.konst(x.outs[i].w, false);
            if (x.outs[i].s) e = b.konst(x.outs[i].w, true);
            def[i] = {e.v, e.t};
        }
        for (auto* f : x.all) {
            auto v = x.outs[i].v->shared_from_this();
            if (def[i].first)
                f->output(v, def[i].first->shared_from_this());
            else if (r.chance(50))
                f->output(v);
            else
                f->output(x.outs[i].n);
        }
    }
    uint32_t ns = r.range(1, 7);
    std::vector<std::string> names = nm;
    for (uint32_t i = 0; i < ns; i++) {
        St s;
        s.f = i == 0 ? x.top : r.pick(x.all);
        std::string n;
        if (x.nested || shared_names) {
            do n = r.pick(nm);
            while (s.f->states().count(n));
        } else {
            // names of values are unique in a module
            n = m.fresh(r.pick(nm).c_str());
        }
        s.p = s.f->add_state(n);
        s.name = s.p->handle_name();
        x.st.push_back(s);
    }
    x.start = 0;
    for (int i = 0; i < 3; i++) {
        int k = r.below(ns);
        if (x.st[k].f == x.top) x.start = k;
    }
    for (auto& s : x.st) {
        uint32_t nt = r.below(4);
        for (uint32_t i = 0; i < nt; i++) {
            auto e = b.nk(m, m.avail, 1, false, 2);
            bool dup = false;
            for (auto& t : s.tr) dup |= t.first.v == e.v;
            if (dup) continue;
            int to = r.below(ns);
            s.p->next(x.st[to].p, e.v->shared_from_this());
            s.tr.push_back({e, to});
        }
        if (s.tr.empty() || !x.moore || r.chance(40)) {
            int to = r.below(ns);
            s.p->next(x.st[to].p, nullptr);
            s.tr.push_back({Ex{}, to});
        }
        for (uint32_t i = 0; i < no; i++) {
            auto& o = x.outs[i];
            auto v = o.v->shared_from_this();
            if (def[i].first && r.chance(40)) {
                s.out.push_back({true, Ex{def[i].first, def[i].second}});
                continue;
            }
            uint32_t k = r.below(100);
            if (latches && x.moore && k < 20 && &s != &x.st[x.start]) {
                if (r.chance(50))
                    s.p->output(v, nullptr);
                else
                    s.p->output(v, v);
                s.out.push_back({false, {}});
            } else if (k < 60) {
                uint64_t c = r.next() & mask(std::min<uint32_t>(o.s ? o.w - 1 : o.w, 62));
                s.p->output(v, (int64_t)c);
                s.out.push_back({true, Ex{nullptr, lit(o.w, c)}});
            } else {
                auto e = b.ex(m, m.avail, o.w, o.s, 1);
                s.p->output(v, e.v->shared_from_this());
                s.out.push_back({true, e});
            }
        }
    }
    if (r.chance(50))
        x.top->set_start_state(x.st[x.start].p);
    else
        x.top->set_start_state(x.st[x.start].p->name());
    // what it means
    std::string q = x.name + "_st";
    m.decls += "  logic [7:0] " + q + ";\n";
    std::string t = "  always_ff @(posedge clk, " + std::string(m.rst == 2 ? "negedge" : "posedge") + " rst) begin\n    if (" + (m.rst == 2 ? "~rst" : "rst") + ") " + q + " <= " +
                    lit(8, x.start) + ";\n    else case (" + q + ")\n";
    auto sel = [&](St& s, int self, std::function<std::string(int)> act, std::string in) {
        std::string o, tail;
        bool first = true;
        for (auto& p : s.tr)
            if (p.first.v) {
                o += in + (first ? "if (" : "else if (") + p.first.t + ") " + act(p.second);
                first = false;
            }
        for (auto& p : s.tr)
            if (!p.first.v) o += in + (first ? "" : "else ") + act(p.second);
        return o.empty() ? in + act(self) : o;
    };
    for (uint32_t i = 0; i < ns; i++)
        t += "      " + lit(8, i) + ": begin\n" + sel(x.st[i], i, [&](int to) { return q + " <= " + lit(8, to) + ";\n"; }, "        ") + "      end\n";
    t += "      default: begin end\n    endcase\n  end\n";
    t += "  always_comb case (" + q + ")\n";
    auto outs = [&](int k) {
        std::string o = "begin ";
        for (uint32_t i = 0; i < no; i++)
            if (x.st[k].out[i].first) o += x.outs[i].n + " = " + x.st[k].out[i].second.t + "; ";
        return o + "end\n";
    };
    for (uint32_t i = 0; i < ns; i++) {
        t += "      " + lit(8, i) + ": ";
        if (x.moore)
            t += outs(i);
        else
            t += "begin\n" + sel(x.st[i], i, [&](int to) { return outs(to); }, "        ") + "      end\n";
    }
    t += "      default: begin end\n  endcase\n";
    m.body += t;
    for (auto& o : x.outs) m.avail.push_back(o);
    if (manual) {
        // the state register can be used like any variable
        x.top->realize();
        auto* cur = x.top->current_state_var();
        auto* ed = dynamic_cast<const Enum*>(cur->enum_type());
        int k = x.start;
        for (int i = 0; i < 4; i++) {
            int j = r.below(ns);
            if (x.st[j].f == x.top) k = j;
        }
        auto lab = x.nested ? x.st[k].f->fsm_name() + "_" + x.st[k].p->name() : x.st[k].p->name();
        auto e = const_cast<Enum*>(ed)->get_enum(lab);
        auto w = b.newvar(m, m.fresh("fs"), 1, false, {}, 2);
        g.add_stmt(w.v->assign(cur->eq(*e)));
        m.body += "  assign " + w.n + " = " + q + " == " + lit(8, k) + ";\n";
        m.avail.push_back(w);
        b.feat["fsm.state_read"]++;
    }
    b.feat[x.moore ? "fsm.moore" : "fsm.mealy"]++;
    b.feat["fsm.states" + std::to_string(ns)]++;
    if (x.nested) b.feat["fsm.nested"]++;
    if (m.rst == 2) b.feat["fsm.reset_low"]++;
    return x;
}
