// Random parametrised designs; `flat` builds the same design from the same random choices with plain numbers.
// Nothing that is drawn depends on the value of a parameter, so that one choice of draws gives the design for any values.
#pragma once
#include "equiv.hh"
#include "pipeline.hh"
#include "rdesign.hh"
using namespace rd;

namespace pg {
// width or size: sum of multiples of parameters and a number, or 2 to the power of it
struct Cls {
    std::vector<std::pair<int, int>> terms;  // parameter of the module, factor
    int c = 0;
    bool pow = false;
    bool operator==(const Cls& o) const { return terms == o.terms && c == o.c && pow == o.pow; }
};
struct Sig {
    Var* v;
    Cls w;
    bool s = false;
};
struct Arr {
    Var* v;
    Cls w, n;
    bool s = false, packed = false;
};
struct Par {
    Param* p = nullptr;
    std::string name;
    uint32_t bits = 32;
    int val = 0;            // value it has in the end
    int inherit = -1;       // parameter of the parent
    bool init = false, sgn = false;
};
struct Mod {
    Generator* g = nullptr;
    Mod* up = nullptr;
    std::vector<Par> par;
    Port *clk = nullptr, *rst = nullptr;
    std::vector<Sig> pool, in, out;
    std::vector<Arr> arrs, ain, aout;
    std::vector<Cls> cls;
    std::string name;
};
struct W {
    Rng& r;
    Context& ctx;
    bool flat;
    bool generic;  // only what stays right for other values
    bool after = false;  // values are set after the passes
    bool late;     // values are set when the module is complete
    std::vector<int> vals, first;
    std::map<std::string, uint64_t>* feat;
    int serial = 0;
    eq::Spec spec;
    std::vector<std::unique_ptr<Mod>> mods;
    W(Rng& r, Context& c, bool flat, bool generic, bool late, std::vector<int> vals, std::vector<int> first, std::map<std::string, uint64_t>* f)
        : r(r), ctx(c), flat(flat), generic(generic), late(late), vals(vals), first(first), feat(f) {}
    void hit(const char* n) {
        if (!flat) (*feat)[n]++;
    }
    std::string nm(const char* p) { return std::string(p) + std::to_string(serial++); }
    uint32_t value(Mod& m, const Cls& c) {
        int v = c.c;
        for (auto& t : c.terms) v += m.par[t.first].val * t.second;
        return c.pow ? 1u << v : v;
    }
    Var& symbolic(Mod& m, const Cls& c) {
        auto& g = *m.g;
        Var* e = nullptr;
        uint32_t bits = c.terms.empty() ? 32 : m.par[c.terms[0].first].bits;
        auto add = [&](Var& x) { e = e ? &(*e + x) : &x; };
        for (auto& t : c.terms) {
            auto& p = *m.par[t.first].p;
            add(t.second == 1 ? static_cast<Var&>(p) : p * constant(t.second, p.width()));
        }
        if (c.c || !e) add(constant(c.c, bits));
        if (c.pow) e = &constant(2, bits).pow(*e);
        (void)g;
        return *e;
    }
    // the same width seen from the parent of m
    Cls outer(Mod& m, const Cls& c) {
        Cls o;
        o.pow = c.pow;
        o.c = c.c;
        std::map<int, int> t;
        for (auto& x : c.terms) {
            auto& p = m.par[x.first];
            if (p.inherit >= 0)
                t[p.inherit] += x.second;
            else
                o.c += p.val * x.second;
        }
        for (auto& x : t) o.terms.push_back(x);
        if (o.terms.empty() && o.pow) {
            o.c = 1 << o.c;
            o.pow = false;
        }
        return o;
    }
    void set_width(Mod& m, Var& v, const Cls& w) {
        if (!w.terms.empty() && !flat) {
            if (first[0] == 1) {
                v.set_width_param(m.par[first[1] % m.par.size()].p);
                v.set_width_param(&symbolic(m, Cls{{{(int)(first[2] % m.par.size()), 1}}, 0, false}));
                if (first[1] == 1) v.set_width_param(nullptr);
                hit("width_replaced");
            }
            v.set_width_param(&symbolic(m, w));
            hit(w.terms.size() > 1 || w.c || w.terms[0].second != 1 ? "width_expression" : "width_parameter");
        }
    }
    void set_size(Mod& m, Var& v, const Cls& n) {
        if (!n.terms.empty() && !flat) {
            v.set_size_param(0, &symbolic(m, n));
            hit(n.pow ? "size_power" : "size_parameter");
        }
    }
    Var& wire(Mod& m, const Cls& w, bool s, const char* p = "w") {
        auto& v = m.g->var(nm(p), value(m, w), 1, s);
        set_width(m, v, w);
        return v;
    }
    Arr array(Mod& m, const Cls& w, const Cls& n, bool s) {
        Arr a{nullptr, w, n, s, r.chance(50)};
        auto& v = m.g->var(nm("a"), value(m, w), std::vector<uint32_t>{value(m, n)}, s);
        v.set_is_packed(a.packed);
        v.set_explicit_array(true);
        set_width(m, v, w);
        set_size(m, v, n);
        a.v = &v;
        return a;
    }
    Sig port(Mod& m, PortDirection d, const Cls& w, bool s) {
        auto& v = m.g->port(d, nm(d == PortDirection::In ? "in" : "out"), value(m, w), 1, PortType::Data, s);
        set_width(m, v, w);
        return {&v, w, s};
    }
    Arr aport(Mod& m, PortDirection d, const Cls& w, const Cls& n, bool s) {
        auto& v = m.g->port(d, nm(d == PortDirection::In ? "ain" : "aout"), value(m, w), std::vector<uint32_t>{value(m, n)}, PortType::Data, s);
        v.set_explicit_array(true);
        bool pk = r.chance(50);
        v.set_is_packed(pk);
        set_width(m, v, w);
        set_size(m, v, n);
        return {&v, w, n, s, pk};
    }
    static Cls num(int c) {
        Cls x;
        x.c = c;
        return x;
    }
    Cls pick_class(Mod& m) {
        if (m.par.empty() || r.chance(20)) return r.chance(50) ? num(1) : num(r.range(1, 9));
        Cls c;
        c.terms.push_back({(int)r.below(m.par.size()), 1});
        auto k = r.below(10);
        if (k == 6) c.c = r.range(1, 3);
        if (k == 7) c.terms[0].second = r.range(2, 3);
        if (k == 8 && m.par.size() > 1) {
            int a = r.below(m.par.size() - 1);
            if (m.par[a].bits == m.par[a + 1].bits) c.terms = {{a, 1}, {a + 1, 1}};
        }
        if (k == 9) {
            c.terms[0].second = 2;
            c.c = r.range(1, 2);
        }
        return c;
    }
    Sig atom(Mod& m, const Cls& w, bool s) {
        std::vector<Sig> c;
        for (auto& x : m.pool)
            if (x.w == w && x.s == s) c.push_back(x);
        if (!c.empty()) return r.pick(c);
        // a value parameter of this width
        if (w.terms.empty() && !m.par.empty() && r.chance(60)) {
            auto& p = m.par[r.below(m.par.size())];
            if ((int)p.bits == w.c && p.sgn == s) {
                hit(s ? "signed_parameter_value" : "parameter_value");
                return {flat ? static_cast<Var*>(&constant(p.val, p.bits, s)) : p.p, w, s};
            }
        }
        if (late || r.chance(30)) {
            auto x = port(m, PortDirection::In, w, s);
            m.in.push_back(x);
            m.pool.push_back(x);
            return x;
        }
        // made from one bit
        Sig b;
        for (auto& x : m.pool)
            if (x.w == num(1) && !x.s) b = x;
        auto& v = wire(m, w, s);
        auto st = v.assign(s || !b.v ? constant(0, value(m, w), s) : static_cast<Var&>(util_mux(*b.v, constant(1, value(m, w)), constant(0, value(m, w)))));
        m.g->add_stmt(st);
        Sig x{&v, w, s};
        m.pool.push_back(x);
        return x;
    }
    Var& util_mux(Var& c, Var& a, Var& b) { return *util::mux(c, a, b); }
    Var& bit(Mod& m, int d) {
        if (d > 0 && !m.pool.empty()) {
            auto x = r.pick(m.pool);
            auto k = r.below(8);
            Var& a = expr(m, x.w, x.s, d - 1);
            if (k == 0) return a.r_or();
            if (k == 1) return a.r_xor();
            if (k == 2) return a.r_and();
            if (k == 3 && !x.s) {
                hit("bit_of_parametrised");
                return (*x.v)[0];
            }
            Var& b = expr(m, x.w, x.s, d - 1);
            if (k == 4) return a.eq(b);
            if (k == 5) return a != b;
            if (k == 6) return a < b;
            if (k == 7) return a >= b;
        }
        return *atom(m, num(1), false).v;
    }
    Var& expr(Mod& m, const Cls& w, bool s, int d) {
        if (w == num(1) && !s && r.chance(50)) return bit(m, d);
        if (d <= 0) return *atom(m, w, s).v;
        auto k = r.below(12);
        if (k == 0) return ~expr(m, w, s, d - 1);
        if (k == 1) {
            Var& c = bit(m, d - 1);
            Var& a = expr(m, w, s, d - 1);
            Var& b = expr(m, w, s, d - 1);
            hit("mux");
            return util_mux(c, a, b);
        }
        if (k < 7) {
            Var& a = expr(m, w, s, d - 1);
            Var& b = expr(m, w, s, d - 1);
            if (k == 2) return a & b;
            if (k == 3) return a | b;
            if (k == 4) return a ^ b;
            if (k == 5) return a + b;
            return a - b;
        }
        if (k == 7) {
            // an element
            for (auto& x : m.arrs)
                if (x.w == w && x.s == s) {
                    hit("element");
                    return (*x.v)[0];
                }
        }
        if (k == 8 && !generic && !s && w.terms.empty() && w.c > 1) {
            // bits of a parametrised variable
            std::vector<Sig> q;
            for (auto& x : m.pool)
                if (!x.w.terms.empty() && !x.s && (int)value_min(x.w) >= w.c) q.push_back(x);
            if (!q.empty()) {
                auto x = r.pick(q);
                hit("slice_of_parametrised");
                return (*x.v)[{(uint32_t)w.c - 1, 0}];
            }
        }
        if (k == 10 && w == num(8) && s) {
            for (auto& p : m.par)
                if (p.bits == 8 && p.sgn) {
                    hit("signed_parameter_value");
                    return flat ? static_cast<Var&>(constant(p.val, 8, true)) : *p.p;
                }
        }
        if (k == 9) {
            // addressed by a parametrised signal
            for (auto& x : m.arrs)
                if (x.w == w && x.s == s && x.n.pow) {
                    Cls l = x.n;
                    l.pow = false;
                    Sig i = atom(m, l, false);
                    hit("addressed");
                    return (*x.v)[i.v->shared_from_this()];
                }
        }
        return *atom(m, w, s).v;
    }
    // smallest value over all parameter values (at least one each)
    uint32_t value_min(const Cls& c) {
        int v = c.c;
        for (auto& t : c.terms) v += t.second;
        return c.pow ? 1u << v : v;
    }
    void reg(Mod& m, Sig x) {
        auto b = m.g->sequential();
        b->add_condition({EventEdgeType::Posedge, m.clk->shared_from_this()});
        b->add_condition({EventEdgeType::Posedge, m.rst->shared_from_this()});
        auto s = std::make_shared<IfStmt>(m.rst->shared_from_this());
        s->add_then_stmt(x.v->assign(late ? *atom(m, x.w, x.s).v : static_cast<Var&>(constant(0, value(m, x.w), x.s)), AssignmentType::NonBlocking));
        Var& e = expr(m, x.w, x.s, 2);
        if (r.chance(50)) {
            auto t = std::make_shared<IfStmt>(bit(m, 1).shared_from_this());
            t->add_then_stmt(x.v->assign(e, AssignmentType::NonBlocking));
            if (r.chance(50)) t->add_else_stmt(x.v->assign(expr(m, x.w, x.s, 1), AssignmentType::NonBlocking));
            s->add_else_stmt(t);
        } else
            s->add_else_stmt(x.v->assign(e, AssignmentType::NonBlocking));
        b->add_stmt(s);
        hit("register");
    }
    void drive(Mod& m, Sig x) {
        auto k = r.below(4);
        if (k == 0) return reg(m, x);
        if (k == 1) {
            auto b = m.g->combinational();
            auto s = std::make_shared<IfStmt>(bit(m, 1).shared_from_this());
            s->add_then_stmt(x.v->assign(expr(m, x.w, x.s, 2), AssignmentType::Blocking));
            s->add_else_stmt(x.v->assign(expr(m, x.w, x.s, 2), AssignmentType::Blocking));
            b->add_stmt(s);
            hit("comb");
            return;
        }
        m.g->add_stmt(x.v->assign(expr(m, x.w, x.s, 3)));
    }
    void memory(Mod& m, Arr& a) {
        auto b = m.g->sequential();
        b->add_condition({EventEdgeType::Posedge, m.clk->shared_from_this()});
        Cls l = a.n;
        l.pow = false;
        Var& x = *atom(m, l, false).v;
        auto s = std::make_shared<IfStmt>(bit(m, 1).shared_from_this());
        s->add_then_stmt((*a.v)[x.shared_from_this()].assign(expr(m, a.w, a.s, 2), AssignmentType::NonBlocking));
        b->add_stmt(s);
        hit("memory");
    }
    // values of the parameters of the parent that may be used for the child
    Mod& module(const std::string& name, int depth, Mod* up, std::vector<std::pair<int, int>> bind = {}) {
        mods.push_back(std::make_unique<Mod>());
        Mod& m = *mods.back();
        m.up = up;
        m.name = name;
        m.g = &ctx.generator(name);
        auto& g = *m.g;
        m.clk = &g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        m.rst = &g.port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
        uint32_t np = up ? (uint32_t)bind.size() : 3;
        std::vector<std::function<void()>> fin;
        for (uint32_t i = 0; i < np; i++) {
            Par p;
            p.name = "P" + std::to_string(i);
            p.inherit = up ? bind[i].first : -1;
            p.bits = p.inherit >= 0 ? up->par[p.inherit].bits : r.chance(50) ? 32 : 8;
            if (up && p.inherit < 0) p.bits = i % 2 ? 8 : 32;
            p.sgn = p.inherit >= 0 ? up->par[p.inherit].sgn : i == 1;
            p.val = !up ? vals[i] : p.inherit >= 0 ? up->par[p.inherit].val : bind[i].second;
            int v0 = !up ? (late ? first[i] : vals[i]) : p.val;
            auto ini = r.below(3);
            int iv = r.range(1, 5);
            bool early = r.chance(50);
            p.init = ini > 0;
            if (!flat) {
                auto& q = p.sgn ? g.parameter(p.name, p.bits, true) : g.parameter(p.name, p.bits);
                p.p = &q;
                if (p.init) {
                    q.set_initial_value(ini == 1 ? iv : v0);
                    hit("initial_value");
                }
                if (p.inherit >= 0 && (early || !generic || !late)) {
                    q.set_value(up->par[p.inherit].p->as<Param>());
                    hit("inherited");
                } else if (p.inherit >= 0) {
                    q.set_value(up->par[p.inherit].p->value());
                    auto* pp = up->par[p.inherit].p;
                    fin.push_back([&q, pp] { q.set_value(pp->as<Param>()); });
                    hit("inherited_late");
                } else if (up && generic && late && early) {
                    q.set_value(v0 % 5 + 1);
                    if (first[i % 3] % 2) {
                        // was given by another parameter before
                        for (auto& o : up->par)
                            if (o.p && o.bits == p.bits) q.set_value(o.p->as<Param>());
                        hit("link_replaced");
                    }
                    fin.push_back([&q, v0] { q.set_value(v0); });
                    hit("number_late");
                } else
                    q.set_value(v0);
            }
            m.par.push_back(p);
        }
        // while the module is built its parameters have the first values
        std::vector<int> keep;
        for (auto& p : m.par) keep.push_back(p.val);
        if (late && !flat)
            for (auto& p : m.par) {
                p.val = p.p->value();
            }
        uint32_t nc = r.range(2, 4);
        for (uint32_t i = 0; i < nc; i++) m.cls.push_back(pick_class(m));
        m.cls.push_back(num(1));
        m.cls.push_back(num(8));
        m.cls.push_back(num(8));
        uint32_t ni = r.range(2, 5);
        for (uint32_t i = 0; i < ni; i++) {
            auto w = r.pick(m.cls);
            bool s = r.chance(w == num(8) ? 40 : 15) && !(w == num(1));
            m.in.push_back(port(m, PortDirection::In, w, s));
        }
        m.in.push_back(port(m, PortDirection::In, num(1), false));
        for (auto& x : m.in) m.pool.push_back(x);
        Cls two;
        two.pow = true;
        if (np) two.terms.push_back({(int)r.below(np), 1});
        else two.c = 2;
        if (up && r.chance(40)) {
            auto a = aport(m, PortDirection::In, r.pick(m.cls), r.chance(50) ? two : r.pick(m.cls), false);
            m.ain.push_back(a);
            m.arrs.push_back(a);
            hit("array_port");
        }
        std::vector<Sig> todo;
        uint32_t items = r.range(2, 6);
        for (uint32_t i = 0; i < items; i++) {
            auto k = r.below(depth > 0 ? 7 : 4);
            if (k < 3) {
                auto w = r.pick(m.cls);
                bool s = r.chance(15) && !(w == num(1));
                Sig x{nullptr, w, s};
                if (r.chance(30)) {
                    // a copy of another declaration
                    std::vector<Sig> q;
                    for (auto& y : m.pool)
                        if (y.w == w && y.s == s && (y.v->type() == VarType::Base || y.v->type() == VarType::PortIO)) q.push_back(y);
                    if (!q.empty()) {
                        x.v = &g.var(*r.pick(q).v, nm("w"));
                        hit("copied_declaration");
                    }
                }
                if (!x.v) x.v = &wire(m, w, s);
                drive(m, x);
                m.pool.push_back(x);
            } else if (k == 3) {
                auto a = array(m, r.pick(m.cls), two, false);
                memory(m, a);
                m.arrs.push_back(a);
            } else
                instance(m, depth);
        }
        if (!up && depth > 0) instance(m, depth);
        uint32_t no = r.range(1, 3);
        for (uint32_t i = 0; i < no; i++) {
            auto x = port(m, PortDirection::Out, r.pick(m.cls), false);
            drive(m, x);
            m.out.push_back(x);
        }
        if (!up)
            for (size_t i = 0; i < m.pool.size(); i++) {
                auto y = m.pool[i];
                if (y.v->type() == VarType::PortIO) continue;
                auto x = port(m, PortDirection::Out, y.w, y.s);
                g.add_stmt(x.v->assign(*y.v));
                m.out.push_back(x);
            }
        if (up && !m.ain.empty() && r.chance(50)) {
            auto& f = m.ain[0];
            auto n = nm("aout");
            auto& v = static_cast<Var&>(g.port(PortDirection::Out, n, value(m, f.w), std::vector<uint32_t>{value(m, f.n)}, PortType::Data, f.s));
            v.set_explicit_array(true);
            v.set_is_packed(f.packed);
            set_width(m, v, f.w);
            set_size(m, v, f.n);
            g.add_stmt(v.assign(*f.v));
            m.aout.push_back({&v, f.w, f.n, f.s, f.packed});
            hit("array_output");
        }
        for (auto& f : fin) f();
        if (up && late && !flat)
            for (auto& p : m.par) p.val = p.p->value();
        if (late && !flat && !up) {
            for (size_t i = 0; i < m.par.size(); i++) {
                m.par[i].val = keep[i];
                if (!after) m.par[i].p->set_value(keep[i]);
            }
            hit("late_values");
        }
        if (!up) {
            spec.clk = true;
            spec.rst = 1;
            for (auto& x : m.in) spec.in.push_back({x.v->name, value(m, x.w)});
            for (auto& x : m.out) spec.out.push_back({x.v->name, value(m, x.w)});
        }
        return m;
    }
    void connect(Mod& m, Mod& c) {
        auto& g = *m.g;
        auto inst = nm("inst");
        g.add_child_generator(inst, c.g->shared_from_this());
        hit("instance");
        g.add_stmt(c.clk->assign(*m.clk));
        g.add_stmt(c.rst->assign(*m.rst));
        for (auto& p : c.in) {
            auto w = outer(c, p.w);
            g.add_stmt(p.v->assign(expr(m, w, p.s, (int)r.below(3))));
        }
        for (auto& p : c.ain) {
            auto w = outer(c, p.w), n = outer(c, p.n);
            Var* v = nullptr;
            for (auto& a : m.arrs)
                if (a.w == w && a.n == n && a.s == p.s && a.packed == p.packed) v = a.v;
            if (!v) {
                // filled from a register bank
                bool copy = r.chance(50);
                auto k = nm("a");
                if (copy) {
                    v = &g.var(*p.v, k);
                    hit("copied_array");
                } else {
                    v = &g.var(k, value(m, w), std::vector<uint32_t>{value(m, n)}, p.s);
                    v->set_is_packed(p.packed);
                    v->set_explicit_array(true);
                    set_width(m, *v, w);
                    set_size(m, *v, n);
                }
                if (n.pow) {
                    Arr a{v, w, n, p.s, p.packed};
                    memory(m, a);
                    m.arrs.push_back(a);
                } else
                    g.add_stmt((*v)[0].assign(expr(m, w, p.s, 1)));
            }
            g.add_stmt(p.v->assign(*v));
        }
        for (auto& p : c.out) {
            auto w = outer(c, p.w);
            Sig x{nullptr, w, p.s};
            if (r.chance(40)) {
                x.v = &g.var(*p.v, nm("w"));
                hit("copied_port");
            } else
                x.v = &wire(m, w, p.s);
            g.add_stmt(x.v->assign(*p.v));
            m.pool.push_back(x);
        }
        for (auto& p : c.aout) {
            auto w = outer(c, p.w), n = outer(c, p.n);
            auto& v = g.var(*p.v, nm("a"));
            g.add_stmt(v.assign(*p.v));
            m.arrs.push_back({&v, w, n, p.s, p.packed});
        }
    }
    void instance(Mod& m, int depth) {
        std::vector<std::pair<int, int>> b, b2;
        uint32_t n = r.below(4);
        bool own = r.chance(35);  // all inherited otherwise, more often
        for (uint32_t i = 0; i < n; i++) {
            int inh = !m.par.empty() && (!own || r.chance(50)) ? (int)r.below(m.par.size()) : -1;
            b.push_back({inh, (int)r.range(1, 5)});
            b2.push_back({inh, (int)r.range(1, 5)});
        }
        auto name = nm("mod");
        auto at = r;
        int sat = serial;
        bool same = r.chance(40);
        auto& c = module(name, depth - 1, &m, b);
        connect(m, c);
        if (same) {
            // once more with other values
            auto after = r;
            int safter = serial;
            r = at;
            serial = sat;
            (void)r.chance(40);
            auto& d = module(flat ? name + "b" : name, depth - 1, &m, b2);
            r = after;
            serial = std::max(safter, serial);
            connect(m, d);
            hit("second_with_other_values");
        }
    }
};
}  // namespace pg
