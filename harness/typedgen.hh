// Random designs with structs, arrays of structs and enums; `flat` builds the same design with one plain variable for each member and numbers for enum values.
#pragma once
#include "equiv.hh"
#include "pipeline.hh"
#include "rdesign.hh"
using namespace rd;

namespace typed {
struct Field {
    std::string n;
    uint32_t w;
    bool s;
    int sub;  // index of a struct, -1 otherwise
};
struct Ty {
    std::shared_ptr<PackedStruct> def;
    std::vector<Field> f;
    std::string name;
};
struct En {
    std::shared_ptr<Enum> def;
    std::vector<std::pair<std::string, uint64_t>> vals;
    uint32_t w;
    const void* owner = nullptr;  // a local enum
};
struct Leaf {
    std::vector<std::string> path;
    std::string flat;
    uint32_t w;
    bool s;
};
struct Agg {
    int ty = 0;
    uint32_t n = 0;  // elements, 0: not an array
    Var* v = nullptr;
    std::string name;
    std::map<std::string, Var*> leaves;
};
struct EV {
    int en;
    Var* v;
};
struct W {
    Rng& r;
    Context& ctx;
    bool flat;
    std::vector<Ty> types;
    std::vector<En> enums;
    std::map<std::string, uint64_t>* feat;
    int serial = 0;
    eq::Spec spec;

    W(Rng& r, Context& c, bool flat, std::map<std::string, uint64_t>* f) : r(r), ctx(c), flat(flat), feat(f) {}
    void hit(const char* n) {
        if (!flat) (*feat)[n]++;
    }
    void make_types() {
        uint32_t n = r.chance(30) ? r.range(4, 7) : r.range(1, 4);
        for (uint32_t i = 0; i < n; i++) {
            Ty t;
            t.name = std::string(1, (char)('a' + r.below(26))) + "t_" + std::to_string(i);
            t.def = std::make_shared<PackedStruct>(t.name);
            uint32_t k = r.range(1, 4);
            for (uint32_t j = 0; j < k; j++) {
                Field f;
                f.n = std::string(1, char('a' + (int)((j * 7 + i) % 26))) + std::to_string(j);
                f.sub = i && r.chance(35) ? (int)r.below(i) : -1;
                if (f.sub >= 0 && t.def->bitwidth() + types[f.sub].def->bitwidth() > 100) f.sub = -1;
                f.w = r.range(1, 9);
                if (r.chance(6)) f.w = r.range(30, 70);
                f.s = f.sub < 0 && r.chance(25);
                PackedStructFieldDef d;
                d.name = f.n;
                d.width = f.w;
                d.signed_ = f.s;
                d.struct_ = f.sub >= 0 ? types[f.sub].def.get() : nullptr;
                if (f.sub >= 0) hit("nested_struct");
                t.def->attributes.push_back(d);
                t.f.push_back(f);
            }
            types.push_back(t);
        }
        uint32_t m = r.below(3);
        for (uint32_t i = 0; i < m; i++) make_enum(nullptr);
    }
    int pick_enum(Generator* g, bool shared) {
        std::vector<int> c;
        for (size_t i = 0; i < enums.size(); i++)
            if (!enums[i].owner || (!shared && enums[i].owner == g)) c.push_back(i);
        return c.empty() ? -1 : r.pick(c);
    }
    void make_enum(Generator* g) {
        {
            size_t i = enums.size();
            En e;
            e.owner = g;
            uint32_t k = r.range(1, 5);
            e.w = r.range(1, 6);
            std::set<uint64_t> used;
            std::map<std::string, uint64_t> d;
            for (uint32_t j = 0; j < k; j++) {
                uint64_t v = r.below(1ull << e.w);
                if (!used.insert(v).second) continue;
                auto nm = "E" + std::to_string(i) + "_" + std::string(1, (char)('A' + r.below(20))) + std::to_string(j);
                e.vals.push_back({nm, v});
                d[nm] = v;
            }
            auto en = "en_" + std::to_string(i);
            e.def = (g ? g->enum_(en, d, e.w) : ctx.enum_(en, d, e.w)).shared_from_this();
            if (g) hit("local_enum");
            enums.push_back(e);
        }
    }
    void leaves_of(int ty, std::vector<std::string> path, std::string flatname, std::vector<Leaf>& out) {
        for (auto& f : types[ty].f) {
            auto p = path;
            p.push_back(f.n);
            auto fl = flatname + "_" + f.n;
            if (f.sub >= 0)
                leaves_of(f.sub, p, fl, out);
            else
                out.push_back({p, fl, f.w, f.s});
        }
    }
    // all leaves of one element (below an optional member path)
    std::vector<Leaf> leaves(const Agg& a, uint32_t i, const std::vector<std::string>& sub = {}) {
        std::vector<Leaf> o, q;
        leaves_of(a.ty, {}, a.n ? "_" + std::to_string(i) : "", o);
        for (auto& l : o) {
            bool ok = l.path.size() >= sub.size();
            for (size_t k = 0; ok && k < sub.size(); k++) ok = l.path[k] == sub[k];
            if (ok) q.push_back(l);
        }
        return q;
    }
    Var& member(Agg& a, uint32_t i, const std::vector<std::string>& path) {
        Var* v = a.v;
        size_t k = 0;
        if (a.n)
            v = &(*v)[i];
        else if (!path.empty()) {
            if (auto* p = dynamic_cast<PortPackedStruct*>(v))
                v = &(*p)[path[0]];
            else
                v = &(*dynamic_cast<VarPackedStruct*>(v))[path[0]];
            k = 1;
        }
        for (; k < path.size(); k++) v = &(*dynamic_cast<VarSlice*>(v))[path[k]];
        return *v;
    }
    Var& leaf(Agg& a, uint32_t i, const Leaf& l) { return flat ? *a.leaves.at(l.flat) : member(a, i, l.path); }

    struct M {
        Generator* g;
        std::vector<Var*> pool;      // driven plain values
        std::vector<Agg> have;       // driven structs
        std::vector<EV> ens;         // driven enums
        Var *clk = nullptr, *rst = nullptr;
        std::vector<std::pair<std::string, uint32_t>> outs;
        std::vector<Agg> pin, pout;
        std::vector<EV> ein, eout;
        std::vector<Var*> in;
        std::string name;
    };
    std::string nm(const char* p) { return p + std::to_string(serial++); }
    Agg agg(M& m, int ty, uint32_t n) {
        Agg a;
        a.ty = ty;
        a.n = n;
        a.name = nm("s");
        if (!flat) {
            a.v = n ? &m.g->var_packed(a.name, types[ty].def, n) : &m.g->var_packed(a.name, types[ty].def);
        } else
            for (uint32_t i = 0; i < std::max(1u, n); i++)
                for (auto& l : leaves(a, i)) a.leaves[l.flat] = &m.g->var(a.name + l.flat, l.w, 1, l.s);
        return a;
    }
    Agg port(M& m, PortDirection d, int ty, uint32_t n) {
        Agg a;
        a.ty = ty;
        a.n = n;
        a.name = nm(d == PortDirection::In ? "pi" : "po");
        if (!flat) {
            a.v = n ? &m.g->port_packed(d, a.name, types[ty].def, n) : &m.g->port_packed(d, a.name, types[ty].def);
        } else
            for (uint32_t i = 0; i < std::max(1u, n); i++)
                for (auto& l : leaves(a, i)) a.leaves[l.flat] = &m.g->port(d, a.name + l.flat, l.w, 1, PortType::Data, l.s);
        return a;
    }
    Var& fit(Var& v, uint32_t w) {
        if (v.width() == w) return v;
        if (v.width() < w) return v.extend(w);
        return v[{w - 1, 0}];
    }
    // plain variables only; leaves are read into wires first or used whole
    Var& atom(M& m, uint32_t w, bool s) {
        if (m.pool.empty() || r.chance(10)) return *Const::constant((int64_t)r.below(std::min<uint64_t>(1ull << std::min(w, 20u), 1000)) >> (s ? 1 : 0), w, s).shared_from_this();
        Var* v = r.pick(m.pool);
        Var* f = &fit(*v, w);
        if (f->is_signed() == s) return *f;
        return s ? *f->cast(VarCastType::Signed) : *f->cast(VarCastType::Unsigned);
    }
    Var& expr(M& m, uint32_t w, bool s) {
        Var& a = atom(m, w, s);
        auto k = r.below(7);
        if (k < 3) return a;
        Var& b = atom(m, w, s);
        switch (k) {
            case 3: return a + b;
            case 4: return a ^ b;
            case 5: return a & b;
            default: {
                Var& c = atom(m, 1, false);
                return *util::mux(c, a, b);
            }
        }
    }
    // every pair of matching parts
    void copy(Agg& to, uint32_t i, const std::vector<std::string>& ps, Agg& from, uint32_t j, const std::vector<std::string>& qs,
              const std::function<void(Var&, Var&)>& f) {
        if (!flat) {
            f(member(to, i, ps), member(from, j, qs));
            return;
        }
        auto a = leaves(to, i, ps), b = leaves(from, j, qs);
        for (size_t k = 0; k < a.size(); k++) f(leaf(to, i, a[k]), leaf(from, j, b[k]));
    }
    void copy_all(Agg& to, Agg& from, const std::function<void(Var&, Var&)>& f) {
        if (!flat) {
            f(*to.v, *from.v);
            return;
        }
        for (uint32_t i = 0; i < std::max(1u, to.n); i++) copy(to, i, {}, from, i, {}, f);
    }
    // a part of a driven struct of type ty
    bool part(M& m, int ty, Agg*& a, uint32_t& i, std::vector<std::string>& path) {
        std::vector<std::tuple<size_t, uint32_t, std::vector<std::string>>> c;
        for (size_t k = 0; k < m.have.size(); k++)
            for (uint32_t e = 0; e < std::max(1u, m.have[k].n); e++) {
                if (m.have[k].ty == ty) c.push_back({k, e, {}});
                std::function<void(int, std::vector<std::string>)> rec = [&](int t, std::vector<std::string> p) {
                    for (auto& f : types[t].f)
                        if (f.sub >= 0) {
                            auto q = p;
                            q.push_back(f.n);
                            if (f.sub == ty) c.push_back({k, e, q});
                            rec(f.sub, q);
                        }
                };
                rec(m.have[k].ty, {});
            }
        if (c.empty()) return false;
        auto& x = r.pick(c);
        a = &m.have[std::get<0>(x)];
        i = std::get<1>(x);
        path = std::get<2>(x);
        return true;
    }
    // drive a struct
    void drive(M& m, Agg a) {
        auto& g = *m.g;
        auto how = r.below(6);
        auto el = std::max(1u, a.n);
        if (how == 0) {
            for (auto& h : m.have)
                if (h.ty == a.ty && h.n == a.n) {
                    copy_all(a, h, [&](Var& l, Var& x) { g.add_stmt(l.assign(x)); });
                    hit("whole_assign");
                    m.have.push_back(a);
                    return;
                }
            how = 1;
        }
        if (how == 1 && r.chance(30)) {
            std::vector<Agg*> c;
            for (auto& h : m.have)
                if (h.ty == a.ty && !h.n && !a.n) c.push_back(&h);
            if (!c.empty()) {
                Agg &x = *r.pick(c), &y = *r.pick(c);
                Var& p = wire(m, 1);
                auto& same = g.var(nm("w"), 1);
                if (!flat) {
                    g.add_stmt(a.v->assign(*util::mux(p, *x.v, *y.v)));
                    g.add_stmt(same.assign(x.v->eq(*y.v)));
                } else {
                    Var* e = nullptr;
                    for (auto& l : leaves(a, 0)) {
                        g.add_stmt(leaf(a, 0, l).assign(*util::mux(p, leaf(x, 0, l), leaf(y, 0, l))));
                        Var& q = leaf(x, 0, l).eq(leaf(y, 0, l));
                        e = e ? &(*e & q) : &q;
                    }
                    g.add_stmt(same.assign(*e));
                }
                m.pool.push_back(&same);
                m.have.push_back(a);
                hit("whole_mux_and_compare");
                return;
            }
        }
        if (how == 1) {  // leaf by leaf, outside of blocks
            for (uint32_t i = 0; i < el; i++)
                for (auto& l : leaves(a, i)) g.add_stmt(leaf(a, i, l).assign(expr(m, l.w, l.s)));
            hit("member_assign");
        } else if (how == 2) {  // element by element or member by member from parts of others
            for (uint32_t i = 0; i < el; i++) {
                Agg* f;
                uint32_t j;
                std::vector<std::string> q;
                if (part(m, a.ty, f, j, q)) {
                    copy(a, i, {}, *f, j, q, [&](Var& l, Var& x) { g.add_stmt(l.assign(x)); });
                    hit(q.empty() ? "element_assign" : "assign_from_nested");
                    continue;
                }
                for (auto& fd : types[a.ty].f) {
                    if (fd.sub >= 0 && part(m, fd.sub, f, j, q)) {
                        copy(a, i, {fd.n}, *f, j, q, [&](Var& l, Var& x) { g.add_stmt(l.assign(x)); });
                        hit("assign_to_nested");
                    } else
                        for (auto& l : leaves(a, i, {fd.n})) g.add_stmt(leaf(a, i, l).assign(expr(m, l.w, l.s)));
                }
            }
        } else if (how == 3) {  // combinational block, default then overridden
            auto b = g.combinational();
            bool whole = false;
            for (auto& h : m.have)
                if (h.ty == a.ty && h.n == a.n && r.chance(60)) {
                    copy_all(a, h, [&](Var& l, Var& x) { b->add_stmt(l.assign(x, AssignmentType::Blocking)); });
                    whole = true;
                    hit("whole_assign_in_block");
                    break;
                }
            if (!whole)
                for (uint32_t i = 0; i < el; i++)
                    for (auto& l : leaves(a, i)) b->add_stmt(leaf(a, i, l).assign(expr(m, l.w, l.s), AssignmentType::Blocking));
            auto s = std::make_shared<IfStmt>(atom(m, 1, false).shared_from_this());
            uint32_t i = r.below(el);
            auto ls = leaves(a, i);
            for (auto& l : ls)
                if (r.chance(60)) s->add_then_stmt(leaf(a, i, l).assign(expr(m, l.w, l.s), AssignmentType::Blocking));
            Agg* f;
            uint32_t j;
            std::vector<std::string> q;
            if (r.chance(50) && part(m, a.ty, f, j, q)) {
                copy(a, r.below(el), {}, *f, j, q, [&](Var& l, Var& x) { s->add_else_stmt(l.assign(x, AssignmentType::Blocking)); });
                hit("part_assign_in_else");
            }
            b->add_stmt(s);
            hit("comb_override");
        } else if (how == 4 || how == 5) {  // register
            auto b = g.sequential();
            b->add_condition({EventEdgeType::Posedge, m.clk->shared_from_this()});
            b->add_condition({EventEdgeType::Posedge, m.rst->shared_from_this()});
            auto s = std::make_shared<IfStmt>(m.rst->shared_from_this());
            for (uint32_t i = 0; i < el; i++)
                for (auto& l : leaves(a, i)) s->add_then_stmt(leaf(a, i, l).assign(*Const::constant(l.s ? 0 : r.below(2), l.w, l.s).shared_from_this() , AssignmentType::NonBlocking));
            bool done = false;
            if (how == 5)
                for (auto& h : m.have)
                    if (h.ty == a.ty && h.n == a.n) {
                        copy_all(a, h, [&](Var& l, Var& x) { s->add_else_stmt(l.assign(x, AssignmentType::NonBlocking)); });
                        done = true;
                        hit("whole_register");
                        break;
                    }
            if (!done) {
                hit("member_register");
                for (uint32_t i = 0; i < el; i++)
                    for (auto& l : leaves(a, i)) {
                        // sometimes it depends on itself
                        if (r.chance(30))
                            s->add_else_stmt(leaf(a, i, l).assign(leaf(a, i, l) + expr(m, l.w, l.s), AssignmentType::NonBlocking));
                        else
                            s->add_else_stmt(leaf(a, i, l).assign(expr(m, l.w, l.s), AssignmentType::NonBlocking));
                    }
            }
            b->add_stmt(s);
        }
        m.have.push_back(a);
    }
    Var& wire(M& m, uint32_t w) {
        auto& v = m.g->var(nm("w"), w);
        m.g->add_stmt(v.assign(expr(m, w, false)));
        return v;
    }
    Var& econst(int en, size_t k) {
        auto& e = enums[en];
        if (flat) return *Const::constant((int64_t)e.vals[k].second, e.w, false).shared_from_this();
        return *e.def->get_enum(e.vals[k].first);
    }
    Var& evar(M& m, int en, const std::string& n) {
        if (flat) return m.g->var(n, enums[en].w);
        return m.g->enum_var(n, enums[en].def);
    }
    Var& eport(M& m, PortDirection d, int en, const std::string& n) {
        if (flat) return m.g->port(d, n, enums[en].w);
        return m.g->port(d, n, enums[en].def);
    }
    Var& eexpr(M& m, int en) {
        std::vector<Var*> c;
        for (auto& x : m.ens)
            if (x.en == en) c.push_back(x.v);
        if (r.chance(15)) {
            hit("enum_cast");
            Var& v = atom(m, enums[en].w, false);
            if (v.type() == VarType::ConstValue) return econst(en, 0);
            if (flat) return v;
            auto x = v.cast(VarCastType::Enum);
            x->as<VarCasted>()->set_enum_type(enums[en].def.get());
            return *x;
        }
        if (!c.empty() && r.chance(50)) return *r.pick(c);
        return econst(en, r.below(enums[en].vals.size()));
    }
    void drive_enum(M& m, EV e) {
        auto& g = *m.g;
        auto how = r.below(4);
        if (how == 0) {
            g.add_stmt(e.v->assign(eexpr(m, e.en)));
            hit("enum_assign");
        } else if (how == 1) {
            auto b = g.combinational();
            auto s = std::make_shared<IfStmt>(atom(m, 1, false).shared_from_this());
            s->add_then_stmt(e.v->assign(eexpr(m, e.en), AssignmentType::Blocking));
            s->add_else_stmt(e.v->assign(eexpr(m, e.en), AssignmentType::Blocking));
            b->add_stmt(s);
            hit("enum_comb");
        } else {
            auto b = g.sequential();
            b->add_condition({EventEdgeType::Posedge, m.clk->shared_from_this()});
            b->add_condition({EventEdgeType::Posedge, m.rst->shared_from_this()});
            auto s = std::make_shared<IfStmt>(m.rst->shared_from_this());
            s->add_then_stmt(e.v->assign(econst(e.en, 0), AssignmentType::NonBlocking));
            if (how == 2)
                s->add_else_stmt(e.v->assign(eexpr(m, e.en), AssignmentType::NonBlocking));
            else {
                // walks through the values
                auto sw = std::make_shared<SwitchStmt>(e.v->shared_from_this());
                auto& vs = enums[e.en].vals;
                for (size_t k = 0; k < vs.size(); k++)
                    sw->add_switch_case(econst(e.en, k).as<Const>(), e.v->assign(econst(e.en, (k + 1) % vs.size()), AssignmentType::NonBlocking));
                s->add_else_stmt(sw);
                hit("enum_walk");
            }
            b->add_stmt(s);
            hit("enum_register");
        }
        m.ens.push_back(e);
    }
    M module(const std::string& name, int depth, bool top) {
        M m;
        m.name = name;
        m.g = &ctx.generator(name);
        auto& g = *m.g;
        m.clk = &g.port(PortDirection::In, "clk", 1, PortType::Clock);
        m.rst = &g.port(PortDirection::In, "rst", 1, PortType::AsyncReset);
        uint32_t ni = r.range(2, 4);
        for (uint32_t i = 0; i < ni; i++) {
            auto n = nm("in");
            uint32_t w = i == 0 ? 1 : r.range(1, 12);
            bool s = i && r.chance(25);
            auto& p = g.port(PortDirection::In, n, w, 1, PortType::Data, s);
            m.in.push_back(&p);
            m.pool.push_back(&p);
            if (top) spec.in.push_back({n, w});
        }
        if (!top) {
            uint32_t n = r.below(3);
            for (uint32_t i = 0; i < n; i++) {
                m.pin.push_back(port(m, PortDirection::In, r.below(types.size()), r.chance(25) ? r.range(2, 3) : 0));
                m.have.push_back(m.pin.back());
            }
            int e = r.chance(50) ? pick_enum(m.g, true) : -1;
            if (e >= 0) {
                EV x{e, &eport(m, PortDirection::In, e, nm("ei"))};
                m.ein.push_back(x);
                m.ens.push_back(x);
            }
        }
        if (r.chance(20)) make_enum(m.g);
        uint32_t items = r.range(3, 7);
        for (uint32_t i = 0; i < items; i++) {
            auto k = r.below(10);
            if (k < 4)
                drive(m, agg(m, r.below(types.size()), r.chance(25) ? r.range(2, 3) : 0));
            else if (k < 6) {
                if (m.have.empty()) continue;
                auto a = r.pick(m.have);
                uint32_t e = r.below(std::max(1u, a.n));
                auto ls = leaves(a, e);
                auto& l = r.pick(ls);
                auto& v = g.var(nm("w"), l.w, 1, l.s);
                if (r.chance(50))
                    g.add_stmt(v.assign(leaf(a, e, l)));
                else
                    g.add_stmt(v.assign(leaf(a, e, l) + expr(m, l.w, l.s)));
                m.pool.push_back(&v);
                hit("member_read");
            } else if (k < 7 && r.chance(40)) {
                // the element is picked by a variable
                if (m.have.empty()) continue;
                auto a = r.pick(m.have);
                if (a.n != 2) continue;
                Var& idx = wire(m, 1);
                auto l0 = leaves(a, 0), l1 = leaves(a, 1);
                size_t q = r.below(l0.size());
                auto& v = g.var(nm("w"), l0[q].w, 1, l0[q].s);
                if (flat)
                    g.add_stmt(v.assign(*util::mux(idx, leaf(a, 1, l1[q]), leaf(a, 0, l0[q]))));
                else {
                    Var* x = &(*a.v)[idx.shared_from_this()];
                    for (auto& n : l0[q].path) x = &(*dynamic_cast<VarSlice*>(x))[n];
                    g.add_stmt(v.assign(*x));
                }
                m.pool.push_back(&v);
                hit("variable_index");
            } else if (k < 7) {
                // bits of a member
                if (m.have.empty()) continue;
                auto a = r.pick(m.have);
                uint32_t e = r.below(std::max(1u, a.n));
                auto ls = leaves(a, e);
                auto& l = r.pick(ls);
                if (l.w < 2) continue;
                uint32_t lo = r.below(l.w), hi = r.range(lo, l.w - 1);
                auto& v = g.var(nm("w"), hi - lo + 1);
                g.add_stmt(v.assign(leaf(a, e, l)[{hi, lo}]));
                m.pool.push_back(&v);
                hit("member_bits");
            } else if (k < 9) {
                int e = pick_enum(m.g, false);
                if (e < 0) continue;
                if (m.ens.empty() || r.chance(50)) {
                    drive_enum(m, {e, &evar(m, e, nm("e"))});
                } else if (r.chance(60)) {
                    auto x = r.pick(m.ens);
                    auto& v = g.var(nm("w"), 1);
                    auto& c = econst(x.en, r.below(enums[x.en].vals.size()));
                    g.add_stmt(v.assign(r.chance(70) ? x.v->eq(c) : (*x.v != c)));
                    m.pool.push_back(&v);
                    hit("enum_compare");
                } else {
                    auto x = r.pick(m.ens);
                    auto& v = g.var(nm("w"), 4);
                    auto b = g.combinational();
                    auto sw = std::make_shared<SwitchStmt>(x.v->shared_from_this());
                    auto& vs = enums[x.en].vals;
                    for (size_t q = 0; q < vs.size(); q++)
                        if (r.chance(80)) sw->add_switch_case(econst(x.en, q).as<Const>(), v.assign(expr(m, 4, false), AssignmentType::Blocking));
                    sw->add_switch_case(nullptr, v.assign(expr(m, 4, false), AssignmentType::Blocking));
                    b->add_stmt(sw);
                    m.pool.push_back(&v);
                    hit("enum_switch");
                }
            } else if (depth > 0) {
                instance(m, depth);
            }
        }
        if (top && depth > 0) instance(m, depth);
        if (!top) {
            uint32_t n = r.below(3);
            for (uint32_t i = 0; i < n; i++) {
                auto a = port(m, PortDirection::Out, r.below(types.size()), r.chance(25) ? r.range(2, 3) : 0);
                m.pout.push_back(a);
                drive(m, a);
            }
            int e = r.chance(40) ? pick_enum(m.g, true) : -1;
            if (e >= 0) {
                EV x{e, &eport(m, PortDirection::Out, e, nm("eo"))};
                m.eout.push_back(x);
                drive_enum(m, x);
            }
        }
        // everything is visible from outside
        auto out = [&](Var& v) {
            auto n = nm("out");
            auto& p = g.port(PortDirection::Out, n, v.width(), 1, PortType::Data, v.is_signed());
            g.add_stmt(p.assign(v));
            m.outs.push_back({n, v.width()});
            if (top) spec.out.push_back({n, v.width()});
        };
        for (size_t i = 0; i < m.have.size(); i++)
            for (uint32_t e = 0; e < std::max(1u, m.have[i].n); e++)
                for (auto& l : leaves(m.have[i], e))
                    if (top || r.chance(25)) out(leaf(m.have[i], e, l));
        for (auto& e : m.ens) {
            size_t k = r.below(enums[e.en].vals.size());
            auto n = nm("out");
            auto& p = g.port(PortDirection::Out, n, 1);
            g.add_stmt(p.assign(e.v->eq(econst(e.en, k))));
            m.outs.push_back({n, 1});
            if (top) spec.out.push_back({n, 1});
        }
        for (size_t i = m.in.size(); i < m.pool.size(); i++)
            if (top || r.chance(30)) out(*m.pool[i]);
        if (top) {
            spec.clk = true;
            spec.rst = 1;
        }
        return m;
    }
    void instance(M& m, int depth) {
        auto& g = *m.g;
        auto c = module(nm("mod"), depth - 1, false);
        auto inst = nm("inst");
        g.add_child_generator(inst, c.g->shared_from_this());
        hit("instance");
        g.add_stmt(c.clk->assign(*m.clk));
        g.add_stmt(c.rst->assign(*m.rst));
        for (auto* p : c.in) {
            Var& e = expr(m, p->width(), p->is_signed());
            g.add_stmt(p->assign(e));
        }
        for (auto& a : c.pin) {
            auto how = r.below(3);
            Agg* from = nullptr;
            for (auto& h : m.have)
                if (h.ty == a.ty && h.n == a.n) from = &h;
            Agg* f;
            uint32_t j;
            std::vector<std::string> q;
            if (how == 0 && from) {
                copy_all(a, *from, [&](Var& l, Var& x) { g.add_stmt(l.assign(x)); });
                hit("port_whole");
            } else if (how == 1 && !a.n && part(m, a.ty, f, j, q)) {
                copy(a, 0, {}, *f, j, q, [&](Var& l, Var& x) { g.add_stmt(l.assign(x)); });
                hit("port_from_part");
            } else {
                // member by member
                for (uint32_t i = 0; i < std::max(1u, a.n); i++)
                    for (auto& l : leaves(a, i)) g.add_stmt(leaf(a, i, l).assign(expr(m, l.w, l.s)));
                hit(a.n ? "port_array_members" : "port_members");
            }
        }
        for (auto& e : c.ein) g.add_stmt(e.v->assign(eexpr(m, e.en)));
        for (auto& a : c.pout) {
            if (r.chance(50)) {
                // whole
                auto v = agg(m, a.ty, a.n);
                copy_all(v, a, [&](Var& l, Var& x) { g.add_stmt(l.assign(x)); });
                m.have.push_back(v);
                hit("out_port_whole");
            } else {
                // read the members directly
                for (uint32_t i = 0; i < std::max(1u, a.n); i++)
                    for (auto& l : leaves(a, i))
                        if (r.chance(70)) {
                            auto& v = g.var(nm("w"), l.w, 1, l.s);
                            g.add_stmt(v.assign(leaf(a, i, l)));
                            m.pool.push_back(&v);
                        }
                hit("out_port_members");
            }
        }
        for (auto& e : c.eout) {
            auto& v = evar(m, e.en, nm("e"));
            g.add_stmt(v.assign(*e.v));
            m.ens.push_back({e.en, &v});
            hit("enum_port");
        }
        for (auto& o : c.outs) {
            auto p = c.g->get_port(o.first);
            auto& v = g.var(nm("w"), o.second, 1, p->is_signed());
            g.add_stmt(v.assign(*p));
            m.pool.push_back(&v);
        }
    }
};
}  // namespace typed
