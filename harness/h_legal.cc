// Designs with one planted rule violation must be refused; the same designs without it must be accepted.
#include "drv.hh"
#include "pipeline.hh"
#include "rdesign.hh"

using namespace rd;

static auto sp(Var& v) { return v.shared_from_this(); }
static Const& K(uint64_t v, uint32_t w) { return Const::constant((int64_t)v, w, false); }

struct Inj {
    Rng& r;
    Generator& g;
    Generator& top;
    Context& ctx;
    bool want;  // the design is to become illegal
    std::string what;
    std::string by;  // the pass whose job it is
    int uid = 0;
    std::string fresh(const char* p) { return std::string("zz_") + p + std::to_string(uid++); }

    // a port of g that is reachable from the top
    Port& in(uint32_t w, PortType t = PortType::Data) {
        auto n = fresh("in");
        Generator* at = &g;
        Port* first = nullptr;
        Port* below = nullptr;
        while (at) {
            auto& p = at->port(PortDirection::In, n, w, 1, t, false);
            if (!first) first = &p;
            if (below) at->wire(*below, p);
            below = &p;
            at = at->parent_generator();
        }
        return *first;
    }
    Port& out(uint32_t w) { return g.port(PortDirection::Out, fresh("out"), w); }
    Var& pred() {
        auto& p = in(r.chance(50) ? 1 : 3);
        if (p.width() == 1) return r.chance(50) ? (Var&)p : (Var&)(~p);
        return p.eq(K(r.below(8), 3));
    }
    // ---- statement trees in which a target is assigned on every path, or not
    struct Tree {
        std::function<std::shared_ptr<Stmt>()> leaf;
        std::function<std::shared_ptr<Stmt>()> other;
        bool loops = true;
        bool stop_after_cover = false;
    };
    using Add = std::function<void(std::shared_ptr<Stmt>)>;
    bool tree(const Tree& t, uint32_t depth, const Add& add) {
        uint32_t n = r.range(1, depth ? 2 : 1);
        bool cov = false;
        for (uint32_t i = 0; i < n; i++) {
            if (cov && t.stop_after_cover) break;
            uint32_t k = r.below(depth ? 12 : 4);
            if (k < 2) {
                add(t.leaf());
                cov = true;
            } else if (k < 4) {
                if (t.other) {
                    auto s = t.other();
                    if (s) add(s);
                }
            } else if (k < 8) {
                auto st = std::make_shared<IfStmt>(sp(pred()));
                add(st);
                bool a = tree(t, depth - 1, [&](auto s) { st->add_then_stmt(s); });
                bool b = false;
                if (r.chance(80)) b = tree(t, depth - 1, [&](auto s) { st->add_else_stmt(s); });
                cov |= a && b;
            } else if (k < 11 || !t.loops) {
                bool wide = r.chance(15);
                uint32_t w = wide ? 31 + r.below(3) + 32 * r.below(2) : r.range(1, 3);
                auto st = std::make_shared<SwitchStmt>(in(w));
                add(st);
                uint32_t all = wide ? 64 : 1u << w, cnt = wide ? 1 + r.below(3) : r.chance(50) ? all : r.range(1, all);
                bool def = r.chance(cnt == all ? 20 : 50), full = true;
                uint32_t off = r.below(all);
                for (uint32_t i = 0; i < cnt; i++) {
                    std::vector<std::shared_ptr<Stmt>> body;
                    full &= tree(t, depth - 1, [&](auto s) { body.push_back(s); });
                    auto key = K((i + off) % all, w).as<Const>();
                    auto& blk = st->add_switch_case(key, std::vector<std::shared_ptr<Stmt>>{});
                    for (auto& s : body) blk.add_stmt(s);
                }
                if (def) {
                    std::vector<std::shared_ptr<Stmt>> body;
                    full &= tree(t, depth - 1, [&](auto s) { body.push_back(s); });
                    auto& blk = st->add_switch_case(std::shared_ptr<Const>(nullptr), std::vector<std::shared_ptr<Stmt>>{});
                    for (auto& s : body) blk.add_stmt(s);
                }
                cov |= full && (def || (cnt == all && !wide));
            } else {
                auto st = std::make_shared<ForStmt>("zi" + std::to_string(uid++), 0, r.range(1, 4), 1);
                add(st);
                cov |= tree(t, depth - 1, [&](auto s) { st->add_stmt(s); });
            }
        }
        return cov;
    }
    // draws trees until one is covered (or not) as wanted; the statements of other trees are dropped before they are attached
    bool grow(const Tree& t, uint32_t depth, const Add& add) {
        for (int i = 0; i < 60; i++) {
            std::vector<std::shared_ptr<Stmt>> ss;
            bool cov = tree(t, depth, [&](auto s) { ss.push_back(s); });
            bool any = count(ss);
            if (any && cov != want) {
                for (auto& s : ss) add(s);
                return true;
            }
            for (auto& s : ss) s->clear();
        }
        return false;
    }
    uint32_t leaves = 0;
    bool count(std::vector<std::shared_ptr<Stmt>>&) {
        bool x = leaves > 0;
        leaves = 0;
        return x;
    }

    // ---- kinds; false: could not be built
    bool latch() {
        auto& o = out(8);
        auto& a = in(8);
        auto& b = in(8);
        Var* v = &o;
        if (r.chance(40)) {
            v = &g.var(fresh("v"), 8);
            g.add_stmt(o.assign(*v));
        }
        Var* l = v;
        if (r.chance(20)) {
            l = &(*v)[{5, 2}];
            if (v == &o) {
                g.add_stmt(o[{7, 6}].assign(a[{7, 6}]));  // stays a wire: not assigned in the process
                return false;
            }
        }
        auto& w = g.var(fresh("w"), 8);
        auto& wo = out(8);
        g.add_stmt(wo.assign(w));
        auto blk = g.combinational();
        blk->add_stmt(w.assign(a, AssignmentType::Blocking));
        Tree t;
        t.leaf = [&] {
            leaves++;
            Var& e = r.chance(50) ? (Var&)a : (Var&)(a + b);
            return std::static_pointer_cast<Stmt>(l->assign(l == v ? e : (Var&)e[{3, 0}], AssignmentType::Blocking));
        };
        t.other = [&] { return std::static_pointer_cast<Stmt>(w.assign(r.chance(50) ? (Var&)a : (Var&)(a ^ b), AssignmentType::Blocking)); };
        what = want ? "latch: a variable is not assigned on every path of a combinational process" : "complete assignment";
        return grow(t, r.range(1, 3), [&](auto s) { blk->add_stmt(s); });
    }
    bool ret() {
        auto& o = out(8);
        auto name = fresh("fn");
        auto f = g.function(name);
        auto a = f->input("a", 8, false);
        auto b = f->input("b", 8, false);
        auto s1 = f->input("s", 1, false);
        auto s2 = f->input("t", 2, false);
        f->create_function_handler(8, false);
        f->set_has_return_value(true);
        bool ok = false;
        std::function<bool(uint32_t, const Add&)> rec = [&](uint32_t d, const Add& add) {
            uint32_t k = r.below(d ? 10 : 3);
            if (k < 2) {
                add(f->return_stmt(sp(r.chance(50) ? (Var&)*a : (Var&)(*a + *b))));
                leaves++;
                return true;
            }
            if (k < 3) return false;
            bool cov;
            if (k < 7) {
                auto st = std::make_shared<IfStmt>(sp(r.chance(50) ? (Var&)*s1 : (Var&)a->eq(*b)));
                add(st);
                bool x = rec(d - 1, [&](auto s) { st->add_then_stmt(s); });
                bool y = r.chance(80) && rec(d - 1, [&](auto s) { st->add_else_stmt(s); });
                cov = x && y;
            } else {
                auto st = std::make_shared<SwitchStmt>(*s2);
                add(st);
                bool def = r.chance(50);
                uint32_t n = def ? r.range(1, 4) : r.range(3, 4);
                cov = def || n == 4;
                for (uint32_t i = 0; i < n + def; i++) {
                    auto& blk = i < n ? st->add_switch_case(K(i, 2).as<Const>(), std::vector<std::shared_ptr<Stmt>>{}) : st->add_switch_case(std::shared_ptr<Const>(nullptr), std::vector<std::shared_ptr<Stmt>>{});
                    bool x = rec(d - 1, [&](auto s) { blk.add_stmt(s); });
                    cov &= x;
                }
            }
            if (!cov && r.chance(40)) cov = rec(d - 1, add);
            return cov;
        };
        for (int i = 0; i < 60 && !ok; i++) {
            std::vector<std::shared_ptr<Stmt>> ss;
            bool cov = rec(r.range(1, 3), [&](auto s) { ss.push_back(s); });
            bool any = leaves;
            leaves = 0;
            if (any && cov != want) {
                for (auto& s : ss) f->add_stmt(s);
                ok = true;
            } else
                for (auto& s : ss) s->clear();
        }
        auto& call = g.call(name, std::map<std::string, std::shared_ptr<Var>>{{"a", sp(in(8))}, {"b", sp(in(8))}, {"s", sp(in(1))}, {"t", sp(in(2))}});
        g.add_stmt(o.assign(call));
        what = want ? "a function that does not return on every path" : "complete returns";
        return ok;
    }
    struct Place {
        StmtBlock* blk;
        AssignmentType t;
    };
    std::shared_ptr<SequentialStmtBlock> clocked() {
        auto& clk = in(1, PortType::Clock);
        auto s = g.sequential();
        s->add_condition({EventEdgeType::Posedge, sp(clk)});
        return s;
    }
    bool drivers() {
        bool arr = r.chance(35);
        uint32_t w = r.range(2, 8), n = arr ? r.range(2, 4) : 1, total = w * n;
        auto& v = arr ? g.var(fresh("v"), w, n) : g.var(fresh("v"), w);
        auto& o = g.port(PortDirection::Out, fresh("out"), w, n);
        g.add_stmt(o.assign(v));
        uint32_t style = r.below(3);  // wires, combinational, sequential
        // pieces that cover every bit once; bounds within an element
        struct Piece {
            uint32_t e, h, l;
        };
        std::vector<Piece> ps;
        for (uint32_t e = 0; e < n; e++) {
            uint32_t l = 0;
            while (l < w) {
                uint32_t h = r.range(l, w - 1);
                ps.push_back({e, h, l});
                l = h + 1;
            }
        }
        auto lhs = [&](const Piece& p) -> Var& {
            Var& el = arr ? (Var&)v[p.e] : (Var&)v;
            if (p.l == 0 && p.h == w - 1) return el;
            if (p.l == p.h && r.chance(50)) return el[p.l];
            return el[{p.h, p.l}];
        };
        auto rhs = [&](const Piece& p) -> Var& { return in(p.h - p.l + 1); };
        std::vector<std::shared_ptr<StmtBlock>> blks;
        uint32_t nb = r.range(1, 3);
        auto mk = [&]() -> std::shared_ptr<StmtBlock> {
            if (style == 1) return g.combinational();
            return clocked();
        };
        if (style)
            for (uint32_t i = 0; i < nb; i++) blks.push_back(mk());
        std::vector<uint32_t> home;
        auto put = [&](const Piece& p, int where) {
            auto t = style == 2 ? AssignmentType::NonBlocking : AssignmentType::Blocking;
            auto st = lhs(p).assign(rhs(p), t);
            if (where < 0)
                g.add_stmt(st);
            else
                blks[where]->add_stmt(st);
        };
        for (auto& p : ps) {
            int where = style ? (int)r.below(nb) : -1;
            home.push_back(where);
            put(p, where);
        }
        if (!want) {
            what = "every bit driven once";
            return true;
        }
        // one more driver that overlaps a piece from somewhere else
        uint32_t i = r.below(ps.size());
        Piece p = ps[i];
        if (p.l != p.h && r.chance(40)) (r.chance(50) ? p.l : p.h) = r.range(p.l, p.h);
        if (r.chance(30)) {
            p.l = 0;
            if (home.size() == 1 || r.chance(50)) p.h = w - 1;
        }
        if (style == 0 || r.chance(25)) {
            put(p, -1);
            if (style && r.chance(50)) by = "verify_assignments";
            what = style ? "a variable driven by a process and by a wire" : "bits driven by two wires";
        } else {
            blks.push_back(mk());
            put(p, (int)blks.size() - 1);
            what = "bits driven by two processes";
        }
        (void)total;
        return true;
    }
    bool child_driver() {
        // an input of a child driven twice by its parent
        auto& c = ctx.generator(fresh("child"));
        uint32_t w = r.range(2, 6);
        auto& ci = c.port(PortDirection::In, "ci", w);
        auto& co = c.port(PortDirection::Out, "co", w);
        c.add_stmt(co.assign(~ci));
        g.add_child_generator(fresh("u"), c.shared_from_this());
        auto& o = out(w);
        g.add_stmt(o.assign(co));
        if (!want) {
            g.add_stmt(ci.assign(in(w)));
            what = "input of a child driven once";
            return true;
        }
        uint32_t m = r.below(3);
        if (m == 0) {
            g.add_stmt(ci.assign(in(w)));
            g.add_stmt(ci.assign(in(w)));
            what = "input of a child driven twice";
        } else if (m == 1) {
            uint32_t k = r.below(w);
            g.add_stmt(ci.assign(in(w)));
            g.add_stmt(ci[k].assign(in(1)));
            what = "input of a child driven twice in one bit";
        } else {
            g.add_stmt(ci.assign(in(w)));
            auto b = g.combinational();
            b->add_stmt(ci.assign(in(w), AssignmentType::Blocking));
            if (r.chance(50)) by = "verify_assignments";
            what = "input of a child driven by a wire and a process";
        }
        return true;
    }
    bool floating() {
        bool arr = r.chance(30);
        uint32_t w = r.range(1, 8), n = arr ? r.range(2, 4) : 1;
        auto& c = ctx.generator(fresh("child"));
        auto& ci = c.port(PortDirection::In, "ci", w, n);
        auto& co = c.port(PortDirection::Out, "co", w, n);
        g.add_child_generator(fresh("u"), c.shared_from_this());
        auto& o = g.port(PortDirection::Out, fresh("out"), w, n);
        g.add_stmt(o.assign(co));
        int hole = want ? (int)r.below(3) : -1;  // input, inner output, own output
        what = hole == 0 ? "bits of an input of a child float" : hole == 1 ? "bits of an output of a child float" : hole == 2 ? "bits of an output float" : "everything driven";
        auto drive = [&](Generator& at, Port& p, bool leave, std::function<Var&(uint32_t)> src) {
            uint32_t skip = r.below(w * n);
            if (!leave && r.chance(40)) {
                // whole
                if (arr) {
                    for (uint32_t e = 0; e < n; e++) at.add_stmt(p[e].assign(src(w)));
                } else
                    at.add_stmt(p.assign(src(w)));
                return;
            }
            if (leave && r.chance(25)) return;
            for (uint32_t e = 0; e < n; e++) {
                uint32_t l = 0;
                while (l < w) {
                    uint32_t h = r.range(l, w - 1);
                    if (leave && skip >= e * w + l && skip <= e * w + h) {
                        l = h + 1;
                        continue;
                    }
                    Var& el = arr ? (Var&)p[e] : (Var&)p;
                    at.add_stmt((l == 0 && h == w - 1 ? el : (Var&)el[{h, l}]).assign(src(h - l + 1)));
                    l = h + 1;
                }
            }
        };
        drive(g, ci, hole == 0, [&](uint32_t k) -> Var& { return in(k); });
        drive(c, co, hole == 1, [&](uint32_t k) -> Var& { return K(r.below(1u << k), k); });
        auto& o2 = g.port(PortDirection::Out, fresh("out"), w, n);
        drive(g, o2, hole == 2, [&](uint32_t k) -> Var& { return in(k); });
        (void)ci;
        return true;
    }
    bool mixed() {
        uint32_t w = r.range(2, 8);
        auto& v = g.var(fresh("v"), w);
        g.add_stmt(out(w).assign(v));
        auto s = clocked();
        uint32_t k = r.range(1, w - 1);
        if (!want) {
            s->add_stmt(v[{w - 1, k}].assign(in(w - k), AssignmentType::NonBlocking));
            clocked()->add_stmt(v[{k - 1, 0}].assign(in(k), r.chance(50) ? AssignmentType::NonBlocking : AssignmentType::Undefined));
            what = "only non-blocking assignments";
            return true;
        }
        uint32_t m = r.below(4);
        if (m == 0) {
            s->add_stmt(v[{w - 1, k}].assign(in(w - k), AssignmentType::NonBlocking));
            g.combinational()->add_stmt(v[{k - 1, 0}].assign(in(k), AssignmentType::Blocking));
            what = "blocking and non-blocking assignments to one variable";
        } else if (m == 1) {
            s->add_stmt(v.assign(in(w), AssignmentType::Blocking));
            by = "fix_assignment_type", what = "blocking assignment in a sequential process";
        } else if (m == 2) {
            auto st = std::make_shared<IfStmt>(sp(pred()));
            s->add_stmt(st);
            st->add_then_stmt(v.assign(in(w), AssignmentType::NonBlocking));
            st->add_else_stmt(v.assign(in(w), AssignmentType::Blocking));
            by = "fix_assignment_type", what = "blocking assignment deep in a sequential process";
        } else {
            s->add_stmt(v.assign(in(w), AssignmentType::NonBlocking));
            auto& u = out(w);
            auto b = g.combinational();
            b->add_stmt(u.assign(in(w), AssignmentType::Blocking));
            auto st = std::make_shared<IfStmt>(sp(pred()));
            b->add_stmt(st);
            st->add_then_stmt(u.assign(in(w), AssignmentType::NonBlocking));
            what = "non-blocking assignment in a combinational process";
        }
        return true;
    }
    bool loop() {
        uint32_t w = r.range(1, 6);
        bool port = r.chance(40);
        Var& v = port ? (Var&)out(w) : g.var(fresh("v"), w);
        if (!port) g.add_stmt(out(w).assign(v));
        std::function<Var&(uint32_t, bool)> e = [&](uint32_t d, bool has) -> Var& {
            if (!d) return has ? v : (Var&)in(w);
            switch (r.below(5)) {
                case 0: return ~e(d - 1, has);
                case 1: return e(d - 1, has) + e(d - 1, false);
                case 2: return e(d - 1, false) ^ e(d - 1, has);
                case 3: return *util::mux(in(1), e(d - 1, has), e(d - 1, false));
                default: return *util::mux(in(1), e(d - 1, false), e(d - 1, has));
            }
        };
        std::function<Var&(bool)> extra = [&](bool has) -> Var& {
            auto& x = e(r.below(2), has);
            switch (r.below(has ? 8 : 6)) {
                case 0: return *util::mux(x.eq(in(w)), in(w), in(w));
                case 1: return *util::mux(x.r_or(), in(w), in(w));
                case 2: return x.duplicate(2).r_and().extend(w);
                case 3: return in(w).concat(x).r_or().extend(w);
                case 4: return *x.cast(VarCastType::Signed)->cast(VarCastType::Unsigned) + in(w);
                default: return e(r.range(1, 3), has);
            }
        };
        Var& rhs = extra(want);
        g.add_stmt(v.assign(rhs));
        what = want ? "a wire depends on itself: " + rhs.to_string() : "no loop";
        return true;
    }
    bool reset() {
        uint32_t m = r.below(want ? 7 : 5);
        uint32_t w = r.range(1, 5);
        bool declared = r.chance(60), high = r.chance(50);
        auto& rst = in(1, PortType::AsyncReset);
        if (declared) rst.set_active_high(high);
        auto mkseq = [&](bool posedge, Var& cond, bool only_if = true) {
            auto& v = out(w);
            auto s = clocked();
            s->add_condition({posedge ? EventEdgeType::Posedge : EventEdgeType::Negedge, sp(rst)});
            auto st = std::make_shared<IfStmt>(sp(cond));
            s->add_stmt(st);
            st->add_then_stmt(v.assign(K(0, w), AssignmentType::NonBlocking));
            st->add_else_stmt(v.assign(in(w), AssignmentType::NonBlocking));
            if (!only_if) s->add_stmt(out(w).assign(in(w), AssignmentType::NonBlocking));
        };
        auto active = [&](bool h) -> Var& { return h ? (Var&)rst : r.chance(50) ? ~rst : rst.r_not(); };
        if (!want) {
            mkseq(high, active(high));
            if (m < 2) mkseq(high, active(high));
            what = "reset used as declared";
            return true;
        }
        switch (m) {
            case 0:
                mkseq(high, active(!high));
                what = "polarity of the test differs from the edge";
                break;
            case 1:
                rst.set_active_high(!high);
                mkseq(high, active(high));
                what = "polarity differs from the declaration";
                break;
            case 2:
                mkseq(high, active(high));
                mkseq(!high, active(!high));
                what = "two polarities of one reset";
                break;
            case 3: {
                auto& v = out(w);
                auto s = clocked();
                auto st = std::make_shared<IfStmt>(sp(active(r.chance(50))));
                s->add_stmt(st);
                st->add_then_stmt(v.assign(K(0, w), AssignmentType::NonBlocking));
                st->add_else_stmt(v.assign(in(w), AssignmentType::NonBlocking));
                what = "asynchronous reset used as a synchronous one";
                break;
            }
            case 4: {
                auto& sr = in(1, PortType::Reset);
                auto& v = out(w);
                auto s = clocked();
                s->add_condition({EventEdgeType::Posedge, sp(sr)});
                auto st = std::make_shared<IfStmt>(sp(sr));
                s->add_stmt(st);
                st->add_then_stmt(v.assign(K(0, w), AssignmentType::NonBlocking));
                st->add_else_stmt(v.assign(in(w), AssignmentType::NonBlocking));
                what = "synchronous reset in a sensitivity list";
                break;
            }
            case 5: {
                // a register that is only ever reset
                auto& v = out(w);
                auto& u = out(w);
                auto s = clocked();
                s->add_condition({high ? EventEdgeType::Posedge : EventEdgeType::Negedge, sp(rst)});
                auto st = std::make_shared<IfStmt>(sp(active(high)));
                s->add_stmt(st);
                st->add_then_stmt(v.assign(K(0, w), AssignmentType::NonBlocking));
                st->add_then_stmt(u.assign(K(0, w), AssignmentType::NonBlocking));
                auto in2 = std::make_shared<IfStmt>(sp(pred()));
                st->add_else_stmt(in2);
                in2->add_then_stmt(u.assign(in(w), AssignmentType::NonBlocking));
                by = "check_inferred_latch", what = "a register that is reset and never set";
                break;
            }
            default:
                mkseq(high, active(high), false);
                by = "check_flip_flop_always_ff", what = "a statement beside the reset test of a sequential process";
        }
        return true;
    }
    bool sensitivity() {
        auto& v = out(4);
        auto s = g.sequential();
        uint32_t m = r.below(want ? 4 : 3);
        if (!want) {
            if (m == 0)
                s->add_condition({EventEdgeType::Posedge, sp(in(1, PortType::Clock))});
            else {
                auto& x = m == 1 ? (Var&)in(1) : g.var(fresh("c"), 1);
                if (m == 2) g.add_stmt(x.assign(in(1)));
                s->add_condition({EventEdgeType::Negedge, x.cast(VarCastType::Clock)});
            }
            what = "edges of clocks";
        } else {
            if (r.chance(50)) s->add_condition({EventEdgeType::Posedge, sp(in(1, PortType::Clock))});
            auto edge = r.chance(50) ? EventEdgeType::Posedge : EventEdgeType::Negedge;
            if (m == 0)
                s->add_condition({edge, sp(in(1))});
            else if (m == 1)
                s->add_condition({edge, sp(in(1, PortType::ClockEnable))});
            else if (m == 2) {
                auto& x = g.var(fresh("c"), 1);
                g.add_stmt(x.assign(in(1)));
                s->add_condition({edge, sp(x)});
            } else
                s->add_condition({edge, in(1).cast(VarCastType::ClockEnable)});
            what = "edge of something that is no clock or reset";
        }
        s->add_stmt(v.assign(in(4), AssignmentType::NonBlocking));
        return true;
    }
    bool shape() {
        auto s = clocked();
        auto& v = out(4);
        auto st = std::make_shared<IfStmt>(sp(pred()));
        std::vector<std::shared_ptr<Stmt>> ss = {st};
        if (want) {
            uint32_t n = r.range(1, 2);
            for (uint32_t i = 0; i < n; i++) {
                if (r.chance(70))
                    ss.push_back(out(4).assign(in(4), AssignmentType::NonBlocking));
                else {
                    auto x = std::make_shared<IfStmt>(sp(pred()));
                    x->add_then_stmt(out(4).assign(in(4), AssignmentType::NonBlocking));
                    ss.push_back(x);
                }
            }
            for (uint32_t i = ss.size(); i--;) std::swap(ss[i], ss[r.below(i + 1)]);
        }
        for (auto& x : ss) s->add_stmt(x);
        st->add_then_stmt(v.assign(in(4), AssignmentType::NonBlocking));
        what = want ? "an if with other statements beside it at the top of a sequential process" : "one if at the top of a sequential process";
        return true;
    }
    bool foreign() {
        // signals of other modules
        auto& c = ctx.generator(fresh("child"));
        auto& cc = ctx.generator(fresh("grand"));
        auto& ci = c.port(PortDirection::In, "ci", 4);
        auto& co = c.port(PortDirection::Out, "co", 4);
        auto& cv = c.var("cv", 4);
        auto& gi = cc.port(PortDirection::In, "gi", 4);
        auto& go = cc.port(PortDirection::Out, "go", 4);
        c.add_stmt(cv.assign(ci));
        c.add_stmt(gi.assign(cv));
        cc.add_stmt(go.assign(~gi));
        bool use_go = r.chance(50);
        c.add_child_generator("gr", cc.shared_from_this());
        g.add_child_generator(fresh("u"), c.shared_from_this());
        g.add_stmt(ci.assign(in(4)));
        auto& o = out(4);
        auto& v = g.var(fresh("v"), 4);
        g.add_stmt(v.assign(in(4)));
        uint32_t m = want ? r.below(4) : 9;
        auto wrap = [&](Var& x) -> Var& { return r.chance(40) ? ~x : r.chance(30) ? x + x : x; };
        if (m == 0) {
            g.add_stmt(o.assign(wrap(cv)));
            what = "a wire reads a variable inside a child";
        } else if (m == 1) {
            g.add_stmt(o.assign(wrap(go)));
            what = "a wire reads a port of a grandchild";
        } else
            g.add_stmt(o.assign(wrap(co)));
        if (m == 2) {
            c.add_stmt(co.assign(wrap(v)));
            what = "a child reads a variable of its parent";
        } else if (m == 3) {
            auto& x = ctx.generator(fresh("sib"));
            auto& xo = x.port(PortDirection::Out, "xo", 4);
            auto& xv = x.var("xv", 4);
            x.add_stmt(xv.assign(K(3, 4)));
            x.add_stmt(xo.assign(xv));
            g.add_child_generator(fresh("s"), x.shared_from_this());
            g.add_stmt(out(4).assign(xo));
            c.add_stmt(co.assign(wrap(xv)));
            what = "a child reads a variable of its sibling";
        } else
            c.add_stmt(co.assign(use_go ? go : cv));
        if (!want) what = "signals of the module and of its children";
        return true;
    }
    bool direction() {
        auto& c = ctx.generator(fresh("child"));
        uint32_t w = r.range(2, 6);
        auto& ci = c.port(PortDirection::In, "ci", w);
        auto& co = c.port(PortDirection::Out, "co", w);
        c.add_stmt(co.assign(~ci));
        g.add_child_generator(fresh("u"), c.shared_from_this());
        g.add_stmt(ci.assign(in(w)));
        auto& o = out(w);
        g.add_stmt(o.assign(co));
        what = "ports driven from their side";
        if (!want) return true;
        g.add_stmt(co.assign(in(w)));
        what = "an output driven from outside its module";
        return true;
    }
    bool synth() {
        auto& o = out(4);
        auto& a = in(4);
        if (!want) {
            g.add_stmt(o.assign(a));
            what = "plain logic";
            return true;
        }
        uint32_t m = r.below(5);
        if (m == 0) {
            auto st = o.assign(a, AssignmentType::Blocking);
            st->set_delay(EventControl(r.range(1, 5)));
            if (r.chance(50))
                g.add_stmt(st);
            else {
                auto b = g.combinational();
                auto i = std::make_shared<IfStmt>(sp(pred()));
                b->add_stmt(i);
                i->add_then_stmt(st);
            }
            what = "assignment with a delay";
        } else if (m == 1) {
            auto i = g.initial();
            i->add_stmt(o.assign(K(1, 4), AssignmentType::Blocking));
            what = "initial block";
        } else if (m == 2) {
            auto n = fresh("dpi");
            auto f = g.dpi_function(n);
            f->input("x", 4, false);
            f->set_return_width(4);
            auto& call = g.call(n, {{"x", sp(a)}}, true);
            g.add_stmt(o.assign(call));
            what = "call of an imported function";
        } else if (m == 3) {
            g.add_stmt(o.assign(a));
            auto f = g.builtin_function("display");
            auto& call = g.call("display", std::vector<std::shared_ptr<Var>>{sp(a)});
            auto st = std::make_shared<FunctionCallStmt>(call.as<FunctionCallVar>());
            g.combinational()->add_stmt(st);
            what = "$display";
        } else {
            auto b = g.combinational();
            b->set_general_purpose(true);
            b->add_stmt(o.assign(a, AssignmentType::Blocking));
            what = "general purpose always";
        }
        return true;
    }
};

struct Kind {
    const char* first;
    bool (Inj::*second)();
    const char* by;
};
static const std::vector<Kind> KINDS = {
    {"latch", &Inj::latch, "check_inferred_latch"}, {"return", &Inj::ret, "check_function_return"}, {"drivers", &Inj::drivers, "check_multiple_driver"}, {"child_driver", &Inj::child_driver, "check_multiple_driver"}, {"floating", &Inj::floating, "verify_generator_connectivity"}, {"mixed", &Inj::mixed, "check_mixed_assignment"},
    {"loop", &Inj::loop, "check_combinational_loop"}, {"reset", &Inj::reset, "check_active_high"}, {"sensitivity", &Inj::sensitivity, "check_always_sensitivity"}, {"shape", &Inj::shape, "check_flip_flop_always_ff"}, {"foreign", &Inj::foreign, "check_mixed_assignment"}, {"direction", &Inj::direction, "check_multiple_driver"}, {"synth", &Inj::synth, "check_non_synthesizable_content"}};

static void rules(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.range(1, 3);
    o.child_depth = r.below(3);
    o.expr_depth = 1;
    o.max_width = 8;
    o.same_name_children = r.chance(30);
    auto p = pl::P::random(r);
    Context ctx;
    Builder b(r, o, ctx);
    Mod m = b.module("top", o.child_depth, true);
    std::vector<Generator*> reach;
    for (auto& x : b.gens) reach.push_back(x.first);
    bool want = r.chance(60);
    uint32_t k = r.below(KINDS.size());
    if (c.a.opt.count("kind"))
        for (uint32_t i = 0; i < KINDS.size(); i++)
            if (c.a.opt.at("kind") == KINDS[i].first) k = i;
    Generator* g = r.pick(reach);
    Inj inj{r, *g, *m.g, ctx, want, "", KINDS[k].by, 0};
    bool alone = r.chance(50) || std::string(KINDS[k].first) == "synth";
    std::string why, text;
    bool refused = false;
    try {
        if (!(inj.*KINDS[k].second)()) {
            c.st.add("not_built");
            return;
        }
    } catch (const std::exception& e) {
        // some violations are refused right away
        refused = true;
        why = e.what();
    }
    if (c.a.show) {
        std::cerr << "// " << KINDS[k].first << " in " << g->name << ": " << inj.what << " want refusal: " << want << "\n";
    }
    try {
        if (alone) {
            VerilogModule vm(m.g);
            vm.pass_manager().add_pass("fix_assignment_type");
            if (inj.by != "fix_assignment_type") vm.pass_manager().add_pass(inj.by);
            if (!refused) vm.run_passes();
        } else if (!refused)
            text = pl::emit(*m.g, pl::sequence(p));
    } catch (const std::exception& e) {
        refused = true;
        why = e.what();
    }
    if (c.a.show) std::cerr << (refused ? why : text) << "\n";
    c.st.add(alone ? "pass_alone" : "pipeline");
    if (refused) {
        std::string w;
        for (auto ch : why.substr(why.find(' ') == std::string::npos ? 0 : why.find(' '), 60)) w += isalpha((unsigned char)ch) || ch == ' ' ? ch : '.';
        c.st.add("feat.why " + std::string(KINDS[k].first) + ":" + w.substr(0, 24));
    }
    std::string key = std::string(KINDS[k].first) + (want ? ".illegal" : ".legal");
    c.st.add(key);
    if (refused) c.st.add("refused");
    if (want && !refused) c.violation("accepted", std::string(KINDS[k].first) + ": " + inj.what + " is not refused " + (alone ? "by " + inj.by : "by the pipeline") + " (module " + g->name + ")");
    if (!want && refused) c.violation("rejected", std::string(KINDS[k].first) + ": " + inj.what + " is refused: " + why);
    c.st.see(key + inj.what + std::to_string(r.s));
    c.st.sample(inj.what + " in " + g->name + (refused ? "\nrefused: " + why : "\naccepted"));
}

int main(int argc, char** argv) { return drv::run(argc, argv, {{"rules", rules}}); }
