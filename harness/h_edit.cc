// A design is built and then edited through the public API in ways that do not change what it does: the
// behaviour must stay that of the golden text, which knows nothing of the edits.
#include "drv.hh"
#include "equiv.hh"
#include "pipeline.hh"

using namespace rd;

namespace {
void judge(drv::Case& c, eq::Res& res) {
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    c.st.add("ff_activations", res.ffs);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
}

// the generators in a fixed order
void gens(const std::shared_ptr<Generator>& g, std::vector<std::shared_ptr<Generator>>& s) {
    if (g->external()) return;
    if (std::find(s.begin(), s.end(), g) != s.end()) return;
    s.push_back(g);
    for (auto& c : g->get_child_generators()) gens(c, s);
}

struct Editor {
    drv::Case& c;
    Rng& r;
    std::shared_ptr<Generator> top;
    int uid = 0;
    std::string log;

    std::string fresh() {
        static const char* pre[] = {"aa_edit", "zz_edit", "m_edit", "in_edit", "Edit"};
        return std::string(pre[r.below(5)]) + std::to_string(uid++);
    }
    void note(const std::string& s) {
        c.st.add("edit." + s.substr(0, s.find(' ')));
        log += s + "\n";
        if (c.a.show) std::cerr << "// edit: " << s << "\n";
    }
    // variables of the module that are not ports
    std::vector<std::string> inner(Generator& g) {
        std::vector<std::string> v;
        for (auto& n : g.get_vars()) {
            auto x = g.get_var(n);
            if (x && x->generator() == &g && !x->is_interface()) v.push_back(n);
        }
        return v;
    }
    bool movable(Var& v) {
        return !v.is_struct() && !v.is_enum() && v.width_param() == nullptr;
    }
    void rename_var(Generator& g) {
        auto v = inner(g);
        auto ports = g.get_port_names();
        std::string o;
        bool port = &g != top.get() && r.chance(35) && !ports.empty();
        if (port) {
            std::vector<std::string> pv(ports.begin(), ports.end());
            o = r.pick(pv);
        } else if (!v.empty())
            o = r.pick(v);
        else
            return;
        auto all = g.get_all_var_names();
        if (r.chance(15)) {
            auto other = r.pick(all);
            if (other != o) {
                note("clash rename " + g.name + "." + o + " to " + other);
                bool thrown = false;
                try {
                    g.rename_var(o, other);
                } catch (const UserException&) {
                    thrown = true;
                }
                if (!thrown) c.violation("accepted", "rename of " + o + " to the name of another variable, " + other + ", is accepted");
                return;
            }
        }
        auto n = fresh();
        auto var = g.get_var(o);
        note((port ? "renameport " : "renamevar ") + g.name + "." + o + " to " + n);
        g.rename_var(o, n);
        if (g.get_var(o)) c.violation("lookup", "the old name " + o + " still finds a variable after the renaming");
        if (g.get_var(n) != var) c.violation("lookup", "the new name " + n + " does not find the variable");
        if (var->name != n || var->to_string() != n) c.violation("lookup", "the variable calls itself " + var->to_string() + " instead of " + n);
        if (port && !g.has_port(n)) c.violation("lookup", n + " is no port after the renaming");
        if (port && g.has_port(o)) c.violation("lookup", o + " is still a port after the renaming");
        if (r.chance(30)) {  // the freed name can be used again
            auto& x = g.var(o, var->var_width(), 1, false);
            (void)x;
            note("reuse " + g.name + "." + o);
            g.remove_var(o);
            if (g.get_var(o)) c.violation("lookup", "a removed variable is still found");
        }
    }
    void swap_vars(Generator& g) {
        auto v = inner(g);
        if (v.size() < 2) return;
        auto a = r.pick(v), b = r.pick(v);
        if (a == b) return;
        note("swap " + g.name + "." + a + " and " + b);
        auto t = fresh();
        g.rename_var(a, t);
        g.rename_var(b, a);
        g.rename_var(t, b);
    }
    void rename_child(Generator& g) {
        auto ch = g.get_child_generators();
        if (ch.empty()) return;
        auto x = r.pick(ch);
        if (ch.size() > 1 && r.chance(20)) {
            auto y = r.pick(ch);
            if (y != x) {
                note("clash child " + x->instance_name + " to " + y->instance_name);
                bool thrown = false;
                try {
                    g.rename_child_generator(x, y->instance_name);
                } catch (const std::exception&) {
                    thrown = true;
                }
                if (!thrown) c.violation("accepted", "an instance is given the name of another one, " + y->instance_name);
                return;
            }
        }
        auto o = x->instance_name, n = fresh();
        note("renamechild " + g.name + "." + o + " to " + n);
        g.rename_child_generator(x, n);
        if (g.get_child_generator(o) || g.get_child_generator(n) != x.get() || x->instance_name != n)
            c.violation("lookup", "instance " + o + " is not found under its new name " + n + " only");
    }
    Var& twin(Generator& g, Var& v, const std::string& n) {
        auto& x = g.var(n, v.var_width(), v.size(), v.is_signed());
        x.set_is_packed(v.is_packed());
        x.set_explicit_array(v.explicit_array());
        return x;
    }
    // readers or writers of a variable are moved to a new wire that is connected with it
    void move(Generator& g, bool sink) {
        std::vector<Var*> v;
        for (auto& n : inner(g)) v.push_back(g.get_var(n).get());
        for (auto& n : g.get_port_names()) {
            auto p = g.get_port(n);
            if (p->port_type() != PortType::Data) continue;
            if ((p->port_direction() == PortDirection::In) == sink) v.push_back(p.get());
        }
        for (auto& ch : g.get_child_generators())
            for (auto& n : ch->get_port_names()) {
                auto p = ch->get_port(n);
                if (p->port_type() != PortType::Data) continue;
                if ((p->port_direction() == PortDirection::Out) == sink) v.push_back(p.get());
            }
        if (v.empty()) return;
        Var* x = v[r.below((uint32_t)v.size())];
        if (!movable(*x)) return;
        if (!sink && x->sources().empty()) return;
        if (sink && x->sinks().empty()) return;
        auto n = fresh();
        note((sink ? "movesink " : "movesrc ") + g.name + "." + x->handle_name() + " to " + n);
        auto& t = twin(g, *x, n);
        if (sink)
            Var::move_sink_to(x, &t, &g, true);
        else
            Var::move_src_to(x, &t, &g, true);
    }
    void shuffle(Generator& g) {
        auto n = g.stmts_count();
        if (n < 2) return;
        auto s = g.get_stmt(r.below((uint32_t)n));
        note("readd " + g.name);
        g.remove_stmt(s);
        g.add_stmt(s);
    }
    void rewire(Generator& g) {
        std::vector<std::pair<Var*, Var*>> w;
        for (auto& s : g.get_all_stmts()) {
            if (s->type() != StatementType::Assign) continue;
            auto a = s->as<AssignStmt>();
            w.push_back({a->left(), a->right()});
        }
        if (w.empty()) return;
        auto p = r.pick(w);
        std::vector<std::shared_ptr<AssignStmt>> before;
        for (auto& s : g.get_all_stmts())
            if (s->type() == StatementType::Assign) before.push_back(s->as<AssignStmt>());
        auto count = g.stmts_count();
        note("rewire " + g.name + " " + p.first->to_string());
        bool back = r.chance(50);
        if (back)
            g.unwire(*p.second, *p.first);
        else
            g.unwire(*p.first, *p.second);
        if (g.stmts_count() != count - 1) c.violation("lookup", "unwire took away " + std::to_string(count - g.stmts_count()) + " statements");
        for (auto* v : {p.first, p.second}) {
            if (v->type() == VarType::Expression || v->type() == VarType::ConstValue) continue;
            for (auto& x : before)
                if (v->sinks().count(x) || v->sources().count(x)) {
                    bool still = false;
                    for (auto& y : g.get_all_stmts()) still = still || y == x;
                    if (!still) c.violation("lookup", v->to_string() + " still knows the connection that was taken out");
                }
        }
        g.wire(*p.first, *p.second);
    }
    void block(Generator& g) {
        for (auto& s : g.get_all_stmts()) {
            if (s->type() != StatementType::Block || !r.chance(30)) continue;
            auto b = std::dynamic_pointer_cast<StmtBlock>(s);
            if (!b || b->block_type() == StatementBlockType::Function) continue;
            if (b->block_type() != StatementBlockType::Combinational && b->block_type() != StatementBlockType::Sequential) continue;
            if (b->empty()) continue;
            // the last statement is taken out and put back
            auto last = b->get_stmt((uint32_t)b->size() - 1);
            if (!last) continue;
            note("blockreadd " + g.name);
            b->remove_stmt(last);
            b->add_stmt(last);
            return;
        }
    }
    // an instance is replaced by a module that contains it
    void wrap(Generator& g) {
        auto ch = g.get_child_generators();
        if (ch.empty()) return;
        auto x = r.pick(ch);
        if (x->is_cloned() || !x->get_clones().empty()) return;
        for (auto& y : ch)
            if (y->def_instance() == x.get() && y != x) return;
        for (auto& n : x->get_port_names()) {
            auto p = x->get_port(n);
            if (p->is_struct() || p->is_enum() || p->is_interface() || p->width_param()) return;
        }
        auto iname = x->instance_name;
        auto wname = "wrap_" + fresh();
        note("wrap " + g.name + "." + iname);
        auto w = g.context()->generator(wname).shared_from_this();
        if (r.chance(50)) {
            w->copy_over_missing_ports(x);
            c.st.add("edit.wrap.copy_over");
        } else
            for (auto& n : x->get_port_names()) {
                auto p = x->get_port(n);
                auto& q = w->port(p->port_direction(), n, p->var_width(), p->size(), p->port_type(), p->is_signed());
                q.set_is_packed(p->is_packed());
                q.set_explicit_array(p->explicit_array());
                if (p->port_direction() == PortDirection::In && p->active_high()) q.set_active_high(*p->active_high());
            }
        if (r.chance(25)) {
            // one that does not fit is refused and changes nothing
            auto bad = g.context()->generator("bad_" + fresh()).shared_from_this();
            std::vector<std::string> pn;
            for (auto& n : x->get_port_names()) pn.push_back(n);
            if (!pn.empty()) {
                auto odd = r.pick(pn);
                uint32_t how = r.below(5);
                for (auto& n : pn) {
                    auto p = x->get_port(n);
                    bool here = n == odd;
                    if (here && how == 4) continue;
                    auto size = p->size();
                    if (here && how == 1) size.back()++;
                    auto dir = p->port_direction();
                    if (here && how == 2) dir = dir == PortDirection::In ? PortDirection::Out : PortDirection::In;
                    bool sign = p->is_signed() != (here && how == 3);
                    auto type = p->port_type();
                    if (here && type != PortType::Data) type = how == 0 || how == 1 || how == 3 ? PortType::Data : type;
                    auto& q = bad->port(dir, n, p->var_width() + (here && how == 0), size, type, sign);
                    q.set_is_packed(p->is_packed());
                }
                note("misfit " + std::to_string(how) + " " + g.name + "." + iname + "." + odd);
                auto count = g.stmts_count();
                bool thrown = false;
                try {
                    g.replace(iname, bad);
                } catch (const std::exception&) {
                    thrown = true;
                }
                if (!thrown) c.violation("accepted", "an instance is replaced by a module whose port " + odd + " does not fit (" + std::to_string(how) + ")");
                if (!thrown) return;
                if (g.get_child_generator(iname) != x.get() || g.stmts_count() != count) c.violation("lookup", "a refused replacement changes the design");
            }
        }
        auto place = g.get_child_generator_size();
        g.replace(iname, w);
        if (g.get_child_generator(iname) != w.get() || g.get_child_generator_size() != place) c.violation("lookup", "after the replacement " + iname + " is not the new module");
        if (x->parent_generator()) c.violation("lookup", "the replaced instance still has a parent");
        w->add_child_generator("inner", x);
        for (auto& n : x->get_port_names()) {
            auto p = x->get_port(n);
            auto q = w->get_port(n);
            if (p->port_direction() == PortDirection::In)
                w->wire(*p, *q);
            else
                w->wire(*q, *p);
        }
    }
    // an instance is taken out, its connections are lost, and it is put back and connected as before
    void takeout(Generator& g) {
        auto ch = g.get_child_generators();
        if (ch.empty()) return;
        auto x = r.pick(ch);
        std::vector<std::pair<std::shared_ptr<Var>, std::shared_ptr<Var>>> w;
        std::set<Stmt*> lost;
        for (auto& n : x->get_port_names()) {
            auto p = x->get_port(n);
            if (p->is_interface() || p->is_struct()) return;
            bool in = p->port_direction() == PortDirection::In;
            for (auto& s : in ? p->sources() : p->sinks()) {
                if (s->generator_parent() != &g) continue;
                if (s->parent() != &g) return;                              // used in a block
                if ((in ? s->left() : s->right()) != p.get()) return;        // used in parts or in an expression
            }
            // in the order of the design, not in that of the set
            for (auto& s : g.get_all_stmts()) {
                if (s->type() != StatementType::Assign) continue;
                auto a = s->as<AssignStmt>();
                if ((in ? a->left() : a->right()) != p.get()) continue;
                w.push_back({a->left()->shared_from_this(), a->right()->shared_from_this()});
                lost.insert(s.get());
            }
        }
        auto o = x->instance_name, n = r.chance(50) ? o : fresh();
        note("takeout " + g.name + "." + o + " back as " + n);
        auto count = g.stmts_count();
        g.remove_child_generator(x);
        if (g.get_child_generator(o) || x->parent_generator()) c.violation("lookup", "the removed instance " + o + " is still there");
        if (g.stmts_count() != count - lost.size())
            c.violation("lookup", "removing the instance took away " + std::to_string(count - g.stmts_count()) + " statements, " + std::to_string(lost.size()) + " were connected to it");
        g.add_child_generator(n, x);
        for (auto& y : w) g.wire(*y.first, *y.second);
    }
    // the last statement of a branch is taken out and put back
    void branch(Generator& g) {
        std::vector<IfStmt*> ifs;
        std::function<void(Stmt*)> walk = [&](Stmt* s) {
            if (s->type() == StatementType::If) {
                auto* i = dynamic_cast<IfStmt*>(s);
                ifs.push_back(i);
                for (auto& b : {i->then_body(), i->else_body()})
                    if (b)
                        for (auto& t : *b) walk(t.get());
            } else if (s->type() == StatementType::Block)
                for (auto& t : *dynamic_cast<StmtBlock*>(s)) walk(t.get());
        };
        for (auto& s : g.get_all_stmts()) walk(s.get());
        if (ifs.empty()) return;
        auto* i = r.pick(ifs);
        bool th = r.chance(50);
        auto b = th ? i->then_body() : i->else_body();
        if (!b || b->empty()) return;
        auto last = b->back();
        auto size = b->size();
        note(std::string("branch ") + (th ? "then" : "else"));
        switch (r.below(2)) {
            case 0: th ? i->remove_then_stmt(last) : i->remove_else_stmt(last); break;
            case 1: i->remove_stmt(last); break;
        }
        if (b->size() != size - 1) c.violation("lookup", "taking a statement out of a branch leaves " + std::to_string(b->size()) + " of " + std::to_string(size));
        th ? i->add_then_stmt(last) : i->add_else_stmt(last);
    }
    void once() {
        std::vector<std::shared_ptr<Generator>> gs;
        gens(top, gs);
        auto& g = *r.pick(gs);
        switch (r.below(13)) {
            case 0:
            case 1: rename_var(g); break;
            case 2: swap_vars(g); break;
            case 3: rename_child(g); break;
            case 4:
            case 5: move(g, true); break;
            case 6:
            case 7: move(g, false); break;
            case 8: shuffle(g); break;
            case 9: r.chance(60) ? rewire(g) : block(g); break;
            case 10: wrap(g); break;
            case 11: takeout(g); break;
            case 12: branch(g); break;
        }
    }
};

void edit(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.range(2, 6);
    o.child_depth = r.below(3);
    o.expr_depth = r.range(1, 3);
    o.blocking_rw = false;
    o.single_driver = true;
    o.loops = r.chance(50);
    if (r.chance(40)) o.max_width = 8;
    auto flag = [&](const char* n, uint32_t pct) {
        bool x = r.chance(pct);
        return c.a.opt.count(n) ? c.a.opt.at(n) == "1" : x;
    };
    o.same_name_children = flag("same", 30);
    o.bitwires = flag("bits", 30);
    o.const_wires = flag("kwire", 30);
    o.direct_ports = flag("direct", 30);
    o.bundles = flag("bundle", 30);
    o.hier = flag("hier", 30);
    o.lane_clones = false;
    auto p = pl::P::random(r);
    Context ctx;
    Builder b(r, o, ctx);
    Mod m = b.module("top", o.child_depth, true);
    if (c.a.show) std::cerr << "// passes: " << p.str() << "\n" << b.golden << "\n//--------\n";
    Editor e{c, r, m.g->shared_from_this()};
    std::string text;
    uint32_t n = r.range(1, 12);
    try {
        for (uint32_t i = 0; i < n; i++) e.once();
    } catch (const std::exception& x) {
        c.violation("edit", std::string("a legal edit is refused: ") + x.what() + "\n" + e.log);
        return;
    }
    try {
        text = pl::emit(*m.g, pl::sequence(p));
    } catch (const std::exception& x) {
        c.violation("rejected", std::string("a legal design is refused: ") + x.what() + "\n" + e.log);
        return;
    }
    if (c.a.show) std::cerr << text << "\n";
    auto res = eq::compare(b.golden, m.gn, text, m.g->name, eq::spec_of(m), r, 24);
    if (res.k == eq::Res::Differ || res.k == eq::Res::Lint || res.k == eq::Res::Bad) res.msg += "\nafter the edits:\n" + e.log;
    judge(c, res);
    c.st.merge(b.feat, "feat.");
    if (res.toggles) c.st.see(b.golden + e.log);
    c.st.sample(e.log + b.golden);
}
}  // namespace
int main(int argc, char** argv) { return drv::run(argc, argv, {{"edit", edit}}); }
