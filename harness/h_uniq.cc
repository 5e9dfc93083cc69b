// Generators that share a name: equal ones become one module, different ones never do.
#include <regex>

#include "drv.hh"
#include "equiv.hh"
#include "formal.hh"
#include "hash.hh"
#include "interface.hh"
#include "pipeline.hh"
#include "tb.hh"

using namespace rd;

// ---------------------------------------------------------------- pairs
// every entry builds one of two variants that differ in a single construct
struct B {
    Generator& g;
    Context& c;
    int v;
    Port &clk, &rst, &a, &b, &s, &y;
    std::vector<std::shared_ptr<void>>& keep;
    std::shared_ptr<Var> sp(Var& x) { return x.shared_from_this(); }
    void out(Var& x) { g.add_stmt(y.assign(x, AssignmentType::Blocking)); }
    std::shared_ptr<Stmt> set(Var& l, Var& r) { return l.assign(r, AssignmentType::Blocking); }
    std::shared_ptr<Stmt> nb(Var& l, Var& r) { return l.assign(r, AssignmentType::NonBlocking); }
    Const& k(int64_t x, uint32_t w = 8) { return Const::constant(x, w, false); }
    Generator& sub(const std::string& name, int op) {
        auto& ch = c.generator(name);
        auto& i = ch.port(PortDirection::In, "i", 8);
        auto& o = ch.port(PortDirection::Out, "o", 8);
        ch.add_stmt(o.assign(op == 0 ? i + k(1) : op == 1 ? i - k(1) : op == 2 ? ~i : i & k(0xf), AssignmentType::Blocking));
        return ch;
    }
};
static Var& pick(int v, Var& a, Var& b) { return v ? a : b; }
using Build = std::function<void(B&)>;
static const std::vector<std::pair<const char*, Build>> TABLE = {
    {"operand order", [](B& x) { x.out(x.v ? x.b - x.a : x.a - x.b); }},
    {"operator", [](B& x) { x.out(x.v ? x.a | x.b : x.a ^ x.b); }},
    {"grouping", [](B& x) { x.out(x.v ? x.a - (x.b - x.a) : (x.a - x.b) - x.a); }},
    {"mux condition", [](B& x) { x.out(*util::mux(pick(x.v, x.a[0], x.s), x.a, x.b)); }},
    {"mux arms", [](B& x) { x.out(x.v ? *util::mux(x.s, x.a, x.b) : *util::mux(x.s, x.b, x.a)); }},
    {"concat order", [](B& x) { x.out(x.v ? x.a[{3, 0}].concat(x.b[{3, 0}]) : x.b[{3, 0}].concat(x.a[{3, 0}])); }},
    {"slice bounds", [](B& x) { x.out(x.v ? x.a[{3, 0}].extend(8) : x.a[{4, 1}].extend(8)); }},
    {"slice width", [](B& x) { x.out(x.v ? x.a[{3, 0}].extend(8) : x.a[{4, 0}].extend(8)); }},
    {"index variable", [](B& x) {
         auto& i = x.g.var("i", 3);
         auto& j = x.g.var("j", 3);
         x.g.add_stmt(x.set(i, x.a[{2, 0}]));
         x.g.add_stmt(x.set(j, x.b[{2, 0}]));
         x.out(x.a[(x.v ? i : j).shared_from_this()].extend(8));
     }},
    {"assigned slice", [](B& x) {
         x.g.add_stmt(x.set(x.y[{3, 0}], x.v ? x.a[{3, 0}] : x.a[{7, 4}]));
         x.g.add_stmt(x.set(x.y[{7, 4}], x.v ? x.a[{7, 4}] : x.a[{3, 0}]));
     }},
    {"left side", [](B& x) {
         auto& t = x.g.var("t", 8);
         auto& u = x.g.var("u", 8);
         x.g.add_stmt(x.set(x.v ? t : u, x.a));
         x.g.add_stmt(x.set(x.v ? u : t, x.b));
         x.out(t - u);
     }},
    {"swapped sides", [](B& x) {
         auto& t = x.g.var("t", 8);
         auto& u = x.g.var("u", 8);
         x.g.add_stmt(x.v ? x.set(t, u) : x.set(u, t));
         x.g.add_stmt(x.set(x.v ? u : t, x.a));
         x.out(t + u);
     }},
    {"constant", [](B& x) { x.out(x.a + x.k(x.v ? 3 : 5)); }},
    {"constant bits far up", [](B& x) {
         auto& t = x.g.var("t", 64);
         x.g.add_stmt(t.assign(Const::constant(x.v ? 1ll << 40 : 1ll << 41, 64, false), AssignmentType::Blocking));
         x.out(t[{47, 40}]);
     }},
    {"width of a variable", [](B& x) {
         auto& t = x.g.var("t", x.v ? 4 : 3);
         x.g.add_stmt(x.set(t, x.v ? x.a[{3, 0}] : x.a[{2, 0}]));
         x.out(t.extend(8));
     }},
    {"sign of a variable", [](B& x) {
         auto& t = x.g.var("t", 4, 1, x.v == 1);
         x.g.add_stmt(x.set(t, pick(x.v, *x.a[{3, 0}].cast(VarCastType::Signed), x.a[{3, 0}])));
         x.out(pick(x.v, *t.extend(8).cast(VarCastType::Unsigned), t.extend(8)));
     }},
    {"sign only in declarations", [](B& x) {
         auto& t = x.g.var("t", 8, 1, x.v == 1);
         x.g.add_raw_import("p");
         (void)t;
         x.out(x.a);
     }},
    {"array or wide", [](B& x) {
         auto& t = x.v ? x.g.var("t", 4, 4) : x.g.var("t", 16);
         (void)t;
         x.out(x.a);
     }},
    {"array shape", [](B& x) {
         x.g.var("t", 4, x.v ? std::vector<uint32_t>{2, 3} : std::vector<uint32_t>{3, 2}, false);
         x.out(x.a);
     }},
    {"packed or not", [](B& x) {
         auto& t = x.g.var("t", 4, 4);
         if (x.v) t.set_is_packed(false);
         x.out(x.a);
     }},
    {"explicit array", [](B& x) {
         auto& t = x.g.var("t", 8, 1);
         if (x.v) t.set_explicit_array(true);
         x.out(x.a);
     }},
    {"port direction", [](B& x) {
         x.g.port(x.v ? PortDirection::In : PortDirection::Out, "q", 4);
         x.out(x.a);
     }},
    {"port width", [](B& x) {
         x.g.port(PortDirection::In, "q", x.v ? 4 : 5);
         x.out(x.a);
     }},
    {"port sign", [](B& x) {
         x.g.port(PortDirection::In, "q", 4, 1, PortType::Data, x.v == 1);
         x.out(x.a);
     }},
    {"port shape", [](B& x) {
         x.g.port(PortDirection::In, "q", 4, x.v ? std::vector<uint32_t>{2, 3} : std::vector<uint32_t>{3, 2}, PortType::Data, false);
         x.out(x.a);
     }},
    {"port packing", [](B& x) {
         auto& q = x.g.port(PortDirection::In, "q", 4, 3, PortType::Data, false);
         if (x.v) q.set_is_packed(false);
         x.out(x.a);
     }},
    {"extra variable", [](B& x) {
         if (x.v) x.g.var("t", 3);
         x.out(x.a);
     }},
    {"variable name", [](B& x) {
         auto& t = x.g.var(x.v ? "t" : "u", 8);
         x.g.add_stmt(x.set(t, x.a));
         x.out(t);
     }},
    {"then and else", [](B& x) {
         auto p = x.g.combinational();
         auto i = std::make_shared<IfStmt>(x.s);
         i->add_then_stmt(x.set(x.y, x.v ? x.a : x.b));
         i->add_else_stmt(x.set(x.y, x.v ? x.b : x.a));
         p->add_stmt(i);
     }},
    {"moved into else", [](B& x) {
         auto p = x.g.combinational();
         auto i = std::make_shared<IfStmt>(x.s);
         p->add_stmt(x.set(x.y, x.b));
         if (x.v)
             i->add_then_stmt(x.set(x.y, x.a));
         else
             i->add_else_stmt(x.set(x.y, x.a));
         p->add_stmt(i);
     }},
    {"predicate", [](B& x) {
         auto p = x.g.combinational();
         auto i = std::make_shared<IfStmt>(x.v ? x.a > x.b : x.b > x.a);
         i->add_then_stmt(x.set(x.y, x.a));
         i->add_else_stmt(x.set(x.y, x.b));
         p->add_stmt(i);
     }},
    {"nesting", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.k(0)));
         auto i = std::make_shared<IfStmt>(x.s);
         auto j = std::make_shared<IfStmt>(x.a > x.b);
         j->add_then_stmt(x.set(x.y, x.a));
         i->add_then_stmt(x.set(x.y, x.b));
         if (x.v)
             i->add_then_stmt(j);
         p->add_stmt(i);
         if (!x.v) p->add_stmt(j);
     }},
    {"statement order", [](B& x) {
         auto p = x.g.combinational();
         auto i = std::make_shared<IfStmt>(x.s);
         i->add_then_stmt(x.set(x.y, x.a));
         auto j = std::make_shared<IfStmt>(x.a > x.b);
         j->add_then_stmt(x.set(x.y, x.b));
         p->add_stmt(x.set(x.y, x.k(0)));
         p->add_stmt(x.v ? i : j);
         p->add_stmt(x.v ? j : i);
     }},
    {"case label", [](B& x) {
         auto p = x.g.combinational();
         auto w = std::make_shared<SwitchStmt>(x.a);
         auto& l1 = x.k(x.v ? 1 : 2);
         w->add_switch_case(l1, x.set(x.y, x.b));
         w->add_switch_case(nullptr, x.set(x.y, x.a));
         p->add_stmt(w);
     }},
    {"case bodies", [](B& x) {
         auto p = x.g.combinational();
         auto w = std::make_shared<SwitchStmt>(x.a);
         auto &l1 = x.k(1), &l2 = x.k(2);
         w->add_switch_case(l1, x.set(x.y, x.v ? x.b : x.a));
         w->add_switch_case(l2, x.set(x.y, x.v ? x.a : x.b));
         w->add_switch_case(nullptr, x.set(x.y, x.k(0)));
         p->add_stmt(w);
     }},
    {"case default", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.k(7)));
         auto w = std::make_shared<SwitchStmt>(x.a);
         auto& l1 = x.k(1);
         w->add_switch_case(l1, x.set(x.y, x.b));
         if (x.v) w->add_switch_case(nullptr, x.set(x.y, x.b));
         else w->add_switch_case(x.k(2), x.set(x.y, x.b));
         p->add_stmt(w);
     }},
    {"case target", [](B& x) {
         auto p = x.g.combinational();
         auto w = std::make_shared<SwitchStmt>(x.v ? x.a : x.b);
         w->add_switch_case(x.k(1), x.set(x.y, x.b));
         w->add_switch_case(nullptr, x.set(x.y, x.a));
         p->add_stmt(w);
     }},
    {"process kind", [](B& x) {
         auto i = std::make_shared<IfStmt>(x.s);
         i->add_then_stmt(x.set(x.y, x.a));
         if (x.v) {
             auto p = x.g.combinational();
             p->add_stmt(i);
         } else {
             auto p = x.g.latch();
             p->add_stmt(i);
         }
     }},
    {"initial or final", [](B& x) {
         auto& t = x.g.var("t", 8);
         if (x.v) x.g.initial()->add_stmt(x.set(t, x.k(1)));
         else x.g.final()->add_stmt(x.set(t, x.k(1)));
         x.out(x.a);
     }},
    {"initial value", [](B& x) {
         auto& t = x.g.var("t", 8);
         x.g.initial()->add_stmt(x.set(t, x.k(x.v ? 1 : 2)));
         x.out(t);
     }},
    {"edge", [](B& x) {
         auto p = x.g.sequential();
         p->add_condition({x.v ? EventEdgeType::Posedge : EventEdgeType::Negedge, x.sp(x.clk)});
         p->add_stmt(x.nb(x.y, x.a));
     }},
    {"sensitivity", [](B& x) {
         auto p = x.g.sequential();
         p->add_condition({EventEdgeType::Posedge, x.sp(x.clk)});
         if (x.v) p->add_condition({EventEdgeType::Posedge, x.sp(x.rst)});
         auto i = std::make_shared<IfStmt>(x.rst);
         i->add_then_stmt(x.nb(x.y, x.k(0)));
         i->add_else_stmt(x.nb(x.y, x.a));
         p->add_stmt(i);
     }},
    {"reset value", [](B& x) {
         auto p = x.g.sequential();
         p->add_condition({EventEdgeType::Posedge, x.sp(x.clk)});
         p->add_condition({EventEdgeType::Posedge, x.sp(x.rst)});
         auto i = std::make_shared<IfStmt>(x.rst);
         i->add_then_stmt(x.nb(x.y, x.k(x.v)));
         i->add_else_stmt(x.nb(x.y, x.a));
         p->add_stmt(i);
     }},
    {"sequential or combinational", [](B& x) {
         if (x.v) {
             auto p = x.g.sequential();
             p->add_condition({EventEdgeType::Posedge, x.sp(x.clk)});
             p->add_stmt(x.nb(x.y, x.a));
         } else {
             auto p = x.g.combinational();
             p->add_stmt(x.set(x.y, x.a));
         }
     }},
    {"wire or process", [](B& x) {
         if (x.v)
             x.out(x.a);
         else {
             auto p = x.g.combinational();
             p->add_stmt(x.set(x.y, x.a));
         }
     }},
    {"always or always_comb", [](B& x) {
         auto p = x.g.combinational();
         p->set_general_purpose(x.v == 1);
         p->add_stmt(x.set(x.y, x.a));
     }},
    {"one process or two", [](B& x) {
         auto& t = x.g.var("t", 8);
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.a));
         if (x.v) p = x.g.combinational();
         p->add_stmt(x.set(t, x.b));
     }},
    {"loop bounds", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.k(0)));
         auto f = std::make_shared<ForStmt>("i", 0, x.v ? 4 : 6, 1);
         p->add_stmt(f);
         f->add_stmt(x.set(x.y[f->get_iter_var()], x.a[f->get_iter_var()]));
     }},
    {"loop step", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.k(0)));
         auto f = std::make_shared<ForStmt>("i", 0, 6, x.v ? 1 : 2);
         p->add_stmt(f);
         f->add_stmt(x.set(x.y[f->get_iter_var()], x.a[f->get_iter_var()]));
     }},
    {"loop start", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.k(0)));
         auto f = std::make_shared<ForStmt>("i", x.v, 6, 1);
         p->add_stmt(f);
         f->add_stmt(x.set(x.y[f->get_iter_var()], x.a[f->get_iter_var()]));
     }},
    {"loop break", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.k(0)));
         auto f = std::make_shared<ForStmt>("i", 0, 6, 1);
         p->add_stmt(f);
         f->add_stmt(x.set(x.y[f->get_iter_var()], x.a[f->get_iter_var()]));
         if (x.v) f->add_stmt(std::make_shared<BreakStmt>());
     }},
    {"function body", [](B& x) {
         auto f = x.g.function("fn");
         auto q = f->input("q", 8, false);
         f->add_stmt(f->return_stmt((x.v ? *q + x.k(1) : *q - x.k(1)).shared_from_this()));
         x.out(x.g.call("fn", std::map<std::string, std::shared_ptr<Var>>{{"q", x.sp(x.a)}}));
     }},
    {"function argument order", [](B& x) {
         auto f = x.g.function("fn");
         auto q = f->input("q", 8, false);
         auto w = f->input("w", 8, false);
         f->set_port_ordering(std::map<std::string, uint32_t>{{"q", x.v}, {"w", !x.v}});
         f->add_stmt(f->return_stmt((*q - *w).shared_from_this()));
         x.out(x.g.call("fn", std::map<std::string, std::shared_ptr<Var>>{{"q", x.sp(x.a)}, {"w", x.sp(x.b)}}));
     }},
    {"function argument sign", [](B& x) {
         auto f = x.g.function("fn");
         auto q = f->input("q", 8, false);
         auto w = f->input("w", 3, x.v == 1);
         f->add_stmt(f->return_stmt((*q + *q).shared_from_this()));
         (void)w;
         auto& t = x.g.var("t", 3, 1, x.v == 1);
         x.out(x.g.call("fn", std::map<std::string, std::shared_ptr<Var>>{{"q", x.sp(x.a)}, {"w", x.sp(t)}}));
     }},
    {"call arguments", [](B& x) {
         auto f = x.g.function("fn");
         auto q = f->input("q", 8, false);
         f->add_stmt(f->return_stmt((*q + x.k(1)).shared_from_this()));
         x.out(x.g.call("fn", std::map<std::string, std::shared_ptr<Var>>{{"q", x.sp(x.v ? x.a : x.b)}}));
     }},
    {"which function", [](B& x) {
         for (int i = 0; i < 2; i++) {
             auto f = x.g.function(i ? "fa" : "fb");
             auto q = f->input("q", 8, false);
             f->add_stmt(f->return_stmt((i ? *q + x.k(1) : *q - x.k(1)).shared_from_this()));
         }
         x.out(x.g.call(x.v ? "fa" : "fb", std::map<std::string, std::shared_ptr<Var>>{{"q", x.sp(x.a)}}));
     }},
    {"cast", [](B& x) {
         auto& t = x.g.var("t", 8, 1, true);
         x.g.add_stmt(x.set(t, *x.a.cast(VarCastType::Signed)));
         x.out(x.v ? *t.cast(VarCastType::Unsigned) : *(t + t).cast(VarCastType::Unsigned));
     }},
    {"extension", [](B& x) {
         auto& t = x.g.var("t", 4, 1, true);
         auto& u = x.g.var("u", 4);
         x.out(x.v ? *t.cast(VarCastType::Unsigned)->extend(8).cast(VarCastType::Unsigned) : u.extend(8));
     }},
    {"parameter default", [](B& x) {
         auto& p = x.g.parameter("P", 8);
         p.set_value(x.v ? 3 : 4);
         p.set_initial_value(x.v ? 3 : 4);
         x.out(x.a + p);
     }},
    {"parameter value", [](B& x) {
         auto& p = x.g.parameter("P", 8);
         p.set_initial_value(1);
         p.set_value(x.v ? 3 : 4);
         x.out(x.a + p);
     }},
    {"extra parameter", [](B& x) {
         auto& p = x.g.parameter(x.v ? "P" : "Q", 8);
         p.set_initial_value(1);
         p.set_value(1);
         x.out(x.a + p);
     }},
    {"enum values", [](B& x) {
         auto& e = x.g.enum_("E", {{x.v ? "R" : "G", 0}, {x.v ? "G" : "R", 1}}, 1);
         auto& t = x.g.enum_var("t", e.shared_from_this());
         (void)t;
         x.out(x.a);
     }},
    {"raw text", [](B& x) {
         x.g.add_stmt(std::make_shared<RawStringStmt>(x.v ? "assign z = 1;" : "assign z = 0;"));
         x.out(x.a);
     }},
    {"comment", [](B& x) {
         x.g.add_stmt(std::make_shared<CommentStmt>("same"));
         x.out(x.v ? x.a : x.b);
     }},
    {"assertion", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.a));
         p->add_stmt(std::make_shared<AssertValueStmt>((x.v ? x.a > x.b : x.a < x.b).shared_from_this()));
     }},
    {"assertion presence", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.a));
         if (x.v) p->add_stmt(std::make_shared<AssertValueStmt>((x.a > x.b).shared_from_this()));
     }},
    {"import", [](B& x) {
         x.g.add_raw_import(x.v ? "p" : "q");
         x.out(x.a);
     }},
    {"block label", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.a));
         x.g.add_named_block(x.v ? "L" : "M", p);
     }},
    {"child behind a name", [](B& x) {
         auto& ch = x.sub("leaf", x.v);
         x.g.add_child_generator("u0", ch.shared_from_this());
         x.g.add_stmt(x.set(*ch.get_port("i"), x.a));
         x.out(*ch.get_port("o"));
     }},
    {"child order", [](B& x) {
         auto& c0 = x.sub("leaf", x.v);
         auto& c1 = x.sub("leaf", !x.v);
         x.g.add_child_generator("u0", c0.shared_from_this());
         x.g.add_child_generator("u1", c1.shared_from_this());
         x.g.add_stmt(x.set(*c0.get_port("i"), x.a));
         x.g.add_stmt(x.set(*c1.get_port("i"), *c0.get_port("o")));
         x.out(*c1.get_port("o"));
     }},
    {"child wiring", [](B& x) {
         auto& c0 = x.sub("leafa", 0);
         auto& c1 = x.sub("leafb", 2);
         x.g.add_child_generator("u0", c0.shared_from_this());
         x.g.add_child_generator("u1", c1.shared_from_this());
         auto& t = x.g.var("t0", 8);
         auto& u = x.g.var("t1", 8);
         x.g.add_stmt(x.set(*c0.get_port("i"), x.v ? x.a : x.b));
         x.g.add_stmt(x.set(*c1.get_port("i"), x.v ? x.b : x.a));
         x.g.add_stmt(x.set(t, *c0.get_port("o")));
         x.g.add_stmt(x.set(u, *c1.get_port("o")));
         x.out(t & u);
     }},
    {"child instance name", [](B& x) {
         auto& ch = x.sub("leaf", 0);
         x.g.add_child_generator(x.v ? "u0" : "u1", ch.shared_from_this());
         x.g.add_stmt(x.set(*ch.get_port("i"), x.a));
         x.out(*ch.get_port("o"));
     }},
    {"child module", [](B& x) {
         auto& ch = x.sub(x.v ? "leafa" : "leafb", 0);
         x.g.add_child_generator("u0", ch.shared_from_this());
         x.g.add_stmt(x.set(*ch.get_port("i"), x.a));
         x.out(*ch.get_port("o"));
     }},
    {"number of children", [](B& x) {
         Var* last = &x.a;
         for (int i = 0; i < 2 + x.v; i++) {
             auto& ch = x.sub("leaf", 0);
             x.g.add_child_generator("u" + std::to_string(i), ch.shared_from_this());
             x.g.add_stmt(x.set(*ch.get_port("i"), *last));
             last = ch.get_port("o").get();
         }
         x.out(*last);
     }},
    {"grandchild", [](B& x) {
         auto& mid = x.c.generator("mid");
         auto& i = mid.port(PortDirection::In, "i", 8);
         auto& o = mid.port(PortDirection::Out, "o", 8);
         auto& lf = x.sub("leaf", x.v + 1);
         mid.add_child_generator("l", lf.shared_from_this());
         mid.add_stmt(x.set(*lf.get_port("i"), i));
         mid.add_stmt(x.set(o, *lf.get_port("o")));
         x.g.add_child_generator("u0", mid.shared_from_this());
         x.g.add_stmt(x.set(i, x.a));
         x.out(o);
     }},
    {"child parameter", [](B& x) {
         auto& ch = x.c.generator("pleaf");
         auto& i = ch.port(PortDirection::In, "i", 8);
         auto& o = ch.port(PortDirection::Out, "o", 8);
         auto& p = ch.parameter("P", 8);
         p.set_initial_value(1);
         p.set_value(x.v ? 5 : 6);
         ch.add_stmt(o.assign(i + p, AssignmentType::Blocking));
         x.g.add_child_generator("u0", ch.shared_from_this());
         x.g.add_stmt(x.set(i, x.a));
         x.out(o);
     }},
    {"struct member order", [](B& x) {
         auto st = std::make_shared<PackedStruct>(x.v ? "st0" : "st1", std::vector<std::tuple<std::string, uint32_t>>{{x.v ? "m" : "n", 4}, {x.v ? "n" : "m", 4}});
         x.keep.push_back(st);
         x.g.var_packed("t", st);
         x.out(x.a);
     }},
    {"reduction", [](B& x) { x.out((x.v ? x.a.r_or() : x.a.r_and()).extend(8)); }},
    {"unary", [](B& x) { x.out(x.v ? ~x.a : -x.a); }},
    {"duplicate", [](B& x) { x.out(x.v ? x.s.duplicate(8) : x.a[0].duplicate(8)); }},
    {"shift kind", [](B& x) { x.out(x.v ? x.a >> x.b : x.a.ashr(x.b)); }},
    {"function constant", [](B& x) {
         auto f = x.g.function("fn");
         auto q = f->input("q", 8, false);
         f->add_stmt(f->return_stmt((*q + x.k(x.v + 1)).shared_from_this()));
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.g.call("fn", std::map<std::string, std::shared_ptr<Var>>{{"q", x.sp(x.a)}})));
     }},
    {"nothing", [](B& x) { x.out(x.a + x.b); }},
    {"nothing in a hierarchy", [](B& x) {
         auto& ch = x.sub("leaf", 0);
         x.g.add_child_generator("u0", ch.shared_from_this());
         x.g.add_stmt(x.set(*ch.get_port("i"), x.a));
         x.out(*ch.get_port("o"));
     }},
    {"declared in another order", [](B& x) {
         if (x.v) {
             x.g.var("t", 3);
             x.g.var("u", 4);
         } else {
             x.g.var("u", 4);
             x.g.var("t", 3);
         }
         x.out(x.a);
     }},
    {"comment text", [](B& x) {
         auto p = x.g.combinational();
         p->add_stmt(x.set(x.y, x.a));
     }},
};

static Generator& make(Context& c, const std::string& name, int v, const Build& f, std::vector<std::shared_ptr<void>>& keep) {
    auto& g = c.generator(name);
    B x{g,
        c,
        v,
        g.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false),
        g.port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false),
        g.port(PortDirection::In, "a", 8),
        g.port(PortDirection::In, "b", 8),
        g.port(PortDirection::In, "s", 1),
        g.port(PortDirection::Out, "y", 8),
        keep};
    f(x);
    return g;
}

static void lower(Generator& top, const std::vector<Generator*>& gens, bool par) {
    fix_assignment_type(&top);
    for (auto* g : gens) decouple_generator_ports(g);
    fix_assignment_type(&top);
    hash_generators(&top, par ? HashStrategy::ParallelHash : HashStrategy::SequentialHash);
    uniquify_generators(&top);
    // what is above only holds the instances together, its ports are of no interest
    for (auto* g : gens) create_module_instantiation(g);
}
// a module with everything below it, under neutral names
static std::string expand(const std::map<std::string, std::string>& parts, const std::string& name, std::set<std::string>& used) {
    auto i = parts.find(name);
    if (i == parts.end()) return "<missing " + name + ">";
    used.insert(name);
    std::string t = i->second, out;
    std::string below;
    std::istringstream is(t);
    std::string line;
    while (std::getline(is, line)) {
        static const std::regex head("^module (\\w+) .*"), tail("^endmodule .*"), inst("^(\\s*)(\\w+)( #\\(| \\w+ \\(|  *\\w+\\(\\);).*");
        std::smatch m;
        if (std::regex_match(line, m, head)) {
            line.replace(m.position(1), m.length(1), "M");
        } else if (std::regex_match(line, m, tail)) {
            line = "endmodule";
        } else if (std::regex_match(line, m, inst) && parts.count(m[2].str())) {
            std::string sub = m[2].str();
            line.replace(m.position(2), m.length(2), std::regex_replace(sub, std::regex("_unq\\d+$"), ""));
            below += expand(parts, sub, used);
        }
        out += line + "\n";
    }
    return out + below;
}
static void pairs(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    auto& e = TABLE[c.i % TABLE.size()];
    bool par = r.chance(50);
    std::vector<std::shared_ptr<void>> keep;
    std::string alone[2];
    for (int v = 0; v < 2; v++) {
        Context ctx;
        auto& top = ctx.generator("top");
        auto& g = make(ctx, "shared", v, e.second, keep);
        top.add_child_generator("u0", g.shared_from_this());
        lower(top, {&g}, par);
        auto parts = generate_verilog(&top);
        std::set<std::string> used;
        alone[v] = expand(parts, g.name, used);
    }
    Context ctx;
    auto& top = ctx.generator("top");
    // other generators move the addresses around
    for (uint32_t i = 0; i < r.below(4); i++) keep.push_back(ctx.generator("other").shared_from_this());
    std::vector<std::pair<Generator*, int>> insts;
    uint32_t n = r.range(2, 5), forced = r.below(2);
    std::vector<std::pair<Generator*, int>> made;
    for (uint32_t i = 0; i < n; i++) {
        int v = i < 2 ? (int)(i ^ forced) : (int)r.below(2);
        made.push_back({&make(ctx, "shared", v, e.second, keep), v});
    }
    while (!made.empty()) {
        uint32_t k = r.below(made.size());
        insts.push_back(made[k]);
        made.erase(made.begin() + k);
    }
    Generator* host = &top;
    for (size_t i = 0; i < insts.size(); i++) {
        // some of them one level further down
        if (r.chance(30)) {
            auto& mid = ctx.generator("mid_" + std::to_string(i));
            host->add_child_generator("m" + std::to_string(i), mid.shared_from_this());
            mid.add_child_generator("u" + std::to_string(i), insts[i].first->shared_from_this());
        } else
            host->add_child_generator("u" + std::to_string(i), insts[i].first->shared_from_this());
    }
    std::vector<Generator*> gens;
    for (auto& x : insts) gens.push_back(x.first);
    lower(top, gens, par);
    auto parts = generate_verilog(&top);
    std::set<std::string> used;
    for (auto& x : insts) {
        auto t = expand(parts, x.first->name, used);
        if (c.a.show) std::cerr << "// variant " << x.second << " " << x.first->name << "\n" << t;
        if (t != alone[x.second]) {
            c.violation("merged", std::string(e.first) + ": variant " + std::to_string(x.second) + " is printed as module " + x.first->name + " which reads " + t + " instead of " + alone[x.second]);
            return;
        }
    }
    c.st.add("instances", insts.size());
    for (auto& x : insts)
        for (auto& y : insts) {
            bool same = alone[x.second] == alone[y.second];
            if (same && x.first->name != y.first->name) {
                c.violation("split", std::string(e.first) + ": equal generators became " + x.first->name + " and " + y.first->name);
                return;
            }
        }
    c.st.add(alone[0] == alone[1] ? "pairs_equal" : "pairs_different");
    c.st.add(par ? "parallel" : "sequential");
    c.st.see(std::string(e.first) + (par ? "p" : "s") + std::to_string(forced) + std::to_string(n));
    c.st.sample(std::string(e.first) + "\n" + alone[0] + "\n----\n" + alone[1]);
}

// random generators under one name, some of them equal, some with one decision of the workload changed
static void twins(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.range(2, 4);
    o.expr_depth = r.range(1, 3);
    uint32_t depth = r.below(3) == 0;
    o.child_depth = depth;
    if (r.chance(40)) o.max_width = 8;
    auto p = pl::P::random(r);
    Context ctx;
    Builder b(r, o, ctx);
    uint64_t seed = r.next(), draws = 0;
    uint32_t n = r.range(2, 4);
    std::vector<Mod> ms;
    for (uint32_t i = 0; i < n; i++) {
        Rng keep = r;
        int nc = b.ncount;
        int64_t mut = i && keep.chance(70) ? (int64_t)keep.below((uint32_t)draws) : -1;
        r = Rng(seed);
        r.mut_at = mut;
        b.ncount = 1000;
        ms.push_back(b.module("shared", depth, false));
        if (!i) draws = r.n;
        ms.back().pristine = mut < 0;
        r = keep;
        r.next();
        b.ncount = nc;
    }
    auto save = b.o;
    b.o.items = 1;
    b.o.child_depth = 0;
    for (uint32_t i = n; i--;) std::swap(ms[i], ms[r.below(i + 1)]);
    Mod top = b.module("top", 0, true, &ms);
    b.o = save;
    if (c.a.show) std::cerr << "// passes: " << p.str() << "\n" << b.golden << "\n//--------\n";
    std::string text;
    try {
        text = pl::emit(*top.g, pl::sequence(p));
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << text << "\n";
    auto res = eq::compare(b.golden, top.gn, text, top.g->name, eq::spec_of(top), r, 16);
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    std::set<std::string> names;
    for (auto& m : ms) names.insert(m.g->name);
    c.st.add("twins", n);
    c.st.add("modules_for_twins", names.size());
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
    std::string first;
    for (auto& m : ms)
        if (m.pristine) {
            if (first.empty()) first = m.g->name;
            if (m.g->name != first) c.violation("split", "equal generators became " + first + " and " + m.g->name);
        }
    if (res.toggles) c.st.see(b.golden);
    c.st.sample(b.golden);
}

int main(int argc, char** argv) { return drv::run(argc, argv, {{"pairs", pairs}, {"twins", twins}}); }
