// Widths and signs: what the API accepts, what it says about an expression and what the emitted expression is worth.
#include "drv.hh"
#include "equiv.hh"
#include "pipeline.hh"

using namespace rd;

struct N {
    Var* v = nullptr;
    std::string t;  // fully parenthesised, every extension written out
    uint32_t w = 1;
    bool s = false;
    bool k = false;   // constant
    int64_t val = 0;  // of the constant
    uint32_t depth = 0;
    bool concat = false;
    bool first = false;  // sign of the first part of a concatenation
};
static bool fits(int64_t v, uint32_t w, bool s) {
    if (w >= 64) return s || v >= 0 || w >= 64;
    if (s) return v >= -(int64_t(1) << (w - 1)) && v < (int64_t(1) << (w - 1));
    return v >= 0 && (uint64_t)v < (uint64_t(1) << w);
}
static std::string ktext(int64_t v, uint32_t w, bool s) {
    // two's complement bits as an unsigned literal, the sign as a cast
    if (w > 64 && s && v < 0) {
        char b[64];
        snprintf(b, sizeof b, "(-%u'sh%llx)", w, 0ull - (unsigned long long)v);
        return b;
    }
    uint64_t u = w >= 64 ? (uint64_t)v : (uint64_t)v & ((uint64_t(1) << w) - 1);
    char b[64];
    snprintf(b, sizeof b, "%u'h%llx", w, (unsigned long long)u);
    return s ? "signed'(" + std::string(b) + ")" : b;
}
static std::string grow(const N& n, uint32_t w) {
    if (n.k) return ktext(n.val, w, n.s);
    if (n.w == w) return n.t;
    return std::to_string(w) + "'(" + n.t + ")";
}
static const char* kinds_bin[] = {"+", "-", "*", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "<<", ">>", ">>>", "&&", "||"};
static Expr& bin(Var& a, const std::string& o, Var& b) {
    if (o == "+") return a + b;
    if (o == "-") return a - b;
    if (o == "*") return a * b;
    if (o == "&") return a & b;
    if (o == "|") return a | b;
    if (o == "^") return a ^ b;
    if (o == "<") return a < b;
    if (o == ">") return a > b;
    if (o == "<=") return a <= b;
    if (o == ">=") return a >= b;
    if (o == "==") return a.eq(b);
    if (o == "!=") return a != b;
    if (o == "<<") return a << b;
    if (o == ">>") return a >> b;
    if (o == ">>>") return a.ashr(b);
    if (o == "&&") return a && b;
    return a || b;
}
struct Want {
    bool ok;
    N n;
    std::string why;
};
// the rule for two operands
static Want want_bin(const N& a, const std::string& o, const N& b) {
    bool rel = o == "<" || o == ">" || o == "<=" || o == ">=" || o == "==" || o == "!=", logic = o == "&&" || o == "||";
    bool shift = o == "<<" || o == ">>" || o == ">>>";
    Want r{true, {}, ""};
    uint32_t w = a.w;
    if (a.w != b.w) {
        if (shift && b.w < a.w) {
            w = a.w;
        } else if (b.k) {
            w = a.w;
            if (!fits(b.val, w, b.s)) return {false, {}, "the constant on the right does not fit"};
        } else if (a.k) {
            // a constant that needs more bits than the variable has widens the variable
            w = fits(a.val, b.w, a.s) ? b.w : a.w;
        } else {
            w = std::max(a.w, b.w);
        }
    }
    r.n.w = rel || logic ? 1 : w;
    r.n.s = rel || logic ? false : shift ? a.s : a.s && b.s;
    r.n.t = "(" + grow(a, w) + " " + o + " " + grow(b, w) + ")";
    r.n.depth = std::max(a.depth, b.depth) + 1;
    return r;
}
static void exprs(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Context ctx;
    auto& g = ctx.generator("top");
    std::string ports, body;
    std::vector<N> pool;
    eq::Spec sp;
    std::vector<uint32_t> ws = {1, r.range(2, 9), r.range(2, 9), r.range(10, 40)};
    if (r.chance(20)) ws.push_back(r.range(60, 70));
    uint32_t nv = r.range(5, 8);
    for (uint32_t i = 0; i < nv; i++) {
        uint32_t w = i == 0 ? 1 : r.pick(ws);
        bool s = i && r.chance(35);
        auto n = "v" + std::to_string(i);
        auto& v = g.port(PortDirection::In, n, w, 1, PortType::Data, s);
        ports += std::string(ports.empty() ? "" : ",\n") + "  input " + decl(n, w, s, {});
        pool.push_back({&v, n, w, s, false, 0, 0});
        sp.in.push_back({n, w});
    }
    auto konst = [&]() {
        N k;
        k.k = true;
        k.s = r.chance(30);
        k.w = r.pick(ws);
        uint64_t m = k.w >= 63 ? r.next() >> 2 : r.next() & ((uint64_t(1) << k.w) - 1);
        if (r.chance(40)) m &= 7;
        if (k.w < 63 && r.chance(25)) m = (uint64_t(1) << k.w) - 1;
        k.val = (int64_t)m;
        if (k.s) {
            if (k.w < 63 && (m >> (k.w - 1) & 1)) k.val = (int64_t)m - (int64_t(1) << k.w);
        }
        if (!fits(k.val, k.w, k.s)) k.val = 0;
        k.v = &Const::constant(k.val, k.w, k.s);
        k.t = ktext(k.val, k.w, k.s);
        return k;
    };
    std::vector<N> ks;
    for (uint32_t i = 0; i < 3; i++) ks.push_back(konst());
    // a few operands share a width more often than not
    auto any = [&]() { return r.pick(pool); };
    auto like = [&](uint32_t w) {
        std::vector<N> m;
        for (auto& p : pool)
            if (p.w == w) m.push_back(p);
        return m.empty() ? any() : r.pick(m);
    };
    auto check = [&](const char* what, const std::string& desc, const Want& want, const std::function<Var*()>& f) {
        Var* v = nullptr;
        std::string err;
        try {
            v = f();
        } catch (const std::exception& e) {
            err = e.what();
        }
        c.st.add(std::string("op.") + what);
        c.st.add(want.ok ? "expected_accept" : "expected_refuse");
        if (want.ok && !v) {
            c.violation("refused", desc + " is refused: " + err);
            return false;
        }
        if (!want.ok && v) {
            c.violation("accepted", desc + " is accepted, " + want.why);
            return false;
        }
        if (!v) return false;
        if (v->width() != want.n.w) {
            c.violation("width", desc + " is said to be " + std::to_string(v->width()) + " bits wide, not " + std::to_string(want.n.w));
            return false;
        }
        if (v->is_signed() != want.n.s) {
            c.violation("sign", desc + " is said to be " + (v->is_signed() ? "signed" : "unsigned"));
            return false;
        }
        N n = want.n;
        n.v = v;
        if (n.depth < 4) pool.push_back(n);
        return true;
    };
    uint32_t steps = r.range(6, 16);
    for (uint32_t i = 0; i < steps && !c.bad; i++) {
        uint32_t k = r.below(100);
        auto a = any();
        auto d = [&](const N& x) { return x.t + "{" + std::to_string(x.w) + (x.s ? "s" : "u") + (x.k ? "k" : "") + "}"; };
        if (k < 50) {
            std::string o = kinds_bin[r.below(sizeof kinds_bin / sizeof *kinds_bin)];
            N b = r.chance(25) ? (r.chance(50) ? r.pick(ks) : konst()) : r.chance(60) ? like(a.w) : any();
            if (b.k && r.chance(30)) std::swap(a, b);
            // shifting by something signed has no agreed meaning
            if ((o == "<<" || o == ">>" || o == ">>>") && (b.s || a.k)) continue;
            check(("bin" + o).c_str(), d(a) + " " + o + " " + d(b), want_bin(a, o, b), [&]() { return &bin(*a.v, o, *b.v); });
        } else if (k < 62) {
            static const char* un[] = {"~", "-", "+", "!", "|", "&", "^"};
            std::string o = un[r.below(7)];
            Want w{true, {}, ""};
            bool red = o == "!" || o == "|" || o == "&" || o == "^";
            w.n.w = red ? 1 : a.w;
            w.n.s = red ? false : a.s;
            w.n.t = "(" + o + a.t + ")";
            w.n.depth = a.depth + 1;
            check(("un" + o).c_str(), o + d(a), w, [&]() -> Var* {
                auto& v = *a.v;
                if (o == "~") return &~v;
                if (o == "-") return &-v;
                if (o == "+") return &+v;
                if (o == "!") return &v.r_not();
                if (o == "|") return &v.r_or();
                if (o == "&") return &v.r_and();
                return &v.r_xor();
            });
        } else if (k < 70) {
            auto b = r.chance(70) ? like(a.w) : any(), p = r.chance(70) ? like(1) : any();
            Want w{true, {}, ""};
            if (p.w != 1) w = {false, {}, "the condition is not one bit wide"};
            w.n.w = std::max(a.w, b.w);
            w.n.s = a.s && b.s;
            w.n.t = "(" + p.t + " ? " + grow(a, w.n.w) + " : " + grow(b, w.n.w) + ")";
            w.n.depth = std::max(p.depth, std::max(a.depth, b.depth)) + 1;
            check("mux", d(p) + " ? " + d(a) + " : " + d(b), w, [&]() -> Var* { return util::mux(*p.v, *a.v, *b.v).get(); });
        } else if (k < 80) {
            auto b = r.chance(50) ? any() : like(a.w);
            std::vector<N> l = {a, b};
            if (r.chance(40)) l.push_back(any());
            Want w{true, {}, ""};
            // adding to a concatenation makes a longer one, whose parts have to agree
            bool first = a.concat ? a.first : a.s;
            uint32_t t = 0;
            std::string x;
            for (auto& n : l) {
                if (&n != &l[0] && n.s != first) w = {false, {}, "signed and unsigned parts"};
                t += n.w;
                x += (x.empty() ? "" : ", ") + n.t;
                w.n.depth = std::max(w.n.depth, n.depth + 1);
            }
            if (t > 200) continue;
            w.n.w = t;
            w.n.s = false;
            w.n.t = "{" + x + "}";
            w.n.concat = true;
            w.n.first = first;
            check("concat", w.n.t, w, [&]() -> Var* {
                VarConcat* v = &l[0].v->concat(*l[1].v);
                for (size_t i = 2; i < l.size(); i++) v = &v->concat(*l[i].v);
                return v;
            });
        } else if (k < 86) {
            uint32_t t = r.range(1, a.w + 10);
            Want w{true, {}, ""};
            if (t < a.w) w = {false, {}, "narrower than the variable"};
            w.n.w = t;
            w.n.s = a.s;
            w.n.t = std::to_string(t) + "'(" + a.t + ")";
            w.n.depth = a.depth + 1;
            check("extend", d(a) + " to " + std::to_string(t), w, [&]() -> Var* { return &a.v->extend(t); });
        } else if (k < 90) {
            uint32_t t = r.range(1, 4);
            if (a.w * t > 200) continue;
            Want w{true, {}, ""};
            w.n.w = a.w * t;
            w.n.t = "{" + std::to_string(t) + "{" + a.t + "}}";
            w.n.depth = a.depth + 1;
            check("duplicate", w.n.t, w, [&]() -> Var* { return &a.v->duplicate(t); });
        } else if (k < 95) {
            auto b = pool[r.below(nv)];
            uint32_t lo = r.below(b.w + 1), hi = r.below(b.w + 2);
            Want w{true, {}, ""};
            if (lo > hi) w = {false, {}, "the bounds are reversed"};
            else if (hi >= b.w) w = {false, {}, "it is outside the variable"};
            else {
                w.n.w = hi - lo + 1;
                w.n.t = b.w == 1 ? "unsigned'(" + b.t + ")" : b.t + "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]";
            }
            // the only bit of a one bit wide variable is printed as the variable
            if (b.w == 1 && b.s) continue;
            check("slice", b.t + "[" + std::to_string(hi) + ":" + std::to_string(lo) + "]", w, [&]() -> Var* { return &(*b.v)[{hi, lo}]; });
        } else {
            bool s = r.chance(50);
            Want w{true, {}, ""};
            w.n.w = a.w;
            w.n.s = s;
            w.n.t = (s ? "signed'(" : "unsigned'(") + a.t + ")";
            w.n.depth = a.depth + 1;
            check("cast", w.n.t, w, [&]() -> Var* { return a.v->cast(s ? VarCastType::Signed : VarCastType::Unsigned).get(); });
        }
    }
    if (c.bad) return;
    // what was accepted is assigned to variables of the right and of other types
    for (size_t i = nv; i < pool.size() && !c.bad; i++) {
        auto& p = pool[i];
        if (p.v->width() != p.w || p.v->is_signed() != p.s) {
            c.violation("changed", p.t + " has changed its type");
            return;
        }
        auto n = "o" + std::to_string(i);
        auto& o = g.port(PortDirection::Out, n, p.w, 1, PortType::Data, p.s);
        ports += ",\n  output " + decl(n, p.w, p.s, {});
        sp.out.push_back({n, p.w});
        body += "  assign " + n + " = " + p.t + ";\n";
        try {
            g.add_stmt(o.assign(p.v->shared_from_this()));
        } catch (const std::exception& e) {
            c.violation("refused", "assigning " + p.t + " to a variable of the same type is refused: " + e.what());
            return;
        }
        c.st.add("assign_accepted");
        if (r.chance(40)) {
            bool sg = r.chance(50);
            uint32_t w = sg ? p.w : p.w + (p.w > 1 && r.chance(50) ? -1 : r.range(1, 5));
            auto& x = g.var("x" + std::to_string(i), w, 1, sg ? !p.s : p.s);
            bool threw = false;
            try {
                x.assign(p.v->shared_from_this());
            } catch (const std::exception&) {
                threw = true;
            }
            if (!threw) c.violation("accepted", "assigning " + p.t + " to a variable of another " + (sg ? "sign" : "width") + " is accepted");
            c.st.add("assign_refused");
        }
    }
    // constants
    for (auto& k : ks) {
        uint32_t w = r.range(1, 66);
        auto& y = g.var(g.get_unique_variable_name("", "k"), w, 1, k.s);
        bool threw = false;
        auto& kk = Const::constant(k.val, k.w, k.s);
        try {
            y.assign(kk);
        } catch (const std::exception&) {
            threw = true;
        }
        if (threw == fits(k.val, w, k.s)) c.violation(threw ? "refused" : "accepted", "assigning " + k.t + " to " + std::to_string(w) + " bits");
        c.st.add("constant_assigned");
    }
    if (c.bad || sp.out.empty()) return;
    std::string golden = "module gtop (\n" + ports + ");\n" + body + "endmodule\n", text;
    auto p = pl::P::random(r);
    try {
        text = pl::emit(g, pl::sequence(p));
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("well typed statements are refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << golden << "\n//----\n" << text;
    auto res = eq::compare(golden, "gtop", text, "top", sp, r, 24);
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    if (res.k == eq::Res::Unjudged) c.unjudged(res.msg);
    else if (res.k != eq::Res::Same) c.violation("value", res.msg);
    else c.st.add("agreed");
    if (res.toggles) c.st.see(golden);
    c.st.sample(golden);
}
// Statements that make no sense are refused with an error of the library, and a refused call leaves no trace: the same
// design built without the refused calls is emitted as the same text.
struct Refuse {
    drv::Case& c;
    bool hostile;  // also make the calls that have to be refused
    Rng r;
    Context ctx;
    Generator* g;
    Generator* child;
    std::vector<Port*> in, out;
    std::vector<Var*> vars;
    std::shared_ptr<FunctionStmtBlock> fn, nofn;
    std::shared_ptr<SequentialStmtBlock> seq;
    std::shared_ptr<CombinationalStmtBlock> comb;
    Enum* en = nullptr;
    Param* par = nullptr;
    std::shared_ptr<PackedStruct> st;
    Var *cvar = nullptr, *sv = nullptr, *arr = nullptr, *uarr = nullptr, *flag = nullptr;
    Port *clk = nullptr, *crst = nullptr;
    Generator* spare = nullptr;
    std::string log;
    uint32_t uid = 0;
    Refuse(drv::Case& c, bool hostile) : c(c), hostile(hostile), r(c.a.seed * 7919 + c.i) {}

    void no(const std::string& what, const std::function<void()>& f) {
        log += (hostile ? "refuse: " : "") + what + "\n";
        if (!hostile) return;
        c.st.add("refusals." + what.substr(0, what.find(':')));
        try {
            f();
        } catch (const UserException&) {
            return;
        } catch (const VarException&) {
            return;
        } catch (const StmtException&) {
            return;
        } catch (const GeneratorException&) {
            return;
        } catch (const InternalException&) {
            return;
        } catch (const std::invalid_argument&) {
            return;
        } catch (const std::exception& e) {
            c.violation("wrong_error", what + " ends in " + typeid(e).name() + ": " + e.what());
            return;
        }
        c.violation("accepted", what + " is accepted");
    }
    std::string name(const char* p) { return std::string(p) + std::to_string(uid++); }
    uint32_t W() { return r.range(2, 12); }
    void base() {
        g = &ctx.generator("top");
        clk = &g->port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        g->port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
        for (int i = 0; i < 4; i++) {
            in.push_back(&g->port(PortDirection::In, name("i"), W(), 1, PortType::Data, r.chance(30)));
            out.push_back(&g->port(PortDirection::Out, name("o"), in.back()->width(), 1, PortType::Data, in.back()->is_signed()));
            g->add_stmt(out.back()->assign(in.back()->shared_from_this()));
        }
        for (int i = 0; i < 3; i++) vars.push_back(&g->var(name("v"), W(), 1, false));
        flag = &g->var("flag", 1);
        sv = &g->var("sv", W(), 1, true);
        arr = &g->var("arr", W(), r.range(2, 8));
        arr->set_is_packed(true);
        uarr = &g->var("uarr", arr->var_width(), arr->size()[0]);
        uarr->set_is_packed(false);
        par = &g->parameter("P", 8);
        par->set_value(4);
        cvar = &g->var("pv", 4);
        cvar->set_width_param(par);
        en = &g->enum_("color", {{"red", 0}, {"green", 1}, {"blue", 2}}, 2);
        g->enum_var("ev", en->shared_from_this());
        ctx.generator("unused");
        st = std::make_shared<PackedStruct>("pair_t", std::vector<std::tuple<std::string, uint32_t>>{{"lo", W()}, {"hi", W()}});
        g->var_packed("ps", st);
        fn = g->function("fn");
        auto x = fn->input("x", W(), false);
        fn->input("y", W(), r.chance(50));
        fn->create_function_handler(x->width(), false);
        fn->add_stmt(fn->return_stmt(x));
        nofn = g->function("nofn");
        nofn->input("x", W(), false);
        seq = g->sequential();
        seq->add_condition({EventEdgeType::Posedge, clk->shared_from_this()});
        comb = g->combinational();
        child = &ctx.generator("child");
        child->port(PortDirection::In, "a", W(), 1, PortType::Data, false);
        child->port(PortDirection::Out, "b", W(), 1, PortType::Data, false);
        crst = &child->port(PortDirection::In, "crst", 1, 1, PortType::AsyncReset, false);
        child->port(PortDirection::In, "cclk", 1, 1, PortType::Clock, false);
        child->wire(child->var("b", 1 * child->get_port("b")->width()), Const::constant(1, child->get_port("b")->width(), false));
        g->add_child_generator("inst", *child);
        auto& second = ctx.generator("second");
        g->add_child_generator("inst2", second);
        g->wire(*child->get_port("a"), g->var("ca", child->get_port("a")->width()));
        g->wire(g->var("cb", child->get_port("b")->width()), *child->get_port("b"));
        g->wire(*child->get_port("cclk"), *clk);
        spare = &ctx.generator("spare");
    }
    Var& any() { return r.chance(50) ? (Var&)*r.pick(in) : *r.pick(vars); }
    Const& K(int64_t v, uint32_t w, bool s = false) { return Const::constant(v, w, s); }
    void step() {
        auto& a = any();
        auto& b = any();
        uint32_t w = a.width(), k = r.below(62), e = r.range(1, 5), q = r.below(1000);
        auto ptr = [](Var& v) { return v.shared_from_this(); };
        switch (k) {
            case 0: return no("slice: beyond the variable", [&] { a[std::pair<uint32_t, uint32_t>(w - 1 + e, 0)]; });
            case 1: return no("slice: reversed", [&] { a[std::pair<uint32_t, uint32_t>(0, q % (w - 1) + 1)]; });
            case 2: return no("slice: bit beyond the variable", [&] { a[w + e - 1]; });
            case 3: return no("slice: element beyond the array", [&] { (q & 1 ? *arr : *uarr)[arr->size()[0] + e - 1]; });
            case 4: return no("extend: narrower", [&] { a.extend(w - 1); });
            case 5: return no("extend: array", [&] { arr->extend(arr->width() + e); });
            case 6: return no("concat: mixed signs", [&] { q & 1 ? sv->concat(*flag) : flag->concat(*sv); });
            case 7: return no("mux: wide condition", [&] { util::mux(a, b, b); });
            case 8: return no("index: wider than needed", [&] {
                uint32_t need = 1;
                while ((1u << need) < arr->size()[0]) need++;
                auto& ix = g->expr(ExprOp::Add, &K(0, need + e), &K(0, need + e));
                (*arr)[ptr(ix)];
            });
            case 9: return no("assign: to a constant", [&] { K(1, w).assign(a); });
            case 10: return no("assign: to an expression", [&] { (a + K(0, w)).assign(a); });
            case 11: return no("assign: nothing", [&] { a.assign(std::shared_ptr<Var>()); });
            case 12: return no("assign: other width", [&] { r.pick(vars)->assign(g->expr(ExprOp::Add, vars[0], vars[0]).extend(vars[0]->width() + 20)); });
            case 13: return no("assign: other sign", [&] { q & 1 ? sv->assign(K(0, sv->width())) : vars[0]->assign(K(0, vars[0]->width(), true)); });
            case 14: return no("assign: packed and unpacked", [&] { q & 1 ? arr->assign(*uarr) : uarr->assign(*arr); });
            case 15: return no("constant: too large", [&] { K(1ll << (q % 40 + 1), q % 40 + 1); });
            case 16: return no("constant: too large when signed", [&] { K(1ll << (q % 40), q % 40 + 1, true); });
            case 17: return no("constant: too small", [&] { K(-(1ll << (q % 40)) - 1, q % 40 + 1, true); });
            case 18: return no("constant: new value too large", [&] { K(0, w).set_value(1ll << w); });
            case 19: return no("constant: new width too small", [&] { K((1 << w) - 1, w).set_width(w - 1); });
            case 20: return no("constant: bad digits", [&] { Const::constant("12xz", 80, false, 80, false); });
            case 21: return no("constant: unpacked", [&] { K(0, w).set_is_packed(false); });
            case 22: return no("constant: driven", [&] {
                auto& kk = K(0, w);
                g->add_stmt(std::make_shared<AssignStmt>(ptr(kk), ptr(a)));
            });
            case 23: return no("variable: no bits", [&] { g->var(name("z"), 0); });
            case 24: return no("variable: keyword", [&] {
                static const char* kw[] = {"module", "begin", "logic", "wire", "always_ff", "case", "input", "endmodule", "unique", "while"};
                g->var(kw[q % 10], w);
            });
            case 25: return no("variable: other width", [&] { g->var(vars[0]->name, vars[0]->width() + e); });
            case 26: return no("variable: other sign", [&] { g->var("sv", sv->width()); });
            case 27: return no("port: exists", [&] { g->port(PortDirection::In, in[0]->name, in[0]->width()); });
            case 28: return no("port: wide clock", [&] { g->port(PortDirection::In, name("c"), w, 1, q & 1 ? PortType::Clock : PortType::AsyncReset, false); });
            case 29: return no("port: becomes a wide clock", [&] { in[0]->set_port_type(PortType::Clock); });
            case 30: return no("port: wide active low", [&] { in[0]->set_active_high(false); });
            case 31: return no("port: clock driven by data", [&] { child->get_port(q & 1 ? "cclk" : "crst")->assign(*flag); });
            case 32: return no("parameter: exists", [&] { g->parameter("P", 4); });
            case 33: return no("parameter: width zero", [&] { par->set_value(q & 1 ? 0 : -(int)e); });
            case 34: return no("parameter: value too large", [&] { par->set_value(256 + e); });
            case 35: return no("parameter: missing dimension", [&] { a.set_size_param(e, par); });
            case 36: return no("enum: unknown member", [&] { en->get_enum("purple"); });
            case 37: return no("enum: exists", [&] { g->enum_("color", {{"x1", 0}}, 1); });
            case 38: return no("enum: member used elsewhere", [&] { g->enum_("shade", {{"dark", 0}, {"red", 1}}, 1); });
            case 39: return no("enum: member too large", [&] { g->enum_(name("en"), {{"big", 4}}, 2); });
            case 40: return no("enum: plain value", [&] { g->get_var("ev")->assign(K(0, 2)); });
            case 41: return no("enum: as port type", [&] { g->port(PortDirection::In, name("ep"), en->shared_from_this()); });
            case 42: return no("struct: unknown member", [&] { dynamic_cast<VarPackedStruct*>(g->get_var("ps").get())->operator[]("middle"); });
            case 43: return no("struct: exists", [&] { g->var_packed("ps", st); });
            case 44: return no("function: missing argument", [&] { g->call("fn", {{"x", ptr(K(0, fn->get_port("x")->width()))}}); });
            case 45: return no("function: other width", [&] {
                auto x = fn->get_port("x"), y = fn->get_port("y");
                g->call("fn", {{"x", ptr(K(0, x->width() + e))}, {"y", ptr(K(0, y->width(), y->is_signed()))}});
            });
            case 46: return no("function: other sign", [&] {
                auto x = fn->get_port("x"), y = fn->get_port("y");
                g->call("fn", {{"x", ptr(K(0, x->width()))}, {"y", ptr(K(0, y->width(), !y->is_signed()))}});
            });
            case 47: return no("function: unknown", [&] { g->call("nothing", {{"x", ptr(a)}}); });
            case 48: return no("function: without result", [&] { g->call("nofn", {{"x", ptr(K(0, nofn->get_port("x")->width()))}}); });
            case 49: return no("function: exists", [&] { q & 1 ? (void)g->function("fn") : (void)g->task("fn"); });
            case 50: return no("function: ordering", [&] { fn->set_port_ordering(std::map<std::string, uint32_t>{{"x", 0}, {"nope", 1}}); });
            case 51: return no("function: second result", [&] { fn->create_function_handler(w, false); });
            case 52: return no("function: unknown port", [&] { fn->get_port("nope"); });
            case 53: return no("event: wide variable", [&] { EventControl(EventEdgeType::Posedge, a); });
            case 54: return no("cast: wide clock", [&] { a.cast(q & 1 ? VarCastType::Clock : VarCastType::AsyncReset); });
            case 55: return no("switch: constant", [&] { SwitchStmt(K(0, w)); });
            case 56: return no("block: wrong kind of assignment", [&] {
                if (q & 1) seq->add_stmt(vars[0]->assign(ptr(K(0, vars[0]->width())), AssignmentType::Blocking));
                else comb->add_stmt(vars[0]->assign(ptr(K(0, vars[0]->width())), AssignmentType::NonBlocking));
            });
            case 57: return no("block: in a block", [&] { q & 1 ? seq->add_stmt(comb) : comb->add_stmt(nullptr); });
            case 58: return no("child: name taken", [&] {
                if (q & 1) g->add_child_generator("inst", *spare);
                else g->add_child_generator("inst", *g->get_child_generator("inst2"));
            });
            case 59: return no("child: other ports", [&] {
                // all but the last one agree
                auto& n = ctx.generator("child_" + std::to_string(uid++));
                for (auto& pn : child->get_port_names()) {
                    auto p = child->get_port(pn);
                    if (pn == "crst") n.port(PortDirection::Out, pn, 1, 1, p->port_type(), false);
                    else n.port(p->port_direction(), pn, p->width(), 1, p->port_type(), p->is_signed());
                }
                g->replace("inst", n.shared_from_this());
            });
            case 60: return no("remove: still used", [&] { q & 1 ? g->remove_var("ca") : g->remove_port(out[0]->name); });
            case 61: return no("rename: name taken", [&] { g->rename_var(vars[0]->name, q & 1 ? vars[1]->name : in[0]->name); });
        }
    }
    void legal() {
        // things that are fine stay possible
        auto w = vars[0]->width();
        switch (r.below(6)) {
            case 0: comb->add_stmt(vars[r.below(3)]->assign(K(1, 1))); break;
            case 1: vars.push_back(&g->var(name("v"), W())); break;
            case 2: g->wire(g->var(name("n"), w), g->expr(ExprOp::Add, vars[0], vars[0])); break;
            case 3: g->wire(g->var(name("n"), arr->var_width()), (*arr)[r.below(arr->size()[0])]); break;
            case 4: g->wire(g->var(name("n"), fn->get_port("x")->width()), g->call("fn", {{"x", K(0, fn->get_port("x")->width()).shared_from_this()}, {"y", K(0, fn->get_port("y")->width(), fn->get_port("y")->is_signed()).shared_from_this()}})); break;
            case 5: g->wire(g->var(name("n"), 1), in[0]->eq(*in[0])); break;
        }
    }
    std::string state() {
        std::string s;
        for (auto* x : {g, child}) {
            s += x->instance_name + " of " + x->name + ":";
            for (auto& [n, v] : x->vars()) {
                s += " " + n + "=" + v->name + ":" + std::to_string(v->width()) + (v->is_signed() ? "s" : "") + "<" + std::to_string(v->sources().size()) + ">" + std::to_string(v->sinks().size());
                if (v->generator() != x) s += "!";
            }
            s += "\nports";
            for (auto& n : x->get_port_names()) s += " " + n + (x->get_port(n) ? std::to_string((int)x->get_port(n)->port_type()) : "?");
            s += "\nchildren";
            for (auto& n : x->get_child_generators()) s += " " + n->instance_name + "/" + n->name;
            s += "\nparams";
            for (auto& [n, p] : x->get_params()) s += " " + n + "=" + std::to_string(p->value());
            s += "\nenums";
            for (auto& [n, p] : x->get_enums()) s += " " + n;
            s += "\nfunctions";
            for (auto& [n, p] : x->functions()) s += " " + n + std::to_string(p->size());
            s += "\nstatements " + std::to_string(x->stmts_count()) + "\n";
        }
        fix_assignment_type(g);
        VerilogModule m(g);
        for (auto& [n, t] : m.verilog_src()) s += t;
        return s;
    }
    std::string run() {
        base();
        uint32_t n = r.range(6, 20);
        for (uint32_t i = 0; i < n && !c.bad; i++) {
            // the calls use random numbers of their own
            auto s = r.next();
            Rng keep = r;
            r = Rng(s);
            bool refuse = r.chance(70);
            if (refuse) step();
            r = keep;
            auto id = uid;
            uid = 1000 * (i + 1);
            (void)id;
            r = Rng(s + 1);
            if (!refuse) legal();
            r = keep;
        }
        return c.bad ? "" : state();
    }
};
static void refuse(drv::Case& c) {
    std::string a, b;
    {
        Refuse x(c, true);
        a = x.run();
        if (c.bad) return;
        c.st.see(x.log);
        c.st.sample(x.log);
    }
    Refuse y(c, false);
    b = y.run();
    if (a != b) {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        i = i > 60 ? i - 60 : 0;
        c.violation("trace", "a refused call left a trace: " + a.substr(i, 160) + " --- instead of --- " + b.substr(i, 160));
    } else {
        c.st.add("designs_unchanged");
    }
}
int main(int argc, char** argv) { return drv::run(argc, argv, {{"exprs", exprs}, {"refuse", refuse}}); }
