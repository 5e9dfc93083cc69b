// Random hardware designs, built through the public API of the library under test
// and written down at the same time, independently, as fully parenthesised
// SystemVerilog ("golden" text).  Everything random comes from one seeded stream
// and nothing the library answers feeds back into it.
#pragma once
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "codegen.hh"
#include "context.hh"
#include "except.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "stmt.hh"
#include "util.hh"

namespace rd {
using namespace kratos;

struct Rng {
    uint64_t s;
    uint64_t n = 0;
    int64_t mut_at = -1;  // draw that is answered differently
    explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { raw(); }
    uint64_t raw() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t next() {
        uint64_t v = raw();
        if ((int64_t)n++ == mut_at) v = v * 0x9e3779b97f4a7c15ull + 0x7f4a7c15;
        return v;
    }
    uint32_t below(uint32_t k) { return (uint32_t)((next() >> 11) % k); }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t pct) { return below(100) < pct; }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[below((uint32_t)v.size())];
    }
};

struct Opt {
    uint32_t max_width = 72;
    uint32_t expr_depth = 3;
    uint32_t items = 6;
    uint32_t child_depth = 1;
    bool is_signed = true;
    bool arrays = true;
    bool unpacked = true;
    bool functions = true;
    bool params = true;
    bool seq = true;
    bool loops = true;
    bool switches = true;
    bool muldiv = true;
    bool dyn_index = true;
    bool same_name_children = false;  // several different modules under one name
    bool clones = false;
    bool blocking_rw = true;  // targets of a block may be read in it
    bool split_wires = true;
    bool case_ladders = false;  // if ladders against constants
    bool merge_ifs = false;
    bool direct_child_wires = true;
    bool wide_pred = true;
    bool clash = false;  // variables with the names passes would pick for port wires
    bool bundles = false;
    bool bitwires = false;  // wires assigned bit by bit from another's bits
    bool pass_through = false;
    bool out_reg_only = false;
    bool defaults = true;
    bool safe_index = false;  // a dynamic index never leaves the variable
    bool safe_div = false;    // a divisor is never zero
    bool ladder_sets = false;  // runs of ifs that compare one variable with constants, marked for merging
    bool empty_blocks = false;
    bool unused = false;  // variables and instances nothing reads
    bool hier = false;           // pass-through modules, lanes of equal instances
    bool inlines = false;        // children marked for inlining
    bool direct_ports = false;   // ports of children are used in expressions and driven in parts
    bool lane_clones = true;
    bool const_wires = false;    // wires that carry a constant to one or more ports of children
    int rst = -1;                // kind of reset of every module, -1 random
    bool cen = false;            // the golden text updates registers only under clk_en
    bool srst = false;           // the golden text has a synchronous reset srst next to every asynchronous one
    bool over_cen = false;       // the synchronous reset wins over clk_en
    uint32_t pipe = 0;           // percentage of modules whose outputs go through registers
    bool single_driver = true;  // stay within the single-driver rule for registers
};

struct Sg {
    Var* v = nullptr;
    std::string n;
    uint32_t w = 1;
    bool s = false;
    std::vector<uint32_t> d;
    bool scalar() const { return d.empty(); }
    uint32_t total() const {
        uint32_t t = w;
        for (auto x : d) t *= x;
        return t;
    }
};
struct Ex {
    Var* v = nullptr;
    std::string t;
    uint32_t w = 1;
    bool s = false;
    bool k = false;  // constant
};
struct Fn {
    std::string name;
    std::vector<Sg> args;
    uint32_t w;
    bool s;
};
struct Par {
    Param* p;
    uint32_t w;
    uint64_t val;
};

inline std::string dims(const std::vector<uint32_t>& d) {
    std::string r;
    for (auto x : d) r += "[" + std::to_string(x - 1) + ":0]";
    return r;
}
inline std::string decl(const std::string& n, uint32_t w, bool s, const std::vector<uint32_t>& d) {
    return std::string("logic ") + (s ? "signed " : "") + dims(d) + "[" + std::to_string(w - 1) + ":0] " + n;
}
inline std::string lit(uint32_t w, uint64_t v) {
    char b[64];
    snprintf(b, sizeof b, "%u'h%llx", w, (unsigned long long)v);
    return b;
}
inline uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
inline uint32_t log2c(uint32_t n) {
    uint32_t r = 0;
    while ((1ull << r) < n) r++;
    return r;
}

struct Mod {
    Generator* g = nullptr;
    std::string gn;  // golden name
    std::vector<Sg> in, out;
    bool clk = true;
    int rst = 0;  // 0 none, 1 async active high, 2 async active low, 3 sync high
    std::string ports, decls, body;
    std::vector<Sg> avail;
    std::vector<Fn> fns;
    std::vector<Par> pars;
    int uid = 0;
    bool pristine = false;
    bool touch = true;      // the module may be changed by the insertion passes
    bool cen = false;       // it ends up with a port clk_en
    Var *cenv = nullptr, *srstv = nullptr;  // ports of that name made by the user
    uint32_t pipe = 0;
    std::string aux;        // name of a second clock that drives nothing
    std::string fresh(const char* p) { return std::string(p) + std::to_string(uid++); }
};

class Builder {
public:
    Rng& r;
    Opt o;
    Context& ctx;
    std::string golden;
    std::map<std::string, uint64_t> feat;
    int gcount = 0, ncount = 0;
    std::vector<std::shared_ptr<void>> keep;
    // one entry per instance of every generator made: golden name
    std::vector<std::pair<Generator*, std::string>> gens;
    // adds something of its own to every module, before the random items
    std::function<void(Mod&, Sg&, Sg&)> extra;

    Builder(Rng& rng, Opt opt, Context& c) : r(rng), o(opt), ctx(c) {}

    // width of an index into n things, 0 for none
    uint32_t idx_bits(uint32_t n) const {
        uint32_t k = log2c(n);
        return o.safe_index && (1u << k) != n ? 0 : k;
    }
    uint32_t rwidth() {
        static const std::vector<uint32_t> ws = {1, 1, 1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 8, 9, 12, 16, 16, 17, 24, 32, 32, 33, 48, 63, 64, 65, 72, 80};
        for (;;) {
            auto w = r.pick(ws);
            if (w <= o.max_width) return w;
        }
    }

    // ------------------------------------------------------------- expressions
    Ex konst(uint32_t w, bool s) {
        uint64_t v;
        switch (r.below(5)) {
            case 0: v = 0; break;
            case 1: v = mask(w); break;
            case 2: v = 1ull << (w > 64 ? 0 : w - 1); break;
            default: v = r.next(); break;
        }
        v &= mask(w);
        if (w > 64) v &= 0xffff;
        auto& c = Const::constant((int64_t)v, w, false);
        Ex e{&c, lit(w, v), w, false, true};
        if (s) {
            e.v = c.cast(VarCastType::Signed).get();
            e.t = "signed'(" + e.t + ")";
            e.s = true;
        }
        return e;
    }
    Ex cast(const Ex& e, bool s) {
        feat["cast"]++;
        return {e.v->cast(s ? VarCastType::Signed : VarCastType::Unsigned).get(), std::string(s ? "signed'(" : "unsigned'(") + e.t + ")", e.w, s, e.k};
    }
    // a readable element of width exactly w (unsigned), taken out of something wider
    bool part(Mod& m, const std::vector<Sg>& av, uint32_t w, Ex& out) {
        std::vector<const Sg*> c;
        for (auto& s : av)
            if (!s.s && s.w >= w) c.push_back(&s);
        if (c.empty()) return false;
        const Sg& s = *c[r.below((uint32_t)c.size())];
        Var* v = s.v;
        std::string t = s.n;
        for (size_t i = 0; i < s.d.size(); i++) {
            Ex ix;
            uint32_t k = idx_bits(s.d[i]);
            if (o.dyn_index && k > 0 && r.chance(35) && scalar_leaf(av, k, false, ix)) {
                feat["array_var_index"]++;
                v = &(*v)[ix.v->shared_from_this()];
                t += "[" + ix.t + "]";
            } else {
                feat["array_index"]++;
                uint32_t n = r.below(s.d[i]);
                v = &(*v)[n];
                t += "[" + std::to_string(n) + "]";
            }
        }
        if (w < s.w) {
            uint32_t lo = r.below(s.w - w + 1);
            Ex ix;
            uint32_t k = idx_bits(s.w);
            if (w == 1 && o.dyn_index && k > 0 && r.chance(25) && scalar_leaf(av, k, false, ix)) {
                feat["bit_var_index"]++;
                v = &(*v)[ix.v->shared_from_this()];
                t += "[" + ix.t + "]";
            } else {
                feat["slice"]++;
                v = &(*v)[{lo + w - 1, lo}];
                t += w == 1 ? "[" + std::to_string(lo) + "]" : "[" + std::to_string(lo + w - 1) + ":" + std::to_string(lo) + "]";
                if (w >= 3 && r.chance(15)) {
                    // slice of a slice: only the library composes these
                    uint32_t lo2 = 0;
                    (void)lo2;
                }
            }
        }
        out = {v, t, w, false, false};
        return true;
    }
    bool scalar_leaf(const std::vector<Sg>& av, uint32_t w, bool s, Ex& out) {
        std::vector<const Sg*> c;
        for (auto& x : av)
            if (x.scalar() && x.w == w && x.s == s) c.push_back(&x);
        if (c.empty()) return false;
        auto& x = *c[r.below((uint32_t)c.size())];
        out = {x.v, x.n, w, s, false};
        return true;
    }
    Ex leaf(Mod& m, const std::vector<Sg>& av, uint32_t w, bool s, bool allow_const = true) {
        Ex e;
        if (allow_const && r.chance(12)) {
            if (!m.pars.empty() && r.chance(50)) {
                for (auto& p : m.pars)
                    if (p.w == w && !s) {
                        feat["param_use"]++;
                        return {p.p, lit(w, p.val), w, false, true};
                    }
            }
            return konst(w, s);
        }
        if (r.chance(60) && scalar_leaf(av, w, s, e)) return e;
        if (!s) {
            if (part(m, av, w, e)) return e;
        } else {
            if (scalar_leaf(av, w, true, e)) return e;
            if (part(m, av, w, e)) return cast(e, true);
        }
        // something narrower, extended
        std::vector<const Sg*> c;
        for (auto& x : av)
            if (x.scalar() && x.w < w && x.s == s) c.push_back(&x);
        if (!c.empty()) {
            auto& x = *c[r.below((uint32_t)c.size())];
            feat["extend"]++;
            return {&x.v->extend(w), std::to_string(w) + "'(" + x.n + ")", w, s, false};
        }
        if (scalar_leaf(av, w, !s, e)) return cast(e, s);
        // anything at all, built up bit by bit
        if (part(m, av, 1, e)) {
            if (w > 1) {
                e.v = &e.v->duplicate(w);
                e.t = "{" + std::to_string(w) + "{" + e.t + "}}";
                e.w = w;
                feat["duplicate"]++;
            }
            return s ? cast(e, true) : e;
        }
        if (allow_const) return konst(w, s);
        // last resort: clock/reset are not data, so use a signed scalar
        for (auto& x : av)
            if (x.scalar()) {
                Ex q{x.v, x.n, x.w, x.s, false};
                if (q.s) q = cast(q, false);
                q = {&q.v->r_or(), "(|" + q.t + ")", 1, false, false};
                if (w > 1) q = {&q.v->extend(w), std::to_string(w) + "'(" + q.t + ")", w, false, false};
                return s ? cast(q, true) : q;
            }
        return konst(w, s);
    }
    Ex bin(Expr& e, const Ex& a, const char* op, const Ex& b, uint32_t w, bool s) {
        feat[std::string("op") + op]++;
        return {&e, "(" + a.t + " " + op + " " + b.t + ")", w, s, false};
    }
    Ex nk(Mod& m, const std::vector<Sg>& av, uint32_t w, bool s, int d) {
        // never a bare constant
        Ex e = ex(m, av, w, s, d);
        if (e.k) e = leaf(m, av, w, s, false);
        return e;
    }
    Ex ex(Mod& m, const std::vector<Sg>& av, uint32_t w, bool s, int d) {
        if (d <= 0 || r.chance(12)) return leaf(m, av, w, s);
        switch (r.below(22)) {
            case 0:
            case 1: {
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                return bin(*a.v + *b.v, a, "+", b, w, s);
            }
            case 2:
            case 3: {
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                return bin(*a.v - *b.v, a, "-", b, w, s);
            }
            case 4: {
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                return bin(*a.v & *b.v, a, "&", b, w, s);
            }
            case 5: {
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                return bin(*a.v | *b.v, a, "|", b, w, s);
            }
            case 6: {
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                return bin(*a.v ^ *b.v, a, "^", b, w, s);
            }
            case 7: {
                if (!o.muldiv) break;
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                if (r.chance(70)) return bin(*a.v * *b.v, a, "*", b, w, s);
                if (o.safe_div) {
                    if (s) break;
                    auto q = nk(m, av, w, s, d - 1);
                    b = bin(*q.v | constant(1, w, false), q, "|", {nullptr, lit(w, 1), w, false, true}, w, false);
                }
                if (r.chance(50)) return bin(*a.v / *b.v, a, "/", b, w, s);
                return bin(*a.v % *b.v, a, "%", b, w, s);
            }
            case 8: {
                auto a = nk(m, av, w, s, d - 1);
                feat["op~"]++;
                return {&~*a.v, "(~" + a.t + ")", w, s, false};
            }
            case 9: {
                auto a = nk(m, av, w, s, d - 1);
                bool plus = r.chance(25);
                feat[plus ? "unary+" : "unary-"]++;
                if (plus) return {&+*a.v, "(+" + a.t + ")", w, s, false};
                return {&-*a.v, "(-" + a.t + ")", w, s, false};
            }
            case 10: {
                auto a = nk(m, av, w, s, d - 1);
                Ex b = nk(m, av, w, false, d - 1);
                // a shifted signed operand together with an unsigned amount counts as unsigned
                // for the library, so amounts of signed operands are signed there as well
                if (s) b = cast(b, true);
                switch (r.below(3)) {
                    case 0: return bin(*a.v << *b.v, a, "<<", b, w, s);
                    case 1: return bin(*a.v >> *b.v, a, ">>", b, w, s);
                    default: return bin(a.v->ashr(*b.v), a, ">>>", b, w, s);
                }
            }
            case 11:
            case 12: {
                auto c = nk(m, av, 1, false, d - 1);
                auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
                feat["op?:"]++;
                auto e = util::mux(*c.v, *a.v, *b.v);
                keep.push_back(e);
                return {e.get(), "(" + c.t + " ? " + a.t + " : " + b.t + ")", w, s, false};
            }
            case 13:
            case 14: {
                if (s || w < 2) break;
                uint32_t w1 = r.range(1, w - 1);
                auto a = nk(m, av, w1, false, d - 1), b = ex(m, av, w - w1, false, d - 1);
                feat["concat"]++;
                if (w - w1 >= 2 && r.chance(40)) {
                    uint32_t w2 = r.range(1, w - w1 - 1);
                    b = ex(m, av, w2, false, d - 1);
                    auto c = ex(m, av, w - w1 - w2, false, d - 1);
                    feat["concat3"]++;
                    return {&a.v->concat(*b.v).concat(*c.v), "{" + a.t + ", " + b.t + ", " + c.t + "}", w, false, false};
                }
                return {&a.v->concat(*b.v), "{" + a.t + ", " + b.t + "}", w, false, false};
            }
            case 15: {
                if (w < 2) break;
                auto a = nk(m, av, r.range(1, w - 1), s, d - 1);
                feat["extend"]++;
                return {&a.v->extend(w), std::to_string(w) + "'(" + a.t + ")", w, s, false};
            }
            case 16: {
                if (s || w < 2) break;
                std::vector<uint32_t> f;
                for (uint32_t i = 2; i <= w; i++)
                    if (w % i == 0) f.push_back(i);
                uint32_t n = r.pick(f);
                auto a = nk(m, av, w / n, false, d - 1);
                feat["duplicate"]++;
                return {&a.v->duplicate(n), "{" + std::to_string(n) + "{" + a.t + "}}", w, false, false};
            }
            case 17: {
                auto a = nk(m, av, w, !s, d - 1);
                if (!o.is_signed) break;
                return cast(a, s);
            }
            case 18: {
                if (!o.functions) break;
                std::vector<const Fn*> c;
                for (auto& f : m.fns)
                    if (f.w == w && f.s == s) c.push_back(&f);
                if (c.empty()) break;
                auto& f = *c[r.below((uint32_t)c.size())];
                std::map<std::string, std::shared_ptr<Var>> args;
                std::string t;
                for (auto& a : f.args) {
                    Ex e;
                    e = leaf(m, av, a.w, a.s, false);
                    args[a.n] = e.v->shared_from_this();
                    t += (t.empty() ? "" : ", ") + e.t;
                }
                feat["function_call"]++;
                return {&m.g->call(f.name, args), f.name + "(" + t + ")", w, s, false};
            }
            default: {
                if (s || w != 1) {
                    if (w > 1 && !s && r.chance(50)) {
                        auto e = pred(m, av, d);
                        return {&e.v->extend(w), std::to_string(w) + "'(" + e.t + ")", w, false, false};
                    }
                    break;
                }
                return pred(m, av, d);
            }
        }
        return leaf(m, av, w, s);
    }
    // 1-bit result from wider operands
    Ex pred(Mod& m, const std::vector<Sg>& av, int d) {
        uint32_t w = r.chance(30) ? 1 : rwidth();
        bool s = o.is_signed && r.chance(25);
        if (r.chance(25)) {
            auto a = nk(m, av, w, false, d - 1);
            switch (r.below(4)) {
                case 0: feat["red|"]++; return {&a.v->r_or(), "(|" + a.t + ")", 1, false, false};
                case 1: feat["red&"]++; return {&a.v->r_and(), "(&" + a.t + ")", 1, false, false};
                case 2: feat["red^"]++; return {&a.v->r_xor(), "(^" + a.t + ")", 1, false, false};
                default: feat["red!"]++; return {&a.v->r_not(), "(!" + a.t + ")", 1, false, false};
            }
        }
        if (r.chance(15)) {
            auto a = nk(m, av, 1, false, d - 1), b = nk(m, av, 1, false, d - 1);
            if (r.chance(50)) return bin(*a.v && *b.v, a, "&&", b, 1, false);
            return bin(*a.v || *b.v, a, "||", b, 1, false);
        }
        auto a = nk(m, av, w, s, d - 1), b = ex(m, av, w, s, d - 1);
        Ex e;
        if (s) feat["signed_relational"]++;
        switch (r.below(6)) {
            case 0: e = bin(*a.v < *b.v, a, "<", b, 1, false); break;
            case 1: e = bin(*a.v <= *b.v, a, "<=", b, 1, false); break;
            case 2: e = bin(*a.v > *b.v, a, ">", b, 1, false); break;
            case 3: e = bin(*a.v >= *b.v, a, ">=", b, 1, false); break;
            case 4: e = bin(a.v->eq(*b.v), a, "==", b, 1, false); break;
            default: e = bin(*a.v != *b.v, a, "!=", b, 1, false); break;
        }
        if (s) e = cast(e, false);
        return e;
    }
    Ex predicate(Mod& m, const std::vector<Sg>& av) {
        if (o.wide_pred && r.chance(12)) {
            Ex e = nk(m, av, r.range(2, 5), false, 1);
            feat["wide_predicate"]++;
            return e;
        }
        return nk(m, av, 1, false, 2);
    }

    // -------------------------------------------------------------- statements
    using Add = std::function<void(std::shared_ptr<Stmt>)>;
    struct Blk {
        bool seq;
        AssignmentType type;
        const char* op;
        std::vector<Sg> tg;
        std::vector<Sg> av;
        bool once = false;  // one direct assignment per target and scope
        std::set<std::string> used_top;
    };
    using Here = std::set<std::string>;
    Ex lhs(Mod& m, Blk& b, const Sg& t) {
        Var* v = t.v;
        std::string n = t.n;
        for (size_t i = 0; i < t.d.size(); i++) {
            Ex ix;
            uint32_t k = idx_bits(t.d[i]);
            if (o.dyn_index && k > 0 && r.chance(40) && scalar_leaf(b.av, k, false, ix)) {
                feat["lhs_var_index"]++;
                v = &(*v)[ix.v->shared_from_this()];
                n += "[" + ix.t + "]";
            } else {
                uint32_t q = r.below(t.d[i]);
                v = &(*v)[q];
                n += "[" + std::to_string(q) + "]";
                feat["lhs_index"]++;
            }
        }
        uint32_t w = t.w;
        if (!t.s && w > 1 && r.chance(30)) {
            uint32_t pw = r.range(1, w - 1), lo = r.below(w - pw + 1);
            Ex ix;
            uint32_t k = idx_bits(w);
            if (pw == 1 && o.dyn_index && k > 0 && r.chance(50) && scalar_leaf(b.av, k, false, ix)) {
                feat["lhs_bit_var"]++;
                v = &(*v)[ix.v->shared_from_this()];
                n += "[" + ix.t + "]";
            } else {
                feat["lhs_slice"]++;
                v = &(*v)[{lo + pw - 1, lo}];
                n += pw == 1 ? "[" + std::to_string(lo) + "]" : "[" + std::to_string(lo + pw - 1) + ":" + std::to_string(lo) + "]";
            }
            w = pw;
        }
        return {v, n, w, t.s, false};
    }
    void assign(Mod& m, Blk& b, const Ex& l, const Ex& rr, const Add& add, std::string& g, const std::string& in) {
        g += in + l.t + " " + b.op + " " + rr.t + ";\n";
        add(l.v->assign(rr.v->shared_from_this(), b.type));
    }
    void assign_full(Mod& m, Blk& b, const Sg& t, bool konst_only, const Add& add, std::string& g, const std::string& in) {
        // every element of the target
        std::vector<std::pair<Var*, std::string>> el = {{t.v, t.n}};
        for (auto dim : t.d) {
            std::vector<std::pair<Var*, std::string>> n;
            for (auto& e : el)
                for (uint32_t i = 0; i < dim; i++) n.push_back({&(*e.first)[i], e.second + "[" + std::to_string(i) + "]"});
            el = n;
        }
        for (auto& e : el) {
            Ex l{e.first, e.second, t.w, t.s, false};
            assign(m, b, l, konst_only ? konst(t.w, t.s) : ex(m, b.av, t.w, t.s, 1), add, g, in);
        }
    }
    void stmt(Mod& m, Blk& b, int depth, const Add& add, std::string& g, const std::string& in, Here& here) {
        uint32_t k = r.below(100);
        if (depth > 0 && k < 30) {
            auto p = predicate(m, b.av);
            auto st = std::make_shared<IfStmt>(p.v->shared_from_this());
            add(st);
            feat["if"]++;
            g += in + "if (" + p.t + ") begin\n";
            uint32_t n = r.range(1, 2);
            Here h1, h2;
            if (o.empty_blocks && r.chance(30)) {
                n = 0;
                feat["empty_then"]++;
            }
            for (uint32_t i = 0; i < n; i++) stmt(m, b, depth - 1, [&](auto s) { st->add_then_stmt(s); }, g, in + "  ", h1);
            g += in + "end\n";
            if (r.chance(60)) {
                feat["else"]++;
                g += in + "else begin\n";
                n = r.range(1, 2);
                for (uint32_t i = 0; i < n; i++) stmt(m, b, depth - 1, [&](auto s) { st->add_else_stmt(s); }, g, in + "  ", h2);
                g += in + "end\n";
            }
            return;
        }
        if (depth > 0 && o.ladder_sets && r.chance(12)) {
            ladder_set(m, b, depth, add, g, in);
            return;
        }
        if (depth > 0 && o.case_ladders && k < 45) {
            ladder(m, b, depth, add, g, in);
            return;
        }
        if (depth > 0 && o.switches && k < 58) {
            uint32_t w = r.range(1, 4);
            auto t = leaf(m, b.av, w, false, false);
            feat["switch"]++;
            auto st = std::make_shared<SwitchStmt>(t.v->shared_from_this());
            add(st);
            g += in + "case (" + t.t + ")\n";
            std::set<uint64_t> used;
            uint32_t n = r.range(1, std::min<uint32_t>(5, 1u << w));
            for (uint32_t i = 0; i < n; i++) {
                uint64_t v = r.next() & mask(w);
                if (!used.insert(v).second) continue;
                auto c = Const::constant((int64_t)v, w, false).as<Const>();
                g += in + "  " + lit(w, v) + ": begin\n";
                uint32_t q = r.range(1, 2);
                Here h;
                if (o.empty_blocks && r.chance(30)) {
                    q = 0;
                    st->add_switch_case(c, std::make_shared<ScopedStmtBlock>());
                    feat["empty_case"]++;
                }
                for (uint32_t j = 0; j < q; j++) stmt(m, b, depth - 1, [&](auto s) { st->add_switch_case(c, s); }, g, in + "    ", h);
                g += in + "  end\n";
            }
            if (r.chance(60)) {
                feat["switch_default"]++;
                g += in + "  default: begin\n";
                Here h;
                stmt(m, b, depth - 1, [&](auto s) { st->add_switch_case(std::shared_ptr<Const>(), s); }, g, in + "    ", h);
                g += in + "  end\n";
            }
            g += in + "endcase\n";
            return;
        }
        if (depth > 0 && o.loops && k < 66) {
            // element-wise loop
            std::vector<const Sg*> c;
            for (auto& t : b.tg)
                if (!t.s && (t.d.size() == 1 || (t.scalar() && t.w > 1))) c.push_back(&t);
            if (!c.empty()) {
                auto& t = *c[r.below((uint32_t)c.size())];
                if (b.once && !here.insert(t.n).second) return;
                uint32_t cnt = t.scalar() ? t.w : t.d[0];
                uint32_t ew = t.scalar() ? 1 : t.w;
                std::vector<const Sg*> c2;
                for (auto& a : b.av)
                    if (!a.s && ((a.scalar() && ew == 1 && a.w >= cnt && a.w > 1) || (a.d.size() == 1 && a.d[0] >= cnt && a.w == ew))) c2.push_back(&a);
                uint32_t st0 = r.below(std::max<uint32_t>(1, cnt / 2)), step = r.range(1, 2);
                std::string iv = m.fresh("i");
                auto st = std::make_shared<ForStmt>(iv, st0, cnt, step);
                auto it = st->get_iter_var();
                add(st);
                feat["for"]++;
                g += in + "for (int " + iv + " = " + std::to_string(st0) + "; " + iv + " < " + std::to_string(cnt) + "; " + iv + " += " + std::to_string(step) + ") begin\n";
                Ex rhs = ex(m, b.av, ew, false, 1);
                if (!c2.empty()) {
                    auto& a = *c2[r.below((uint32_t)c2.size())];
                    Ex e{&(*a.v)[it], a.n + "[" + iv + "]", ew, false, false};
                    if (r.chance(60))
                        rhs = bin(*e.v ^ *rhs.v, e, "^", rhs, ew, false);
                    else
                        rhs = e;
                    feat["for_indexed_read"]++;
                }
                Ex l{&(*t.v)[it], t.n + "[" + iv + "]", ew, false, false};
                g += in + "  " + l.t + " " + b.op + " " + rhs.t + ";\n";
                st->get_loop_body()->add_stmt(l.v->assign(rhs.v->shared_from_this(), b.type));
                g += in + "end\n";
                return;
            }
        }
        auto& t = r.pick(b.tg);
        if (b.once && !here.insert(t.n).second) return;
        auto l = lhs(m, b, t);
        assign(m, b, l, ex(m, b.av, l.w, l.s, (int)o.expr_depth), add, g, in);
    }
    // if (x == c0) .. else if (x == c1) .. [else ..]
    void ladder(Mod& m, Blk& b, int depth, const Add& add, std::string& g, const std::string& in) {
        uint32_t w = r.range(1, 4);
        Ex t;
        if (!scalar_leaf(b.av, w, false, t)) t = leaf(m, b.av, w, false, false);
        uint32_t n = r.range(2, 5);
        feat["ladder"]++;
        Add cur = add;
        std::string tail;
        std::string ind = in;
        bool other = r.chance(15), dup = r.chance(15);
        std::set<uint64_t> used;
        for (uint32_t i = 0; i < n; i++) {
            uint64_t v = r.next() & mask(w);
            if (!dup && used.count(v)) continue;
            used.insert(v);
            Ex tt = t;
            if (other && i == n - 1) tt = leaf(m, b.av, w, false, false);
            auto& c = Const::constant((int64_t)v, w, false);
            auto st = std::make_shared<IfStmt>(tt.v->eq(c));
            cur(st);
            g += ind + "if ((" + tt.t + " == " + lit(w, v) + ")) begin\n";
            Here h, h2;
            stmt(m, b, depth - 1, [&](auto s) { st->add_then_stmt(s); }, g, ind + "  ", h);
            g += ind + "end\n";
            bool last = i + 1 == n;
            if (last) {
                uint32_t fin = r.below(3);
                if (fin) {
                    g += ind + "else begin\n";
                    for (uint32_t q = 0; q < fin; q++) stmt(m, b, 0, [&](auto s) { st->add_else_stmt(s); }, g, ind + "  ", h2);
                    g += ind + "end\n";
                }
            } else {
                g += ind + "else begin\n";
                tail = ind + "end\n" + tail;
                ind += "  ";
                cur = [st](std::shared_ptr<Stmt> s) { st->add_else_stmt(s); };
            }
        }
        g += tail;
        // an `else begin` that stayed empty is legal
    }

    // if (x == c0) ..  if (x == c1) ..
    void ladder_set(Mod& m, Blk& b, int depth, const Add& add, std::string& g, const std::string& in) {
        uint32_t w = r.range(1, 3);
        Ex t;
        if (!scalar_leaf(b.av, w, false, t)) t = leaf(m, b.av, w, false, false);
        uint32_t n = r.range(2, 4);
        feat["ladder_set"]++;
        for (uint32_t i = 0; i < n; i++) {
            uint64_t v = r.next() & mask(w);
            auto st = std::make_shared<IfStmt>(t.v->eq(Const::constant((int64_t)v, w, false)));
            add(st);
            g += in + "if ((" + t.t + " == " + lit(w, v) + ")) begin\n";
            Here h, h2;
            stmt(m, b, depth - 1, [&](auto s) { st->add_then_stmt(s); }, g, in + "  ", h);
            g += in + "end\n";
            if (r.chance(20)) {
                feat["ladder_set_else"]++;
                g += in + "else begin\n";
                stmt(m, b, depth - 1, [&](auto s) { st->add_else_stmt(s); }, g, in + "  ", h2);
                g += in + "end\n";
            }
            if (r.chance(20)) stmt(m, b, 0, add, g, in, h);
        }
    }

    // ---------------------------------------------------------------- modules
    Sg newvar(Mod& m, const std::string& n, uint32_t w, bool s, std::vector<uint32_t> d, int as_port /*0 var 1 in 2 out*/) {
        Sg x;
        x.n = n;
        x.w = w;
        x.s = s;
        x.d = d;
        std::vector<uint32_t> kd = d.empty() ? std::vector<uint32_t>{1} : d;
        if (as_port) {
            x.v = &m.g->port(as_port == 1 ? PortDirection::In : PortDirection::Out, n, w, kd, PortType::Data, s);
            m.ports += std::string(m.ports.empty() ? "" : ",\n") + "  " + (as_port == 1 ? "input " : "output ") + decl(n, w, s, d);
            (as_port == 1 ? m.in : m.out).push_back(x);
        } else {
            x.v = &m.g->var(n, w, kd, s);
            m.decls += "  " + decl(n, w, s, d) + ";\n";
        }
        if (!d.empty() && o.unpacked && !as_port && r.chance(30)) {
            x.v->set_is_packed(false);
            feat["unpacked"]++;
        }
        return x;
    }
    std::vector<uint32_t> rdims(bool s, uint32_t w) {
        if (s || !o.arrays || w > 16 || !r.chance(20)) return {};
        feat["array"]++;
        std::vector<uint32_t> d = {r.range(2, 4)};
        if (r.chance(30)) d.push_back(r.range(2, 3));
        return d;
    }
    Sg target(Mod& m, const char* pfx, bool allow_arr) {
        uint32_t w = rwidth();
        bool s = o.is_signed && r.chance(20);
        auto d = allow_arr ? rdims(s, w) : std::vector<uint32_t>{};
        return newvar(m, m.fresh(pfx), w, s, d, r.chance(35) ? 2 : 0);
    }

    struct Child {
        Mod m;
        uint64_t seed;
        std::string kname;
    };
    std::vector<Child> lib;

    Mod module(const std::string& kname, uint32_t depth, bool top, std::vector<Mod>* with = nullptr) {
        Mod m;
        m.g = &ctx.generator(kname);
        m.gn = top ? "gtop" : "gm" + std::to_string(gcount++);
        gens.emplace_back(m.g, m.gn);
        auto& g = *m.g;
        m.clk = o.seq;
        Sg clk, rst;
        if (m.clk) {
            clk.v = &g.port(PortDirection::In, "clk", 1, PortType::Clock);
            m.ports += "  input logic clk";
            m.rst = o.rst >= 0 ? o.rst : (int)r.below(4);
            if (m.rst == 1 || m.rst == 2) {
                auto& p = g.port(PortDirection::In, "rst", 1, PortType::AsyncReset);
                p.set_active_high(m.rst == 1);
                rst.v = &p;
            } else {
                m.rst = m.rst == 3 ? 3 : 0;
                if (m.rst == 3) {
                    auto& p = g.port(PortDirection::In, "rst", 1, PortType::Reset);
                    p.set_active_high(true);
                    rst.v = &p;
                }
            }
            if (m.rst) m.ports += ",\n  input logic rst";
        }
        bool par_cen = have_cen;
        if (o.cen || o.srst) gating(m, top);
        have_cen = m.cen;
        if (o.pipe && r.chance(o.pipe)) m.pipe = r.range(1, 3);
        if (m.pipe && m.clk && r.chance(40)) {
            m.aux = r.chance(60) ? "aclk" : "zclk";
            g.port(PortDirection::In, m.aux, 1, PortType::Clock);
            m.ports += ",\n  input logic " + m.aux;
            feat["pipeline_" + m.aux]++;
        }
        uint32_t ni = r.range(2, 5);
        for (uint32_t i = 0; i < ni; i++) {
            uint32_t w = i == 0 ? 1 : rwidth();
            bool s = i && o.is_signed && r.chance(25);
            auto d = i ? rdims(s, w) : std::vector<uint32_t>{};
            m.avail.push_back(newvar(m, m.fresh("in"), w, s, d, 1));
        }
        if (o.bundles && !top && r.chance(60)) bundle(m, true);
        // small index / selector inputs make dynamic accesses likely
        m.avail.push_back(newvar(m, m.fresh("in"), r.range(1, 4), false, {}, 1));
        if (o.params && r.chance(40)) {
            uint32_t np = r.range(1, 2);
            for (uint32_t i = 0; i < np; i++) {
                uint32_t w = r.range(1, 16);
                uint64_t v = r.next() & mask(w);
                auto& p = g.parameter("P" + std::to_string(i), w);
                if (r.chance(50)) p.set_initial_value((int64_t)(r.next() & mask(w)));
                p.set_value((int64_t)v);
                if (top) {
                    // the top module's parameter is its declared default
                    p.set_initial_value((int64_t)v);
                }
                m.pars.push_back({&p, w, v});
                feat["param"]++;
            }
        }
        if (o.functions && r.chance(40)) function(m);
        // registers first: they may be read anywhere
        struct Seq {
            std::vector<Sg> regs;
        };
        std::vector<Seq> seqs;
        if (m.clk) {
            uint32_t ns = r.below(3);
            for (uint32_t i = 0; i < ns; i++) {
                Seq q;
                uint32_t n = r.range(1, 3);
                for (uint32_t j = 0; j < n; j++) {
                    q.regs.push_back(target(m, "r", true));
                    m.avail.push_back(q.regs.back());
                }
                seqs.push_back(q);
            }
        }
        if (extra) extra(m, clk, rst);
        if (with)
            for (auto& c : *with) instantiate(m, c, clk, rst);
        for (uint32_t i = 0; i < o.items; i++) {
            uint32_t k = r.below(100);
            if (k < 28)
                wire(m);
            else if (k < 38 && o.split_wires)
                split(m);
            else if (k < 70)
                comb(m);
            else if (depth > 0 && o.hier && r.chance(60)) {
                if (r.chance(50))
                    passthru(m, clk, rst);
                else
                    lanes(m, clk, rst);
            } else if (depth > 0)
                child(m, depth, clk, rst);
            else if (k < 85)
                wire(m);
            else
                comb(m);
        }
        for (auto& q : seqs) seqblock(m, q.regs, clk, rst);
        if (o.unused) {
            uint32_t n = r.range(1, 3);
            for (uint32_t i = 0; i < n; i++) {
                feat["unused"]++;
                if (r.chance(30)) {
                    newvar(m, m.fresh("u"), rwidth(), false, {}, 0);
                    continue;
                }
                auto t = newvar(m, m.fresh("u"), rwidth(), false, {}, 0);
                auto e = ex(m, m.avail, t.w, false, 2);
                g.add_stmt(t.v->assign(e.v->shared_from_this()));
                m.body += "  assign " + t.n + " = " + e.t + ";\n";
                if (r.chance(50)) {
                    auto t2 = newvar(m, m.fresh("u"), t.w, false, {}, 0);
                    auto blk = m.g->combinational();
                    blk->add_stmt(t2.v->assign(t.v->shared_from_this(), AssignmentType::Blocking));
                    m.body += "  always_comb " + t2.n + " = " + t.n + ";\n";
                }
            }
            // a block without statements
            if (r.chance(30)) m.g->combinational();
        }
        // make everything observable now and then
        std::set<std::string> outs;
        for (auto& x : m.out) outs.insert(x.n);
        auto av = m.avail;
        for (auto& x : av) {
            if (outs.count(x.n)) continue;
            if (r.chance(top ? 75 : 45)) {
                auto y = newvar(m, m.fresh("o"), x.w, x.s, x.d, 2);
                y.v->set_is_packed(x.v->is_packed());
                g.add_stmt(y.v->assign(x.v->shared_from_this()));
                m.body += "  assign " + y.n + " = " + x.n + ";\n";
            }
        }
        if (o.bundles && !top && r.chance(60)) bundle(m, false);
        if (m.out.empty()) {
            auto y = newvar(m, m.fresh("o"), 4, false, {}, 2);
            auto e = nk(m, m.avail, 4, false, 2);
            g.add_stmt(y.v->assign(e.v->shared_from_this()));
            m.body += "  assign " + y.n + " = " + e.t + ";\n";
        }
        have_cen = par_cen;
        golden += "module " + m.gn + (m.pipe ? "_core" : "") + " (\n" + m.ports + ");\n" + m.decls + m.body + "endmodule\n";
        if (m.pipe) pipeline(m);
        return m;
    }
    bool have_cen = false;
    static void mark(IRNode& n, const std::string& type, const std::string& value) {
        auto a = std::make_shared<Attribute>();
        a->type_str = type;
        a->value_str = value;
        n.add_attribute(a);
    }
    void gating(Mod& m, bool top) {
        auto& g = *m.g;
        if (o.cen) {
            m.ports += ",\n  input logic clk_en";
            if (r.chance(15)) {
                m.touch = false;
                mark(g, "", "dont_touch");
                feat["dont_touch"]++;
            }
            if (top || r.chance(25)) {
                m.cenv = &g.port(PortDirection::In, "clk_en", 1, PortType::ClockEnable);
                feat["own_enable"]++;
            }
            m.cen = m.cenv || (have_cen && m.touch);
        }
        if (o.srst) {
            m.ports += ",\n  input logic srst";
            if (r.chance(25)) m.srstv = &g.port(PortDirection::In, "srst", 1, r.chance(50) ? PortType::Reset : PortType::Data);
        }
    }
    // what reaches the ports clk_en and srst of an instance
    void gates(Mod& m, Mod& c, const std::function<void(const std::string&, const std::string&)>& con) {
        if (o.cen) {
            std::string src = m.cen ? "clk_en" : "1'h0";
            if (c.cenv) {
                uint32_t k = r.below(3);
                if (k == 0 && m.cenv) {
                    m.g->wire(*c.cenv, *m.cenv);
                } else if (k == 1 || (k == 0 && !m.cenv)) {
                    auto e = ex(m, m.avail, 1, false, 1);
                    m.g->wire(*c.cenv, *e.v->cast(VarCastType::ClockEnable));
                    src = e.t;
                    feat["private_enable"]++;
                } else {
                    bool v = r.chance(50);
                    m.g->wire(*c.cenv, Const::constant(v, 1, false));
                    if (!m.cen || !c.touch) src = v ? "1'h1" : "1'h0";
                    feat["const_enable"]++;
                }
            }
            con("clk_en", src);
        }
        if (o.srst) {
            std::string src = "srst";
            if (c.srstv) {
                if (r.chance(50)) {
                    m.g->wire(*c.srstv, Const::constant(r.chance(50), 1, false));
                    feat["const_srst"]++;
                } else if (m.srstv && r.chance(50)) {
                    m.g->wire(*c.srstv, *m.srstv);
                    feat["own_srst"]++;
                } else if (r.chance(50)) {
                    auto e = ex(m, m.avail, 1, false, 1);
                    m.g->wire(*c.srstv, *e.v->cast(VarCastType::Reset));
                    src = e.t;
                    feat["private_srst"]++;
                }
            }
            con("srst", src);
        }
    }
    // the golden text of a module whose outputs are delayed by registers
    void pipeline(Mod& m) {
        // without a name it is the first clock
        uint32_t named = m.aux == "aclk" ? 1 + r.below(2) : r.below(3);
        if (named == 1) mark(*m.g, "pipeline_clk", "clk");
        mark(*m.g, "pipeline", std::to_string(m.pipe));
        if (named == 2) mark(*m.g, "pipeline_clk", "clk");
        feat["pipeline" + std::to_string(m.pipe)]++;
        std::string t = "module " + m.gn + " (\n" + m.ports + ");\n", c, ff;
        std::istringstream is(m.ports);
        std::string l;
        while (std::getline(is, l)) {
            // the name is the first identifier after the packed dimensions
            while (!l.empty() && (l.back() == ',' || l.back() == ' ')) l.pop_back();
            auto e = l.size();
            while (e && l[e - 1] == ']') e = l.rfind('[', e) ;
            auto b = l.rfind(' ', e - 1) + 1;
            std::string n = l.substr(b, e - b);
            while (!n.empty() && n.back() == ' ') n.pop_back();
            bool out = l.find("output ") != std::string::npos;
            c += (c.empty() ? "" : ", ") + ("." + n + "(" + n + (out ? "_s0" : "") + ")");
            if (!out) continue;
            std::string d = l.substr(l.find("output ") + 7);
            auto at = d.rfind(n);
            for (uint32_t i = 0; i < m.pipe; i++) {
                t += "  " + d.substr(0, at) + n + "_s" + std::to_string(i) + d.substr(at + n.size()) + ";\n";
                ff += "    " + n + (i + 1 < m.pipe ? "_s" + std::to_string(i + 1) : "") + " <= " + n + "_s" + std::to_string(i) + ";\n";
            }
        }
        golden += t + "  " + m.gn + "_core core (" + c + ");\n  always_ff @(posedge clk) begin\n" + ff + "  end\nendmodule\n";
    }
    void function(Mod& m) {
        auto& g = *m.g;
        Fn f;
        f.name = m.fresh("fn");
        f.w = rwidth();
        f.s = o.is_signed && r.chance(20);
        auto fb = g.function(f.name);
        uint32_t n = r.range(1, 3);
        std::string args;
        std::map<std::string, uint32_t> order;
        for (uint32_t i = 0; i < n; i++) {
            Sg a;
            // distinct from every other name, ordered by declaration
            a.n = f.name + "_a" + std::to_string(i);
            a.w = i == 0 ? f.w : rwidth();
            a.s = i == 0 ? f.s : false;
            a.v = fb->input(a.n, a.w, a.s).get();
            order[a.n] = i;
            args += (i ? ", " : "") + ("input " + decl(a.n, a.w, a.s, {}));
            f.args.push_back(a);
        }
        fb->set_port_ordering(order);
        fb->create_function_handler(f.w, f.s);
        std::string b;
        bool sv = o.dyn_index;
        Mod tmp;
        tmp.g = m.g;
        if (r.chance(40)) {
            auto p = nk(tmp, f.args, 1, false, 1);
            auto st = std::make_shared<IfStmt>(p.v->shared_from_this());
            fb->add_stmt(st);
            auto a = nk(tmp, f.args, f.w, f.s, 2), c = nk(tmp, f.args, f.w, f.s, 2);
            st->add_then_stmt(fb->return_stmt(a.v->shared_from_this()));
            st->add_else_stmt(fb->return_stmt(c.v->shared_from_this()));
            b = "    if (" + p.t + ") begin return " + a.t + "; end\n    else begin return " + c.t + "; end\n";
            feat["function_if"]++;
        } else {
            auto a = nk(tmp, f.args, f.w, f.s, 2);
            fb->add_stmt(fb->return_stmt(a.v->shared_from_this()));
            b = "    return " + a.t + ";\n";
        }
        (void)sv;
        feat["function"]++;
        m.body += "  function automatic " + decl("", f.w, f.s, {}) + f.name + "(" + args + ");\n" + b + "  endfunction\n";
        m.fns.push_back(f);
    }
    void wire(Mod& m) {
        auto t = target(m, "w", false);
        auto e = ex(m, m.avail, t.w, t.s, (int)o.expr_depth);
        m.g->add_stmt(t.v->assign(e.v->shared_from_this()));
        m.body += "  assign " + t.n + " = " + e.t + ";\n";
        m.avail.push_back(t);
        feat["wire"]++;
    }
    void split(Mod& m) {
        // one wire driven in pieces
        uint32_t w = r.range(2, 12);
        auto t = newvar(m, m.fresh("p"), w, false, {}, r.chance(35) ? 2 : 0);
        feat["split_wire"]++;
        if (o.bitwires && r.chance(60)) {
            std::vector<const Sg*> c;
            for (auto& a : m.avail)
                if (!a.s && a.scalar() && a.w == w) c.push_back(&a);
            if (!c.empty()) {
                const Sg src = *c[r.below((uint32_t)c.size())];
                std::vector<uint32_t> perm;
                for (uint32_t i = 0; i < w; i++) perm.push_back(i);
                uint32_t how = r.below(3);
                if (how == 1)
                    for (uint32_t i = w; i > 1; i--) std::swap(perm[i - 1], perm[r.below(i)]);
                if (how == 2) std::swap(perm[0], perm[w - 1]);
                feat[how ? "bit_permutation" : "bit_identity"]++;
                for (uint32_t i = 0; i < w; i++) {
                    m.g->add_stmt((*t.v)[i].assign((*src.v)[perm[i]]));
                    m.body += "  assign " + t.n + "[" + std::to_string(i) + "] = " + src.n + "[" + std::to_string(perm[i]) + "];\n";
                }
                m.avail.push_back(t);
                return;
            }
        }
        uint32_t lo = 0;
        while (lo < w) {
            uint32_t n = r.range(1, w - lo);
            auto e = ex(m, m.avail, n, false, 2);
            auto& l = (*t.v)[{lo + n - 1, lo}];
            m.g->add_stmt(l.assign(e.v->shared_from_this()));
            m.body += "  assign " + t.n + "[" + std::to_string(lo + n - 1) + ":" + std::to_string(lo) + "] = " + e.t + ";\n";
            lo += n;
        }
        m.avail.push_back(t);
    }
    void comb(Mod& m) {
        auto blk = m.g->combinational();
        Blk b{false, AssignmentType::Blocking, "=", {}, m.avail};
        uint32_t n = r.range(1, 3);
        for (uint32_t i = 0; i < n; i++) b.tg.push_back(target(m, "c", true));
        std::string g = "  always_comb begin\n";
        Add add = [&](std::shared_ptr<Stmt> s) { blk->add_stmt(s); };
        feat["comb"]++;
        if (o.ladder_sets && r.chance(70)) {
            auto at = std::make_shared<Attribute>();
            at->value_str = "merge_if_block";
            blk->add_attribute(at);
        }
        if (o.defaults && r.chance(75)) {
            for (auto& t : b.tg) assign_full(m, b, t, false, add, g, "    ");
            if (o.blocking_rw)
                for (auto& t : b.tg) b.av.push_back(t);
            uint32_t k = r.range(1, 3);
            Here h;
            for (uint32_t i = 0; i < k; i++) stmt(m, b, 3, add, g, "    ", h);
        } else {
            // every branch assigns everything
            auto p = predicate(m, b.av);
            auto st = std::make_shared<IfStmt>(p.v->shared_from_this());
            add(st);
            feat["comb_complete_if"]++;
            g += "    if (" + p.t + ") begin\n";
            for (auto& t : b.tg) assign_full(m, b, t, false, [&](auto s) { st->add_then_stmt(s); }, g, "      ");
            g += "    end else begin\n";
            for (auto& t : b.tg) assign_full(m, b, t, false, [&](auto s) { st->add_else_stmt(s); }, g, "      ");
            g += "    end\n";
        }
        m.body += g + "  end\n";
        for (auto& t : b.tg) m.avail.push_back(t);
    }
    void seqblock(Mod& m, std::vector<Sg>& regs, Sg& clk, Sg& rst) {
        auto blk = m.g->sequential();
        blk->add_condition({EventEdgeType::Posedge, clk.v->shared_from_this()});
        std::string ev = "posedge clk";
        bool rr = m.rst && r.chance(80);
        if (rr && m.rst == 1) {
            blk->add_condition({EventEdgeType::Posedge, rst.v->shared_from_this()});
            ev += ", posedge rst";
        } else if (rr && m.rst == 2) {
            blk->add_condition({EventEdgeType::Negedge, rst.v->shared_from_this()});
            ev += ", negedge rst";
        }
        feat["seq"]++;
        Blk b{true, AssignmentType::NonBlocking, "<=", regs, m.avail};
        b.once = o.single_driver;
        std::string g = "  always_ff @(" + ev + ") begin\n";
        Add add = [&](std::shared_ptr<Stmt> s) { blk->add_stmt(s); };
        std::string in = "    ";
        // the enable guards everything but the reset
        bool gated = o.cen && m.touch && m.cen;
        if (gated && r.chance(15)) {
            mark(*blk, "", "dont_touch");
            gated = false;
            feat["dont_touch_block"]++;
        }
        bool sr = o.srst && rr && (m.rst == 1 || m.rst == 2);
        bool user = gated && m.cenv && r.chance(30);  // the author tests the enable
        if (rr) {
            feat["reset" + std::to_string(m.rst)]++;
            auto p = m.rst == 2 ? (~*rst.v).shared_from_this() : rst.v->shared_from_this();
            std::string pt = m.rst == 2 ? "(~rst)" : "rst";
            if ((o.cen || o.srst) && r.chance(40)) {
                // other ways of saying the same
                if (m.rst == 2 && r.chance(50)) {
                    p = rst.v->r_not().shared_from_this();
                } else {
                    auto& k = Const::constant(m.rst != 2, 1, false);
                    p = rst.v->eq(k).shared_from_this();
                    feat["reset_compared"]++;
                }
            }
            auto st = std::make_shared<IfStmt>(p);
            add(st);
            g += "    if (" + pt + ") begin\n";
            std::string R;
            for (auto& t : regs) assign_full(m, b, t, true, [&](auto s) { st->add_then_stmt(s); }, R, "      ");
            g += R + "    end else begin\n";
            std::string C;
            Add into = [&](auto s) { st->add_else_stmt(s); };
            std::shared_ptr<IfStmt> en;
            if (user) {
                en = std::make_shared<IfStmt>(m.cenv->shared_from_this());
                st->add_else_stmt(en);
                into = [&](auto s) { en->add_then_stmt(s); };
                feat["user_enable"]++;
            }
            bool first = o.over_cen || !gated;
            // the author may have written a synchronous reset already
            if (sr && m.srstv && !(gated && o.over_cen) && !user && r.chance(40)) {
                m.srstv->as<Port>()->set_port_type(PortType::Reset);
                auto si = std::make_shared<IfStmt>(m.srstv->shared_from_this());
                st->add_else_stmt(si);
                C += "      if (srst) begin\n";
                for (auto& t : regs) assign_full(m, b, t, true, [&](auto s) { si->add_then_stmt(s); }, C, "        ");
                C += "      end else begin\n";
                clocked(m, b, regs, [&](auto s) { si->add_else_stmt(s); }, C, "      ");
                C += "      end\n";
                sr = false;
                feat["user_srst"]++;
            } else {
                clocked(m, b, regs, into, C, "      ");
            }
            if (sr) feat[std::string("srst") + (gated ? o.over_cen ? "_over_enable" : "_under_enable" : "")]++;
            if (sr && first) g += "      if (srst) begin\n" + R + "      end else\n";
            if (gated) g += "      if (clk_en)\n";
            if (sr && !first) g += "      if (srst) begin\n" + R + "      end else\n";
            g += "      begin\n" + C + "      end\n    end\n";
            if (gated) feat["gated_reset"]++;
        } else if (gated) {
            g += "    if (clk_en) begin\n";
            std::shared_ptr<IfStmt> en;
            Add into = add;
            if (user) {
                en = std::make_shared<IfStmt>(m.cenv->shared_from_this());
                blk->add_stmt(en);
                into = [&](auto s) { en->add_then_stmt(s); };
                feat["user_enable"]++;
            }
            if (!b.once || user)
                clocked(m, b, regs, into, g, in + "  ");
            else
                for (auto& t : regs) assign_full(m, b, t, false, into, g, in + "  ");
            g += "    end\n";
            feat["gated"]++;
        } else if (b.once) {
            if (r.chance(40)) {
                for (auto& t : regs) assign_full(m, b, t, false, add, g, in);
            } else {
                auto p = predicate(m, b.av);
                auto st = std::make_shared<IfStmt>(p.v->shared_from_this());
                add(st);
                feat["enable"]++;
                g += in + "if (" + p.t + ") begin\n";
                clocked(m, b, regs, [&](auto s) { st->add_then_stmt(s); }, g, in + "  ");
                g += in + "end\n";
                if (r.chance(40)) {
                    g += in + "else begin\n";
                    Here h;
                    stmt(m, b, 2, [&](auto s) { st->add_else_stmt(s); }, g, in + "  ", h);
                    g += in + "end\n";
                }
            }
        } else {
            clocked(m, b, regs, add, g, in);
        }
        m.body += g + "  end\n";
    }
    // every register is driven somewhere, then anything goes
    void clocked(Mod& m, Blk& b, std::vector<Sg>& regs, const Add& add, std::string& g, const std::string& in) {
        Here h;
        for (auto& t : regs) {
            if (r.chance(50)) {
                assign_full(m, b, t, false, add, g, in);
                h.insert(t.n);
            } else {
                auto p = predicate(m, b.av);
                auto st = std::make_shared<IfStmt>(p.v->shared_from_this());
                add(st);
                g += in + "if (" + p.t + ") begin\n";
                assign_full(m, b, t, false, [&](auto s) { st->add_then_stmt(s); }, g, in + "  ");
                g += in + "end\n";
            }
        }
        uint32_t k = r.below(3);
        for (uint32_t i = 0; i < k; i++) stmt(m, b, 2, add, g, in, h);
    }
    void child(Mod& m, uint32_t depth, Sg& clk, Sg& rst) {
        Mod c;
        std::string kname = "mod" + std::to_string(ncount++);
        if (o.same_name_children && r.chance(70)) kname = "shared";
        {
            Opt save = o;
            o.items = std::max<uint32_t>(2, o.items / 2);
            c = module(kname, depth - 1, false);
            o = save;
        }
        if (o.inlines && r.chance(50)) inline_it(c);
        instantiate(m, c, clk, rst);
    }
    void inline_it(Mod& c) {
        auto at = std::make_shared<Attribute>();
        at->value_str = "inline";
        c.g->add_attribute(at);
        feat["inline"]++;
    }
    // ports that belong together; the definition follows from the shape so that modules share it
    void bundle(Mod& m, bool in) {
        uint32_t n = r.range(1, 3), shape = r.below(4);
        std::string id = std::string(in ? "bi" : "bo") + std::to_string(m.uid++);
        PortBundleDefinition def("bdl" + std::to_string(shape) + "_" + std::to_string(n));
        bool flip = r.chance(50);
        std::vector<Sg> ps;
        for (uint32_t i = 0; i < n; i++) {
            Sg x;
            x.n = id + "_" + "f" + std::to_string(i);
            x.w = (shape * 3 + i * 5) % 9 + 1;
            x.s = false;
            if (o.is_signed) x.s = (shape + i) % 4 == 3;
            def.add_definition("f" + std::to_string(i), x.w, 1, x.s, in != flip ? PortDirection::In : PortDirection::Out, PortType::Data);
            ps.push_back(x);
        }
        auto ref = m.g->add_bundle_port_def(id, flip ? def.flip() : def);
        for (uint32_t i = 0; i < n; i++) {
            auto& x = ps[i];
            x.v = &ref->get_port("f" + std::to_string(i));
            x.n = x.v->name;
            m.ports += std::string(m.ports.empty() ? "" : ",\n") + "  " + (in ? "input " : "output ") + decl(x.n, x.w, x.s, {});
            (in ? m.in : m.out).push_back(x);
            if (in)
                m.avail.push_back(x);
            else {
                auto e = ex(m, m.avail, x.w, x.s, 2);
                m.g->add_stmt(x.v->assign(e.v->shared_from_this()));
                m.body += "  assign " + x.n + " = " + e.t + ";\n";
            }
        }
        feat[flip ? "bundle_flipped" : "bundle"]++;
    }
    // a module that only passes its inputs on, or nearly so
    void passthru(Mod& m, Sg& clk, Sg& rst) {
        Mod c;
        c.g = &ctx.generator("pt" + std::to_string(ncount++));
        c.gn = "gm" + std::to_string(gcount++);
        gens.emplace_back(c.g, c.gn);
        c.clk = false;
        if (o.cen || o.srst) {
            gating(c, false);
            if (c.ports[0] == ',') c.ports = c.ports.substr(2);
        }
        uint32_t n = r.range(1, 3), how = r.below(3), odd = r.chance(25) ? r.below(3) : 9;
        bool outs_first = r.chance(50);
        struct Pr {
            Sg i, o;
        };
        std::vector<Pr> ps(n);
        for (auto& p : ps) {
            uint32_t w = rwidth();
            bool s = o.is_signed && r.chance(25);
            auto d = rdims(s, w);
            auto in = c.fresh("a"), on = c.fresh("b");
            if (outs_first) p.o = newvar(c, on, w, s, d, 2);
            p.i = newvar(c, in, w, s, d, 1);
            if (!outs_first) p.o = newvar(c, on, w, s, d, 2);
        }
        std::shared_ptr<CombinationalStmtBlock> blk;
        for (uint32_t i = 0; i < n; i++) {
            auto& p = ps[i];
            auto src = p.i.v->shared_from_this();
            std::string t = p.i.n;
            if (odd == 0 && i == 0 && p.i.scalar() && !p.i.s) {
                src = (~*p.i.v).shared_from_this();
                t = "(~" + t + ")";
            }
            if (odd == 1 && i == 0 && p.i.scalar() && !p.i.s && p.i.w > 1) {
                // the halves are handed on one by one
                for (auto [h, l] : std::vector<std::pair<uint32_t, uint32_t>>{{p.i.w - 1, 1}, {0, 0}}) {
                    c.g->add_stmt((*p.o.v)[{h, l}].assign((*p.i.v)[{h, l}]));
                    std::string x = "[" + std::to_string(h) + ":" + std::to_string(l) + "]";
                    c.body += "  assign " + p.o.n + x + " = " + p.i.n + x + ";\n";
                }
                continue;
            }
            if (how == 0) {
                c.g->add_stmt(p.o.v->assign(src));
                c.body += "  assign " + p.o.n + " = " + t + ";\n";
            } else {
                if (how == 1 || !blk) blk = c.g->combinational();
                blk->add_stmt(p.o.v->assign(src, AssignmentType::Blocking));
                c.body += "  always_comb " + p.o.n + " = " + t + ";\n";
            }
        }
        golden += "module " + c.gn + " (\n" + c.ports + ");\n" + c.decls + c.body + "endmodule\n";
        feat["pass_through"]++;
        instantiate(m, c, clk, rst);
    }
    // several instances of one module, wired to the elements of arrays
    void lanes(Mod& m, Sg& clk, Sg& rst) {
        uint32_t n = r.range(2, 4);
        std::string kname = "lane" + std::to_string(ncount++);
        Opt save = o;
        o.items = r.range(1, 3);
        o.arrays = false;
        o.params = r.chance(30);
        o.bundles = false;
        o.unused = false;
        bool inl = o.inlines && r.chance(30);
        bool clone = save.lane_clones && r.chance(30);
        auto start = r;
        std::vector<Mod> cs;
        for (uint32_t i = 0; i < n; i++) {
            if (i && clone) {
                auto k = cs[0].g->clone();
                keep.push_back(k);
                Mod c = cs[0];
                c.g = k.get();
                for (auto* l : {&c.in, &c.out})
                    for (auto& p : *l) p.v = c.g->get_port(p.n).get();
                cs.push_back(c);
                feat["clone"]++;
                continue;
            }
            if (i) r = start;
            cs.push_back(module(kname, 0, false));
            if (inl && !clone) inline_it(cs.back());
        }
        o = save;
        // what every port is wired to
        feat["lanes"]++;
        std::vector<std::string> names, conn(n);
        for (uint32_t i = 0; i < n; i++) names.push_back(m.fresh("lane_"));
        for (uint32_t i = 0; i < n; i++) m.g->add_child_generator(names[i], cs[i].g->shared_from_this());
        auto con = [&](uint32_t i, const std::string& p, const std::string& t) { conn[i] += (conn[i].empty() ? "" : ", ") + ("." + p + "(" + t + ")"); };
        auto& g = *m.g;
        bool regular = r.chance(60);
        auto order = [&]() {
            std::vector<uint32_t> p;
            for (uint32_t i = 0; i < n; i++) p.push_back(i);
            if (!regular && r.chance(50))
                for (uint32_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
            return p;
        };
        if (cs[0].clk)
            for (uint32_t i = 0; i < n; i++) {
                g.wire(*cs[i].g->get_port("clk"), *clk.v);
                con(i, "clk", "clk");
            }
        if (!cs[0].aux.empty())
            for (uint32_t i = 0; i < n; i++) {
                auto e = ex(m, m.avail, 1, false, 1);
                g.wire(*cs[i].g->get_port(cs[0].aux), *e.v->cast(VarCastType::Clock));
                con(i, cs[0].aux, e.t);
            }
        if (cs[0].rst)
            for (uint32_t i = 0; i < n; i++) {
                if (m.rst == cs[0].rst) {
                    g.wire(*cs[i].g->get_port("rst"), *rst.v);
                    con(i, "rst", "rst");
                } else {
                    g.wire(*cs[i].g->get_port("rst"), Const::constant(cs[0].rst == 2, 1, false));
                    con(i, "rst", lit(1, cs[0].rst == 2));
                }
            }
        for (uint32_t i = 0; i < n; i++) gates(m, cs[i], [&](const std::string& p, const std::string& t) { con(i, p, t); });
        for (size_t k = 0; k < cs[0].in.size(); k++) {
            auto& p = cs[0].in[k];
            uint32_t how = r.below(regular ? 4 : 5);
            if (p.s) how = 4;
            const Sg* same = nullptr;
            for (auto& a : m.avail)
                if (a.scalar() && a.w == p.w && a.s == p.s && r.chance(50)) same = &a;
            if (how == 3 && !same) how = 0;
            std::vector<uint32_t> pm = order();
            Sg arr;
            if (how < 3) {
                bool vec = p.w == 1 && r.chance(50);
                arr = newvar(m, m.fresh("la"), vec ? n : p.w, false, vec ? std::vector<uint32_t>{} : std::vector<uint32_t>{n}, 0);
                for (uint32_t i = 0; i < n; i++) {
                    auto q = ex(m, m.avail, p.w, false, 1);
                    g.add_stmt((*arr.v)[i].assign(q.v->shared_from_this()));
                    m.body += "  assign " + arr.n + "[" + std::to_string(i) + "] = " + q.t + ";\n";
                }
            }
            for (uint32_t i = 0; i < n; i++) {
                auto& port = *cs[i].in[k].v;
                if (how < 3) {
                    g.add_stmt(port.assign((*arr.v)[pm[i]]));
                    con(i, p.n, arr.n + "[" + std::to_string(pm[i]) + "]");
                } else {
                    Ex e = how == 3 ? Ex{same->v, same->n, same->w, same->s, false} : ex(m, m.avail, p.w, p.s, 1);
                    g.add_stmt(port.assign(e.v->shared_from_this()));
                    con(i, p.n, e.t);
                }
            }
            if (how < 3) m.avail.push_back(arr);
        }
        for (size_t k = 0; k < cs[0].out.size(); k++) {
            auto& p = cs[0].out[k];
            std::vector<uint32_t> pm = order();
            if (p.s || (!regular && r.chance(30))) {
                for (uint32_t i = 0; i < n; i++) {
                    auto t = newvar(m, m.fresh("x"), p.w, p.s, p.d, 0);
                    t.v->set_is_packed(p.v->is_packed());
                    g.add_stmt(t.v->assign(cs[i].out[k].v->shared_from_this()));
                    con(i, p.n, t.n);
                    m.avail.push_back(t);
                }
                continue;
            }
            bool vec = p.w == 1 && r.chance(50);
            auto arr = newvar(m, m.fresh("lb"), vec ? n : p.w, false, vec ? std::vector<uint32_t>{} : std::vector<uint32_t>{n}, 0);
            for (uint32_t i = 0; i < n; i++) {
                g.add_stmt((*arr.v)[pm[i]].assign(cs[i].out[k].v->shared_from_this()));
                con(i, p.n, arr.n + "[" + std::to_string(pm[i]) + "]");
            }
            m.avail.push_back(arr);
        }
        for (uint32_t i = 0; i < n; i++) m.body += "  " + cs[i].gn + " " + names[i] + " (" + conn[i] + ");\n";
    }
    std::map<Generator*, std::vector<Sg>> kwires;
    void instantiate(Mod& m, Mod& c, Sg& clk, Sg& rst) {
        std::string inst = m.fresh("inst");
        auto& g = *m.g;
        if (o.clash)  // names that other designs use as well
            for (uint32_t i = 0; i < 4; i++)
                if (!g.has_child_generator("u" + std::to_string(i))) {
                    inst = "u" + std::to_string(i);
                    break;
                }
        g.add_child_generator(inst, c.g->shared_from_this());
        feat["instance"]++;
        std::string conn;
        auto con = [&](const std::string& p, const std::string& t) { conn += (conn.empty() ? "" : ", ") + ("." + p + "(" + t + ")"); };
        if (c.clk) {
            g.wire(*c.g->get_port("clk"), *clk.v);
            con("clk", "clk");
        }
        if (!c.aux.empty()) {
            auto e = ex(m, m.avail, 1, false, 1);
            g.wire(*c.g->get_port(c.aux), *e.v->cast(VarCastType::Clock));
            con(c.aux, e.t);
        }
        if (c.rst) {
            if (m.rst && m.rst == c.rst) {
                g.wire(*c.g->get_port("rst"), *rst.v);
                con("rst", "rst");
            } else {
                // no matching reset upstream: tie it off inactive
                auto& k = Const::constant(c.rst == 2, 1, false);
                g.wire(*c.g->get_port("rst"), k);
                con("rst", lit(1, c.rst == 2));
            }
        }
        gates(m, c, con);
        if (o.clash)
            for (auto* l : {&c.in, &c.out})
                for (auto& p : *l) {
                    if (!r.chance(25)) continue;
                    uint32_t n = r.chance(70) ? 1 : 2;
                    for (uint32_t i = 0; i < n; i++) {
                        auto nm = inst + "_" + p.n + (i ? "_0" : "");
                        if (g.has_var(nm)) continue;
                        auto t = newvar(m, nm, rwidth(), false, {}, 0);
                        auto e = ex(m, m.avail, t.w, false, 1);
                        g.add_stmt(t.v->assign(e.v->shared_from_this()));
                        m.body += "  assign " + t.n + " = " + e.t + ";\n";
                        m.avail.push_back(t);
                        feat["name_clash"]++;
                    }
                }
        for (auto& p : c.in) {
            Ex e;
            if (!p.scalar()) {
                const Sg* match = nullptr;
                for (auto& a : m.avail)
                    if (a.d == p.d && a.w == p.w && a.s == p.s && a.v->is_packed()) match = &a;
                if (!match) {
                    auto t = newvar(m, m.fresh("ca"), p.w, p.s, p.d, 0);
                    t.v->set_is_packed(true);
                    for (uint32_t i = 0; i < p.d[0]; i++) {
                        if (p.d.size() == 1) {
                            auto q = ex(m, m.avail, p.w, false, 1);
                            g.add_stmt((*t.v)[i].assign(q.v->shared_from_this()));
                            m.body += "  assign " + t.n + "[" + std::to_string(i) + "] = " + q.t + ";\n";
                        } else {
                            for (uint32_t j = 0; j < p.d[1]; j++) {
                                auto q = ex(m, m.avail, p.w, false, 1);
                                g.add_stmt((*t.v)[i][j].assign(q.v->shared_from_this()));
                                m.body += "  assign " + t.n + "[" + std::to_string(i) + "][" + std::to_string(j) + "] = " + q.t + ";\n";
                            }
                        }
                    }
                    m.avail.push_back(t);
                    e = {t.v, t.n, p.total(), false, false};
                } else {
                    e = {match->v, match->n, p.total(), false, false};
                }
                feat["array_port"]++;
            } else if (r.chance(12)) {
                uint64_t v = r.next() & mask(std::min<uint32_t>(p.w, 16));
                if (p.s) {
                    e = konst(p.w, true);
                } else {
                    e = {&Const::constant((int64_t)v, p.w, false), lit(p.w, v), p.w, false, true};
                }
                feat["const_port"]++;
            } else if (o.const_wires && !p.s && r.chance(40)) {
                auto& pool = kwires[m.g];
                const Sg* k = nullptr;
                for (auto& x : pool)
                    if (x.w == p.w && r.chance(75)) k = &x;
                if (!k) {
                    uint64_t v = r.next() & mask(std::min<uint32_t>(p.w, 16));
                    auto t = newvar(m, m.fresh("kw"), p.w, false, {}, 0);
                    auto& kv = Const::constant((int64_t)v, p.w, false);
                    if (r.chance(75)) {
                        g.add_stmt(t.v->assign(kv));
                        m.body += "  assign " + t.n + " = " + lit(p.w, v) + ";\n";
                    } else {
                        g.combinational()->add_stmt(t.v->assign(kv, AssignmentType::Blocking));
                        m.body += "  always_comb " + t.n + " = " + lit(p.w, v) + ";\n";
                    }
                    pool.push_back(t);
                    if (r.chance(25)) m.avail.push_back(t);
                    k = &pool.back();
                } else
                    feat["const_wire_shared"]++;
                feat["const_wire"]++;
                e = {k->v, k->n, p.w, false, false};
            } else {
                e = ex(m, m.avail, p.w, p.s, r.chance(50) ? 0 : 2);
            }
            if (o.direct_ports && p.scalar() && !p.s && p.w > 1 && r.chance(20)) {
                // driven in two parts
                auto t = m.fresh("dp");
                uint32_t lo = r.range(1, p.w - 1);
                m.decls += "  " + decl(t, p.w, false, {}) + ";\n";
                for (auto [h, l] : std::vector<std::pair<uint32_t, uint32_t>>{{p.w - 1, lo}, {lo - 1, 0}}) {
                    auto q = ex(m, m.avail, h - l + 1, false, 1);
                    g.add_stmt((*p.v)[{h, l}].assign(q.v->shared_from_this()));
                    m.body += "  assign " + t + "[" + std::to_string(h) + ":" + std::to_string(l) + "] = " + q.t + ";\n";
                }
                con(p.n, t);
                feat["port_in_parts"]++;
                continue;
            }
            if (o.direct_ports && p.scalar() && !p.s && p.n[0] != 'b' && r.chance(15)) {
                // driven by a process
                auto t = m.fresh("dp");
                m.decls += "  " + decl(t, p.w, false, {}) + ";\n";
                auto blk = g.combinational();
                auto pr = predicate(m, m.avail);
                auto a = ex(m, m.avail, p.w, false, 1), b = ex(m, m.avail, p.w, false, 1);
                auto st = std::make_shared<IfStmt>(pr.v->shared_from_this());
                st->add_then_stmt(p.v->assign(a.v->shared_from_this(), AssignmentType::Blocking));
                st->add_else_stmt(p.v->assign(b.v->shared_from_this(), AssignmentType::Blocking));
                blk->add_stmt(st);
                m.body += "  always_comb if (" + pr.t + ") " + t + " = " + a.t + "; else " + t + " = " + b.t + ";\n";
                con(p.n, t);
                feat["port_from_process"]++;
                continue;
            }
            g.add_stmt(p.v->assign(e.v->shared_from_this()));
            con(p.n, e.t);
        }
        for (auto& p : c.out) {
            if (r.chance(6)) {
                con(p.n, "");
                feat["unconnected_output"]++;
                continue;
            }
            if (o.direct_ports && r.chance(35)) {
                // the port itself is read
                auto t = p;
                t.n = m.fresh("d");
                m.decls += "  " + decl(t.n, p.w, p.s, p.d) + ";\n";
                con(p.n, t.n);
                m.avail.push_back(t);
                feat["port_read"]++;
                continue;
            }
            auto t = newvar(m, m.fresh("x"), p.w, p.s, p.d, r.chance(25) ? 2 : 0);
            t.v->set_is_packed(p.v->is_packed());
            g.add_stmt(t.v->assign(p.v->shared_from_this()));
            con(p.n, t.n);
            m.avail.push_back(t);
        }
        m.body += "  " + c.gn + " " + inst + " (" + conn + ");\n";
    }
};
}  // namespace rd
