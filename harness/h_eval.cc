// C05: the constant evaluator against arbitrary-precision arithmetic
#include "drv.hh"
#include "eval.hh"
#include "sim.hh"
#include "rdesign.hh"
using namespace kratos;
typedef __int128 I;
typedef unsigned __int128 U;

static U maskw(uint32_t w) { return (((U)1) << w) - 1; }
static I sgn(uint64_t v, uint32_t w) { return (v >> (w - 1)) & 1 ? (I)v - (((I)1) << w) : (I)v; }

struct Op {
    ExprOp op;
    const char* n;
};
static const Op BIN[] = {{ExprOp::Add, "+"}, {ExprOp::Minus, "-"}, {ExprOp::Multiply, "*"}, {ExprOp::Divide, "/"}, {ExprOp::Mod, "%"}, {ExprOp::And, "&"},
                         {ExprOp::Or, "|"}, {ExprOp::Xor, "^"}, {ExprOp::Eq, "=="}, {ExprOp::Neq, "!="}, {ExprOp::LAnd, "&&"}, {ExprOp::LOr, "||"},
                         {ExprOp::LessThan, "<"}, {ExprOp::LessEqThan, "<="}, {ExprOp::GreaterThan, ">"}, {ExprOp::GreaterEqThan, ">="},
                         {ExprOp::ShiftLeft, "<<"}, {ExprOp::LogicalShiftRight, ">>"}, {ExprOp::SignedShiftRight, ">>>"}, {ExprOp::Power, "**"}};
static const Op UN[] = {{ExprOp::UMinus, "-"}, {ExprOp::UPlus, "+"}, {ExprOp::UInvert, "~"}, {ExprOp::UNot, "!"}, {ExprOp::UAnd, "&"}, {ExprOp::UOr, "|"}, {ExprOp::UXor, "^"}};

static uint64_t ref_bin(ExprOp op, uint64_t a, uint64_t b, uint32_t w, bool s) {
    I x = s ? sgn(a, w) : (I)a, y = s ? sgn(b, w) : (I)b, r = 0;
    switch (op) {
        case ExprOp::Add: r = x + y; break;
        case ExprOp::Minus: r = x - y; break;
        case ExprOp::Multiply: r = (I)((U)x * (U)y); break;
        case ExprOp::Divide: r = x / y; break;
        case ExprOp::Mod: r = x % y; break;
        case ExprOp::And: r = (I)(a & b); break;
        case ExprOp::Or: r = (I)(a | b); break;
        case ExprOp::Xor: r = (I)(a ^ b); break;
        case ExprOp::Eq: r = a == b; break;
        case ExprOp::Neq: r = a != b; break;
        case ExprOp::LAnd: r = a && b; break;
        case ExprOp::LOr: r = a || b; break;
        case ExprOp::LessThan: r = x < y; break;
        case ExprOp::LessEqThan: r = x <= y; break;
        case ExprOp::GreaterThan: r = x > y; break;
        case ExprOp::GreaterEqThan: r = x >= y; break;
        // the amount of a shift is always unsigned
        case ExprOp::ShiftLeft: r = b >= w ? 0 : (I)((U)a << b); break;
        case ExprOp::LogicalShiftRight: r = b >= w ? 0 : (I)(a >> b); break;
        case ExprOp::SignedShiftRight: r = x >> (b >= 100 ? 100 : b); break;
        case ExprOp::Power: {
            U p = 1;
            for (uint64_t i = 0; i < b; i++) p = (p * a) & maskw(w);
            r = (I)p;
            break;
        }
        default: break;
    }
    return (uint64_t)((U)r & maskw(w));
}

static uint64_t pick(rd::Rng& r, uint32_t w) {
    uint64_t m = (uint64_t)maskw(w), v;
    switch (r.below(6)) {
        case 0: v = 0; break;
        case 1: v = m; break;
        case 2: v = 1ull << (w - 1); break;
        case 3: v = (1ull << (w - 1)) - 1; break;
        case 4: v = r.below(w + 3); break;
        default: v = r.next();
    }
    if (r.chance(15)) v += r.chance(50) ? 1 : -1;
    return v & m;
}

static void ops(drv::Case& c) {
    rd::Rng r(c.a.seed * 31337 + c.i);
    uint32_t w = c.i % 64 + 1;
    uint64_t m = (uint64_t)maskw(w);
    auto one = [&](uint64_t a, uint64_t b) {
        for (bool s : {false, true}) {
            for (auto& o : BIN) {
                if (!b && (o.op == ExprOp::Divide || o.op == ExprOp::Mod)) continue;
                if (o.op == ExprOp::Power && (s || b > 70)) continue;
                auto got = eval_bin_op(a, b, o.op, w, s);
                auto want = ref_bin(o.op, a, b, w, s);
                c.st.add("binary");
                if (got != want) {
                    c.violation("value", std::string(s ? "signed " : "") + std::to_string(w) + "'d" + std::to_string(a) + " " + o.n + " " + std::to_string(b) + " is " +
                                             std::to_string(got) + " instead of " + std::to_string(want));
                    return false;
                }
            }
        }
        for (auto& o : UN) {
            uint64_t want = 0;
            switch (o.op) {
                case ExprOp::UMinus: want = (uint64_t)((U)(-(I)a) & maskw(w)); break;
                case ExprOp::UPlus: want = a; break;
                case ExprOp::UInvert: want = ~a & m; break;
                case ExprOp::UNot: want = !a; break;
                case ExprOp::UAnd: want = a == m; break;
                case ExprOp::UOr: want = a != 0; break;
                default:
                    for (uint32_t i = 0; i < w; i++) want ^= (a >> i) & 1;
            }
            auto got = eval_unary_op(a, o.op, w);
            c.st.add("unary");
            if (got != want) {
                c.violation("value", std::string(o.n) + " " + std::to_string(w) + "'d" + std::to_string(a) + " is " + std::to_string(got) + " instead of " + std::to_string(want));
                return false;
            }
        }
        uint64_t raw = r.next();
        if (truncate(raw, w) != (raw & m) || invert(a, w) != (~a & m) || eval_ternary_op(true, a, b, w) != a || eval_ternary_op(false, a, b, w) != b) {
            c.violation("value", "truncation, inversion or selection at width " + std::to_string(w));
            return false;
        }
        c.st.see(std::to_string(w) + ":" + std::to_string(a) + ":" + std::to_string(b));
        return true;
    };
    if (w <= 5) {
        for (uint64_t a = 0; a <= m; a++)
            for (uint64_t b = 0; b <= m; b++)
                if (!one(a, b)) return;
        c.st.add("exhaustive_widths");
    }
    for (int i = 0; i < 300; i++)
        if (!one(pick(r, w), pick(r, w))) return;
    c.st.sample("width " + std::to_string(w));
}

// expression trees over constants, evaluated through the library's static evaluation
static void trees(drv::Case& c) {
    rd::Rng r(c.a.seed * 104729 + c.i);
    Context ctx;
    auto& g = ctx.generator("g");
    struct N {
        std::shared_ptr<Var> v;
        uint64_t x;
    };
    for (int t = 0; t < 20; t++) {
        uint32_t w = r.range(1, 63);
        int np = 0;
        std::function<N(int)> gen = [&](int d) -> N {
            if (d == 0 || r.chance(20)) {
                uint64_t x = pick(r, w);
                if (x >> 62) x = (x & ((1ull << 62) - 1));
                if (r.chance(40)) {
                    auto& p = g.parameter("p" + std::to_string(t) + "_" + std::to_string(np++), w);
                    p.set_value((int64_t)x);
                    return {p.shared_from_this(), x};
                }
                return {constant((int64_t)x, w).shared_from_this(), x};
            }
            switch (r.below(4)) {
                case 0: {
                    auto n = gen(d - 1);
                    auto& o = UN[r.below(3)];
                    uint64_t x = o.op == ExprOp::UMinus ? -n.x : o.op == ExprOp::UPlus ? n.x : ~n.x;
                    x &= (uint64_t)maskw(w);
                    auto& e = o.op == ExprOp::UMinus ? -(*n.v) : o.op == ExprOp::UPlus ? +(*n.v) : ~(*n.v);
                    return {e.shared_from_this(), x};
                }
                case 1: {
                    auto a = gen(d - 1), b = gen(d - 1), p = gen(d - 1);
                    auto& cnd = *p.v > *b.v;
                    return {std::shared_ptr<Var>(util::mux(cnd, *a.v, *b.v)), p.x > b.x ? a.x : b.x};
                }
                default: {
                    auto a = gen(d - 1), b = gen(d - 1);
                    switch (r.below(9)) {
                        case 0: return {(*a.v + *b.v).shared_from_this(), ref_bin(ExprOp::Add, a.x, b.x, w, false)};
                        case 1: return {(*a.v - *b.v).shared_from_this(), ref_bin(ExprOp::Minus, a.x, b.x, w, false)};
                        case 2: return {(*a.v * *b.v).shared_from_this(), ref_bin(ExprOp::Multiply, a.x, b.x, w, false)};
                        case 3:
                            if (!b.x) return a;
                            return {(*a.v / *b.v).shared_from_this(), a.x / b.x};
                        case 4: return {(*a.v & *b.v).shared_from_this(), a.x & b.x};
                        case 5: return {(*a.v | *b.v).shared_from_this(), a.x | b.x};
                        case 6: return {(*a.v ^ *b.v).shared_from_this(), a.x ^ b.x};
                        case 7: return {(*a.v << *b.v).shared_from_this(), ref_bin(ExprOp::ShiftLeft, a.x, b.x, w, false)};
                        default: return {(*a.v >> *b.v).shared_from_this(), ref_bin(ExprOp::LogicalShiftRight, a.x, b.x, w, false)};
                    }
                }
            }
        };
        auto n = gen(r.range(1, 4));
        c.st.add("trees");
        uint64_t got = 0;
        bool refused = false;
        try {
            got = Simulator::static_evaluate_expr(n.v.get());
        } catch (const UserException& e) {
            refused = true;
        }
        bool positive = (int64_t)n.x > 0;
        if (refused != !positive || (!refused && got != n.x)) {
            return c.violation("tree", n.v->to_string() + " at width " + std::to_string(w) + (refused ? " is refused" : " is " + std::to_string(got)) + " instead of " + std::to_string(n.x));
        }
        if (!refused) c.st.see(n.v->to_string());
    }
}

int main(int argc, char** argv) { return drv::run(argc, argv, {{"ops", ops}, {"trees", trees}}); }
