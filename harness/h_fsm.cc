// State machines: what is described through the API is what the emitted logic does.
#include "drv.hh"
#include "equiv.hh"
#include "fsmgen.hh"
#include "pipeline.hh"

using namespace rd;
// the graph and the table say what was described
static void pictures(drv::Case& c, Machine& x) {
    std::istringstream d(x.top->dot_graph());
    std::string l;
    std::multiset<std::string> nodes, edges, wn, we;
    std::string start;
    while (std::getline(d, l)) {
        auto a = l.find("label=\"");
        if (l.find("node [") != std::string::npos && a != std::string::npos) {
            auto e = l.find('"', a + 7);
            auto n = l.substr(a + 7, e - a - 7);
            auto id = l.substr(l.rfind(' ') + 1);
            if (id != n + ";") return c.violation("graph", "node line is inconsistent: " + l);
            nodes.insert(n);
            if (l.find("doublecircle") != std::string::npos) start = n;
        } else if (l.find("->") != std::string::npos) {
            std::string s;
            std::istringstream q(l);
            std::string from, arrow, to;
            q >> from >> arrow >> to;
            if (!to.empty() && to.back() == ';') to.pop_back();
            auto lb = l.find("label = \"");
            std::string cond = lb == std::string::npos ? "" : l.substr(lb + 9, l.rfind('"') - lb - 9);
            edges.insert(from + " -> " + to + " : " + cond);
        }
    }
    // states of nested machines count once they can be reached
    std::set<int> reach;
    std::vector<int> todo;
    for (size_t i = 0; i < x.st.size(); i++)
        if (x.st[i].f == x.top) todo.push_back(i);
    while (!todo.empty()) {
        int k = todo.back();
        todo.pop_back();
        if (!reach.insert(k).second) continue;
        for (auto& t : x.st[k].tr) todo.push_back(t.second);
    }
    for (int k : reach) {
        wn.insert(x.st[k].name);
        for (auto& t : x.st[k].tr) we.insert(x.st[k].name + " -> " + x.st[t.second].name + " : " + (t.first.v ? t.first.v->to_string() : ""));
    }
    auto show = [](const std::multiset<std::string>& a, const std::multiset<std::string>& b) {
        std::string s;
        for (auto& i : a)
            if (!b.count(i)) s += " [" + i + "]";
        return s;
    };
    if (nodes != wn) return c.violation("graph", "states in the graph differ: missing" + show(wn, nodes) + " extra" + show(nodes, wn));
    if (edges != we) return c.violation("graph", "transitions in the graph differ: missing" + show(we, edges) + " extra" + show(edges, we));
    if (start != x.st[x.start].name) return c.violation("graph", "start state in the graph is " + start);
    c.st.add("graphs");
    // table: one line per state of the machine, one column per output
    std::istringstream tb(x.top->output_table());
    auto split = [](const std::string& s) {
        std::vector<std::string> v;
        std::string cur;
        int dep = 0;
        for (char ch : s) {
            if (ch == '{' || ch == '(') dep++;
            if (ch == '}' || ch == ')') dep--;
            if (ch == ',' && !dep) {
                v.push_back(cur);
                cur.clear();
            } else
                cur += ch;
        }
        v.push_back(cur);
        return v;
    };
    std::getline(tb, l);
    auto head = split(l);
    std::set<std::string> seen;
    if (head.size() != x.outs.size() + 1) return c.violation("table", "header is " + l);
    while (std::getline(tb, l)) {
        auto row = split(l);
        if (row.size() != head.size()) return c.violation("table", "row has a different number of columns: " + l);
        St* s = nullptr;
        for (auto& y : x.st)
            if (y.f == x.top && y.p->name() == row[0]) s = &y;
        if (!s || !seen.insert(row[0]).second) return c.violation("table", "unexpected row " + l);
        for (size_t i = 0; i < x.outs.size(); i++) {
            auto col = std::find(head.begin(), head.end(), x.outs[i].n) - head.begin();
            if (col == (long)head.size()) return c.violation("table", "no column for " + x.outs[i].n);
            auto want = !s->out[i].first ? x.outs[i].n : s->out[i].second.v ? s->out[i].second.v->to_string() : s->p->output_values().at(x.outs[i].v)->to_string();
            if (row[col] != want) return c.violation("table", "state " + row[0] + " output " + x.outs[i].n + " is " + row[col] + " instead of " + want);
        }
    }
    size_t n = 0;
    for (auto& y : x.st) n += y.f == x.top;
    if (seen.size() != n) return c.violation("table", "rows are missing");
    c.st.add("tables");
}
static void run(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Opt o;
    o.items = r.below(4);
    o.child_depth = r.chance(30);
    o.expr_depth = r.range(1, 2);
    o.max_width = r.chance(70) ? 8 : 72;
    o.arrays = r.chance(30);
    o.rst = r.range(1, 2);
    o.safe_div = o.safe_index = true;
    bool latches = r.chance(15), manual = r.chance(25);
    bool shared = false;
    Context ctx;
    Builder b(r, o, ctx);
    std::vector<Machine> ms;
    b.extra = [&](Mod& m, Sg& clk, Sg& rst) {
        if (m.rst != 1 && m.rst != 2) return;
        uint32_t n = r.range(1, 2);
        for (uint32_t i = 0; i < n; i++) ms.push_back(make(b, m, clk, rst, latches, manual && r.chance(50), shared));
    };
    Mod m = b.module("top", o.child_depth, true);
    auto p = pl::P::random(r);
    p.check_latch = !latches;
    p.check_loop = false;
    if (c.a.show) std::cerr << "// passes: " << p.str() << "\n" << b.golden << "\n//--------\n";
    uint32_t when = r.below(3);
    if (when == 0)
        for (auto& x : ms) pictures(c, x);
    std::string text;
    try {
        if (when == 1) realize_fsm(m.g);
        if (when == 1)
            for (auto& x : ms) pictures(c, x);
        text = pl::emit(*m.g, pl::sequence(p));
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal state machine is refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << text << "\n";
    if (when == 2)
        for (auto& x : ms) pictures(c, x);
    if (c.bad) return;
    if (ms.empty()) {
        c.st.add("no_fsm");
        return;
    }
    auto res = eq::compare(b.golden, m.gn, text, m.g->name, eq::spec_of(m), r, 40, true, true);
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
    for (auto& f : b.feat)
        if (f.first.rfind("fsm.", 0) == 0) c.st.add(f.first, f.second);
    if (res.toggles) c.st.see(b.golden);
    c.st.sample(b.golden);
}
// incomplete or contradictory machines are refused
static void refuse(drv::Case& c) {
    Rng r(c.a.seed * 1000003 + c.i);
    Context ctx;
    auto& g = ctx.generator("top");
    auto& clk = g.port(PortDirection::In, "clk", 1, PortType::Clock);
    auto& rst = g.port(PortDirection::In, "rst", 1, PortType::AsyncReset);
    auto& in = g.port(PortDirection::In, "in", r.range(2, 8));
    auto& oo = g.port(PortDirection::Out, "oo", r.range(1, 8));
    auto& o2 = g.port(PortDirection::Out, "o2", r.range(1, 8));
    static const std::vector<const char*> kinds = {"none", "second unconditional transition", "conditional transition after an unconditional one", "condition used twice", "wide condition", "state without transitions",
                                                   "output missing in a state", "output that the machine does not have", "no start state", "state added twice", "output given twice in a state",
                                                   "next state of another machine", "no next state", "no states", "unknown state"};
    uint32_t k = r.chance(25) ? 0 : r.below(kinds.size());
    uint32_t n = k == 13 ? 0 : r.range(1, 5), at = n ? r.below(n) : 0;
    std::string what;
    bool threw = false;
    bool nested = r.chance(30);
    std::string sig = std::to_string(k) + "/" + std::to_string(n) + "/" + std::to_string(at) + (nested ? "n" : "");
    try {
        auto& f = g.fsm("F", clk.shared_from_this(), rst.shared_from_this());
        auto& q = g.fsm("Q", clk.shared_from_this(), rst.shared_from_this());
        auto& sub = !nested ? f : g.fsm("Sub", clk.shared_from_this(), rst.shared_from_this());
        bool moore = r.chance(60);
        f.set_moore(moore);
        if (nested) f.add_child_fsm(&sub);
        auto foreign = q.add_state("qs");
        foreign->next(foreign, nullptr);
        q.set_start_state(foreign);
        std::vector<std::shared_ptr<FSMState>> st;
        f.output(oo.shared_from_this());
        if (nested) sub.output(oo.shared_from_this());
        bool def = k != 6 && r.chance(40);
        if (def) {
            auto& dv = Const::constant(1, o2.width(), false);
            f.output(o2.shared_from_this(), dv.shared_from_this());
            if (nested) sub.output(o2.shared_from_this(), dv.shared_from_this());
        } else {
            f.output(o2.shared_from_this());
            if (nested) sub.output(o2.shared_from_this());
        }
        std::vector<std::shared_ptr<Var>> keep;
        for (uint32_t i = 0; i < n; i++) st.push_back((i && nested && r.chance(50) ? sub : f).add_state("s" + std::to_string(i)));
        for (uint32_t i = 0; i < n; i++) {
            auto& s = st[i];
            uint32_t nt = r.range(0, 3);
            bool bad = i == at;
            std::shared_ptr<Var> last;
            if (!(bad && k == 5)) {
                if (bad && (k == 3)) nt = std::max(nt, 1u);
                for (uint32_t j = 0; j < nt; j++) {
                    last = in.eq(Const::constant((int64_t)j, in.width(), false)).shared_from_this();
                    s->next(st[(i + j + 1) % n], last);
                }
                if (bad && k == 3) s->next(st[i], last);
                if (bad && k == 4) s->next(st[i], in.shared_from_this());
                if (bad && k == 11) s->next(foreign, in[0].shared_from_this());
                if (bad && k == 12) s->next(nullptr, in[0].shared_from_this());
                if (bad && k == 14) s->next(f.get_state("nowhere"), in[0].shared_from_this());
                s->next(st[(i + 1) % n], nullptr);
                if (bad && k == 1) s->next(st[r.below(n)], nullptr);
                if (bad && k == 2) s->next(st[r.below(n)], in[0].shared_from_this());
            }
            s->output(oo.shared_from_this(), (int64_t)(i & 1));
            if (!(bad && k == 6) && !(def && r.chance(50))) s->output(o2.shared_from_this(), in[0].extend(o2.width()).shared_from_this());
            if (bad && k == 7) s->output(g.var("zz", 4).shared_from_this(), 3);
            if (bad && k == 9) (s->parent() == &f ? f : sub).add_state("s" + std::to_string(i));
            if (bad && k == 10) s->output(oo.shared_from_this(), 0);
        }
        if (k != 8 && n) f.set_start_state(st[0]);
        // states of a nested machine only matter when they can be reached: the ring above reaches all
        realize_fsm(&g);
        fix_assignment_type(&g);
        generate_verilog(&g);
    } catch (const std::exception& e) {
        threw = true;
        what = e.what();
    }
    c.st.add(std::string(k ? "refuse." : "accept.") + kinds[k]);
    // a lone state that only refers to itself needs no start
    if (threw != (k != 0)) return c.violation(k ? "accepted" : "refused", k ? std::string("a state machine with a defect is accepted: ") + kinds[k] : "a legal state machine is refused: " + what);
    c.st.see(sig);
}
int main(int argc, char** argv) { return drv::run(argc, argv, {{"fsm", run}, {"refuse", refuse}}); }
