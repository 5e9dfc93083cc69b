// The ways to write a design out: strings with any options, comments and source attributes, packages with one file per module, flattened wrappers.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "drv.hh"
#include "equiv.hh"
#include "typedgen.hh"
using namespace rd;

namespace {
struct Des {
    std::shared_ptr<Context> ctx = std::make_shared<Context>();
    Generator* top = nullptr;
    std::string ref, refname, text;
    eq::Spec spec;
    std::vector<Sg> in, out;
    std::vector<std::shared_ptr<void>> keep;
};
void gens(Generator* g, std::set<Generator*>& s) {
    if (!s.insert(g).second) return;
    for (auto& c : g->get_child_generators()) gens(c.get(), s);
}
void stmts(Stmt* s, const std::function<void(Stmt*)>& f) {
    f(s);
    for (uint64_t i = 0; i < s->child_count(); i++) {
        auto* c = s->get_child(i);
        if (c && c->ir_node_kind() == IRNodeKind::StmtKind) stmts(dynamic_cast<Stmt*>(c), f);
    }
}
std::string words(Rng& r) {
    static const char* w[] = {"a",   "comment", "endmodule", "end",     "x = 1;", "\n",      "\n\n", "/*",  "*/",   "//",  "(*", "begin", "module m;", "assign a = b;",
                              "\"q", "`define", "wire z;",   "\nwire", "\ny",    "always_comb", ";",    "{0}", "\t", "#(", "' "};
    std::string s;
    int n = r.range(1, 8);
    for (int i = 0; i < n; i++) s += (i && r.chance(70) ? " " : "") + std::string(w[r.below(sizeof(w) / sizeof(*w))]);
    return s;
}
// comments and source locations on everything
void annotate(Generator* top, Rng& r, uint64_t& n, int comments, int lns) {
    std::set<Generator*> gs;
    gens(top, gs);
    std::map<std::string, Generator*> by;  // a defined order
    for (auto* g : gs) by[g->handle_name()] = g;
    auto mark = [&](IRNode* x) {
        if (r.chance(comments)) {
            x->comment = words(r);
            n++;
        }
        if (r.chance(lns)) x->fn_name_ln.emplace_back("file.py", (uint32_t)r.range(1, 999));
    };
    for (auto& [_, g] : by) {
        std::set<std::string> names;
        for (auto& v : g->get_all_var_names()) names.insert(v);
        for (auto& v : names) {
            auto x = g->get_var(v);
            if (x) mark(x.get());
        }
        for (uint64_t i = 0; i < g->stmts_count(); i++) stmts(g->get_stmt(i).get(), [&](Stmt* s) { mark(s); });
        if (r.chance(comments)) g->add_stmt(std::make_shared<CommentStmt>(words(r), (uint32_t)r.range(1, 100)));
    }
}
bool build(drv::Case& c, uint64_t s, int kind, Des& d, std::map<std::string, uint64_t>* feat, const pl::P& p, bool tiny) {
    if (kind == 0) {
        Rng r(s);
        Opt o;
        o.items = r.range(2, 6);
        o.child_depth = tiny ? 0 : r.below(3);
        o.expr_depth = r.range(1, 5);
        o.same_name_children = r.chance(40);
        Builder b(r, o, *d.ctx);
        Mod m = b.module("top", o.child_depth, true);
        d.top = m.g;
        d.ref = b.golden;
        d.refname = m.gn;
        d.spec = eq::spec_of(m);
        d.in = m.in;
        d.out = m.out;
        for (auto& kv : b.feat) (*feat)[kv.first] += kv.second;
        return true;
    }
    std::string flat;
    for (int k = 0; k < 2; k++) {
        auto rp = std::make_shared<Rng>(s);
        auto& r = *rp;
        Context other;
        auto wp = std::make_shared<typed::W>(r, k ? other : *d.ctx, k == 1, feat);
        auto& w = *wp;
        d.keep.push_back(rp);
        if (k == 0) d.keep.push_back(wp);
        try {
            w.make_types();
            int depth = tiny ? 0 : (int)r.below(3);
            auto m = w.module("top", depth, true);
            if (k == 0) {
                d.spec = w.spec;
                d.top = m.g;
            } else {
                pl::P q;
                q.check_loop = false;
                d.ref = pl::emit(*m.g, pl::sequence(q));
            }
        } catch (const std::exception& e) {
            if (k == 1) {
                c.unjudged(std::string("the plain design is refused: ") + e.what());
                return false;
            }
            c.violation("rejected", std::string("a legal design is refused: ") + e.what());
            return false;
        }
    }
    d.refname = "top";
    return true;
}
std::string slurp(const std::string& f) {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
// the compiler's view of the files: `include, `ifndef, `define, `endif
std::string preprocess(const std::string& dir, const std::string& file, std::set<std::string>& def, int depth = 0) {
    if (depth > 8) throw std::runtime_error("include loop");
    std::ifstream in(dir + "/" + file);
    if (!in) throw std::runtime_error("missing file " + file);
    std::string l, o;
    std::vector<bool> on;
    auto live = [&] {
        for (bool b : on)
            if (!b) return false;
        return true;
    };
    while (std::getline(in, l)) {
        std::istringstream w(l);
        std::string d, a;
        w >> d >> a;
        if (d == "`ifndef")
            on.push_back(!def.count(a));
        else if (d == "`endif") {
            if (on.empty()) throw std::runtime_error("`endif without `ifndef in " + file);
            on.pop_back();
        } else if (!live())
            continue;
        else if (d == "`define")
            def.insert(a);
        else if (d == "`include")
            o += preprocess(dir, a.substr(1, a.size() - 2), def, depth + 1);
        else
            o += l + "\n";
    }
    if (!on.empty()) throw std::runtime_error("`ifndef without `endif in " + file);
    return o;
}
// a source attribute has to be followed by something it belongs to
std::string dangling(const std::string& text) {
    auto p = text.find("(* src");
    for (; p != std::string::npos; p = text.find("(* src", p + 1)) {
        auto q = text.find("*)", p);
        if (q == std::string::npos) return "unterminated attribute";
        auto rest = text.substr(q + 2, 3000);
        if (q + 2 + rest.size() < text.size() && rest.rfind('\n') != std::string::npos) rest.resize(rest.rfind('\n'));
        auto toks = sv::lex(rest);
        if (toks.empty()) return "attribute at the end";
        auto& t = toks[0].s;
        for (auto* bad : {"end", "endmodule", "endcase", "endfunction", "endtask", "endgenerate", "else", ";"})
            if (t == bad) return "attribute before " + t;
    }
    return "";
}
bool judge(drv::Case& c, const Des& d, const std::string& text, const std::string& top, Rng rv, const std::string& what, int cycles = 16) {
    auto res = eq::compare(d.ref, d.refname, text, top, d.spec, rv, cycles, true, false);
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    c.st.add(what);
    if (c.a.show && (res.k == eq::Res::Differ || res.k == eq::Res::Bad || res.k == eq::Res::Lint)) std::cerr << "// ==== " << what << "\n" << text << "\n";
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", what + ": " + res.msg); return false;
        case eq::Res::Lint: c.violation("lint", what + ": " + res.msg); return false;
        case eq::Res::Bad: c.violation("bad", what + ": " + res.msg); return false;
        case eq::Res::Unjudged: c.unjudged(res.msg); return false;
    }
    if (res.toggles) c.st.see(text);
    return true;
}
struct Tmp {
    std::string d;
    Tmp() {
        char t[] = "/tmp/kratos_out_XXXXXX";
        d = mkdtemp(t);
    }
    std::set<std::string> files() const {
        std::set<std::string> r;
        DIR* x = opendir(d.c_str());
        while (auto* e = readdir(x))
            if (e->d_name[0] != '.') r.insert(e->d_name);
        closedir(x);
        return r;
    }
    ~Tmp() {
        for (auto& f : files()) unlink((d + "/" + f).c_str());
        rmdir(d.c_str());
    }
};
SystemVerilogCodeGenOptions options(Rng& r) {
    SystemVerilogCodeGenOptions o;
    o.unique_case = !r.chance(40);
    o.yosys_src = r.chance(50);
    static const uint64_t wraps[] = {1, 5, 10, 20, 30, 40, 60, 80, 120, 400, 100000};
    o.line_wrap = wraps[r.below(11)];
    o.extract_debug_info = false;
    return o;
}
void write_out(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    std::map<std::string, uint64_t> feat;
    Rng r(s ^ 0x5151);
    auto p = pl::P::random(r);
    p.check_loop = false;
    int kind = r.chance(50);
    if (c.a.opt.count("kind")) kind = atoi(c.a.opt.at("kind").c_str());
    Des d;
    if (!build(c, s, kind, d, &feat, p, c.a.opt.count("tiny"))) return;
    uint64_t comments = 0;
    bool before = r.chance(50), after = r.chance(50);
    int dbg = r.chance(50);
    try {
        if (before) annotate(d.top, r, comments, 20, 30);
        std::set<Generator*> gs;
        gens(d.top, gs);
        for (auto* g : gs) g->debug = dbg;
        auto o = options(r);
        auto text = pl::emit(*d.top, pl::sequence(p), &o);
        if (after) {
            annotate(d.top, r, comments, 20, 30);
            text = pl::emit(*d.top, {}, &o);
        }
        if (c.a.show) std::cerr << "// passes " << p.str() << "\n" << d.ref << "\n// ---- wrap " << o.line_wrap << "\n" << text << "\n";
        std::string dang = dangling(text);
        if (!dang.empty()) {
            c.violation("attribute", dang);
            return;
        }
        if (!judge(c, d, text, "top", Rng(s ^ 0x777), "as_strings")) return;
        // the same design again with other options
        auto o2 = options(r);
        std::string again = pl::emit(*d.top, {}, &o2);
        if (!judge(c, d, again, "top", Rng(s ^ 0x778), "other_options")) return;
        // as files
        Tmp t;
        SystemVerilogCodeGenOptions o3 = options(r);
        o3.package_name = r.chance(50) ? "pkg" : "top_pkg";
        o3.output_dir = t.d;
        o3.extract_debug_info = dbg && r.chance(60);
        VerilogModule vm(d.top);
        vm.verilog_src(o3);
        std::set<std::string> expect = {o3.package_name + ".svh"};
        std::vector<std::string> sources;
        std::set<Generator*> gs2;
        gens(d.top, gs2);
        std::set<std::string> mods;
        for (auto* g : gs2)
            if (!g->external()) mods.insert(g->name);
        for (auto& m : mods) {
            expect.insert(m + ".sv");
            sources.push_back(m + ".sv");
            if (o3.extract_debug_info) expect.insert(m + ".sv.debug");
        }
        c.st.add("files_written", expect.size());
        if (t.files() != expect) {
            std::string msg = "files written:";
            for (auto& f : t.files()) msg += " " + f;
            msg += "; expected:";
            for (auto& f : expect) msg += " " + f;
            c.violation("files", msg);
            return;
        }
        auto whole = [&] {
            std::set<std::string> def;
            std::string all;
            for (auto& f : sources) all += preprocess(t.d, f, def);
            return all;
        };
        for (size_t i = sources.size(); i > 1; i--) std::swap(sources[i - 1], sources[r.below(i)]);
        if (!judge(c, d, whole(), "top", Rng(s ^ 0x779), "as_files")) return;
        // the header without its guard
        auto plain = generate_sv_package_header(d.top, o3.package_name, false).first;
        std::istringstream guarded(slurp(t.d + "/" + o3.package_name + ".svh"));
        std::string unguarded, line;
        while (std::getline(guarded, line))
            if (line.empty() || line[0] != '`') unguarded += line + "\n";
        if (plain != unguarded) {
            c.violation("header", "the package header without include guard differs from the one with it: " + plain.substr(0, 80));
            return;
        }
        // again: nothing that is up to date is touched
        std::map<std::string, std::pair<std::string, std::pair<int64_t, int64_t>>> was;
        for (auto& f : expect) {
            std::string q = t.d + "/" + f;
            struct timespec old[2] = {{1000000000, 5}, {1000000000, 5}};
            utimensat(AT_FDCWD, q.c_str(), old, 0);
            was[f].first = slurp(q);
        }
        // some files are changed in between
        std::set<std::string> stale;
        for (auto& f : expect)
            if (r.chance(30)) {
                std::string body = was[f].first;
                switch (r.below(4)) {
                    case 0: body = ""; break;
                    case 1: body += "\n// more\n"; break;
                    case 2: body = body.substr(0, body.size() / 2); break;
                    case 3: body[r.below(body.size())] ^= 1; break;
                }
                if (body == was[f].first) continue;
                std::ofstream(t.d + "/" + f, std::ios::trunc) << body;
                stale.insert(f);
            }
        vm.verilog_src(o3);
        for (auto& f : expect) {
            std::string q = t.d + "/" + f;
            if (slurp(q) != was[f].first) {
                c.violation("stale", f + (stale.count(f) ? " keeps content of another version" : " changes although the design doesn't"));
                return;
            }
            struct stat st;
            stat(q.c_str(), &st);
            if (!stale.count(f) && f.find(".debug") == std::string::npos) {
                c.st.add("files_left_alone");
                if (st.st_mtim.tv_sec != 1000000000) {
                    c.violation("touched", f + " is written again although nothing has changed");
                    return;
                }
            } else if (stale.count(f))
                c.st.add("files_refreshed");
        }
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    c.st.add("comments", comments);
    c.st.merge(feat, "feat.");
    c.st.sample("passes: " + p.str() + "\n" + d.ref);
}
// every port of the wrapper is one element of a port of the design
void flatten(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    std::map<std::string, uint64_t> feat;
    Rng r(s ^ 0x5252);
    auto p = pl::P::random(r);
    p.check_loop = false;
    Des d;
    if (!build(c, s, 0, d, &feat, p, c.a.opt.count("tiny"))) return;
    std::ostringstream o;
    std::string text;
    try {
        if (r.chance(50)) d.top->instance_name = "dut";
        auto& w = create_wrapper_flatten(d.top, "wrapper");
        text = pl::emit(w, pl::sequence(p));
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << "// passes " << p.str() << "\n" << d.ref << "\n// ----\n" << text << "\n";
    o << text << "\nmodule vtop (\n  input logic clk,\n  input logic rst";
    for (auto& x : d.spec.in) o << ",\n  input logic [" << x.total - 1 << ":0] " << x.name;
    for (auto& x : d.spec.out) o << ",\n  output logic [" << x.total - 1 << ":0] " << x.name;
    o << "\n);\nwrapper u (\n";
    bool first = true;
    auto conn = [&](const std::string& a, const std::string& b) {
        o << (first ? "" : ",\n") << "  ." << a << "(" << b << ")";
        first = false;
    };
    if (d.spec.clk) conn("clk", "clk");
    if (d.spec.rst) conn("rst", "rst");
    auto ports = [&](const std::vector<Sg>& v) {
        for (auto& x : v) {
            if (x.d.empty()) {
                conn(x.n, x.n);
                continue;
            }
            uint32_t n = x.total() / x.w;
            for (uint32_t i = 0; i < n; i++) {
                std::string name;
                uint32_t k = i;
                for (size_t j = x.d.size(); j-- > 0;) {
                    name = "_" + std::to_string(k % x.d[j]) + name;
                    k /= x.d[j];
                }
                conn(x.n + name, x.n + "[" + std::to_string(i * x.w + x.w - 1) + ":" + std::to_string(i * x.w) + "]");
                c.st.add("elements");
            }
        }
    };
    ports(d.in);
    ports(d.out);
    o << "\n);\nendmodule\n";
    judge(c, d, o.str(), "vtop", Rng(s ^ 0x77a), "wrapped");
    c.st.merge(feat, "feat.");
    c.st.sample("passes: " + p.str() + "\n" + d.ref);
}
// ---- what the recorded lines point at
struct Node {
    IRNode* x;
    std::string what;                 // for messages
    std::vector<std::string> need;    // texts the line has to contain, one of the alternatives of each separated by |
    std::string comment;
    bool mapped = true;               // listed by extract_debug_info
};
bool has_any(const std::string& line, const std::string& alts) {
    size_t a = 0;
    for (;;) {
        auto b = alts.find('\001', a);
        auto t = alts.substr(a, b == std::string::npos ? b : b - a);
        if (line.find(t) != std::string::npos) return true;
        if (b == std::string::npos) return false;
        a = b + 1;
    }
}
std::string flatten_comment(std::string s) {
    s.erase(std::remove(s.begin(), s.end(), '\n'), s.end());
    return s;
}
std::vector<Node> nodes_of(Generator* g) {
    std::vector<Node> r;
    auto add = [&](IRNode* x, std::string what, std::vector<std::string> need, bool mapped = true, bool comment = false) {
        r.push_back({x, std::move(what), std::move(need), comment ? flatten_comment(x->comment) : "", mapped});
    };
    std::set<std::string> names;
    for (auto& v : g->get_all_var_names()) names.insert(v);
    for (auto& n : names) {
        auto v = g->get_var(n);
        if (v->is_interface()) continue;
        if (v->type() == VarType::PortIO)
            add(v.get(), "port " + n, {v->as<Port>()->port_direction() == PortDirection::In ? "input " : "output ", " " + n}, true, true);
        else if (v->type() == VarType::Base)
            add(v.get(), "variable " + n, {" " + n, ";"}, true, true);
    }
    auto str = [&](const Var* v) { return v->generator() == g || v->generator() == Const::const_gen() ? v->to_string() : v->handle_name(true); };
    auto visit = [&](Stmt* s) {
        switch (s->type()) {
            case StatementType::Assign: {
                auto a = s->as<AssignStmt>();
                auto l = str(a->left());
                add(s, "assignment to " + l, {l + " = \001" + l + " <= "}, true, true);
                break;
            }
            case StatementType::If: add(s, "if", {"if (" + str(s->as<IfStmt>()->predicate().get()) + ")"}); break;
            case StatementType::Switch: add(s, "switch", {" case (" + str(s->as<SwitchStmt>()->target().get()) + ")"}); break;
            case StatementType::For: add(s, "for", {"for ("}, false); break;
            case StatementType::Return: add(s, "return", {"return " + str(s->as<ReturnStmt>()->value().get())}); break;
            case StatementType::FunctionalCall: add(s, "call", {str(s->as<FunctionCallStmt>()->var().get()) + ";"}); break;
            case StatementType::ModuleInstantiation: {
                auto* t = s->as<ModuleInstantiationStmt>()->target();
                add(s, "instance " + t->instance_name, {t->name + " " + t->instance_name + "\001" + t->name + " #("}, true, true);
                break;
            }
            case StatementType::Block: {
                auto b = s->as<StmtBlock>();
                switch (b->block_type()) {
                    case StatementBlockType::Sequential: add(s, "sequential block", {"always_ff @("}); break;
                    case StatementBlockType::Combinational: add(s, "combinational block", {"always_comb\001always "}); break;
                    case StatementBlockType::Latch: add(s, "latch block", {"always_latch"}, false); break;
                    case StatementBlockType::Initial: add(s, "initial block", {"initial begin"}, false); break;
                    case StatementBlockType::Final: add(s, "final block", {"final begin"}, false); break;
                    case StatementBlockType::Function: add(s, "function", {"function \001task ", b->as<FunctionStmtBlock>()->function_name()}); break;
                    case StatementBlockType::Scope: break;
                }
                break;
            }
            default: break;
        }
    };
    for (uint64_t i = 0; i < g->stmts_count(); i++) stmts(g->get_stmt(i).get(), visit);
    for (auto& f : g->functions())
        if (!f.second->is_dpi() && !f.second->is_builtin()) stmts(f.second.get(), visit);
    return r;
}
struct Lines {
    drv::Case& c;
    // the lines of one module; off: how far the recorded numbers are ahead
    bool check(Generator* g, const std::vector<std::string>& l, const std::vector<Node>& nodes, const std::string& where) {
        auto at = [&](uint32_t n) { return n >= 1 && n <= l.size() ? l[n - 1] : std::string("(no such line)"); };
        auto bad = [&](const std::string& m) {
            c.violation("line", where + " module " + g->name + ": " + m);
            return false;
        };
        if (at(g->verilog_ln).find("module " + g->name + " ") == std::string::npos) return bad("the module is not on line " + std::to_string(g->verilog_ln) + ": " + at(g->verilog_ln));
        for (auto& n : nodes) {
            c.st.add("lines." + n.what.substr(0, n.what.find(' ')));
            if (!n.x->verilog_ln) return bad(n.what + " has no line");
            auto t = at(n.x->verilog_ln);
            for (auto& x : n.need)
                if (!has_any(t, x)) return bad(n.what + " is not on line " + std::to_string(n.x->verilog_ln) + ": " + t);
            if (!n.comment.empty()) {
                c.st.add("comments_placed");
                auto q = at(n.x->verilog_ln - 1);
                if (n.x->verilog_ln < 2 || q.find("// " + n.comment) == std::string::npos) return bad("the comment of " + n.what + " is not above it: " + q);
            }
        }
        return true;
    }
};
std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r;
    std::istringstream i(s);
    std::string l;
    while (std::getline(i, l)) r.push_back(l);
    return r;
}
std::string name_of(IRNode* x) {
    if (x->ir_node_kind() == IRNodeKind::VarKind) return dynamic_cast<Var*>(x)->handle_name();
    if (x->ir_node_kind() == IRNodeKind::GeneratorKind) return dynamic_cast<Generator*>(x)->handle_name();
    auto* s = dynamic_cast<Stmt*>(x);
    return "statement type " + std::to_string((int)s->type()) + " of " + (s->generator_parent() ? s->generator_parent()->handle_name() : "");
}
using Map = std::map<uint32_t, std::vector<std::pair<std::string, uint32_t>>>;
bool check_map(drv::Case& c, Generator* g, const Map& m, const std::vector<Node>& nodes, const std::map<uint32_t, IRNode*>& id, const std::string& where, bool file) {
    std::set<IRNode*> mine{g};
    for (auto& n : nodes) {
        mine.insert(n.x);
        if (n.what == "if") mine.insert(dynamic_cast<IfStmt*>(n.x)->predicate().get());
    }
    for (auto& [line, v] : m)
        for (auto& [fn, k] : v) {
            c.st.add("map_entries");
            auto i = id.find(k);
            if (i == id.end() || !mine.count(i->second)) {
                c.violation("map", where + " module " + g->name + ": line " + std::to_string(line) + " is said to come from something of another module" + (i == id.end() ? "" : ": " + name_of(i->second)));
                return false;
            }
            // the entry of the module itself is on the first line
            if (i->second == g ? line != 1 : i->second->verilog_ln != line) {
                c.violation("map", where + " module " + g->name + ": line " + std::to_string(line) + " comes from a statement on line " + std::to_string(i->second->verilog_ln));
                return false;
            }
        }
    if (!m.empty() || file)
        for (auto& n : nodes)
            if (n.mapped && !n.x->fn_name_ln.empty() && !m.count(n.x->verilog_ln)) {
                c.violation("map", where + " module " + g->name + ": the line of " + n.what + " is missing");
                return false;
            }
    return true;
}
void lines(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    std::map<std::string, uint64_t> feat;
    Rng r(s ^ 0x5353);
    auto p = pl::P::random(r);
    p.check_loop = false;
    int kind = r.chance(40);
    if (c.a.opt.count("kind")) kind = atoi(c.a.opt.at("kind").c_str());
    Des d;
    if (!build(c, s, kind, d, &feat, p, c.a.opt.count("tiny"))) return;
    uint64_t comments = 0;
    try {
        std::set<Generator*> gs;
        gens(d.top, gs);
        for (auto* g : gs) g->debug = true;
        if (r.chance(70)) annotate(d.top, r, comments, 20, 0);
        auto o = options(r);
        o.yosys_src = false;
        VerilogModule vm(d.top);
        vm.pass_manager().register_pass("remove_empty_block", &remove_empty_block);
        for (auto& n : pl::sequence(p)) vm.pass_manager().add_pass(n);
        vm.run_passes();
        gs.clear();
        gens(d.top, gs);
        for (auto* g : gs) g->debug = true;
        // every node has a number of its own
        std::map<uint32_t, IRNode*> id;
        uint32_t next = 1;
        auto number = [&](IRNode* x) {
            if (x->fn_name_ln.size() == 1 && x->fn_name_ln[0].first == "design.py") return;
            id[next] = x;
            x->fn_name_ln = {{"design.py", next++}};
        };
        bool some = r.chance(30);
        // what passes recorded about themselves is not followed
        for (auto* g : gs) {
            g->fn_name_ln.clear();
            for (auto& v : g->get_all_var_names()) g->get_var(v)->fn_name_ln.clear();
            auto clear = [&](Stmt* x) {
                x->fn_name_ln.clear();
                if (x->type() == StatementType::If) x->as<IfStmt>()->predicate()->fn_name_ln.clear();
            };
            for (uint64_t i = 0; i < g->stmts_count(); i++) stmts(g->get_stmt(i).get(), clear);
            for (auto& f : g->functions()) stmts(f.second.get(), clear);
        }
        for (auto* g : gs) {
            if (!some || r.chance(70)) number(g);
            for (auto& n : nodes_of(g))
                if (!some || r.chance(50)) {
                    number(n.x);
                    if (n.what == "if" && dynamic_cast<IfStmt*>(n.x)->predicate()->type() == VarType::Expression) number(dynamic_cast<IfStmt*>(n.x)->predicate().get());
                }
        }
        auto parts = vm.verilog_src(o);
        if (c.a.show)
            for (auto& x : parts) std::cerr << x.second << "\n";
        Lines k{c};
        std::map<std::string, Generator*> emitted;
        for (auto* g : gs)
            if (g->verilog_ln) emitted[g->name] = g;
        for (auto& [name, text] : parts)
            if (!emitted.count(name)) {
                c.violation("line", "module " + name + " has no line");
                return;
            }
        auto info = extract_debug_info(d.top);
        for (auto& [name, g] : emitted) {
            auto nodes = nodes_of(g);
            auto ls = split(parts.at(name));
            if (!k.check(g, ls, nodes, "string")) return;
            if (info.count(name)) {
                // the map is about one of the generators that share the module
                bool whose = false;
                for (auto* h : gs)
                    if (h != g && h->name == name) whose = true;
                if (!whose && !check_map(c, g, info.at(name), nodes, id, "string", true)) return;
                c.st.add("maps");
            } else if (!g->fn_name_ln.empty()) {
                c.violation("map", "module " + name + " is missing from the debug information");
                return;
            }
            if (ls.size() > 5) c.st.see(parts.at(name));
        }
        // moved down in a file, as kratos.verilog does
        uint32_t off = r.range(1, 500);
        for (auto& [name, g] : emitted) {
            fix_verilog_ln(g, off);
            auto ls = split(parts.at(name));
            ls.insert(ls.begin(), off, "");
            if (!k.check(g, ls, nodes_of(g), "moved")) return;
        }
        // as files
        Tmp t;
        o.package_name = "pkg";
        o.output_dir = t.d;
        o.extract_debug_info = true;
        for (auto* g : gs) g->verilog_ln = 0;
        vm.verilog_src(o);
        for (auto* g : gs)
            if (g->verilog_ln) {
                auto nodes = nodes_of(g);
                auto ls = split(slurp(t.d + "/" + g->name + ".sv"));
                if (!k.check(g, ls, nodes, "file")) return;
                if (g->verilog_fn != t.d + "/" + g->name + ".sv") {
                    c.violation("line", "module " + g->name + " is said to be in " + g->verilog_fn);
                    return;
                }
                // the debug file
                Map m;
                for (auto& l : split(slurp(t.d + "/" + g->name + ".sv.debug"))) {
                    unsigned line, ln;
                    if (sscanf(l.c_str(), " \"%u\": [[\"design.py\", %u]]", &line, &ln) == 2) m[line].emplace_back("design.py", ln);
                    else if (l != "{" && l != "}") {
                        c.violation("map", "unexpected line in the debug file: " + l);
                        return;
                    }
                }
                c.st.add("debug_files");
                if (!check_map(c, g, m, nodes, id, "file", !g->fn_name_ln.empty())) return;
            }
    } catch (const std::exception& e) {
        c.violation("rejected", std::string("a legal design is refused: ") + e.what());
        return;
    }
    c.st.add("comments", comments);
    c.st.merge(feat, "feat.");
    c.st.sample("passes: " + p.str() + "\n" + d.ref);
}
}  // namespace
int main(int argc, char** argv) { return drv::run(argc, argv, {{"write", write_out}, {"flatten", flatten}, {"lines", lines}}); }
