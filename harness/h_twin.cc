// The same design built twice: the output must not depend on the memory layout, on what was built before or on the number of threads.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <filesystem>
#include <new>

#include "cxxpool.h"
#include "debug.hh"
#include "drv.hh"
#include "fsmgen.hh"
#include "formal.hh"
#include "pipeline.hh"
#include "typedgen.hh"
namespace kratos { std::map<uint32_t, std::vector<std::pair<std::string, uint32_t>>> extract_debug_info_gen(Generator* top); }

using namespace rd;
namespace fs_ = std::filesystem;

// ---- memory: blocks of one size are handed out in random order
#if !defined(__SANITIZE_THREAD__)
namespace heap {
static thread_local bool on = false;
static thread_local uint64_t st = 1;
struct Bin {
    void* p[24];
    int n;
};
static thread_local Bin bins[64];
static uint64_t rnd() {
    st ^= st << 13;
    st ^= st >> 7;
    st ^= st << 17;
    return st >> 5;
}
static void* get(std::size_t n) {
    if (on && n <= 1024) {
        auto& b = bins[(n + 15) / 16 & 63];
        std::size_t sz = ((n + 15) / 16) * 16;
        if (n && n <= 63 * 16) {
            while (b.n < 24) b.p[b.n++] = std::malloc(sz);
            auto k = rnd() % 24;
            void* x = b.p[k];
            b.p[k] = b.p[--b.n];
            return x;
        }
    }
    void* x = std::malloc(n ? n : 1);
    if (!x) throw std::bad_alloc();
    return x;
}
}  // namespace heap
void* operator new(std::size_t n) { return heap::get(n); }
void* operator new[](std::size_t n) { return heap::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return heap::get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return heap::get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
static void shuffle_heap(uint64_t s) {
    heap::on = s != 0;
    heap::st = s | 1;
}
#else
static void shuffle_heap(uint64_t) {}
#endif

struct Out {
    std::map<std::string, std::string> parts;
    std::string error;
    std::map<std::string, uint64_t> feat;
    std::string golden;
    uint64_t modules = 0;
};
struct Env {
    uint64_t heap = 0;
    int cpus = 1;
    unsigned jitter = 0;
    bool before = false;  // something else was built in the process before
    bool parallel_only = false;
};
static void files(Out& o, const std::string& dir, const std::string& pre) {
    for (auto& f : fs_::directory_iterator(dir)) {
        std::ifstream in(f.path());
        std::stringstream s;
        s << in.rdbuf();
        o.parts[pre + f.path().filename().string()] = s.str();
    }
}
static void definitions(Out& out, Generator* top) {
    // the keys number the definitions
    for (auto& x : extract_struct_info(top)) out.parts["struct " + x.first] = x.second;
    for (auto& x : extract_enum_info(top)) out.parts["enum " + x.first] = x.second;
    for (auto& x : extract_interface_info(top)) out.parts["interface " + x.first] = x.second;
    for (auto& x : extract_dpi_function(top, true)) out.parts["dpi " + x.first] = x.second;
}
static void package(Out& out, Generator* top, bool debug) {
    char tmp[] = "/tmp/vtwin.XXXXXX";
    if (!mkdtemp(tmp)) throw std::runtime_error("mkdtemp");
    SystemVerilogCodeGenOptions po;
    po.package_name = "zz_pkg";
    po.output_dir = tmp;
    po.extract_debug_info = debug;
    try {
        generate_verilog(top, po);
        files(out, tmp, "file ");
    } catch (...) {
        fs_::remove_all(tmp);
        throw;
    }
    fs_::remove_all(tmp);
    out.feat["package"] = 1;
}
// everything that is drawn comes from the seed, nothing from the environment
static Out once(uint64_t seed, const Env& e, int what) {
    Out out;
    set_num_cpus(e.cpus);
    cxxpool::g_jitter = e.jitter;
    shuffle_heap(e.heap);
    if (e.before) {
        Env n;
        once(seed ^ 0x9e3779b97f4a7c15ull, n, what);
        set_num_cpus(e.cpus);
        shuffle_heap(e.heap);
    }
    if (seed % 4 == 3) {
        // structs and enums
        Rng r(seed);
        Context ctx;
        typed::W w(r, ctx, false, &out.feat);
        try {
            w.make_types();
            auto m = w.module("top", (int)r.below(3), true);
            out.golden = "typed " + std::to_string(seed);
            auto p = pl::P::random(r);
            p.check_loop = false;
            p.parallel = e.parallel_only || p.parallel;
            SystemVerilogCodeGenOptions co;
            co.extract_debug_info = false;
            for (auto& x : pl::emit_parts(*m.g, pl::sequence(p), &co)) out.parts["module " + x.first] = x.second;
            definitions(out, m.g);
            if (what == 2 || r.chance(30)) package(out, m.g, false);
            out.modules = out.parts.size();
        } catch (const std::exception& ex) {
            out.error = ex.what();
        }
    } else {
        Rng r(seed);
        Opt o;
        o.items = r.range(2, 6);
        o.child_depth = r.range(1, what == 2 ? 3 : 2);
        o.expr_depth = r.range(1, 2);
        o.max_width = r.chance(60) ? 8 : 72;
        o.hier = r.chance(50);
        o.lane_clones = false;
        o.same_name_children = r.chance(50);
        o.case_ladders = r.chance(40);
        o.ladder_sets = r.chance(30);
        o.bitwires = r.chance(30);
        o.bundles = r.chance(40);
        o.clash = r.chance(40);
        o.unused = r.chance(40);
        o.const_wires = r.chance(40);
        o.empty_blocks = r.chance(20);
        bool fsm = r.chance(50);
        if (fsm) {
            o.rst = r.range(1, 2);
            o.arrays = r.chance(30);
        }
        bool cen = r.chance(20), debug = r.chance(40), srst = !fsm && r.chance(30), pipe = !fsm && !srst && !cen && r.chance(20);
        o.srst = srst;
        o.cen = srst && cen;
        if (pipe) o.pipe = r.range(30, 70);
        Context ctx;
        Builder b(r, o, ctx);
        if (fsm)
            b.extra = [&](Mod& m, Sg& clk, Sg& rst) {
                if (m.rst != 1 && m.rst != 2) return;
                make(b, m, clk, rst, false, false, false);
                b.feat["fsm"]++;
            };
        Mod m = b.module("top", o.child_depth, true);
        if (cen && !o.cen) m.g->port(PortDirection::In, "clk_en", 1, PortType::ClockEnable);
        if (srst) Builder::mark(*m.g, "", "sync-reset=srst");
        out.golden = b.golden;
        if (debug)
            for (auto& g : b.gens) g.first->debug = true;
        auto p = pl::P::random(r);
        p.check_loop = !fsm;
        p.check_latch = !fsm;
        p.dce = r.chance(30);
        p.parallel = e.parallel_only || p.parallel;
        if (cen || srst || pipe) p.passthrough = false;
        p.pipeline = pipe;
        auto seq = pl::sequence(p);
        if (srst) seq.insert(seq.begin(), "auto_insert_sync_reset");
        if (cen) seq.insert(seq.begin(), "auto_insert_clock_enable");
        // broken modules: a parallel pass has to report
        uint32_t broken = what == 2 && r.chance(30) ? r.range(1, 3) : 0;
        for (uint32_t i = 0; i < broken; i++) {
            auto* g = r.pick(b.gens).first;
            if (g->has_var("brk")) continue;
            auto& v = g->var("brk", 1);
            auto& w = g->var("brk_in", 1);
            auto k = r.below(2);
            if (k == 0) {
                auto blk = g->combinational();
                auto s = std::make_shared<IfStmt>(w.shared_from_this());
                s->add_then_stmt(v.assign(Const::constant(1, 1, false)));
                blk->add_stmt(s);
            } else {
                auto f = g->function("brk_fn");
                auto in = f->input("brk_a", 1, false);
                auto s = std::make_shared<IfStmt>(in);
                s->add_then_stmt(f->return_stmt(in));
                f->add_stmt(s);
            }
        }
        out.feat = b.feat;
        if (broken) out.feat["broken"] = 1;
        if (cen) out.feat["clk_en"] = 1;
        if (srst) out.feat["srst"] = 1;
        if (pipe) out.feat["pipe"] = 1;
        out.modules = b.gens.size();
        try {
            SystemVerilogCodeGenOptions co;
            co.extract_debug_info = false;
            if (broken) {
                // straight to the parallel checks
                fix_assignment_type(m.g);
                check_function_return(m.g);
                check_inferred_latch(m.g);
                out.parts["passed"] = "1";
            } else {
                for (auto& x : pl::emit_parts(*m.g, seq, &co)) out.parts["module " + x.first] = x.second;
                if (debug)
                    for (auto& g : b.gens) {
                        std::string s;
                        for (auto& x : extract_debug_info_gen(g.first)) {
                            s += std::to_string(x.first);
                            for (auto& y : x.second) s += " " + y.first.substr(y.first.rfind('/') + 1) + ":" + std::to_string(y.second);
                            s += "\n";
                        }
                        out.parts["debug " + g.second] = s;
                    }
                definitions(out, m.g);
                if (what == 2 || r.chance(30)) package(out, m.g, debug);
                if (what == 2) {
                    // the other passes that run in parallel
                    check_flip_flop_always_ff(m.g);
                    insert_verilator_public(m.g);
                    remove_async_reset(m.g);
                    auto c2 = generate_verilog(m.g, co);
                    for (auto& x : c2) out.parts["again " + x.first] = x.second;
                }
            }
        } catch (const std::exception& ex) {
            out.error = ex.what();
        }
    }
    shuffle_heap(0);
    cxxpool::g_jitter = 0;
    return out;
}
static void compare(drv::Case& c, const Out& a, const Out& b, const std::string& how, bool messages) {
    if (a.golden != b.golden) {
        c.unjudged("the design itself differs");
        return;
    }
    if (a.error.empty() != b.error.empty() || (messages && a.error != b.error)) {
        c.violation("error", how + ": '" + a.error + "' against '" + b.error + "'");
        return;
    }
    for (auto& x : a.parts) {
        if (!b.parts.count(x.first)) {
            c.violation("part", how + ": '" + x.first + "' is missing");
            return;
        }
        auto& y = b.parts.at(x.first);
        if (x.second == y) continue;
        size_t i = 0;
        while (i < y.size() && i < x.second.size() && x.second[i] == y[i]) i++;
        i = i < 60 ? 0 : i - 60;
        c.violation("text", how + ": '" + x.first + "' differs: '" + x.second.substr(i, 140) + "' against '" + y.substr(i, 140) + "'");
        return;
    }
    if (b.parts.size() != a.parts.size()) c.violation("part", how + ": more parts");
    c.st.add("parts_compared", a.parts.size());
}
static void note(drv::Case& c, const Out& a) {
    c.st.merge(a.feat, "feat.");
    c.st.add("modules", a.modules);
    if (!a.error.empty()) c.st.add("refused");
    c.st.see(a.golden);
    c.st.sample(a.golden);
    if (c.a.show) {
        std::cerr << a.golden << "\n// error: " << a.error << "\n";
        for (auto& x : a.parts) std::cerr << "//---- " << x.first << "\n" << x.second << "\n";
    }
}
// a process that has built nothing: asked for a seed, it forks a child that builds that one design
struct Fresh {
    int to = -1, from = -1;
    static void put(int fd, const std::string& s) {
        uint64_t n = s.size();
        std::string m((const char*)&n, 8);
        m += s;
        for (size_t i = 0; i < m.size();) {
            auto k = write(fd, m.data() + i, m.size() - i);
            if (k <= 0) _Exit(1);
            i += k;
        }
    }
    static bool take(int fd, void* p, size_t n) {
        for (size_t i = 0; i < n;) {
            auto k = read(fd, (char*)p + i, n - i);
            if (k <= 0) return false;
            i += k;
        }
        return true;
    }
    static bool get(int fd, std::string& s) {
        uint64_t n;
        if (!take(fd, &n, 8)) return false;
        s.resize(n);
        return take(fd, s.data(), n);
    }
    Fresh() {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return;
        fflush(nullptr);
        if (fork() == 0) {
            close(a[1]);
            close(b[0]);
            uint64_t seed;
            while (take(a[0], &seed, 8)) {
                auto pid = fork();
                if (pid == 0) {
                    Env e;
                    auto o = once(seed, e, 1);
                    put(b[1], o.golden);
                    put(b[1], o.error);
                    put(b[1], std::to_string(o.parts.size()));
                    for (auto& x : o.parts) {
                        put(b[1], x.first);
                        put(b[1], x.second);
                    }
                    put(b[1], "end");
                    _Exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                if (st) _Exit(1);
            }
            _Exit(0);
        }
        close(a[0]);
        close(b[1]);
        to = a[1];
        from = b[0];
    }
    bool ask(uint64_t seed, Out& o) {
        std::string n, k, v;
        if (write(to, &seed, 8) != 8 || !get(from, o.golden) || !get(from, o.error) || !get(from, n)) return false;
        for (uint64_t i = 0; i < std::stoull(n); i++) {
            if (!get(from, k) || !get(from, v)) return false;
            o.parts[k] = v;
        }
        return get(from, v) && v == "end";
    }
};
static void det(drv::Case& c) {
    static Fresh fresh;
    uint64_t s = c.a.seed * 1000003 + c.i;
    Env e;
    auto a = once(s, e, 1);
    note(c, a);
    Out first;
    if (!fresh.ask(s, first))
        c.unjudged("no answer from the fresh process");
    else {
        compare(c, first, a, "after other designs were built", true);
        c.st.add("fresh_processes");
    }
    for (int i = 1; i <= 3 && !c.bad; i++) {
        Env f;
        f.heap = s * 7919 + i * 104729 + 17;
        f.before = i == 3;
        auto b = once(s, f, 1);
        compare(c, a, b, f.before ? "another memory layout, after another design" : "another memory layout", true);
        c.st.add("layouts");
        if (f.before) c.st.add("built_after_another");
    }
}
static void par(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    Env e;
    e.parallel_only = true;
    auto a = once(s, e, 2);
    note(c, a);
    Rng r(s ^ 0x5555);
    std::set<unsigned long> orders;
    for (int i = 0; i < 2 && !c.bad; i++) {
        Env f;
        f.parallel_only = true;
        f.cpus = r.range(2, 8);
        f.jitter = i == 0 ? 1 + r.below(200) : 0;
        cxxpool::g_order = 0;
        auto t0 = cxxpool::g_tasks.load();
        auto b = once(s, f, 2);
        c.st.add("tasks", cxxpool::g_tasks.load() - t0);
        if (orders.insert(cxxpool::g_order.load()).second) c.st.add("distinct_orders");
        compare(c, a, b, std::to_string(f.cpus) + " threads", true);
        c.st.add("runs_in_parallel");
    }
}
int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    return drv::run(argc, argv, {{"det", det}, {"par", par}});
}
