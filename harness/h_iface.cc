// Interfaces and modports against the same design with every interface signal written as a wire of its own.
// The emitted text goes through a token-level flattener that knows what SystemVerilog says about interfaces
// (definitions, modport directions, instances, connections) and refuses what is not declared.
#include "interface.hh"
#include "drv.hh"
#include "equiv.hh"
#include "pipeline.hh"
using namespace kratos;
using rd::Rng;

namespace {
using Str = std::string;
using Toks = std::vector<Str>;

// ---- flattener ----------------------------------------------------------------------------------------------------
struct Bad : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct ISig {
    Str name, pre, post;
    int dir;  // 0 none, 1 input, 2 output
};
struct IDef {
    std::vector<ISig> sigs;
    std::map<Str, std::map<Str, int>> mods;
    const ISig& sig(const Str& n) const {
        for (auto& s : sigs)
            if (s.name == n) return s;
        throw Bad("interface has no signal " + n);
    }
};
struct IUse {
    Str def, mod;
    bool port;
};
struct Flat {
    Toks t;
    std::map<Str, IDef> defs;
    std::map<Str, std::map<Str, IUse>> uses;  // module -> interface name -> use
    uint64_t n_conn = 0, n_inst = 0, n_ref = 0, n_port = 0;

    static bool id(const Str& s) { return !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_') && !sv::keywords().count(s); }
    const Str& at(size_t i) const {
        static const Str e;
        return i < t.size() ? t[i] : e;
    }
    void want(size_t i, const char* s) const {
        if (at(i) != s) throw Bad("'" + Str(s) + "' expected before '" + at(i) + "' near '" + at(i - 1) + "'");
    }
    // direction? logic? dims name dims
    size_t decl(size_t i, ISig& s, const std::set<Str>& stop) {
        s.dir = 0;
        if (at(i) == "input") s.dir = 1, i++;
        else if (at(i) == "output") s.dir = 2, i++;
        while (i < t.size() && !stop.count(at(i))) {
            if (at(i) == "[") {
                Str& o = s.name.empty() ? s.pre : s.post;
                while (at(i) != "]") o += at(i++) + " ";
                o += "] ", i++;
            } else if (id(at(i))) {
                if (!s.name.empty()) throw Bad("declaration of " + s.name + " not understood");
                s.name = at(i++);
            } else
                s.pre += at(i++) + " ";
        }
        if (s.name.empty()) throw Bad("declaration without a name");
        return i;
    }
    void add_sig(IDef& d, const ISig& s) {
        for (auto& x : d.sigs)
            if (x.name == s.name) throw Bad("interface signal " + s.name + " declared twice");
        d.sigs.push_back(s);
    }
    size_t interface(size_t i) {
        Str name = at(++i);
        if (!id(name)) throw Bad("interface name " + name);
        if (defs.count(name)) throw Bad("interface " + name + " defined twice");
        IDef d;
        i++;
        if (at(i) == "(") {
            i++;
            while (at(i) != ")") {
                ISig s;
                i = decl(i, s, {",", ")"});
                if (!s.dir) throw Bad("interface port without direction: " + s.name);
                add_sig(d, s);
                if (at(i) == ",") {
                    i++;
                    if (at(i) == ")") throw Bad("comma before ) in interface " + name);
                }
            }
            i++;
        }
        want(i++, ";");
        while (at(i) != "endinterface") {
            if (i >= t.size()) throw Bad("no endinterface");
            if (at(i) == "modport") {
                Str m = at(i + 1);
                if (!id(m) || d.mods.count(m)) throw Bad("modport " + m);
                want(i + 2, "(");
                i += 3;
                int dir = 0;
                auto& mp = d.mods[m];
                while (at(i) != ")") {
                    if (at(i) == "input") dir = 1, i++;
                    else if (at(i) == "output") dir = 2, i++;
                    if (!dir) throw Bad("modport item without direction");
                    auto& s = d.sig(at(i));
                    if (mp.count(s.name)) throw Bad("modport item " + s.name + " twice");
                    mp[s.name] = dir;
                    i++;
                    if (at(i) == ",") {
                        i++;
                        if (at(i) == ")") throw Bad("comma before ) in modport " + m);
                    } else
                        want(i, ")");
                }
                want(++i, ";");
                i++;
            } else {
                ISig s;
                i = decl(i, s, {";", ",", "endinterface"});
                want(i++, ";");
                if (s.dir) throw Bad("port inside interface body");
                add_sig(d, s);
            }
        }
        defs[name] = d;
        return i + 1;
    }
    std::vector<std::pair<Str, int>> members(const IUse& u) const {
        std::vector<std::pair<Str, int>> r;
        auto& d = defs.at(u.def);
        if (u.mod.empty()) {
            for (auto& s : d.sigs) r.emplace_back(s.name, s.dir);
        } else
            for (auto& m : d.mods.at(u.mod)) r.emplace_back(m.first, m.second);
        return r;
    }
    Str run(const Str& text) {
        for (auto& x : sv::lex(text)) {
            if (x.t == sv::T::End) continue;
            t.push_back(x.t == sv::T::Str ? "\"" + x.s + "\"" : x.s);
        }
        Toks rest;
        for (size_t i = 0; i < t.size();) {
            if (t[i] == "interface" && !(i && t[i - 1] == "virtual")) i = interface(i);
            else rest.push_back(t[i++]);
        }
        t = rest;
        // headers
        std::map<Str, std::pair<size_t, size_t>> hdr;
        for (size_t i = 0; i < t.size(); i++) {
            if (t[i] != "module") continue;
            Str m = at(i + 1);
            size_t j = i + 2;
            while (at(j) != ";" && j < t.size()) j++;
            for (size_t k = i + 2; k < j; k++) {
                if (t[k] != "(" && t[k] != ",") continue;
                if (!id(at(k + 1))) continue;
                Str mod, nm;
                size_t q = k + 2;
                if (at(q) == ".") mod = at(q + 1), q += 2;
                if (!id(at(q))) continue;
                nm = at(q);
                if (!defs.count(t[k + 1])) throw Bad("module " + m + " has a port of undefined interface " + t[k + 1]);
                if (!mod.empty() && !defs[t[k + 1]].mods.count(mod)) throw Bad("undefined modport " + mod + " of " + t[k + 1]);
                if (uses[m].count(nm)) throw Bad("interface port " + nm + " twice");
                uses[m][nm] = {t[k + 1], mod, true};
            }
        }
        // instances
        Str cur;
        for (size_t i = 0; i < t.size(); i++) {
            if (t[i] == "module") cur = at(i + 1);
            else if (t[i] == "endmodule") cur.clear();
            else if (!cur.empty() && defs.count(t[i]) && id(at(i + 1)) && at(i + 2) == "(") {
                if (uses[cur].count(t[i + 1])) throw Bad("interface instance " + t[i + 1] + " twice");
                uses[cur][t[i + 1]] = {t[i], "", false};
            }
        }
        Str o;
        auto put = [&](const Str& s) { o += s + (s == ";" || s == "begin" || s == "end" || s == ")" ? "\n" : " "); };
        cur.clear();
        bool head = false;
        for (size_t i = 0; i < t.size();) {
            const Str& x = t[i];
            if (x == "module") {
                cur = at(i + 1);
                head = true;
                put(x);
                put(cur);
                i += 2;
                continue;
            }
            if (x == "endmodule") cur.clear();
            if (head && x == ";") head = false;
            if (cur.empty()) {
                put(x);
                i++;
                continue;
            }
            auto& us = uses[cur];
            if (head && defs.count(x)) {
                size_t q = i + 1;
                if (at(q) == ".") q += 2;
                auto& u = us.at(at(q));
                Str s;
                for (auto& m : members(u)) {
                    if (!m.second) throw Bad("signal " + m.first + " of a whole interface port has no direction");
                    auto& g = defs[u.def].sig(m.first);
                    s += (s.empty() ? "" : ", ") + Str(m.second == 1 ? "input " : "output ") + g.pre + at(q) + "__" + g.name + " " + g.post + "\n";
                }
                n_port++;
                o += s;
                i = q + 1;
                continue;
            }
            if (defs.count(x) && id(at(i + 1)) && at(i + 2) == "(") {
                Str n = at(i + 1);
                auto& d = defs[x];
                for (auto& g : d.sigs) o += g.pre + n + "__" + g.name + " " + g.post + ";\n";
                i += 3;
                std::set<Str> seen;
                while (at(i) != ")") {
                    want(i, ".");
                    auto& g = d.sig(at(i + 1));
                    if (!g.dir) throw Bad(g.name + " is not a port of interface " + x);
                    if (!seen.insert(g.name).second) throw Bad("interface port connected twice");
                    want(i + 2, "(");
                    i += 3;
                    Str e;
                    for (int dep = 0; dep || at(i) != ")"; i++) {
                        if (i >= t.size()) throw Bad("unbalanced connection");
                        dep += at(i) == "(" ? 1 : at(i) == ")" ? -1 : 0;
                        if (at(i + 1) == "." && us.count(at(i))) {
                            e += at(i) + "__" + at(i + 2) + " ";
                            i += 2;
                        } else
                            e += at(i) + " ";
                    }
                    i++;
                    if (at(i) == ",") {
                        i++;
                        want(i, ".");
                    } else
                        want(i, ")");
                    if (!e.empty()) o += g.dir == 1 ? "assign " + n + "__" + g.name + " = " + e + ";\n" : "assign " + e + " = " + n + "__" + g.name + ";\n";
                }
                for (auto& g : d.sigs)
                    if (g.dir == 1 && !seen.count(g.name)) throw Bad("input " + g.name + " of interface instance " + n + " is not connected");
                i++;
                want(i++, ";");
                n_inst++;
                continue;
            }
            // instance of a module with interface ports
            if (id(x) && id(at(i + 1)) && at(i + 2) == "(" && uses.count(x) && x != cur) {
                put(x);
                put(at(i + 1));
                put("(");
                i += 3;
                std::set<Str> seen;
                while (at(i) != ")") {
                    want(i, ".");
                    Str p = at(i + 1);
                    want(i + 2, "(");
                    i += 3;
                    Toks e;
                    for (int dep = 0; dep || at(i) != ")"; i++) {
                        if (i >= t.size()) throw Bad("unbalanced connection");
                        dep += at(i) == "(" ? 1 : at(i) == ")" ? -1 : 0;
                        e.push_back(at(i));
                    }
                    i++;
                    auto& cu = uses[x];
                    if (cu.count(p)) {
                        auto& u = cu[p];
                        if (e.empty() || !us.count(e[0]) || (e.size() != 1 && !(e.size() == 3 && e[1] == "."))) throw Bad("interface port " + p + " of " + x + " is connected to " + (e.empty() ? "nothing" : e[0]));
                        auto& w = us[e[0]];
                        if (w.def != u.def) throw Bad("interface port " + p + " of type " + u.def + " is connected to a " + w.def);
                        Str sel = e.size() == 3 ? e[2] : "";
                        if (!sel.empty() && !defs[w.def].mods.count(sel)) throw Bad("undefined modport " + sel + " in a connection");
                        if (!sel.empty() && !w.mod.empty()) throw Bad("modport selected from a modport port");
                        Str has = sel.empty() ? w.mod : sel;
                        if (!has.empty() && has != u.mod) throw Bad("modport " + has + " is connected to " + (u.mod.empty() ? "a whole interface" : u.mod));
                        if (!seen.insert(p).second) throw Bad("interface port connected twice");
                        Str s;
                        for (auto& m : members(u)) s += (s.empty() ? "." : ", .") + p + "__" + m.first + "(" + e[0] + "__" + m.first + ")\n";
                        o += s;
                        n_conn++;
                    } else {
                        o += "." + p + "(";
                        for (size_t k = 0; k < e.size(); k++) {
                            if (k + 2 < e.size() && e[k + 1] == "." && us.count(e[k])) {
                                o += e[k] + "__" + e[k + 2] + " ";
                                k += 2;
                            } else
                                o += e[k] + " ";
                        }
                        o += ")";
                    }
                    if (at(i) == ",") {
                        o += ",";
                        i++;
                        want(i, ".");
                    } else
                        want(i, ")");
                }
                for (auto& u : uses[x])
                    if (u.second.port && !seen.count(u.first)) throw Bad("interface port " + u.first + " of " + x + " is not connected");
                continue;
            }
            if (us.count(x)) {
                if (at(i + 1) != ".") throw Bad("interface " + x + " used as a value");
                auto& u = us[x];
                auto& g = defs[u.def].sig(at(i + 2));
                if (!u.mod.empty() && !defs[u.def].mods[u.mod].count(g.name)) throw Bad(g.name + " is not in modport " + u.mod);
                put(x + "__" + g.name);
                n_ref++;
                i += 3;
                continue;
            }
            put(x);
            i++;
        }
        return o;
    }
};

// ---- workload -----------------------------------------------------------------------------------------------------
struct Leaf {
    Var* v;
    Str g;
    uint32_t w;
};
struct Sig {
    Str name;
    uint32_t w, n;
    int kind;    // 0 input port, 1 output port, 2 variable, 3 clock, 4 reset
    int driver;  // role, -1: the module that has the instance
};
struct Def {
    Str name;
    std::shared_ptr<InterfaceDefinition> d;
    std::vector<Sig> sigs;
    int roles;
    bool mp;
    std::vector<std::shared_ptr<InterfaceModPortDefinition>> mods;
    std::vector<std::map<Str, int>> dir;
    std::vector<Str> names;
    int sees(int role, const Sig& s) const {
        if (!mp) return s.kind == 1 ? 2 : 1;
        auto it = dir[role].find(s.name);
        return it == dir[role].end() ? 0 : it->second;
    }
};
struct W {
    Rng& r;
    Context& ctx;
    std::map<Str, uint64_t>& feat;
    Str decls, body, ports;
    eq::Spec spec;
    int uid = 0;
    std::vector<std::shared_ptr<Var>> keep;
    W(Rng& r, Context& c, std::map<Str, uint64_t>& f) : r(r), ctx(c), feat(f) {}
    using E = std::pair<Var*, Str>;
    static Str num(uint32_t w, uint64_t v) { return std::to_string(w) + "'d" + std::to_string(v); }
    static Str ty(uint32_t w) { return w == 1 ? "logic " : "logic [" + std::to_string(w - 1) + ":0] "; }
    E ex(const std::vector<Leaf>& in, uint32_t w, int depth) {
        if (in.empty() || r.chance(6)) {
            uint64_t v = r.below(1ull << w);
            return {&constant(v, w), num(w, v)};
        }
        if (depth <= 0 || r.chance(35)) {
            auto& l = in[r.below(in.size())];
            if (l.w == w) return {l.v, l.g};
            if (l.w > w) {
                uint32_t lo = r.below(l.w - w + 1);
                if (l.w == 1) return {l.v, l.g};
                return {&(*l.v)[{lo + w - 1, lo}], l.g + "[" + std::to_string(lo + w - 1) + ":" + std::to_string(lo) + "]"};
            }
            return {&constant(0, w - l.w).concat(*l.v), "{" + num(w - l.w, 0) + ", " + l.g + "}"};
        }
        auto a = ex(in, w, depth - 1), b = ex(in, w, depth - 1);
        switch (r.below(6)) {
            case 0: return {&(*a.first & *b.first), "(" + a.second + " & " + b.second + ")"};
            case 1: return {&(*a.first | *b.first), "(" + a.second + " | " + b.second + ")"};
            case 2: return {&(*a.first ^ *b.first), "(" + a.second + " ^ " + b.second + ")"};
            case 3: return {&(*a.first + *b.first), "(" + a.second + " + " + b.second + ")"};
            case 4: return {&(~*a.first), "(~" + a.second + ")"};
            default: {
                auto c = ex(in, 1, 0);
                keep.push_back(util::mux(*c.first, *a.first, *b.first));
                return {keep.back().get(), "(" + c.second + " ? " + a.second + " : " + b.second + ")"};
            }
        }
    }
    struct Bus;
    Def definition(int no, bool for_top) {
        Def d;
        d.name = "Bus" + std::to_string(no);
        d.d = std::make_shared<InterfaceDefinition>(d.name);
        d.mp = r.chance(60);
        d.roles = d.mp ? 1 + (int)r.below(3) : 1;
        int n = 1 + r.below(5);
        bool ports = !d.mp || r.chance(35);
        for (int i = 0; i < n; i++) {
            Sig s;
            static const char* pool[] = {"read", "write", "valid", "zdata", "addr", "en"};
            s.name = Str(pool[(i + no) % 6]) + (r.chance(20) ? "_x" : "");
            s.w = 1 + r.below(8);
            s.n = !for_top && r.chance(15) ? 2 + r.below(2) : 1;
            bool p = !d.mp || (ports && r.chance(40));
            s.driver = r.chance(35) ? -1 : (int)r.below(d.roles);
            s.kind = p ? (s.driver < 0 ? 0 : 1) : 2;
            d.sigs.push_back(s);
        }
        if (r.chance(45)) d.sigs.push_back({"clk", 1, 1, 3, -1});
        if (r.chance(25)) d.sigs.push_back({"rst", 1, 1, 4, -1});
        if (d.mp) {
            static const char* rn[] = {"Master", "Slave", "Monitor"};
            for (int q = 0; q < d.roles; q++) {
                std::map<Str, int> dir;
                for (auto& s : d.sigs) {
                    if (s.driver == q) dir[s.name] = 2;
                    else if (s.kind == 1 ? false : r.chance(75)) dir[s.name] = 1;
                }
                if (dir.empty()) {
                    for (auto& s : d.sigs)
                        if (s.kind != 1 && dir.empty()) dir[s.name] = 1;
                    if (dir.empty()) {
                        d.sigs.push_back({"idle", 1, 1, 2, -1});
                        dir["idle"] = 1;
                    }
                }
                d.names.push_back(rn[q]);
                d.dir.push_back(dir);
            }
            // a variable no modport shows
            if (!for_top && r.chance(20)) d.sigs.push_back({"spare", 1 + r.below(8), r.chance(40) ? 2u : 1u, 2, -1});
        }
        make(d);
        return d;
    }
    // another definition with the name of one that exists: the same, or different in one place
    Def twin(const Def& o) {
        Def d = o;
        d.d = std::make_shared<InterfaceDefinition>(d.name);
        d.mods.clear();
        switch (r.below(d.mp ? 4 : 3)) {
            case 0: feat["twin.same"]++; break;
            case 1:
                {
                    std::vector<Sig*> c;
                    for (auto& s : d.sigs)
                        if (s.kind < 3) c.push_back(&s);
                    if (c.empty()) break;
                    std::vector<Sig*> hidden;
                    for (auto* x : c) {
                        bool shown = false;
                        for (auto& q : d.dir) shown = shown || q.count(x->name);
                        if (!shown && x->kind == 2) hidden.push_back(x);
                    }
                    auto& s = *r.pick(hidden.empty() || r.chance(40) ? c : hidden);
                    if (!hidden.empty() && &s == hidden[0]) feat["twin.hidden"]++;
                    clash = true;
                    if (r.chance(50)) s.n = s.n == 1 ? 2 : s.n + 1, feat[s.kind == 2 ? "twin.var_size" : "twin.port_size"]++;
                    else s.w++, feat[s.kind == 2 ? "twin.var_width" : "twin.port_width"]++;
                }
                break;
            case 2:
                d.sigs.push_back({"more", 3, 1, d.mp ? 2 : 0, -1});
                clash = true;
                feat["twin.signal"]++;
                break;
            default:
                d.names[0] = "Alt";
                clash = true;
                feat["twin.modport"]++;
        }
        make(d);
        return d;
    }
    bool clash = false, wrong = false;
    std::vector<Bus>* all = nullptr;
    void make(Def& d) {
        for (auto& s : d.sigs) {
            switch (s.kind) {
                case 0: s.n == 1 && r.chance(50) ? d.d->input(s.name, s.w, s.n) : d.d->port(s.name, s.w, s.n, PortDirection::In); break;
                case 1: d.d->output(s.name, s.w, s.n); break;
                case 2: s.n == 1 ? d.d->var(s.name, s.w) : d.d->var(s.name, s.w, s.n); break;
                case 3: d.d->clock(s.name); break;
                default: d.d->reset(s.name);
            }
        }
        if (d.mp) {
            for (int q = 0; q < d.roles; q++) {
                auto m = d.d->create_modport_def(d.names[q]);
                auto& dir = d.dir[q];
                for (auto& x : dir) x.second == 2 ? m->set_output(x.first) : m->set_input(x.first);
                d.mods.push_back(m);
            }
        }
        feat[d.mp ? "def.modports" : "def.ports"]++;
    }
    struct Bus {
        const Def* d;
        Str name;
        std::shared_ptr<InterfaceRef> ref;
        std::map<Str, bool> reg;    // driven by a register
        std::map<Str, bool> ready;  // may be read without closing a combinational loop
        Str leaf(const Sig& s, uint32_t i) const { return name + "__" + s.name + (s.n > 1 ? "_" + std::to_string(i) : ""); }
    };
    static Var& mem(InterfaceRef& f, const Str& n) { return f.has_port(n) ? static_cast<Var&>(f.port(n)) : f.var(n); }
    static void add_leafs(std::vector<Leaf>& o, const Bus& b, InterfaceRef& ref, const Sig& s, InterfaceRef* via = nullptr) {
        if (s.kind == 3 || s.kind == 4) return;
        auto& v = via ? via->port(s.name) : mem(ref, s.name);
        for (uint32_t i = 0; i < s.n; i++) o.push_back({s.n > 1 ? static_cast<Var*>(&v[i]) : &v, b.leaf(s, i), s.w});
    }
    void declare(const Bus& b) {
        for (auto& s : b.d->sigs)
            if (s.kind < 3)
                for (uint32_t i = 0; i < s.n; i++) decls += ty(s.w) + b.leaf(s, i) + ";\n";
    }
    struct Io {
        Var *clk = nullptr, *rst = nullptr;
    };
    // a statement that gives `l` the value of an expression, in a style drawn at random
    void drive(Generator& g, const Leaf& l, const std::vector<Leaf>& in, bool reg, const Io& io, bool comb = false) {
        auto e = ex(in, l.w, 2);
        if (reg) {
            auto st = g.sequential();
            st->add_condition({EventEdgeType::Posedge, io.clk->shared_from_this()});
            st->add_condition({EventEdgeType::Posedge, io.rst->shared_from_this()});
            auto i = std::make_shared<IfStmt>(*io.rst);
            i->add_then_stmt(l.v->assign(constant(0, l.w), AssignmentType::NonBlocking));
            i->add_else_stmt(l.v->assign(*e.first, AssignmentType::NonBlocking));
            st->add_stmt(i);
            body += "always_ff @(posedge clk, posedge rst) if (rst) " + l.g + " <= " + num(l.w, 0) + "; else " + l.g + " <= " + e.second + ";\n";
            feat["driven.register"]++;
        } else {
            if (comb) {
                auto st = g.combinational();
                st->add_stmt(l.v->assign(*e.first, AssignmentType::Blocking));
                feat["driven.always_comb"]++;
            } else {
                g.add_stmt(l.v->assign(*e.first, AssignmentType::Blocking));
                feat["driven.assign"]++;
            }
            body += "assign " + l.g + " = " + e.second + ";\n";
        }
    }
    static Port& as(Var& v, PortType t) {
        auto& p = dynamic_cast<Port&>(v);
        p.set_port_type(t);
        return p;
    }
    // the logic of one role of a bus: reads what it may, drives what it must
    void role(Generator& g, Bus& b, InterfaceRef& ref, int q, std::vector<Leaf> in, const Io& io) {
        for (auto& s : b.d->sigs)
            if (b.d->sees(q, s) && b.ready[s.name]) add_leafs(in, b, ref, s);
        for (auto& s : b.d->sigs) {
            if (s.driver != q) continue;
            std::vector<Leaf> ls;
            add_leafs(ls, b, ref, s);
            bool comb = r.chance(30);
            for (auto& l : ls) drive(g, l, in, b.reg[s.name], io, comb);
            if (!b.ready[s.name]) {
                b.ready[s.name] = true;
                for (auto& l : ls) in.push_back(l);
            }
        }
    }
    std::shared_ptr<InterfaceRef> iface(Generator& g, const Def& d, int q, const Str& name, bool port) {
        return d.mp && q >= 0 ? g.interface(d.mods[q], name, port) : g.interface(d.d, name, port);
    }
    void plan(Bus& b) {
        for (auto& s : b.d->sigs) {
            bool rg = s.driver >= 0 && r.chance(50);
            b.reg[s.name] = rg;
            b.ready[s.name] = rg;
        }
    }
    Port& top_in(Generator& g, const Str& n, uint32_t w) {
        spec.in.push_back({n, w});
        ports += (ports.empty() ? "input " : ", input ") + ty(w) + n;
        return g.port(PortDirection::In, n, w);
    }
    Port& top_out(Generator& g, const Str& n, uint32_t w) {
        spec.out.push_back({n, w});
        ports += (ports.empty() ? "output " : ", output ") + ty(w) + n;
        return g.port(PortDirection::Out, n, w);
    }
    Generator& hierarchy() {
        auto& top = ctx.generator("top");
        std::vector<Leaf> pool;
        auto& clk = top.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        auto& rst = top.port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
        ports = "input logic clk, input logic rst";
        spec.clk = true;
        spec.rst = 1;
        int nin = 2 + r.below(3), outs = 0;
        for (int i = 0; i < nin; i++) {
            uint32_t w = 1 + r.below(8);
            auto n = "a" + std::to_string(i);
            pool.push_back({&top_in(top, n, w), n, w});
        }
        int nd = 1 + r.below(2), nb = 1 + r.below(3);
        auto* ds = new std::vector<Def>;
        for (int i = 0; i < nd; i++) ds->push_back(i && r.chance(25) ? twin((*ds)[0]) : definition(i, false));
        auto* bs = new std::vector<Bus>(nb);
        all = bs;
        for (int i = 0; i < nb; i++) {
            auto& b = (*bs)[i];
            b.d = &(*ds)[r.below(nd)];
            b.name = "bus" + std::to_string(i);
            b.ref = top.interface(b.d->d, b.name, false);
            plan(b);
            declare(b);
        }
        Io tio{&clk, &rst};
        // what the top module drives itself
        for (auto& b : *bs)
            for (auto& s : b.d->sigs) {
                if (s.kind == 3) top.add_stmt(b.ref->port(s.name).assign(clk));
                else if (s.kind == 4) top.add_stmt(b.ref->port(s.name).assign(rst));
                else if (s.driver < 0) {
                    auto& v = mem(*b.ref, s.name);
                    if (s.kind == 0) {
                        // an input of the interface: a variable or an input of the top module, or an expression
                        if (s.n == 1 && r.chance(40)) {
                            auto e = ex(pool, s.w, 1);
                            if (e.first->type() == VarType::Slice) feat["port.slice"]++;
                            else if (e.first->type() == VarType::Expression) feat["port.expression"]++;
                            top.add_stmt(v.assign(*e.first, AssignmentType::Blocking));
                            body += "assign " + b.leaf(s, 0) + " = " + e.second + ";\n";
                        } else {
                            auto& t = top.var("t" + std::to_string(uid++), s.w, s.n);
                            for (uint32_t i = 0; i < s.n; i++) {
                                auto e = ex(pool, s.w, 1);
                                top.add_stmt((s.n > 1 ? static_cast<Var&>(t[i]) : t).assign(*e.first, AssignmentType::Blocking));
                                body += "assign " + b.leaf(s, i) + " = " + e.second + ";\n";
                            }
                            top.add_stmt(v.assign(t, AssignmentType::Blocking));
                            feat["port.variable"]++;
                        }
                    } else {
                        std::vector<Leaf> ls;
                        add_leafs(ls, b, *b.ref, s);
                        for (auto& l : ls) drive(top, l, pool, false, tio);
                        feat["var.by_parent"]++;
                    }
                    b.ready[s.name] = true;
                }
            }
        // children
        int ci = 0;
        for (auto& b : *bs)
            for (int q = 0; q < b.d->roles; q++) child(top, b, q, ci++, pool, outs, tio);
        // what the top module reads
        for (auto& b : *bs)
            for (auto& s : b.d->sigs) {
                if (s.kind >= 3 || !r.chance(70)) continue;
                std::vector<Leaf> ls;
                // sometimes named through a modport of the instance
                std::shared_ptr<InterfaceRef> via;
                if (b.d->mp && r.chance(20)) {
                    int q = r.below(b.d->roles);
                    if (b.d->dir[q].count(s.name)) via = b.ref->get_modport_ref(b.d->names[q]), feat["read.by_modport"]++;
                }
                add_leafs(ls, b, *b.ref, s, via.get());
                bool twice = r.chance(20);
                for (int k = 0; k < 1 + twice; k++)
                    for (auto& l : ls) {
                        auto n = "o" + std::to_string(outs++);
                        auto& o = top_out(top, n, l.w);
                        if (r.chance(60)) {
                            top.add_stmt(o.assign(*l.v, AssignmentType::Blocking));
                            body += "assign " + n + " = " + l.g + ";\n";
                        } else {
                            auto e = ex({l, pool[0]}, l.w, 1);
                            top.add_stmt(o.assign(*e.first, AssignmentType::Blocking));
                            body += "assign " + n + " = " + e.second + ";\n";
                        }
                        feat["read.by_parent"]++;
                    }
            }
        return top;
    }
    void child(Generator& top, Bus& b, int q, int ci, std::vector<Leaf>& pool, int& outs, const Io& tio) {
        auto& d = *b.d;
        auto iname = "c" + std::to_string(ci);
        auto& ch = ctx.generator(r.chance(50) ? "child" : iname + "_mod");
        Str pn = r.chance(50) ? "bus" : r.chance(50) ? b.name : "p";
        auto ref = iface(ch, d, q, pn, true);
        top.add_child_generator(iname, ch);
        int levels = r.chance(25) ? 1 + r.below(2) : 0;
        struct Lvl {
            Generator* g;
            std::shared_ptr<InterfaceRef> ref;
        };
        std::vector<Lvl> lv = {{&ch, ref}};
        for (int i = 0; i < levels; i++) {
            auto& in = ctx.generator(iname + "_in" + std::to_string(i));
            lv.back().g->add_child_generator("inner", in);
            auto rf = iface(in, d, q, "b" + std::to_string(i), true);
            lv.push_back({&in, rf});
            feat["passed_down"]++;
        }
        // plain ports
        auto down = [&](const Str& n, uint32_t w, PortType t, Var& src) -> Port* {
            Var* s = &src;
            Port* p = nullptr;
            for (size_t i = 0; i < lv.size(); i++) {
                p = &lv[i].g->port(PortDirection::In, n, w, 1, t, false);
                (i ? *lv[i - 1].g : top).add_stmt(p->assign(*s, AssignmentType::Blocking));
                s = p;
            }
            return p;
        };
        bool regs = false;
        for (auto& s : d.sigs)
            if (s.driver == q && b.reg[s.name]) regs = true;
        Io io;
        auto& leafref = *lv.back().ref;
        for (auto& s : d.sigs) {
            if (!d.sees(q, s)) continue;
            if (s.kind == 3 && r.chance(70)) io.clk = &leafref.port(s.name), feat["clock.from_interface"]++;
            if (s.kind == 4 && r.chance(70)) io.rst = &leafref.port(s.name), feat["reset.from_interface"]++;
        }
        std::vector<Leaf> in;
        if (regs || r.chance(20)) {
            if (!io.clk) io.clk = down("ck", 1, PortType::Clock, *tio.clk);
            if (!io.rst) io.rst = down("rs", 1, PortType::AsyncReset, *tio.rst);
        }
        int np = r.below(3);
        for (int i = 0; i < np; i++) {
            uint32_t w = 1 + r.below(6);
            auto n = iname + "_i" + std::to_string(i);
            auto e = ex(pool, w, 1);
            decls += ty(w) + n + ";\n";
            body += "assign " + n + " = " + e.second + ";\n";
            in.push_back({down("i" + std::to_string(i), w, PortType::Data, *e.first), n, w});
        }
        auto& g = *lv.back().g;
        role(g, b, leafref, q, in, io);
        // what it reads goes out by a plain port
        std::vector<Leaf> rd = in;
        for (auto& s : d.sigs)
            if (d.sees(q, s)) add_leafs(rd, b, leafref, s);
        int no = r.below(3);
        for (int i = 0; i < no; i++) {
            uint32_t w = 1 + r.below(8);
            auto e = ex(rd, w, 2);
            auto pnm = "q" + std::to_string(i);
            auto n = "o" + std::to_string(outs++);
            Var* s = nullptr;
            for (size_t k = lv.size(); k--;) {
                auto& p = lv[k].g->port(PortDirection::Out, pnm, w);
                lv[k].g->add_stmt(p.assign(s ? *s : *e.first, AssignmentType::Blocking));
                s = &p;
            }
            top.add_stmt(top_out(top, n, w).assign(*s, AssignmentType::Blocking));
            body += "assign " + n + " = " + e.second + ";\n";
        }
        // wiring, in either order of the arguments; rarely one signal comes from another instance, which has to be refused
        const Bus* mix = nullptr;
        int mixed = 0, vis = 0;
        for (auto& sg : d.sigs) vis += d.sees(q, sg) != 0;
        if (!wrong && vis > 1 && r.chance(2))
            for (auto& o : *all)
                if (&o != &b && o.d == b.d) mix = &o;
        if (mix) wrong = true, feat["wired.wrong"]++;
        for (size_t i = 0; i < lv.size(); i++) {
            auto& pg = i ? *lv[i - 1].g : top;
            auto pr = i ? lv[i - 1].ref : d.mp && r.chance(60) ? b.ref->get_modport_ref(d.mods[q]->name()) : b.ref;
            if (r.chance(15) || (mix && !i)) {
                // signal by signal
                feat["wired.by_signal"]++;
                for (auto& sg : d.sigs) {
                    int dir = d.sees(q, sg);
                    if (!dir) continue;
                    bool other = mix && !i && mixed++ == 0;
                    auto& from = other ? *mix->ref : *pr;
                    auto& pv = mem(from, sg.name);
                    auto& cv = lv[i].ref->port(sg.name);
                    if (dir == 1) pg.add_stmt(cv.assign(pv, AssignmentType::Blocking));
                    else pg.add_stmt(pv.assign(cv, AssignmentType::Blocking));
                }
            } else if (r.chance(50)) pg.wire_interface(pr, lv[i].ref);
            else pg.wire_interface(lv[i].ref, pr);
        }
        feat["child"]++;
    }
    // the top module itself has the interface as a port
    Generator& single() {
        auto* d = new Def(definition(0, true));
        auto& top = ctx.generator("top");
        std::vector<Leaf> pool;
        auto& clk = top.port(PortDirection::In, "clk", 1, 1, PortType::Clock, false);
        auto& rst = top.port(PortDirection::In, "rst", 1, 1, PortType::AsyncReset, false);
        ports = "input logic clk, input logic rst";
        spec.clk = true;
        spec.rst = 1;
        auto& a = top_in(top, "a0", 5);
        pool.push_back({&a, "a0", 5});
        auto* b = new Bus;
        b->d = d;
        b->name = "bus";
        int q = r.below(d->roles);
        b->ref = iface(top, *d, q, "bus", true);
        plan(*b);
        for (auto& s : d->sigs) {
            int dir = d->sees(q, s);
            if (!dir) continue;
            auto n = "bus__" + s.name;
            ports += (dir == 1 ? ", input " : ", output ") + ty(s.w) + n;
            (dir == 1 ? spec.in : spec.out).push_back({n, s.w});
            if (dir == 1) b->ready[s.name] = true;
        }
        role(top, *b, *b->ref, q, pool, {&clk, &rst});
        std::vector<Leaf> rd = pool;
        for (auto& s : d->sigs)
            if (d->sees(q, s)) add_leafs(rd, *b, *b->ref, s);
        auto e = ex(rd, 6, 2);
        top.add_stmt(top_out(top, "o0", 6).assign(*e.first, AssignmentType::Blocking));
        body += "assign o0 = " + e.second + ";\n";
        feat["top_port"]++;
        return top;
    }
    Str golden() const { return "module top(" + ports + ");\n" + decls + body + "endmodule\n"; }
};

// what a definition says, by the calls that made it
static void describe(std::map<std::string, std::string>& known, InterfaceDefinition& d, drv::Case& c) {
    std::ostringstream o;
    for (auto& n : d.ports()) {
        auto p = d.port(n);
        o << "port " << n << " " << std::get<0>(p) << " " << (int)std::get<2>(p) << " " << (int)std::get<3>(p);
        for (auto x : std::get<1>(p)) o << "," << x;
        o << "; ";
    }
    for (auto& n : d.vars()) {
        auto p = d.var(n);
        o << "var " << n << " " << p.first;
        for (auto x : p.second) o << "," << x;
        o << "; ";
    }
    auto mods = d.mod_ports();
    std::map<std::string, std::string> sorted;
    for (auto& m : mods) {
        for (auto& n : m.second->inputs()) sorted[m.first] += " in " + n;
        for (auto& n : m.second->outputs()) sorted[m.first] += " out " + n;
    }
    for (auto& m : sorted) o << "modport " << m.first << m.second << "; ";
    auto it = known.emplace(d.def_name(), o.str());
    if (!it.second && it.first->second != o.str())
        c.violation("accepted", "two different definitions of interface " + d.def_name() + " are in use and accepted: " + it.first->second + " and " + o.str());
    c.st.add("definitions_in_use");
}
void iface(drv::Case& c) {
    uint64_t s = c.a.seed * 1000003 + c.i;
    std::map<Str, uint64_t> feat;
    Rng r(s);
    Context ctx;
    W w(r, ctx, feat);
    Str text, names, why, flat;
    Generator* topg = nullptr;
    try {
        auto& top = *(topg = &(r.chance(20) ? w.single() : w.hierarchy()));
        if (c.a.show) std::cerr << w.golden() << "// ----\n";
        Rng r2(s ^ 0xabcdef);
        auto p = pl::P::random(r2);
        names = p.str();
        text = pl::emit(top, pl::sequence(p));
    } catch (const std::exception& e) {
        why = e.what();
    }
    if (c.a.show) std::cerr << "// passes " << names << "\n" << text << "\n";
    if (w.wrong) {
        c.st.merge(feat, "feat.");
        if (why.empty()) c.violation("accepted", "an interface port that is wired to two instances is accepted");
        else c.st.add("wrong_refused");
        return;
    }
    if (!why.empty() && w.clash) {
        c.st.add("clash_refused");
        c.st.merge(feat, "feat.");
        return;
    }
    if (!why.empty()) {
        c.violation("rejected", "a legal design is refused: " + why);
        return;
    }
    if (w.clash) {
        // two different definitions under one name, both in use
        std::map<std::string, std::string> known;
        std::set<Generator*> seen;
        std::function<void(Generator*)> walk = [&](Generator* g) {
            if (!seen.insert(g).second) return;
            for (auto& x : g->interfaces()) {
                auto d = x.second->definition();
                if (auto* m = dynamic_cast<InterfaceModPortDefinition*>(d.get())) {
                    auto* f = &*m->def();
                    describe(known, *f, c);
                } else if (auto* f = dynamic_cast<InterfaceDefinition*>(d.get()))
                    describe(known, *f, c);
            }
            for (auto& k : g->get_child_generators()) walk(k.get());
        };
        walk(topg);
    }
    Flat f;
    try {
        flat = f.run(text);
    } catch (const std::exception& e) {
        c.violation("bad", std::string("interfaces: ") + e.what());
        return;
    }
    if (c.a.show) std::cerr << "// flat\n" << flat << "\n";
    Rng rv(s ^ 0x777);
    auto res = eq::compare(w.golden(), "top", flat, "top", w.spec, rv, 32, true, true);
    c.st.add("vectors", res.vectors);
    c.st.add("outputs_compared", res.compared);
    c.st.add("output_toggles", res.toggles);
    c.st.add("interface_instances", f.n_inst);
    c.st.add("interface_connections", f.n_conn);
    c.st.add("interface_ports", f.n_port);
    c.st.add("interface_signal_uses", f.n_ref);
    switch (res.k) {
        case eq::Res::Same: c.st.add("agreed"); break;
        case eq::Res::Differ: c.violation("differ", res.msg); break;
        case eq::Res::Lint: c.violation("lint", res.msg); break;
        case eq::Res::Bad: c.violation("bad", res.msg); break;
        case eq::Res::Unjudged: c.unjudged(res.msg); break;
    }
    c.st.merge(feat, "feat.");
    if (res.toggles) c.st.see(text);
    c.st.sample("passes: " + names + "\n" + text);
}
}  // namespace
int main(int argc, char** argv) { return drv::run(argc, argv, {{"iface", iface}}); }
