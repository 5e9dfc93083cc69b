// Elaboration and two-state simulation of the parsed subset.
#pragma once
#include <algorithm>
#include <functional>

#include "svparse.hh"

namespace sv {
struct ElabError : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Unstable : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Ty;
struct StructTy {
    std::string name;
    std::vector<std::pair<std::string, std::shared_ptr<Ty>>> f;
};
struct Ty {
    bool sgn = false;
    std::vector<std::pair<int64_t, int64_t>> unp, pk;
    uint32_t base = 1;
    bool base_sel = false;  // int-like: base may be bit selected
    std::shared_ptr<StructTy> st;
    std::string en;
    static uint32_t n(const std::pair<int64_t, int64_t>& d) { return (uint32_t)(std::abs(d.first - d.second) + 1); }
    uint32_t packed_w() const {
        uint32_t w = base;
        for (auto& d : pk) w *= n(d);
        return w;
    }
    uint32_t width() const {
        uint32_t w = packed_w();
        for (auto& d : unp) w *= n(d);
        return w;
    }
};

struct BE;
using BP = std::shared_ptr<BE>;
struct DynIdx {
    BP e;
    uint32_t stride;
    int64_t left, right;
};
struct BFunc;
struct BE {
    enum K { Const, Ref, Un, Bin, Cond, Concat, Cast, Call } k = Const;
    std::string op;
    int opc = 0;
    uint32_t w = 1;
    bool sgn = false;
    bool unpacked = false;
    Ty ty;
    BV c;
    bool unsized = false;
    int sig = -1;
    uint32_t off = 0;
    std::vector<DynIdx> dyn;
    std::vector<BP> a;
    std::shared_ptr<BFunc> fn;
};
struct BS;
using BSP = std::shared_ptr<BS>;
struct BS {
    SK k{};
    BP l, r;
    std::vector<BSP> b;
    std::vector<std::pair<std::vector<BP>, BSP>> cases;
    BSP init, step;
    uint32_t line = 0;
    int sig = -1;
    bool unique = false;
};
struct BFunc {
    std::string name;
    int ret = -1;
    bool is_void = false;
    std::vector<int> args;
    std::vector<bool> outs;
    BSP body;
    bool done = false;
};
struct Proc {
    enum K { Assign, Comb, FF, Initial, Final } k = Assign;
    BP l, r;
    BSP body;
    std::vector<std::pair<bool, BP>> ev;
    std::string where;
    uint32_t line = 0;
};
struct Sig {
    std::string path;
    Ty ty;
    std::string dir;
    bool local = false;
    bool is_input_of_child = false;
};

struct Scope {
    std::string path;
    const Module* m = nullptr;
    Scope* parent = nullptr;
    std::map<std::string, int> sigs;
    std::map<std::string, BV> consts;
    std::map<std::string, std::pair<bool, bool>> const_flags;  // signed, unsized
    std::map<std::string, Scope*> ifaces;
    std::map<std::string, std::shared_ptr<BFunc>> funcs;
    std::set<std::string> names;
};

class Design {
public:
    std::vector<Sig> sigs;
    std::vector<BV> vals;
    std::vector<Proc> procs;
    std::vector<std::string> issues;
    std::vector<std::pair<std::string, std::string>> inst_list;  // path, module name
    uint64_t n_evals = 0, n_ff = 0;
    bool strict = true;

    Design(const Unit& u, const std::string& top, const std::map<std::string, BV>& params = {}) : u_(u) {
        for (auto& d : u.dup_mods) issue("duplicate module definition " + d);
        for (auto& d : u.dup_types) issue("duplicate type definition " + d);
        if (!u.mods.count(top)) throw ElabError("no module " + top);
        root_ = scope(top, nullptr, "");
        std::vector<std::pair<std::string, BP>> ps;
        for (auto& p : params) {
            auto e = std::make_shared<BE>();
            e->c = p.second;
            e->w = p.second.w;
            ps.emplace_back(p.first, e);
        }
        elaborate(*root_, u.mods.at(top), ps);
        vals.reserve(sigs.size());
        for (auto& s : sigs) vals.emplace_back(s.ty.width(), 0);
        check_drivers();
        for (auto& p : procs)
            if (p.k == Proc::Initial) run_body(p.body);
    }
    Scope* root() { return root_; }
    int find(const std::string& path) const {
        auto i = by_path_.find(path);
        return i == by_path_.end() ? -1 : i->second;
    }
    void set(const std::string& n, const BV& v) {
        int i = find(n);
        if (i < 0) throw ElabError("no signal " + n);
        vals[i] = v.resize(vals[i].w, false);
    }
    const BV& get(const std::string& n) const {
        int i = find(n);
        if (i < 0) throw ElabError("no signal " + n);
        return vals[i];
    }
    void run() {
        for (int it = 0; it < 40; it++) {
            settle();
            std::vector<size_t> trig;
            size_t k = 0;
            for (size_t i = 0; i < procs.size(); i++) {
                auto& p = procs[i];
                if (p.k != Proc::FF) continue;
                bool fire = false;
                for (auto& e : p.ev) {
                    bool nv = eval(*e.second).bit(0);
                    if (k >= prev_.size()) prev_.push_back(first_ ? nv : false);
                    bool ov = prev_[k];
                    if (e.first ? (!ov && nv) : (ov && !nv)) fire = true;
                    prev_[k] = nv;
                    k++;
                }
                if (fire) trig.push_back(i);
            }
            first_ = false;
            if (trig.empty()) return;
            nba_.clear();
            in_ff_ = true;
            for (auto i : trig) {
                n_ff++;
                run_body(procs[i].body);
            }
            in_ff_ = false;
            auto q = std::move(nba_);
            nba_.clear();
            for (auto& [sig, off, v] : q) write(sig, off, v);
        }
        throw Unstable("sequential feedback does not settle");
    }
    void settle() {
        for (int it = 0; it < 300; it++) {
            changed_ = false;
            snapshot_ = vals;
            for (auto& p : procs) {
                if (p.k == Proc::Assign) {
                    assign(*p.l, *p.r, false);
                } else if (p.k == Proc::Comb) {
                    run_body(p.body);
                }
            }
            bool diff = false;
            for (size_t i = 0; i < vals.size(); i++)
                if (!sigs[i].local && vals[i] != snapshot_[i]) {
                    diff = true;
                    break;
                }
            if (!diff) return;
        }
        throw Unstable("combinational logic does not settle");
    }
    BV eval_text(const std::string& text, const Unit& u) {
        (void)u;
        Parser p(text);
        auto e = p.expression();
        auto b = bind(*root_, e);
        return eval_ctx(*b, b->w, b->sgn);
    }
    BP bind_text(const std::string& text) {
        Parser p(text);
        auto e = p.expression();
        return bind(*root_, e);
    }
    BV eval(const BE& e) { return eval_ctx(e, e.w, e.sgn); }

private:
    const Unit& u_;
    Scope* root_ = nullptr;
    std::vector<std::unique_ptr<Scope>> scopes_;
    std::map<std::string, int> by_path_;
    std::vector<bool> prev_;
    bool first_ = true, changed_ = false, in_ff_ = false;
    std::vector<BV> snapshot_;
    std::vector<std::tuple<int, uint32_t, BV>> nba_;
    int depth_ = 0;

    void issue(const std::string& s) {
        if (issues.size() < 50) issues.push_back(s);
    }
    Scope* scope(const std::string&, Scope* parent, const std::string& path) {
        scopes_.push_back(std::make_unique<Scope>());
        auto* s = scopes_.back().get();
        s->parent = parent;
        s->path = path;
        return s;
    }
    int add_sig(Scope& s, const std::string& n, const Ty& t, const std::string& dir, bool local = false) {
        if (!local) {
            if (!s.names.insert(n).second) issue("duplicate declaration of " + s.path + n);
        }
        Sig g;
        g.path = s.path + n;
        g.ty = t;
        g.dir = dir;
        g.local = local;
        sigs.push_back(g);
        int id = (int)sigs.size() - 1;
        if (!local) {
            s.sigs[n] = id;
            by_path_[g.path] = id;
        }
        return id;
    }
    int64_t cint(Scope& s, const EP& e) {
        auto b = bind(s, e);
        if (!is_const(*b)) throw ElabError("constant expression expected in " + s.path);
        auto v = eval_const(*b);
        auto r = v.resize(64, b->sgn);
        return (int64_t)r.d[0];
    }
    static bool is_const(const BE& e) {
        if (e.k == BE::Const) return true;
        if (e.k == BE::Ref || e.k == BE::Call) return false;
        return std::all_of(e.a.begin(), e.a.end(), [](const BP& p) { return is_const(*p); });
    }
    BV eval_const(const BE& e) { return eval_ctx(e, e.w, e.sgn); }

    Ty type(Scope& s, const TypeDecl& d) {
        Ty t;
        t.sgn = d.sgn;
        t.base = d.base;
        t.base_sel = d.base > 1;
        for (auto& x : d.packed) t.pk.emplace_back(cint(s, x.hi), cint(s, x.lo));
        if (d.is_struct) {
            t.st = std::make_shared<StructTy>();
            uint32_t w = 0;
            for (auto& f : d.fields) {
                auto ft = std::make_shared<Ty>(type(s, f.first));
                w += ft->width();
                t.st->f.emplace_back(f.second, ft);
            }
            t.base = w;
        } else if (!d.name.empty()) {
            if (u_.enums.count(d.name)) {
                auto& e = u_.enums.at(d.name);
                auto b = type(s, e.base);
                t.base = b.width();
                t.sgn = b.sgn;
                t.base_sel = t.base > 1;
                t.en = d.name;
            } else if (u_.typedefs.count(d.name)) {
                auto b = type(s, u_.typedefs.at(d.name));
                t.base = b.width();
                t.st = b.st;
                t.sgn = b.sgn;
                t.base_sel = !t.st;
                if (t.st) t.st->name = d.name;
            } else {
                throw ElabError("unknown type " + d.name);
            }
        }
        if (t.width() > 512) throw Unsupported("signal wider than 512 bits");
        for (auto& x : t.pk)
            if (x.first < x.second) issue("packed range [" + std::to_string(x.first) + ":" + std::to_string(x.second) + "] in " + s.path);
        return t;
    }
    Ty vtype(Scope& s, const VarDecl& v) {
        auto t = type(s, v.type);
        for (auto& x : v.unpacked) t.unp.emplace_back(cint(s, x.hi), cint(s, x.lo));
        if (t.width() > 512) throw Unsupported("signal wider than 512 bits");
        return t;
    }

    void elaborate(Scope& s, const Module& m, const std::vector<std::pair<std::string, BP>>& ov) {
        if (++depth_ > 60) throw ElabError("instance recursion");
        s.m = &m;
        inst_list.emplace_back(s.path, m.name);
        for (size_t i = 0; i < m.params.size(); i++) {
            auto& [n, e] = m.params[i];
            if (!s.names.insert(n).second) issue("duplicate declaration of parameter " + n);
            BP v;
            for (auto& o : ov)
                if (o.first == n) v = o.second;
            bool sg = false, us = false;
            BV val;
            if (v) {
                val = eval_const(*v);
                sg = v->sgn;
                us = v->unsized;
            } else if (e) {
                auto b = bind(s, e);
                if (!is_const(*b)) throw ElabError("non constant parameter value for " + n);
                val = eval_const(*b);
                sg = b->sgn;
                us = b->unsized;
            } else {
                issue("parameter " + m.name + "." + n + " has no value");
            }
            s.consts[n] = val;
            s.const_flags[n] = {sg, us};
        }
        for (auto& o : ov) {
            bool f = false;
            for (auto& p : m.params) f |= p.first == o.first;
            if (!f) issue("instance overrides unknown parameter " + m.name + "." + o.first);
        }
        for (int local = 0; local < 2; local++)
        for (auto& e : u_.enums) {
            if (local ? e.second.scope != m.name : !e.second.scope.empty()) continue;
            int64_t nextv = 0;
            auto bt = type(s, e.second.base);
            std::set<uint64_t> seen;
            for (auto& i : e.second.items) {
                if (i.second) nextv = cint(s, i.second);
                if (bt.width() < 64 && (uint64_t)nextv >> bt.width() && nextv > 0) issue("enum value of " + i.first + " does not fit");
                BV v(bt.width(), (uint64_t)nextv);
                if (!seen.insert(v.u64()).second) issue("enum " + e.first + " has two names for one value");
                if (local && !s.names.insert(i.first).second) issue("two things in " + m.name + " are named " + i.first);
                s.consts[i.first] = v;
                s.const_flags[i.first] = {bt.sgn, false};
                nextv++;
            }
        }
        for (auto& p : m.ports) {
            if (p.dir == "interface") continue;  // aliased by the parent
            add_sig(s, p.name, vtype(s, p), p.dir);
        }
        items(s, m, m.items, true, "");
        for (auto& f : m.funcs) {
            auto bf = std::make_shared<BFunc>();
            bf->name = f.name;
            if (!s.names.insert(f.name).second) issue("duplicate declaration of function " + f.name);
            s.funcs[f.name] = bf;
        }
        for (auto& f : m.funcs) {
            auto bf = s.funcs[f.name];
            std::map<std::string, int> loc;
            bf->is_void = f.ret.is_void;
            if (!f.ret.is_void) {
                bf->ret = add_sig(s, f.name + "$ret", type(s, f.ret), "", true);
                loc[f.name] = bf->ret;
            }
            for (auto& a : f.args) {
                int id = add_sig(s, f.name + "$" + a.name, vtype(s, a), "", true);
                if (loc.count(a.name)) issue("duplicate function argument " + a.name);
                loc[a.name] = id;
                bf->args.push_back(id);
                bf->outs.push_back(a.dir == "output");
            }
        }
        for (auto& f : m.funcs) {
            auto bf = s.funcs[f.name];
            std::map<std::string, int> loc;
            size_t k = 0;
            if (bf->ret >= 0) loc[f.name] = bf->ret;
            for (auto& a : f.args) loc[a.name] = bf->args[k++];
            locals_.push_back(loc);
            bf->body = bstmt(s, f.body);
            locals_.pop_back();
        }
        items(s, m, m.items, false, "");
        depth_--;
    }
    std::vector<std::map<std::string, int>> locals_;
    std::vector<std::pair<std::string, BV>> genvars_;

    void items(Scope& s, const Module& m, const std::vector<Item>& its, bool decl, const std::string& pfx) {
        for (auto& it : its) {
            if (it.gen) {
                auto& g = *it.gen;
                if (decl) {
                    for (auto& i2 : g.items)
                        if (i2.var) throw Unsupported("declaration inside generate loop");
                    if (!g.label.empty() && !s.names.insert(g.label).second) issue("duplicate generate label " + g.label);
                    continue;
                }
                genvars_.emplace_back(g.var, BV(32));
                size_t gi = genvars_.size() - 1;
                genvars_[gi].second = BV(32, (uint64_t)cint(s, g.init));
                for (int n = 0;; n++) {
                    if (n > 4096) throw ElabError("generate loop does not end");
                    if (cint(s, g.cond) == 0) break;
                    auto iv = (int64_t)(int32_t)genvars_[gi].second.u64();
                    items(s, m, g.items, false, pfx + g.label + "[" + std::to_string(iv) + "].");
                    int64_t step = g.step ? cint(s, g.step) : 1;
                    if (g.step_op == "++" || g.step_op == "+=") iv += step;
                    else if (g.step_op == "--" || g.step_op == "-=") iv -= step;
                    else iv = step;
                    genvars_[gi].second = BV(32, (uint64_t)iv);
                }
                genvars_.pop_back();
                continue;
            }
            if (decl) {
                if (it.var) {
                    add_sig(s, it.var->name, vtype(s, *it.var), "");
                } else if (it.inst && u_.mods.count(it.inst->mod) && u_.mods.at(it.inst->mod).is_interface) {
                    auto& im = u_.mods.at(it.inst->mod);
                    if (!s.names.insert(it.inst->name).second) issue("duplicate declaration of " + it.inst->name);
                    auto* c = scope(it.inst->mod, &s, s.path + it.inst->name + ".");
                    s.ifaces[it.inst->name] = c;
                    elaborate(*c, im, {});
                }
                continue;
            }
            if (it.var) {
                if (it.var->init) {
                    Proc p;
                    p.k = Proc::Initial;
                    auto a = std::make_shared<BS>();
                    a->k = SK::Assign;
                    auto id = std::make_shared<Expr_>();
                    id->k = EK::Id;
                    id->s = it.var->name;
                    a->l = bind(s, id);
                    a->r = bind(s, it.var->init);
                    p.body = a;
                    procs.push_back(p);
                }
            } else if (it.assign) {
                Proc p;
                p.k = Proc::Assign;
                p.l = lval(s, it.assign->first);
                p.r = bind(s, it.assign->second);
                p.where = s.path;
                p.line = it.line;
                chk_assign(s, *p.l, *p.r, "assign", it.line);
                procs.push_back(p);
            } else if (it.always) {
                auto& a = *it.always;
                Proc p;
                p.where = s.path;
                p.line = a.line;
                if (a.kind == "always_comb" || a.kind == "always_latch") p.k = Proc::Comb;
                else if (a.kind == "initial") p.k = Proc::Initial;
                else if (a.kind == "final") p.k = Proc::Final;
                else p.k = Proc::FF;
                for (auto& e : a.ev) {
                    auto b = bind(s, e.e);
                    if (b->w != 1) issue("edge of a " + std::to_string(b->w) + " bit expression in " + s.path);
                    p.ev.emplace_back(e.pos, b);
                }
                locals_.push_back({});
                p.body = bstmt(s, a.body);
                locals_.pop_back();
                procs.push_back(p);
            } else if (it.inst) {
                auto& in = *it.inst;
                if (!u_.mods.count(in.mod)) {
                    throw ElabError("instance of unknown module " + in.mod);
                }
                auto& cm = u_.mods.at(in.mod);
                if (pfx.empty() && !cm.is_interface && !s.names.insert(in.name).second) issue("duplicate declaration of instance " + in.name);
                std::vector<std::pair<std::string, BP>> ps;
                for (auto& p : in.params) {
                    if (!p.second) continue;
                    auto b = bind(s, p.second);
                    if (!is_const(*b)) throw ElabError("non constant parameter override");
                    ps.emplace_back(p.first, b);
                }
                Scope* c;
                if (cm.is_interface) {
                    c = s.ifaces.at(in.name);
                } else {
                    c = scope(in.mod, &s, s.path + pfx + in.name + ".");
                    // interface ports first
                    for (auto& p : cm.ports)
                        if (p.dir == "interface") {
                            EP e;
                            for (auto& q : in.ports)
                                if (q.first == p.name) e = q.second;
                            if (!e) {
                                issue("interface port " + p.name + " not connected");
                                continue;
                            }
                            std::string nm = e->k == EK::Member ? e->a[0]->s : e->s;
                            if (!s.ifaces.count(nm)) throw ElabError("unknown interface " + nm);
                            c->ifaces[p.name] = s.ifaces[nm];
                            c->names.insert(p.name);
                        }
                    elaborate(*c, cm, ps);
                }
                std::set<std::string> seen;
                for (auto& q : in.ports) {
                    if (!seen.insert(q.first).second) issue("port " + q.first + " connected twice");
                    const VarDecl* pd = nullptr;
                    for (auto& p : cm.ports)
                        if (p.name == q.first) pd = &p;
                    if (!pd) {
                        issue("connection to unknown port " + in.mod + "." + q.first);
                        continue;
                    }
                    if (pd->dir == "interface") continue;
                    if (!q.second) {
                        if (pd->dir == "input") issue("input port " + in.mod + "." + q.first + " left open");
                        continue;
                    }
                    Proc p;
                    p.k = Proc::Assign;
                    p.where = s.path;
                    p.line = in.line;
                    auto ref = std::make_shared<BE>();
                    ref->k = BE::Ref;
                    ref->sig = c->sigs.at(q.first);
                    ref->ty = sigs[ref->sig].ty;
                    ref->w = ref->ty.width();
                    ref->sgn = ref->ty.sgn;
                    ref->unpacked = !ref->ty.unp.empty();
                    if (pd->dir == "input") {
                        p.l = ref;
                        p.r = bind(s, q.second);
                        sigs[ref->sig].is_input_of_child = true;
                    } else {
                        p.l = lval(s, q.second);
                        p.r = ref;
                    }
                    chk_assign(s, *p.l, *p.r, "port connection " + in.mod + "." + q.first, in.line);
                    procs.push_back(p);
                }
                for (auto& p : cm.ports)
                    if (p.dir != "interface" && !seen.count(p.name) && p.dir == "input") issue("input port " + in.mod + "." + p.name + " of " + in.name + " not connected");
            }
        }
    }
    void chk_assign(Scope& s, const BE& l, const BE& r, const std::string& what, uint32_t line) {
        if (!strict) return;
        if (l.w != r.w && !r.unsized) issue(what + " width mismatch in " + s.path + " line " + std::to_string(line) + ": " + std::to_string(l.w) + " vs " + std::to_string(r.w));
        if (l.unpacked != r.unpacked) issue(what + " between packed and unpacked in " + s.path + " line " + std::to_string(line));
    }

    BP lval(Scope& s, const EP& e) {
        auto b = bind(s, e);
        std::function<void(const BE&)> chk = [&](const BE& x) {
            if (x.k == BE::Concat)
                for (auto& c : x.a) chk(*c);
            else if (x.k != BE::Ref)
                throw ElabError("illegal assignment target in " + s.path);
        };
        chk(*b);
        return b;
    }

    int lookup_local(const std::string& n) {
        for (auto i = locals_.rbegin(); i != locals_.rend(); ++i) {
            auto f = i->find(n);
            if (f != i->end()) return f->second;
        }
        return -1;
    }
    BP konst(const BV& v, bool sgn, bool unsized = false) {
        auto b = std::make_shared<BE>();
        b->k = BE::Const;
        b->c = v;
        b->w = v.w;
        b->sgn = sgn;
        b->unsized = unsized;
        return b;
    }
    static int opcode(const std::string& o) {
        static const std::map<std::string, int> m = {
            {"+", 1}, {"-", 2}, {"*", 3}, {"/", 4}, {"%", 5}, {"&", 6}, {"|", 7}, {"^", 8}, {"~^", 9}, {"^~", 9},
            {"**", 10}, {"<<", 11}, {"<<<", 11}, {">>", 12}, {">>>", 13}, {"==", 14}, {"!=", 15}, {"===", 14}, {"!==", 15},
            {"<", 16}, {"<=", 17}, {">", 18}, {">=", 19}, {"&&", 20}, {"||", 21}, {"!", 22}, {"~", 23}, {"~&", 24}, {"~|", 25}};
        auto i = m.find(o);
        if (i == m.end()) throw ElabError("operator " + o);
        return i->second;
    }
    BP bind(Scope& s, const EP& e) {
        auto b = std::make_shared<BE>();
        switch (e->k) {
            case EK::Num:
                return konst(e->val, e->sgn, !e->sized);
            case EK::Str:
                throw Unsupported("string");
            case EK::Id: {
                int l = lookup_local(e->s);
                if (l < 0) {
                    for (auto i = genvars_.rbegin(); i != genvars_.rend(); ++i)
                        if (i->first == e->s) return konst(i->second, true, true);
                    auto f = s.sigs.find(e->s);
                    if (f != s.sigs.end()) l = f->second;
                }
                if (l >= 0) {
                    b->k = BE::Ref;
                    b->sig = l;
                    b->ty = sigs[l].ty;
                    b->w = b->ty.width();
                    b->sgn = b->ty.sgn;
                    b->unpacked = !b->ty.unp.empty();
                    return b;
                }
                auto c = s.consts.find(e->s);
                if (c != s.consts.end()) {
                    auto fl = s.const_flags[e->s];
                    return konst(c->second, fl.first, fl.second);
                }
                throw ElabError("undeclared identifier '" + e->s + "' in " + (s.m ? s.m->name : "?") + " line " + std::to_string(e->line));
            }
            case EK::Member: {
                if (e->a[0]->k == EK::Id && s.ifaces.count(e->a[0]->s) && lookup_local(e->a[0]->s) < 0) {
                    auto* is = s.ifaces[e->a[0]->s];
                    auto f = is->sigs.find(e->s);
                    if (f == is->sigs.end()) throw ElabError("no member " + e->s + " in interface");
                    b->k = BE::Ref;
                    b->sig = f->second;
                    b->ty = sigs[b->sig].ty;
                    b->w = b->ty.width();
                    b->sgn = b->ty.sgn;
                    b->unpacked = !b->ty.unp.empty();
                    return b;
                }
                auto p = bind(s, e->a[0]);
                if (p->k != BE::Ref || !p->ty.st || !p->ty.unp.empty() || !p->ty.pk.empty())
                    throw ElabError("member '" + e->s + "' of something that is not a struct");
                uint32_t off = p->ty.base;
                for (auto& f : p->ty.st->f) {
                    off -= f.second->width();
                    if (f.first == e->s) {
                        *b = *p;
                        b->off += off;
                        b->ty = *f.second;
                        b->w = b->ty.width();
                        b->sgn = b->ty.sgn;
                        return b;
                    }
                }
                throw ElabError("no struct field " + e->s);
            }
            case EK::Index: {
                auto p = bind(s, e->a[0]);
                if (p->k == BE::Const) {
                    auto i = cint(s, e->a[1]);
                    if (i < 0 || (uint64_t)i >= p->c.w) {
                        issue("index out of range on constant");
                        return konst(BV(1), false);
                    }
                    return konst(p->c.slice((uint32_t)i, (uint32_t)i), false);
                }
                auto ix = bind(s, e->a[1]);
                *b = *p;
                std::pair<int64_t, int64_t> d;
                if (!b->ty.unp.empty()) {
                    d = b->ty.unp.front();
                    b->ty.unp.erase(b->ty.unp.begin());
                } else if (!b->ty.pk.empty()) {
                    d = b->ty.pk.front();
                    b->ty.pk.erase(b->ty.pk.begin());
                    b->ty.sgn = false;
                } else if ((b->ty.base_sel || b->ty.st) && b->ty.base > 1) {
                    d = {b->ty.base - 1, 0};
                    Ty nt;
                    b->ty = nt;
                } else {
                    throw ElabError("index applied to a scalar in " + (s.m ? s.m->name : "?") + " line " + std::to_string(e->line));
                }
                b->w = b->ty.width();
                b->sgn = b->ty.sgn;
                b->unpacked = !b->ty.unp.empty();
                if (is_const(*ix)) {
                    auto v = (int64_t)eval_const(*ix).resize(64, ix->sgn).d[0];
                    auto lo = std::min(d.first, d.second), hi = std::max(d.first, d.second);
                    if (v < lo || v > hi) {
                        issue("constant index " + std::to_string(v) + " out of range [" + std::to_string(d.first) + ":" + std::to_string(d.second) + "] in " + s.path);
                        return konst(BV(b->w), false);
                    }
                    b->off += (uint32_t)std::abs(v - d.second) * b->w;
                } else {
                    b->dyn.push_back({ix, b->w, d.first, d.second});
                }
                return b;
            }
            case EK::Range: {
                auto p = bind(s, e->a[0]);
                auto hi = cint(s, e->a[1]), lo = cint(s, e->a[2]);
                if (p->k == BE::Const) {
                    if (hi < lo || (uint64_t)hi >= p->c.w) {
                        issue("part select out of range on constant");
                        return konst(BV(1), false);
                    }
                    return konst(p->c.slice((uint32_t)hi, (uint32_t)lo), false);
                }
                *b = *p;
                std::pair<int64_t, int64_t>* d;
                bool unp = !b->ty.unp.empty();
                if (unp) {
                    d = &b->ty.unp.front();
                } else if (!b->ty.pk.empty()) {
                    d = &b->ty.pk.front();
                } else if ((b->ty.base_sel || b->ty.st) && b->ty.base > 1) {
                    auto w = b->ty.base;
                    Ty nt;
                    nt.pk.emplace_back(w - 1, 0);
                    b->ty = nt;
                    d = &b->ty.pk.front();
                } else {
                    throw ElabError("part select of a scalar in " + (s.m ? s.m->name : "?") + " line " + std::to_string(e->line));
                }
                uint32_t total = unp ? b->ty.width() : b->ty.packed_w();
                uint32_t el = total / Ty::n(*d);
                auto l = std::min(d->first, d->second), h = std::max(d->first, d->second);
                bool desc = d->first >= d->second;
                if (hi < l || hi > h || lo < l || lo > h || (desc ? hi < lo : hi > lo)) {
                    issue("part select [" + std::to_string(hi) + ":" + std::to_string(lo) + "] outside [" + std::to_string(d->first) + ":" + std::to_string(d->second) + "] in " + s.path + " line " + std::to_string(e->line));
                    return konst(BV(std::max<int64_t>(1, (std::abs(hi - lo) + 1) * el)), false);
                }
                b->off += (uint32_t)std::abs(lo - d->second) * el;
                *d = {hi, lo};
                if (!unp) b->ty.sgn = false;
                b->w = b->ty.width();
                b->sgn = b->ty.sgn;
                b->unpacked = unp;
                return b;
            }
            case EK::Un: {
                auto x = bind(s, e->a[0]);
                nounp(s, *x);
                b->k = BE::Un;
                b->op = e->s;
                b->opc = opcode(e->s);
                b->a = {x};
                if (e->s == "+" || e->s == "-" || e->s == "~") {
                    b->w = x->w;
                    b->sgn = x->sgn;
                    b->unsized = x->unsized;
                } else {
                    b->w = 1;
                    b->sgn = false;
                }
                return b;
            }
            case EK::Bin: {
                auto x = bind(s, e->a[0]), y = bind(s, e->a[1]);
                if ((x->unpacked || y->unpacked) && !(e->s == "==" || e->s == "!=")) nounp(s, x->unpacked ? *x : *y);
                b->k = BE::Bin;
                b->op = e->s;
                b->opc = opcode(e->s);
                b->a = {x, y};
                switch (b->opc) {
                    case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9:
                        b->w = std::max(x->w, y->w);
                        b->sgn = x->sgn && y->sgn;
                        b->unsized = x->unsized && y->unsized;
                        break;
                    case 10: case 11: case 12: case 13:
                        b->w = x->w;
                        b->sgn = x->sgn;
                        b->unsized = x->unsized;
                        break;
                    default:
                        b->w = 1;
                        b->sgn = false;
                }
                return b;
            }
            case EK::Cond: {
                auto c = bind(s, e->a[0]), x = bind(s, e->a[1]), y = bind(s, e->a[2]);
                b->k = BE::Cond;
                b->a = {c, x, y};
                b->w = std::max(x->w, y->w);
                b->sgn = x->sgn && y->sgn;
                b->unpacked = x->unpacked && y->unpacked;
                b->unsized = x->unsized && y->unsized;
                return b;
            }
            case EK::Concat: {
                b->k = BE::Concat;
                b->w = 0;
                for (auto& x : e->a) {
                    auto y = bind(s, x);
                    if (y->unsized) issue("unsized constant in concatenation in " + s.path);
                    nounp(s, *y);
                    b->w += y->w;
                    b->a.push_back(y);
                }
                if (b->w > 512) throw Unsupported("wide concat");
                return b;
            }
            case EK::Repl: {
                auto n = cint(s, e->a[0]);
                if (n <= 0) throw ElabError("replication count " + std::to_string(n));
                auto y = bind(s, e->a[1]);
                b->k = BE::Concat;
                b->w = y->w * (uint32_t)n;
                if (b->w > 512) throw Unsupported("wide replication");
                for (int64_t i = 0; i < n; i++) b->a.push_back(y);
                return b;
            }
            case EK::Cast: {
                if (e->s == "size") {
                    auto n = cint(s, e->a[1]);
                    auto x = bind(s, e->a[0]);
                    nounp(s, *x);
                    if (n <= 0) throw ElabError("cast to non positive width");
                    b->k = BE::Cast;
                    b->w = (uint32_t)n;
                    if (b->w > 512) throw Unsupported("wide cast");
                    b->sgn = x->sgn;
                    b->a = {x};
                    return b;
                }
                auto x = bind(s, e->a[0]);
                b->k = BE::Cast;
                b->a = {x};
                b->w = x->w;
                if (e->s == "signed") b->sgn = true;
                else if (e->s == "unsigned") b->sgn = false;
                else if (e->s.rfind("type:", 0) == 0) {
                    TypeDecl td;
                    td.name = e->s.substr(5);
                    auto t = type(s, td);
                    if (t.width() != x->w && t.st) issue("cast to " + td.name + " changes width");
                    b->w = t.width();
                    b->sgn = t.sgn;
                } else {
                    static const std::map<std::string, uint32_t> ints = {{"int", 32}, {"byte", 8}, {"shortint", 16}, {"longint", 64}, {"integer", 32}};
                    b->w = ints.at(e->s);
                    b->sgn = true;
                }
                nounp(s, *x);
                return b;
            }
            case EK::SysCall: {
                if (e->s == "$signed" || e->s == "$unsigned") {
                    auto x = bind(s, e->a.at(0));
                    b->k = BE::Cast;
                    b->a = {x};
                    b->w = x->w;
                    b->sgn = e->s == "$signed";
                    return b;
                }
                if (e->s == "$clog2") {
                    auto x = bind(s, e->a.at(0));
                    if (!is_const(*x)) throw Unsupported("$clog2 of a variable");
                    auto v = eval_const(*x).u64();
                    uint32_t r = 0;
                    while (r < 64 && (uint64_t(1) << r) < v) r++;
                    return konst(BV(32, r), true, true);
                }
                if (e->s == "$bits") {
                    auto x = bind(s, e->a.at(0));
                    return konst(BV(32, x->w), true, true);
                }
                throw Unsupported("system function " + e->s);
            }
            case EK::Call: {
                auto f = s.funcs.find(e->s);
                if (f == s.funcs.end()) throw ElabError("call of undeclared function " + e->s);
                auto fn = f->second;
                if (fn->args.size() != e->a.size()) {
                    issue("call of " + e->s + " with wrong number of arguments");
                    throw ElabError("argument count of " + e->s);
                }
                b->k = BE::Call;
                b->fn = fn;
                for (size_t i = 0; i < e->a.size(); i++) {
                    auto x = bind(s, e->a[i]);
                    auto w = sigs[fn->args[i]].ty.width();
                    if (strict && x->w != w && !x->unsized) issue("argument width mismatch in call of " + e->s);
                    b->a.push_back(x);
                }
                if (!fn->is_void) {
                    auto& t = sigs[fn->ret].ty;
                    b->w = t.width();
                    b->sgn = t.sgn;
                    b->ty = t;
                }
                return b;
            }
        }
        throw ElabError("expression");
    }
    void nounp(Scope& s, const BE& x) {
        if (x.unpacked) {
            issue("unpacked array used as an operand in " + (s.m ? s.m->name : "?"));
        }
    }

    BSP bstmt(Scope& s, const SP& st) {
        auto b = std::make_shared<BS>();
        b->k = st->k;
        b->line = st->line;
        b->unique = st->unique;
        switch (st->k) {
            case SK::Assign:
            case SK::NB:
                b->l = lval(s, st->l);
                b->r = bind(s, st->r);
                chk_assign(s, *b->l, *b->r, "procedural assignment", st->line);
                break;
            case SK::Block:
                locals_.push_back({});
                for (auto& x : st->b) b->b.push_back(bstmt(s, x));
                locals_.pop_back();
                break;
            case SK::LocalVar: {
                int id = add_sig(s, "$l" + std::to_string(sigs.size()) + st->var.name, vtype(s, st->var), "", true);
                if (locals_.empty()) locals_.push_back({});
                if (!locals_.back().emplace(st->var.name, id).second) issue("duplicate local " + st->var.name);
                b->k = SK::Null;
                if (st->var.init) {
                    b->k = SK::Assign;
                    auto ref = std::make_shared<Expr_>();
                    ref->k = EK::Id;
                    ref->s = st->var.name;
                    b->l = bind(s, ref);
                    b->r = bind(s, st->var.init);
                }
                break;
            }
            case SK::If:
                b->r = bind(s, st->r);
                for (auto& x : st->b) b->b.push_back(bstmt(s, x));
                break;
            case SK::Case: {
                b->r = bind(s, st->r);
                std::set<std::string> seen;
                for (auto& c : st->cases) {
                    std::vector<BP> ls;
                    for (auto& l : c.first) {
                        auto x = bind(s, l);
                        if (is_const(*x)) {
                            auto v = eval_const(*x).resize(std::max(x->w, b->r->w), x->sgn && b->r->sgn);
                            if (!seen.insert(v.hex()).second) issue("duplicate case label in " + s.path + " line " + std::to_string(st->line));
                        }
                        ls.push_back(x);
                    }
                    b->cases.emplace_back(ls, bstmt(s, c.second));
                }
                break;
            }
            case SK::For: {
                int id = add_sig(s, "$for" + std::to_string(sigs.size()) + st->var.name, vtype(s, st->var), "", true);
                b->sig = id;
                locals_.push_back({{st->var.name, id}});
                b->init = std::make_shared<BS>();
                b->init->k = SK::Assign;
                auto ref = std::make_shared<Expr_>();
                ref->k = EK::Id;
                ref->s = st->var.name;
                b->init->l = bind(s, ref);
                b->init->r = bind(s, st->init->r);
                b->r = bind(s, st->r);
                b->step = std::make_shared<BS>();
                b->step->k = SK::Assign;
                b->step->l = bind(s, st->step->l);
                b->step->r = bind(s, st->step->r);
                b->b.push_back(bstmt(s, st->b[0]));
                locals_.pop_back();
                break;
            }
            case SK::Return:
                if (st->r) b->r = bind(s, st->r);
                break;
            case SK::Call:
                b->r = bind(s, st->r);
                break;
            case SK::Break:
            case SK::Null:
                break;
            case SK::Unsupported:
                throw Unsupported("timing or assertion statement");
        }
        return b;
    }

    // ------------------------------------------------------------ drivers
    struct Drv {
        int proc = -1;
        bool cont = false;
    };
    void collect_l(const BE& l, std::vector<std::pair<int, std::pair<uint32_t, uint32_t>>>& out) {
        if (l.k == BE::Concat) {
            for (auto& x : l.a) collect_l(*x, out);
            return;
        }
        if (!l.dyn.empty()) out.push_back({l.sig, {0, 0xffffffffu}});
        else out.push_back({l.sig, {l.off, l.off + l.w}});
    }
    void collect_s(const BSP& b, std::vector<std::pair<int, std::pair<uint32_t, uint32_t>>>& out, std::set<const void*>& seen) {
        if (!b) return;
        if (b->l) collect_l(*b->l, out);
        for (auto& x : b->b) collect_s(x, out, seen);
        for (auto& c : b->cases) collect_s(c.second, out, seen);
        if (b->k == SK::Call && b->r && b->r->fn && seen.insert(b->r->fn.get()).second) collect_s(b->r->fn->body, out, seen);
    }
    void check_drivers() {
        std::map<int, std::vector<int>> drv;  // sig -> per-bit process
        for (size_t i = 0; i < procs.size(); i++) {
            auto& p = procs[i];
            if (p.k == Proc::Initial || p.k == Proc::Final) continue;
            std::vector<std::pair<int, std::pair<uint32_t, uint32_t>>> t;
            std::set<const void*> seen;
            if (p.k == Proc::Assign) collect_l(*p.l, t);
            else collect_s(p.body, t, seen);
            for (auto& x : t) {
                auto& sg = sigs[x.first];
                if (sg.local) continue;
                auto w = sg.ty.width();
                auto& v = drv[x.first];
                if (v.empty()) v.assign(w, -1);
                uint32_t lo = x.second.first, hi = std::min(x.second.second, w);
                bool dyn = x.second.second == 0xffffffffu;
                for (uint32_t k = lo; k < hi; k++) {
                    if (v[k] >= 0 && v[k] != (int)i && !(dyn && p.k == Proc::Assign)) {
                        issue("multiple drivers of " + sg.path + "[" + std::to_string(k) + "]");
                        break;
                    }
                    v[k] = (int)i;
                }
            }
        }
        for (auto& d : drv) {
            auto& sg = sigs[d.first];
            if (sg.dir == "input" && !sg.is_input_of_child) issue("input port " + sg.path + " is driven inside its module");
            if (sg.dir == "input" && sg.is_input_of_child) {
                // driven by the connection only
                std::set<int> ps(d.second.begin(), d.second.end());
                ps.erase(-1);
                if (ps.size() > 1) issue("input port " + sg.path + " is driven inside its module");
            }
        }
        for (auto& d : drv) {
            bool full = true;
            for (int b : d.second) full &= b >= 0;
            driven[sigs[d.first].path] = full;
        }
    }

public:
    std::map<std::string, bool> driven;  // path -> every bit has a driver

private:
    // ------------------------------------------------------------ evaluation
    bool ref_pos(const BE& e, uint32_t& off) {
        off = e.off;
        for (auto& d : e.dyn) {
            auto v = eval_ctx(*d.e, d.e->w, d.e->sgn);
            auto lo = std::min(d.left, d.right), hi = std::max(d.left, d.right);
            if (!d.e->sgn && !v.fits64()) return false;
            auto i = (int64_t)v.resize(64, d.e->sgn).d[0];
            if (d.e->w > 63 && !d.e->sgn && i < 0) return false;
            if (i < lo || i > hi) return false;
            off += (uint32_t)std::abs(i - d.right) * d.stride;
        }
        return true;
    }
    BV eval_ctx(const BE& e, uint32_t W, bool S) {
        n_evals++;
        switch (e.k) {
            case BE::Const:
                return e.c.resize(W, S);
            case BE::Ref: {
                uint32_t off;
                BV v(e.w);
                if (e.off == 0 && e.dyn.empty() && e.w == vals[e.sig].w) {
                    v = vals[e.sig];
                } else if (ref_pos(e, off))
                    v = vals[e.sig].slice(off + e.w - 1, off);
                return v.resize(W, S);
            }
            case BE::Un: {
                auto& x = *e.a[0];
                switch (e.opc) {
                    case 1: return eval_ctx(x, W, S);
                    case 2: return neg(eval_ctx(x, W, S));
                    case 23: return bnot(eval_ctx(x, W, S));
                }
                auto v = eval_ctx(x, x.w, x.sgn);
                bool r = false;
                bool all = true;
                bool par = false;
                for (uint32_t i = 0; i < v.w; i++) {
                    all &= v.bit(i);
                    par ^= v.bit(i);
                }
                switch (e.opc) {
                    case 22: r = v.zero(); break;
                    case 6: r = all; break;
                    case 7: r = !v.zero(); break;
                    case 8: r = par; break;
                    case 9: r = !par; break;
                    case 24: r = !all; break;
                    case 25: r = v.zero(); break;
                    default: throw ElabError("unary operator");
                }
                return BV(1, r).resize(W, false);
            }
            case BE::Bin: {
                auto &x = *e.a[0], &y = *e.a[1];
                if (e.opc <= 9) {
                    auto a = eval_ctx(x, W, S), b = eval_ctx(y, W, S);
                    switch (e.opc) {
                        case 1: return add(a, b);
                        case 2: return sub(a, b);
                        case 3: return mul(a, b);
                        case 4:
                        case 5: {
                            if (b.zero()) return BV(W);
                            BV q, r;
                            if (S) {
                                bool na = a.bit(W - 1), nb = b.bit(W - 1);
                                udivmod(na ? neg(a) : a, nb ? neg(b) : b, q, r);
                                return e.opc == 4 ? (na != nb ? neg(q) : q) : (na ? neg(r) : r);
                            }
                            udivmod(a, b, q, r);
                            return e.opc == 4 ? q : r;
                        }
                        case 6: return band(a, b);
                        case 7: return bor(a, b);
                        case 8: return bxor(a, b);
                        case 9: return bnot(bxor(a, b));
                    }
                }
                if (e.opc == 10) {
                    auto a = eval_ctx(x, W, S), b = eval_ctx(y, y.w, y.sgn);
                    bool nb = y.sgn && b.bit(b.w - 1);
                    BV one(W, 1);
                    if (nb) {
                        bool sg = S;
                        if (a.zero()) return BV(W);
                        if (a == one) return one;
                        if (sg && neg(a) == one) return b.bit(0) ? a : one;
                        return BV(W);
                    }
                    BV r = one, p = a;
                    for (uint32_t i = 0; i < b.w; i++) {
                        if (b.bit(i)) r = mul(r, p);
                        p = mul(p, p);
                    }
                    return r;
                }
                if (e.opc >= 11 && e.opc <= 13) {
                    auto a = eval_ctx(x, W, S), b = eval_ctx(y, y.w, y.sgn);
                    uint64_t n = b.fits64() ? b.d[0] : ~uint64_t(0);
                    if (e.opc == 11) return shl(a, n);
                    return shr(a, n, e.opc == 13 && S && a.bit(W - 1));
                }
                bool r;
                if (e.opc == 20 || e.opc == 21) {
                    bool a = !eval_ctx(x, x.w, x.sgn).zero(), b = !eval_ctx(y, y.w, y.sgn).zero();
                    r = e.opc == 20 ? a && b : a || b;
                } else {
                    auto w = std::max(x.w, y.w);
                    bool sg = x.sgn && y.sgn;
                    auto a = eval_ctx(x, w, sg), b = eval_ctx(y, w, sg);
                    bool lt = sg ? slt(a, b) : ult(a, b);
                    bool eq = a == b;
                    switch (e.opc) {
                        case 14: r = eq; break;
                        case 15: r = !eq; break;
                        case 16: r = lt; break;
                        case 17: r = lt || eq; break;
                        case 18: r = !lt && !eq; break;
                        case 19: r = !lt; break;
                        default: throw ElabError("binary operator");
                    }
                }
                return BV(1, r).resize(W, false);
            }
            case BE::Cond: {
                bool c = !eval_ctx(*e.a[0], e.a[0]->w, e.a[0]->sgn).zero();
                return eval_ctx(*e.a[c ? 1 : 2], W, S);
            }
            case BE::Concat: {
                BV v(e.w);
                uint32_t p = e.w;
                for (auto& x : e.a) {
                    p -= x->w;
                    v.insert(p, eval_ctx(*x, x->w, x->sgn));
                }
                return v.resize(W, false);
            }
            case BE::Cast: {
                auto& x = *e.a[0];
                auto v = eval_ctx(x, x.w, x.sgn).resize(e.w, x.sgn);
                return v.resize(W, S);
            }
            case BE::Call: {
                call(e);
                return vals[e.fn->ret].resize(W, S);
            }
        }
        throw ElabError("eval");
    }
    int call_depth_ = 0;
    void call(const BE& e) {
        auto& f = *e.fn;
        if (++call_depth_ > 64) throw ElabError("function recursion");
        std::vector<BV> av;
        for (size_t i = 0; i < e.a.size(); i++) {
            if (f.outs[i]) {
                av.emplace_back(vals[f.args[i]].w);
                continue;
            }
            auto w = vals[f.args[i]].w;
            auto& x = *e.a[i];
            av.push_back(eval_ctx(x, std::max(w, x.w), x.sgn).resize(w, x.sgn));
        }
        for (size_t i = 0; i < e.a.size(); i++) vals[f.args[i]] = av[i];
        if (f.ret >= 0) vals[f.ret] = BV(vals[f.ret].w);
        if (f.ret >= 0) ret_.push_back(f.ret);
        else ret_.push_back(-1);
        exec(f.body);
        ret_.pop_back();
        for (size_t i = 0; i < e.a.size(); i++)
            if (f.outs[i]) store(*e.a[i], vals[f.args[i]], false);
        call_depth_--;
    }
    std::vector<int> ret_;

    void write(int sig, uint32_t off, const BV& v) {
        auto& t = vals[sig];
        if (off == 0 && v.w == t.w) t = v;
        else t.insert(off, v);
    }
    void store(const BE& l, const BV& v, bool nb) {
        if (l.k == BE::Concat) {
            uint32_t p = l.w;
            for (auto& x : l.a) {
                p -= x->w;
                store(*x, v.slice(p + x->w - 1, p), nb);
            }
            return;
        }
        uint32_t off;
        if (!ref_pos(l, off)) return;
        if (nb) nba_.emplace_back(l.sig, off, v);
        else write(l.sig, off, v);
    }
    void assign(const BE& l, const BE& r, bool nb) {
        auto w = std::max(l.w, r.w);
        auto v = eval_ctx(r, w, r.sgn).resize(l.w, r.sgn);
        store(l, v, nb);
    }
    enum Flow { Go, Brk, Ret };
    void run_body(const BSP& b) { exec(b); }
    Flow exec(const BSP& b) {
        if (!b) return Go;
        switch (b->k) {
            case SK::Assign:
                assign(*b->l, *b->r, false);
                return Go;
            case SK::NB:
                if (in_ff_) assign(*b->l, *b->r, true);
                else assign(*b->l, *b->r, false);
                return Go;
            case SK::Block:
                for (auto& x : b->b) {
                    auto f = exec(x);
                    if (f != Go) return f;
                }
                return Go;
            case SK::If: {
                bool c = !eval(*b->r).zero();
                if (c) return exec(b->b[0]);
                if (b->b.size() > 1) return exec(b->b[1]);
                return Go;
            }
            case SK::Case: {
                uint32_t w = b->r->w;
                bool sg = b->r->sgn;
                for (auto& c : b->cases)
                    for (auto& l : c.first) {
                        w = std::max(w, l->w);
                        sg = sg && l->sgn;
                    }
                auto v = eval_ctx(*b->r, w, sg);
                const BSP* def = nullptr;
                for (auto& c : b->cases) {
                    if (c.first.empty()) {
                        def = &c.second;
                        continue;
                    }
                    for (auto& l : c.first)
                        if (eval_ctx(*l, w, sg) == v) return exec(c.second);
                }
                if (def) return exec(*def);
                return Go;
            }
            case SK::For: {
                exec(b->init);
                for (int n = 0;; n++) {
                    if (n > 100000) throw Unstable("for loop does not end");
                    if (eval(*b->r).zero()) return Go;
                    auto f = exec(b->b[0]);
                    if (f == Brk) return Go;
                    if (f == Ret) return f;
                    exec(b->step);
                }
            }
            case SK::Return:
                if (b->r && !ret_.empty() && ret_.back() >= 0) {
                    auto w = vals[ret_.back()].w;
                    vals[ret_.back()] = eval_ctx(*b->r, std::max(w, b->r->w), b->r->sgn).resize(w, b->r->sgn);
                }
                return Ret;
            case SK::Call:
                if (b->r->k == BE::Call) call(*b->r);
                return Go;
            case SK::Break:
                return Brk;
            default:
                return Go;
        }
    }
};

inline Unit parse(const std::string& text) {
    Unit u;
    Parser p(text);
    p.unit(u);
    return u;
}
}  // namespace sv
