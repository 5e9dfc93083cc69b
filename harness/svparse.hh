// A small, strict SystemVerilog front end for the subset a hardware generator
// emits.  Written from IEEE 1800-2017; it shares nothing with the code under test.
#pragma once
#include <cctype>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "bv.hh"

namespace sv {
struct ParseError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

enum class T { Id, SysId, Num, Str, Op, End };
struct Tok {
    T t = T::End;
    std::string s;
    uint32_t line = 0;
};

inline const std::set<std::string>& keywords() {
    static const std::set<std::string> k = {
        "always", "always_comb", "always_ff", "always_latch", "and", "assert", "assign", "assume",
        "automatic", "begin", "bit", "break", "byte", "case", "casex", "casez", "const", "context",
        "continue", "cover", "default", "disable", "do", "edge", "else", "end", "endcase",
        "endclocking", "endfunction", "endgenerate", "endinterface", "endmodule", "endpackage",
        "endproperty", "endsequence", "endtask", "enum", "export", "extends", "extern", "final",
        "for", "force", "foreach", "forever", "fork", "function", "generate", "genvar", "if",
        "iff", "import", "initial", "inout", "input", "inside", "int", "integer", "interface",
        "join", "local", "localparam", "logic", "longint", "modport", "module", "nand", "negedge",
        "nor", "not", "null", "or", "output", "package", "packed", "parameter", "posedge",
        "priority", "program", "property", "pure", "real", "ref", "reg", "repeat", "return",
        "sequence", "shortint", "signed", "static", "string", "struct", "super", "task", "this",
        "time", "type", "typedef", "union", "unique", "unsigned", "var", "void", "wait", "while",
        "wire", "with", "xnor", "xor", "bind", "checker", "class", "clocking", "config", "cover",
        "cross", "design", "dist", "endclass", "endconfig", "endgroup", "endprimitive",
        "endprogram", "endspecify", "endtable", "event", "expect", "first_match", "forkjoin",
        "global", "highz0", "highz1", "ifnone", "incdir", "include", "initial", "instance",
        "intersect", "join_any", "join_none", "large", "let", "liblist", "library", "macromodule",
        "matches", "medium", "new", "nexttime", "nmos", "noshowcancelled", "notif0", "notif1",
        "pmos", "primitive", "protected", "pull0", "pull1", "pulldown", "pullup", "rand", "randc",
        "randcase", "randsequence", "rcmos", "release", "rnmos", "rpmos", "rtran", "rtranif0",
        "rtranif1", "scalared", "shortreal", "showcancelled", "small", "solve", "specify",
        "specparam", "strong0", "strong1", "supply0", "supply1", "table", "tagged", "throughout",
        "timeprecision", "timeunit", "tran", "tri", "tri0", "tri1", "triand", "trior", "trireg",
        "unique0", "use", "uwire", "vectored", "virtual", "wand", "weak0", "weak1", "wildcard",
        "wor", "within", "buf", "bufif0", "bufif1", "cell", "chandle", "cmos", "covergroup",
        "coverpoint", "deassign", "defparam", "endchecker", "ignore_bins", "illegal_bins", "bins",
        "binsof", "before", "alias", "accept_on", "reject_on", "restrict", "eventually", "until",
        "implies", "strong", "weak", "nettype", "interconnect", "soft", "untyped", "rcmos"};
    return k;
}

inline std::vector<Tok> lex(const std::string& s) {
    std::vector<Tok> r;
    size_t i = 0, n = s.size();
    uint32_t line = 1;
    auto push = [&](T t, std::string v) { r.push_back({t, std::move(v), line}); };
    while (i < n) {
        char c = s[i];
        if (c == '\n') {
            line++;
            i++;
        } else if (isspace((unsigned char)c)) {
            i++;
        } else if (c == '/' && i + 1 < n && s[i + 1] == '/') {
            while (i < n && s[i] != '\n') i++;
        } else if (c == '/' && i + 1 < n && s[i + 1] == '*') {
            i += 2;
            while (i + 1 < n && !(s[i] == '*' && s[i + 1] == '/')) {
                if (s[i] == '\n') line++;
                i++;
            }
            i += 2;
        } else if (c == '(' && i + 1 < n && s[i + 1] == '*' && !(i + 2 < n && s[i + 2] == ')')) {
            size_t e = s.find("*)", i + 2);
            if (e == std::string::npos) throw ParseError("unterminated attribute");
            i = e + 2;
        } else if (c == '`') {
            while (i < n && s[i] != '\n') i++;
        } else if (isalpha((unsigned char)c) || c == '_') {
            size_t j = i;
            while (j < n && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '$')) j++;
            push(T::Id, s.substr(i, j - i));
            i = j;
        } else if (c == '$') {
            size_t j = i + 1;
            while (j < n && (isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '$')) j++;
            push(T::SysId, s.substr(i, j - i));
            i = j;
        } else if (isdigit((unsigned char)c) ||
                   (c == '\'' && i + 1 < n && strchr("01xzXZbBoOdDhHsS", s[i + 1]))) {
            size_t j = i;
            while (j < n && (isdigit((unsigned char)s[j]) || s[j] == '_')) j++;
            size_t k = j;
            while (k < n && s[k] == ' ') k++;
            if (k < n && s[k] == '\'' && k + 1 < n && strchr("bBoOdDhHsS01", s[k + 1]) &&
                !(k > i && strchr("01", s[k + 1]))) {
                j = k + 1;
                if (strchr("sS", s[j])) j++;
                if (strchr("bBoOdDhH", s[j])) j++;
                while (j < n && (isxdigit((unsigned char)s[j]) || strchr("_xXzZ?", s[j]))) j++;
            }
            if (j == i) throw ParseError("bad number");
            push(T::Num, s.substr(i, j - i));
            i = j;
        } else if (c == '"') {
            size_t j = i + 1;
            while (j < n && s[j] != '"') {
                if (s[j] == '\\') j++;
                j++;
            }
            push(T::Str, s.substr(i + 1, j - i - 1));
            i = j + 1;
        } else {
            static const char* ops[] = {"<<<=", ">>>=", "===", "!==", "<<<", ">>>", "|->", "|=>", "==?",
                                        "!=?",  "->>", "<->", "+=", "-=", "++", "--", "==", "!=", "<=",
                                        ">=",  "&&",  "||",  "<<", ">>", "**", "~&", "~|", "~^", "^~",
                                        "::",  "+:",  "-:",  "->", "##", ".*", nullptr};
            bool f = false;
            for (int o = 0; ops[o]; o++) {
                size_t l = strlen(ops[o]);
                if (s.compare(i, l, ops[o]) == 0) {
                    push(T::Op, ops[o]);
                    i += l;
                    f = true;
                    break;
                }
            }
            if (!f) {
                push(T::Op, std::string(1, c));
                i++;
            }
        }
    }
    push(T::End, "<eof>");
    return r;
}

// ---------------------------------------------------------------- AST
enum class EK { Num, Id, Index, Range, Member, Un, Bin, Cond, Concat, Repl, Cast, Call, SysCall, Str };
struct Expr_;
using EP = std::shared_ptr<Expr_>;
struct Expr_ {
    EK k{};
    std::string s;       // id / op / cast kind / function name
    std::vector<EP> a;   // children
    BV val;              // Num
    bool sgn = false;    // Num signed
    bool sized = true;   // Num
    uint32_t line = 0;
};

struct Dim {
    EP hi, lo;
};
struct TypeDecl {
    bool sgn = false;
    std::string name;        // user type name, empty for logic
    std::vector<Dim> packed;
    uint32_t base = 1;       // int -> 32 etc.
    std::vector<std::pair<TypeDecl, std::string>> fields;  // struct
    bool is_struct = false;
    bool is_void = false;
};
struct VarDecl {
    TypeDecl type;
    std::string name;
    std::vector<Dim> unpacked;
    std::string dir;  // port: input/output/inout or ""
    EP init;
    uint32_t line = 0;
};
enum class SK {
    Assign, NB, Block, If, Case, For, Return, Call, Break, Null, LocalVar, Unsupported
};
struct Stmt_;
using SP = std::shared_ptr<Stmt_>;
struct Stmt_ {
    SK k{};
    EP l, r;                 // assign / cond / case target
    std::vector<SP> b;       // children (If: then, else?)
    std::vector<std::pair<std::vector<EP>, SP>> cases;  // empty labels = default
    VarDecl var;
    SP init, step;
    std::string s;           // block label / unique
    uint32_t line = 0;
    bool unique = false;
};
struct EventCtl {
    bool pos;
    EP e;
};
struct Always {
    std::string kind;  // comb ff latch initial final
    std::vector<EventCtl> ev;
    SP body;
    uint32_t line = 0;
};
struct Inst {
    std::string mod, name;
    std::vector<std::pair<std::string, EP>> params;
    std::vector<std::pair<std::string, EP>> ports;
    uint32_t line = 0;
};
struct GenFor;
struct Item {
    // one of
    std::shared_ptr<VarDecl> var;
    std::shared_ptr<std::pair<EP, EP>> assign;
    std::shared_ptr<Always> always;
    std::shared_ptr<Inst> inst;
    std::shared_ptr<GenFor> gen;
    uint32_t line = 0;
};
struct GenFor {
    std::string var, label;
    EP init, cond;
    std::string step_op;
    EP step;
    std::vector<Item> items;
};
struct EnumDef {
    std::string name, scope;  // scope: module it is local to
    TypeDecl base;
    std::vector<std::pair<std::string, EP>> items;
};
struct Func {
    std::string name;
    TypeDecl ret;
    std::vector<VarDecl> args;
    SP body;
    uint32_t line = 0;
};
struct Module {
    std::string name;
    bool is_interface = false;
    std::vector<std::pair<std::string, EP>> params;  // in order
    std::vector<TypeDecl> param_types;
    std::vector<VarDecl> ports;
    std::vector<Item> items;
    std::vector<Func> funcs;
    std::vector<std::string> imports;
    uint32_t line = 0, endline = 0;
};
struct Unit {
    std::map<std::string, Module> mods;
    std::vector<std::string> dup_mods;
    std::map<std::string, EnumDef> enums;
    std::map<std::string, TypeDecl> typedefs;
    std::vector<std::string> dup_types;
    std::vector<std::string> dpi;
};

class Parser {
public:
    explicit Parser(const std::string& src) : toks_(lex(src)) {}

    void unit(Unit& u) {
        u_ = &u;
        while (cur().t != T::End) {
            if (is("module") || is("interface")) {
                module(u);
            } else if (is("typedef")) {
                typedef_(u);
            } else if (is("package")) {
                next();
                ident();
                expect(";");
            } else if (is("endpackage")) {
                next();
                if (accept(":")) ident();
            } else if (is("import")) {
                dpi_or_import(u, nullptr);
            } else {
                err("unexpected token at top level");
            }
        }
    }

    EP expression() { return cond(); }
    bool at_end() const { return toks_[p_].t == T::End; }

private:
    std::vector<Tok> toks_;
    size_t p_ = 0;
    Unit* u_ = nullptr;

    const Tok& cur() const { return toks_[p_]; }
    const Tok& peek(size_t k = 1) const { return toks_[std::min(p_ + k, toks_.size() - 1)]; }
    void next() {
        if (p_ + 1 < toks_.size()) p_++;
    }
    bool is(const char* s) const { return cur().s == s && cur().t != T::Str && cur().t != T::Num; }
    bool accept(const char* s) {
        if (is(s)) {
            next();
            return true;
        }
        return false;
    }
    [[noreturn]] void err(const std::string& m) const {
        throw ParseError(m + " near '" + cur().s + "' line " + std::to_string(cur().line));
    }
    void expect(const char* s) {
        if (!accept(s)) err(std::string("expected '") + s + "'");
    }
    std::string ident() {
        if (cur().t != T::Id) err("identifier expected");
        if (keywords().count(cur().s)) err("keyword used as identifier");
        auto s = cur().s;
        next();
        return s;
    }
    bool is_type_start() const {
        if (cur().t != T::Id) return false;
        static const std::set<std::string> b = {"logic", "reg", "wire", "bit", "int", "byte", "shortint", "longint", "integer", "signed", "struct", "void"};
        if (b.count(cur().s)) return true;
        return known(cur().s);
    }
    std::string mod_;  // module being read
    // name under which a type is kept: types of a module shadow those of the unit
    std::string tname(const std::string& n) const {
        auto l = mod_ + "::" + n;
        return u_ && (u_->enums.count(l) || u_->typedefs.count(l)) ? l : n;
    }
    bool known(const std::string& n) const {
        auto t = tname(n);
        return u_ && (u_->enums.count(t) || u_->typedefs.count(t));
    }
    std::string newname(const std::string& n) const { return mod_.empty() ? n : mod_ + "::" + n; }
    std::vector<Dim> dims() {
        std::vector<Dim> r;
        while (is("[")) {
            next();
            Dim d;
            d.hi = expression();
            expect(":");
            d.lo = expression();
            expect("]");
            r.push_back(d);
        }
        return r;
    }
    TypeDecl type() {
        TypeDecl t;
        static const std::map<std::string, uint32_t> ints = {
            {"int", 32}, {"byte", 8}, {"shortint", 16}, {"longint", 64}, {"integer", 32}};
        if (is("void")) {
            next();
            t.is_void = true;
            return t;
        }
        if (is("logic") || is("reg") || is("wire") || is("bit")) {
            next();
            if (accept("signed")) t.sgn = true;
            else accept("unsigned");
            t.packed = dims();
        } else if (ints.count(cur().s)) {
            t.base = ints.at(cur().s);
            t.sgn = true;
            next();
            if (accept("unsigned")) t.sgn = false;
            else accept("signed");
        } else if (is("signed") || is("unsigned")) {
            t.sgn = is("signed");
            next();
            t.packed = dims();
        } else if (is("[")) {
            t.packed = dims();
        } else if (cur().t == T::Id && known(cur().s)) {
            t.name = tname(cur().s);
            next();
            if (is("signed") || is("unsigned")) err("signing is not allowed on a named type");
            t.packed = dims();
        } else {
            err("type expected");
        }
        return t;
    }
    void typedef_(Unit& u) {
        expect("typedef");
        if (is("enum")) {
            next();
            EnumDef e;
            e.base = is("{") ? [] { TypeDecl t; t.base = 32; t.sgn = true; return t; }() : type();
            expect("{");
            for (;;) {
                auto n = ident();
                EP v;
                if (accept("=")) v = expression();
                e.items.emplace_back(n, v);
                if (!accept(",")) break;
            }
            expect("}");
            e.name = newname(ident());
            e.scope = mod_;
            expect(";");
            if (u.enums.count(e.name) || u.typedefs.count(e.name)) u.dup_types.push_back(e.name);
            u.enums[e.name] = e;
        } else if (is("struct")) {
            next();
            expect("packed");
            TypeDecl t;
            t.is_struct = true;
            expect("{");
            std::set<std::string> seen;
            while (!is("}")) {
                auto ft = type();
                auto n = ident();
                if (!seen.insert(n).second) err("duplicate struct field " + n);
                expect(";");
                t.fields.emplace_back(ft, n);
            }
            expect("}");
            auto n = newname(ident());
            expect(";");
            if (u.enums.count(n) || u.typedefs.count(n)) u.dup_types.push_back(n);
            u.typedefs[n] = t;
        } else {
            auto t = type();
            auto n = newname(ident());
            expect(";");
            u.typedefs[n] = t;
        }
    }
    void dpi_or_import(Unit& u, Module* m) {
        expect("import");
        if (cur().t == T::Str) {
            std::string s;
            while (!is(";")) {
                if (cur().t == T::End) err("unterminated import");
                s += cur().s + " ";
                next();
            }
            next();
            u.dpi.push_back(s);
        } else {
            auto n = ident();
            expect("::");
            expect("*");
            expect(";");
            if (m) m->imports.push_back(n);
        }
    }
    void module(Unit& u) {
        Module m;
        m.line = cur().line;
        m.is_interface = is("interface");
        next();
        m.name = ident();
        mod_ = m.name;
        while (is("import")) dpi_or_import(u, &m);
        if (accept("#")) {
            expect("(");
            while (!is(")")) {
                expect("parameter");
                TypeDecl t;
                bool typeparam = false;
                if (accept("type")) typeparam = true;
                else if (is_type_start() || is("[")) t = type();
                auto n = ident();
                EP v;
                if (accept("=")) {
                    if (typeparam) {
                        type();
                    } else
                        v = expression();
                }
                m.params.emplace_back(n, v);
                m.param_types.push_back(t);
                if (!accept(",")) break;
            }
            expect(")");
        }
        if (accept("(")) {
            while (!is(")")) {
                VarDecl d;
                d.line = cur().line;
                if (is("input") || is("output") || is("inout")) {
                    d.dir = cur().s;
                    next();
                    d.type = (is_type_start() || is("[")) ? type() : TypeDecl();
                } else {
                    // interface port:   iface[.modport] name
                    d.dir = "interface";
                    d.type.name = ident();
                    if (accept(".")) d.type.name += "." + ident();
                }
                d.name = ident();
                d.unpacked = dims();
                m.ports.push_back(d);
                if (!accept(",")) break;
            }
            expect(")");
        }
        expect(";");
        const char* end = m.is_interface ? "endinterface" : "endmodule";
        while (!is(end)) {
            if (cur().t == T::End) err("missing endmodule");
            item(u, m, m.items);
        }
        m.endline = cur().line;
        next();
        if (accept(":")) ident();
        if (u.mods.count(m.name)) u.dup_mods.push_back(m.name);
        mod_.clear();
        u.mods[m.name] = m;
    }
    void item(Unit& u, Module& m, std::vector<Item>& items) {
        Item it;
        it.line = cur().line;
        if (is("assign")) {
            next();
            if (accept("#")) expression();
            auto l = lvalue();
            expect("=");
            auto r = expression();
            expect(";");
            it.assign = std::make_shared<std::pair<EP, EP>>(l, r);
            items.push_back(it);
        } else if (is("always_comb") || is("always_ff") || is("always_latch") || is("initial") || is("final") || is("always")) {
            auto a = std::make_shared<Always>();
            a->line = cur().line;
            a->kind = cur().s;
            next();
            if (a->kind == "always_ff" || a->kind == "always") {
                expect("@");
                expect("(");
                if (accept("*")) {
                    a->kind = "always_comb";
                } else {
                    for (;;) {
                        EventCtl e;
                        if (accept("posedge")) e.pos = true;
                        else if (accept("negedge")) e.pos = false;
                        else err("posedge/negedge expected");
                        e.e = expression();
                        a->ev.push_back(e);
                        if (!accept(",") && !accept("or")) break;
                    }
                }
                expect(")");
            }
            a->body = statement();
            it.always = a;
            items.push_back(it);
        } else if (is("function") || is("task")) {
            function(m);
        } else if (is("genvar")) {
            next();
            ident();
            expect(";");
        } else if (is("generate") || is("endgenerate")) {
            next();
        } else if (is("for")) {
            next();
            auto g = std::make_shared<GenFor>();
            expect("(");
            expect("genvar");
            g->var = ident();
            expect("=");
            g->init = expression();
            expect(";");
            g->cond = expression();
            expect(";");
            auto n = ident();
            if (n != g->var) err("generate step must use its genvar");
            g->step_op = cur().s;
            next();
            if (g->step_op == "++" || g->step_op == "--") {
            } else {
                g->step = expression();
            }
            expect(")");
            expect("begin");
            if (accept(":")) g->label = ident();
            while (!is("end")) item(u, m, g->items);
            next();
            if (accept(":")) ident();
            it.gen = g;
            items.push_back(it);
        } else if (is("typedef")) {
            typedef_(u);
        } else if (is("modport")) {
            while (!is(";")) {
                if (cur().t == T::End) err("unterminated modport");
                next();
            }
            next();
        } else if (is("import")) {
            dpi_or_import(u, &m);
        } else if (is("assert") || is("assume") || is("cover")) {
            while (!is(";")) {
                if (cur().t == T::End) err("unterminated assertion");
                next();
            }
            next();
        } else if (is("property") || is("sequence")) {
            std::string e = "end" + cur().s;
            while (!is(e.c_str())) {
                if (cur().t == T::End) err("unterminated " + e);
                next();
            }
            next();
            if (accept(":")) ident();
        } else if (is_type_start()) {
            auto t = type();
            for (;;) {
                VarDecl d;
                d.line = cur().line;
                d.type = t;
                d.name = ident();
                d.unpacked = dims();
                if (accept("=")) d.init = expression();
                Item i2;
                i2.line = d.line;
                i2.var = std::make_shared<VarDecl>(d);
                items.push_back(i2);
                if (!accept(",")) break;
            }
            expect(";");
        } else if (cur().t == T::Id && !keywords().count(cur().s)) {
            // instantiation
            auto in = std::make_shared<Inst>();
            in->line = cur().line;
            in->mod = ident();
            if (accept("#")) {
                expect("(");
                named(in->params);
                expect(")");
            }
            in->name = ident();
            expect("(");
            named(in->ports);
            expect(")");
            expect(";");
            it.inst = in;
            items.push_back(it);
        } else {
            err("unexpected module item");
        }
    }
    void named(std::vector<std::pair<std::string, EP>>& v) {
        while (!is(")")) {
            expect(".");
            auto n = ident();
            expect("(");
            EP e;
            if (!is(")")) e = expression();
            expect(")");
            v.emplace_back(n, e);
            if (!accept(",")) break;
        }
    }
    void function(Module& m) {
        Func f;
        f.line = cur().line;
        bool task = is("task");
        next();
        accept("automatic");
        if (task) {
            f.ret.is_void = true;
        } else {
            f.ret = (is_type_start() || is("[")) ? type() : TypeDecl();
        }
        f.name = ident();
        if (accept("(")) {
            while (!is(")")) {
                VarDecl d;
                if (is("input") || is("output") || is("inout")) {
                    d.dir = cur().s;
                    next();
                } else
                    d.dir = "input";
                d.type = (is_type_start() || is("[")) ? type() : TypeDecl();
                d.name = ident();
                d.unpacked = dims();
                f.args.push_back(d);
                if (!accept(",")) break;
            }
            expect(")");
        }
        expect(";");
        auto b = std::make_shared<Stmt_>();
        b->k = SK::Block;
        const char* end = task ? "endtask" : "endfunction";
        while (!is(end)) {
            if (cur().t == T::End) err("missing endfunction");
            b->b.push_back(statement());
        }
        next();
        if (accept(":")) ident();
        f.body = b;
        m.funcs.push_back(f);
    }

    SP mk(SK k) {
        auto s = std::make_shared<Stmt_>();
        s->k = k;
        s->line = cur().line;
        return s;
    }
    SP statement() {
        if (is("begin")) {
            auto s = mk(SK::Block);
            next();
            if (accept(":")) s->s = ident();
            while (!is("end")) {
                if (cur().t == T::End) err("missing end");
                s->b.push_back(statement());
            }
            next();
            if (accept(":")) {
                auto n = ident();
                if (n != s->s) err("block label mismatch");
            }
            return s;
        }
        if (is("if") || ((is("unique") || is("priority") || is("unique0")) && peek().s == "if")) {
            auto s = mk(SK::If);
            if (!is("if")) next();
            next();
            expect("(");
            s->r = expression();
            expect(")");
            s->b.push_back(statement());
            if (accept("else")) s->b.push_back(statement());
            return s;
        }
        if (is("case") || is("casez") || is("casex") || ((is("unique") || is("priority") || is("unique0")))) {
            auto s = mk(SK::Case);
            if (!is("case") && !is("casez") && !is("casex")) {
                s->unique = is("unique");
                next();
            }
            if (!is("case")) err("only plain case is supported");
            next();
            expect("(");
            s->r = expression();
            expect(")");
            bool has_default = false;
            while (!is("endcase")) {
                if (cur().t == T::End) err("missing endcase");
                if (accept("default")) {
                    if (has_default) err("two default labels");
                    has_default = true;
                    accept(":");
                    s->cases.emplace_back(std::vector<EP>{}, statement());
                } else {
                    std::vector<EP> ls;
                    do {
                        ls.push_back(expression());
                    } while (accept(","));
                    expect(":");
                    s->cases.emplace_back(ls, statement());
                }
            }
            next();
            return s;
        }
        if (is("for")) {
            auto s = mk(SK::For);
            next();
            expect("(");
            s->init = mk(SK::Assign);
            if (is_type_start()) {
                s->var.type = type();
                s->var.name = ident();
                expect("=");
                s->init->r = expression();
            } else
                err("loop variable must be declared in the loop header");
            expect(";");
            s->r = expression();
            expect(";");
            s->step = mk(SK::Assign);
            auto l = postfix();
            if (accept("++") || accept("--")) {
                bool inc = toks_[p_ - 1].s == "++";
                auto one = num("1");
                s->step->l = l;
                s->step->r = bin(inc ? "+" : "-", l, one);
            } else if (accept("+=") || accept("-=")) {
                bool inc = toks_[p_ - 1].s == "+=";
                s->step->l = l;
                s->step->r = bin(inc ? "+" : "-", l, expression());
            } else {
                expect("=");
                s->step->l = l;
                s->step->r = expression();
            }
            expect(")");
            s->b.push_back(statement());
            return s;
        }
        if (is("return")) {
            auto s = mk(SK::Return);
            next();
            if (!is(";")) s->r = expression();
            expect(";");
            return s;
        }
        if (is("break")) {
            auto s = mk(SK::Break);
            next();
            expect(";");
            return s;
        }
        if (accept(";")) return mk(SK::Null);
        if (is("void") && peek().s == "'") {
            auto s = mk(SK::Call);
            next();
            next();
            expect("(");
            s->r = expression();
            expect(")");
            expect(";");
            return s;
        }
        if (is("assert") || is("assume") || is("cover")) {
            auto s = mk(SK::Unsupported);
            next();
            while (!is(";")) {
                if (cur().t == T::End) err("unterminated assert");
                next();
            }
            next();
            return s;
        }
        if (cur().t == T::SysId) {
            auto s = mk(SK::Null);
            while (!is(";")) {
                if (cur().t == T::End) err("unterminated system call");
                next();
            }
            next();
            return s;
        }
        if (is("#") || is("@") || is("##")) {
            auto s = mk(SK::Unsupported);
            while (!is(";")) {
                if (cur().t == T::End) err("unterminated timing control");
                next();
            }
            next();
            return s;
        }
        if (is_type_start() && peek().t == T::Id) {
            auto s = mk(SK::LocalVar);
            s->var.type = type();
            s->var.name = ident();
            s->var.unpacked = dims();
            if (accept("=")) s->var.init = expression();
            expect(";");
            return s;
        }
        // assignment or call
        auto s = mk(SK::Assign);
        auto l = lvalue();
        if (l->k == EK::Call && is(";")) {
            s->k = SK::Call;
            s->r = l;
            next();
            return s;
        }
        if (accept("=")) {
        } else if (accept("<=")) {
            s->k = SK::NB;
        } else
            err("assignment expected");
        if (accept("#")) primary();
        s->l = l;
        s->r = expression();
        expect(";");
        return s;
    }
    EP lvalue() {
        if (is("{")) return primary();
        auto e = postfix();
        return e;
    }

    EP mke(EK k) {
        auto e = std::make_shared<Expr_>();
        e->k = k;
        e->line = cur().line;
        return e;
    }
    EP bin(const std::string& op, EP a, EP b) {
        auto e = mke(EK::Bin);
        e->s = op;
        e->a = {std::move(a), std::move(b)};
        return e;
    }
    EP cond() {
        auto c = binary(0);
        if (is("?")) {
            next();
            auto e = mke(EK::Cond);
            auto a = cond();
            expect(":");
            auto b = cond();
            e->a = {c, a, b};
            return e;
        }
        return c;
    }
    static int prec(const std::string& o) {
        // IEEE 1800-2017 table 11-2
        if (o == "||") return 1;
        if (o == "&&") return 2;
        if (o == "|") return 3;
        if (o == "^" || o == "~^" || o == "^~") return 4;
        if (o == "&") return 5;
        if (o == "==" || o == "!=" || o == "===" || o == "!==") return 6;
        if (o == "<" || o == "<=" || o == ">" || o == ">=") return 7;
        if (o == "<<" || o == ">>" || o == "<<<" || o == ">>>") return 8;
        if (o == "+" || o == "-") return 9;
        if (o == "*" || o == "/" || o == "%") return 10;
        if (o == "**") return 11;
        return -1;
    }
    EP binary(int minp) {
        auto l = unary();
        for (;;) {
            if (cur().t != T::Op) break;
            int p = prec(cur().s);
            if (p < 0 || p < minp) break;
            auto op = cur().s;
            next();
            auto r = binary(p + 1);
            l = bin(op, l, r);
        }
        return l;
    }
    EP unary() {
        static const std::set<std::string> u = {"+", "-", "!", "~", "&", "~&", "|", "~|", "^", "~^", "^~"};
        if (cur().t == T::Op && u.count(cur().s)) {
            auto e = mke(EK::Un);
            e->s = cur().s;
            next();
            // "~~a" is tolerated (every tool accepts it); "&&a", "||a", "--a" are not,
            // because the lexer already makes a different operator of them
            e->a = {unary()};
            return e;
        }
        return postfix();
    }
    EP postfix() {
        auto e = primary();
        for (;;) {
            if (is("[")) {
                if (e->k != EK::Id && e->k != EK::Index && e->k != EK::Member)
                    err("select applied to something that is not a variable");
                next();
                auto i = expression();
                if (accept(":")) {
                    auto l = expression();
                    expect("]");
                    auto n = mke(EK::Range);
                    n->a = {e, i, l};
                    e = n;
                } else if (is("+:") || is("-:")) {
                    err("indexed part select unsupported");
                } else {
                    expect("]");
                    auto n = mke(EK::Index);
                    n->a = {e, i};
                    e = n;
                }
            } else if (is(".") ) {
                if (e->k != EK::Id && e->k != EK::Index && e->k != EK::Member) err("member of non variable");
                next();
                auto n = mke(EK::Member);
                n->s = ident();
                n->a = {e};
                e = n;
            } else if (is("'") && peek().s == "(") {
                // size or type cast with an expression prefix
                next();
                next();
                auto n = mke(EK::Cast);
                n->s = "size";
                auto v = expression();
                expect(")");
                n->a = {v, e};
                e = n;
            } else
                break;
        }
        return e;
    }
    EP num(const std::string& s) {
        auto e = mke(EK::Num);
        auto q = s.find('\'');
        if (q == std::string::npos) {
            std::string d;
            for (char c : s)
                if (c != '_') d += c;
            e->sized = false;
            e->sgn = true;
            unsigned long long v = std::stoull(d);
            if (v > 0x7fffffffull) throw ParseError("unsized literal exceeds 32 bits: " + s);
            e->val = BV(32, v);
            return e;
        }
        std::string w = s.substr(0, q);
        while (!w.empty() && w.back() == ' ') w.pop_back();
        size_t i = q + 1;
        uint32_t width = 32;
        if (w.empty()) e->sized = false;
        else width = (uint32_t)std::stoul(w);
        if (width == 0) throw ParseError("zero width literal " + s);
        if (i < s.size() && (s[i] == 's' || s[i] == 'S')) {
            e->sgn = true;
            i++;
        }
        if (i >= s.size()) throw ParseError("bad literal " + s);
        char b = (char)tolower(s[i++]);
        std::string digits;
        for (; i < s.size(); i++)
            if (s[i] != '_') digits += (char)tolower(s[i]);
        if (digits.empty()) throw ParseError("literal without digits " + s);
        BV v(std::max<uint32_t>(width, 500));
        for (char c : digits) {
            int dv = isdigit((unsigned char)c) ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : -1;
            if (dv < 0) throw Unsupported("x/z literal");
            uint32_t base = b == 'h' ? 16 : b == 'd' ? 10 : b == 'o' ? 8 : b == 'b' ? 2 : 0;
            if (!base || dv >= (int)base) throw ParseError("bad literal digits " + s);
            v = add(mul(v, BV(v.w, base)), BV(v.w, dv));
        }
        for (uint32_t k = width; k < v.w; k++)
            if (v.bit(k)) throw ParseError("literal does not fit its size: " + s);
        BV r(width);
        r.d = v.d;
        r.trim();
        e->val = r;
        return e;
    }
    EP primary() {
        const auto& t = cur();
        if (t.t == T::Num) {
            auto e = num(t.s);
            e->line = t.line;
            next();
            return e;
        }
        if (t.t == T::Str) {
            auto e = mke(EK::Str);
            e->s = t.s;
            next();
            return e;
        }
        if (is("(")) {
            next();
            auto e = expression();
            expect(")");
            if (is("[")) err("select applied to a parenthesised expression");
            return e;
        }
        if (is("{")) {
            next();
            auto first = expression();
            if (is("{")) {
                next();
                auto e = mke(EK::Repl);
                auto c = mke(EK::Concat);
                do {
                    c->a.push_back(expression());
                } while (accept(","));
                expect("}");
                expect("}");
                e->a = {first, c};
                return e;
            }
            auto e = mke(EK::Concat);
            e->a.push_back(first);
            while (accept(",")) e->a.push_back(expression());
            expect("}");
            if (is("[")) err("select applied to a concatenation");
            return e;
        }
        if (t.t == T::SysId) {
            auto e = mke(EK::SysCall);
            e->s = t.s;
            next();
            if (accept("(")) {
                if (!is(")")) do {
                        e->a.push_back(expression());
                    } while (accept(","));
                expect(")");
            }
            return e;
        }
        if ((is("signed") || is("unsigned")) && peek().s == "'") {
            auto e = mke(EK::Cast);
            e->s = t.s;
            next();
            next();
            expect("(");
            e->a = {expression()};
            expect(")");
            return e;
        }
        static const std::map<std::string, uint32_t> ints = {
            {"int", 32}, {"byte", 8}, {"shortint", 16}, {"longint", 64}, {"integer", 32}};
        if (t.t == T::Id && ints.count(t.s) && peek().s == "'") {
            auto e = mke(EK::Cast);
            e->s = t.s;
            next();
            next();
            expect("(");
            e->a = {expression()};
            expect(")");
            return e;
        }
        if (t.t == T::Id) {
            auto line = t.line;
            auto n = ident();
            if (is("::")) {
                next();
                n = ident();
            }
            if (is("'") && peek().s == "(" && known(n)) {
                next();
                next();
                auto e = mke(EK::Cast);
                e->s = "type:" + tname(n);
                e->a = {expression()};
                expect(")");
                return e;
            }
            if (is("(")) {
                next();
                auto e = mke(EK::Call);
                e->s = n;
                e->line = line;
                if (!is(")")) do {
                        e->a.push_back(expression());
                    } while (accept(","));
                expect(")");
                return e;
            }
            auto e = mke(EK::Id);
            e->s = n;
            e->line = line;
            return e;
        }
        err("expression expected");
    }
};
}  // namespace sv
