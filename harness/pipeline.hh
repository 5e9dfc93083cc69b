// The pass sequence a user gets from the documented entry point, by registered name.
#pragma once
#include "rdesign.hh"
namespace pl {
using namespace kratos;
struct P {
    bool optimize_if = true, passthrough = true, fanout = true, bundle = true, reorder = false, merge_const = true, remove_unused = true, ssa = false, parallel = true,
         dce = false, lift = false, legality = false, check_latch = true, check_loop = true, check_high = true, multi_driver = true, ff = true, pipeline = false;
    static P random(rd::Rng& r) {
        P p;
        p.optimize_if = !r.chance(15);
        p.passthrough = !r.chance(15);
        p.fanout = !r.chance(15);
        p.bundle = !r.chance(15);
        p.reorder = r.chance(15);
        p.merge_const = !r.chance(15);
        p.remove_unused = !r.chance(15);
        p.parallel = r.chance(50);
        p.legality = r.chance(10);
        return p;
    }
    std::string str() const {
        std::string s;
        auto f = [&](const char* n, bool v) { s += v ? std::string(n) + " " : ""; };
        f("if", optimize_if); f("pass", passthrough); f("fanout", fanout); f("bundle", bundle); f("reorder", reorder); f("const", merge_const);
        f("unused", remove_unused); f("ssa", ssa); f("par", parallel); f("dce", dce); f("lift", lift); f("legal", legality);
        return s;
    }
};
inline std::vector<std::string> sequence(const P& p) {
    std::vector<std::string> s = {"realize_fsm"};
    auto add = [&](bool c, const char* n) {
        if (c) s.push_back(n);
    };
    add(p.ssa, "ssa_transform_fix");
    add(p.passthrough, "remove_pass_through_modules");
    add(p.optimize_if, "merge_if_block");
    add(p.optimize_if, "transform_if_to_case");
    add(p.dce, "dead_code_elimination");
    add(true, "zero_out_stubs");
    add(p.fanout, "remove_fanout_one_wires");
    add(true, "zero_generator_inputs");
    add(p.bundle, "change_port_bundle_struct");
    add(true, "verify_generator_connectivity");
    add(p.merge_const, "merge_const_port_assignment");
    add(true, "decouple_generator_ports");
    add(true, "fix_assignment_type");
    add(p.pipeline, "insert_pipeline_stages");
    add(p.remove_unused, "remove_unused_vars");
    add(p.remove_unused, "remove_unused_stmts");
    add(true, "verify_assignments");
    add(p.check_loop, "check_combinational_loop");
    add(true, "check_mixed_assignment");
    add(true, "check_always_sensitivity");
    add(p.check_latch, "check_inferred_latch");
    add(p.check_high, "check_active_high");
    add(true, "check_function_return");
    add(true, "merge_wire_assignments");
    add(p.multi_driver, "check_multiple_driver");
    add(p.ff, "check_flip_flop_always_ff");
    add(true, p.parallel ? "hash_generators_parallel" : "hash_generators_sequential");
    add(true, "inline_instance");
    add(true, "change_property_into_stmt");
    add(true, "infer_property_clocking");
    add(true, "uniquify_generators");
    add(true, "create_module_instantiation");
    add(true, "create_interface_instantiation");
    add(p.lift, "lift_genvar_instances");
    add(p.reorder, "sort_stmts");
    add(p.legality, "port_legality_fix");
    return s;
}
inline std::map<std::string, std::string> emit_parts(Generator& g, const std::vector<std::string>& seq, const SystemVerilogCodeGenOptions* opt = nullptr) {
    VerilogModule vm(&g);
    vm.pass_manager().register_pass("remove_empty_block", &remove_empty_block);
    for (auto& n : seq) vm.pass_manager().add_pass(n);
    vm.run_passes();
    SystemVerilogCodeGenOptions o;
    o.extract_debug_info = false;
    return vm.verilog_src(opt ? *opt : o);
}
inline std::string definitions(Generator& g) {
    std::string t;
    for (auto& x : extract_dpi_function(&g, true)) t += x.second + "\n";
    for (auto& x : extract_struct_info(&g)) t += x.second + "\n";
    for (auto& x : extract_enum_info(&g)) t += x.second + "\n";
    for (auto& x : extract_interface_info(&g)) t += x.second + "\n";
    return t;
}
inline std::string emit(Generator& g, const std::vector<std::string>& seq, const SystemVerilogCodeGenOptions* opt = nullptr) {
    auto parts = emit_parts(g, seq, opt);
    std::string t = definitions(g);
    for (auto& x : parts) t += x.second + "\n";
    return t;
}
}  // namespace pl
