"""Everything that is known about each property: its text, how it is checked, on what workload.
tools/gen.py turns this into properties.jsonl and MANIFEST.json; tools/check.py runs the jobs."""
PROPS = {}


def P(id, title, statement, over, qtext, why, files, mech, observe, jobs, rule, technique, note, level="exploration",
      assumptions=(), **kw):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                     observe=observe, jobs=jobs, rule=rule, technique=technique, note=note, level=level,
                     assumptions=list(assumptions), **kw)


def J(harness, mode, quick, **kw):
    d = dict(harness=harness, mode=mode, quick=quick)
    d.update(kw)
    return d


ORACLE = ("Trusted: the reference SystemVerilog reader and simulator in /verif/harness (bv.hh, svparse.hh, svsim.hh: two-state values "
          "with explicit unknowns for undriven nets) and the golden text that the design generator writes independently of the code "
          "under test.")

P("C01", "Emitted SystemVerilog behaves exactly as the design that was built",
  "For every legal design built through the API and lowered with the standard pass pipeline, the emitted SystemVerilog is well formed and, "
  "for every sequence of clock, reset and input values, drives the same values on every output as the statements, operators, widths and "
  "signedness the user wrote. A legal design is never refused.",
  ["programs", "inputs", "configurations"],
  "all legal designs (hierarchies, combinational and sequential processes, functions, arrays, every operator), all pass toggles, all input histories",
  "Unit tests print a few fixed designs and compare substrings; behaviour of the text is never executed for arbitrary operator nesting, widths and pass combinations.",
  ["src/codegen.cc", "src/expr.cc", "src/stmt.cc", "src/generator.cc", "src/pass.cc", "src/transform.cc", "src/optimize.cc", "src/analysis.cc"],
  [("expression printing with precedence", "src/expr.cc expr_to_string"), ("statement printing", "src/codegen.cc"), ("standard pass pipeline", "src/pass.cc")],
  ["text returned by verilog_src()", "exceptions from run_passes()"],
  [J("h_equiv.cc", "emit", 2400)],
  "seeded random legal designs run through a random subset of the standard pipeline; the emitted text and an independently written golden text are "
  "simulated side by side on random input histories; non-trivial: at least one compared output changed value, distinct by golden text",
  "differential runtime monitoring: lockstep simulation of emitted text against golden text, under ASan+UBSan",
  "Held on the random designs and vectors listed in the evidence. " + ORACLE)

P("C02", "Passes that rewrite logic leave the behaviour of the design alone",
  "Running merge_if_block, transform_if_to_case, dead_code_elimination, remove_empty_block, merge_wire_assignments, remove_unused_vars, "
  "remove_unused_stmts, merge_const_port_assignment, remove_fanout_one_wires and sort_stmts, alone or in any order and number, on a legal design "
  "gives a design that is still legal and whose outputs are the same, for every sequence of inputs, as those of the design before the passes.",
  ["programs", "pass orders", "inputs"],
  "all legal designs, every sequence of the listed passes, all input histories",
  "Unit tests run one pass on one small fixed design and compare text or counts; whether the rewritten logic still computes the same values, and whether passes compose, is never executed.",
  ["src/optimize.cc", "src/transform.cc", "src/stmt.cc", "src/analysis.cc", "src/expr.cc"],
  [("if-to-case and if merging", "src/transform.cc"), ("dead code and empty block removal", "src/optimize.cc"), ("wire merging", "src/optimize.cc")],
  ["text returned by verilog_src()", "exceptions from run_passes()"],
  [J("h_passes.cc", "logic", 6000, kind="plain"), J("h_passes.cc", "logic", 320, base=500000)],
  "seeded random legal designs biased to contain what each pass rewrites (if ladders on one value, bitwise wire assignments, empty branches, unused variables), "
  "1-5 random passes before and 0-2 after port decoupling; emitted text and golden text of the untransformed design simulated side by side; "
  "non-trivial: an output changed value, distinct by golden text",
  "differential runtime monitoring: lockstep simulation before and after passes; ASan+UBSan on a share of the cases",
  "Held on the random designs, pass orders and vectors listed in the evidence. " + ORACLE)

P("C03", "Passes that rewire the hierarchy leave the behaviour of the design alone",
  "On a hierarchical design, decouple_generator_ports together with remove_pass_through_modules, change_port_bundle_struct, port_legality_fix, remove_fanout_one_wires, "
  "merge_const_port_assignment, remove_unused_vars, ssa_transform_fix and sort_stmts in any combination gives legal SystemVerilog in which every child port is still connected "
  "to what the user connected it to, and every output of the design has, for every sequence of inputs, the value it had before.",
  ["programs", "pass combinations", "inputs"],
  "all legal hierarchies (child ports connected to variables, expressions, slices, constants, other children and port bundles), every combination of the listed passes, all input histories",
  "Unit tests rewire one tiny hierarchy per pass and compare text; connection kinds are never combined and the wiring is never executed.",
  ["src/transform.cc", "src/optimize.cc", "src/expr.cc", "src/port.cc", "src/generator.cc"],
  [("port decoupling and rewiring", "src/transform.cc GeneratorPortVisitor"), ("moving sources and sinks", "src/expr.cc move_src_to, move_sink_to"), ("pass-through removal", "src/optimize.cc RemovePassThroughVisitor")],
  ["text returned by verilog_src()", "exceptions from run_passes()"],
  [J("h_passes.cc", "hier", 5000, kind="plain", opts={"inl": 0, "lift": 0}), J("h_passes.cc", "hier", 240, base=500000, opts={"inl": 0, "lift": 0})],
  "seeded random hierarchies (bundles, pass-through children, cloned lanes, children wired to each other, ports driven in parts or from processes, ports read in expressions) and a random subset "
  "of the rewiring passes; emitted text and independently written golden text simulated side by side; non-trivial: an output changed value, distinct by golden text",
  "differential runtime monitoring: lockstep simulation before and after rewiring; ASan+UBSan on a share of the cases",
  "Held on the random hierarchies, pass combinations and vectors listed in the evidence. " + ORACLE)

P("C04", "The built-in simulator computes what the emitted SystemVerilog computes",
  "For every legal design in which every register has been given a starting value, and every sequence of values set on inputs, clocks and resets, the values read from "
  "Simulator for all outputs equal the values the emitted SystemVerilog has for them: combinational logic settles, edges trigger exactly the sequential blocks sensitive to "
  "them, non-blocking assignments use values from before the edge, widths wrap and signs extend, and a design is never refused.",
  ["programs", "inputs", "histories"],
  "all legal designs without features the simulator documents as unsupported; all stimulus histories",
  "Unit tests simulate a handful of tiny modules for a few steps; operators, widths, signs, nested hierarchy and event ordering are sampled once at most.",
  ["src/sim.cc", "src/eval.cc", "src/expr.cc", "src/graph.cc"],
  [("event queue, dependency tables and settling", "src/sim.cc"), ("operator evaluation", "src/eval.cc eval_bin_op, eval_unary_op")],
  ["Simulator::get and get_complex", "exceptions from Simulator"],
  [J("h_sim.cc", "sim", 5000, kind="plain"), J("h_sim.cc", "sim", 240, base=500000)],
  "seeded random legal designs driven through Simulator::set; each output compared after every step with the reference simulation of the independently written golden text; "
  "non-trivial: an output changed value, distinct by golden text",
  "differential runtime monitoring of Simulator against a reference simulator, ASan+UBSan on a share of the cases",
  "Held on the random designs and stimulus listed in the evidence. " + ORACLE)

P("C05", "Constant evaluation agrees with SystemVerilog arithmetic",
  "eval_bin_op and eval_unary_op return, for every operator, width, signedness and operand values, the value SystemVerilog defines, or refuse; static_evaluate_expr on a tree of "
  "constants returns the value of the expression the tree prints as.",
  ["inputs"],
  "every operator, both signs, widths 1 to 64, all operand values; constant trees of every shape",
  "The tests evaluate a few operations on hand-picked numbers; overflow, sign and width boundaries are an input space.",
  ["src/eval.cc", "src/expr.cc"],
  [("binary and unary evaluation", "src/eval.cc"), ("static evaluation of trees", "src/eval.cc static_evaluate_expr")],
  ["return values of eval_bin_op, eval_unary_op, static_evaluate_expr"],
  [J("h_eval.cc", "ops", 160), J("h_eval.cc", "trees", 400)],
  "operator table exhaustively for operands up to 5 bits, boundary and random operands up to 64 bits; random constant trees; each result compared with an independent "
  "arbitrary-width evaluator; non-trivial: the operands and result are not all zero",
  "differential runtime monitoring against an independent bit-vector evaluator, under ASan+UBSan",
  "Exhaustive up to 5 bits, sampled above. " + ORACLE)

P("C06", "The output depends on the design only",
  "Building the same design by the same calls and generating it with the same options gives the same text for every module, package file, header and debug table, "
  "and the same error if it is refused, wherever its objects happen to lie in memory and whatever was built in the process before.",
  ["programs", "configurations", "memory layouts"],
  "all designs built by the same calls in the same order; all pass toggles; all heap layouts; anything built before",
  "A unit test sees one memory layout per run; a dependence on the order of pointers in a set shows up as a result that changes now and then, which tests cannot hold against an expectation.",
  ["src/optimize.cc", "src/transform.cc", "src/fsm.cc", "src/graph.cc", "src/analysis.cc", "src/pass.cc", "src/hash.cc", "src/codegen.cc", "src/expr.cc"],
  [("iteration over sets of pointers in passes", "src/optimize.cc, src/transform.cc, src/expr.cc"), ("state machine outputs", "src/fsm.cc"), ("naming of unique modules", "src/pass.cc, src/hash.cc")],
  ["text of every module", "package and header files", "error messages", "debug tables"],
  [J("h_twin.cc", "det", 2600, kind="plain"), J("h_twin.cc", "det", 150, base=700000)],
  "each random design (hierarchies, state machines, bundles, reset, enable and pipeline insertion, every pass toggle) is built and generated five times: with the normal allocator, "
  "in a fresh process that has built nothing else, and three times with an allocator that hands out blocks of one size in random order, the last time after an unrelated design was built and thrown away; everything generated is compared byte for byte; "
  "non-trivial: the design has modules to compare, distinct by golden text",
  "runtime monitoring of the same program under injected heap layouts; byte comparison of everything it produces; ASan+UBSan on a share of the cases",
  "Held on the designs and layouts listed in the evidence. Trusted: the allocator in the harness changes the order of addresses only.")

P("C22", "Structs, arrays of structs and enums mean what the same numbers would",
  "A design written with packed structs (nested, in arrays, as ports, picked by constants or variables, assigned whole or by member) and enums (global or local, registered, compared, switched on, cast, passed "
  "through ports) behaves after all passes exactly like the design that has one plain variable for every member and numbers for the enum values, keeps the declared member order when a struct is read as a vector, "
  "and its text declares every type before it is used.",
  ["programs", "inputs", "histories", "configurations"],
  "all structs, nestings, array sizes and enums; all hierarchies that pass them through ports; all pass toggles; all inputs",
  "Unit tests compare the text of a few structs with fixed files; none simulates a struct design, nests structs or passes enums through several modules.",
  ["src/expr.cc", "src/port.cc", "src/generator.cc", "src/codegen.cc", "src/transform.cc", "src/stmt.cc"],
  [("packed structs and their members", "src/expr.cc PackedSlice, VarPackedStruct, src/port.cc PortPackedStruct"), ("enums", "src/expr.cc EnumVar, EnumConst, src/port.cc EnumPort"),
   ("definitions", "src/codegen.cc, src/pass.cc extract_struct_info, extract_enum_info")],
  ["text returned by generate_verilog", "definitions of structs and enums", "Simulator::get (probe)"],
  [J("h_typed.cc", "structs", 3600, kind="plain"), J("h_typed.cc", "structs", 260, base=500000), J("h_typed.cc", "order", 1)],
  "each random design is built twice from the same random choices, typed and flat; both texts are simulated in lockstep on random inputs; non-trivial: an output changed value, distinct by emitted text; "
  "one fixed probe compares the built-in simulator with the emitted text on member order",
  "differential runtime monitoring of typed against flat designs by lockstep simulation; ASan+UBSan on a share of the cases",
  "Held on the random designs listed in the evidence. " + ORACLE)

P("C15", "Editing a design in ways that keep its meaning keeps its meaning",
  "A design that is edited through the API before it is emitted - variables, ports and instances renamed (and freed names used again), readers or writers of a signal moved to a new wire that is connected with it, "
  "statements or connections taken out and put back, an instance taken out and connected again, or replaced by a module that wraps it - behaves after all passes exactly like the design that was never edited; after "
  "every edit things are found under their new names only, exactly the connections of a removed instance disappear, and a rename to a name in use is refused.",
  ["programs", "histories", "inputs", "configurations"],
  "all hierarchies, any sequence of edits at any place, all pass toggles; all inputs",
  "Unit tests make one edit on a two-line design and look at one field; sequences of edits, and edits of signals with slices, expressions, several readers or readers inside the instance, are never tested.",
  ["src/generator.cc", "src/generator.hh", "src/expr.cc", "src/expr.hh", "src/stmt.cc", "src/util.cc"],
  [("renaming", "src/generator.cc rename_var, rename_child_generator"), ("instances", "src/generator.cc remove_child_generator, replace, copy_over_missing_ports"),
   ("moving connections", "src/expr.cc Var::move_src_to, Var::move_sink_to"), ("statements", "src/generator.cc unwire, remove_stmt; src/stmt.cc remove_stmt")],
  ["text returned by generate_verilog", "exceptions", "lookups by name after each edit"],
  [J("h_edit.cc", "edit", 4800, kind="plain"), J("h_edit.cc", "edit", 500, base=500000)],
  "each random design gets 1-12 random edits; its text is simulated in lockstep with golden text written while the design was built, which knows nothing of the edits; non-trivial: an output changed value, distinct by "
  "design and edits",
  "runtime monitoring of edited designs against the unedited golden text by lockstep simulation, monitors on every lookup after an edit; ASan+UBSan on a share of the cases",
  "Held on the random designs and edits listed in the evidence. Not drawn: clones (C03 has them), struct, enum and interface ports in edits. " + ORACLE)

P("C25", "Interfaces and modports mean what plain wires would",
  "A design whose modules talk through interfaces (with ports, variables, clocks, resets and modports; several instances; handed down through the hierarchy; as ports of the top module) behaves after all passes "
  "exactly like the design that has one plain wire or port for every interface signal in the declared direction; the definition of every interface and modport in use is emitted once, every instance and interface "
  "port is connected to the interface it was wired to, and two different definitions under one name are refused.",
  ["programs", "inputs", "histories", "configurations"],
  "all interface definitions, modports, instances and hierarchies that pass them on; all pass toggles; all inputs",
  "Unit tests compare the text of a few two-module designs with fixed files; several readers, expressions as connections, arrays, nested modports and clashing definitions are never tested.",
  ["src/interface.cc", "src/interface.hh", "src/generator.cc", "src/stmt.cc", "src/codegen.cc", "src/analysis.cc", "src/transform.cc", "src/optimize.cc", "src/port.cc"],
  [("definitions, references and wiring", "src/interface.cc, src/generator.cc interface, wire_interface"), ("instances and connections", "src/stmt.cc InterfaceInstantiationStmt, src/codegen.cc generate_port_interface"),
   ("extraction of definitions", "src/analysis.cc extract_interface_info")],
  ["text returned by generate_verilog", "definitions returned by extract_interface_info"],
  [J("h_iface.cc", "iface", 6400, kind="plain"), J("h_iface.cc", "iface", 500, base=500000)],
  "each random design is built with interfaces; its text goes through a flattener that applies the rules of SystemVerilog for interfaces and is then simulated in lockstep with golden text that has plain wires only; "
  "non-trivial: an output changed value, distinct by emitted text",
  "differential runtime monitoring of interface designs against plain-wire designs by lockstep simulation; ASan+UBSan on a share of the cases",
  "Held on the random designs listed in the evidence. Not drawn: whole interfaces (without modport) that have variables as module ports. " + ORACLE)

P("C07", "Generators share a module exactly when they describe the same hardware",
  "After hashing (sequential or parallel) and uniquify_generators, two generators created under one name are printed as one module if and only if they would print the same text on "
  "their own: generators that differ in any construct get different module names and every instance refers to the module that describes it; equal generators are never split.",
  ["programs", "configurations"],
  "every construct that can differ between two generators, any number and order of instances, nested hierarchies, both hash passes",
  "One unit test hashes two small modules; whether each kind of difference reaches the hash, whatever the order of instances and addresses, is never tested.",
  ["src/hash.cc", "src/pass.cc", "src/context.cc"],
  [("generator hash", "src/hash.cc"), ("renaming", "src/pass.cc uniquify_generators")],
  ["Generator::name after uniquify_generators", "text returned by generate_verilog"],
  [J("h_uniq.cc", "pairs", 1000), J("h_uniq.cc", "twins", 3000, kind="plain")],
  "86 constructs built in two variants under one name, 2-5 instances in random order and nesting, the text of each instance's module compared with the text the variant prints alone; random generators "
  "copied with one decision changed, whole design simulated against independently written golden text in which nothing is shared; non-trivial: construct, hash pass and instance order (pairs), an output "
  "changed value (twins)",
  "runtime monitoring: print-alone oracle per instance and lockstep simulation of designs with name clashes, ASan+UBSan on the construct table",
  "Held on the constructs and random twins listed in the evidence. " + ORACLE)

P("C10", "Illegal hardware is refused and legal hardware is not",
  "The standard checks (the pipeline as a whole, and the responsible pass alone) refuse a design in which a variable of a combinational process is assigned, as a whole or always in the same slice, on some "
  "but not all paths (a latch); a function with a return value does not return on every path; one bit is driven by two wires, two processes, or a wire and a process; an input of a child is driven twice or "
  "an output of a child is driven from outside; some bit of a child input or output is never driven; a process mixes blocking and non-blocking assignments against its kind; a combinational variable depends "
  "on itself as a whole through any expression; a reset is used with the wrong polarity or as the wrong kind, or a register is reset but never set; a sensitivity list uses something that is not a clock or "
  "asynchronous reset; an `if` at the top of a sequential process has siblings; or an expression reads a variable of a module that is not adjacent. With check_non_synthesizable_content, non-synthesizable "
  "content is refused too. The same designs with the defect removed are accepted.",
  ["programs"],
  "all designs; the defect anywhere in nested if/case structure, hierarchy, slices and surrounding legal logic",
  "Each unit test rejects one minimal bad design; the checks walk arbitrary control flow, slices and hierarchies, and both a miss and a false refusal depend on the shape.",
  ["src/analysis.cc", "src/optimize.cc", "src/pass.cc", "src/stmt.cc", "src/transform.cc"],
  [("latch, return and driver checks", "src/analysis.cc"), ("combinational loop", "src/analysis.cc CombinationalLoopVisitor"), ("pipeline", "src/pass.cc")],
  ["exceptions from run_passes() and from the responsible pass"],
  [J("h_legal.cc", "rules", 12000, kind="plain"), J("h_legal.cc", "rules", 600, base=500000)],
  "seeded random control-flow shapes around a decision, generated together with the answer of a path/driver oracle; half legal, half with one defect; run through the whole pipeline or the responsible pass alone; "
  "non-trivial: kind, legality and shape of the case",
  "runtime monitoring of accept/refuse decisions against an independent path and driver oracle; ASan+UBSan on a share of the cases",
  "Held on the random designs listed in the evidence. Not claimed: latches made by disjoint partial slices, inputs driven inside their own module.")

P("C11", "A state machine described through the API is the state machine that is emitted",
  "A realized FSM (flat or nested, Moore or Mealy, reset active high or low, several in one generator) enters its start state on reset; in every state the transitions are tried in the order they were added, the "
  "unconditional one applies when no condition holds, and without one the state is kept. Moore outputs have the values given for the current state, defaults where none was given, and are kept where the value is "
  "'unchanged'; Mealy outputs have the values of the state that the taken transition leads to. The dot graph lists exactly the reachable states, the start state and the transitions; the output table lists exactly "
  "the states of the machine and their outputs, at any time. A machine that is incomplete or contradictory (missing start state, transition or output, a second unconditional transition, a repeated state, condition "
  "or output, a wide condition, a foreign next state) is refused, a complete one is not.",
  ["programs", "inputs", "histories"],
  "all state machines of any shape, all input histories including resets at any time",
  "The unit tests realize two-state machines and compare text; transition priority, nesting, Mealy outputs, unchanged outputs and optimisation passes on the result are never executed.",
  ["src/fsm.cc", "src/transform.cc", "src/generator.cc"],
  [("realization", "src/fsm.cc FSM::realize"), ("graph and table", "src/fsm.cc dot_graph, output_table"), ("completeness", "src/fsm.cc check_outputs, FSMState::next")],
  ["text returned by verilog_src()", "dot_graph()", "output_table()", "exceptions"],
  [J("h_fsm.cc", "fsm", 4000, kind="plain"), J("h_fsm.cc", "fsm", 240, base=500000), J("h_fsm.cc", "refuse", 1500)],
  "random designs with one or two random machines per module (1-7 states, 0-2 nested machines) put through a random subset of the standard passes; emitted text simulated against independently written golden "
  "text for random inputs and resets; graph and table parsed and compared with the description before and after realization and passes; random machines with one defect; non-trivial: an output changed value",
  "differential runtime monitoring: lockstep simulation and parsing of graph and table; ASan+UBSan on a share of the cases",
  "Held on the random machines and histories listed in the evidence. Mealy outputs while no transition is taken are not specified. " + ORACLE)

P("C13", "The number of threads does not change the result, and passes do not race",
  "Every pass that visits modules in parallel, hashing and code generation (single strings, split files and packages) give, with any number of threads and any scheduling, "
  "exactly the text, files and errors they give with one thread, and no two threads access the same memory without synchronisation while they do.",
  ["programs", "schedules", "configurations"],
  "all designs, broken ones included; 2 to 8 threads; all schedules; all passes that run in parallel",
  "Unit tests run on fixed designs whose modules are few and alike, with whatever schedule the machine happens to produce, and no race detector.",
  ["src/ir.cc", "src/codegen.cc", "src/hash.cc", "src/transform.cc", "src/optimize.cc", "src/analysis.cc", "src/formal.cc", "src/debug.cc", "src/context.cc"],
  [("parallel visitors", "src/ir.cc visit_generator_root_p, visit_generator_root_tp, visit_root_tp"), ("parallel code generation", "src/codegen.cc"), ("parallel hashing", "src/hash.cc")],
  ["text of every module", "files written", "error messages", "memory accesses (ThreadSanitizer)"],
  [J("h_twin.cc", "par", 400, kind="tsan"), J("h_twin.cc", "par", 1200, kind="plain", base=300000)],
  "each random design is generated with one thread and then with 2-8 threads, once with random delays injected before tasks and tasks taken in random order; text, files and errors are compared and "
  "ThreadSanitizer watches every access; the evidence counts tasks run and distinct completion orders; non-trivial: the design has modules to compare, distinct by golden text",
  "race detection (ThreadSanitizer) and differential monitoring of parallel against serial runs under injected delays",
  "Held on the schedules seen, counted in the evidence. Trusted: /verif/shim/cxxpool.h stands in for the thread pool library, which is not part of this repository's sources.")

P("C20", "Clock-enable and sync-reset insertion gate state and nothing else",
  "After auto_insert_clock_enable every register of every generator that is not marked dont_touch keeps its value at a clock edge while the top's clock enable is low, resets (however the reset condition is "
  "written) still take effect while it is low, and behaviour with the enable high is that of the original design; blocks and generators marked dont_touch are unchanged; an enable port a child already has is "
  "used, a constant on it is replaced, another signal on it is kept. After auto_insert_sync_reset every process with an asynchronous reset also loads its reset values at an edge with the named reset high, above "
  "or below the clock enable as requested; processes without an asynchronous reset, or with a synchronous reset of their own, are unchanged, and so is a reset port that is already driven.",
  ["programs", "inputs", "histories"],
  "all designs and hierarchies, all placements of dont_touch, all input histories of enable and resets",
  "The unit tests look for one line of text in one small design; no test simulates the result or varies hierarchy, reset style, existing enables and constants.",
  ["src/optimize.cc", "src/stmt.cc", "src/generator.cc"],
  [("clock enable", "src/optimize.cc InsertClockIRVisitor"), ("synchronous reset", "src/optimize.cc InsertSyncReset")],
  ["text returned by verilog_src()"],
  [J("h_insert.cc", "clken", 3000, kind="plain"), J("h_insert.cc", "clken", 200, base=500000), J("h_insert.cc", "sreset", 3000, kind="plain"), J("h_insert.cc", "sreset", 200, base=500000)],
  "random hierarchies of clocked modules with every reset style, random dont_touch marks, existing enable/reset ports tied, shared or private; emitted text simulated in lockstep with golden text that has the gating "
  "written out; non-trivial: an output changed value",
  "differential runtime monitoring: lockstep simulation against independently gated golden text; ASan+UBSan on a share of the cases",
  "Held on the random designs and histories listed in the evidence. Blocks whose first statement already tests the enable are the author's. " + ORACLE)

P("C16", "Parameters mean what numbers would",
  "A design whose widths, array sizes, reset and compare values come from parameters behaves exactly like the design written with the numbers those parameters stand for, for the values that are set; and when "
  "nothing else fixes a size, for every other value given from outside to the emitted module. This holds however the value got there: set after the variables were made, replaced, cleared, inherited from the parent "
  "generator, given an initial value, set again after the passes, and for signed values, slices and declarations copied from parametrised variables.",
  ["programs", "inputs", "parameter values"],
  "all designs with integer parameters of the same type as the parameter they inherit from, all values, all input histories",
  "A handful of unit tests compare the text of modules with one parameter.",
  ["src/expr.cc", "src/generator.cc", "src/codegen.cc", "src/transform.cc", "src/optimize.cc"],
  [("parameter links", "src/expr.cc Param::set_value, Var::set_width_param, set_size_param"), ("slices of parametrised variables", "src/expr.cc VarSlice, VarVarSlice"),
   ("parameter declarations and overrides", "src/codegen.cc generate_parameters, stmt_code(ModuleInstantiationStmt*)"), ("copies of declarations", "src/transform.cc, src/expr.cc copy_meta_data")],
  ["text returned by verilog_src()"],
  [J("h_param.cc", "params", 2500, kind="plain"), J("h_param.cc", "params", 200, base=500000)],
  "random parametrised hierarchies built twice, with parameters and with plain numbers, through random variations of the standard passes; the emitted text is simulated in lockstep for the values set and, for designs "
  "that fix no size, two more sets of values given from outside; non-trivial: an output changed value",
  "differential runtime monitoring: lockstep simulation against the design with plain numbers; ASan+UBSan on a share of the cases",
  "Held on the random designs, values and histories listed in the evidence. Raw type and enum parameters, and parameters inherited from one of another type, are not generated. " + ORACLE)

P("C18", "Options, comments, files and wrappers do not change the design",
  "Writing a design out means the same hardware whatever the codegen options (line wrapping, unique case, source attributes), whatever comments and source locations are attached to ports, variables and statements, "
  "and whether it comes back as strings or as one file per module with a package header. The files written are exactly one per module, the header and the debug files asked for; writing again leaves files that are up "
  "to date alone and brings any other up to date. A wrapper made by create_wrapper_flatten has one port for each element of an array port and behaves like the design it wraps.",
  ["programs", "options", "inputs", "histories"],
  "all designs, options, comments, contents of the output directory",
  "Unit tests write two small designs to files and do not read most of them back.",
  ["src/codegen.cc", "src/util.cc", "src/transform.cc", "src/debug.cc", "src/analysis.cc"],
  [("options", "src/codegen.cc SystemVerilogCodeGen"), ("packages", "src/codegen.cc generate_verilog_pkg, generate_sv_package_header"), ("comments", "src/util.cc strip_newline, line_wrap"),
   ("wrapper", "src/codegen.cc create_wrapper_flatten, src/util.cc get_flatten_slices")],
  ["text returned by verilog_src()", "files in the output directory"],
  [J("h_out.cc", "write", 1600, kind="plain"), J("h_out.cc", "write", 150, base=500000), J("h_out.cc", "flatten", 1000, kind="plain"), J("h_out.cc", "flatten", 100, base=500000)],
  "random designs (plain, or with structs and enums) with random comments and locations, written with random options as strings twice and as files twice with some files changed in between; every text, after preprocessing, "
  "simulated in lockstep with golden text; contents and times of the files watched; non-trivial: an output changed value",
  "differential runtime monitoring: lockstep simulation of every form of the output, monitor on the output directory; ASan+UBSan on a share of the cases",
  "Held on the random designs, options and directory contents listed in the evidence. Wrappers are checked for top modules without struct or enum ports. " + ORACLE)

P("C12", "Recorded line numbers point at what they describe",
  "With debugging on, the line recorded for every module, port, variable, assignment, branch, switch, loop, process, function, call and instance is the line of the emitted text that holds it, in strings, in files and "
  "after fix_verilog_ln has moved the module down; comments stand right above what they describe; and the debug information maps lines of a module to the source locations of what stands on those lines, all of it and "
  "nothing from elsewhere, each time the design is written.",
  ["programs", "options"],
  "all designs, comments and source locations, all options that change the layout",
  "Unit tests call these functions and hardly look at the numbers.",
  ["src/codegen.cc", "src/debug.cc", "src/graph.cc", "src/ir.cc"],
  [("recording", "src/codegen.cc, verilog_ln"), ("mapping", "src/debug.cc extract_debug_info, extract_debug_info_gen"), ("debug files", "src/codegen.cc output_pkg_debug_info"),
   ("moving", "src/codegen.cc fix_verilog_ln, src/graph.cc StatementGraph")],
  ["verilog_ln of IR nodes", "text returned by verilog_src()", "files in the output directory"],
  [J("h_out.cc", "lines", 4000, kind="plain"), J("h_out.cc", "lines", 250, base=500000)],
  "random hierarchies through random variations of the standard passes, with random comments, options and a source location of its own for each node; every recorded line is looked up in the text as strings, moved, and as "
  "files, and every entry of the debug information is compared; non-trivial: a module of more than five lines",
  "runtime monitoring: an offline checker of every recorded line number and debug entry against the emitted text; ASan+UBSan on a share of the cases",
  "Held on the random designs listed in the evidence. Debug information of a module shared by several generators is compared only when one generator describes it.")

P("C21", "Pipeline insertion delays the outputs by the requested number of cycles",
  "insert_pipeline_stages makes every output of a generator with a pipeline attribute of N appear exactly N rising edges of its clock later than in the original design, with the same width, shape and sign, for "
  "outputs driven by wires, processes, slices or instances; everything inside the generator, including its own reads of its outputs, and every other generator is unchanged.",
  ["programs", "inputs", "histories"],
  "all designs and hierarchies with any number of pipelined modules and stages, all input histories",
  "One unit test compares the text of a module with a scalar pass-through output.",
  ["src/optimize.cc", "src/expr.cc", "src/generator.cc"],
  [("pipeline registers", "src/optimize.cc PipelineInsertionVisitor"), ("moving drivers", "src/expr.cc Var::move_src_to, move_sink_to")],
  ["text returned by verilog_src()"],
  [J("h_insert.cc", "pipe", 5000, kind="plain"), J("h_insert.cc", "pipe", 300, base=500000)],
  "random hierarchies with random modules pipelined 1-3 deep, through the standard passes; emitted text simulated in lockstep with golden text in which the module is wrapped in registers; non-trivial: an output "
  "changed value",
  "differential runtime monitoring: lockstep simulation against wrapped golden text; ASan+UBSan on a share of the cases",
  "Held on the random designs and histories listed in the evidence. The pass runs before the modules are hashed, as in kratos/passes.py. " + ORACLE)

P("C09", "Expressions have SystemVerilog widths and signs; illegal calls are refused",
  "The width and sign Kratos reports for an expression are those of the emitted expression under the SystemVerilog rules, and its value is that of the expression with every extension written out: an operand is "
  "extended, never narrowed, a constant takes another width only if its value fits, and shared constants keep their width where else they are used. Assignments of another width or sign, slices and indices out "
  "of range, wide conditions and clocks, reserved or taken names, ill-typed function calls, values that do not fit and assignments to what cannot be assigned are refused with an error of the library, legal ones "
  "are accepted, and a refused call leaves the design as it was.",
  ["programs", "inputs"],
  "all expressions over variables and constants of any width and sign, all sequences of legal calls and calls to be refused",
  "The unit tests try about a dozen refusals and a handful of expressions; no test relates reported widths and signs to the value of the emitted text or looks at the design after a refusal.",
  ["src/expr.cc", "src/stmt.cc", "src/port.cc", "src/generator.cc"],
  [("operand sizing", "src/expr.cc Expr::Expr, resize_var, IterVar::safe_to_resize"), ("constants", "src/expr.cc Const"), ("assignment typing", "src/stmt.cc AssignStmt::AssignStmt, src/port.cc Port::assign_"),
   ("names and hierarchy", "src/generator.cc")],
  ["width(), is_signed() and text of every expression", "exceptions", "variables, ports, drivers, children and text of the design after a refused call"],
  [J("h_type.cc", "exprs", 8000, kind="plain"), J("h_type.cc", "exprs", 500, base=500000), J("h_type.cc", "refuse", 4000, kind="plain"), J("h_type.cc", "refuse", 1500, base=500000)],
  "random expression trees with random widths, signs and constants, judged by an independent statement of the typing rules and by simulation; random call sequences in which most calls have to be refused, compared "
  "with a twin built without them; non-trivial: an output changed value, or a call was refused",
  "runtime monitoring: prediction of acceptance, width and sign by an independent checker, lockstep simulation of the values, twin designs; ASan+UBSan on a share of the cases",
  "Held on the random expressions and call sequences listed in the evidence. Shifts by signed amounts and shifted constants are left out. " + ORACLE)
