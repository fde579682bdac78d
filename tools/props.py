#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Scalar arithmetic is exact or reported as an error",
  "For integer types of any declared range up to 64 bits, the predefined operators (+ - * / mod rem ** abs, sign, comparisons, minimum/maximum) yield the mathematically exact result, and a result outside the declared range (but within 64 bits), a division by zero or a negative exponent is reported as an error instead of being passed on or assigned; physical types give the exact result whenever it is representable and REAL follows IEEE double arithmetic, and conversions between numeric types round to nearest. The value is the same whether the expression is folded during analysis/elaboration or evaluated at run time, and on every execution engine.",
  ["inputs", "configurations"], "all operand values (incl. type boundaries), all numeric types, literal / constant / run-time operand forms, interpreter, JIT and ahead-of-time code at every optimisation level",
  "the regression tests evaluate a few dozen fixed expressions, nearly all with small operands and on the default engine only",
  ["src/simp.c", "src/eval.c", "src/vcode.c", "src/lower.c", "src/jit/jit-interp.c", "src/jit/jit-irgen.c", "src/jit/jit-optim.c", "src/jit/jit-llvm.c", "src/jit/jit-exits.c", "src/common.c"],
  [("constant folding of emitted arithmetic", "src/vcode.c:emit_add/emit_mul/emit_div/..."), ("overflow-checked operations and value propagation", "src/jit/jit-irgen.c, src/jit/jit-optim.c"), ("interpreter arithmetic", "src/jit/jit-interp.c"), ("overflow and zero-division exits", "src/jit/jit-exits.c")],
  ["program output", "error diagnostics", "exit status"])

p("C02", "Range, index, slice and length checks are sound and complete",
  "A simulation step that gives a scalar a value outside its subtype, indexes or slices an array outside its index range, associates or assigns arrays of different length, dereferences a null access value, or converts outside the target range always stops with an error reported at the offending line, and nothing after it executes. A program in which every such value is in range never gets such an error.",
  ["inputs", "programs"], "all values, index ranges (ascending, descending, null), nesting and statement forms (variable, signal, parameter, return value, attribute, aggregate, conversion), with bounds known statically or only at run time",
  "each check has one or two regression tests with one failing value; off-by-one, null-range, direction and dynamic-bounds combinations are not enumerated",
  ["src/bounds.c", "src/lower.c", "src/sem.c", "src/jit/jit-irgen.c", "src/jit/jit-exits.c"],
  [("static bounds checking pass", "src/bounds.c"), ("run-time check emission and elision", "src/lower.c:lower_check_*"), ("check folding", "src/vcode.c:emit_range_check/emit_index_check"), ("reporting", "src/jit/jit-exits.c")],
  ["diagnostics with line", "exit status", "program output"])

p("C03", "Sequential code behaves per the LRM, identically on every engine",
  "A well-defined sequential VHDL program (variables, records, arrays, nested loops with exit/next, if/case, functions and procedures with in/out/inout parameters, recursion, early return, nested subprograms with up-level references) produces exactly the output the language rules prescribe. The output is the same when it is interpreted, JIT-compiled, or compiled ahead of time at any optimisation level, and whether it runs in a process or is evaluated during elaboration.",
  ["programs", "configurations"], "all programs of the stated subset and all engine/optimisation configurations",
  "regression tests are fixed programs run on the default engine; optimiser and code-generator interactions depend on program shape",
  ["src/lower.c", "src/vcode.c", "src/simp.c", "src/jit/jit-irgen.c", "src/jit/jit-interp.c", "src/jit/jit-llvm.c", "src/jit/jit-optim.c", "src/jit/jit-core.c", "src/jit/jit-code.c", "src/jit/jit-pack.c", "src/mir/mir-optim.c", "src/cgen.c"],
  [("lowering to intermediate code", "src/lower.c"), ("MIR/JIT IR generation and optimisation", "src/mir, src/jit/jit-irgen.c, src/jit/jit-optim.c"), ("interpreter and LLVM back ends", "src/jit/jit-interp.c, src/jit/jit-llvm.c")],
  ["program output"])

p("C04", "Signals, drivers and processes follow the LRM simulation cycle",
  "Every signal takes, at every time and delta cycle, the value prescribed by the projected output waveforms of its drivers under the inertial, transport and reject rules and by its resolution function, and the attributes 'event, 'active, 'last_value, 'last_event, 'last_active, 'delayed, 'stable, 'quiet and 'transaction agree with that history. Processes resume exactly when their sensitivity, condition or timeout clause says so.",
  ["histories", "programs"], "all sequences of signal assignments (delay mechanisms, multiple waveform elements, partial drivers, several drivers), waits, and times",
  "the regression tests fix a few dozen waveforms; pre-emption, delta ordering and resolution bugs depend on the particular interleaving of transactions",
  ["src/rt/model.c", "src/rt/heap.c", "src/lower.c", "src/driver.c", "src/rt/structs.h"],
  [("projected output waveform editing", "src/rt/model.c:insert_transaction/sched_driver"), ("driving/effective value calculation and resolution", "src/rt/model.c:calculate_driving_value/call_resolution"), ("event queue and delta cycles", "src/rt/model.c:model_cycle, src/rt/heap.c"), ("wakeups", "src/rt/model.c:notify_event/wakeup_one/run_trigger")],
  ["program output per delta cycle"])

p("C05", "Elaboration preserves hierarchy semantics; port collapsing is invisible",
  "A design described with any nesting of component or entity instances, generics, for/if/case generates, blocks, port maps (whole, individual, sliced, converted, literal, open with default) behaves exactly like the same design written flat, and 'path_name / 'instance_name / 'simple_name report the hierarchy. Collapsing ports into one signal, generic overrides on the command line and saving the elaborated design to disk do not change any observable value.",
  ["programs", "configurations"], "all hierarchies, port associations, generic values and generate conditions; with and without port collapsing",
  "the tests check fixed hierarchies; signal splitting, partial association and collapse depend on the combination of slices, types and directions",
  ["src/elab.c", "src/lower.c", "src/rt/model.c", "src/simp.c", "src/driver.c"],
  [("instantiation, generate expansion, generic folding", "src/elab.c"), ("port map lowering and collapsing", "src/lower.c:lower_port_map/lower_port_decl"), ("nexus split / connect", "src/rt/model.c:clone_nexus/x_map_signal/collapse_nexus")],
  ["program output"])

p("C06", "Waveform dumps record exactly the simulated signal history",
  "A VCD or FST dump of a simulation contains, for every selected signal, its hierarchical name, and exactly the value it had after every time step at which it changed, with correct timestamps; both formats describe the same history. Inclusion and exclusion patterns select exactly the matching signals.",
  ["histories", "inputs"], "all signal types that can be dumped, all value histories, all inclusion/exclusion patterns",
  "the dump tests compare a handful of fixed gold files",
  ["src/rt/wave.c", "thirdparty/fstapi.c", "src/rt/model.c", "src/util.c"],
  [("value change callbacks and formatting", "src/rt/wave.c:fst_event_cb/fst_fmt_*"), ("glob selection", "src/rt/wave.c:wave_should_dump, src/util.c:ident_glob")],
  ["VCD file", "FST file"])

p("C07", "IEEE std_logic/numeric operations equal their mathematical definition",
  "The operations of ieee.std_logic_1164, numeric_std and numeric_bit (logic, reductions, arithmetic, comparison, shifts and rotates, resize, conversions, matching operators, edge detection, metavalue handling) return the standard's result for every operand value and width. Replacing package functions with built-in (scalar or vector) intrinsics never changes a result.",
  ["inputs", "configurations"], "all operand values including metavalues, all vector widths and index directions, with intrinsics on or off, on every engine",
  "the IEEE tests use fixed operands of a few widths; intrinsics have word-size dependent paths",
  ["src/jit/jit-intrin.c", "lib/ieee.08/std_logic_1164-body.vhdl", "lib/ieee.08/numeric_std-body.vhdl", "lib/ieee.08/numeric_bit-body.vhdl"],
  [("intrinsic substitution", "src/jit/jit-intrin.c"), ("package bodies", "lib/ieee*, lib/ieee.08")],
  ["program output"])

p("C08", "IEEE fixed, float and real-math packages compute the specified values",
  "fixed_pkg arithmetic, resizing and conversions give the exactly rounded/saturated result that the package specifies, float_pkg arithmetic, comparisons and conversions on binary32/binary64 formats agree with IEEE 754 round-to-nearest, and math_real/math_complex functions agree with the mathematical functions to within their stated accuracy.",
  ["inputs"], "all operand values and formats, incl. zeros, denormals, infinities, overflow and rounding boundaries",
  "no test computes more than a few fixed operands",
  ["lib/ieee.08/fixed_generic_pkg-body.vhdl", "lib/ieee.08/float_generic_pkg-body.vhdl", "lib/ieee/math_real-body.vhdl", "src/jit/jit-intrin.c"],
  [("package bodies", "lib/ieee.08"), ("math intrinsics", "src/jit/jit-intrin.c")], ["program output"])

p("C09", "Values survive conversion to text and back",
  "For every scalar type T and value X, T'VALUE(T'IMAGE(X)) = X, and the image is the one the language prescribes; TO_STRING/TO_HSTRING/TO_OSTRING, STD.TEXTIO and IEEE text I/O READ applied to what WRITE produced give back the value for every justification and field width. Text that is not a legal image of the type is rejected (an error, or GOOD = FALSE), never turned into a value.",
  ["inputs"], "all types, values, field widths, justifications, time units and malformed strings",
  "tests check individual literals",
  ["src/rt/standard.c", "src/vhdl/vhdl-predef.c", "lib/std.08/textio-body.vhdl", "lib/std/textio-body.vhdl", "src/lower.c", "src/jit/jit-exits.c"],
  [("string conversion helpers", "src/vhdl/vhdl-predef.c, src/rt/standard.c"), ("text I/O", "lib/std*/textio-body.vhdl")], ["program output"])

p("C10", "File operations behave like a sequential file model",
  "Any sequence of FILE_OPEN/CLOSE/READ/WRITE/ENDFILE/FLUSH/REWIND/SEEK/TRUNCATE and text-line operations on files of scalar, array and text types returns the values, statuses and end-of-file results of an ordinary sequential file, what is written is read back identically (also by a later simulation), and illegal operations are reported as errors.",
  ["histories", "inputs"], "all operation sequences, element types, open modes and contents",
  "the tests contain short fixed sequences",
  ["src/rt/fileio.c", "lib/std.08/textio-body.vhdl", "src/lower.c"],
  [("file slots and handles", "src/rt/fileio.c")], ["program output", "file contents"])

p("C11", "Garbage collection never changes program behaviour",
  "Programs that allocate, link, mutate and deallocate heap objects (access types to scalars, records, arrays, protected-type state, strings) observe the same values as with unlimited memory whatever the heap size and however often the collector runs, as long as the reachable data fits. When it does not fit, the simulation stops with an out-of-memory error.",
  ["histories", "configurations"], "all allocation/mutation histories, heap sizes and collection points, on every engine",
  "two or three tests force a few collections",
  ["src/rt/mspace.c", "src/mask.c", "src/jit/jit-core.c", "src/lower.c"],
  [("conservative mark/sweep", "src/rt/mspace.c:mspace_gc/mspace_mark_root"), ("thread-local allocation buffers", "src/rt/mspace.c:tlab_acquire")], ["program output", "exit status"])

p("C12", "Coverage counts equal actual executions; merging adds them",
  "Statement, branch, expression, toggle and FSM-state coverage counters equal the number of times the item was really exercised in the simulation, collecting coverage does not alter the simulation, and pragmas/specification files select exactly the named items. Merging databases yields for each item the (saturating) sum over the inputs and the union of the items, independent of order, and exported/reported totals agree with the database.",
  ["programs", "histories"], "all designs of the modelled subset, run counts, merge orders and selections",
  "tests compare gold files of fixed designs",
  ["src/cov/cov-data.c", "src/cov/cov-report.c", "src/cov/cov-export.c", "src/cov/cov-exclude.c", "src/rt/cover.c", "src/lower.c"],
  [("item creation", "src/cov/cov-data.c:cover_add_items_for"), ("counter increments", "src/lower.c:lower_*_coverage, src/rt/cover.c"), ("merge", "src/cov/cov-data.c:cover_merge_scope")], ["cover-export XML", "HTML report"])

p("C13", "The design library is a faithful, consistent store of analysed units",
  "Analysing, elaborating and running in separate processes behaves exactly as in one process, units loaded from disk are equivalent to freshly analysed ones, and --list/--print-deps report exactly the analysed units. After any history of analyses, using a unit whose dependencies were re-analysed or whose source is newer is rejected as obsolete, and everything else keeps working; failed analyses never replace or damage stored units.",
  ["histories", "programs"], "all dependency graphs, analysis orders, re-analyses with and without errors, and process boundaries",
  "tests analyse each design once in one order",
  ["src/lib.c", "src/object.c", "src/fbuf.c", "src/tree.c", "src/common.c", "src/make.c", "src/jit/jit-pack.c"],
  [("unit serialisation", "src/object.c:object_write/object_read"), ("index and timestamps", "src/lib.c:lib_read_index/lib_save"), ("obsolete units", "src/lib.c:lib_mark_obsolete")], ["exit status", "simulation output", "--list"])

p("C14", "Concurrent and interrupted access leaves the library usable",
  "When several processes analyse into, elaborate in and read one library at the same time, each succeeds, every unit that was stored is present and intact afterwards, and nothing is lost. If a process is killed at any point, later commands still open the library, previously stored units remain usable, and re-analysing repairs the rest; a damaged or truncated library file is reported as an error, not silently accepted.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of concurrent nvc commands on one library, kill points, and corruptions of stored files",
  "no regression test runs two commands concurrently or kills one",
  ["src/lib.c", "src/fbuf.c", "src/util.c"],
  [("flock based reader/writer lock", "src/lib.c:lib_save, src/util.c:file_write_lock"), ("checksummed files", "src/fbuf.c"), ("index rewrite", "src/lib.c:lib_save")], ["exit status", "--list", "simulation output"])

p("C15", "Choice coverage is decided exactly",
  "Case statements, selected assignments and aggregates are accepted exactly when their choices cover every value of the choice type once (scalars, enumerations, one-dimensional character arrays, ranges, subtypes, OTHERS, matching forms), and missing or duplicated choices are reported naming a genuinely missing or duplicated value. Accepted case statements select the alternative whose choice holds.",
  ["programs", "inputs"], "all choice types, ranges, choice sets and selector values",
  "tests give single examples of each error",
  ["src/bounds.c", "src/lower.c", "src/sem.c"],
  [("interval accounting", "src/bounds.c:bounds_check_case/bounds_cover_choice"), ("case lowering (jump table, hash for arrays)", "src/lower.c:lower_case_scalar/lower_case_array")], ["diagnostics", "program output"])

p("C16", "PSL directives report exactly the violations of their property",
  "For simple-subset PSL properties over clocked boolean signals (always, never, next and its variants, until, before, eventually!, SERE concatenation, fusion, repetition, alternatives, suffix implication, abort) assert directives fail at exactly those clock ticks where the trace violates the property and cover directives fire exactly where it matches.",
  ["programs", "histories"], "all properties of the supported operators and all signal traces",
  "tests check a fixed trace per operator",
  ["src/psl/psl-fsm.c", "src/psl/psl-lower.c", "src/psl/psl-sem.c", "src/rt/model.c", "src/parse.c"],
  [("property to automaton", "src/psl/psl-fsm.c"), ("automaton code", "src/psl/psl-lower.c"), ("stepping", "src/rt/model.c:update_property")], ["diagnostics with times", "cover counts"])

p("C17", "Messages, severities, stop conditions and exit status are exact",
  "Every executed assertion or report emits exactly one message with its text, severity, simulation time and source line; the simulation stops at, and only at, the first message of at least the exit severity, STOP/FINISH, the stop time, the delta limit, or when no activity remains; and the exit status is non-zero exactly when a message of at least the status severity was emitted or the requested status says so.",
  ["programs", "configurations"], "all message sequences, severity options, stop times, delta limits and STOP/FINISH arguments",
  "tests cover single combinations",
  ["src/rt/assert.c", "src/rt/model.c", "src/rt/stdenv.c", "src/nvc.c", "src/diag.c"],
  [("assertion handling and counts", "src/rt/assert.c"), ("stop conditions", "src/rt/model.c:should_stop_now/model_cycle"), ("options", "src/nvc.c:run_cmd")], ["stderr/stdout", "exit status"])

p("C18", "Simulation is deterministic and independent of internal scheduling",
  "The observable behaviour (messages, file output, waveforms, random numbers from a fixed seed) of a design without order-dependent code is a function of design, inputs and options: repeating it, changing the number of worker threads, shuffling process order, compiling asynchronously in the background, or adding waveform dumping, tracing or statistics changes nothing.",
  ["schedules", "configurations", "programs"], "all race-free designs, thread counts, shuffle seeds and compile timings",
  "the tests run each design once with default settings",
  ["src/rt/model.c", "src/thread.c", "src/jit/jit-core.c", "src/rt/random.c", "src/rt/wave.c"],
  [("deferred work queues", "src/rt/model.c:deferq_run/deferq_shuffle"), ("asynchronous compilation", "src/jit/jit-core.c:jit_tier_up"), ("seeded generator", "src/rt/random.c")], ["program output", "waveform file"])

p("C19", "VHPI/VPI clients observe and control the simulated design faithfully",
  "A plug-in walking the design through VHPI sees exactly the elaborated scopes, signals, ports and generics with their names, types and bounds; values it reads in any format equal the simulated values at that time, values it forces, deposits or releases take effect as specified, and its value-change, time and phase callbacks fire exactly when the corresponding event happens.",
  ["histories", "programs"], "all designs of the modelled subset, value formats, put modes and callback schedules",
  "one C plug-in per fixed design",
  ["src/vhpi/vhpi-model.c", "src/vhpi/vhpi-util.c", "src/rt/model.c"],
  [("object model", "src/vhpi/vhpi-model.c"), ("value get/put", "src/vhpi/vhpi-model.c:vhpi_get_value/vhpi_put_value"), ("callbacks", "src/vhpi/vhpi-model.c:vhpi_register_cb")], ["plug-in log"])

p("C20", "Conditional analysis and macro preprocessing select the right text",
  "VHDL-2019 conditional analysis directives and the Verilog preprocessor (define, undef, ifdef/ifndef/elsif/else/endif nesting, macro bodies and arguments) pass exactly the text selected by the current definitions, everything skipped has no effect, and diagnostics after any directive still name the true source line. Malformed or unbalanced directives are reported.",
  ["inputs"], "all nestings of directives, conditions, definitions and macro uses",
  "tests contain a few fixed files",
  ["src/scan.c", "src/lexer.l", "src/vlog/vlog-pp.l", "src/parse.c", "src/nvc.c"],
  [("conditional analysis", "src/scan.c"), ("Verilog preprocessor", "src/vlog/vlog-pp.l")], ["program output", "--preprocess output", "diagnostics"])

p("C21", "Any source text is analysed or rejected cleanly",
  "Whatever text is given to the VHDL, Verilog, PSL or SDF analysers, nvc terminates in bounded time, either accepting it or printing at least one error diagnostic and failing; it never crashes, hits an internal assertion, corrupts memory or exits unsuccessfully without an explanation. What analysis accepts, elaboration also handles or rejects cleanly.",
  ["inputs"], "all byte sequences; in practice mutations and splices of valid sources and grammar-generated sources",
  "tests contain only hand-written erroneous files",
  ["src/parse.c", "src/lexer.l", "src/sem.c", "src/names.c", "src/simp.c", "src/bounds.c", "src/lower.c", "src/elab.c", "src/vlog/vlog-parse.c", "src/psl/psl-sem.c", "src/sdf/sdf-parse.c"],
  [("error recovery", "src/parse.c, src/names.c"), ("error-type propagation", "src/sem.c")], ["exit status", "stderr"])

p("C22", "Verilog modules simulate per the Verilog value rules",
  "For the supported Verilog subset (four-state vectors, continuous assignments, always/initial blocks with blocking and non-blocking assignments, if/case/for/forever/while/repeat, operators, gate primitives, UDPs, $display, instances from VHDL or Verilog) simulation gives the values the Verilog standard prescribes, including X/Z propagation and context-determined widths; number literals denote exactly their value.",
  ["programs", "inputs"], "all expressions, literals, statements and input sequences of the supported subset",
  "tests cover fixed small modules",
  ["src/vlog/vlog-number.c", "src/vlog/vlog-lower.c", "src/vlog/vlog-parse.c", "src/vlog/vlog-sem.c", "src/vlog/vlog-trans.c", "src/vlog/vlog-udp.c", "lib/nvc/verilog-body.vhd"],
  [("number parsing and arithmetic", "src/vlog/vlog-number.c"), ("four-state operators", "lib/nvc/verilog-body.vhd"), ("lowering", "src/vlog/vlog-lower.c")], ["program output"])

p("C23", "Array, record and aggregate operations give the specified value",
  "Aggregates (positional, named, ranges, others, nested, multi-dimensional), concatenation, slices, array and record equality and ordering, predefined logical and shift operators, type conversions, and array attributes produce exactly the elements and index ranges (left, right, direction, length) of the language definition, for constants, variables, signals and subprogram results alike. Assignments copy by value without aliasing, including overlapping slices of one array.",
  ["inputs", "programs"], "all element types, index types, directions, lengths (including null), nesting and storage classes",
  "tests check individual shapes",
  ["src/lower.c", "src/simp.c", "src/eval.c", "src/jit/jit-irgen.c", "src/vhdl/vhdl-predef.c", "src/rt/copy.c", "src/sem.c"],
  [("aggregate lowering", "src/lower.c:lower_aggregate/lower_array_aggregate"), ("concatenation", "src/lower.c:lower_concat"), ("predefined operators", "src/vhdl/vhdl-predef.c")], ["program output"])

p("C24", "Names and overloads resolve to the declaration the LRM selects",
  "In any nesting of packages, declarative regions, subprograms, blocks, use clauses, aliases and generics, an identifier, operator or enumeration literal refers to the declaration selected by the scope, visibility, hiding and overload rules; ambiguous or invisible names are rejected. Spelling variations that the language treats as equal (letter case, extended spacing, comments, equivalent literals) do not change the meaning.",
  ["programs"], "all nestings of declarations and uses of the modelled subset",
  "tests list individual cases",
  ["src/names.c", "src/parse.c", "src/sem.c", "src/ident.c", "src/lexer.l", "src/scan.c"],
  [("scope chains and symbol lookup", "src/names.c:scope_*/iterate_symbol_for"), ("overload resolution", "src/names.c:solve_fcall/begin_overload_resolution")], ["program output", "diagnostics"])

p("C25", "Interactive shell sessions mirror batch simulation",
  "In any sequence of TCL shell commands (analyse, elaborate, run for a time, examine, force, noforce, restart, find) the values, times and signal lists reported equal those of a batch simulation of the same design with the same stimulus at that point, and restart returns to the initial state.",
  ["histories"], "all command sequences over generated designs",
  "tests script fixed sessions",
  ["src/rt/shell.c", "src/rt/model.c", "src/rt/printer.c"],
  [("commands", "src/rt/shell.c"), ("stepping", "src/rt/model.c:model_run/model_step")], ["shell output"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
