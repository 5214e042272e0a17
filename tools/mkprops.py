"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json

L = "lib/b_asic/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [L + f if not f.startswith(("src/", "lib/")) else f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


prop("C01", "Simulation computes exactly what the signal-flow graph denotes",
     "For every SFG (feedback through delays, multi-output operations, nested SFGs, initial values) and every input sequence, Simulation produces at each iteration exactly the value of every output and every intermediate node given by the synchronous dataflow semantics, where a delay outputs its initial value first and thereafter its input of the previous iteration. "
     "The result does not depend on how the run is split into steps, on whether inputs are sequences, callables or generators, or on the order in which the graph was built. "
     "Saved results, result keys/names and clearing of results and state behave as documented.",
     ["programs", "inputs", "histories"],
     "all graphs over the operation library, all input sequences, all interleavings of step/run_for/run_until/run/clear/save calls",
     "The unit tests simulate a handful of fixed graphs with a few fixed inputs; evaluation order, delay update order and result bookkeeping must be right for every topology.",
     ["simulation.py", "sfg.py", "operation.py", "core_operations.py", "special_operations.py"],
     [("Simulation.step/run_for", L + "simulation.py"), ("SFG.evaluate_output: lazy recursive evaluation with deferred delays", L + "sfg.py"), ("AbstractOperation.evaluate_output/quantize", L + "operation.py")],
     [("results", "per-node result arrays", "Simulation"), ("delays", "current delay values", "Simulation")],
     ["Simulation.results", "step()/run_for() return values"])

prop("C02", "FastSimulation is memory-safe, UB-free and agrees with Simulation",
     "The native FastSimulation never reads or writes out of bounds, uses freed memory or executes undefined behaviour, for any supported SFG and any history of input changes, steps, runs and clears. "
     "Its outputs and saved results equal those of the dataflow semantics (and of the Python Simulation) for every such history.",
     ["programs", "inputs", "histories"],
     "all graphs using natively supported and custom (Python-evaluated) operations, all API call histories",
     "The native extension is not even built here by the test-suite; memory safety and agreement must hold for all graphs and histories.",
     ["src/simulation/compile.cpp", "src/simulation/run.cpp", "src/simulation/simulation.cpp", "src/simulation/instruction.hpp", "src/main.cpp", "src/simulation.cpp"],
     [("compile(): SFG to instruction list", "src/simulation/compile.cpp"), ("run(): stack interpreter", "src/simulation/run.cpp"), ("class simulation: results, delays, input callbacks", "src/simulation/simulation.cpp")],
     [("m_delays", "delay registers", "src/simulation/simulation.cpp"), ("value stack", "operand stack", "src/simulation/run.cpp")],
     ["FastSimulation Python API", "ASan/UBSan reports"])

prop("C03", "Construction and editing always leave a structurally sound SFG",
     "After any sequence of public construction and editing operations, every SFG is sound: graph ids are unique and resolve to their component, every signal connects exactly one existing output port to one input port and both ends list it, all components are reachable and inputs/outputs correspond to the declared ports. "
     "SFG construction, copying and transformations that return a new SFG never modify the original graph or share components with it. "
     "Lookups by id, name and type return exactly the components that match.",
     ["programs", "histories"],
     "all construction orders and all sequences of edits (connect, insert, remove, replace, extract, unfold, copy, flatten, ...)",
     "Tests apply single edits to small fixed graphs and check a few fields.",
     ["sfg.py", "graph_component.py", "signal.py", "port.py", "operation.py", "special_operations.py"],
     [("SFG.__init__: recursive copy and connection", L + "sfg.py"), ("GraphIDGenerator", L + "sfg.py"), ("Signal.set_source/set_destination, Port.add_signal/remove_signal", L + "signal.py, " + L + "port.py")],
     [("components by id/name", "id and name indexes", L + "sfg.py")], ["SFG.components, find_by_*", "port.signals, signal.source/destination"])

prop("C04", "Behaviour-preserving SFG transformations preserve behaviour",
     "copy, flatten, expand/split, conversion of an operation to an SFG, replacing a component by an equivalent one, inserting or removing identity operations, extracting and re-inserting a sub-graph, delay simplification, swapping the inputs/outputs of a swappable operation, rewriting an operation into another supported type, joining adjacent operations and unfolding all yield a graph with the same input/output behaviour as the original for every input sequence (for unfolding by J, input k of copy j is sample kJ+j). "
     "Initial delay values keep their effect, and an unsupported request raises an error rather than returning a different function.",
     ["programs", "inputs"],
     "all graphs, all applicable targets and parameters (coefficients, shift amounts, factors), all input sequences",
     "Tests compare structure or a few samples for hand-picked graphs and coefficients.",
     ["sfg.py", "core_operations.py", "operation.py", "wdf_operations.py", "fft_operations.py"],
     [("SFG.replace/insert/remove/extract/unfold/rewrite/join/flatten/simplify_delay_element_placement", L + "sfg.py"), ("_rewrite_*, _join, _combine_* methods of the operations", L + "core_operations.py"), ("swap_io", L + "operation.py")],
     [], ["outputs of the transformed SFG"])

prop("C05", "Precedence lists and topological orders respect all data dependencies",
     "The precedence list of an SFG partitions the output ports of all its operations into levels such that each port appears exactly once, at the earliest level where everything its operation needs in the same iteration lies in earlier levels, with inputs, constants and delay outputs in the first. "
     "The topological order lists every operation exactly once, after everything that feeds it unless it is in or behind a feedback loop, for every graph that can be built. "
     "A graph with a delay-free loop is rejected instead of being ordered, and required inputs per output (through delays too), preceding and subsequent operations and enumerated paths are exactly those of the graph.",
     ["programs"], "all graphs, including multi-output operations, fan-out and delays",
     "Tests check hard-coded lists for a few graphs.",
     ["sfg.py", "operation.py"],
     [("SFG.get_precedence_list", L + "sfg.py"), ("SFG.get_operations_topological_order", L + "sfg.py"), ("inputs_required_for_output, find_all_paths", L + "sfg.py")],
     [], ["get_precedence_list()", "get_operations_topological_order()"])

prop("C06", "State-space, transfer-function and impulse-response analyses match behaviour",
     "For every linear time-invariant SFG (no additive constants), the state-space matrices, the transfer function, its zeros/poles/gain (up to a pure delay) and the impulse responses describe exactly the system that simulation of the SFG realises from a zero state. "
     "Reported norms and per-node impulse responses equal those computed from the simulated responses, polynomial and conversion helpers agree with each other, and SFGs which are not linear are refused with an error.",
     ["programs", "inputs"], "all linear SFGs (single and multiple inputs/outputs, any number of delays), all inputs",
     "Tests compare with literals for first/second-order filters.",
     ["state_space.py", "transfer_function.py", "sfg.py"],
     [("SFG.to_ss", L + "sfg.py"), ("TransferFunction", L + "transfer_function.py"), ("StateSpace", L + "state_space.py"), ("SFG.get_impulse_responses, get_l1_norms, get_l2_norms", L + "sfg.py")],
     [], ["to_ss(), to_tf(), to_zpk(), get_impulse_responses()"])

prop("C07", "Loop, iteration-period, critical-path and resource-bound analyses are exact",
     "For every SFG and every latency/execution-time assignment, the critical path is the largest total port-to-port latency over delay-free paths, the iteration period bound is the largest ratio of port-to-port latency to delay count over all loops (-1 without loops), the reported loops are exactly the elementary cycles of the graph and the resource lower bound is the total execution time of a type divided by the schedule time, rounded up. "
     "Operation counts and the set of used types/ids are exact.",
     ["programs", "configurations"], "all graphs, all latency offset assignments",
     "Tests use a few reference filters with uniform latencies.",
     ["sfg.py", "schedule.py", "scheduler.py"],
     [("SFG.iteration_period_bound, loops", L + "sfg.py"), ("SFG.critical_path_time", L + "sfg.py"), ("SFG.resource_lower_bound, operation_counter", L + "sfg.py")],
     [], ["return values"])

prop("C08", "Every scheduler produces a valid schedule or refuses",
     "Whatever the SFG, latencies and options, each scheduler (ASAP, ALAP, the list-scheduler family, recursive list scheduling, ILP) either raises an error or returns a schedule in which every operation of the SFG is placed exactly once, no operation consumes a value before it is available (counting iteration laps and the schedule period), and start times lie within the schedule time. "
     "Resource limits, limits on concurrent reads and writes, prescribed input/output times and the requested schedule time are respected, both for cyclic and non-cyclic schedules. "
     "A schedule never stays infeasible silently (a refusal is a ValueError, and none occurs where no limit, time or schedule time is prescribed), and ASAP/ALAP times are the earliest/latest possible.",
     ["programs", "configurations", "schedules"],
     "all SFGs x scheduler x resource/IO/schedule-time/cyclic options",
     "Tests check fixed filters with fixed constraints against golden start times.",
     ["scheduler.py", "list_schedulers.py", "schedule.py", "resources.py"],
     [("Scheduler.apply_scheduling implementations", L + "scheduler.py"), ("list scheduler priority functions", L + "list_schedulers.py"), ("Schedule.__init__ validation", L + "schedule.py")],
     [("start times, laps, schedule time", "the schedule", L + "schedule.py")], ["Schedule.start_times, laps, schedule_time"])

prop("C09", "The SFG re-derived from a schedule behaves as the original SFG",
     "For every valid schedule, the SFG reconstructed from it (with delays re-inserted from the laps of each signal) computes the same input/output function as the SFG that was scheduled, up to the stated iteration alignment. "
     "Executing the operations at their start times, with every value available only after its latency and laps counted in schedule periods, yields the same outputs.",
     ["programs", "schedules", "inputs"], "all SFGs, all valid schedules, all input sequences",
     "Tests compare a few fixed filters on one impulse.",
     ["schedule.py"],
     [("Schedule.sfg / delay re-introduction", L + "schedule.py"), ("removal of delays into laps", L + "schedule.py")],
     [("laps", "iterations a value is held", L + "schedule.py")], ["Schedule.sfg simulated", "laps, start_times"])

prop("C10", "Schedule edits keep the schedule valid, slacks exact, and reject atomically",
     "After any sequence of schedule edits (moving operations, ASAP/ALAP moves, rotation, changing schedule time or time resolution, swapping and y-location changes, adding/removing delays or laps via moves) the schedule is valid and denotes the same function as the SFG. "
     "Forward/backward slacks are exactly the distances by which an operation can be moved: a move within the reported slack succeeds and one beyond it is refused, and a refused edit changes nothing (moves and rotations that would need a negative number of delays on a signal may be refused). "
     "Derived queries (maximum end time, time resolution factors, per-operation slack tables) agree with the start times.",
     ["histories", "programs", "schedules"], "all edit sequences on all schedules",
     "Tests do single moves on fixed schedules.",
     ["schedule.py"],
     [("Schedule.move_operation, forward_slack, backward_slack, set_schedule_time, rotate_*", L + "schedule.py"), ("increase/decrease_time_resolution", L + "schedule.py")],
     [("start times, laps", "edited in place", L + "schedule.py")], ["public state before/after each edit"])

prop("C11", "Memory variables and operation processes reflect the schedule exactly",
     "The memory variables extracted from a schedule are exactly one per driven output port with, for each consumer, a lifetime from the cycle the value is produced to the cycle it is consumed, including laps and wrap-around. "
     "The operation processes are exactly one per operation with its start time and execution time. "
     "Lifetime-derived counts (maximum simultaneously live variables, read/write ports required, histograms) equal direct counting.",
     ["schedules", "programs"], "all schedules (cyclic included), all fan-outs and lifetimes",
     "Tests look at a few fixed schedules.",
     ["schedule.py", "process.py", "resources.py"],
     [("Schedule.get_memory_variables, get_operations", L + "schedule.py"), ("MemoryVariable/PlainMemoryVariable/OperatorProcess", L + "process.py"), ("ProcessCollection bounds", L + "resources.py")],
     [], ["process collections"])

prop("C12", "Splitting a process collection yields conflict-free exact partitions",
     "Every way of splitting a process collection (by length, by execution time, by ports, by type, with every heuristic or exact strategy) returns collections that together contain each process exactly once (or, for length splits, cover each lifetime exactly), keep the schedule time, and contain no conflict of the kind the split promises to remove. "
     "Exact strategies use the minimum number of parts, resource limits are respected, and exclusion graphs contain exactly the conflicting pairs.",
     ["inputs", "configurations"], "all process collections (any start/lifetime/wrap, multi-read), all strategies and port limits",
     "Tests use a few example collections and count the parts.",
     ["resources.py", "resource_assigner.py", "process.py"],
     [("ProcessCollection.split_on_execution_time, split_on_ports, split_on_length", L + "resources.py"), ("create_exclusion_graph_from_*", L + "resources.py"), ("left_edge, graph colouring", L + "resources.py")],
     [], ["returned collections"])

prop("C13", "Register-based storage delivers every variable at the right cycle",
     "For every process collection of memory variables with at most one write and one read in each cycle (several reads per variable allowed), the register-based storage generated as VHDL (generate_register_based_storage_vhdl, and Memory of type 'register' with any pipelining option) outputs, at each read time and with a constant latency, the value written for the variable read, in every lap, whatever is on the input at other times and whenever enable pauses it. "
     "Collections needing more accesses per cycle are refused. The forward-backward allocation may refuse a collection with an error, but not a matrix transposer.",
     ["inputs", "histories"], "all collections (transposers, interleavers, random), all iterations, all data values",
     "Tests only compare generated text or run fixed testbenches.",
     ["resources.py", "code_printer/vhdl/register_storage.py", "code_printer/vhdl/entity.py"],
     [("forward-backward table construction", L + "resources.py"), ("generate_register_based_storage_vhdl", L + "resources.py"), ("register_storage architecture", L + "code_printer/vhdl/register_storage.py")],
     [], ["GHDL simulation of the generated entity"])

prop("C14", "Memory-based storage never overlaps lifetimes and returns what was written",
     "Every assignment of memory variables to memory cells gives each variable exactly one cell and never lets two variables with overlapping lifetimes (including wrap-around) share it. "
     "The memory-based storage generated as VHDL from it (generate_memory_based_storage_vhdl with every input synchronisation and address pipelining setting, and Memory of type 'RAM' with every option), for at most one write and one read per cycle, outputs at each read time and with a constant latency the value written for the variable read, in every lap; collections needing more accesses per cycle are refused. "
     "Interleaver and matrix transposer collections have one variable per element and describe a permutation of each block with the requested minimum lifetime and parallelism, the transposer's being the matrix transposition.",
     ["inputs", "histories", "configurations"], "all collections and cell-assignment strategies, port counts, data values",
     "Tests only compare generated text or run fixed testbenches.",
     ["resources.py", "code_printer/vhdl/memory_storage.py", "research/interleaver.py"],
     [("ProcessCollection cell assignment", L + "resources.py"), ("generate_memory_based_storage_vhdl", L + "resources.py"), ("memory_storage architecture", L + "code_printer/vhdl/memory_storage.py"), ("research/interleaver generators", L + "research/interleaver.py")],
     [], ["GHDL simulation of the generated entity", "assignment"])

prop("C15", "Architectures are complete, consistent and stay so under edits",
     "An architecture built from a schedule contains every operation in exactly one processing element able to execute it, every memory variable in exactly one memory or direct interconnect, no overlapping executions or exceeded memory ports, and reports exactly the interconnections and multiplexer sizes the schedule implies. Limits that are too small to hold everything are refused rather than dropping or overlapping processes. "
     "Moving processes and adding/removing resources conserve processes and either keep the architecture valid or are refused.",
     ["schedules", "configurations", "histories"], "all schedules, assignment strategies and edit sequences",
     "Tests build two or three architectures and compare counts.",
     ["architecture.py", "resource_assigner.py"],
     [("Architecture.__init__ validation, move_process, get_interconnects_*", L + "architecture.py"), ("assign_processing_elements_and_memories", L + "resource_assigner.py")],
     [("processing elements and memories", "partition of processes", L + "architecture.py")], ["Architecture API"])

prop("C16", "Generated VHDL is bit- and cycle-exact with fixed-point simulation",
     "For every architecture of operations with VHDL support (uniform latencies, coefficients the data type holds exactly, delays starting at zero), fixed-point data type (word lengths, real/complex, quantization and overflow modes) and printer option, the generated VHDL compiles and, clocked with the input samples at their scheduled cycles, outputs at the scheduled cycles (plus the stated register latencies) exactly the bits of the fixed-point simulation of the SFG, cast to the output word length. "
     "Where control is registered or the design is not enabled from a known cycle, this holds once it has run with zero inputs for its start-up laps. With an enable input, stalling at arbitrary cycles does not change the sequence of results.",
     ["programs", "schedules", "configurations", "inputs", "histories"],
     "all schedules and architectures over the VHDL-supported operations, all data types, printer options, input data and stall patterns",
     "Tests compare text, and simulate a few fixed filters.",
     ["code_printer/vhdl/vhdl_printer.py", "code_printer/vhdl/processing_element.py", "code_printer/vhdl/memory_storage.py", "code_printer/vhdl/top_level.py", "core_operations.py", "wdf_operations.py"],
     [("VhdlPrinter", L + "code_printer/vhdl/vhdl_printer.py"), ("operation _vhdl methods", L + "core_operations.py"), ("memory/register storage", L + "code_printer/vhdl/memory_storage.py")],
     [], ["GHDL simulation of generated top level"])

prop("C17", "Saving and loading SFGs and schedules is lossless",
     "Serialising any SFG or schedule to Python text (to a string or a file) and loading or executing it yields an equivalent object: same operations, parameters, ids, names, connections, latencies and behaviour, and for schedules the same start times, laps on each connection, schedule time and cyclic setting. "
     "Pickling and copying equally preserve them.",
     ["programs", "configurations"], "all SFGs with arbitrary names, parameters and structure, all schedules",
     "Tests round-trip a few fixed graphs and only compare shallow properties.",
     ["save_load_structure.py", "graph_component.py", "operation.py", "sfg.py"],
     [("sfg_to_python, python_to_sfg, schedule_to_python, python_to_schedule", L + "save_load_structure.py"), ("params", L + "graph_component.py")],
     [], ["loaded objects"])

prop("C18", "Fixed-point data types and quantization follow their mathematical definition",
     "Every quantization and overflow mode maps every real or complex value and word length to the representable value its definition prescribes, with results always within the representable range. "
     "Data types report word lengths, ranges, bit widths and conversions consistently, and fixed-point simulation quantizes every operation result according to the selected data type exactly once.",
     ["inputs", "configurations"], "all values (including negatives, ties, extremes), word lengths and modes",
     "Tests use a few literals per mode.",
     ["quantization.py", "data_type.py", "operation.py", "simulation.py"],
     [("quantize", L + "quantization.py"), ("DataType", L + "data_type.py"), ("_cast_to_data_type", L + "operation.py")],
     [], ["quantize() return value", "fixed-point Simulation results"])

prop("C19", "SFG generators realise the algorithm they name, for every parameter",
     "For every valid parameterisation, the generated FIR (direct, transposed, and, for symmetric coefficients, symmetric), IIR (direct form I/II), DFT/FFT, matrix-multiplication, matrix-inversion and wave-digital (allpass, bireciprocal, lattice) SFGs compute the specified mathematical function for every input sequence, and lattice coefficients designed from an odd-order low- or high-pass denominator give that filter. "
     "Requested latencies, execution times and names are applied, and invalid parameters are refused.",
     ["configurations", "inputs"], "all coefficient vectors, sizes, orders and inputs",
     "Tests use a few fixed sizes and coefficient sets.",
     ["sfg_generators/digital_filters.py", "sfg_generators/fft.py", "sfg_generators/matrix_operations.py", "sfg_generators/matrix_inversion.py", "sfg_generators/wave_digital_filters.py", "wdf/lattice.py"],
     [("sfg_generators.*", L + "sfg_generators"), ("wdf generators", L + "wdf")],
     [], ["simulation of generated SFGs"])

prop("C20", "Signal generators obey pointwise algebra and their definitions",
     "Every signal generator returns at each time index the value its definition prescribes, and arithmetic combinations of generators and numbers equal pointwise arithmetic of the operands at every index. "
     "Evaluating a deterministic generator is free of side effects, so that order and repetition of evaluation do not matter (noise generators draw the next value of their seeded sequence at each call), and the textual form of a generator evaluates to an equivalent one.",
     ["inputs", "programs"], "all generator expressions and time indices",
     "Tests check a few indices for single generators.",
     ["signal_generator.py"],
     [("SignalGenerator operators and subclasses", L + "signal_generator.py")],
     [], ["generator(n)"])

prop("C21", "Operation attributes are truthful about the operation's behaviour",
     "Every operation evaluates its documented function on all numeric inputs, and its declared attributes are truthful: operations declared swappable compute the same function after swapping, those declared linear satisfy superposition, and constant ones do not depend on inputs. "
     "Latency, latency offsets, execution time and plot coordinates set on ports or operations are reported back consistently, and inconsistent values are refused.",
     ["inputs", "configurations"], "all operation types, parameters and numeric inputs",
     "Tests evaluate each operation on one or two inputs.",
     ["core_operations.py", "fft_operations.py", "wdf_operations.py", "utility_operations.py", "operation.py", "port.py"],
     [("evaluate, is_linear, is_swappable, swap_io", L + "core_operations.py"), ("latency handling", L + "operation.py")],
     [], ["evaluate()", "attributes"])

prop("C22", "Generated testbenches accept a correct design and flag an incorrect one",
     "The VHDL and cocotb test benches generated from simulation results drive the generated design with the right samples at the right cycles: they pass on the generated design, and report an error whenever one output word at a cycle where the schedule delivers it differs from the simulation result by more than the given tolerances. "
     "This holds for every schedule, real or complex fixed-point data type, tolerance and printer option for which the design itself gives the simulated values (for cocotb, with equal internal and port word lengths).",
     ["programs", "configurations", "fault_sequences"], "all designs; all single output corruptions",
     "Tests only run fixed testbenches on correct designs.",
     ["tb_printer/vhdl/vhdl_tb_printer.py", "tb_printer/cocotb"],
     [("VhdlTbPrinter", L + "tb_printer"), ("CocotbPrinter", L + "tb_printer")],
     [], ["assertion outcome under GHDL"])

prop("C23", "Analyses and exports have no side effects and are deterministic",
     "Querying, analysing, simulating, scheduling, printing or exporting an SFG, schedule, process collection or architecture never changes its observable state or any object passed in, and neither do refused requests. "
     "Repeating the same call on the same object gives the same result, schedulers and printers used again included, and the same program gives the same collections, assignments, drawings and files in every process (no dependence on hash seeds or memory addresses). A graph returned by a transformation shares nothing with its origin, and start times, laps and inputs given to a schedule or simulation are not changed by it later.",
     ["programs", "histories"], "all query/analysis calls in all orders",
     "Tests call each analysis once on a fresh object.",
     ["sfg.py", "schedule.py", "resources.py", "architecture.py", "simulation.py"],
     [("copy-on-transform convention", L + "sfg.py, " + L + "schedule.py")],
     [], ["observable state before/after"])

prop("C24", "Drawings, charts and printed tables show exactly the object",
     "The Graphviz drawings of SFGs, precedence graphs, architectures and resources contain exactly one node per component (or resource) and one edge per signal (or connection, with its number of variables), with names and ports as documented. "
     "Charts of schedules, process collections, port accesses and execution times draw every execution, lifetime, access and connection at its time, wrapped around the schedule period where it crosses it, and printed tables list every component, connection and number of the object, for every object.",
     ["programs", "configurations"], "all SFGs, schedules, collections, architectures and plot options",
     "Tests compare a few drawings with stored ones.",
     ["sfg.py", "schedule.py", "resources.py", "architecture.py", "_preferences.py"],
     [("sfg_digraph, precedence_graph, print_precedence_graph", L + "sfg.py"), ("plot, print tables", L + "schedule.py, " + L + "resources.py"), ("_digraph", L + "architecture.py")],
     [], ["drawings parsed by Graphviz", "matplotlib artists", "printed text"])

prop("C25", "Multirate helpers and signed-digit conversions follow their definition",
     "Upsampling, downsampling, interleaving and polyphase decomposition of any sequence give at every index the value their definition prescribes and are inverse to each other where defined, leaving their arguments alone. "
     "Canonical signed-digit conversions return digits -1, 0 and 1 without two adjacent non-zero digits whose weighted sum is exactly the given integer or floating-point number, however large or small.",
     ["inputs"], "all sequences, factors, phases, integers and floats",
     "Tests use a handful of literals.",
     ["utils.py"],
     [("upsample, downsample, interleave, decompose", L + "utils.py"), ("int_to_csd, float_to_csd", L + "utils.py")],
     [], ["return values"])

prop("C26", "The scheduler GUI shows exactly the schedule it edits",
     "After any sequence of user actions (dragging operations and the time line, as soon or as late as possible, swapping, rotating, reordering, changing the time resolution, display options, opening, saving and closing) the operations, ports, signals, time axis, information table and plot windows shown in the scheduler GUI are those of the schedule edited, and that schedule is what the same calls on a Schedule, and the printed commands, give. "
     "The schedule handed in is untouched, saved files load as the same schedule, no other file is overwritten, and no action raises an exception.",
     ["histories", "programs"], "all schedules and all sequences of user actions",
     "Tests open the window and load one stored schedule.",
     ["scheduler_gui/main_window.py", "scheduler_gui/scheduler_item.py", "scheduler_gui/operation_item.py", "scheduler_gui/signal_item.py", "scheduler_gui/timeline_item.py", "scheduler_gui/axes_item.py", "scheduler_gui/_preferences.py", "schedule.py"],
     [("MainWindow actions, open/save", L + "scheduler_gui/main_window.py"), ("SchedulerItem: item construction, moves", L + "scheduler_gui/scheduler_item.py"), ("drag handling", L + "scheduler_gui/scheduler_event.py")],
     [("schedule", "the schedule edited", "ScheduleMainWindow.schedule"), ("items", "graphics items and their positions", "scene")],
     ["graphics scene, tables, plots", "ScheduleMainWindow.schedule", "saved files"])

prop("C27", "The SFG editor shows, creates, saves and simulates the graph drawn",
     "After any sequence of user actions in the SFG editor (adding, dragging, flipping, renaming, editing, selecting and deleting operations, connecting ports, deleting signals, opening, creating, saving and clearing) the operations, ports and arrows shown are those of the graph held, every arrow ending at its ports. "
     "An SFG created has the operations, signals and order of inputs and outputs drawn and computes the same; it is no longer listed once its graph is changed. The properties window changes only what is edited. A saved SFG opens with the same operations, values, latencies, positions and orientations. The simulation dialog simulates each SFG with the inputs and length chosen for it, and the result window shows those results. No action raises an exception.",
     ["histories", "programs"], "all graphs and all sequences of user actions",
     "Tests open the window, one stored graph and draw one chain of three operations.",
     ["sfg_gui/main_window.py", "sfg_gui/arrow.py", "sfg_gui/drag_button.py", "sfg_gui/port_button.py", "sfg_gui/properties_window.py", "sfg_gui/simulate_sfg_window.py", "sfg_gui/signal_generator_input.py", "sfg_gui/simulation_worker.py", "gui_utils/plot_window.py"],
     [("SFGMainWindow: add_operation, _connect_button, create_sfg_from_toolbar, load and save", L + "sfg_gui/main_window.py"), ("Arrow.remove, update_arrow", L + "sfg_gui/arrow.py"), ("PropertiesWindow.save_properties", L + "sfg_gui/properties_window.py"), ("SimulateSFGWindow", L + "sfg_gui/simulate_sfg_window.py"), ("PlotWindow", L + "gui_utils/plot_window.py")],
     [("SFGs", "the SFGs created or opened", "SFGMainWindow._sfg_dict"), ("scene", "buttons and arrows", "QGraphicsScene")],
     ["buttons, ports and arrows on the scene", "the SFGs listed", "saved files", "simulation results and result windows"])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        print(json.dumps(p))
