NOT_YET = set()
TECH["C01"] = "runtime monitoring: simulation runs compared online with an independent dataflow interpreter"
NOTE["C01"] = "Held on the random graphs and API histories executed; trusts the reference operation semantics in vh/ops.py."
TECH["C02"] = "compiler sanitizers (ASan, UBSan, libstdc++ assertions) on the native extension plus online comparison with a dataflow interpreter"
NOTE["C02"] = "Held on the graphs and API histories executed in a g++ -O1 sanitizer build of src/; the project's own meson build is not exercised (its fmt subproject is not available offline)."
TECH["C18"] = "runtime monitoring: quantization results and every node of fixed-point simulations compared online with exact rational arithmetic"
NOTE["C18"] = "Held on the values, formats, modes and random graphs executed; quotients and roots only to two units in the last place."
TECH["C21"] = "runtime monitoring: evaluated operations, attributes and edit histories compared online with reference formulas and records"
NOTE["C21"] = "Held on the operations, operands, graphs and histories executed, except for the two recorded findings on SeriesTwoportAdaptor."
TECH["C03"] = "runtime monitoring: structural audit, object-identity tracking and fingerprints after every step of random construction and edit histories"
NOTE["C03"] = "Held on the graphs and edit histories executed; an Input nothing uses may be missing from components."
TECH["C04"] = "runtime monitoring: every transformed graph simulated and compared online with an independent interpreter of the original netlist"
NOTE["C04"] = "Held on the graphs, edit chains and input sequences executed; trusts the reference operation semantics in vh/ops.py."
TECH["C05"] = "runtime monitoring: precedence lists, topological orders, required inputs and paths compared online with an independent analysis of the connections"
NOTE["C05"] = "Held on the graphs executed; positions of operations in or behind feedback loops are not constrained beyond each appearing once."
TECH["C07"] = "runtime monitoring: loop, iteration-period, critical-path, resource and count results compared online with independent graph algorithms (positive-cycle relaxation, path enumeration)"
NOTE["C07"] = "Held on the graphs and latency assignments executed."
TECH["C08"] = "runtime monitoring: schedules of every scheduler judged online by an independent validity oracle (causality, iteration distances, range, per-slot resource and port counting, earliest/latest times)"
NOTE["C08"] = "Held on the graphs, schedulers and options executed; refusals are only judged when no limits and no schedule time are requested."
TECH["C09"] = "runtime monitoring: SFGs derived from live schedules, and a cycle-accurate event execution of the schedules, compared online with an independent interpreter of the scheduled SFG"
NOTE["C09"] = "Held on the graphs, schedules, edits and inputs executed for delays starting at zero; the loss of other initial delay values is a recorded finding."
TECH["C10"] = "runtime monitoring: schedule edit histories with validity, slack, laps and atomic-refusal monitors recomputed independently after each step"
NOTE["C10"] = "Held on the graphs, schedules and edit histories executed; edits which would need a negative number of delays may be refused."
TECH["C11"] = "runtime monitoring: memory variables, operation processes and their counts compared online with direct per-cycle counting from the schedule"
NOTE["C11"] = "Held on the schedules and collections executed."
TECH["C12"] = "runtime monitoring: results of every split judged online by an independent partition, conflict and per-slot port counting oracle, minimality by exhaustive search on small collections"
NOTE["C12"] = "Held on the collections, strategies and limits executed; the left_edge_min_mux strategies are not implemented in the library and not claimed."

TECH["C06"] = "runtime monitoring: state-space, transfer-function and impulse-response results compared online with responses of an independent dataflow interpreter"
NOTE["C06"] = "Held on the linear graphs executed (coefficients on which floating-point comparison is well conditioned); zeros/poles/gain are compared up to a pure delay."
TECH["C15"] = "runtime monitoring: architectures and edit histories judged online by an independent conservation, overlap, port and interconnect counting oracle, with fingerprints around refused edits"
NOTE["C15"] = "Held on the schedules, strategies, limits and edit histories executed; a refusal is judged only where limits clearly suffice."
TECH["C17"] = "runtime monitoring: loaded, pickled and copied objects compared online with structural fingerprints of the originals and by simulation"
NOTE["C17"] = "Held on the graphs and schedules executed; a saved schedule is loaded by executing its text."
TECH["C20"] = "runtime monitoring: generator values compared online with closed-form definitions and pointwise algebra under reordered and repeated evaluation"
NOTE["C20"] = "Held on the generator expressions and indices executed; text is judged for generators of Python numbers and lists."

TECH["C16"] = "runtime monitoring: the generated VHDL executed cycle by cycle in GHDL under random data, stalls and pin garbage, its output words compared offline bit for bit with the fixed-point simulation of the scheduled graph"
NOTE["C16"] = "Held on the designs executed; Reciprocal, non-uniform port offsets and coefficients the data type cannot hold are not covered, don't-cares are refined to 0 in designs with registered control and loops, and two rounding differences are recorded as known findings."
TECH["C19"] = "runtime monitoring: simulated responses of generated SFGs compared online with numpy/scipy evaluations of the specified function and independent difference equations"
NOTE["C19"] = "Held on the parameterisations and sequences executed, within floating-point tolerances."
TECH["C13"] = "runtime monitoring: generated register storage executed cycle by cycle in GHDL under random data, stalls and input garbage, every read of every lap compared offline with the value written for it"
NOTE["C13"] = "Held on the collections executed (transposers, interleavers, random single-port collections with several reads per variable); the allocation heuristic may refuse a collection other than a transposer."
TECH["C14"] = "runtime monitoring: generated memory storage executed cycle by cycle in GHDL, every read compared offline with the value written; cell assignments and interleaver collections judged online by slot counting and closed-form permutations"
NOTE["C14"] = "Held on the collections, strategies and options executed; zero-lifetime variables are only covered for generate_memory_based_storage_vhdl, more than one access per cycle only as refusal."
TECH["C22"] = "runtime monitoring: generated test benches executed on the generated designs in GHDL, with a wrapper that flips one bit of one output word, their verdicts compared with the fault injected"
NOTE["C22"] = "Held on the designs, options and faults executed; don't-care input cycles, options needing start-up laps and (cocotb) differing port word lengths are not covered."
TECH["C23"] = "runtime monitoring: fingerprints of objects and arguments compared online after every call of random probe sequences, repeated results compared with the first"
NOTE["C23"] = "Held on the objects and call sequences executed; timing set through a schedule is shared with the SFG it was made from (an existing test relies on it), only what that SFG computes must stay."

TECH["C24"] = "runtime monitoring: drawings laid out by Graphviz and read back, artists of matplotlib charts and printed tables compared offline with an independent account of the object's nodes, signals, times and counts"
NOTE["C24"] = "Held on the objects and options executed; layout, colours and fonts are not judged."
TECH["C25"] = "runtime monitoring: returned sequences and digits compared online with the index definitions and exact rational arithmetic"
NOTE["C25"] = "Held on the sequences, factors and numbers executed."
TECH["C26"] = "runtime monitoring: the real window driven off screen by mouse events and actions; after each event the drawn items, tables, plots and files are compared with the schedule, and the schedule with a reference given the same calls"
TECH["C27"] = "runtime monitoring: the real SFG editor driven off screen by mouse and key events, buttons and dialogs; after each event the buttons, ports and arrows drawn are compared with a model of the drawing and with the SFGs held, saved files are opened in a new window, and simulations compared with references"
NOTE["C27"] = "Held on the action sequences and graphs executed (offscreen Qt platform)."
NOTE["C26"] = "Held on the action sequences and schedules executed (offscreen Qt platform)."
