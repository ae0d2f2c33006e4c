#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, (id, len(title))
    mech = [{"name": r, "where": w} for w, r in mechanism]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["projectq/" + f for f in files], "mechanism": mech}})

prop("P01", "Simulator state always equals the linear algebra of the program",
 "After any sequence of qubit allocations, (multi-)controlled gates and releases of unentangled qubits, the state vector the simulator reports is the one obtained by multiplying out the gate matrices, up to the reported qubit-to-bit order. This holds for the compiled and the pure-Python kernel, with gate fusion on or off, for arbitrary unitary matrices on up to five qubits, any order of targets and controls and any point at which the state is read.",
 ["programs", "configurations"], "every gate sequence over any register size and target/control placement, both kernels, fused or not, read at any point",
 "The tests run a few fixed circuits on a handful of placements; kernels are specialised per gate width and control mask, so an index error shows only for particular qubit positions and fusion orders.",
 ["backends/_sim/_simulator.py", "backends/_sim/_pysim.py", "backends/_sim/_cppkernels/simulator.hpp", "backends/_sim/_cppkernels/fusion.hpp", "backends/_sim/_cppkernels/intrin/kernel1.hpp"],
 [("Simulator._handle / apply_controlled_gate", "dispatch of matrices, targets and controls to the kernel"), ("Fusion::perform_fusion, kernelcore loops", "fused matrix construction and strided amplitude updates")])
prop("P02", "Simulated measurement, collapse and queries obey the Born rule",
 "Every probability or amplitude query equals the value computed from the current state, a measurement (or collapse to a possible outcome) reports an outcome of non-zero probability and leaves the normalised projection of the state, and setting the wave function makes exactly that state current. Impossible collapses, releases of qubits in superposition and queries on unknown or wrongly sized registers are rejected without changing the state.",
 ["histories", "inputs"], "every interleaving of gates, measurements, collapses, state loads, queries and releases on the simulator, with any qubit order in the query",
 "Tests query a few hand-picked states with the qubits in natural order; the mapping from queried qubits to bits and renormalisation depend on order, allocation history and pending fused gates.",
 ["backends/_sim/_simulator.py", "backends/_sim/_pysim.py", "backends/_sim/_cppkernels/simulator.hpp"],
 [("measure_qubits_return / collapse_wavefunction", "projection and renormalisation"), ("get_probability / get_amplitude / set_wavefunction", "bit order between caller and kernel")])
prop("P03", "Observables and time evolution agree with exact operator algebra",
 "The simulator's expectation value, operator application and time evolution for any Hermitian sum of Pauli products equal the exact matrix computation on the current state, including identity terms, zero terms, controls on the evolution and any assignment of operator indices to qubits. A Pauli product applied as a gate, its inverse, and a time evolution and its inverse act as the matrices they denote, whether executed natively or compiled into elementary gates; for sums of non-commuting terms the compiled form is the documented product formula or a refusal, never a different evolution.",
 ["inputs", "programs"], "every Pauli sum, time, register order and control set",
 "Tests check a few Hamiltonians on a few qubits; index renumbering, term ordering, coefficients and identity terms interact over an unbounded input space.",
 ["backends/_sim/_pysim.py", "backends/_sim/_simulator.py", "backends/_sim/_cppkernels/simulator.hpp", "ops/_qubit_operator.py", "ops/_time_evolution.py", "setups/decompositions/time_evolution.py", "setups/decompositions/qubitop2onequbit.py"],
 [("get_expectation_value / apply_qubit_operator / emulate_time_evolution", "term-wise kernels"), ("QubitOperator.__or__ / TimeEvolution.__or__", "index renumbering")])
prop("P04", "Emulated classical functions act exactly on every basis state",
 "Applying any reversible classical function gate on the simulator permutes basis states exactly as the function maps the integer values of its registers (least significant bit first), conditioned on all control qubits, and leaves every other qubit untouched. Both kernels agree and the same holds on superpositions and non-contiguous registers.",
 ["inputs", "programs"], "every reversible function, register split, qubit order, control set and input superposition",
 "Tests use one or two functions on contiguous registers in natural order.",
 ["backends/_sim/_simulator.py", "backends/_sim/_pysim.py", "backends/_sim/_cppsim.cpp", "backends/_sim/_cppkernels/simulator.hpp", "libs/math/_gates.py", "ops/_basics.py"],
 [("emulate_math (C++/Python)", "register packing and unpacking"), ("emulate_math_addConstant* wrappers", "specialised native paths")])
prop("P05", "Peephole optimisation never changes what a program does",
 "For any stream of commands and any cache size, the optimised stream acts on the qubits exactly as the original one, including negatively controlled gates, gates that merge or cancel, classical instructions and annotated commands. Commands are neither lost nor duplicated: after a flush nothing is retained and, for each qubit, the surviving commands keep their order.",
 ["programs", "configurations"], "every command stream, cache size and flush placement",
 "Tests cover a few cancel/merge patterns; cancellation depends on the interleaving across the qubits of multi-qubit commands and on cache overflow points.",
 ["cengines/_optimize.py", "ops/_command.py", "ops/_basics.py"],
 [("LocalOptimizer._optimize / _check_and_send", "pairwise cancel/merge and forwarding"), ("Command.get_inverse / get_merged / __eq__", "decides what cancels or merges")])
prop("P06", "Every decomposition rule implements its gate exactly",
 "For every registered replacement rule and every command the rule accepts, the commands it emits act like the original gate (up to a global phase only when there are no controls left to turn it into a relative phase), with all control qubits, including negative ones, honoured. Helper qubits a rule introduces are returned clean and released.",
 ["inputs", "programs"], "every rule, gate parameter, number and placement of controls and register layout the rule's recogniser accepts",
 "Tests evaluate rules at a handful of angles, with one control layout; identities fail at special angles, wider control sets or other control values.",
 ["setups/decompositions/__init__.py", "setups/decompositions/cnu2toffoliandcu.py", "setups/decompositions/carb1qubit2cnotrzandry.py", "setups/decompositions/arb1qubit2rzandry.py", "setups/decompositions/uniformlycontrolledr2cnot.py", "setups/decompositions/controlstate.py", "cengines/_replacer/_decomposition_rule.py"],
 [("all_defined_decomposition_rules", "rule registry"), ("_recognize_* / _decompose_* functions", "acceptance and emission")])
prop("P07", "Compiling to a gate set yields only that gate set, same program",
 "A program compiled with a supplied engine list for a restricted gate set reaches the backend only as gates of the requested set (with positive controls only) plus classical instructions, and has the same effect on the qubits and the same measurement statistics as the source program. When no replacement exists compilation fails with an error instead of emitting something else, and compiling one program never influences the compilation of a later one.",
 ["programs", "configurations"], "every program over the gate library and every requested gate set the documentation supports, including repeated compilations in one process",
 "Tests compile a few programs for a few gate sets and mostly compare command names, not meaning.",
 ["setups/restrictedgateset.py", "setups/_utils.py", "setups/trapped_ion_decomposer.py", "setups/default.py", "setups/aqt.py", "setups/ibm.py", "setups/awsbraket.py", "setups/ionq.py", "cengines/_replacer/_replacer.py", "cengines/_replacer/_decomposition_rule_set.py"],
 [("AutoReplacer._process_command", "rule choice and recursion"), ("low_level_gates / InstructionFilter", "what counts as allowed")])
prop("P08", "Linear-chain mapping keeps meaning and nearest-neighbour legality",
 "For every program of one- and two-qubit gates on a chain or ring, each two-qubit gate after mapping acts on adjacent sites, the mapped program equals the source program under the announced logical-to-site assignment, and that assignment always stays one-to-one and within the chain. Measurement results reach the logical qubit that was measured, and qubits may be allocated, released and reused at any time as long as no more are alive than there are sites.",
 ["histories", "configurations"], "every history of allocations, gates, measurements, releases and flushes for every chain length, ring flag and buffer size",
 "Tests drive the mapper with canned command lists and check counts or one permutation.",
 ["cengines/_linearmapper.py", "cengines/_basicmapper.py", "setups/linear.py"],
 [("LinearMapper.return_new_mapping", "placement search"), ("LinearMapper._run / _send_possible_commands", "swap network and dispatch")])
prop("P09", "Grid mapping keeps meaning and nearest-neighbour legality",
 "For every program of one- and two-qubit gates on a rectangular grid, each two-qubit gate after mapping acts on grid neighbours, the mapped program equals the source program under the announced logical-to-site assignment (including a custom site numbering), and that assignment stays one-to-one and within the grid. Measurement results reach the logical qubit that was measured, and qubits may be allocated, released and reused at any time within the capacity.",
 ["histories", "configurations"], "every history of allocations, gates, measurements, releases and flushes for every grid shape, site numbering and buffer size",
 "Tests use a few shapes with canned streams; the three-step routing depends on the permutation requested.",
 ["cengines/_twodmapper.py", "cengines/_basicmapper.py", "setups/grid.py"],
 [("GridMapper.return_swaps", "row/column routing"), ("GridMapper._run / _send_possible_commands", "dispatch")])
prop("P10", "Device mappers and the direction fixer keep meaning on real layouts",
 "The five-qubit device mapper, the manual mapper, the bounded mapper and the pass that fixes two-qubit gate directions preserve the meaning of every program they accept and deliver measurement results to the logical qubit measured. After the direction fix every two-qubit gate lies on a permitted directed connection, and two live qubits never share a location; a program that cannot be placed is refused with an error.",
 ["histories", "configurations"], "every program within capacity, every coupling map, every user-supplied placement function",
 "Tests use the default coupling map and single gates.",
 ["cengines/_ibm5qubitmapper.py", "cengines/_manualmapper.py", "cengines/_swapandcnotflipper.py", "cengines/_basicmapper.py", "backends/_ionq/_ionq_mapper.py"],
 [("IBM5QubitMapper._run/_store", "placement by interactions"), ("SwapAndCNOTFlipper._send_cnot/_needs_flipping", "orientation")])
prop("P11", "Controlled sections act exactly when all control values match",
 "Operations inside a controlled section take effect precisely on the part of the state in which every control qubit has the requested value (one by default, zero or a bit pattern if requested), for any nesting of sections and for any operation that may appear inside, including those that compute and uncompute helper values. Shortcut controlled gates, nested sections and gates with built-in controls are interchangeable, regardless of the order in which the control qubits are listed.",
 ["programs"], "every nesting, control list order, requested value pattern and body, natively executed or compiled",
 "Tests check single levels with one or two controls in ascending order.",
 ["meta/_control.py", "ops/_metagates.py", "ops/_command.py", "setups/decompositions/controlstate.py"],
 [("ControlEngine._handle_command", "adds controls and values"), ("Command.add_control_qubits", "pairs values with qubits"), ("_decompose_controlstate", "compiles negative controls")])
prop("P12", "Reversal, repetition and compute/uncompute sections mean what they say",
 "A reversed section applies the inverses of its operations in reverse order, a repeated section acts like writing the body that many times, and an uncompute section exactly undoes its compute section, including helper qubits allocated and released inside and negatively controlled gates. When a section ends, normally or after an error inside it, later operations are no longer affected by it.",
 ["programs", "histories"], "every nesting of sections and bodies with local allocation, whether or not the target can run loops natively",
 "Tests cover each construct with one or two simple bodies.",
 ["meta/_dagger.py", "meta/_loop.py", "meta/_compute.py", "meta/_util.py", "ops/_command.py"],
 [("DaggerEngine.run / LoopEngine.run / ComputeEngine.run_uncompute", "replay of recorded commands"), ("insert_engine/drop_engine_after", "scope of a section")])
prop("P13", "Gate and command algebra is consistent with the matrices",
 "For every gate, the inverse undoes it, merging two gates (when accepted) gives the gate equal to applying one after the other, gates reported as identity act as identity, and two gates or commands that compare equal act identically and hash alike (gates given by a numeric matrix cannot be hashed). Angles are normalised without changing the gate, and copying or inverting a command keeps its qubits, controls, control values and annotations.",
 ["inputs"], "every gate, parameter value (including wrap-around and tiny angles) and pair of gates or commands",
 "Tests check a few angles and pairs.",
 ["ops/_basics.py", "ops/_gates.py", "ops/_metagates.py", "ops/_command.py", "ops/_uniformly_controlled_rotation.py", "ops/_time_evolution.py", "ops/_qubit_operator.py", "ops/_state_prep.py"],
 [("BasicRotationGate / BasicPhaseGate / MatrixGate", "normalisation, equality, merging"), ("Command.get_inverse/get_merged/__deepcopy__/__eq__", "command algebra")])
prop("P14", "Qubit lifecycle and measurement records are sound in every history",
 "Every live qubit has a unique identity that is not reused, each qubit is allocated exactly once and released exactly once (explicitly, when its last reference disappears, or when the session ends), and no operation reaches the backend for a qubit that is not live. A live qubit reports a classical value exactly when a result for it has arrived, and that value is the one measured by the latest measurement whose result has arrived; otherwise asking is an error. A measurement issued before a flush has a result after it.",
 ["histories"], "every history of allocation, aliasing, deletion, measurement, flushing and session end",
 "Tests exercise individual calls; lifetime follows from garbage collection and history.",
 ["cengines/_main.py", "cengines/_basics.py", "types/_qubit.py", "meta/_dirtyqubit.py", "ops/_gates.py"],
 [("MainEngine.flush/__del__/set_measurement_result", "session bookkeeping"), ("BasicEngine.allocate_qubit/deallocate_qubit", "identity and registration")])
prop("P15", "Qubit-operator algebra is the algebra of Pauli sums",
 "Sums, differences, scalar and operator products, quotients, negation, in-place updates and compression of qubit operators correspond exactly to the same operations on the matrices they denote, never modify operands they should not, and closeness tests agree with the coefficient differences. Parsing any valid term in text or tuple form yields the operator it denotes, and invalid terms are rejected.",
 ["inputs"], "every expression over qubit operators",
 "Tests check identities on a few terms.",
 ["ops/_qubit_operator.py"], [("QubitOperator.__imul__/__iadd__/__isub__/compress/isclose", "term arithmetic")])
prop("P16", "High-level operations prepare and transform states as specified",
 "Preparing a state from the all-zero register yields exactly the requested amplitudes; the Fourier transform, uniformly controlled rotations, bit flips to a given value, entangling, amplitude amplification and phase estimation act as defined mathematically, also inside controlled or reversed sections wherever those are accepted. Exact phases are estimated with certainty, and amplified success probability follows the analytic formula.",
 ["inputs", "programs"], "every target state, angle list, register size, bit pattern, unitary with known eigenvector and number of iterations",
 "Tests check few sizes and parameters.",
 ["ops/_state_prep.py", "ops/_gates.py", "ops/_qaagate.py", "ops/_qpegate.py", "ops/_qftgate.py", "ops/_uniformly_controlled_rotation.py", "setups/decompositions/stateprep2cnot.py", "setups/decompositions/amplitudeamplification.py", "setups/decompositions/phaseestimation.py", "setups/decompositions/qft2crandhadamard.py"],
 [("_decompose_state_preparation / _decompose_ucr / _decompose_QPE / _decompose_QAA / _decompose_QFT", "circuits")])
prop("P17", "Arithmetic with classical constants computes the exact integers",
 "Adding, subtracting, modular adding and modular multiplying by a constant map every register value meeting the documented preconditions to the exact integer result, for any constant, modulus, register width and control condition, and their inverses undo them. The native emulation and the compiled circuit agree, and helper qubits come back clean.",
 ["inputs", "configurations"], "every width, value, constant, modulus and control set in the documented domain",
 "Tests run one or two constants.",
 ["libs/math/_constantmath.py", "libs/math/_gates.py", "libs/math/_default_rules.py"],
 [("add_constant/add_constant_modN/mul_by_constant_modN", "Fourier-space circuits")])
prop("P18", "Arithmetic between registers computes the exact integers",
 "Register addition (with and without carry), subtraction, comparison, multiplication and division produce the exact integer results for every input meeting the documented preconditions, restore their unchanged operands, honour control qubits and are undone by their inverses. The native emulation and the compiled reversible circuit agree.",
 ["inputs", "configurations"], "every width, operand values and control value in the documented domain",
 "Tests run a few operand pairs.",
 ["libs/math/_quantummath.py", "libs/math/_gates.py", "libs/math/_default_rules.py"],
 [("add_quantum/subtract_quantum/comparator/quantum_multiplication/quantum_division and inverses", "ripple-carry circuits")])
prop("P19", "Classical simulation equals integer semantics of reversible programs",
 "On any program of (multi-)controlled bit flips, swaps via flips, reversible arithmetic, measurements and releases, the classical simulator holds exactly the bit values the program computes, reads and writes registers with the least significant bit first, and agrees with the quantum simulator. Anything it cannot represent, including negative controls it does not support, is declined rather than executed differently.",
 ["programs", "histories"], "every reversible classical program with any allocation history and register layout",
 "Tests cover single gates and one adder.",
 ["backends/_sim/_classical_simulator.py"], [("ClassicalSimulator._handle / _mask / write_register", "bit-state update")])
prop("P20", "Resource accounting is exact",
 "For every program, the reported gate counts per gate and control count, per gate class, the maximal number of simultaneously live qubits and the circuit depth equal those recomputed from the command stream, including reuse of released qubits. Counting never changes, drops or reorders the commands passed on.",
 ["histories"], "every command history including releases, re-allocation and all gate kinds",
 "Tests count two small circuits.",
 ["backends/_resource.py"], [("ResourceCounter._add_cmd", "incremental accounting")])
prop("P21", "Unitary extraction returns the exact circuit unitary",
 "The unitary reported for a circuit equals the product of its controlled gate matrices with the first allocated qubit least significant, segments split by measurement or release are all available in order, and measurement outcomes follow the state the circuit prepares. Flushing at any point never changes the result.",
 ["programs", "histories"], "every sequence of allocations, gates, flushes, measurements and releases",
 "Tests check one or two circuits with a single flush at the end.",
 ["backends/_unitary.py"], [("UnitarySimulator._handle/_flush/measure_qubits, _qidmask", "mask construction and state tracking")])
prop("P22", "Circuit drawings show exactly the program",
 "The drawing produced for any program contains each gate once, on the right lines with the right controls and in an order consistent with every qubit's own gate order, without overlapping gates that share a line. The generated document is well formed: every node it connects is defined.",
 ["programs", "configurations"], "every program, line order and drawing option",
 "Tests compare a few snapshots and counts.",
 ["backends/_circuits/_drawer.py", "backends/_circuits/_to_latex.py", "backends/_circuits/_drawer_matplotlib.py", "backends/_circuits/_plot.py"],
 [("_Circ2Tikz.to_tikz", "recursive layout"), ("CircuitDrawerMatplotlib._process / to_draw", "column layout")])
prop("P23", "The job sent to a quantum service is the program",
 "For every program a cloud backend accepts, the circuit text or structure it submits describes the same operations on the same physical qubits as the commands it received, with the requested number of repetitions, and measures exactly the qubits the program measured. Commands the service cannot express, including negative controls, are reported as unavailable or rejected, never silently altered, and one submitted job never contains parts of an earlier one.",
 ["programs", "configurations"], "every program in the accepted gate set, any qubit mapping, each service",
 "Tests submit one or two fixed circuits per service and compare literal payloads.",
 ["backends/_ibm/_ibm.py", "backends/_aqt/_aqt.py", "backends/_ionq/_ionq.py", "backends/_awsbraket/_awsbraket.py", "backends/_azure/_azure_quantum.py", "backends/_azure/_utils.py"],
 [("*Backend._store/_run", "translation"), ("*Backend.is_available", "acceptance")])
prop("P24", "Results from a quantum service reach the right qubits",
 "When a service returns a histogram, the probabilities reported for any qubit selection and order are the marginals of that histogram for those logical qubits, and every measured logical qubit receives the matching bit of one outcome that occurs in the histogram, chosen with its probability. This holds under any qubit mapping, measured subset and measurement order, and for retrieved jobs.",
 ["inputs", "configurations"], "every histogram, mapping, measured subset, order and query, each service",
 "Tests return one fixed histogram with identity mapping.",
 ["backends/_ibm/_ibm.py", "backends/_aqt/_aqt.py", "backends/_ionq/_ionq.py", "backends/_awsbraket/_awsbraket.py", "backends/_azure/_azure_quantum.py", "backends/_utils.py"],
 [("*Backend.get_probabilities / _logical_to_physical", "bit selection"), ("*Backend._run", "outcome choice and registration")])
prop("P25", "Job submission survives any service behaviour in a defined way",
 "Talking to a quantum service, a job is submitted at most once, polled until it completes, and its own result is returned unchanged; offline devices, too small devices, failed or cancelled jobs, HTTP errors and running out of retries each end in the documented error (or documented empty result) and never in a fabricated result. The interrupt handling of the process is restored afterwards.",
 ["fault_sequences", "histories"], "every sequence of service replies (states, failures, malformed replies) and retry limits",
 "Tests script a few reply sequences.",
 ["backends/_ibm/_ibm_http_client.py", "backends/_aqt/_aqt_http_client.py", "backends/_ionq/_ionq_http_client.py", "backends/_awsbraket/_awsbraket_boto3_client.py", "backends/_azure/_azure_quantum_client.py"],
 [("send / retrieve / get_result", "polling state machine")])
prop("P26", "Synthesised oracles realise their Boolean specification",
 "A permutation oracle maps every basis state to its image, a control-function oracle flips its target exactly on the inputs where the function is true, and a phase oracle inverts the sign exactly there (for functions mapping zero to zero), on any choice and order of qubits and inside controlled sections. Invalid permutations and functions too large for the register are rejected.",
 ["inputs"], "every permutation or truth table of up to a few variables, any qubit order, any applicable synthesis command",
 "Tests synthesise a single majority function and a few permutations.",
 ["libs/revkit/_permutation.py", "libs/revkit/_control_function.py", "libs/revkit/_phase.py", "libs/revkit/_utils.py"],
 [("__or__ / _exec", "synthesis and replay of generated code")])
prop("P27", "Command streams pass pipeline stages without loss or reordering",
 "Printing, counting, drawing, tag-removing, filtering, modifying, comparing and recording stages forward every command exactly once and in order (changed only as their purpose says), flushes pass through every stage, and a measurement whose qubit was relocated is credited to the original qubit. Replacing stages substitute only what the rest of the pipeline cannot handle and keep the order and annotations of everything else.",
 ["programs", "configurations"], "every command stream through every stack of stages",
 "Tests send one or two commands through each stage in isolation.",
 ["backends/_printer.py", "cengines/_tagremover.py", "cengines/_cmdmodifier.py", "cengines/_replacer/_replacer.py", "cengines/_testengine.py", "cengines/_basics.py", "cengines/_basicmapper.py"],
 [("BasicEngine.send/receive, ForwarderEngine", "forwarding"), ("AutoReplacer.receive, InstructionFilter", "replacement")])
prop("P28", "A program gives the same results whatever engine list compiles it",
 "Any program, including classical feedback on measurement results, mid-circuit allocation and release, and high-level constructs, has the same set of possible measurement records with the same final state, whether run without compilation, with the default engines, with a restricted gate set, or mapped to a device layout. No such program fails to compile with an internal error.",
 ["programs", "configurations", "histories"], "every program up to the size bound, every supplied engine list",
 "Tests check engine lists one at a time on fixed circuits.",
 ["cengines/_main.py", "setups/default.py", "setups/restrictedgateset.py", "setups/linear.py", "setups/grid.py", "setups/trapped_ion_decomposer.py"],
 [("MainEngine pipeline assembly", "composition of all stages")])
prop("P29", "Runs are reproducible from the random seed",
 "A program run on a simulator with a given random seed yields the same measurement outcomes and the same final state every time it is run in a process, for both kernels and behind any supplied engine list, no matter what else happens in between (other simulators, random numbers drawn elsewhere, queries of the state). Compiling the same program with the same engine list gives the same commands each time. Different seeds, or none, give different and uncorrelated outcomes.",
 ["inputs", "programs", "configurations", "histories"], "every program up to the size bound, every 32-bit seed, every intervening use of other simulators and generators",
 "Tests never repeat a seeded run or compare two seeds.",
 ["backends/_sim/_simulator.py", "backends/_sim/_pysim.py", "backends/_sim/_cppkernels/simulator.hpp", "setups/trapped_ion_decomposer.py", "cengines/_replacer/_replacer.py"],
 [("Simulator.__init__ / measure_qubits", "seeding and drawing outcomes"), ("AutoReplacer._process_command, LocalOptimizer", "deterministic compilation")])
prop("P30", "Engines in one process do not influence each other",
 "Programs run on several main engines in the same process, advanced in any interleaving of statements (also inside each other's control, compute, loop or reversal sections), sharing gate objects or not, and ending at different times, each end in the state and with the outcomes their own statements define. With seeded simulators each engine's outcomes are those it has when run alone.",
 ["programs", "configurations", "histories", "schedules"], "every interleaving of the statements of a few programs of bounded size",
 "Tests use one engine at a time.",
 ["cengines/_main.py", "cengines/_replacer/_replacer.py", "setups/trapped_ion_decomposer.py", "meta/_control.py", "meta/_compute.py", "ops/_command.py", "backends/_sim/_simulator.py"],
 [("MainEngine / BasicEngine", "per-engine state"), ("module-level state of setups, gate singletons", "sharing between engines")])
prop("P31", "Histograms show exactly the backend's outcome probabilities",
 "histogram() of any qubits in any order and grouping (single qubits, registers, lists of both) returns and draws, for each outcome named by the bits of those qubits in that order, exactly the probability the backend has for it: all outcomes of the current state for the simulator, the measured distribution for a quantum service, behind any qubit mapping. Backends without probabilities are refused.",
 ["inputs", "configurations"], "every state and histogram of up to 7 qubits, every selection, order and grouping of the qubits",
 "Tests draw one Bell state and one mocked backend.",
 ["libs/hist/_histogram.py", "backends/_sim/_simulator.py", "backends/_ibm/_ibm.py", "backends/_aqt/_aqt.py", "backends/_ionq/_ionq.py", "backends/_awsbraket/_awsbraket.py"],
 [("histogram", "collecting and drawing"), ("*Backend.get_probabilities", "marginals")])
prop("P32", "Device setups place every program the device has room for",
 "The ready-made setups for devices (ion traps, online simulators, the fifteen- and five-qubit chips, linear and grid layouts) turn every program that fits into commands that use only the device's gates, existing locations and connections in a permitted direction, one location per live qubit, with the program's meaning and results intact. Every announced location the layout can use is available, again and again: locations of released qubits serve later programs of the same session. A program is refused, with an error, only if the device has no room for it.",
 ["programs", "configurations", "histories"], "every program and sequence of programs up to the size bound, every announced size, every direction of the published connections",
 "Tests check the length of the engine lists only.",
 ["setups/aqt.py", "setups/ibm.py", "setups/ionq.py", "setups/linear.py", "setups/grid.py", "setups/_utils.py", "cengines/_basicmapper.py", "cengines/_twodmapper.py", "cengines/_linearmapper.py", "cengines/_swapandcnotflipper.py", "backends/_ionq/_ionq_mapper.py"],
 [("get_engine_list", "choice of the mapper and its locations"), ("GridMapper, LinearMapper, BoundedQubitMapper", "giving away and freeing locations")])
prop("P33", "A statement that is refused leaves no trace",
 "A statement which cannot be carried out is refused with an error at the statement itself: measuring several qubits at once, using a qubit which does not exist any more as target or as control, too few controls, control states which are too short, too long, malformed or contradictory, operators reaching past the qubits they are given, malformed loops and sections, reading a qubit which was not measured, and simulator queries about part of the state or of the wrong size. After the error the session is as if the statement had never been written: the commands emitted, the outcomes drawn, the open sections and the final state are those of the program without it.",
 ["programs", "histories"], "every program, every kind of refusable statement, at any point, also inside Control, Dagger, Loop and Compute sections",
 "Tests check that an error is raised for single statements and then drop the engine; none continues the session.",
 ["ops/_basics.py", "ops/_gates.py", "ops/_metagates.py", "ops/_command.py", "ops/_qubit_operator.py", "ops/_time_evolution.py", "meta/_control.py", "meta/_loop.py", "meta/_compute.py", "types/_qubit.py", "backends/_sim/_simulator.py"],
 [("BasicGate.__or__, MeasureGate.__or__, Control.__enter__, Loop.__enter__", "statement entry points"), ("Simulator queries", "argument checks")])
prop("P34", "Jobs go to the machine asked for, to hardware only if hardware is asked for",
 "A program run with the backend of a cloud service is submitted to the device that was named, under the name the service uses, with the number of runs and the credentials given; every later request about the job (status, results, also in another session by its id) concerns the same job at the same place and yields that job's results. Without use_hardware nothing is ever sent to hardware, whatever device is named; with it the job goes to the named machine and to no simulator instead. Defaults are those documented, every documented device name can be used, and devices the account cannot use are refused with an error.",
 ["configurations", "inputs", "histories"], "every service, device name, hardware switch, number of runs, order of sessions and retrieval by id",
 "Tests use one device per service and replace the functions that pick it.",
 ["backends/_ibm/_ibm.py", "backends/_ibm/_ibm_http_client.py", "backends/_aqt/_aqt.py", "backends/_aqt/_aqt_http_client.py", "backends/_ionq/_ionq.py", "backends/_ionq/_ionq_http_client.py", "backends/_awsbraket/_awsbraket.py", "backends/_awsbraket/_awsbraket_boto3_client.py", "backends/_azure/_azure_quantum.py", "backends/_azure/_azure_quantum_client.py"],
 [("*Backend.__init__ / send / retrieve", "choice of the device, submission, retrieval"), ("AWSBraketBackend clients", "regions")])
prop("P35", "Printed programs can be read back",
 "The text of a command, and therefore what CommandPrinter writes, names the gate with all its parameters to full precision, every control qubit and the target qubits register by register in order; CommandPrinter writes every command exactly once, in order, and hands it on untouched. Reading the text of a program back gives the program. The same holds for the text of a single gate, its inverse, a qubit operator and a register of any size. (The values of negative controls and the amplitudes of StatePreparation are not part of the text.)",
 ["inputs", "programs"], "every command stream up to the size bound, every gate and parameter, every list of qubit numbers",
 "Tests compare the text of a handful of commands.",
 ["backends/_printer.py", "ops/_command.py", "ops/_basics.py", "ops/_metagates.py", "ops/_qubit_operator.py", "ops/_time_evolution.py", "ops/_uniformly_controlled_rotation.py", "types/_qubit.py", "libs/math/_gates.py"],
 [("Command.to_string, *Gate.__str__, Qureg.__str__", "text"), ("CommandPrinter.receive", "printing in order")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
