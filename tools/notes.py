NOTES = {
    "P01": ("property-based testing: generated histories vs dense reference state vector (compiled kernel with and without vector instructions, pure-Python kernel)",
            "Sampled histories of up to 7 qubits and about 18 operations; trusts numpy and the reference model."),
}
NOTES["P05"] = ("property-based testing: generated command streams through LocalOptimizer vs reference state vector and exactly-once delivery",
                "Sampled streams on up to 4 qubits and 24 commands from small gate palettes, and up to 30 qubits with classical and opaque gates; trusts the reference model.")

NOTES["P11"] = ("property-based testing: generated nestings of controlled sections (natively, compiled, alternative spellings) vs the exact matrix on all basis states",
                "Sampled programs on up to 4 qubits, three levels of nesting, exact on every basis state of each case; up to 40 qubits and seven levels on 64 classical runs.")
NOTES["P12"] = ("property-based testing: generated nestings of reverse/repeat/compute sections vs the exact matrix, model-based programs with helper qubits, fault injection at any nesting level",
                "Sampled programs on up to 4 qubits, three levels of nesting, up to 40 qubits and seven levels on 64 classical runs; errors raised at one point per case.")
NOTES["P13"] = ("property-based testing: algebraic laws (inverse, merge, equality, hash, normalisation) of generated gates and commands vs an independent matrix table",
                "Sampled gate parameters including wrap-around and tiny angles, up to 4 qubits; matrices compared to 1e-6.")
NOTES["P06"] = ("property-based testing: generated commands through each applicable decomposition rule alone vs the exact matrix on all basis states",
                "Sampled gate parameters, widths up to 7 qubits and up to 4 controls of either value; exact on every basis state of the domain.")
NOTES["P17"] = ("property-based testing: generated constants, moduli, widths and controls; compiled circuits and both simulators' emulation on superpositions vs exact integers",
                "Sampled inputs: circuits up to 5 qubits (products up to 3), emulation up to 18 qubits; documented preconditions only.")
NOTES["P18"] = ("property-based testing: exhaustive small widths plus generated operands up to 24 bits; compiled circuits and emulation vs exact integers, undone again",
                "Exhaustive for widths 1-3 with 0-2 controls; beyond that sampled; documented preconditions only.")
NOTES["P16"] = ("property-based testing: generated states, angles, algorithms, oracles and unitaries on part of a random state vs the defining matrices and analytic probabilities",
                "Sampled cases up to 11 qubits; trusts numpy and the reference matrices.")
NOTES["P07"] = ("property-based testing: generated programs compiled by the supplied engine lists vs reference state, an independent gate-set predicate and recompilation",
                "Sampled programs on up to 7 qubits; documented-supported gate sets and the shipped device setups with stand-in services.")
NOTES["P08"] = ("property-based testing: generated programs through LinearMapper vs connectivity, announced mapping, measurement credit and reference state",
                "Sampled line and ring devices up to 8 sites and programs up to 60 statements; final states compared up to 7 live qubits; up to 45 sites with classical and opaque gates.")
NOTES["P09"] = ("property-based testing: generated programs through GridMapper vs connectivity, announced mapping, measurement credit and reference state",
                "Sampled grids up to about 9 sites with permuted site ids and custom cost functions; sampled programs up to 60 statements; up to 36 sites with classical and opaque gates.")
NOTES["P10"] = ("property-based testing: generated programs through the five-qubit, manual and bounded mappers and the direction fixer vs connectivity, announced mapping and reference state",
                "Sampled programs up to 8 qubits; the five-qubit mapper is given one circuit per run (documented use).")
NOTES["P02"] = ("property-based testing: generated histories of gates, queries, collapses, measurements, state loads and invalid calls vs a dense reference; chi-square outcome frequencies; extreme random numbers",
                "Sampled histories up to 6 qubits and 14 operations on both kernels, with and without a mapper; frequencies from 800 shots per state.")
NOTES["P03"] = ("property-based testing: generated Pauli sums, evolution times, registers and controls on random states and through the decomposition rules vs dense matrices",
                "Sampled operators of up to 5 terms on up to 6 qubits; non-commuting sums must be exact natively and exact or refused when compiled.")
NOTES["P04"] = ("property-based testing: generated reversible integer functions on generated register tuples and controls of random superpositions vs the exact permutation of amplitudes",
                "Sampled functions (tables, affine, chained, multiplying) on up to 8 qubits, both kernels, with and without a mapper.")
NOTES["P15"] = ("property-based testing: generated histories of operator expressions vs dense matrices and exact coefficient tables; generated valid and malformed terms",
                "Sampled histories on up to 4 qubits, sums of long terms on up to 1500; terms with repeated indices are left out.")
NOTES["P28"] = ("property-based testing: generated programs (feedback, release, constructs) run by different engine lists, each judged against the reference state for the outcomes it recorded",
                "Sampled programs on up to 4 qubits and 3 measurements, up to 24 qubits with classical and opaque gates; outcomes steered by a scripted backend, which refuses impossible ones.")
NOTES["P19"] = ("property-based testing: generated histories of flips, swaps, integer functions, library arithmetic, register writes and invalid calls vs a bit-level model; the same programs on the quantum simulator",
                "Sampled programs of up to 40 operations on up to 70 bits (10 next to the quantum simulator).")
NOTES["P20"] = ("property-based testing: generated command streams through the counter as last or middle engine; counts, width and depth recomputed after every batch",
                "Sampled streams on up to 14 named qubits plus re-allocated ones, up to 200 commands.")
NOTES["P21"] = ("property-based testing: generated histories of gates, flushes, measurements and releases vs explicit matrix products and the reference state; chi-square of outcomes",
                "Sampled histories of up to 5 live qubits; frequencies from 300 runs per circuit.")
NOTES["P22"] = ("property-based testing: generated programs and drawing options; the LaTeX document is parsed back and the matplotlib artists are read back, both matched gate by gate to the program",
                "Sampled programs on up to 18 qubits; no LaTeX is run; control values are a recorded finding.")
NOTES["P23"] = ("property-based testing: generated programs through each cloud backend with a stand-in service; every submitted job is parsed by an independent reader and compared with the program's commands",
                "Sampled programs on up to 12 qubits for IBM, AQT, IonQ, AWS Braket and Azure (IonQ, Quantinuum); payload formats are read as the services document them.")
NOTES["P24"] = ("property-based testing: generated histograms, qubit mappings, measured subsets, orders, queries and random draws vs exact marginals of the histogram; outcome frequencies; whole programs through the device setups",
                "Sampled histograms on up to 14 qubits, scripted service replies; frequencies from 250 jobs per case.")
NOTES["P25"] = ("property-based testing: generated reply scripts (running, finished, failed, offline, HTTP errors, malformed bodies, interrupts) for each cloud service stand-in vs the outcome, poll count and result the script implies",
                "Sampled scripts of up to 125 polls; one to three calls per case; the services' own protocols are modelled from the clients' documentation.")
NOTES["P26"] = ("property-based testing: generated permutations and Boolean functions through the oracle gates with a stand-in synthesiser; exact permutation or sign table of the emitted circuit; generated invalid arguments",
                "Sampled functions of up to 5 variables plus all small ones; RevKit itself is not installed, so the stand-in synthesises the circuits.")
NOTES["P27"] = ("property-based testing: generated command streams through stacks of supplied stages recorded between every two stages vs a per-stage model; stream comparison under batching and reordering; generated rule sets vs a reference replacer",
                "Sampled stacks of up to 6 stages, streams of about 30 commands, rule sets over 6 user-defined gates.")
NOTES["P14"] = ("property-based testing: generated histories of allocation, aliasing, reference dropping, garbage collection, measurement, flushing, explicit release and session end, with recorders at both ends of the pipeline, vs a reference-counting model",
                "Sampled histories of up to 30 steps and 6 live qubits with classical gates, over nine engine lists and seven backends; program exit in child processes.")
NOTES["P29"] = ("property-based testing: generated programs and seeds run repeatedly with generated disturbances in between (metamorphic: same seed same run, different seeds different runs), compiled streams compared",
                "Sampled programs on up to 4 qubits, both kernels, one thread of one process; independence of seeds from 64 outcomes per pair.")
NOTES["P30"] = ("property-based testing: generated programs on two or three engines under generated interleavings, each judged against its own reference model and against its run alone",
                "Sampled programs on up to 3 qubits each, single-threaded interleavings at statement level and inside sections.")
NOTES["P31"] = ("property-based testing: generated states and service results, generated selections, orders and groupings of qubits; returned and drawn bars vs exact marginals",
                "Sampled states and histograms of up to 7 qubits; bars read back from the matplotlib axes; services are stand-ins.")
NOTES["P32"] = ("property-based testing: generated programs run job after job behind the device setups, every emitted command checked against the device's gates, locations and connections, states and results vs a reference model, refusals vs an exhaustive search for room",
                "Sampled programs of up to 7 qubits with their meaning, jobs of up to 20 qubits for their placement; device lists are stand-ins.")
NOTES["P33"] = ("property-based testing: invalid statements from a catalogue injected at generated points of generated programs (also inside sections); each must raise, and the commands, outcomes and final state must be those of the program without it (metamorphic) and of the reference model",
                "A catalogue of some forty kinds of invalid statement; programs of up to 4 qubits.")
NOTES["P34"] = ("property-based testing: generated services, devices, hardware switches, run counts and session orders against stand-ins which record where every request goes; the oracle is a table of the documented devices",
                "Stand-ins for the services; all documented device names, one or two sessions.")
NOTES["P35"] = ("property-based testing: generated command streams, gates, operators and registers are printed and read back by an independent parser (round trip), gates compared by their matrices or functions",
                "Sampled streams on up to 5 qubits; control values and state-preparation amplitudes are not part of the text.")
