add("C01", "The DC operating point of a linear circuit solves its circuit equations",
    "For every circuit of resistors, capacitors, (coupled) inductors, independent and controlled sources whose DC equations have one solution, the operating point analysis succeeds and reports exactly one value per non-ground node voltage and per current of a voltage-defined branch (V, E, H, L), equal to that solution. Capacitors are open, inductors are shorts, Kirchhoff's laws and every element's defining equation hold with the documented reference directions, whatever the order of the elements and the names of the nodes.",
    ["inputs"], "all finite linear circuits with a unique DC solution, all element orders and node names, values across decades",
    "The tests check a handful of fixed circuits; wrong stamps only show for particular topologies, repeated terminals, declaration orders or element combinations.",
    ["ahkab/dc_analysis.py", "ahkab/circuit.py", "ahkab/components/sources.py"],
    "MNA matrix assembly by element stamps, damped Newton solve, result containers",
    note="Randomised search; an independent assembly of the equations solved with numpy is the oracle. Ill-conditioned systems (equilibrated condition > 1e8) are skipped.")
add("C02", "A reported nonlinear operating point satisfies every device equation",
    "Whenever the operating point analysis reports a solution for a circuit with diodes, MOS or EKV transistors, switches and linear elements, Kirchhoff's current law holds at every node and every branch equation holds, with each device's current taken from its own published model equations, to within the solver's tolerances; a solution that does not is never reported. For circuits built of resistors, sources and diodes that have a unique solution, a solution is found.",
    ["inputs", "configurations"], "all nonlinear circuits, source values, starting guesses and solver option settings",
    "Convergence helpers (damping, gmin and source stepping, initial guess) interact; the tests only look at four fixed circuits with default options.",
    ["ahkab/dc_analysis.py", "ahkab/diode.py", "ahkab/mosq.py", "ahkab/ekv.py", "ahkab/switch.py", "ahkab/dc_guess.py"],
    "Newton iteration with damping, standard/gmin/source stepping continuation, convergence test")
add("C03", "Device conductances are derivatives of currents; model symmetries hold",
    "For the diode, the quadratic MOS, the EKV transistor and the switch, the conductance a model reports at any bias is the derivative of the current it reports there, currents are continuous and obey the model's symmetries (n/p duality, drain-source exchange, scaling with area or W/L and multiplicity), and they follow the documented model equations.",
    ["inputs"], "all bias points in every region and all valid parameter sets, geometries and temperatures",
    "Tests evaluate a few fixed bias points; region boundaries, reversed terminals, p-type devices and non-default parameters are never compared with a derivative.",
    ["ahkab/diode.py", "ahkab/mosq.py", "ahkab/ekv.py", "ahkab/switch.py"],
    "closed-form model equations with hand-written derivatives and region selection")
add("C04", "Every DC sweep point is the operating point at that source value",
    "A DC sweep returns one row per requested value, starting at the start value and advancing by the requested step (added for linear sweeps, multiplied for logarithmic ones) up to the stop value, which is included when a step reaches it, in sweep order. Each row equals the operating point of the circuit with the swept source set to that value, and after the sweep the circuit is as it was before.",
    ["inputs", "configurations"], "all circuits, swept voltage or current sources, start/stop/step combinations in either direction",
    "Tests run two sweeps with convenient steps; rounding of the point count, negative directions and warm starts from the previous point are not exercised.",
    ["ahkab/dc_analysis.py", "ahkab/utilities.py", "ahkab/results.py"],
    "sweep iterator, source value substitution, warm-started operating points")
add("C05", "AC analysis returns the small-signal phasors of the linearised circuit",
    "At every requested frequency the AC result is the phasor solution of the circuit linearised at its operating point, (G + j*2*pi*f*C) x = b with b from the AC magnitude and phase of the sources, for every linear circuit including mutual inductors and controlled sources, and for nonlinear devices with their conductances at the operating point. The frequency axis has the requested ends, number of points and (linear or logarithmic) spacing, and the magnitude, phase, real and imaginary parts offered by the result agree with one another.",
    ["inputs", "configurations"], "all circuits, frequency ranges, sweep types and operating points",
    "Tests compare a few circuits on fixed grids; wrong reactive stamps cancel or vanish in them.",
    ["ahkab/ac.py", "ahkab/results.py", "ahkab/utilities.py", "ahkab/dc_analysis.py"],
    "AC matrix assembly, linearisation at the operating point, frequency axis, complex result container")
add("C06", "Transient results follow the circuit's differential equations on the time axis",
    "A transient analysis returns a strictly increasing time axis from the first step after tstart until tstop is reached, with steps never longer than tstep, on which node voltages and branch currents follow the circuit's differential equations: every accepted step of a fixed-step run satisfies the chosen integration rule to solver tolerance, algebraic relations hold at every point, and for linear circuits the waveforms converge to the exact solution as the step or the tolerances shrink, with adaptive steps included.",
    ["inputs", "configurations"], "all circuits with reactive elements, waveforms, integration methods, step sizes and adaptive-step settings",
    "Tests look at a few low-order circuits with loose reference comparison; an integration-rule or history-indexing error of low weight stays below their tolerance.",
    ["ahkab/transient.py", "ahkab/implicit_euler.py", "ahkab/trap.py", "ahkab/gear.py", "ahkab/dc_analysis.py"],
    "differentiation formulas turned into companion models, Newton step, local truncation error step control, history buffer")
add("C07", "Transient initial conditions are honoured as requested",
    "A transient starts from the state requested: all zeros, the operating point, the operating point with every element's own initial condition imposed (capacitor voltages and inductor currents), or the voltages and currents the user gives by name; the result reports that state as its start_op and the evolution starts from it, whether requested through the programming interface or with .ic and uic in a netlist.",
    ["inputs", "configurations"], "all circuits, initial-condition modes and user-given values, node names and polarities",
    "Tests use one or two circuits where the capacitor is grounded on one side; polarity, floating capacitors, zero-valued conditions and unusual names are not covered.",
    ["ahkab/transient.py", "ahkab/dc_analysis.py", "ahkab/ahkab.py"],
    "x0 construction from the operating point, element ic fields or name=value pairs")
add("C08", "Periodic steady state analysis returns a periodic solution of the circuit",
    "For every circuit that has one, the periodic steady state reported by either method covers one period at the points requested (by number or by step, through the API or a netlist line), repeats itself (first and last state agree), and at every point satisfies the circuit's equations with the documented discretisation (implicit Euler over one step), every linear or nonlinear device and every source at its value at that instant included; for linear circuits it is found, and it is the unique such solution, whatever the starting point or matrices supplied; autonomous circuits and unknown methods are refused.",
    ["inputs", "configurations"], "all circuits with a stable periodic steady state, periods and numbers of points, both methods",
    "Tests solve one or two circuits with a single drive.",
    ["ahkab/shooting.py", "ahkab/bfpss.py", "ahkab/pss.py"],
    "shooting/finite-difference matrix solved by Newton iteration over the whole period")
add("C09", "Pole-zero analysis returns the circuit's natural frequencies and zeros",
    "For every linear(ised) circuit the poles reported are the finite natural frequencies of its equations (in Hz, the real part included), with multiplicity, and the zeros reported for an input source and an output are the finite frequencies at which the transfer function from that source to that output vanishes, hidden modes that cancel a pole being listed in both; a complex singularity comes with its conjugate, the order of the elements and the way the input, the output and the linearization point are given do not matter, and the result's variables and file hold the same values.",
    ["inputs"], "all linear circuits with reactive elements, every input source and output port",
    "Tests check four circuits whose poles are known in closed form.",
    ["ahkab/pz.py", "ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/results.py"],
    "modified time-constant matrix eigenvalues with shift, Muller-style augmented network for zeros")
add("C10", "Symbolic results agree with the numeric circuit when values are substituted",
    "The symbolic analysis of a circuit gives expressions which, with the element values substituted, equal the DC solution (no s) or the phasor solution at s = j*2*pi*f (AC), for all linear elements; transfer functions with respect to a source are the derivative of the outputs by that source, with DC gain, poles and zeros belonging to that expression. Substitutions given beforehand lead to the same result as substitution afterwards, elements marked as numeric contribute their value, the solver options and the letter case of names do not matter, and a saved result reads back the same.",
    ["inputs", "configurations"], "all linear circuits small enough for symbolic solution, both analysis modes, all substitution maps and source choices",
    "Tests compare a few printed expressions for fixed circuits.",
    ["ahkab/symbolic.py", "ahkab/results.py"],
    "symbolic MNA stamps, substitutions, sympy solve, transfer function extraction")
add("C11", "Fourier and FFT post-processing recover the spectrum of the waveform",
    "For a waveform that is a known sum of sinusoids sampled over whole periods the Fourier and FFT post-processing report each component's amplitude, phase and frequency, the DC term and the total harmonic distortion, for uniform or non-uniform time axes, any window, start/stop/from/to limits, number of points, minimum and maximum frequency, signal or difference of signals, and printed the same by the .FOUR and .FFT directives; the data used are whole periods taken from the end of the simulation.",
    ["inputs", "configurations"], "all finite sums of harmonics, sampling densities, time windows, FFT windows and output options",
    "The tests only exercise the FFT window on a fixed run.",
    ["ahkab/fourier.py", "ahkab/printing.py"],
    "interpolation onto a uniform grid, windowing and normalisation, harmonic phasors")
add("C12", "Time functions compute the documented waveforms",
    "Every time-dependent source function (sine, pulse, exponential, single-frequency FM, amplitude modulation, piecewise linear) returns at every time the value of its documented waveform: delays, rise and fall edges, periodic repetition, damping, modulation, interpolation and hold of end values included, and a source with a function supplies it in transient and its DC value elsewhere.",
    ["inputs"], "all parameter sets and all times, edge instants and repeated periods included",
    "Tests compare a few parameter sets on one grid; defaults, zero-length edges, delays and repetition interplay stay unexplored.",
    ["ahkab/time_functions.py", "ahkab/components/sources.py", "ahkab/netlist_parser.py"],
    "closed-form waveform evaluation, keyword parsing")
add("C13", "Parsing a netlist builds the circuit and analyses it describes",
    "Parsing a netlist yields the circuit its text describes: the same elements, nodes, values, models and initial conditions as building it by hand, whatever the letter case, white space, comments, line continuations, includes, order of the lines and nesting of subcircuits (whose internal nodes stay private to each instance), and the analyses with the options it requests.",
    ["inputs", "programs"], "all netlists of the documented grammar, with layout variation and subcircuit nesting",
    "Tests parse about twenty fixed files; layout, name and nesting combinations are unbounded.",
    ["ahkab/netlist_parser.py", "ahkab/circuit.py", "ahkab/utilities.py"],
    "line reader, per-element parsers, subcircuit expansion, directive parsing")
add("C14", "Printing a circuit as a netlist and parsing it back preserves it",
    "The netlist text a circuit prints, parsed again, gives, once the model declarations it refers to are added, an equivalent circuit: the same nodes, elements, values, sources with their time functions, couplings and initial conditions, so every analysis gives the same result.",
    ["inputs"], "all circuits of every element kind, parameter values and node names",
    "Tests compare some printed strings with fixed text and never parse them back.",
    ["ahkab/circuit.py", "ahkab/components", "ahkab/time_functions.py", "ahkab/netlist_parser.py"],
    "per-element netlist printers against the netlist grammar")
add("C15", "Numbers with SPICE suffixes are read as the value they denote",
    "Every number accepted in a netlist denotes its decimal value times its scale suffix (T, G, MEG, K, MIL, M, U, N, P, F), in any letter case and spelling of the mantissa and exponent, wherever a number may occur; text that is no number is rejected with a netlist error; booleans and option values are read likewise.",
    ["inputs"], "all number spellings, suffixes, cases and malformed texts",
    "Tests convert a dozen literals.",
    ["ahkab/netlist_parser.py"],
    "suffix recognition and scaling")
add("C16", "Result objects give every variable back under its name, and the sampled data",
    "A result object behaves as a case-insensitive, ordered mapping from the analysis' variables to their data: keys, values, items, membership, iteration, length, default access and equality of views agree with one another and with the underlying array, time/frequency/sweep axis access included; what one result object reports does not change when another is made or written.",
    ["inputs", "histories"], "all analyses' results and all access sequences",
    "Tests check keys for a few results.",
    ["ahkab/results.py"],
    "mapping interface over a stored or in-memory data matrix")
add("C17", "Saved result files load back to the data, with selection and range",
    "Result files written by any analysis load back to the same variable names, order and values (to the written precision), whether loaded whole, by label, or by a range of samples (skip and count), for any number of samples and labels; appending writes add samples without losing the old ones.",
    ["inputs", "histories"], "all matrices, label lists, selections, offsets and counts, and write/append sequences",
    "Tests load one file.",
    ["ahkab/csvlib.py", "ahkab/results.py"],
    "tab separated writer and reader with header line")
add("C18", "Operating point reports are consistent: powers, device data and deltas",
    "The operating point report is consistent with the solution it belongs to: the total power it reports is the sum, over all voltage and current sources independent and controlled, of the power each delivers (its voltage times its current), which by Tellegen is the power dissipated by the rest of the circuit; the per-device operating data (voltages, currents, powers, conductances, regions) agree with the node voltages and branch currents of the solution; and the check that compares the solutions obtained with and without gmin names exactly the variables that differ by more than the tolerances.",
    ["inputs"], "all linear and nonlinear circuits and source arrangements",
    "Tests print the report of a few circuits.",
    ["ahkab/results.py", "ahkab/dc_analysis.py", "ahkab/components"],
    "power summation over sources, per-element operating data, result difference")
add("C19", "A circuit keeps its bookkeeping consistent through any edit history",
    "After any sequence of element, model and node additions, removals and look-ups the circuit holds exactly the elements added and not removed, in order, and the nodes they use; node names and internal numbers form a bijection with ground number 0; unknown names are refused, duplicate element names are reported (has_duplicate_elem, check_circuit), a refused addition leaves no trace; branch-current indexes are dense and in element order; and analyses give the result of a circuit built directly in that final state.",
    ["histories"], "all sequences of circuit editing calls",
    "Tests add elements in a fixed order and remove one.",
    ["ahkab/circuit.py"],
    "node dictionary, element list, model dictionary")
add("C20", "Analyses are repeatable and independent of what ran before",
    "Running any analysis leaves the circuit description, the global options and other results unchanged: the same analysis gives the same answer when repeated, in any order, after any other analyses, alone or in one queue, and a result obtained earlier keeps its values.",
    ["histories", "configurations"], "all sequences of analyses on one or several circuits within a process",
    "Each test runs its analyses once in a fresh object; state carried in devices, module globals and caches is not observed.",
    ["ahkab/ahkab.py", "ahkab/dc_analysis.py", "ahkab/transient.py", "ahkab/switch.py", "ahkab/utilities.py"],
    "analysis queue, cached evaluations, device state, global options")
add("C21", "Equivalent circuits give equivalent results in every analysis",
    "Rewriting a circuit without changing its meaning does not change its results: reordering elements, renaming nodes and elements, exchanging the terminals of symmetric elements, splitting elements into series or parallel parts, Thevenin and Norton forms, choosing another reference node, exchanging devices for their complements, and scaling impedance, time or sources change the results exactly as circuit theory says, in operating point, sweep, AC, transient, periodic and pole-zero analyses alike; linear circuits obey superposition, and circuits of resistors, capacitors and coupled inductors reciprocity.",
    ["inputs", "programs"], "all circuits and all such rewritings",
    "Tests never compare two descriptions of one circuit.",
    ["ahkab/circuit.py", "ahkab/dc_analysis.py", "ahkab/ac.py", "ahkab/transient.py", "ahkab/pz.py"],
    "assembly of the equations from the element list and node numbering")
add("C22", "Sweep axes and matrix utilities produce what they document",
    "The sweep iterators yield exactly the requested points, ends included, in order; the step size and number of points are completed consistently; the matrix helpers (appending, removing and extracting rows and columns, combinations of elements), the convergence checks, the checks for a conductive path to ground and a well-formed circuit, and the memoizing helper satisfy their documented algebra for every input.",
    ["inputs"], "all ranges, step counts and matrices",
    "Tests use one or two matrices.",
    ["ahkab/utilities.py"],
    "iterators and numpy helpers")
add("C23", "The command line run of a netlist writes the results of its analyses",
    "Running a netlist file from the command line performs each analysis it requests and writes one result file per analysis holding the same variables and values as the programming interface returns for the same circuit, finishing with a success status; with no output file the same tables, reports and Fourier tables are printed; the options of the command line take effect and take precedence over the netlist; an invalid netlist, a missing file or a wrong command line gives an error status and no result file.",
    ["inputs", "programs"], "all netlists with any set of analysis directives, valid and invalid",
    "Tests run a few fixed netlists.",
    ["ahkab/__main__.py", "ahkab/ahkab.py", "ahkab/printing.py", "ahkab/results.py"],
    "option parsing, directive execution, result files")
