"""Manifest entries: id -> technique, level, note."""
P = "contract-based deductive verification: obligations generated from /repo's current source (pv), discharged by z3"
INFO = {
 "C01": dict(technique=P, level="proof", note="All obligations of RHG_graph (27 boundary triples, names, integer/list/array dimensions, any polarity) and of alternating_polarity are discharged for all dimensions >= 2. Trusted: the engine's model of the Python subset, numpy/networkx/itertools calls used, z3; integers are mathematical."),
 "C02": dict(technique=P, level="proof", note="All obligations of SurfaceCode.__init__ (identify_stabilizers, periodic_boundary_stabilizers, identify_boundary, RHG_graph inlined) are discharged for all dimensions >= 2 and all 6 combinations of error complex and boundaries. Trusted: the engine's model of the Python subset, numpy/networkx calls used, z3."),
 "C14": dict(technique=P, level="proof", note="All obligations of GKP_binner and integer_fractional are discharged for every real alpha > 0 and every real value (scalars and arrays of any shape). Assumed: floats are mathematical reals, the integer quotient fits in a 64-bit int. Trusted: the engine's model of the Python subset and numpy calls used, z3."),
 "C11": dict(technique=P, level="proof", note="IidNoise.__init__ and apply_noise on an arbitrary graph (any node set, any earlier attributes), any probability and any generator, applied once or repeatedly: exactly one draw per node, bit = (draw < p), nothing else written. Assumed: Generator.random() gives reals in [0, 1). Trusted: the engine, networkx attribute model, z3."),
 "C20": dict(technique=P, level="proof", note="All constructors for every n >= 1 (symbolic), node sets and edge sets exactly as specified, and the refusals. Assumed: floats are reals (cos, sin by their algebraic properties), rounding to 5 digits is a function, and the rounded points differ (the property's precondition for ring and complete). Trusted: the engine, networkx model, z3."),
 "C06": dict(technique=P, level="proof", note="recovery on an arbitrary graph and node set (bits inverted exactly there, everything else untouched), correct for every option combination against the contracts of assign_weights, the decoders and check_correction. Trusted: the engine, the networkx attribute model, z3; the decoders and the check enter by their contracts (C05, C07 - C10)."),
 "C10": dict(technique=P, level="proof", note="assign_weights on an arbitrary graph (any node set, states, degrees and neighbours), every method, decoder and option: weight of every syndrome node as stated, nothing else written, refusals. Assumed: floats are reals, Z_err_cond by contract (a number; C15), log uninterpreted. Trusted: the engine, the networkx attribute model, z3."),
 "C05": dict(technique=P, level="proof", note="check_correction and Stabilizer.parity on any code satisfying the postconditions of SurfaceCode (C01, C02), all dimensions >= 2 and all bit values: the outcome is the parity of the first plane of every checked direction, every sanity report is the parity of its plane; parallel planes agree by local counting lemmas (z3) and an exchange of finite sums (Lean). Trusted: the engine, networkx attribute model, z3, Lean; SurfaceCode enters by its contract, which C01 and C02 discharge."),
 "C03": dict(technique=P, level="proof", note="Both backend classes built, queried (nodes, edges, neighbours, boundary points, edge data), weighted, asked for odd stabilizers and converted, on any code satisfying the postconditions of SurfaceCode (C01, C02), all dimensions >= 2, all bit values and weights, all 6 combinations of error complex and boundaries. The lists of boundary points enter by their contract (lower plane first, as many on each; C02). Trusted: the engine, networkx and rustworkx graph models, z3."),
 "C16": dict(technique=P + " and Lean 4 (block matrix identities)", level="proof", note="SCZ_mat, SCZ_apply and invert_permutation's callers: SCZ_apply equals multiplication by the SCZ matrix for every symmetric adjacency, every number of modes, dense and sparse, vectors and matrices, and does not write to its inputs. Assumed: numbers are mathematical (no rounding or overflow). Trusted: the engine, the numpy/scipy block models, z3, Lean."),
 "C12": dict(technique=P, level="proof", note="CVLayer.__init__, populate_states (with its helpers) and apply_noise on an arbitrary graph with numbered nodes, any supplied index sequence (list, array, range; repeated entries allowed) and any swap-out probability, from any state that earlier calls can have left: labels, p_inds and gkp_inds partition the modes as stated; the refusal. Assumed: the contract of adj_generator (nodes numbered 0 .. N-1; C04), choice without replacement gives distinct members. Trusted: the engine, numpy array model, networkx attribute model, z3."),
 "C13": dict(technique=P, level="proof", note="measure_hom (with _means_sampler and _covs_sampler), measure_syndrome, inner_decoder, apply_noise, hom_outcomes and bit_values on an arbitrary graph with numbered nodes and any partition of the modes, both sampling orders and quadratures, any index sequence (none, list, array, range), perfect qubits, supplied and propagated means, any translator: arguments of every draw, propagation, where the outcomes are stored and that nothing else is written. Enter by contract: adj_generator (C04), SCZ_apply (C16), populate_states (C12), GKP_binner (C14). Assumed: floats are reals. Trusted: the engine, numpy array model, networkx attribute model, z3."),
 "C21": dict(technique=P + " and Lean 4 (sums over processes)", level="proof", note="ec_mc_trial, ec_monte_carlo (with and without MPI, any trial count, rank and number of processes) and run_ec_simulation (any argument dictionaries, existing or new file): order and arguments of noise and correction, every trial in exactly one process, the reduction, the reported count, one header for a new file, one row per run with a field per column. Assumed: MPI Reduce, open and csv.writer follow their documentation, str() determines literals, counts are exact in doubles. correct and the classes of code and noise enter as unknown callables. Trusted: the engine, z3, Lean."),
 "C15": dict(technique=P + " and Lean 4 (laws of finite sums)", level="proof", note="Z_err_cond (scalars, arrays of one and of any number of entries, fraction or whole outcome, every kind of replacement, any number of terms) and Z_err (any number of variances, whole or real range factor): the sums of the code are the defining sums, the result is their quotient or the replacement, and a probability. Assumed: sums and products are exact, exp and erf are monotone within their bounds also as computed. GKP_binner enters by its contract (C14). Trusted: the engine, numpy models, z3, Lean."),
 "C17": dict(technique=P, level="proof", note="macronize and EGraph.macronize on an arbitrary lattice graph (any nodes, unit edges, periodic edges between opposite faces, orientations, attributes, size), any displacement, with and without padding, with any list of perfect points or none: nodes, edges, attributes, table, perfect points, distinctness, frame and refusals. Assumed: floats are reals except for np.round, of which only the error bound is used. Trusted: the engine (with its rule for dictionaries of lists filled by a loop), networkx graph model, z3."),
 "C04": dict(technique=P, level="proof", note="EGraph.__init__, index_generator, adj_generator, add_qubit and remove_qubit from every state that satisfies the representation invariant (any nodes, edges, weights, attributes, any subset of indices in use, any macronode table), every form of every argument: the invariant is kept, so it holds along every history, and the postconditions relate the two states (nodes, edges, weights, kept indices, table, order and contents of the adjacency call). Assumed: coordinates are reals, networkx's adjacency functions follow their documentation (entry = weight attribute, 1 without it, 0 without an edge), the table handed over at construction is well formed (C17). Trusted: the engine, networkx graph model, z3."),
"C07": dict(technique=P + " and Lean 4", level="proof", note="build_match_graph, MatchingGraph.with_edges_from with its helpers, node_index/add_edge/edge_path of the three matching graphs, min_weight_perfect_matching of each (with lemon.min_weight_matching), mwpm_decoder, the shortest-path methods of both stabilizer graphs and the indices of the connectors, for any number of odd stabilizers and any finite stabilizer graph; the flips are one per step of the matched paths (ghost record of toggles), and Lean proves that they clear the syndrome, that the stabilizers are connected (with a geometry unit for every code) and that a path through the other connector is never chosen. Assumed: the library algorithms (Dijkstra, max_weight_matching, the C++ of lemonpy), C02 and C03, exact sums; draw=True is not covered. Trusted: the engine, graph models, z3, Lean."),
"C08": dict(technique=P + " and Lean 4", level="proof", note="The units of C07 with the obligations about weights: edges of the matching graph weigh what Dijkstra minimises on exactly the real links with exactly their weights, boundary edges the lesser of the connectors' distances, boundary points among each other 0, the library gets minus these weights (rustworkx: times at least 2^20 and rounded), total_weight_of adds them; Lean proves that then the flips weigh no more than any set of qubits with the same syndrome. Assumed: as for C07; single precision in lemon and rounding in rustworkx are outside of the statement (ε in the lemma). Trusted: the engine, graph models, z3, Lean."),
 "C18": dict(technique=P, level="proof", note="Every method of CVMacroLayer on an arbitrary macronode graph (any number of macronodes, any states, partners, edge weights and earlier attributes): star permutation, labels, gates and beamsplitter network, measurement, reduction (bit, error probability with the variance of every binned outcome, for all 81 kinds of neighbourhoods), the noiseless bit as parity of the neighbouring stars, repeated application, constructor, default network; degrees and parity of the cells for every code. Enter by contract: macronize (C17), adj_generator (C04), populate_states (C12), measure_hom (C13), SCZ_apply (C16), GKP_binner (C14), Z_err_cond (C15), thewalrus. Assumed: floats are reals. Trusted: the engine, numpy array model, networkx attribute model, z3."),
}
