import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    a={"files":["flamingpy/"+f for f in files],"mechanism":[{"name":m.strip(),"where":"flamingpy/"+files[0]} for m in mech.split(",")]}
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SC="codes/surface_code.py"; EG="codes/graphs/egraph.py"; SG="codes/graphs/stabilizer_graph.py"
p("C01","RHG lattice has exactly its defined vertices, edges, types and weights",
"For all dimensions of at least 2 and every choice of 'primal', 'dual' or 'periodic' boundary per axis (also by name or for one integer dimension), the lattice graph has as vertices exactly the integer points within its extent (an axis of dimension d runs over 0..2d-2 if primal, 1..2d-1 if dual, 0..2d-1 if periodic) that have two odd coordinates and one even one (typed 'primal') or one odd and two even ones (typed 'dual'). Its edges are exactly the primal-dual pairs one unit apart, where the unit step may wrap around a periodic axis, in which case and only then the edge is marked periodic. Every edge weighs the supplied polarity function applied to its end points (1 without one), and with the alternating polarity every vertex with four neighbours has two edges of weight +1 and two of weight -1.",
["inputs","configurations"],"all dims (dx,dy,dz) >= 2 and all 27 boundary triples, any polarity function",
"tests build a handful of small lattices and compare with code of the same shape; larger or unequal dimensions and most mixed boundaries are never built",
[SC],"RHG_graph, dual_neighbours, str_to_bound, alternating_polarity","the returned graph: nodes, edges, 'type', 'weight', 'periodic' attributes")
p("C02","Stabilizers are the cell faces, and cover every syndrome qubit properly",
"For every code (distance at least 2 in each direction, either error complex, 'open', 'toric' or 'periodic' boundaries) there is exactly one stabilizer per unit cell of the error complex, and it consists of exactly those of the six face points around the cell's centre (wrapped around periodic axes) that are vertices of the lattice. The syndrome coordinates are exactly the vertices in some stabilizer, the syndrome indices are exactly their indices in the graph, every syndrome vertex is in two stabilizers unless it is one of the boundary points, which are in exactly one, and the boundary points are exactly the syndrome vertices on the two outermost planes of the error complex's open axis (none when an axis is periodic), lower plane first and as many on each.",
["inputs","configurations"],"all dims >= 2, ec in {primal, dual}, boundaries in {open, toric, periodic}",
"tests check counts and a few coordinates for small cubic codes; the statement must hold for all sizes and unequal dimensions",
[SC,"codes/stabilizer.py",EG],"SurfaceCode.__init__, identify_stabilizers, set_ec_stabilizers_and_syndrome, periodic_boundary_stabilizers, generate_stabilizer_coords, six_body_dual_stabilizers, identify_boundary, _get_ec_bounds, Stabilizer","SurfaceCode attributes {ec}_stabilizers, {ec}_syndrome_coords/inds, all_syndrome_*, {ec}_bound_points")
p("C03","The stabilizer graph links exactly the stabilizers sharing a qubit",
"For every code, and for both backends alike, the nodes of the stabilizer graph are 'low', 'high', the stabilizers and the boundary points; two stabilizers are linked if and only if they share a qubit, a stabilizer is linked to exactly the boundary points it contains, 'low' and 'high' are linked to exactly the boundary points of the lower and the upper plane, and there are no other edges. Each edge between real nodes carries a qubit that both ends contain, and after weight assignment it has the weight of that qubit in the lattice, while the edges at 'low' and 'high' weigh 0. The set of odd-parity stabilizers is exactly the set of stabilizers whose qubits have an odd number of bit values 1.",
["inputs","configurations"],"all codes as in C02, both stabilizer-graph backends, all bit values and weights",
"tests compare the two backends with each other on small codes, and cannot reach all sizes or all weight assignments",
[SG,"codes/stabilizer.py"],"StabilizerGraph (add_*, connect_nodes, assign_weights, odd_parity_stabilizers, real_edges, to_nx), NxStabilizerGraph, RxStabilizerGraph, Stabilizer.parity","StabilizerGraph.nodes/edges/edge_data/neighbors/odd_parity_stabilizers")
p("C04","Qubit indices and adjacency stay consistent under any edit history",
"After any sequence of index generation, adjacency generation, qubit additions (with any existing neighbours, given as points or indices, inside or outside of a macronode) and qubit removals, the index-to-point and point-to-index tables are inverse to each other and cover exactly the current nodes, and a qubit keeps its index for as long as it exists. The adjacency matrix has one row and column per current node in increasing index order and entry (i, j) is the weight of the edge between those nodes (1 without a weight, 0 without an edge), for edge weights that are integers from -128 to 127. The macronode table lists each qubit that was put in a macronode exactly once, has no empty macronodes, and never lists a removed qubit.",
["histories","inputs"],"all finite sequences of index_generator, adj_generator, add_qubit, remove_qubit on any (also macronized or empty) graph",
"tests run single additions or removals; the guarantee is about arbitrary sequences",
[EG],"EGraph.index_generator, adj_generator, add_qubit, _update_attributes_add_qubit, remove_qubit, slice_coords","EGraph.to_indices, to_points, adj_mat, macro_to_micro")
p("C05","The logical check does not depend on the plane inspected",
"For every code and all bit values for which no stabilizer has odd parity, all parallel planes of syndrome qubits of the right kind along a checked direction have the same total parity. The correction check succeeds if and only if the total parity of such a plane is even for every checked direction: x, y and z for all-periodic boundaries, x and y for toric ones, and for open ones x for the primal and y for the dual error complex. With the sanity check enabled, it reports exactly the outcome for every such plane.",
["inputs","configurations"],"all codes as in C02 and all assignments of bit values",
"tests check single random instances of small codes; invariance over planes is a homological fact about every lattice and error",
["decoders/decoder.py",SC,EG],"check_correction, EGraph.slice_coords","return value of check_correction")
p("C06","Correction applies exactly the decoder's flips, and nothing else",
"Recovery inverts the bit value of exactly the given qubits and leaves all other node and edge data of the code unchanged. The full correction assigns weights with the given options, asks the chosen decoder ('MWPM' or 'UF', with the given decoder options) for the qubits to flip in each error complex of the code, flips them, and returns True if and only if the correction check succeeds on the resulting bit values; the outcome does not depend on whether the sanity check is enabled.",
["inputs","configurations"],"all codes, bit values, sets of qubits, decoders and options",
"tests only look at the final verdict for few seeds",
["decoders/decoder.py"],"recovery, correct, check_correction","bit_val attributes of code.graph before and after recovery/correct; result of correct")
p("C07","MWPM decoding always clears the syndrome",
"For every code, bit values, positive weights and every matching backend (networkx, rustworkx, lemon) and stabilizer-graph backend, the decoder returns without error a set of syndrome qubits whose flipping leaves every stabilizer with even parity. In particular each edge of the matching graph between two odd stabilizers, or an odd stabilizer and a boundary point, carries a path in the stabilizer graph between its ends that does not pass through 'low' or 'high'.",
["inputs","configurations"],"all codes as in C02, all bit values and positive weights, three matching backends, two stabilizer-graph backends",
"tests decode a few random syndromes on distance 2-4 codes",
["decoders/mwpm/algos.py","decoders/mwpm/matching.py","decoders/mwpm/lemon.py",SG],"mwpm_decoder, build_match_graph, MatchingGraph.with_edges_from and helpers, shortest paths of both stabilizer graphs","set returned by mwpm_decoder; Stabilizer.parity after recovery")
p("C08","MWPM corrections have minimum total weight",
"For every code in which no two stabilizers share more than one qubit (such as distance 3 or more along periodic axes), all bit values and positive weights (integer or not), each matching-graph edge between two odd stabilizers weighs the least total qubit weight of a chain joining them, each edge from an odd stabilizer to its boundary point weighs the least over all boundary points, and the carried path attains it; boundary points among each other are linked with weight 0. The decoded set has the least total weight of all sets of syndrome qubits with the same syndrome, up to the precision of floating-point sums, and all backends agree on that total weight.",
["inputs","configurations"],"all codes as in C02, all bit values, all positive weights, all backends",
"tests compare backends with each other for integer weights on small graphs; both can be wrong together",
["decoders/mwpm/matching.py",SG,"decoders/mwpm/algos.py","decoders/mwpm/lemon.py"],"_with_edges_between_real_odd_nodes, _with_edges_from_low_or_high_connector, shortest_paths_*, min_weight_perfect_matching, total_weight_of","MatchingGraph.edge_weight/edge_path/total_weight_of")
p("C09","Union-Find decoding always clears the syndrome",
"For every code, bit values and any set of erased qubits (those of weight -1), the Union-Find decoder terminates without error and returns a set of syndrome qubits whose flipping leaves every stabilizer with even parity. If the erased qubits alone can explain the syndrome, and no two stabilizers of the code share more than one qubit (such as with distance 3 or more along periodic axes), only erased qubits are flipped.",
["inputs","configurations"],"all codes as in C02, all bit values, all weight assignments from {2, -1}",
"tests check sub-structures and a few syndromes on small codes",
["decoders/unionfind/algos.py","decoders/unionfind/uf_classes.py"],"uf_decoder, uf_decode, initialize_cluster_trees, union_find, obtain_spanning_forest, peeling, trim_forest, Node/Root/Support/Boundary","set returned by uf_decoder; Stabilizer.parity after recovery")
p("C10","Decoder weights reflect the neighbourhood of each syndrome qubit",
"With uniform weights every syndrome qubit gets weight 1 for MWPM; for Union-Find it gets -1 (erased) if at least two of its neighbours are p-squeezed states and 2 otherwise. With blueprint weights for MWPM it gets minus the logarithm of its error probability (times the multiplier and rounded if integers are requested), where the error probability is 1/4, 1/3 or 2/5 for two, three or four p-squeezed neighbours and otherwise the conditional phase error probability (precomputed, or from the homodyne value and (number of neighbours + 1) * delta), limited to at most 1/2 and replaced by the smallest positive float if it is 0; blueprint weights with Union-Find are refused. Weights of other nodes are not touched, and the stabilizer graphs of the code get the same weights.",
["inputs","configurations"],"all codes, states, homodyne values, precomputed probabilities and weight options",
"tests check weights on fixed small codes with sampled states only",
["decoders/decoder.py",SG],"assign_weights, StabilizerGraph.assign_weights","'weight' attributes of code.graph nodes and stabilizer-graph edges")
p("C11","IID noise flips each qubit exactly when its own draw is below p",
"IID noise can be created exactly for probabilities between 0 and 1 inclusive, and each application sets the bit value of every qubit of the lattice to the integer 1 if the uniform draw from the supplied generator consumed for that qubit is below the error probability and to 0 otherwise, with exactly one draw per qubit. Values from earlier applications never survive; probability 0 gives all 0 and probability 1 gives all 1.",
["inputs","histories"],"all codes, probabilities, generators and numbers of applications",
"tests check one application with p in {0, 1} or a statistical average",
["noise/iid.py"],"IidNoise.__init__, IidNoise.apply_noise","'bit_val' attributes of code.graph")
p("C12","CV noise partitions the modes into p-squeezed and GKP states every time",
"After every call (not only the first) that populates the states of a CV noise layer, each mode of the graph is in exactly one state: p-squeezed if its index was supplied or drawn in this call, and GKP otherwise; the state attribute of every node and the reported p and GKP indices agree with this. With a swap-out probability of 1 all modes are p-squeezed, with probability 0 or none exactly the supplied ones (given as any sequence), and supplying both indices and a swap-out probability is refused.",
["inputs","histories"],"all graphs, index sets, swap-out probabilities, generators, and numbers of calls",
"tests populate each layer once; the guarantee is about repeated use in Monte Carlo runs",
["noise/cv.py"],"CVLayer.__init__, populate_states, _generate_squeezed_indices, _generate_gkp_indices, _apply_state_labels, p_inds, gkp_inds","CVLayer.states, node attribute 'state'")
p("C13","Homodyne outcomes come from the right distribution and land on the right node",
"In the initial sampling order the quadratures of each mode are drawn with mean 0 and standard deviation sqrt(delta/2), except 1/sqrt(2 delta) for the position of p-squeezed modes and 0 for perfect qubits, and are then propagated through the CZ gates of the graph. In the two-step order each measured mode is drawn with standard deviation sqrt(delta/2) (0 for perfect qubits) around its supplied or propagated mean in the measured quadrature. The outcome for the i-th requested index is stored on the node with that index under the measured quadrature and on no other node, and the inner decoder gives every syndrome qubit the translated bit of its own outcome.",
["inputs","configurations"],"all graphs, states, deltas, index lists, quadratures, sampling orders, perfect-qubit sets and generators",
"tests compare shapes, types and a few moments",
["noise/cv.py","cv/ops.py"],"CVLayer.measure_hom, _covs_sampler, _means_sampler, inner_decoder, measure_syndrome, hom_outcomes, bit_values","arguments of the generator's draws; node attributes hom_val_q, hom_val_p, bit_val")
p("C14","GKP binning is nearest-multiple rounding modulo 2",
"For every real x and every alpha > 0 the integer part n and the fractional part f satisfy x = n*alpha + f with |f| <= alpha/2 and n an integer, for scalars and elementwise for arrays. The GKP binner returns n mod 2 for alpha = sqrt(pi), and with the fraction requested also f.",
["inputs"],"all reals x and alpha > 0 (exact arithmetic; floating-point rounding is outside of the statement)",
"tests sample values",
["cv/gkp.py"],"integer_fractional, GKP_binner","return values")
p("C15","Phase error probabilities are probabilities and handle undefined cases",
"The conditional phase error probability in the default fractional mode, for every positive variance, outcome and positive summation range, is between 0 and 1, for scalars and elementwise for one-dimensional arrays of matching length. Wherever the denominator vanishes, the result is the replacement value, or |fractional part|/sqrt(pi) for 'bin_location', at exactly those positions. The unconditional phase error probability of each positive variance is 1 minus the Gaussian mass of the bins for bit 0 within the summation range, and lies between 0 and 1.",
["inputs"],"all positive variances, all outcomes, all summation ranges, both replacement modes",
"tests sample a few variances and outcomes",
["cv/gkp.py"],"Z_err, Z_err_cond","return values")
p("C16","CZ propagation is symplectic and all its implementations agree",
"For every symmetric adjacency matrix A the CZ matrix is [[1, 0], [A, 1]], dense for dense input and sparse or dense as requested for sparse input, and it is symplectic. Applying it to a vector gives (q, p + A q) and applying it to a square matrix M gives S M S^T, with the same result for the one-shot and the block-wise algorithm. Inverting a permutation gives its inverse.",
["inputs"],"all sizes N, all symmetric A, all vectors and 2N x 2N matrices, all permutations",
"tests sample random matrices",
["cv/ops.py","noise/cv.py"],"SCZ_mat, SCZ_apply, invert_permutation, CVLayer.SCZ","return values")
p("C17","Macronization replaces every edge by its own pair of micronodes",
"For every lattice graph with integer 3-tuples as nodes, unit edges or periodic edges (between opposite faces of the bounding box, at distance at least 2), one to four neighbours per node, and displacement between 0 and 0.49 exclusive, the macronized graph has, for every edge of the original, one edge with the same attributes joining two micronodes that belong to no other edge and have the node attributes of the two ends. Each micronode rounds to its original node, the macronode table lists for each original node exactly its micronodes (as many as it has neighbours, or exactly four with padding), and all micronodes are different. Perfect points are replaced by all of their micronodes, and displacements outside of (0, 0.5) are refused.",
["inputs","configurations"],"all RHG lattices (dims >= 2, all boundaries), all displacements, both padding options",
"tests macronize few small lattices with the default displacement",
[EG],"macronize, EGraph.macronize","the returned graph and its macro_dict, perfect_points")
p("C18","Macronode reduction recovers the canonical lattice's outcomes",
"For every code, macronode noise designates in each macronode exactly one star, a GKP mode whenever the macronode has one, labels the reduced node with the star's state, measures every star in momentum and every planet in position, and sets the bit value (0 or 1) and the error probability (between 0 and 1/2) of every node of the code's graph on every application. The error probability is the sum, capped at 1/2, of the conditional phase-error probabilities of the outcomes that are binned, each at the variance that it carries. Without noise (delta tending to 0), no stabilizer of the code has odd parity unless one of its qubits is next to a macronode that holds p-squeezed modes only. A supplied beamsplitter network is the one that is applied.",
["inputs","histories","configurations"],"all codes, edge weights of +1 and -1, deltas, swap-out probabilities, generators and numbers of applications",
"tests run single samples and compare types",
["noise/cv.py"],"CVMacroLayer","node attributes of the macronode and reduced graphs")
p("C19","LC equivalence is decided correctly, with a valid Clifford",
"Two graphs on the same number of nodes are reported as locally Clifford equivalent if and only if one can be turned into the other by local complementations (nodes matched by index order); graphs of different or zero size are reported as not equivalent. If reported equivalent, the returned local Clifford consists of invertible binary 2x2 blocks that map the stabilizer space of the first graph onto that of the second, in either output form. Row reduction modulo 2 returns the reduced row echelon form of the same row space, and the nullspace basis spans exactly the nullspace.",
["inputs"],"all pairs of graphs and all binary matrices",
"tests use a few known pairs",
["utils/linalg.py",EG],"are_lc_equivalent, search_nullspace, nullspace_basis, reduce_RREform_mod2, lc_constraint_system, clifford_vec_to_*","return values")
p("C20","Graph-state menu returns the named graphs for every size",
"For every n >= 1 the star, complete, linear and ring constructors return a graph with exactly n nodes (for ring and complete as long as the points of the circle differ after rounding) whose edges are exactly those of the star with n-1 leaves, the complete graph, the path and the cycle on n nodes; the Bell pair is the path on 2 nodes. Integers below 1 and non-integers are refused with a ValueError.",
["inputs"],"all n (ring and complete: n up to 600000, where rounded points collide)",
"tests check small n",
["utils/graph_states.py"],"_generic_graph_state, star_graph, complete_graph, linear_cluster, ring_graph, bell","the returned EGraph")
p("C21","Monte Carlo runs count failures exactly and record them losslessly",
"A Monte Carlo run performs, over all processes together, exactly the requested number of trials, each applying noise once and then correcting, and reports the number of trials whose correction failed. A full run creates the results file with a header, or appends to it leaving existing rows unchanged, and adds exactly one row with one field per header column, from which the argument values, the error count and the trial count can be read back.",
["inputs","histories"],"all trial counts, codes, noise models, decoders, process counts and ranks, argument values",
"tests run a few trials and compare one row",
["simulations.py"],"ec_mc_trial, ec_monte_carlo, run_ec_simulation","return value of ec_monte_carlo; the CSV file")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
print(len(P))
