import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
R="PyCTBN/PyCTBN/"
EST=R+"estimators/"; SG=R+"structure_graph/"; UT=R+"utility/"; OP=R+"optimizers/"

p("C01","Residence-time statistics are exact",
 "For every network (any mix of variable cardinalities, any parent set, any subset of the recorded variables, edges listed in any order) and every set of trajectories, the residence time estimated for a node under each combination of parent states and each own state equals the total duration of exactly those recorded segments in which the parents and the node hold those states. Each segment is counted once, in the matrix that the node's list of parent combinations associates with those parent states.",
 ["inputs","configurations"],"all trajectories (states, durations), all cardinalities, parent sets and variable subsets",
 "The estimator tests need data files that are absent here, and when present they compare with a tolerance of 10 and only use uniform cardinalities; no test fixes the value of a single residence time.",
 [EST+"parameters_estimator.py",SG+"network_graph.py",SG+"set_of_cims.py"],
 [("mixed-radix index + bincount over the filtered trajectory columns",EST+"parameters_estimator.py: compute_state_res_time_for_node"),("column filters and index strides",SG+"network_graph.py: fast_init")],
 [("T","residence time per parent combination and state",SG+"set_of_cims.py")],["SetOfCims.actual_cims[k].state_residence_times","SetOfCims.p_combs[k]"])
p("C02","Transition-count statistics are exact",
 "For every network and every set of trajectories, the count estimated for a node moving from state x to a different state x' under a combination of parent states equals the number of recorded segments in which exactly that happened, and the diagonal entry of x equals the total number of departures from x. Segments whose next own state is unobserved (negative) or equal to the current one contribute to no count.",
 ["inputs","configurations"],"all trajectories, cardinalities, parent sets and variable subsets",
 "Same as C01: the only tests that compute counts need absent data files and use uniform cardinalities with a tolerance of 10.",
 [EST+"parameters_estimator.py",SG+"network_graph.py"],
 [("mixed-radix index + bincount, diagonal rebuilt from row sums, rows with negative next state dropped",EST+"parameters_estimator.py: compute_state_transitions_for_a_node")],
 [("M","transition counts per parent combination",SG+"set_of_cims.py")],["SetOfCims.actual_cims[k].state_transition_matrix"])
p("C03","Estimated intensities are the smoothed ratio of the node's statistics",
 "Every estimated intensity matrix has, off the diagonal, (transitions from x to x' + 1) / (residence time in x + 1) and, on the diagonal, (1 - departures from x) / (residence time in x + 1), one matrix per parent combination and in the order of the combinations. Computing them leaves the residence times and transition counts, which stay readable next to each matrix, unchanged.",
 ["inputs"],"all statistics and matrix sizes",
 "The unit test compares against the formula with a relative tolerance of 10, so almost any matrix passes.",
 [SG+"conditional_intensity_matrix.py",SG+"set_of_cims.py"],
 [("compute_cim_coefficients",SG+"conditional_intensity_matrix.py"),("build_cims",SG+"set_of_cims.py")],
 [],["ConditionalIntensityMatrix.cim","state_residence_times","state_transition_matrix"])
p("C04","Parent combinations are complete and selection by partial state is exact",
 "For any cardinalities of a node's parents, the list of parent combinations contains every combination of parent states exactly once, with values in each parent's own range and the first parent varying fastest. For a node with two or more parents, selecting matrices by fixing the states of some of the parents returns exactly the matrices whose combination agrees with them, in list order; with fewer than two parents the selection returns all matrices.",
 ["inputs","configurations"],"all parent cardinalities, masks and requested states",
 "Tests only check two parents of cardinalities 2 and 3 with a copy of the production helper as oracle, and only one-element selections.",
 [SG+"network_graph.py",SG+"set_of_cims.py"],
 [("build_p_comb_structure_for_a_node",SG+"network_graph.py"),("filter_cims_with_mask",SG+"set_of_cims.py")],
 [],["NetworkGraph.p_combs","SetOfCims.filter_cims_with_mask"])
p("C05","Importing trajectories preserves every transition and invents none",
 "For any list of trajectories and any distinct variable names, importing yields, for each pair of consecutive rows of each trajectory and in order, one segment holding the time difference, the states before and the states after; no segment joins rows of different trajectories. Only the names of columns, not their spelling or the name of the time column, matter, and the caller's own data is left unchanged.",
 ["inputs","configurations"],"all trajectory lists, lengths, times, states and column names, for in-memory and JSON import",
 "The importer tests need absent data files; when present they check one data set whose labels are X, Y, Z and whose time column is called Time.",
 [UT+"abstract_importer.py",UT+"json_importer.py",UT+"sample_importer.py",SG+"sample_path.py",SG+"trajectory.py"],
 [("per-trajectory difference and shift, then concatenation",UT+"abstract_importer.py: compute_row_delta_sigle_samples_frame, compute_row_delta_in_all_samples_frames"),("conversion to arrays",UT+"abstract_importer.py: build_list_of_samples_array")],
 [],["SamplePath.trajectories.times","Trajectory.trajectory","Trajectory.complete_trajectory"])
p("C06","The network description matches the data it is used with",
 "The network description built from imported data lists the variables in data-column order, each with its own column index and cardinality, and exactly the prior edges supplied (none if none were). Data whose column order differs from the variable list, or that lacks variables or samples, is rejected with a RuntimeError instead of being silently mis-assigned.",
 ["inputs","configurations"],"all variable orders, cardinalities and prior edge lists",
 "The tests need absent data files and swap only the first two labels of one data set.",
 [SG+"sample_path.py",SG+"structure.py"],
 [("order check and construction",SG+"sample_path.py: build_structure"),("emptiness checks",SG+"sample_path.py: __init__")],
 [],["SamplePath.structure","SamplePath.total_variables_count","SamplePath.has_prior_net_structure"])
p("C07","Editing a network keeps names, indexes, cardinalities and edges consistent",
 "After any sequence of node removals and edge additions and removals, every remaining variable still maps to its own data-column index and cardinality, removed variables occur in no edge, and an edge is reported present exactly if it was added (or given) and not removed. The parents reported for a node are exactly the sources of its incoming edges, listed in variable order whatever the order of insertion, each with its own index and cardinality.",
 ["histories","configurations"],"all operation sequences, networks and insertion orders",
 "The structure test applies one fixed sequence; graph tests need absent data files.",
 [SG+"structure.py",SG+"network_graph.py"],
 [("remove_node, add_edge, remove_edge, contains_edge",SG+"structure.py"),("get_ordered_by_indx_set_of_parents, remove_node",SG+"network_graph.py")],
 [("labels/indexes/values","parallel arrays describing the variables",SG+"structure.py")],["Structure getters","NetworkGraph.get_ordered_by_indx_set_of_parents","NetworkGraph.has_edge"])
p("C08","The family score is the Bayesian-Dirichlet closed form of the data",
 "For every node, parent set, data and positive hyperparameters, the score of the node equals the sum over parent combinations u and states x of [lnG(a+M_x+1) + (a+1) ln t - lnG(a+1) - (a+M_x+1) ln(t+T_x)] + [lnG(a) - lnG(a+M_x)] + sum over x' different from x of [lnG(a'+M_xx') - lnG(a')], where T and M are the node's residence times and transition counts under u, M_x its departures and a' = a / (number of states - 1). It depends on nothing but the data and that parent set: not on earlier scores computed with the same objects.",
 ["inputs","histories"],"all data, parent sets and hyperparameters",
 "No runnable test computes a score; the existing ones only check which edges are found on one absent data set.",
 [EST+"fam_score_calculator.py",EST+"structure_score_based_estimator.py"],
 [("get_fam_score",EST+"fam_score_calculator.py"),("get_score_from_graph",EST+"structure_score_based_estimator.py")],
 [],["FamScoreCalculator.get_fam_score","StructureScoreBasedEstimator.get_score_from_graph"])
p("C09","The independence test decides by the stated exponential and chi-square tests",
 "Given the statistics of a child without and with the tested parent, independence is accepted exactly if for every child state the ratio of the two diagonal intensities lies within the two-sided F quantiles at the exponential significance (degrees of freedom: the two departure counts) and the two-sample chi-square statistic of that state's transition counts, over the transitions observed at all, does not exceed its quantile at the chi significance with (states - 1) degrees of freedom; a state never left in one of the two data is not tested. For a child with more than two states, when the departures observed without the tested parent divided by the test's degrees of freedom fall below the threshold, independence is rejected and the edge is marked as not removable.",
 ["inputs"],"all statistics, cardinalities, significances and thresholds",
 "No test calls the independence test directly; the end-to-end tests need absent data files.",
 [EST+"structure_constraint_based_estimator.py"],
 [("independence_test, compute_thumb_value",EST+"structure_constraint_based_estimator.py")],
 [],["StructureConstraintBasedEstimator.independence_test","compute_thumb_value"])
p("C10","Conditional independence is judged on the right data, whatever was tested before",
 "Testing a parent against a child given a separating set compares, for every state combination of the separating set and every state of the tested parent, the child's statistics given the separating set with its statistics given both, all computed from the data, and answers 'independent' exactly if every one of these comparisons does. The answer does not depend on which tests for the same child were made before it.",
 ["inputs","histories"],"all data, cardinalities, separating sets and histories of earlier tests for the child",
 "The end-to-end tests need absent data; none isolates one conditional test, and none compares a cached with an uncached answer.",
 [EST+"structure_constraint_based_estimator.py",UT+"cache.py",SG+"set_of_cims.py"],
 [("complete_test with cache keyed by parent set",EST+"structure_constraint_based_estimator.py"),("find/put",UT+"cache.py")],
 [("cache","statistics per parent set of the current child",UT+"cache.py")],["StructureConstraintBasedEstimator.complete_test"])
p("C11","Constraint-based search removes exactly the justified edges",
 "For any outcomes of the independence tests, the parents found for a node always include every known parent; every other variable is dropped only after a test accepted its independence given a separating set taken from the parents remaining at that time, and a kept variable has been rejected for every separating set taken from the other kept parents, unless its edge is known or was marked as not removable. Every edge found points from another variable to that node.",
 ["inputs","histories"],"all test outcomes (as an arbitrary function of node, parent and separating set), all known-edge sets, numbers of variables",
 "Tests need absent data and check only that one particular structure is recovered.",
 [OP+"constraint_based_optimizer.py",EST+"structure_estimator.py"],
 [("optimize_structure loop over set sizes",OP+"constraint_based_optimizer.py"),("generate_possible_sub_sets_of_size, build_removable_edges_matrix",EST+"structure_estimator.py")],
 [("removable edges matrix","False where an edge may not be removed",EST+"structure_estimator.py")],["ConstraintBasedOptimizer.optimize_structure","StructureConstraintBasedEstimator.estimate_structure"])
p("C12","Score-based search respects prior knowledge and the parent limit",
 "For any scores and any random choices, the parents found for a node by hill climbing or tabu search include every known parent, are other variables of the network, and number at most the given maximum (or the number of known parents, if larger). The search also returns normally when there is nothing to choose from: no candidate parents left, a maximum of zero, or fewer candidates than the tabu settings.",
 ["inputs","schedules","configurations"],"all score functions over parent sets, all random choice sequences, known-edge sets, parent limits, tabu settings",
 "Tests need absent data and fix one data set; none sets a binding parent limit together with known edges.",
 [OP+"hill_climbing_search.py",OP+"tabu_search.py"],
 [("optimize_structure",OP+"hill_climbing_search.py"),("optimize_structure",OP+"tabu_search.py")],
 [],["HillClimbing.optimize_structure","TabuSearch.optimize_structure","StructureScoreBasedEstimator.estimate_parents"])
p("C13","Score-based search ends with the best structure it visited, within its budget",
 "For any scores and any random choices, the parent set returned by hill climbing or tabu search has a score that is at least that of the starting structure (the known parents only) and equal to the best score of all structures evaluated; a move that does not raise the score is undone completely. At most one structure per allowed iteration is evaluated besides the starting one, and with a patience of p the search stops exactly when p+1 moves in a row brought no improvement; it ends before its iterations are used up for no other reason, except that no move is possible.",
 ["inputs","schedules"],"all score functions over parent sets and all random choice sequences",
 "Tests only look at the final structure on one absent data set.",
 [OP+"hill_climbing_search.py",OP+"tabu_search.py"],
 [("accept/undo logic, patience counter",OP+"hill_climbing_search.py"),("accept/undo logic, tabu queue",OP+"tabu_search.py")],
 [("tabu_set/tabu_queue","forbidden nodes",OP+"tabu_search.py")],["optimize_structure"])
p("C14","Structure estimation is the union of per-node results, in parallel or not",
 "Estimating the structure returns exactly the union, over all variables, of the edges found for each variable taken alone, with the parameters the caller gave. Running it with several worker processes gives the same edges as running it in one process, for any number of processes.",
 ["inputs","schedules","configurations"],"all per-node outcomes, numbers of variables and process settings",
 "The tests compare with one true structure and never compare the two modes; they need absent data.",
 [EST+"structure_constraint_based_estimator.py",EST+"structure_score_based_estimator.py"],
 [("ctpc_algorithm",EST+"structure_constraint_based_estimator.py"),("estimate_structure",EST+"structure_score_based_estimator.py")],
 [],["estimate_structure"])
p("C15","Reported results describe exactly the estimated structure",
 "After an estimation, the adjacency matrix has true at (i, j) exactly if the edge from the i-th to the j-th variable was estimated, and the saved result file lists every variable of the network, isolated ones included, and exactly the estimated edges. The spurious edges reported are exactly the estimated edges that the prior structure supplied with the data does not contain, and none if no prior structure, or one without any edge, was supplied.",
 ["inputs","configurations"],"all estimated edge sets and prior structures",
 "The tests need absent data; they compare two graphs in one direction only and never have an isolated variable or a spurious edge.",
 [EST+"structure_estimator.py",EST+"structure_constraint_based_estimator.py",EST+"structure_score_based_estimator.py"],
 [("adjacency_matrix, save_results, spurious_edges",EST+"structure_estimator.py")],
 [("_complete_graph","estimated graph",EST+"structure_estimator.py")],["adjacency_matrix","save_results","spurious_edges"])
p("C16","Generated networks have the requested edges and no self-loops",
 "For any labels, cardinalities and density, the generated network contains every given variable with its cardinality and only edges between two different given variables, none twice. With fixed density it has exactly density times n(n-1) edges, any such edge set being possible, or is rejected with a RuntimeError if that is not a whole number; otherwise each possible edge is present exactly if its own draw with the given probability succeeds.",
 ["inputs","schedules"],"all densities, label lists and random draws",
 "Tests generate one random graph of density 0.3, do not use fixed density, and count only nodes and self-loops.",
 [SG+"network_generator.py"],[("generate_graph",SG+"network_generator.py")],[],["NetworkGenerator.graph","dyn_str","variables"])
p("C17","Generated intensity matrices are valid and complete",
 "For any network and random draws, each variable gets one intensity matrix per combination of its parents' states, listed with that combination, of the size of its own cardinality. In each matrix the exit rate of every state lies between the requested minimum and maximum, the other entries are non-negative, and every row sums to zero, all up to the rounding to four decimals.",
 ["inputs","schedules"],"all cardinalities, parent sets, ranges and random draws",
 "Tests check only the signs of the entries for uniform cardinality 3; the row-sum assertion is commented out.",
 [SG+"network_generator.py",SG+"network_graph.py"],[("generate_cims",SG+"network_generator.py")],[],["NetworkGenerator.cims"])
p("C18","Sampled trajectories follow the network's dynamics",
 "For any network and any random variates, a sampled trajectory starts at time 0 with every variable in state 0; each following row changes exactly one variable, the one whose waiting time ends first, to another of its states drawn in proportion to the intensities of its current row, and its time is the previous time plus waiting times that are exponential with the rates given by the intensity matrix for the current states of the parents, rounded to four decimals. A variable's waiting time is redrawn only when it or one of its parents changes; sampling stops after the requested number of transitions or before the requested end time, and the last row's states are replaced by -1.",
 ["inputs","schedules"],"all networks, intensity matrices, limits and random variates",
 "Tests look at the number of rows and at monotone times of a few random runs; no test relates times or states to the intensities.",
 [SG+"trajectory_generator.py",SG+"set_of_cims.py"],[("CTBN_Sample",SG+"trajectory_generator.py")],
 [("time","scheduled transition time per variable",SG+"trajectory_generator.py")],["TrajectoryGenerator.CTBN_Sample"])
p("C19","Parallel sampling returns one independent trajectory per request",
 "Generating several trajectories in parallel returns exactly one trajectory per requested end time or number of transitions, each obeying its own limit, whatever the order in which the workers finish. The trajectories are driven by different random draws: they are not copies of one another when the limits are equal, and a second request does not repeat the first one's.",
 ["schedules","inputs"],"all worker completion orders, limit lists and random states",
 "Tests count the returned trajectories and compare lengths; identical trajectories pass.",
 [SG+"trajectory_generator.py"],[("multi_trajectory, worker",SG+"trajectory_generator.py")],[],["TrajectoryGenerator.multi_trajectory"])
p("C20","Exported networks and trajectories are read back unchanged",
 "For any network (any cardinalities, parent sets, listing order of edges) and any trajectories, a file written by the exporter and read back by the importer describes the same variables, edges and, for every variable and every assignment of states to its named parents, the same intensity matrix; the trajectories have the same times (to ten decimals) and states. A sampler built from the imported file uses, in every joint state, the same matrix for a variable as one built from the original network.",
 ["inputs","configurations"],"all networks, intensity matrices and trajectories",
 "The exporter test only checks that a file appears; nothing reads back an exported file.",
 [UT+"json_exporter.py",UT+"json_importer.py",SG+"trajectory_generator.py"],
 [("cims_to_json, out_file",UT+"json_exporter.py"),("constructor parsing of combination keys",SG+"trajectory_generator.py")],[],["JsonExporter.out_file","JsonImporter.import_data","TrajectoryGenerator"])
p("C21","The statistics cache returns what was stored for that parent set",
 "After any sequence of stores, lookups and clears, a lookup returns the value stored first since the last clear for an equal set of parents, in whatever order its members were given, and nothing if no equal set was stored; the empty set is a key like any other. Lookups change nothing.",
 ["histories"],"all operation sequences and parent sets",
 "The cache test makes three lookups after at most two stores.",
 [UT+"cache.py"],[("find, put, clear",UT+"cache.py")],[],["Cache"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
