"""Single source of properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/flowstab/"
TN, NC, SM = S + "temporal_network.py", S + "network_clustering.py", S + "sparse_stoch_mat.py"
FS, ST = S + "flow_stability.py", S + "state_tracking.py"
CY = S + "_cython_sparse_stoch.pyx"
CF = S + "_cython_fast_funcs.pyx"
P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique="exhaustive bounded exploration of the real code against a reference model"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, technique=technique))


prop("C01", "Workflow steps run exactly when their prerequisites hold",
     "In a FlowStability analysis a step runs if and only if all earlier steps it depends on have been completed with the current settings and all required parameters are set; otherwise the call is refused with a warning and changes nothing. Changing the temporal network or the time window requires the Laplacians to be recomputed, changing the time scale requires the inter-transition matrices to be recomputed, and changing the time direction requires the flow clustering to be redone. Invalid parameter values are rejected and leave the analysis as it was; an object that is no temporal network clears the network. Only the requested time directions are computed. Valid settings read back as given and analyses that exist at the same time do not influence each other. The reported next step and missing parameters agree with what the next call does, and help() names them.",
     ["histories", "inputs"], "every sequence of setter and step calls, with valid, empty and invalid values",
     "tests run the steps once in the documented order; they never interleave setters and steps",
     [FS, ST], [("state tracking decorators", ST + ":StateMeta.register"), ("setters and steps", FS + ":FlowStability")],
     "Breadth-first search over all operation sequences up to a depth on the real class, in lockstep with an explicit reference state machine; every transition is compared (ran / refused / raised, resulting stage, values).",
     "explicit-state BFS of operation histories in lockstep with a reference state machine")
prop("C02", "Results depend only on the current settings, never on the history",
     "Whatever sequence of windows, time scales, directions, approximations and options was analysed before with the same network object, each step delivers the matrices and covariances a fresh network object delivers with the current settings, and a newly set flow clustering finds the same partitions for the same seed. Computing a derived quantity never alters matrices computed earlier.",
     ["histories", "configurations"], "every history of analysis steps with changing settings on one network or one FlowStability object",
     "tests use a fresh object per test and never change a setting after a computation",
     [TN, FS], [("cached matrices", TN + ":ContTempNetwork.compute_*"), ("workflow", FS + ":FlowStability")],
     "All operation sequences up to a depth over a vocabulary of computing calls with different settings are executed on one object; after each call everything readable is compared with the reference for the current settings.",
     "exhaustive exploration of operation histories against a reference model")
prop("C03", "Laplacians describe exactly the contacts active in each interval",
     "For every contact sequence and time window, the random-walk Laplacian (and, if requested, the adjacency) number k is the one of the graph of contacts active throughout the k-th interval between consecutive event times of the window, whatever the order of the contacts and their orientation (overlapping contacts of one pair being merged first). Window bounds snap to the last event time before or at the bound; isolated nodes have zero rows; contacts without a duration contribute their times only.",
     ["inputs"], "every contact sequence and window",
     "tests compare a few fixed networks; the incremental update depends on the order and coincidence of starts and ends",
     [TN], [("incremental update of the active contacts", TN + ":ContTempNetwork.compute_laplacian_matrices"), ("time grid", TN + ":ContTempNetwork._compute_time_grid")],
     "All contact sequences up to 3 contacts over 3-4 nodes on a 4-point time grid and all windows are run through the real code and compared with a direct reference.")
prop("C04", "Inter-event transition matrices are the exact random-walk propagators",
     "For every network, window, rate and option (sparse stochastic storage, dense or sparse exponential, fixed waiting times), the k-th inter-event transition matrix is exp(-rate * tau_k * L_k) with the duration of the k-th interval (1 if durations are fixed), row-stochastic and non-negative; a window without events gives the identity, and the default rate is one over the median inter-event time of the network.",
     ["inputs", "configurations"], "every network, window, rate and option combination",
     "tests check shapes and two option combinations on one network",
     [TN, SM], [("propagators", TN + ":ContTempNetwork.compute_inter_transition_matrices"), ("component-wise exponential", TN + ":sparse_lapl_expm, compute_subspace_expm")],
     "Full option lattice over all small networks and windows, compared with a spectral reference.")
prop("C05", "Linear approximation interpolates towards the stationary distribution",
     "For every network, window, rate and stationarity time t_s > 1, the linear inter-event matrix for t = rate * tau_k is (1-t) I + t M for t <= 1, the linear interpolation between the one-step walk M and its component-wise stationary transition matrix for 1 < t < t_s, and the stationary transition matrix beyond; both storage formats give the same row-stochastic matrix.",
     ["inputs", "configurations"], "every network, window, rate, t_s and storage option",
     "no stable test compares the values of the linear matrices",
     [TN], [("linear approximation", TN + ":lin_approx_trans_matrix, sparse_lin_approx"), ("stationary transition", TN + ":compute_stationary_transition, sparse_stationary_trans")],
     "Full option lattice over all small networks and windows with rates on both sides of every branch boundary.")
prop("C06", "Cumulative transition matrices are the ordered products",
     "The transition matrices computed for a rate are the products of the inter-event matrices from the first interval to the k-th (from the last one backwards to the k-th in reversed time), all of them or only the final one as requested, for the exact and the linear matrices, in either storage format; a tolerance drops the entries below it (relative to the largest one) from every factor and product and keeps rows stochastic.",
     ["inputs", "configurations"], "every network, rate, direction, storage and saving option",
     "tests call the functions once without comparing the products",
     [TN], [("products", TN + ":ContTempNetwork.compute_transition_matrices, compute_lin_transition_matrices")],
     "Full option lattice over all small networks.")
prop("C07", "Sparse stochastic matrices behave as the matrices they stand for",
     "Creating, converting, copying, transposing, adding, subtracting, multiplying, scaling, normalising and trimming sparse stochastic matrices gives the same result as the same operations on the equivalent dense matrices, for every set of non-trivial rows/columns and every value on the remaining diagonal, and leaves the operands unchanged unless the operation is in place.",
     ["inputs", "histories"], "all operand pairs, and all sequences of operations",
     "tests use random matrices with diagonal one; disjoint, nested and empty index sets and other diagonals are not covered",
     [SM, CY], [("algebra", SM + ":SparseStochMat"), ("kernels", CY)],
     "All operands over a small value alphabet (every index subset, several diagonals) under every unary and binary operation, and all operation chains up to depth 3.")
prop("C08", "Sparse autocovariance matrices behave as their dense counterparts",
     "Every query on a sparse autocovariance (elements, sub-matrix sums, row and column sums, move gains, aggregation by any partition, all-zero test, copy, conversion) equals the same query on the dense matrix PT - p1 p2^T, with vector or uniform scalar probabilities, symmetric or not, and the constructors from a transition matrix give diag(p1) T - p1 p2^T and diag(p1) T diag(1/p2) T^T diag(p1) - p1 p1^T.",
     ["inputs"], "all matrices, index sets and partitions",
     "tests use a handful of matrices and index sets",
     [SM, CY], [("autocovariance", SM + ":SparseAutocovMat"), ("kernels", CY)],
     "All matrices with entries from a small alphabet up to 3 nodes (all supports for 4), all index subsets, all partitions.")
prop("C09", "Stability and move gains are exact",
     "For every covariance and partition the reported stability is the sum of the covariance over all pairs of nodes in the same cluster, and the reported gains of moving a node out of its cluster and into another (possibly empty) one are exactly the corresponding changes of stability, identically for the dense and the sparse implementation, whether the covariance is given directly or through a transition matrix and probabilities, and aggregating clusters preserves the stability.",
     ["inputs"], "all covariances, partitions and moves",
     "tests check one or two partitions of random matrices",
     [NC, SM, CF], [("stability", NC + ":Clustering.compute_stability, SparseClustering"), ("gains", NC + ":_compute_delta_stab_moveto/out, BaseClustering._compute_new_R_*")],
     "All set partitions, nodes and target clusters for all transition matrices of a bounded family, both implementations.")
prop("C10", "Louvain never worsens the partition, for every node order",
     "For every covariance, starting partition and order in which nodes are visited, the Louvain search terminates, returns a partition of exactly all nodes, with stability not lower than that of the starting partition, with the progress record never decreasing and matching the recorded partitions, and, when started from single nodes on a covariance without ties, leaving no two neighbouring clusters whose merging would still increase it; an all-zero covariance gives the single full cluster. The same seed gives the same result, and given starting clusters are not modified.",
     ["schedules", "inputs"], "all node visiting orders at every sweep, all small covariances and starting partitions",
     "tests run a few seeds; a seed is one of factorially many orders",
     [NC], [("search", NC + ":BaseClustering.find_louvain_clustering, _louvain_move_nodes"), ("partition update", NC + ":_get_updated_partition, _aggregate_clusters")],
     "Stateless exploration of every node order through a controlled random state, on a bounded family of covariances and starting partitions.",
     "stateless exploration of all random choices of the real code")
prop("C11", "Partitions stay partitions under every move history",
     "After any sequence of node moves and clean-ups, a Partition assigns every node to exactly one cluster, its cluster list, node map, indicator matrices (sparse and dense), iteration order and cluster counts agree with one another, clean-up removes exactly the empty clusters, and the integrity check accepts it exactly when it is a partition.",
     ["histories", "inputs"], "all histories of moves and clean-ups from all initial partitions in both input forms",
     "tests apply single moves to fixed partitions",
     [NC], [("partition", NC + ":Partition")],
     "Breadth-first search of all reachable partitions states through moves and clean-ups, in lockstep with a set-based model.",
     "explicit-state BFS in lockstep with a reference model")
prop("C12", "Flow-stability covariances are the exact time integrals",
     "For every list of inter-event (or cumulative) transition matrices, event times, initial distribution, direction and time grid, the covariance reported for each grid interval end is the time average of diag(p1) T(t) diag(1/p(t)) T(t)^T diag(p1) - p1 p1^T from the start of the grid, and the dense, sparse and sparse-stochastic inputs give the same values up to the requested relative tolerance; backward integrals are the forward integrals of the time-reversed sequence. Clustering an interval uses exactly that covariance.",
     ["inputs", "configurations"], "all matrix lists, time lists, distributions, directions and grids",
     "tests check one network in one direction",
     [NC], [("integral", NC + ":FlowIntegralClustering._compute_integral"), ("products", NC + ":FlowIntegralClustering._compute_T_list"), ("grid", NC + ":FlowIntegralClustering.__init__")],
     "Full lattice of storage x direction x grid x distribution x times over all sequences of matrices of a small family.")
prop("C13", "Cluster similarity measures obey their definitions",
     "For all pairs of partitions, in every accepted input form, the normalised variation of information, normalised mutual information and Jaccard distance equal their definitions, are symmetric, invariant under relabelling, zero (one for mutual information) exactly for equal partitions and satisfy the triangle inequality where they are metrics; the average over a list of partitions is the mean over all pairs; sorting clusters returns a permutation of the given clusters.",
     ["inputs"], "all pairs and triples of partitions",
     "tests compare a few pairs",
     [NC, CF], [("measures", NC + ":norm_var_information, norm_mutual_information, jaccard_distance, avg_norm_var_information, sort_clusters"), ("kernels", CF)],
     "All pairs of set partitions up to 6 nodes, all triples up to 4-5.")
prop("C14", "Saved transition matrices load back as the matrices that were saved",
     "For every network, rate, storage format, compression, rounding and delta-encoding option, loading a saved file of inter-event or cumulative, exact or linear transition matrices returns the saved matrices (within the rounding tolerance) for exactly the saved rates together with the window they belong to; saving alters neither the matrices in memory nor what later saves write.",
     ["configurations", "histories"], "all combinations of save options, and sequences of saves",
     "tests save and load one configuration each",
     [TN], [("save/load", TN + ":ContTempNetwork.save_inter_T, save_inter_T_lin, load_inter_T, save_T, save_T_lin, load_T")],
     "Full option lattice over a family of networks, and all sequences of two saves on one object.")
prop("C15", "A saved network resumes as the original",
     "A network saved and loaded (under any file name, any selection of matrices, any storage option) holds the same contacts, node labels, times and matrices as the original, and every computation continued from the matrices that were saved gives on the loaded network the result of the same computation on the original.",
     ["histories", "configurations"], "all contact sequences and all points of the analysis at which the network is saved",
     "tests save and load one network with fixed options",
     [TN], [("save/load", TN + ":ContTempNetwork.save, load")],
     "Every prefix of the analysis x save option is saved, loaded and continued, over a family of networks with and without labels.")
prop("C16", "Ingestion is independent of the input form",
     "A contact sequence given as lists, as a DataFrame (with any index) or as a CSV file, in any row order, with integer or arbitrary sortable node labels, with relabelling or not, gives the same network up to the reported label mapping; merging overlapping contacts yields for each pair the union of its contacts; the inputs are never modified.",
     ["inputs"], "all contact sequences, row orders, label sets and input forms",
     "tests build a few networks from lists",
     [TN], [("constructor", TN + ":ContTempNetwork.__init__"), ("merging", TN + ":ContTempNetwork._merge_overlapping_events")],
     "All contact sequences of up to 2-3 contacts on a small grid in all row orders, label alphabets and input forms.")
prop("C17", "Instantaneous networks hold each contact until the next event time",
     "A network of instantaneous contacts is equivalent to the network in which each contact lasts until the next distinct event time, with unit waiting time per step: its Laplacians, exact and linear transition matrices and windows are those of that network.",
     ["inputs", "configurations"], "all instantaneous contact sequences, windows and options",
     "tests use one network",
     [TN], [("instantaneous networks", TN + ":ContTempInstNetwork")],
     "All sequences of up to 3 instantaneous contacts, windows and options.")
prop("C18", "Parallel clustering equals serial clustering",
     "For every clustering, number of processes and order in which the workers finish, the parallel repetition of the Louvain search returns, in matching order, the distinct seeds of the repetitions together with the partition and stability that a serial run with that seed gives, and the parallel variation of information returns the value of every pair; nothing is left shared between two parallel runs.",
     ["schedules", "configurations"], "all completion orders of the worker tasks, process counts, dense and sparse clusterings",
     "the parallel tests are empty",
     [S + "parallel_clustering.py"], [("worker pools", S + "parallel_clustering.py:compute_parallel_clustering, compute_parallel_nvi")],
     "The pool is replaced by a controlled one that executes the tasks in every order and on every assignment to workers; real pools are run as a conformance check.",
     "stateless exploration of task schedules through a controlled pool")
prop("C19", "All matrix-exponential strategies give the same matrix",
     "The component-wise, column-wise and parallel strategies for the exponential of a Laplacian give exp(-t L) for every graph, with components of any size in any labelling, for every number of processes and worker order; thresholding removes only entries below the requested ratio, and normalised rows sum to one unless all their entries were removed.",
     ["inputs", "schedules", "configurations"], "all graphs, times, options and worker orders",
     "tests call one strategy on one random matrix",
     [TN, S + "parallel_expm.py"], [("component-wise", TN + ":compute_subspace_expm, sparse_lapl_expm"), ("parallel", S + "parallel_expm.py")],
     "All labelled graphs up to 4 nodes x options x task orders, plus components beyond the 1000-node switch.",
     "exhaustive bounded exploration with a controlled pool")
prop("C20", "Synthetic networks obey the interaction rules for every random outcome",
     "For every sequence of random draws, the generated contacts join two different individuals allowed by the selected rule, start no earlier than the simulation start and end no earlier than they start, no two contacts with the same initiator and partner overlap, contacts are listed in order of their end, durations and activations follow the draws of the individual concerned, and recorded states are the contacts active at their time.",
     ["schedules", "inputs"], "all outcomes of the random draws within the bound",
     "tests run a few seeds",
     [S + "synth_temp_network.py"], [("event queue", S + "synth_temp_network.py:SynthTempNetwork.run"), ("partner choice", S + "synth_temp_network.py:SynthTempNetwork.get_new_partner")],
     "The random draws are controlled; every combination of draws is executed and compared with a reference simulation.",
     "stateless exploration of all random choices against a reference simulation")
prop("C21", "Compiled kernels and their Python substitutes agree",
     "Every compiled kernel returns the same result as its pure-Python substitute and as the dense definition on every valid input, including empty rows, empty index sets and empty matrices, and neither reads nor writes outside its arguments.",
     ["inputs"], "all valid inputs of each kernel",
     "tests compare kernels and substitutes on a few random matrices",
     [CY, CF, S + "_cython_subst.py", S + "_cython_sparse_stoch_subst.py"], [("kernels", CY), ("kernels", CF), ("substitutes", S + "_cython_subst.py")],
     "All small CSR inputs over a value alphabet (all supports), index sets and partitions; both implementations and a dense definition.")
prop("C22", "Static clustering uses the stationary walk of the given graph",
     "For every static graph, dense or sparse, the covariance set up for Markov stability is diag(pi) T(t) - pi pi^T with pi the stationary distribution of the walk (degree-proportional for undirected graphs, eigenvector of eigenvalue one for strongly connected directed ones) and T(t) the exponential, linearised or discrete-time propagator as requested.",
     ["inputs", "configurations"], "all graphs, times and options",
     "tests use one graph",
     [NC], [("set-up", NC + ":static_clustering")],
     "All labelled undirected graphs and all strongly connected digraphs up to 4 nodes x options.")
prop("C23", "The aggregated static network sums contact durations exactly",
     "The static adjacency of a window holds for every pair of nodes exactly the total time the pair was in contact inside the window, symmetric, for every contact sequence and window.",
     ["inputs"], "all contact sequences and windows",
     "tests check one network without window",
     [TN], [("aggregation", TN + ":ContTempNetwork.compute_static_adjacency_matrix")],
     "All contact sequences of up to 3 contacts, all windows on, between and outside the event times.")
prop("C24", "Sparse helper operations equal their dense definitions",
     "Row normalisation (to a scalar or per-row sum), diagonal scaling from either side, trimming of small values and rounding to one, sparse product, Gram matrix, outer product, rebuilding from non-trivial rows and removing trivial rows give on every sparse matrix the result of the dense definition and keep the matrix valid; the spectral gap of the Laplacian of a connected graph is its second smallest eigenvalue.",
     ["inputs"], "all sparse matrices and arguments",
     "tests use a few random matrices without empty rows or special values",
     [SM, TN, CY], [("helpers", SM), ("helpers", TN + ":set_to_zeroes, set_to_ones, csc_row_normalize, remove_nnz_rowcol, numpy_rebuild_nnz_rowcol")],
     "All matrices up to 3x3 over a value alphabet including zeros and negative values, all arguments.")

SC = S + "scripts/"
prop("C25", "run_laplacians_transmats leaves the requested matrices of every time slice",
     "For every network file, slicing (number, length or list of slices, start and end), list of resolutions, batches, skipped intervals, matrix options, order in which worker processes take the slices, and interruption between two saved files followed by a rerun with the same or more requests, the save directory of run_laplacians_transmats ends up with exactly one file per requested kind of matrix, resolution and slice; the slices tile the analysed period without gap or overlap, and each file holds the inter-event matrices, products, flow integrals or static adjacencies of its slice that direct computation gives.",
     ["inputs", "configurations", "schedules", "crash_points"], "every network, slicing, option combination, worker order and interruption point between two files",
     "no test runs the script; results depend on which files already exist and which worker finishes first",
     [SC + "run_laplacians_transmats.py", TN], [("slicing and resumption", SC + "run_laplacians_transmats.py:worker")],
     "The real script runs in process with its worker pool replaced by one that executes the tasks in every order; a crash is injected before every file operation, followed by a rerun; every file is compared with the reference model.",
     "exhaustive enumeration of worker orders and crash points of the real script, against a reference model")
prop("C26", "run_cov_integrals writes the integrated flow of every requested pair of times",
     "For every set of slice files, grid of integration points, resolution, direction, approximation, order of the worker tasks, and interruption between two saved files followed by a rerun with the same, a longer or a finer grid or more requests, whatever the name of the network and whatever slices of other networks lie in the same directory, run_cov_integrals leaves one file per requested ordered pair of grid points with the upper triangle of the integral over t of T(t) P(t)^-1 T(t)^T and its integration time as direct computation from the contacts gives, and no file for pairs not requested.",
     ["inputs", "configurations", "schedules", "crash_points"], "every network, grid, direction, option combination, worker order and interruption point between two files",
     "no test runs the script; resumption depends on which files exist",
     [SC + "run_cov_integrals.py"], [("integration and resumption", SC + "run_cov_integrals.py:worker")],
     "The real script runs in process on slice files of enumerated networks, in every task order and with a crash before every file operation followed by a rerun; every file is compared with the reference model.",
     "exhaustive enumeration of worker orders and crash points of the real script, against a reference model")
prop("C27", "run_clusterings reports consistent ensembles of partitions of saved integrals",
     "For every covariance integral, mode (all nodes, largest component, separate components, given initial distribution, static network), number of repetitions, seeds, worker order and interruption between two saved files followed by a rerun, run_clusterings leaves one result file per integral in which the counted partitions cover the nodes once each, the stabilities are those of the counted partitions in the covariance of the integral, the best partition and stability, averages and variation of information are those of the ensemble, and, with separate components, no cluster spans two components.",
     ["inputs", "configurations", "schedules", "crash_points"], "every integral, mode, number of repetitions, seed, worker order and interruption point between two files",
     "no test runs the script; the reported statistics must agree with one another on every ensemble",
     [SC + "run_clusterings.py", NC], [("ensembles", SC + "run_clusterings.py:worker"), ("loading of integrals", SC + "run_clusterings.py:load_autocov_int")],
     "The real script runs in process on integrals of enumerated networks in all modes, with enumerated seeds, in every task order and with a crash before every file operation followed by a rerun; all reported numbers are recomputed.",
     "exhaustive enumeration of modes, seeds, worker orders and crash points of the real script, against a reference model")

prop("C28", "An interrupted computation never passes for a finished one",
     "A computation of Laplacians, adjacencies, inter-event matrices, their products or linear variants, a step of an analysis, or a search of a flow clustering that is stopped part-way by an exception (an interrupt or lack of memory at any call into NumPy or SciPy) leaves each stored result as it was, absent or complete, never truncated; repeating the stopped call and finishing gives exactly what an uninterrupted run gives, and continuing with any later call instead either fails or gives a result an uninterrupted run could give.",
     ["crash_points", "histories"], "every computing call or step, from every earlier state of the object, and every point at which it may be stopped",
     "tests never interrupt a computation",
     [TN, FS, NC], [("computations", TN + ":ContTempNetwork.compute_laplacian_matrices, compute_inter_transition_matrices, compute_transition_matrices"), ("steps", FS + ":FlowStability"), ("searches", NC + ":FlowIntegralClustering.find_louvain_clustering")],
     "The real calls are stopped at every call into NumPy/SciPy (the stop is moved on by one until the computation completes), from every state reached by enumerated earlier calls, then repeated and continued.",
     "exhaustive fault injection: every crash point of every computing call, against uninterrupted runs")
prop("C29", "Classes built on the state tracking obey their declared order",
     "For every class declared with StateMeta and register, whatever states, steps and settings it declares and in whatever order the states are defined: a new object starts in the state of lowest value with nothing set; a step runs exactly when the current state is at least its minimal state and every setting belonging to that state or an earlier one is set, then leads to its declared next state and returns what the method returns; otherwise it warns, naming the step and what is missing, and changes nothing; a setting that is set moves the object back to the state of the setting if it was further on, None unsets it unless None is declared a value, and a failing setter or step changes nothing; the reported missing settings and next step agree with this; objects of one class never influence each other; states of one enumeration are totally ordered by value.",
     ["histories", "configurations"], "every declaration of states, steps and settings, and every sequence of setter and step calls",
     "tests declare one class with one setting and one step",
     [S + "state_tracking.py"], [("declaration", S + "state_tracking.py:StateMeta"), ("guard", S + "state_tracking.py:StateMeta.register"), ("report", S + "state_tracking.py:State.next")],
     "Classes are generated from all small declarations; for each, the reachable state space of a reference machine is searched completely and every operation in every state executed on real objects.",
     "explicit-state search of generated classes in lockstep with a reference state machine")
prop("C30", "Saved results are complete or not there",
     "Wherever a process is killed while it saves a network, inter-event or cumulative transition matrices, or runs one of the scripts, every result file afterwards either does not exist, is the file that was there before, or is the complete new one, never a part of one (only files named *.tmp may be unfinished); other files are untouched; and saving or running the script again gives exactly what an undisturbed run gives, also when unfinished files of killed runs lie in the data directory. A write error (full disk) during a save is reported, and leaves no unfinished file.",
     ["crash_points", "histories"], "every save, earlier content of the directory, and every point at which the process may die, inside a write included",
     "tests never kill a process; whether a rerun takes a part of a file for a result depends on where exactly the process died",
     [TN, SC + "run_laplacians_transmats.py", SC + "run_cov_integrals.py", SC + "run_clusterings.py", S + "helpers.py"],
     [("saves", TN + ":ContTempNetwork.save, save_inter_T, save_inter_T_lin, save_T, save_T_lin"), ("scripts", SC + "run_laplacians_transmats.py:worker"), ("completion", S + "helpers.py:complete_file")],
     "The real saves and scripts run on a file layer that splits every write and dies before, in and after every file operation (the death is moved on by one until the run completes); then everything is read, and the save or script run again.",
     "exhaustive enumeration of crash points and torn writes of the real saves and scripts, against undisturbed runs")

prop("C31", "Results do not depend on names, orders, time origin or time unit",
     "Renaming or renumbering the nodes, listing the contacts in another order or with swapped ends, shifting all times (contacts, window and integral grid), or expressing all times and time scales in another unit gives the same Laplacians and flow covariances of every time scale and direction, matched by node name, and static weights in the new unit; reversing time exchanges the forward and the backward covariances. This holds for exact and linear matrices, the default time scale, windows and integral grids.",
     ["inputs", "configurations"], "every contact sequence, analysis setting and transformation",
     "a test fixes one representation of one network and cannot tell that another one gives the same answer",
     [TN, FS, NC], [("analysis", FS + ":FlowStability"), ("labels", TN + ":ContTempNetwork.__init__"), ("times", TN + ":ContTempNetwork.compute_laplacian_matrices"), ("covariances", NC + ":FlowIntegralClustering")],
     "Every small network is analysed with the real code in every renaming, order, orientation, shifted, rescaled and reversed form; all forms must agree.",
     "exhaustive enumeration of equivalent executions (symmetry group of the input) on the real code")

NOT_APPLICABLE = []


def main(available):
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b if isinstance(b, str) else b[0]) for a, *b in
                                        [(m[0], m[1]) for m in p["mech"]]],
                             hook_needed=None))) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick",
                   thorough_cmd=f"bash run.sh {p['id']} thorough",
                   evidence_file=f"evidence/{p['id']}.json", technique=p["technique"],
                   level="model_checking",
                   level_note=p["note"] + " Exhaustive within the stated bounds; nothing outside them is explored. Trusts numpy/scipy dense arithmetic and the reference model in fsmc/ref.py.")
              for p in P if p["id"] in available]
    na = [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in available] + NOT_APPLICABLE
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash run.sh --build", checks=checks, not_applicable=na,
                       notes="No hooks in /repo: every check imports the library from /repo's working tree (rebuilt first) and drives its public interface."), f, indent=1)


if __name__ == "__main__":
    av = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f.endswith(".py")}
    main(av)
