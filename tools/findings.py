import json
F = """ade4ae7 C01 set_flow_clustering(p1=wrong length) after a finished analysis kept the earlier clusterings, which find_louvain_clustering then used
dfd6735 C01 compute_inter_transition_matrices(linear_approx=True, time_scale=-1) failed but switched the next flow clustering to the linear matrices
fff14d1 C20 block_probs with a zero row (a group that initiates nothing) crashed with nan probabilities
e825652 C21 a sparse clustering with the Python substitutes crashed on the typed index arrays
6439e76 C24 sparse_outer([0,2,0]) crashed
4076657 C16 merging [(0,1,0,1),(1,0,0,1)] style overlapping contacts could drop every event of the pair
e21c444 C03 contacts (0,1,1,2),(0,1,0,1) in this row order: the second contact was switched off when the first ended
b37983d C15 a loaded network reused matrices computed with other options
a49c116 C13 norm_mutual_information([{0,1}],[{0,1}]) divided by zero
9fe4484 C13 norm_var_information of cluster lists with an empty cluster was nan
fbed14d C08 SparseAutocovMat.aggregate rescaled p1, p2 that do not sum to one
c810c56 C24 inplace_diag_matmul_csr / inplace_csr_matmul_diag of a 1x1 matrix crashed
3787de0 C09 SparseClustering(T=SparseStochMat) crashed
894a29f C07 ndarray @ SparseStochMat returned an object array
3050aef C20 individuals given in another order than their IDs used the group and rates of other individuals
26d1a82 C02 flow clustering after linear inter-event matrices used the exact ones or failed
5323d7c C01 compute_inter_transition_matrices(time_scale=..) / (lamda=..) ignored the argument
744dd4a C12 flow clustering of a window used the event times of the whole network
bb292fb C01 a FlowStability with time_direction 1 or -1 refused to find the clustering
ea1d812 C01 assigning temporal_network left the state at INITIAL
e2c52fd C18 parallel sparse clustering rebuilt another autocovariance in the workers
945f681 C22 the stationary distribution of directed graphs was taken from an arbitrary eigenvalue
dd897e3 C10 aggregating clusters with only zero rows in T gave nan
be3598c C10 Louvain started from a non-singleton partition mixed up nodes and meta nodes
7fbd0bd C13 jaccard_distance returned None
ef06b4d C02 cached matrices were returned for a request with other parameters
48ca279 C02 compute_transition_matrices(tol=..) changed the inter-event matrices
4d99693 C14 files holding both sparse stochastic and csr matrices could not be loaded
a960979 C14 save_inter_T for all rates crashed or wrote stale matrices, and rounding changed the matrices in memory
ad4ea51 C14 delta encoding rounded all negative differences to zero
575733a C17 instantaneous networks from an events_table (and loaded ones) were not initialised
03168d1 C05 linear matrix of an empty window in the sparse format crashed
0924647 C02 matrices of the previous window were kept when the Laplacians were recomputed
d2d8c0f C16 merging nested contacts truncated the union
270fd36 C16 relabel_nodes with a DataFrame or a CSV did not relabel
f10debe C21 the row-normalisation substitute wrote a constant
f8134c8 C21 cython_nvi_parallel started from an uninitialised accumulator
1537351 C21 substitutes of several kernels were missing or incomplete
2fd9c02 C21 sparse_stoch_from_full_csr wrote outside its buffers
15fd6b6 C21 move gains of a node with an empty PT row read out of the row
78cf757 C24 row normalisation of a sparse matrix with 64 bit indices crashed
d8aa4f3 C03 any window bound crashed with NumPy 2
2ec7a93 C25 run_laplacians_transmats passed verbose to methods that do not take it and computed nothing
dc43c22 C25 run_laplacians_transmats --save_flow_int used an attribute that does not exist
0a0fa15 C25 run_laplacians_transmats skipped kinds of matrices requested in a later run
27a160f C26 run_cov_integrals could not be resumed with expm and lin together or without slice transition matrices
90592cd C27 run_clusterings --integral_rtol failed on coo integrals
2fcf911 C27 run_clusterings --separate_comps counted meta nodes in the stabilities and missed singletons
795a754 C27 run_clusterings failed to resume from temporary results
5476bbb C27 run_clusterings never saved the labels of the components
e352f6a C24 find_spectral_gap returned something else than the spectral gap
2824374 C14 delta-encoded linear sparse stochastic matrices lost all negative differences (set_to_zeroes ignored use_absolute_value)
18ba2ea C16 event tables with a named index or a column called index failed or gave other Laplacians
bc4aacb C16 event tables with repeated index values lost contacts when merging
28ca430 C01 time scales given as an iterator were used up before the analysis
eb88c0a C03 contacts (0,1,0,1),(0,1,0,0): the contact without a duration ended the other one
c187a34 C15 networks saved as net.1 and net.2 were both written to net.pickle
3232994 C28 after an interrupted computation the truncated list of Laplacians, inter-event matrices or products was used as the complete one
8ee561f C28 a finished analysis whose Laplacians were recomputed and interrupted went on with the whole period instead of its window
3dd3fbc C30 a process killed while saving left a part of a file that reruns of the scripts took for a finished result and readers could not load
f512e3a C26 run_cov_integrals mixed up the slices of networks in one directory and failed on names such as a_week"""
out = []
for l in F.splitlines():
    c, p, w = l.split(" ", 2)
    out.append(dict(id=f"F-{c}", property=p, status="fixed", commit=c, what=w, entry=f"fixed: property={p} {c} {w}"))
json.dump({"findings": out}, open("/verif/known_findings.json", "w"), indent=1)
