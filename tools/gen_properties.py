"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json
import os

B = "src/cognitivefactory/interactive_clustering/"
P = []


def p(pid, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [B + f for f in files], "mechanism": [{"name": n, "where": B + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Inferred constraints are exactly the transitive closure of recorded ones",
  "After any history of adding and deleting constraints and data IDs, the constraint inferred between two managed IDs is MUST_LINK exactly when a chain of recorded MUST_LINK constraints joins them (an ID with itself included), CANNOT_LINK exactly when a recorded CANNOT_LINK joins the MUST_LINK groups of the two, and none otherwise. The answer does not depend on the order of the two arguments, on the order in which constraints were added, or on how the IDs sort.",
  ["histories", "inputs"], "every history of manager operations, every sort order of the IDs, every ordered pair of IDs",
  "Unit tests replay a few scripted constraint sequences on fixed IDs given in sorted order; a closure error needs a particular merge order of groups and separations.",
  ["constraints/binary.py"], [("incremental closure update", "constraints/binary.py:_add_constraint_transitivity"), ("closure rebuild", "constraints/binary.py:_generate_constraints_transitivity"), ("lookup", "constraints/binary.py:get_inferred_constraint")],
  ["get_inferred_constraint"])
p("C02", "Contradictory or invalid constraints are refused and change nothing",
  "Adding a constraint fails with a ValueError exactly when an ID is not managed, the type is not one of the two allowed ones, or the opposite constraint is already inferred between the two IDs (CANNOT_LINK between an ID and itself included); every other addition is accepted and reported as done. A refused addition leaves every observable of the manager as it was, so no history of additions can leave two IDs both linked and separated.",
  ["histories", "inputs"], "every reachable set of constraints, every ordered pair of IDs and type, invalid IDs and types",
  "Tests exercise one direct contradiction; contradictions that only follow from a chain, and partial updates before an exception, need particular histories.",
  ["constraints/binary.py"], [("contradiction test against the inferred constraint", "constraints/binary.py:add_constraint")], ["add_constraint", "get_added_constraint", "get_inferred_constraint"])
p("C03", "Recorded constraints are returned exactly as added, in either argument order",
  "For two different managed IDs, the recorded constraint is the type first accepted for that pair with value 1.0 if it has not been deleted since, and none if no constraint was recorded for that very pair; inference never creates a recorded constraint, and adding the same constraint again changes nothing. The answer is the same for both argument orders, whatever the sort order of the IDs.",
  ["histories", "inputs"], "every history of manager operations, every sort order of the IDs, every ordered pair",
  "The half-matrix storage depends on how two IDs compare; tests use a few IDs that are already sorted.",
  ["constraints/binary.py"], [("half-matrix keyed by ID order", "constraints/binary.py:add_constraint"), ("lookup", "constraints/binary.py:get_added_constraint")], ["get_added_constraint"])
p("C04", "The set of managed data IDs follows additions and deletions exactly",
  "The managed IDs are those given at creation plus those added minus those deleted, each exactly once; a newly added ID, including one that was deleted before, starts without any recorded or inferred constraint to another ID, and the other IDs keep theirs. Adding a managed ID, deleting an unmanaged one, or asking about an unmanaged one raises a ValueError and changes nothing.",
  ["histories", "inputs"], "every reachable set of constraints, every ID added, deleted or re-added, every sort order",
  "Tests add and delete IDs on one or two fixed managers; leftovers of a deleted ID show only when it is re-added or sits inside a particular group.",
  ["constraints/binary.py"], [("ID insertion", "constraints/binary.py:add_data_ID"), ("ID removal and closure rebuild", "constraints/binary.py:delete_data_ID")], ["get_list_of_managed_data_IDs", "get_added_constraint", "get_inferred_constraint"])
p("C05", "Deleting a constraint or an ID retracts exactly what depended on it",
  "After deleting a constraint or a data ID, recorded constraints, inferred constraints and groups are the same as in a fresh manager that only ever received the remaining constraints. Deleting a constraint between two different IDs that was never recorded changes nothing, and constraints that had been blocked only by the deleted one can be added afterwards.",
  ["histories"], "every reachable set of constraints, every deletion, followed by further operations",
  "Retraction must forget inferences reached through the deleted constraint but keep those still supported another way; tests cover one deletion on one graph.",
  ["constraints/binary.py"], [("closure rebuild after deletion", "constraints/binary.py:_generate_constraints_transitivity"), ("deletion", "constraints/binary.py:delete_constraint"), ("ID removal", "constraints/binary.py:delete_data_ID")], ["get_inferred_constraint", "get_added_constraint", "get_connected_components", "add_constraint"])
p("C06", "Connected components partition the IDs by MUST_LINK",
  "The connected components are non-empty lists in which every managed ID appears exactly once over all of them, and two IDs share a component exactly when MUST_LINK is inferred between them.",
  ["histories", "inputs"], "every reachable set of constraints and every history of operations",
  "Components are read off cached per-ID sets and de-duplicated by comparing ordered lists; a duplicate or split component needs a particular merge order.",
  ["constraints/binary.py"], [("component listing", "constraints/binary.py:get_connected_components"), ("shared group sets", "constraints/binary.py:_add_constraint_transitivity")], ["get_connected_components"])
p("C07", "Constraints are reported complete exactly when every pair is determined",
  "The completeness check answers true exactly when a constraint (recorded or inferred) holds between every two managed IDs, and false as soon as one pair is undetermined, whatever the history of additions and deletions.",
  ["histories", "inputs"], "every reachable set of constraints, also after deletions and ID changes",
  "It compares set sizes; stale or duplicated entries make the count match by accident only on particular graphs.",
  ["constraints/binary.py"], [("size comparison", "constraints/binary.py:check_completude_of_constraints")], ["check_completude_of_constraints"])
p("C08", "The proposed range of cluster numbers is sound for the constraints",
  "The proposed maximum number of clusters is the number of MUST_LINK groups. The proposed minimum is at least 2, is at least the number of clusters needed to keep all CANNOT_LINK groups apart, and is at most one more than the largest number of other groups any group must be kept apart from (or 2 when that is smaller); asking for it changes nothing.",
  ["inputs", "schedules"], "every consistent set of constraints on a non-empty set of IDs, every outcome of the randomised colourings",
  "The estimate comes from greedy colourings, some randomised; tests check a handful of graphs.",
  ["constraints/binary.py"], [("greedy colouring of the CANNOT_LINK graph", "constraints/binary.py:get_min_and_max_number_of_clusters")], ["get_min_and_max_number_of_clusters"])
p("C09", "Conflict analysis lists exactly the IDs of the two groups involved",
  "Asking which IDs are involved in a prospective constraint between two managed IDs answers nothing when the constraint could be added, and otherwise lists every ID of the MUST_LINK groups of both IDs exactly once and no other ID. Unmanaged IDs or unknown types raise a ValueError, and asking never changes the manager.",
  ["inputs", "histories"], "every reachable set of constraints, every ordered pair and type",
  "Only one or two conflicts are tested; the listing must agree with the acceptance rule on every graph.",
  ["constraints/binary.py"], [("conflict listing", "constraints/binary.py:get_list_of_involved_data_IDs_in_a_constraint_conflict")], ["get_list_of_involved_data_IDs_in_a_constraint_conflict"])
p("C10", "Saving to JSON and loading back gives an equivalent manager",
  "A manager written to a JSON file and loaded back manages the same IDs and gives the same recorded constraints, inferred constraints, groups and cluster bounds, for any ID texts and sort orders and after any history including deletions. Writing does not change the manager, the loaded manager is independent of it, and the file can be overwritten by a later save.",
  ["inputs", "histories"], "every reachable set of constraints, ID texts including empty, non-ASCII and quote characters, every sort order",
  "Tests round-trip one manager; the loader re-adds constraints in file order and must accept every order.",
  ["constraints/binary.py"], [("serialisation", "constraints/binary.py:to_json"), ("loading by re-adding", "constraints/binary.py:load_constraints_manager_from_json")], ["to_json", "load_constraints_manager_from_json"])
p("C11", "Sampled pairs are eligible, distinct, ordered and as many as possible",
  "A sample holds exactly the smaller of the requested number and the number of eligible pairs, each an ordered pair of two different managed IDs with the first sorting before the second, with no repetition. A pair is eligible when it has no recorded constraint (unless that filter is off), no inferred constraint (unless that filter is off), and both IDs are in the same predicted cluster or in different ones as the chosen strategy requires.",
  ["inputs", "configurations", "schedules"], "every constraint set, clustering result, ID sort order, filter setting, strategy, requested number and random outcome",
  "Tests check fixed samples for a fixed seed on one data set; wrong filtering shows only for particular mixes of recorded, inferred and clustered pairs.",
  ["sampling/clusters_based.py", "sampling/factory.py"], [("pair filtering", "sampling/clusters_based.py:sample"), ("strategies", "sampling/factory.py:sampling_factory")], ["sample"])
p("C12", "Distance-based sampling returns the truly closest or farthest pairs in order",
  "When pairs are selected by distance, the returned pairs are ordered from closest to farthest (respectively farthest to closest) by Euclidean distance between the vectors of their IDs, and no eligible pair left out is strictly closer (respectively farther) than one that was returned. The vectors used are those of the two IDs, whatever the order of the managed IDs and whatever other entries the dictionary of vectors holds.",
  ["inputs", "configurations"], "every set of pairwise distances, every constraint set and clustering result",
  "Tests compare against stored outputs for one embedding; a misaligned row or a wrong sort direction can agree with them.",
  ["sampling/clusters_based.py"], [("pairwise distances by ID", "sampling/clusters_based.py:sample")], ["sample"])
p("C13", "Sampling is reproducible for a seed and leaves its inputs untouched",
  "With a given random seed, two calls on equal inputs return the same pairs, with the same sampler object or with a new one, whatever the global random state before the call and the hash seed of the interpreter. Sampling never changes the constraints manager, the clustering result or the vectors it was given.",
  ["schedules", "inputs", "histories"], "every state of the global random generator, every input",
  "Tests fix the seed and run once; a draw made before seeding or a mutated argument is invisible to them.",
  ["sampling/clusters_based.py"], [("seeding before drawing", "sampling/clusters_based.py:sample")], ["sample"])
p("C14", "K-means clustering never violates a MUST_LINK or CANNOT_LINK constraint",
  "Whatever the vectors, number of clusters, iteration limit and random initialisation, the K-means result puts IDs with an inferred MUST_LINK in the same cluster and IDs with an inferred CANNOT_LINK in different clusters, even when that requires more clusters than requested.",
  ["inputs", "configurations", "schedules"], "every vectors, consistent constraint set, requested number, iteration limit and initial shuffle",
  "Tests check a few runs on one small corpus; violations depend on the assignment order and on ties.",
  ["clustering/kmeans.py"], [("constrained assignment", "clustering/kmeans.py:_clustering_kmeans_model_COP")], ["cluster"])
p("C15", "Hierarchical clustering never violates a MUST_LINK or CANNOT_LINK constraint",
  "Whatever the linkage, vectors and requested number of clusters (2 or more), IDs with an inferred MUST_LINK share a cluster and IDs with an inferred CANNOT_LINK do not; the same holds when clusters are recomputed for another number of clusters from the same run.",
  ["inputs", "configurations"], "every vectors, linkage, consistent constraint set, requested number and splitting rule",
  "Tests check few runs on one corpus; the infinite-distance barrier must survive every merge order.",
  ["clustering/hierarchical.py"], [("CANNOT_LINK as infinite distance", "clustering/hierarchical.py:_compute_distance"), ("tree cut", "clustering/hierarchical.py:compute_predicted_clusters")], ["cluster", "compute_predicted_clusters"])
p("C16", "Hierarchical clustering merges the closest admissible groups at every step",
  "The merge tree starts from the MUST_LINK groups, and each step merges two current groups that contain no CANNOT_LINK pair and whose distance under the chosen linkage (single: smallest distance between IDs of the two groups; complete: largest; average: distance between the mean vectors; ward, as implemented here: sum of the distances between all pairs of IDs inside the union, divided by the product of the two sizes) is minimal among all admissible pairs, until no admissible pair remains; remaining groups are joined under one root. Every node holds exactly the IDs of its children.",
  ["inputs", "configurations"], "every vectors, linkage and consistent constraint set",
  "Tests compare final labels on one corpus; a wrong linkage formula or a stale distance can give the same labels there.",
  ["clustering/hierarchical.py"], [("closest pair search", "clustering/hierarchical.py:_get_the_two_clostest_clusters"), ("linkage distances", "clustering/hierarchical.py:_compute_distance"), ("tree nodes", "clustering/hierarchical.py:Cluster")], ["clustering_root"])
p("C17", "K-means ends in a nearest-centroid state with centroids matching its clusters",
  "When K-means stops by convergence and there are no constraints, every ID is in a cluster whose mean vector is (up to the tolerance) at least as near to it as the mean of any other returned cluster. The centroids kept by the model after a run are the means of the returned clusters, keyed by the returned cluster labels, with or without constraints.",
  ["inputs", "configurations", "schedules"], "every vectors, requested number and initial shuffle",
  "Tests compare labels on one corpus; a stale distance table or centroid keyed by an old label does not change them.",
  ["clustering/kmeans.py"], [("assignment to the nearest centroid", "clustering/kmeans.py:_clustering_kmeans_model_COP"), ("centroid update", "clustering/kmeans.py:compute_centroids")], ["cluster", "centroids"])
p("C18", "Every managed ID gets exactly one cluster label, numbered by ID sort order",
  "A clustering result has exactly the managed IDs as keys. Its cluster labels are 0, 1, ..., k-1, numbered in the order in which clusters are first met when the IDs are visited in sorted order, so that equal partitions always get equal labels (noise labels of density clustering and the not-converged label of affinity propagation aside).",
  ["inputs", "configurations"], "every ID sort order and insertion order, every partition produced by an algorithm",
  "Tests use IDs inserted in sorted order, where numbering by insertion and by sort order coincide.",
  ["clustering/abstract.py", "clustering/kmeans.py", "clustering/hierarchical.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py"], [("renumbering", "clustering/abstract.py:rename_clusters_by_order")], ["cluster", "rename_clusters_by_order"])
p("C19", "Spectral clustering uses the constraint-adjusted similarities, aligned with IDs",
  "Spectral clustering groups the IDs by the labels obtained from the spectral solver for the similarity matrix whose rows follow the managed IDs, with similarity 1 for every inferred MUST_LINK pair, 0 for every inferred CANNOT_LINK pair and the RBF similarity of the two vectors otherwise. The requested number of clusters (never more than the number of IDs) and the random seed are passed on to the solver.",
  ["inputs", "configurations", "histories"], "every vectors, constraint set (direct and inferred), ID order and solver answer",
  "Tests compare final labels on one corpus; a misaligned row or an ignored inferred constraint may not change them.",
  ["clustering/spectral.py"], [("similarity adjustment", "clustering/spectral.py:clustering_spectral_model_SPEC"), ("row order", "clustering/spectral.py:cluster")], ["cluster", "pairwise_similarity_matrix"])
p("C20", "Affinity propagation keeps MUST_LINK groups together",
  "With absolute MUST_LINK handling (the default), affinity propagation gives the same label to all IDs of a MUST_LINK group, for every arrangement of vectors, including vectors that are all at the same distance from each other and runs that stop at the iteration limit.",
  ["inputs", "configurations"], "every vectors and MUST_LINK groups, iteration limits and seeds",
  "Tests use one corpus where similarities differ; the special path for equal similarities is not tested with constraints.",
  ["clustering/affinity_propagation.py"], [("group-level similarities", "clustering/affinity_propagation.py:_affinity_propagation_constrained")], ["cluster"])
p("C21", "Metric-learning K-means returns the requested number of non-empty clusters",
  "For vectors that are pairwise different, metric-learning K-means (MPC-KMeans) returns for every managed ID one label, uses exactly the requested number of clusters (at most the number of IDs), and leaves none of them empty, whatever the constraints and random draws; IDs not managed by the constraints manager never appear in the result.",
  ["inputs", "configurations", "schedules"], "every pairwise different vectors, consistent constraint set, requested number and random draw",
  "Tests run one corpus; empty clusters and the refill step appear only for particular initial draws.",
  ["clustering/mpckmeans.py"], [("empty cluster refill", "clustering/mpckmeans.py:_assign_clusters"), ("initial centres", "clustering/mpckmeans.py:_initialize_cluster_centers")], ["cluster"])
p("C22", "Density clustering separates CANNOT_LINK IDs and reports noise consistently",
  "Density-based clustering labels every managed ID; regular clusters are numbered from 0 and contain no pair with an inferred CANNOT_LINK, noise points get distinct negative labels -1, -2, ..., and the reported numbers of regular clusters, noise points and clusters equal what the labels show. An ID with neither a constraint nor another ID within the neighbourhood radius is noise whenever the neighbourhood must hold at least two points.",
  ["inputs", "configurations"], "every set of pairwise distances, radius, minimum neighbourhood size and consistent constraint set",
  "Tests run one corpus with fixed radius; local-cluster splitting and merging paths depend on the exact neighbourhoods.",
  ["clustering/dbscan.py"], [("local cluster splitting and merging", "clustering/dbscan.py:cluster")], ["cluster", "number_of_clusters"])
p("C23", "Clustering with a fixed seed is reproducible",
  "For every clustering algorithm created with a random seed, two runs on equal inputs give equal results, on the same object or on a new one, whatever the global random state before each run and the hash seed of the interpreter (the iteration order of sets of IDs).",
  ["schedules", "inputs", "histories"], "every state of the global random generators, every input",
  "Tests run once per seed; a draw that ignores the seed is invisible unless two runs are compared from different generator states.",
  ["clustering/kmeans.py", "clustering/hierarchical.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py", "clustering/dbscan.py"], [("seeding", "clustering/kmeans.py:initialize_centroids"), ("seed passed to the solver", "clustering/spectral.py:clustering_spectral_model_SPEC"), ("seed of degeneracy noise", "clustering/affinity_propagation.py:_affinity_propagation_constrained")], ["cluster"])
p("C24", "Clustering leaves the constraints manager and the vectors unmodified",
  "Running any clustering algorithm leaves the constraints manager (managed IDs and their order, recorded and inferred constraints, groups) and the dictionary of vectors (keys, order, values) exactly as they were, so that they can be reused for the next iteration.",
  ["inputs", "histories"], "every algorithm, vectors, constraint set and requested number",
  "Tests never look at the arguments after the call; an aliased list or an in-place update corrupts only the next iteration.",
  ["clustering/kmeans.py", "clustering/hierarchical.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py", "clustering/dbscan.py"], [("copies of manager lists", "clustering/kmeans.py:_clustering_kmeans_model_COP")], ["cluster"])
p("C25", "A clustering object can be reused: no state leaks between runs",
  "Running a clustering object on one input after another gives, for the second input, the same result and the same published attributes (cluster counts, tree, centroids) as a fresh object with the same settings, and the settings of the object stay as given.",
  ["histories", "inputs"], "every pair of successive inputs (different IDs, constraints, vectors and numbers of clusters)",
  "Tests create a new object for each run.",
  ["clustering/kmeans.py", "clustering/hierarchical.py", "clustering/dbscan.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py"], [("per-run reinitialisation", "clustering/hierarchical.py:cluster")], ["cluster"])
p("C26", "Parameters are accepted or refused exactly at their documented bounds",
  "Clustering and sampling constructors and calls raise a ValueError exactly for the documented invalid values (unknown names; iteration limits, minimum sizes below 1; numbers of clusters or components below 2; negative tolerance, weight or requested number; radius of 0 or less; a number of clusters given to algorithms that take none; arguments of the wrong kind) and accept every other value, keeping it as given. The number of clusters is never required to be at most the number of IDs.",
  ["inputs", "configurations"], "every integer and real parameter value",
  "Tests probe one value on each side of a few bounds.",
  ["clustering/kmeans.py", "clustering/hierarchical.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py", "clustering/dbscan.py", "sampling/clusters_based.py", "sampling/factory.py", "clustering/factory.py", "constraints/factory.py"], [("constructor checks", "clustering/kmeans.py:__init__"), ("call checks", "clustering/kmeans.py:cluster"), ("factory name checks", "clustering/factory.py:clustering_factory")], [])
p("C27", "Cluster frequencies are exact shares of the IDs",
  "The frequency analysis of a clustering result returns exactly the labels that occur, in increasing order (negative labels included), each mapped to the share of IDs having that label; the shares sum to 1 and an empty result gives an empty answer. The result passed in is not changed.",
  ["inputs"], "every clustering result within the bound, including gaps and negative labels",
  "Tests check two examples.",
  ["utils/frequency.py"], [("counting", "utils/frequency.py:compute_clusters_frequency")], ["compute_clusters_frequency"])
p("C28", "Preprocessing keeps every key and exactly the tokens its options ask for",
  "Preprocessing returns one text per given key, in the given order, made of the tokens of the language model for the lower-cased, punctuation-free text of that very key, in order and joined by single spaces: tokens that are white space, punctuation or quotes are always dropped, stop words only with stop-word deletion, tokens deeper than one ancestor in the parse only with the parsing filter, and lemmas replace words only with lemmatisation. Accents are removed from the result, and a missing language model is reported as a ValueError.",
  ["inputs", "configurations"], "every combination of the three options, every combination of token attributes, every text content of the model's answer within the bound",
  "The existing tests of this function need a language model that is not installed; the filter is a conjunction whose cases need particular token attributes.",
  ["utils/preprocessing.py"], [("token filter", "utils/preprocessing.py:preprocess")], ["preprocess"])
p("C29", "Vectorisation gives every ID the vector of its own text",
  "Vectorisation returns one row vector per given ID, in the given order, and the vector of an ID is the one computed from that ID's own text (TF-IDF row, or language-model vector), whatever the IDs and texts; an unknown vectoriser or a missing language model is reported as a ValueError.",
  ["inputs", "configurations"], "every set of IDs and texts within the bound, every answer of the vectoriser or model",
  "Tests compare one corpus with TF-IDF only; the language-model branch never runs in the tests.",
  ["utils/vectorization.py"], [("row alignment", "utils/vectorization.py:vectorize")], ["vectorize"])
p("C30", "Annotating until complete recovers the ground truth",
  "If pairs proposed by random sampling are annotated according to any ground-truth grouping, no annotation is ever refused, sampling proposes a new undetermined pair as long as the constraints are incomplete and none once they are complete, and K-means and hierarchical clustering with complete constraints return exactly the ground-truth grouping whatever the vectors.",
  ["histories", "inputs", "schedules"], "every ground-truth grouping, every sequence of sampled pairs, every vectors within the bound",
  "Tests exercise the modules separately; the end of the annotation loop is never reached.",
  ["constraints/binary.py", "sampling/clusters_based.py", "clustering/kmeans.py", "clustering/hierarchical.py"], [("filter of inferred pairs", "sampling/clusters_based.py:sample"), ("closure", "constraints/binary.py:_add_constraint_transitivity"), ("constrained assignment", "clustering/kmeans.py:_clustering_kmeans_model_COP")], ["sample", "add_constraint", "check_completude_of_constraints", "cluster"])
p("C31", "Vectors are looked up by ID: dictionary order and extra entries are irrelevant",
  "Clustering results (for a fixed seed) and distance-based samples do not change when the dictionary of vectors is given in another key order or holds additional entries for IDs that are not managed.",
  ["inputs", "configurations"], "every algorithm, every permutation of the dictionary, extra entries, every constraint set and vectors",
  "Tests always pass vectors in the order of the managed IDs.",
  ["clustering/kmeans.py", "clustering/hierarchical.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py", "clustering/dbscan.py", "sampling/clusters_based.py"], [("lookup by managed ID", "clustering/kmeans.py:_clustering_kmeans_model_COP")], ["cluster", "sample"])
p("C32", "The number of clusters returned follows the request and the constraints",
  "Without CANNOT_LINK constraints hierarchical clustering returns exactly the smaller of the requested number and the number of MUST_LINK groups whenever every MUST_LINK group is a single ID, and K-means never returns more clusters than requested; in all cases both return at least one cluster and at most as many as there are MUST_LINK groups.",
  ["inputs", "configurations"], "every vectors, requested number (also above the number of IDs), linkage and constraint set",
  "Tests check the count on one corpus.",
  ["clustering/kmeans.py", "clustering/hierarchical.py"], [("tree cut", "clustering/hierarchical.py:compute_predicted_clusters"), ("cap on the number of clusters", "clustering/kmeans.py:cluster")], ["cluster"])

p("C33", "The constraints manager owns its state: given and returned lists are copies",
  "Changing the list of IDs passed when a constraints manager was created, or any list a manager returned (managed IDs, MUST_LINK groups and their members, IDs of a conflict), never changes a later answer of that manager or another list it returned; lists returned earlier do not change with later operations; a manager created from the answers of another shares nothing with it.",
  ["histories", "inputs"], "every reachable set of constraints, every change of the exchanged lists, every later query",
  "Tests compare returned lists and throw them away; a shared list shows only when a caller changes it and asks again.",
  ["constraints/binary.py"], [("answers built anew", "constraints/binary.py:get_connected_components"), ("list of IDs", "constraints/binary.py:get_list_of_managed_data_IDs")], ["get_inferred_constraint", "get_added_constraint", "get_connected_components", "get_list_of_managed_data_IDs"])
p("C34", "Progress messages never change a clustering result",
  "For every clustering algorithm, a run with verbose=True completes, returns the same result as the run without it (same settings, seed and inputs) and leaves the manager as it was; without verbose nothing is printed. The result kept by the object is the one returned.",
  ["inputs", "configurations"], "every vectors, constraints and seed within the bound, each algorithm",
  "The verbose branches are excluded from test coverage.",
  ["clustering/kmeans.py", "clustering/hierarchical.py", "clustering/spectral.py", "clustering/mpckmeans.py", "clustering/affinity_propagation.py", "clustering/dbscan.py"], [("messages", "clustering/hierarchical.py:cluster"), ("messages", "clustering/kmeans.py:_clustering_kmeans_model_COP")], ["cluster"])
p("C35", "All cuts of one hierarchical run come from one tree, one split at a time",
  "Recomputing clusters after a hierarchical run always returns nodes of that run's tree. One more cluster requested means: the largest current cluster (rule 'size', the default) or the one merged last (rule 'iteration') is replaced by its children and nothing else changes; splitting goes on until the requested number is reached or exceeded, or the cluster to split is a MUST_LINK group. Asking again, in any order, gives the same answer; the default cut for a number equals what clustering with that number returns, and cutting does not change the result kept by the object. The tree exported as a dictionary has the same nodes, IDs, merge iterations and depths.",
  ["inputs", "histories", "configurations"], "every vectors, constraint set, linkage, sequence of requested numbers and rule",
  "Tests recompute one or two numbers on one corpus.",
  ["clustering/hierarchical.py"], [("tree exploration", "clustering/hierarchical.py:compute_predicted_clusters"), ("export", "clustering/hierarchical.py:to_dict")], ["compute_predicted_clusters", "cluster", "clustering_root"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
