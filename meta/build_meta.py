#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run it after editing; both outputs are committed)."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/cognitivefactory/interactive_clustering/"
BIN = SRC + "constraints/binary.py"
SAMP = SRC + "sampling/clusters_based.py"
KM, HI, SP, DB, AP, MPC = (SRC + "clustering/" + f + ".py" for f in ("kmeans", "hierarchical", "spectral", "dbscan", "affinity_propagation", "mpckmeans"))
ABS = SRC + "clustering/abstract.py"

PROPS = []


def prop(pid, title, statement, over, quant, why, files, mechanism, technique, note, state=()):
    PROPS.append(
        {
            "p": {
                "id": pid,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": quant},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                },
            },
            "technique": technique,
            "note": note,
        }
    )


D = ("explicit constraints", "what the user added, per ordered pair", BIN + " _constraints_dictionary")
T = ("transitive knowledge", "must-link and cannot-link sets of every ID", BIN + " _constraints_transitivity")

prop(
    "C01", "The explicit-constraint registry is exact over any history",
    "After any sequence of accepted ID additions/deletions and constraint additions/deletions, the manager lists exactly the IDs given or added and not deleted since, once each, in insertion order. For every pair of distinct managed IDs, in either argument order, the explicit constraint reported is the one added and not deleted since, with its type and value 1.0 (whatever value was given with it), and nothing otherwise. Deleting an ID forgets every explicit constraint it carried, even if the same ID is added again later.",
    ["histories", "inputs"], "every finite history of requests over every set of string IDs (any length, any characters, any order)",
    "Tests replay a few hand-written histories over 3-5 IDs; the registry stores one direction of each pair chosen by string order, so mistakes appear only for particular ID orders, deletions and re-additions.",
    [BIN], [("one entry per ordered pair", BIN + " add_constraint/delete_constraint/get_added_constraint"), ("ID removal", BIN + " delete_data_ID")],
    "stateful property-based testing against a dictionary model", "histories up to 18 IDs and 70 requests, model compared after every step; long ones up to 40 IDs and 200 requests", [D],
)
prop(
    "C02", "Inferred constraints are exactly the transitive closure",
    "In every reachable state, the constraint inferred between two managed IDs, in either argument order, is MUST_LINK exactly when a chain of explicit must-links joins them (an ID being linked to itself). It is CANNOT_LINK exactly when some explicit cannot-link joins the must-link group of one to the must-link group of the other. In every other case nothing is inferred; values and thresholds play no part.",
    ["histories", "inputs"], "every reachable manager state and every ordered pair of managed IDs",
    "The closure is maintained incrementally with shared sets; tests look at a few short chains, not at the order in which groups are merged, separated and retracted.",
    [BIN], [("incremental closure", BIN + " _add_constraint_transitivity"), ("closure rebuilt on deletion", BIN + " _generate_constraints_transitivity")],
    "stateful property-based testing against a union-find model recomputed from scratch", "histories up to 16 IDs/60 requests, long ones up to 40 IDs/200 requests, group-merging scenarios up to 40 IDs", [D, T],
)
prop(
    "C03", "Contradictory or invalid requests are refused without any effect",
    "A request that adds a constraint contradicting what is inferred (including separating an ID from itself), names an ID that is not managed, uses an unknown constraint type, adds an ID already managed or deletes one that is not, raises ValueError and changes no answer of the manager. Every other request is accepted and returns True, including re-adding or adding explicitly what is already inferred. Queries about IDs that are not managed raise ValueError as well.",
    ["histories", "inputs"], "every history mixing legitimate and illegitimate requests",
    "Tests check a handful of refusals from fixed states and never compare the whole state before and after.",
    [BIN], [("validation before mutation", BIN + " add_constraint/add_data_ID/delete_data_ID/delete_constraint")],
    "stateful property-based testing with adversarial requests; snapshot equality across refusals", "histories up to 12 IDs/44 requests, 40% adversarial", [D, T],
)
prop(
    "C04", "Retraction leaves no residue and addition order is irrelevant",
    "A manager that went through any history answers every query (explicit and inferred constraints, components as sets, completeness, conflicts, maximum number of clusters) like a fresh manager given the same IDs and only the surviving explicit constraints, in any order and any argument order. So deleting a constraint or an ID withdraws exactly the inferences that depended on it and keeps those still derivable. Both managers also keep answering alike after any further common requests.",
    ["histories", "inputs"], "every history with deletions, every permutation of the surviving facts, every continuation",
    "Tests delete one constraint from one state; redundancy between several derivations of the same inference and stale shared sets need particular multi-step histories.",
    [BIN], [("closure rebuilt from the registry", BIN + " _generate_constraints_transitivity")],
    "metamorphic stateful testing (history versus rebuilt manager, then common continuation)", "histories up to 14 IDs/50 requests", [D, T],
)
prop(
    "C05", "Must-link components partition the data; completeness is exact",
    "In every reachable state the reported components are non-empty, pairwise disjoint, cover exactly the managed IDs, and two IDs share a component exactly when a chain of explicit must-links joins them. The constraints are reported complete exactly when every pair of managed IDs has an inferred constraint.",
    ["histories", "inputs"], "every reachable manager state, including states on the way to and back from full annotation",
    "Completeness is decided by counting set sizes and components by list equality, both sound only if the closure sets are exact and ordered consistently in every history.",
    [BIN], [("component listing", BIN + " get_connected_components"), ("completeness by counting", BIN + " check_completude_of_constraints")],
    "stateful property-based testing against the reference model", "histories up to 280 IDs, annotation to completeness up to 160 IDs", [T],
)
prop(
    "C06", "The announced range of cluster numbers is right",
    "The maximum announced is the number of must-link components. The minimum announced is at least 2, never below the smallest number of clusters with which all constraints can be respected, never above what smallest-last greedy colouring guarantees (one more than the largest minimum degree among the subgraphs of the cannot-link graph, or 2), and never above the maximum when there are at least two components. When every pair is known, both bounds equal the number of components (the minimum being at least 2).",
    ["histories", "inputs"], "every reachable state with at least one managed ID, every cannot-link graph over the components",
    "Tests check one or two small states; the bound needs cannot-link graphs whose chromatic number is at least 3, seen through must-link groups.",
    [BIN], [("greedy colouring of the cannot-link graph", BIN + " get_min_and_max_number_of_clusters")],
    "generated graphs against a brute-force chromatic number and degeneracy", "graphs up to 12 components; exact colouring by backtracking", [T],
)
prop(
    "C07", "Conflict diagnosis names exactly the two components involved",
    "Asking which data are involved in a conflict answers None exactly when the proposed constraint agrees with what is inferred or nothing is inferred. Otherwise it answers, without duplicates, exactly the members of the must-link components of the two IDs, and adding that constraint is indeed refused. Asking changes nothing.",
    ["histories", "inputs"], "every reachable state, ordered pair of IDs and constraint type",
    "Tests query a few pairs of one state.",
    [BIN], [("conflict listing", BIN + " get_list_of_involved_data_IDs_in_a_constraint_conflict")],
    "property-based testing: all pairs of generated states against the model", "states up to 13 IDs/40 requests", [T],
)
prop(
    "C08", "Saving and loading a manager preserves all its knowledge",
    "Loading a saved manager gives a new manager with the same IDs in the same order, the same explicit constraints and the same inferences, whatever the IDs contain and even when the file replaces an older, longer one. Saving changes nothing, and the loaded manager then evolves independently and correctly.",
    ["histories", "inputs"], "every reachable state, any string IDs (unicode, quotes, control characters), new or already used path",
    "The test saves one small state with digit IDs to a fresh path.",
    [BIN], [("JSON dump", BIN + " to_json"), ("JSON load by replaying additions", BIN + " load_constraints_manager_from_json")],
    "round-trip property-based testing", "states up to 16 IDs/40 requests; files in a scratch directory only", [D],
)
prop(
    "C09", "Samplers return exactly as many distinct eligible pairs as possible",
    "For every sampling configuration and state, the result contains only pairs of two different managed IDs in increasing string order that satisfy the cluster restriction and the requested exclusions (explicitly constrained pairs, inferred pairs), each at most once. Its length is the smaller of the number requested and the number of eligible pairs, and zero requested gives an empty list. This holds again at each reuse of the same sampler object, with other managers, clusterings or vectors.",
    ["inputs", "histories", "configurations"], "every manager state, clustering result, vectors, option combination and requested number, and every sequence of calls on one sampler",
    "Tests sample once per configuration on one 5-9 data example with small requested numbers.",
    [SAMP, SRC + "sampling/factory.py"], [("pair enumeration and filters", SAMP + " sample")],
    "property-based testing against an independent enumeration of eligible pairs", "up to 12 IDs and 1-4 calls per sampler object, up to 45 IDs and 2 calls",
)
prop(
    "C10", "Distance-driven sampling returns the closest/farthest eligible pairs",
    "With the closest (farthest) restriction, the returned pairs come in non-decreasing (non-increasing) euclidean distance, and no eligible pair left out is strictly closer (farther) than a returned one. The distance is that of the vectors attached to the two IDs, whatever the order of the vectors dictionary or vectors of other data it contains.",
    ["inputs", "configurations"], "every vectors, manager state, clustering result and requested number",
    "Tests compare one expected list on one data set whose vectors are in managed order.",
    [SAMP], [("sorted pairs by pairwise distance", SAMP + " sample")],
    "property-based testing against brute-force distances (exact on integer grids, tolerance on floats)", "up to 45 IDs, 1-4 dimensions, tiny and huge scales",
)
prop(
    "C11", "Random sampling is reproducible by seed and can reach every eligible pair",
    "With a fixed seed, the random selection depends only on the manager, clustering and parameters, not on the global random state, earlier calls or the sampler instance. Without it being fixed, no eligible pair is systematically excluded: over enough seeds every eligible pair is selected.",
    ["inputs", "histories"], "every state and seed; reachability over as many seeds as needed",
    "Tests fix one seed and compare one list.",
    [SAMP], [("seeded sampling", SAMP + " sample")],
    "metamorphic repetition under perturbed global state; reachability over enough seeds (chance of missing a pair below 1e-10)", "reachability up to 34 data and 561 pairs",
)
prop(
    "C12", "Clusterings that promise to respect constraints never violate one",
    "COP k-means (any number of clusters of 2 or more, any iteration limit, tolerance and seed), hierarchical clustering (four linkages, any requested number, both ways of cutting with at least two clusters) and DBSCAN never separate two data with an inferred must-link and never group two data with an inferred cannot-link. Affinity propagation with strict must-links never separates must-linked data. None of them fails on such inputs.",
    ["inputs", "configurations"], "every consistent manager state, vectors (duplicates, zeros, ties included), parameters and seeds",
    "Tests use one fixed 9-data example per constraint set; violations need a conflict between geometry and constraints, ties, or a particular visiting order.",
    [KM, HI, DB, AP], [("assignment restricted to compatible clusters", KM + " _clustering_kmeans_model_COP"), ("infinite distance between incompatible clusters", HI + " _compute_distance"), ("component-wise merge", DB + " cluster"), ("meta-points", AP + " _affinity_propagation_constrained")],
    "property-based testing of outputs against the reference closure", "up to 60 data, 4 dimensions, plus densely constrained cases up to 10 data",
)
prop(
    "C13", "Every clustering result is a well-formed, canonically numbered partition",
    "Each of the six algorithms maps every managed ID, and nothing else, to an integer cluster, also kept as its last prediction; following the IDs in sorted order, clusters are numbered from 0 by first appearance (DBSCAN gives each noise datum a negative number of its own and numbers the others canonically). The number of clusters is at most the requested number (capped by the number of data) for spectral clustering and exactly it for MPC k-means; k-means never leaves less than one. Renumbering keeps the partition and is idempotent.",
    ["inputs", "configurations"], "every manager state, vectors (including unused ones) and parameters accepted by each algorithm",
    "Tests compare complete outputs on one example with single-digit IDs, where string order and insertion order coincide.",
    [ABS, KM, HI, SP, DB, AP, MPC], [("renaming", ABS + " rename_clusters_by_order")],
    "property-based testing with a well-formedness predicate over all six algorithms", "up to 20 data (10 for MPC k-means)",
)
prop(
    "C14", "A fixed seed makes clustering reproducible whatever happened before",
    "With the same seed, parameters, manager knowledge and vectors, each algorithm returns the same clusters whether it is a new object or one already used on other data, whatever the state of the global random generators, whatever the order of the vectors dictionary or additional vectors of data that are not managed, and whether it is verbose or not.",
    ["inputs", "histories", "configurations"], "every input and every earlier use of the object and of the global random generators",
    "Tests call each object once in a fresh state.",
    [KM, HI, SP, DB, AP, MPC], [("local seeding", KM + " initialize_centroids"), ("state reset at each call", HI + " cluster")],
    "metamorphic property-based testing (repeat under perturbed history and global state)", "deterministic comparison on the same machine and thread count",
)
prop(
    "C15", "Sampling, clustering and text processing never modify their inputs",
    "Running any sampler, any clustering algorithm, preprocessing, vectorization or frequency computation leaves the constraints manager (IDs, order, explicit and inferred constraints), the vectors, the clustering result and the texts it was given exactly as they were. What read-only queries of a manager return can be modified by the caller without changing the manager.",
    ["inputs", "histories", "configurations"], "every input of every entry point",
    "Tests never look at the inputs after a call.",
    [KM, HI, SP, DB, AP, MPC, SAMP, SRC + "utils/preprocessing.py", SRC + "utils/vectorization.py"], [("copies before mutation", "call sites of every entry point")],
    "property-based testing with deep snapshots of the inputs before and after", "same generators as C09-C14",
)
prop(
    "C16", "Hierarchical clustering merges the closest compatible clusters at each step",
    "The tree's leaves are the must-link components and each merge joins two current clusters that no cannot-link separates, at minimal distance among all such pairs (and, for equal distances, into the smallest cluster) for the chosen linkage (single: minimum distance, complete: maximum distance, average: distance between barycenters, ward: total pairwise distance of the merged cluster divided by the product of the sizes). Merging goes on as long as two current clusters are compatible; only then are the remaining ones gathered under one root. Every node's members are the union of its children's, its barycenter the mean of its members, and its depth one more than its deepest child.",
    ["inputs", "configurations"], "every consistent manager state, vectors and linkage, ties included (any minimal pair of minimal size is allowed)",
    "Tests compare the final labels of one example, where most merge orders give the same cut.",
    [HI], [("merge loop", HI + " cluster"), ("linkages", HI + " _compute_distance"), ("closest pair", HI + " _get_the_two_clostest_clusters"), ("tree nodes", HI + " Cluster")],
    "property-based testing: every merge of the returned tree checked against brute-force linkage distances", "up to 14 data; ties within 1e-9 relative accepted either way; sizes of tied pairs compared for single and complete linkage on integer vectors, where ties are exact",
)
prop(
    "C17", "Cuts of the hierarchical tree are nested, bounded and faithful to the tree",
    "Every cut groups the data by disjoint nodes of the tree; asking for more clusters only refines the cut, and both the clustering call and a later cut of the same tree with the same number agree. A cut has at least the requested number of clusters unless the next node to split (largest, or last merged) is a leaf, and no more unless the last split node has more than two children. Splitting always takes a largest (or last merged) node first.",
    ["inputs", "configurations"], "every tree, every requested number and both criteria",
    "Tests cut one tree at a few numbers.",
    [HI], [("tree exploration", HI + " compute_predicted_clusters")],
    "property-based testing: reference exploration of the returned tree with all tie choices", "up to 16 data",
)
prop(
    "C18", "Each k-means iteration is a valid constrained assignment step",
    "Starting from centroids taken among the data, each iteration gives every must-link group a cluster such that some member of the group is assigned to the nearest centroid among those not already holding a cannot-linked datum, opening a new cluster only when no centroid is left; the next centroids are the means of the clusters. The iteration stops by the iteration limit or when the centroids move, in total, less than the tolerance. In particular, with no constraint, one more iteration assigns each datum to its nearest centroid, and the centroids kept after the clustering are the means of the clusters returned, under their numbers.",
    ["inputs", "configurations"], "every input, seed and iteration limit",
    "Tests compare final labels of one example; a wrong distance, centroid or stopping rule often leaves them unchanged.",
    [KM], [("assignment and update loop", KM + " _clustering_kmeans_model_COP"), ("means", KM + " compute_centroids")],
    "property-based testing: consecutive iteration limits compared with a reference step (validity predicate over orders and ties)", "up to 9 data for exhaustive order search, more for unconstrained",
)
prop(
    "C19", "Spectral clustering works on the constraint-adjusted similarity",
    "The partition is the one standard spectral clustering gives, for the same seed and number of clusters, on the RBF similarity matrix of the managed data in which inferred must-links have similarity 1 and inferred cannot-links 0.",
    ["inputs", "configurations"], "every manager state and vectors with at least two data",
    "Tests compare labels of one example per constraint set.",
    [SP], [("similarity adjustment", SP + " clustering_spectral_model_SPEC")],
    "differential property-based testing against an independently adjusted matrix given to the same solver", "comparison only where the reference is stable under 1e-9 perturbations",
)
prop(
    "C20", "DBSCAN groups by density and constraints, and isolates noise",
    "Two data end in the same cluster only if a chain of steps of length at most eps or must-links joins them; a datum with no must-link, fewer than min_samples data within eps and no dense datum within eps is noise, in a cluster of its own with a negative number; without cannot-links, min_samples data or more within eps of a same datum are never all noise. Groups of at least min_samples data, all within eps of each other, farther from the rest and without cannot-link inside, are exactly the clusters. The announced numbers of regular, noise and total clusters are those of the result, multiplying all vectors and eps by a same factor changes nothing, and data far from all others, even linked to them by cannot-links, change neither the grouping nor the noise status of the others.",
    ["inputs", "configurations"], "every manager state, vectors, eps and min_samples",
    "Tests use one example with three parameter pairs.",
    [DB], [("local clusters", DB + " cluster")],
    "property-based testing against brute-force neighbourhood graphs", "up to 16 data; distances within 1e-9 of eps avoided",
)
prop(
    "C21", "Affinity propagation assigns data to their most similar exemplar",
    "With strict must-links, the must-link groups are clustered as standard affinity propagation does for the similarity of groups (the smallest distance between their members, negated) with its median as preference, and everything is in one cluster without convergence within the iteration limit; cases that rounding-size noise decides may go either way. In particular, whenever several clusters are returned, one can choose in each a group as exemplar so that every other group is in the cluster of an exemplar most similar to it. When nothing distinguishes the data (all at equal distances) each must-link group is a cluster.",
    ["inputs", "configurations"], "every manager state and vectors",
    "Tests compare labels of one example.",
    [AP], [("message passing and final assignment", AP + " _affinity_propagation_constrained")],
    "differential property-based testing against scikit-learn's affinity propagation of the groups, with an existential exemplar predicate", "up to 14 data",
)
prop(
    "C22", "MPC k-means returns the requested number of clusters and follows must-link groups",
    "MPC k-means succeeds on every consistent input with at least one datum, duplicates included, and returns exactly as many non-empty clusters as requested (capped by the number of data). When there are as many must-link groups as clusters, the first iteration lets the data, one after the other, take the cluster of lowest cost: squared distance to the group barycenter plus 2w times the squared distance to each must-linked datum already elsewhere, plus 2w times (largest squared distance minus squared distance) for each cannot-linked datum already there. So if moreover each datum is strictly closest to the barycenter of its own group, the clusters are the groups, whatever the cannot-links, weight, seed, iteration limit and vectors order.",
    ["inputs", "configurations"], "every manager state, vectors, number of clusters, weight, iteration limit and seed",
    "Tests run five small examples without looking at empty clusters or at IDs whose order differs from the vectors.",
    [MPC], [("initialisation by neighbourhoods", MPC + " _initialize_cluster_centers"), ("assignment and refill of empty clusters", MPC + " _assign_clusters")],
    "property-based testing with count invariant, a Voronoi recovery oracle and a reference first assignment over all orders", "up to 12 data",
)
prop(
    "C23", "The interactive loop with a truthful annotator converges to the truth",
    "If every sampled pair is annotated according to a fixed hidden partition, no annotation is ever refused, each sampled batch of one brings new knowledge, and sampling excluding known pairs returns nothing exactly when the constraints are complete. Then the components are the hidden classes, the announced range is their number (if at least two), and k-means, hierarchical clustering and DBSCAN return exactly the hidden partition for any requested number of at least two. This takes at most as many annotations as there are pairs, and the state can be saved and reloaded at any point.",
    ["histories", "inputs", "configurations"], "every hidden partition, vectors, sampling strategy, clustering algorithm and batch size",
    "No test composes sampling, annotation and clustering.",
    [BIN, SAMP, KM, HI], [("sampling excludes known pairs", SAMP + " sample"), ("completeness", BIN + " check_completude_of_constraints")],
    "stateful property-based testing of the complete loop", "up to 12 data",
)
prop(
    "C24", "TF-IDF vectors are right for every corpus",
    "Each text gets one row vector, under its own ID and in the given order, all of the same dimension: the number of word n-grams (1 to 3 words of two or more word characters, case-insensitive) present in at least two texts. Components are term counts times smoothed inverse document frequency, normalised to unit length (zero if the text has no such term), so identical texts have identical vectors and the vectors do not depend on the order of the texts.",
    ["inputs"], "every corpus with at least one n-gram shared by two texts",
    "Tests compare one corpus of three texts.",
    [SRC + "utils/vectorization.py"], [("TfidfVectorizer configuration and row mapping", SRC + "utils/vectorization.py vectorize")],
    "differential property-based testing against an independent TF-IDF written from the formula", "corpora up to 8 texts of 12 words, 120 texts with 10000 n-grams",
)
prop(
    "C25", "spaCy vectors are those of the language model, text by text",
    "With the spaCy vectorizer, the vector of each ID is the model's vector of that text alone (the mean of its token vectors, zero without any), as a single row, in the order of the texts and independent of the other texts. A language model that is not installed, or an unknown vectorizer type, is refused with ValueError.",
    ["inputs", "configurations"], "every dictionary of texts and every loadable language model",
    "The tests need downloaded models and do not run here; upstream they compare one corpus.",
    [SRC + "utils/vectorization.py"], [("per-text vector", SRC + "utils/vectorization.py vectorize")],
    "property-based testing with generated language models holding known word vectors", "generated blank models; downloaded models are not available offline",
)
prop(
    "C26", "Preprocessing normalises every text as documented and nothing else",
    "Every text keeps its ID and position and becomes its lower-case words separated by single spaces, without the listed punctuation, surrounding or repeated whitespace, or accents, compatibility characters (full-width letters and punctuation, ligatures) being read as their plain equivalents; words and their order are otherwise kept, and each text is processed independently of the others. Stop-word deletion removes exactly the stop words of the language, the parsing filter keeps exactly the roots and their direct children, and lemmatization replaces each kept word by its lemma. Without options, preprocessing an already preprocessed text changes nothing; a language model that is not installed is refused with ValueError.",
    ["inputs", "configurations"], "every dictionary of texts over Latin letters with accents, compatibility characters, digits, the listed punctuation and whitespace; every option combination",
    "The tests need downloaded models and do not run here; upstream they compare one corpus.",
    [SRC + "utils/preprocessing.py"], [("translate / filter / join / NFKD pipeline", SRC + "utils/preprocessing.py preprocess")],
    "property-based testing against a reference written from the documentation, with generated language models (known parse, lemmas, stop words)", "texts up to 150 words (1500 characters and more)",
)
prop(
    "C27", "Cluster frequencies are the exact shares of each cluster",
    "The frequency report has one entry per cluster present in the clustering, and no other, equal to its number of data divided by the total number of data. Frequencies therefore sum to one, an empty clustering gives an empty report, and the order of the data does not matter.",
    ["inputs"], "every clustering result, including negative and non-contiguous cluster numbers",
    "The test compares one clustering of 8 data.",
    [SRC + "utils/frequency.py"], [("counting", SRC + "utils/frequency.py compute_clusters_frequency")],
    "property-based testing against a counting reference", "up to 60 data",
)
prop(
    "C28", "Factories build what they name; invalid parameters are always refused",
    "Each factory name gives an object that behaves exactly like the corresponding class and options used directly, and unknown names are refused with ValueError. Constructors and calls refuse with ValueError every parameter outside its documented domain (unknown models, linkages or restrictions, non-positive iteration limits, negative tolerance or weight, fewer than two clusters, a number of clusters given to algorithms that choose it, managers or vectors of a wrong type, negative or non-integer sample sizes, missing clustering or vectors), before computing anything, and accept every value inside it; parameters left out take their documented default.",
    ["inputs", "configurations"], "every factory name and every parameter value on both sides of each documented boundary",
    "Tests try one wrong value per parameter.",
    [SRC + "clustering/factory.py", SRC + "constraints/factory.py", SRC + "sampling/factory.py", KM, HI, SP, DB, AP, MPC, SAMP], [("dispatch", SRC + "clustering/factory.py clustering_factory"), ("validation", "constructors and entry calls")],
    "property-based testing over parameter boundaries; factory/class differential", "values sampled around each boundary",
)
prop(
    "C29", "IDs are opaque labels: renaming them consistently changes nothing else",
    "If all data IDs are renamed by a map that preserves their string order, managers, samplers and every clustering algorithm give the same results up to that renaming. Adding null coordinates to all vectors, or storing the same vectors with another sparse format or explicit zeros, changes no result of hierarchical, k-means, DBSCAN clustering and sampling.",
    ["inputs", "configurations"], "every input and every order-preserving renaming",
    "Tests use digit strings as IDs everywhere.",
    [BIN, SAMP, KM, HI, SP, DB, AP, MPC], [("IDs used as dictionary keys and compared as strings only", "all modules")],
    "metamorphic property-based testing", "up to 14 data",
)

prop(
    "C30", "MPC k-means iterates with the constraint penalties and the metric it learns",
    "MPC k-means starts from barycenters of must-link groups: with more groups than clusters, any group and then each time the group whose size times distance to the nearest group already taken is largest; with fewer, all of them and distinct data. At each iteration the data, one after the other in some order, take the cluster of lowest cost (the cost of C22, where the squared difference of each coordinate is weighted by the number of data divided by the sum, over the clusters of the previous iteration, of the scatter of that coordinate, plus w times its squared difference for each separated must-link pair, plus 2w times the positive excess of the farthest pair over each grouped cannot-link pair; by one at first), and each empty cluster receives the datum farthest from its own center among clusters of several data. Centers become the means of the clusters, and iterations stop when they no longer move or at the limit.",
    ["inputs", "configurations"], "every manager state, vectors, number of clusters, weight, iteration limit and seed",
    "Tests run five small examples to convergence and look at the final labels only.",
    [MPC], [("initialisation", MPC + " weighted_farthest_first_traversal"), ("cost", MPC + " _objective_fn"), ("metric", MPC + " _update_metrics"), ("convergence", MPC + " cluster")],
    "property-based testing: partitions of successive iteration limits against a reference step over all processing orders and ties", "up to 6 data, 5 iterations; ties within rounding accepted either way",
)

prop(
    "C31", "Affinity propagation with soft must-links works on the data and one point per must-link group",
    "Without strict must-links, the clusters are those that standard affinity propagation gives to the data when one point per must-link group is added and then left out: similarities of data are negated distances, that of a group point with its members is zero, with another datum the largest similarity of its members, between two group points twice the lowest similarity, and the preference of all points is the median similarity of the data. Without convergence within the iteration limit everything is in one cluster, and when all data are at equal distances each is a cluster; cases that rounding-size noise decides may go either way.",
    ["inputs", "configurations"], "every manager state, vectors, iteration limits and seed",
    "Tests run one example in this mode.",
    [AP], [("group points", AP + " _affinity_propagation_constrained")],
    "differential property-based testing against scikit-learn on independently built similarities", "up to 10 data; compared where rounding-size noise does not decide",
)

prop(
    "C32", "DBSCAN follows the constrained procedure: local clusters, must-link cores, absorption",
    "Data are visited in managed order: the data within eps that are not isolated yet form a local cluster when they are at least min_samples and no cannot-link separates two of them, and are all isolated, each in a local cluster of its own, when one does. Then each datum in turn claims the unclaimed data of its local cluster and those of its must-linked data that have one; a datum claimed by no earlier one founds a core with what it claimed and its must-linked data (kept from two data on), and each core absorbs again and again the local cluster closest to it (the first founded among equals) until the closest is farther than eps or separated by a cannot-link. Cores, what is left of local clusters when at least min_samples data remain, and must-link groups are the regular clusters, a must-link group following one of its members when these disagree; every other datum is noise.",
    ["inputs", "configurations"], "every manager state, vectors, eps and min_samples",
    "Tests use one example with three parameter pairs.",
    [DB], [("local clusters", DB + " cluster"), ("cores", DB + " cluster"), ("absorption", DB + " cluster")],
    "differential property-based testing against a reference of the procedure", "up to 14 data, 40 in the big test; integer vectors, where distances and ties are exact",
)

CLAIMED = os.environ.get("CLAIMED")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
        for entry in PROPS:
            out.write(json.dumps(entry["p"], ensure_ascii=False) + "\n")
    checks, missing = [], []
    for entry in PROPS:
        pid = entry["p"]["id"]
        if os.path.exists(os.path.join(ROOT, "vp", "props", pid.lower() + ".py")):
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"/opt/venv/bin/python -B check.py {pid} --tier quick",
                    "thorough_cmd": f"/opt/venv/bin/python -B check.py {pid} --tier thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": "property-based testing: " + entry["technique"],
                    "level": "exploration",
                    "level_note": "Generated-input search, no proof of absence. " + entry["note"] + ".",
                }
            )
        else:
            missing.append({"property": pid, "reason": "check not built yet"})
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B meta/selftest.py",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Checks run the code of /repo/src in place (pure Python, nothing to build); no hooks in /repo. Hypothesis is vendored in vendor/.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1, ensure_ascii=False)
        out.write("\n")


main()
