"""C15: inputs are never modified, and answers are not live views of the manager."""

import contextlib
import io

import numpy as np
from scipy.sparse import csr_matrix

from cognitivefactory.interactive_clustering.utils.frequency import compute_clusters_frequency
from cognitivefactory.interactive_clustering.utils.vectorization import vectorize

from vp import smp
from vp.clu import build, cluster, gen_data, gen_number, gen_params, manager_of, model_of, vectors_of
from vp.engine import Test, require
from vp.mgr import gen_history, require_model, require_same, run_history, snapshot
from vp.txt import gen_text, model_path, text_of

ID = "C15"
RULE = "inputs photographed before and after each call; non-trivial = constraints of both types are known (clustering, sampling), or the answers handed out are not empty (queries), or the texts change (texts)"


def photo(vectors):
    out = []
    for key, value in vectors.items():
        dense = value.toarray() if hasattr(value, "toarray") else np.array(value)
        stored = tuple(getattr(value, part).tobytes() for part in ("data", "indices", "indptr")) if hasattr(value, "indptr") else ()
        out.append((key, type(value).__name__, value.shape, str(value.dtype), dense.tobytes(), stored))
    return out


def given(case):
    """The vectors, in some cases with their zeros stored."""
    vectors = vectors_of(case)
    if case.get("zeros"):
        for key, value in vectors.items():
            dense = value.toarray()[0]
            vectors[key] = csr_matrix((dense, np.arange(len(dense)), [0, len(dense)]), shape=value.shape)
    return vectors


def same_vectors(vectors, before, objects, what):
    after = photo(vectors)
    require([x[0] for x in after] == [x[0] for x in before], f"{what}: the vectors now have keys {[x[0] for x in after]}")
    for old, new in zip(before, after):
        require(old == new, f"{what}: the vector of {old[0]!r} was modified ({old[1:4]} -> {new[1:4]})")
    for key, value in vectors.items():
        require(value is objects[key], f"{what}: the vector object of {key!r} was replaced in the caller's dictionary")


def make_cluster(algorithm, lo, hi):
    def gen(d):
        case = gen_data(d, lo, hi)
        n = len(case["ids"])
        case["params"] = gen_params(d, algorithm, n)
        if case["params"].get("tolerance") == 0:
            case["params"]["max_iteration"] = min(10, case["params"]["max_iteration"])
        case["nb"] = gen_number(d, algorithm, n)
        case["twice"] = d.bool(1, 3)
        case["verbose"] = d.bool(1, 4)
        case["refused"] = d.bool(1, 4)
        case["zeros"] = d.bool(1, 3)
        return case

    def check(case, ctx):
        model = model_of(case)
        manager = manager_of(case, model)
        vectors = given(case)
        before, objects, state = photo(vectors), dict(vectors), snapshot(manager)
        algo = build(algorithm, case["params"])
        if case["refused"]:
            with contextlib.suppress(ValueError):
                cluster(algo, manager, vectors, 2 if case["nb"] is None else 1)
        for _ in range(2 if case["twice"] else 1):
            if case["verbose"]:
                with contextlib.redirect_stdout(io.StringIO()):
                    arguments = {} if case["nb"] is None else {"nb_clusters": case["nb"]}
                    algo.cluster(constraints_manager=manager, vectors=vectors, verbose=True, **arguments)
            else:
                cluster(algo, manager, vectors, case["nb"])
        same_vectors(vectors, before, objects, algorithm)
        require_same(state, snapshot(manager), f"{algorithm} modified the manager")
        require_model(manager, model, f"after {algorithm}")
        comps, adjacency = model.cl_graph()
        ctx.nontrivial(any(adjacency.values()) and len(comps) < len(model.ids))

    return gen, check


def gen_sampling(d):
    return {"options": smp.gen_options(d), "round": dict(smp.gen_round(d, 12, 1), zeros=d.bool(1, 3))}


def check_sampling(case, ctx):
    situation = dict(case["round"], give=True)
    model = model_of(situation)
    manager = manager_of(situation, model)
    vectors = given(situation)
    labels = smp.clustering_of(situation)
    kept = list(labels.items())
    before, objects, state = photo(vectors), dict(vectors), snapshot(manager)
    sampler = smp.build(case["options"])
    result = sampler.sample(constraints_manager=manager, nb_to_select=situation["nb"], clustering_result=labels, vectors=vectors)
    same_vectors(vectors, before, objects, "sampling")
    require(list(labels.items()) == kept, f"sampling changed the clustering result it was given: {kept} -> {list(labels.items())}")
    require_same(state, snapshot(manager), "sampling modified the manager")
    result.append(("x", "y"))
    if len(result) > 2:
        result.reverse()
    require_same(state, snapshot(manager), "modifying the sampled list modified the manager")
    comps, adjacency = model.cl_graph()
    ctx.nontrivial(any(adjacency.values()) and len(comps) < len(model.ids))


def gen_queries(d):
    case = gen_history(d, 10, 30)
    case["extra"] = d.int(0, 2)
    return case


def spoil(value):
    """Damage an answer in place as much as its type allows."""
    if isinstance(value, list):
        for item in value:
            spoil(item)
        value.append("spoiled")
        value.reverse()
        if len(value) > 2:
            del value[1]
    elif isinstance(value, set):
        value.clear()
    elif isinstance(value, dict):
        for item in value.values():
            spoil(item)
        value.clear()


def check_queries(case, ctx):
    manager, model = run_history(case)
    state = snapshot(manager)
    answers = [manager.get_list_of_managed_data_IDs(), manager.get_connected_components()]
    for x in model.ids:
        for y in model.ids:
            if x != y:
                answers.append(manager.get_added_constraint(data_ID1=x, data_ID2=y))
                for value in (0.5, 1.0):
                    answers.append(manager.get_inferred_constraint(data_ID1=x, data_ID2=y, threshold=value))
    for answer in answers:
        spoil(answer)
    require_same(state, snapshot(manager), "modifying what queries returned modified the manager")
    require_model(manager, model, "after modifying what queries returned")
    ctx.nontrivial(len(model.components()) < len(model.ids) and len(model.ids) > 2)


def gen_texts(d):
    n = d.int(1, 4)
    return {
        "texts": [gen_text(d, "fr", 6) for _ in range(n)],
        "plain": d.bool(),
        "flags": [d.bool(), d.bool(), d.bool()],
    }


def check_texts(case, ctx):
    from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess

    texts = {f"t{i}": text_of(pieces) for i, pieces in enumerate(case["texts"])}
    kept = list(texts.items())
    out = preprocess(
        dict_of_texts=texts,
        apply_stopwords_deletion=case["flags"][0],
        apply_parsing_filter=case["flags"][1],
        apply_lemmatization=case["flags"][2],
        spacy_language_model=model_path("fr", ctx.scratch),
    )
    require(list(texts.items()) == kept, f"preprocessing changed its input: {kept} -> {list(texts.items())}")
    require(out is not texts, "preprocessing returned its own input")
    shared = {**out, "z1": "commun commun", "z2": "commun"}
    kept_shared = list(shared.items())
    first = vectorize(dict_of_texts=shared)
    require(list(shared.items()) == kept_shared, "vectorization changed its input")
    labels = {key: len(value) % 3 for key, value in shared.items()}
    kept_labels = list(labels.items())
    compute_clusters_frequency(clustering_result=labels)
    require(list(labels.items()) == kept_labels, "frequency computation changed its input")
    # Vectors are independent objects: spoiling one changes neither the others nor a later call.
    keys = list(first)
    before = {key: first[key].toarray().copy() for key in keys}
    first[keys[0]].data[:] = 7
    for key in keys[1:]:
        require((first[key].toarray() == before[key]).all(), f"modifying the vector of {keys[0]!r} modified the one of {key!r}")
    again = vectorize(dict_of_texts=shared)
    for key in keys:
        require((again[key].toarray() == before[key]).all(), f"modifying returned vectors changed a later call for {key!r}")
    ctx.nontrivial(any(out[key] != texts[key] for key in texts))


TESTS = [
    Test("kmeans_huge", *make_cluster("kmeans", 60, 120), rand=8, hyp=0),
    Test("hierarchical_huge", *make_cluster("hierarchical", 45, 70), rand=4, hyp=0),
    Test("spectral_huge", *make_cluster("spectral", 60, 120), rand=8, hyp=0),
    Test("dbscan_huge", *make_cluster("dbscan", 60, 120), rand=12, hyp=0),
    Test("affinity_propagation_huge", *make_cluster("affinity_propagation", 50, 100), rand=8, hyp=0),
    Test("mpckmeans_huge", *make_cluster("mpckmeans", 24, 50), rand=4, hyp=0),
    Test("kmeans", *make_cluster("kmeans", 1, 14), rand=700, hyp=40),
    Test("hierarchical", *make_cluster("hierarchical", 1, 12), rand=700, hyp=40),
    Test("spectral", *make_cluster("spectral", 2, 12), rand=400, hyp=30),
    Test("dbscan", *make_cluster("dbscan", 1, 14), rand=1200, hyp=50),
    Test("affinity_propagation", *make_cluster("affinity_propagation", 1, 12), rand=700, hyp=40),
    Test("mpckmeans", *make_cluster("mpckmeans", 1, 8), rand=250, hyp=20),
    Test("kmeans_big", *make_cluster("kmeans", 14, 40), rand=60, hyp=0),
    Test("hierarchical_big", *make_cluster("hierarchical", 12, 26), rand=40, hyp=0),
    Test("spectral_big", *make_cluster("spectral", 12, 40), rand=60, hyp=0),
    Test("dbscan_big", *make_cluster("dbscan", 14, 40), rand=120, hyp=0),
    Test("affinity_propagation_big", *make_cluster("affinity_propagation", 12, 30), rand=60, hyp=0),
    Test("mpckmeans_big", *make_cluster("mpckmeans", 8, 16), rand=20, hyp=0),
    Test("sampling", gen_sampling, check_sampling, rand=2500, hyp=100),
    Test("queries", gen_queries, check_queries, rand=2500, hyp=100),
    Test("texts", gen_texts, check_texts, rand=80, hyp=10),
]
