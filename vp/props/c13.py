"""C13: every clustering result is a well-formed, canonically numbered partition."""

from cognitivefactory.interactive_clustering.clustering.abstract import rename_clusters_by_order

from vp.clu import build, gen_data, gen_number, gen_params, model_of, partition, run_prepared
from vp.engine import Test, require
from vp.mgr import gen_ids

ID = "C13"
RULE = "all six algorithms on random data; non-trivial = at least two clusters, and the string order of the IDs differs from the managed order"
ASSUMPTIONS = ["spectral clustering: at least two data (scikit-learn refuses one)"]


def canonical(result, what):
    following = 0
    for x in sorted(result):
        c = result[x]
        require(c <= following, f"{what}: cluster {c} of {x!r} appears before cluster {following}: {result}")
        if c == following:
            following += 1
    return following


def make(algorithm, lo, hi):
    def gen(d):
        case = gen_data(d, lo, hi)
        case["params"] = gen_params(d, algorithm, len(case["ids"]))
        case["nb"] = gen_number(d, algorithm, len(case["ids"]))
        return case

    def check(case, ctx):
        model = model_of(case)
        algo = build(algorithm, case["params"])
        require(algo.dict_of_predicted_clusters is None, "a new object already has a prediction")
        result = run_prepared(algo, case, model, case["nb"])
        require(isinstance(result, dict), "not a dictionary:", type(result))
        require(set(result) == set(model.ids) and len(result) == len(model.ids), f"keys {sorted(result)}, expected {sorted(model.ids)}")
        for x, c in result.items():
            require(isinstance(c, int) and not isinstance(c, bool), f"cluster of {x!r} is {c!r} ({type(c).__name__}), not an integer")
            require(isinstance(x, str), f"key {x!r} is not a string")
        require(algo.dict_of_predicted_clusters == result, "the last prediction kept by the object differs from the result")
        n = len(model.ids)
        if algorithm == "dbscan":
            noise = [c for c in result.values() if c < 0]
            require(len(noise) == len(set(noise)), f"two noise data share a cluster: {result}")
            require(sorted(noise, reverse=True) == list(range(-1, -len(noise) - 1, -1)), f"noise clusters are numbered {sorted(noise)}")
            count = canonical({x: c for x, c in result.items() if c >= 0}, algorithm)
            ctx.label("noise", noise)
        else:
            require(min(result.values()) >= 0, f"negative cluster in {result}")
            count = canonical(result, algorithm)
        if algorithm == "spectral":
            require(1 <= count <= min(case["nb"], n), f"{count} clusters, {case['nb']} requested, {n} data")
        if algorithm == "mpckmeans":
            require(count == min(case["nb"], n), f"{count} clusters, {case['nb']} requested, {n} data")
        if algorithm != "dbscan":
            require(rename_clusters_by_order(clusters=dict(result)) == result, "renaming a result again changes it")
        ctx.nontrivial(count >= 2 and model.ids != sorted(model.ids))
        ctx.label("clusters_%d" % min(count, 6))

    return gen, check


def gen_rename(d):
    ids = gen_ids(d, 1, 150 if d.bool(1, 10) else 28)
    wide = d.choice([5, 5, 1])
    labels = [d.int(-4, 8) if d.bool(wide - 1, wide) else d.int(-1000, 1000) for _ in ids]
    return {"ids": ids, "labels": labels}


def check_rename(case, ctx):
    clusters = dict(zip(case["ids"], case["labels"]))
    kept = dict(clusters)
    renamed = rename_clusters_by_order(clusters=clusters)
    require(clusters == kept and list(clusters) == list(kept), "renaming modified its input")
    require(set(renamed) == set(clusters), "renaming changed the IDs")
    require(partition(renamed) == partition(clusters), f"renaming changed the partition: {clusters} -> {renamed}")
    canonical(renamed, "renamed")
    require(min(renamed.values()) == 0, "numbers do not start from 0")
    require(rename_clusters_by_order(clusters=renamed) == renamed, "renaming twice differs from renaming once")
    ctx.nontrivial(len(set(case["labels"])) > 1 and renamed != clusters)


TESTS = [
    Test("kmeans", *make("kmeans", 1, 20), rand=1200, hyp=80),
    Test("hierarchical", *make("hierarchical", 1, 16), rand=1200, hyp=80),
    Test("spectral", *make("spectral", 2, 16), rand=1000, hyp=60),
    Test("dbscan", *make("dbscan", 1, 20), rand=2000, hyp=80),
    Test("affinity_propagation", *make("affinity_propagation", 1, 14), rand=1200, hyp=80),
    Test("mpckmeans", *make("mpckmeans", 1, 9), rand=400, hyp=30),
    Test("kmeans_big", *make("kmeans", 20, 60), rand=120, hyp=0),
    Test("hierarchical_big", *make("hierarchical", 16, 40), rand=60, hyp=0),
    Test("spectral_big", *make("spectral", 16, 60), rand=120, hyp=0),
    Test("dbscan_big", *make("dbscan", 20, 60), rand=200, hyp=0),
    Test("affinity_propagation_big", *make("affinity_propagation", 14, 40), rand=100, hyp=0),
    Test("mpckmeans_big", *make("mpckmeans", 9, 24), rand=40, hyp=0),
    Test("kmeans_huge", *make("kmeans", 60, 150), rand=16, hyp=0),
    Test("hierarchical_huge", *make("hierarchical", 50, 80), rand=8, hyp=0),
    Test("spectral_huge", *make("spectral", 60, 150), rand=24, hyp=0),
    Test("dbscan_huge", *make("dbscan", 60, 150), rand=24, hyp=0),
    Test("affinity_propagation_huge", *make("affinity_propagation", 50, 130), rand=16, hyp=0),
    Test("mpckmeans_huge", *make("mpckmeans", 30, 70), rand=8, hyp=0),
    Test("rename", gen_rename, check_rename, rand=8000, hyp=300),
]
