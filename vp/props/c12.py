"""C12: clusterings that promise to respect constraints never violate one."""

from vp.clu import build, gen_data, gen_number, gen_params, gen_vectors, model_of, require_constraints, run_prepared, tension
from vp.engine import Test, require
from vp.mgr import gen_ids
from vp.model import CL, ML

ID = "C12"
RULE = "random consistent constraints over random vectors (grids with ties, blobs, duplicates, sparse, identical); non-trivial = both types known and some must-linked pair farther than some cannot-linked pair (tests \"few\": some cannot-linked pair closer than half of the pairs)"


def gen_dense(d):
    """Few distinct positions, many classes, most pairs of different classes separated: nearly every choice is constrained."""
    ids = gen_ids(d, 3, 10)
    n = len(ids)
    k = d.int(max(2, n // 2), n)
    truth = {x: d.int(0, k - 1) if d.bool(1, 3) else i % k for i, x in enumerate(ids)}
    vec, q, style = gen_vectors(d, ids, truth)
    density = d.choice([5, 7, 9, 10])
    links = []
    for i, a in enumerate(ids):
        for b in ids[i + 1 :]:
            if d.int(0, 9) < density:
                links.append([a, b, ML if truth[a] == truth[b] else CL])
    return {"ids": ids, "vec": [vec[x] for x in ids], "q": q, "links": links, "order": list(range(n)), "mode": d.int(0, 2), "style": style}


def gen_few(d):
    """Large clusters in which one to four cannot-links oppose close data, most of them met late."""
    n = d.int(20, 44)
    ids = [f"{i:02d}" for i in range(n)]
    dim = d.int(1, 2)
    vec = [[d.int(0, 60) + (d.int(0, 9) / 10) for _ in range(dim)] for _ in ids]
    odd = d.sample(ids, d.int(1, 4))
    links = []
    for a in odd:
        b = d.choice([x for x in ids if x not in odd])
        links.append([a, b, CL])
    q = d.choice([1, 10, 100])
    return {"ids": ids, "vec": vec, "q": q, "links": links, "order": list(range(n)), "mode": d.int(0, 2), "style": "few"}


def opposed(case):
    """Some cannot-linked pair is closer than half of the pairs."""
    place = dict(zip(case["ids"], case["vec"]))
    gap = lambda a, b: sum((x - y) ** 2 for x, y in zip(place[a], place[b]))
    every = sorted(gap(a, b) for i, a in enumerate(case["ids"]) for b in case["ids"][i + 1 :])
    return any(gap(a, b) < every[len(every) // 2] for a, b, _ in case["links"])


def make(algorithm, hi, lo=1, dense=False, few=False):
    def gen(d):
        case = gen_few(d) if few else gen_dense(d) if dense else gen_data(d, lo, hi)
        case["params"] = gen_params(d, algorithm, len(case["ids"]))
        if algorithm == "affinity_propagation":
            case["params"]["absolute_must_links"] = True
        case["nb"] = gen_number(d, algorithm, len(case["ids"]))
        if few and case["nb"] is not None:
            case["nb"] = d.int(2, 3)
        if algorithm == "hierarchical":
            case["cuts"] = [[d.int(2, len(case["ids"]) + 2), d.choice(["size", "iteration"])] for _ in range(2)]
        return case

    def check(case, ctx):
        model = model_of(case)
        algo = build(algorithm, case["params"])
        result = run_prepared(algo, case, model, case["nb"])
        require(set(result) == set(model.ids), f"clusters of {sorted(result)}, expected {sorted(model.ids)}")
        cl = algorithm != "affinity_propagation"
        require_constraints(result, model, True, cl, algorithm)
        for nb, by in case.get("cuts", []):
            cut = algo.compute_predicted_clusters(nb_clusters=nb, by=by)
            if len(model.ids) > 1:
                require_constraints(cut, model, True, cl, f"cut in {nb} by {by}")
        ctx.nontrivial(opposed(case) if few else tension(case, model))
        ctx.label("has_ml", any(len(c) > 1 for c in model.components()))
        ctx.label("has_cl", any(model.cl_graph()[1].values()))
        ctx.label("n>=10", len(model.ids) >= 10)
        ctx.label("style_" + case["style"])

    return gen, check


DENSE = "3 to 10 data, half as many classes or more, 50 to 100 % of the pairs constrained"
BIG = "22 to 60 data"
HUGE = "50 to 150 data"
FEW = "20 to 44 data, one to four cannot-links"
TESTS = [
    Test("hierarchical_few", *make("hierarchical", 44, few=True), rand=240, hyp=0, rule=FEW),
    Test("kmeans_few", *make("kmeans", 44, few=True), rand=160, hyp=0, rule=FEW),
    Test("dbscan_few", *make("dbscan", 44, few=True), rand=400, hyp=0, rule=FEW),
    Test("kmeans_dense", *make("kmeans", 10, dense=True), rand=8000, hyp=300, rule=DENSE),
    Test("hierarchical_dense", *make("hierarchical", 10, dense=True), rand=2400, hyp=100, rule=DENSE),
    Test("dbscan_dense", *make("dbscan", 10, dense=True), rand=8000, hyp=200, rule=DENSE),
    Test("affinity_propagation_dense", *make("affinity_propagation", 10, dense=True), rand=1600, hyp=60, rule=DENSE),
    Test("kmeans_big", *make("kmeans", 60, 22), rand=160, hyp=0, rule=BIG),
    Test("hierarchical_big", *make("hierarchical", 40, 22), rand=80, hyp=0, rule=BIG),
    Test("dbscan_big", *make("dbscan", 60, 22), rand=320, hyp=0, rule=BIG),
    Test("affinity_propagation_big", *make("affinity_propagation", 50, 22), rand=160, hyp=0, rule=BIG),
    Test("kmeans_huge", *make("kmeans", 150, 60), rand=32, hyp=0, rule=HUGE),
    Test("hierarchical_huge", *make("hierarchical", 80, 50), rand=16, hyp=0, rule=HUGE),
    Test("dbscan_huge", *make("dbscan", 150, 60), rand=40, hyp=0, rule=HUGE),
    Test("affinity_propagation_huge", *make("affinity_propagation", 130, 60), rand=32, hyp=0, rule=HUGE),
    Test("kmeans", *make("kmeans", 24), rand=2400, hyp=150),
    Test("hierarchical", *make("hierarchical", 18), rand=2400, hyp=150),
    Test("dbscan", *make("dbscan", 20), rand=6000, hyp=200),
    Test("affinity_propagation", *make("affinity_propagation", 16), rand=2400, hyp=150),
]
