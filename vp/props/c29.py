"""C29: IDs are opaque labels, and only the values of vectors matter, not their storage."""

import numpy as np
from scipy.sparse import csr_matrix

from vp import smp
from vp.clu import FORMATS, build, cluster, gen_data, gen_number, gen_params, manager_of, model_of, repeated_eigenvalue, vectors_of
from vp.engine import Test, require
from vp.mgr import ODD_IDS, gen_history, request, snapshot, require_same

ID = "C29"
RULE = "the same case after an order-preserving renaming of all IDs, or with the same vectors stored otherwise; non-trivial = constraints of both types, or at least two clusters, or a non-empty sample"
ASSUMPTIONS = ["renamings preserve the string order, because samples and cluster numbers follow it by contract", "spectral cases with repeated eigenvalues are not compared (see the finding on C14)"]


def gen_names(d, ids):
    """An order-preserving renaming."""
    ordered = sorted(ids)
    n = len(ordered)
    style = d.choice(["prefix", "pad", "odd", "suffix", "long"])
    if style == "prefix":
        start = d.choice(["x", " ", "é", "0", "-", "MUST_LINK"])
        names = [start + x for x in ordered]
    elif style == "pad":
        first, gap = d.int(0, 50), d.int(1, 40)
        names = [f"{first + gap * i:05d}" for i in range(n)]
    elif style == "odd" and n <= len(ODD_IDS):
        names = sorted(d.sample(ODD_IDS, n))
    elif style == "suffix":
        names = [f"{i:04d}{'~z a0'[d.int(0, 4)]}" for i in range(n)]
    else:
        names = ["a" * (i + 1) for i in range(n)]
    return [[x, y] for x, y in zip(ordered, names)]


def renamed(case, names):
    names = dict(names)
    return dict(case, ids=[names[x] for x in case["ids"]], links=[[names[a], names[b], kind] for a, b, kind in case["links"]])


# --------------------------------------------------------------------------
def gen_manager(d):
    case = gen_history(d, hi_ids=12, hi_ops=40, invalid=10)
    universe = sorted({x for x in case["ids"]} | {x for op in case["ops"] for x in op[1:3] if not (op[0] in ("addid", "delid") and x != op[1])})
    case["names"] = gen_names(d, universe)
    return case


def check_manager(case, ctx):
    names = dict(case["names"])

    def history(rename):
        from vp.mgr import new_manager

        manager = new_manager([rename(x) for x in case["ids"]])
        answers = []
        for op in case["ops"]:
            if op[0] in ("addid", "delid"):
                op = [op[0], rename(op[1])]
            else:
                op = [op[0], rename(op[1]), rename(op[2])] + op[3:]
            try:
                answers.append(request(manager, op))
            except ValueError:
                answers.append("refused")
        return manager, answers

    left, answers = history(lambda x: x)
    right, answers2 = history(lambda x: names.get(x, x))
    require(answers == answers2, f"answers to the requests differ after renaming: {answers} / {answers2}")
    one = snapshot(left)
    one["ids"] = [names[x] for x in one["ids"]]
    one["explicit"] = {(names[a], names[b]): v for (a, b), v in one["explicit"].items()}
    one["inferred"] = {(names[a], names[b]): v for (a, b), v in one["inferred"].items()}
    one["components"] = {frozenset(names[x] for x in c) for c in one["components"]}
    require_same(one, snapshot(right), "after renaming")
    kinds = {v for v in one["inferred"].values()}
    ctx.nontrivial({"MUST_LINK", "CANNOT_LINK"} <= kinds and "refused" in answers)


def make_rename(algorithm, lo, hi):
    def gen(d):
        case = gen_data(d, lo, hi, extras=False)
        n = len(case["ids"])
        case["params"] = gen_params(d, algorithm, n)
        if case["params"].get("tolerance") == 0:
            case["params"]["max_iteration"] = min(10, case["params"]["max_iteration"])
        case["nb"] = gen_number(d, algorithm, n)
        case["names"] = gen_names(d, case["ids"])
        case["mode"] = d.int(0, 1)
        return case

    def check(case, ctx):
        names = dict(case["names"])
        other = renamed(case, case["names"])
        model = model_of(case)
        left = cluster(build(algorithm, case["params"]), manager_of(case, model), vectors_of(case), case["nb"])
        right = cluster(build(algorithm, case["params"]), manager_of(other, model_of(other)), vectors_of(other), case["nb"])
        if algorithm == "spectral" and repeated_eigenvalue(case, model):
            ctx.label("not_reproducible")
            return
        want = {names[x]: c for x, c in left.items()}
        require(want == dict(right), f"{algorithm}: renaming {names} gives {dict(right)} instead of {want}")
        ctx.nontrivial(len(set(left.values())) > 1)

    return gen, check


def gen_sample(d):
    case = smp.gen_round(d, 12)
    case["options"] = smp.gen_options(d)
    case["names"] = gen_names(d, case["ids"])
    case["mode"] = d.int(0, 1)
    case.pop("extra", None)
    return case


def check_sample(case, ctx):
    names = dict(case["names"])
    other = renamed(case, case["names"])
    left = smp.sample(smp.build(case["options"]), manager_of(case, model_of(case)), case, vectors_of(case))
    right = smp.sample(smp.build(case["options"]), manager_of(other, model_of(other)), other, vectors_of(other))
    want = [(names[a], names[b]) for a, b in left]
    require(want == [tuple(p) for p in right], f"renaming {names} with {case['options']} selects {right} instead of {want}")
    ctx.nontrivial(len(left) > 0)


# --------------------------------------------------------------------------
def gen_storage(d, case):
    dim = len(case["vec"][0])
    case["columns"] = sorted(d.int(0, dim) for _ in range(d.int(0, 3)))  # null columns are inserted there
    case["stored"] = d.choice(["csr", "zeros", "csc", "coo", "lil", "mixed", "unsorted"])
    return case


def stored(values, how, number):
    dense = np.array([values], dtype=float)
    if how == "mixed":
        how = ["csr", "zeros", "csc", "coo", "lil"][number % 5]
    if how == "zeros":  # every coordinate stored, null ones too
        return csr_matrix((dense[0].copy(), np.arange(dense.shape[1]), np.array([0, dense.shape[1]])), shape=dense.shape)
    if how == "unsorted":
        where = np.nonzero(dense[0])[0][::-1]
        return csr_matrix((dense[0][where].copy(), where, np.array([0, len(where)])), shape=dense.shape)
    return FORMATS[how](dense)


def restored(case):
    vectors = {}
    for i in case["order"]:
        values = list(case["vec"][i])
        for where in reversed(case["columns"]):
            values.insert(where, 0)
        vectors[case["ids"][i]] = stored([v / case["q"] for v in values], case["stored"], i)
    return vectors


def decided(case, answer, run):
    """Is the answer the same for almost equal vectors (no tie that rounding errors decide)?"""
    scale = max((abs(v) for row in case["vec"] for v in row), default=0) / case["q"] or 1.0
    noise = np.random.RandomState(7)
    for _ in range(16):
        near = {
            x: csr_matrix(np.array([[v / case["q"] + 1e-9 * scale * noise.uniform(-1, 1) for v in case["vec"][i]]]))
            for i, x in enumerate(case["ids"])
        }
        if run(near) != answer:
            return False
    return True


def make_storage(algorithm, lo, hi):
    def gen(d):
        case = gen_data(d, lo, hi, exact=True, extras=False)
        n = len(case["ids"])
        case["params"] = gen_params(d, algorithm, n)
        if case["params"].get("tolerance") == 0:
            case["params"]["max_iteration"] = min(10, case["params"]["max_iteration"])
        case["nb"] = gen_number(d, algorithm, n)
        return gen_storage(d, case)

    def check(case, ctx):
        model = model_of(case)

        def run(vectors):
            return dict(cluster(build(algorithm, case["params"]), manager_of(case, model), vectors, case["nb"]))

        left, right = run(vectors_of(case)), run(restored(case))
        require(left == right or not decided(case, left, run), f"{algorithm}: vectors stored as {case['stored']} with null columns at {case['columns']} give {dict(right)} instead of {dict(left)}")
        ctx.label(case["stored"])
        ctx.nontrivial(len(set(left.values())) > 1)

    return gen, check


def gen_sample_storage(d):
    case = smp.gen_round(d, 12)
    case["options"] = smp.gen_options(d, ("closest_neighbors", "farthest_neighbors"))
    case.pop("extra", None)
    return gen_storage(d, case)


def check_sample_storage(case, ctx):
    def run(vectors):
        return [tuple(p) for p in smp.sample(smp.build(case["options"]), manager_of(case, model_of(case)), case, vectors)]

    left, right = run(vectors_of(case)), run(restored(case))
    require(left == right or not decided(case, left, run), f"vectors stored as {case['stored']} with null columns at {case['columns']}: {case['options']} selects {right} instead of {left}")
    ctx.label(case["stored"])
    ctx.nontrivial(len(left) > 0)


TESTS = [
    Test("rename_kmeans_huge", *make_rename("kmeans", 60, 120), rand=8, hyp=0),
    Test("rename_hierarchical_huge", *make_rename("hierarchical", 45, 70), rand=4, hyp=0),
    Test("rename_spectral_huge", *make_rename("spectral", 60, 120), rand=8, hyp=0),
    Test("rename_dbscan_huge", *make_rename("dbscan", 60, 120), rand=12, hyp=0),
    Test("rename_affinity_propagation_huge", *make_rename("affinity_propagation", 50, 100), rand=8, hyp=0),
    Test("rename_mpckmeans_huge", *make_rename("mpckmeans", 24, 50), rand=4, hyp=0),
    Test("rename_manager", gen_manager, check_manager, rand=2000, hyp=80),
    Test("rename_sampling", gen_sample, check_sample, rand=2000, hyp=80),
    Test("rename_kmeans", *make_rename("kmeans", 1, 14), rand=500, hyp=30),
    Test("rename_hierarchical", *make_rename("hierarchical", 1, 12), rand=500, hyp=30),
    Test("rename_spectral", *make_rename("spectral", 2, 12), rand=300, hyp=20),
    Test("rename_dbscan", *make_rename("dbscan", 1, 14), rand=800, hyp=30),
    Test("rename_affinity_propagation", *make_rename("affinity_propagation", 1, 12), rand=500, hyp=30),
    Test("rename_mpckmeans", *make_rename("mpckmeans", 1, 8), rand=150, hyp=10),
    Test("rename_kmeans_big", *make_rename("kmeans", 14, 40), rand=60, hyp=0),
    Test("rename_hierarchical_big", *make_rename("hierarchical", 12, 26), rand=40, hyp=0),
    Test("rename_spectral_big", *make_rename("spectral", 12, 36), rand=40, hyp=0),
    Test("rename_dbscan_big", *make_rename("dbscan", 14, 40), rand=80, hyp=0),
    Test("rename_affinity_propagation_big", *make_rename("affinity_propagation", 12, 26), rand=60, hyp=0),
    Test("rename_mpckmeans_big", *make_rename("mpckmeans", 8, 16), rand=20, hyp=0),
    Test("storage_kmeans_big", *make_storage("kmeans", 14, 40), rand=60, hyp=0),
    Test("storage_hierarchical_big", *make_storage("hierarchical", 12, 26), rand=40, hyp=0),
    Test("storage_dbscan_big", *make_storage("dbscan", 14, 40), rand=80, hyp=0),
    Test("storage_sampling", gen_sample_storage, check_sample_storage, rand=1500, hyp=60),
    Test("storage_kmeans", *make_storage("kmeans", 1, 14), rand=800, hyp=30),
    Test("storage_hierarchical", *make_storage("hierarchical", 1, 12), rand=800, hyp=30),
    Test("storage_dbscan", *make_storage("dbscan", 1, 14), rand=1200, hyp=30),
]
