"""C28: factories build what they name; parameters outside their domain are refused."""

import ast
import inspect
import re

import numpy as np

from cognitivefactory.interactive_clustering.clustering.abstract import AbstractConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
from cognitivefactory.interactive_clustering.constraints.abstract import AbstractConstraintsManager
from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
from cognitivefactory.interactive_clustering.sampling.abstract import AbstractConstraintsSampling
from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory

from vp.clu import CLASSES, FREE_NUMBER, build, cluster, gen_data, gen_number, gen_params, manager_of, model_of, repeated_eigenvalue, vectors_of
from vp.engine import Test, Violation, require
from vp.mgr import require_same, run_history, snapshot, gen_history
from vp.smp import gen_round, sample
from vp import smp

ID = "C28"
RULE = "one factory call compared with direct construction, or one parameter taken from both sides of its documented boundary; non-trivial = the factory result has two clusters / a non-empty sample, or the parameter is out of its domain"

SAMPLERS = {
    "random": {"clusters_restriction": None, "distance_restriction": None},
    "random_in_same_cluster": {"clusters_restriction": "same_cluster", "distance_restriction": None},
    "farthest_in_same_cluster": {"clusters_restriction": "same_cluster", "distance_restriction": "farthest_neighbors"},
    "closest_in_different_clusters": {"clusters_restriction": "different_clusters", "distance_restriction": "closest_neighbors"},
}


def refused(call, what):
    """The call must raise ValueError."""
    try:
        value = call()
    except ValueError:
        return
    except Exception as err:
        raise Violation(f"{what}: refused with {type(err).__name__} instead of ValueError: {err}") from err
    raise Violation(f"{what}: accepted, gives {value!r}")


def accepted(call, what):
    try:
        return call()
    except ValueError as err:
        raise Violation(f"{what}: refused: {err}") from err


# --------------------------------------------------------------------------
# Factories
# --------------------------------------------------------------------------
def gen_clustering(d):
    algorithm = d.choice(sorted(CLASSES))
    case = gen_data(d, 2, 7 if algorithm == "mpckmeans" else 10)
    case["algorithm"] = algorithm
    case["params"] = gen_params(d, algorithm, len(case["ids"]))
    if case["params"].get("tolerance") == 0:
        case["params"]["tolerance"] = 0.01
    if d.bool(1, 3):  # keep the defaults of the other parameters
        case["params"] = {"random_seed": case["params"]["random_seed"]}
    case["nb"] = gen_number(d, algorithm, len(case["ids"]))
    return case


def check_clustering(case, ctx):
    model = model_of(case)
    vectors = vectors_of(case)
    algorithm, params, nb = case["algorithm"], case["params"], case["nb"]
    made = accepted(lambda: clustering_factory(algorithm=algorithm, **params), f"factory {algorithm} {params}")
    require(isinstance(made, AbstractConstrainedClustering), f"factory {algorithm} gives {type(made)}")
    left = dict(cluster(made, manager_of(case, model), vectors, nb))
    right = dict(cluster(build(algorithm, params), manager_of(case, model), vectors, nb))
    if algorithm == "spectral" and repeated_eigenvalue(case, model):  # not reproducible: finding on C14
        return
    require(left == right, f"factory {algorithm} {params} gives {left}, direct construction {right}")
    if algorithm == "kmeans":
        default = dict(cluster(clustering_factory(**params), manager_of(case, model), vectors, nb))
        require(default == right, f"default factory algorithm gives {default}, k-means {right}")
    ctx.label(algorithm)
    ctx.nontrivial(len(set(left.values())) > 1)


DEFAULTS = {
    "kmeans": {"model": "COP", "max_iteration": 150, "tolerance": 1e-4},
    "hierarchical": {"linkage": "ward"},
    "spectral": {"model": "SPEC", "nb_components": None},
    "dbscan": {"eps": 0.5, "min_samples": 5},
    "affinity_propagation": {"max_iteration": 150, "convergence_iteration": 10, "absolute_must_links": True},
    "mpckmeans": {"model": "MPC", "max_iteration": 150, "w": 1.0},
}


def announced(made, name):
    """The default announced by the documentation of the constructor, as a list of at most one value."""
    line = re.search(rf"^\s*{name} \(.*?Defaults? to `+([^`\n]+)`", inspect.getdoc(type(made).__init__) or "", re.M)
    try:
        return [ast.literal_eval(line.group(1))] if line else []
    except (ValueError, SyntaxError):
        return []


def gen_defaults(d):
    algorithm = d.weighted([(3, "dbscan"), (1, "kmeans"), (2, "hierarchical"), (1, "spectral"), (3, "affinity_propagation"), (1, "mpckmeans")])
    case = gen_data(d, 4, {"dbscan": 30, "mpckmeans": 8}.get(algorithm, 14), extras=False)
    if algorithm == "dbscan":  # distances on both sides of the default radius
        case["q"] *= d.choice([2, 4, 5, 8, 16])
    case["algorithm"] = algorithm
    case["nb"] = gen_number(d, algorithm, len(case["ids"]))
    names = sorted(DEFAULTS[algorithm])
    case["given"] = [name for name in names if d.bool(1, 3)]
    case["seed"] = d.int(0, 20)
    return case


def check_defaults(case, ctx):
    algorithm, nb = case["algorithm"], case["nb"]
    model = model_of(case)
    vectors = vectors_of(case)
    if algorithm == "spectral" and repeated_eigenvalue(case, model):  # not reproducible: finding on C14
        return
    defaults = DEFAULTS[algorithm]
    partial = {name: defaults[name] for name in case["given"]}
    made = build(algorithm, {"random_seed": case["seed"], **partial})
    for name, value in defaults.items():
        for said in announced(made, name):
            require(said == value, f"the documentation of {algorithm} announces {name}={said!r} by default, it is {value!r}")
        shown = getattr(made, name, value)
        require(shown == value, f"{algorithm} with only {partial} given uses {name}={shown!r}, documented default {value!r}")
    left = dict(cluster(made, manager_of(case, model), vectors, nb))
    right = dict(cluster(build(algorithm, {"random_seed": case["seed"], **defaults}), manager_of(case, model), vectors, nb))
    require(left == right, f"{algorithm} with only {partial} given: {left}; with the documented defaults {defaults} given: {right}")
    ctx.label(algorithm)
    ctx.nontrivial(len(set(left.values())) > 1 and len(partial) < len(defaults))


def gen_sampling(d):
    case = gen_round(d, 9, lo=2)
    case["algorithm"] = d.choice(sorted(SAMPLERS))
    case["kargs"] = {"random_seed": d.int(0, 30)}
    for name in ("without_added_constraints", "without_inferred_constraints"):
        if d.bool():
            case["kargs"][name] = d.bool()
    return case


def check_sampling(case, ctx):
    model = model_of(case)
    kargs = case["kargs"]
    options = {**SAMPLERS[case["algorithm"]], **kargs}
    made = accepted(lambda: sampling_factory(algorithm=case["algorithm"], **kargs), f"factory {case['algorithm']} {kargs}")
    require(isinstance(made, AbstractConstraintsSampling), f"factory gives {type(made)}")
    left = [tuple(p) for p in sample(made, manager_of(case, model), case, vectors_of(case), options)]
    right = [tuple(p) for p in sample(smp.build(options), manager_of(case, model), case, vectors_of(case), options)]
    require(left == right, f"factory {case['algorithm']} {kargs} selects {left}, direct construction {right}")
    full = {"without_added_constraints": True, "without_inferred_constraints": True, **options}
    smp.require_sample(left, case, full, model, f"factory {case['algorithm']} {kargs}")
    ctx.label(case["algorithm"])
    ctx.nontrivial(len(left) > 0)


def gen_managing(d):
    case = gen_history(d, hi_ids=8, hi_ops=20)
    case["explicit"] = d.bool()
    return case


def check_managing(case, ctx):
    import vp.mgr as mgr

    names = {"manager": "binary"} if case["explicit"] else {}
    made = managing_factory(list_of_data_IDs=list(case["ids"]), **names)
    require(isinstance(made, AbstractConstraintsManager), f"factory gives {type(made)}")
    direct, model = run_history(case)
    replay = mgr.Model(case["ids"])
    for op in case["ops"]:
        if replay.is_valid(op):
            replay.apply(op)
            accepted(lambda: mgr.request(made, op), f"manager of the factory: {op}")
    require_same(snapshot(made), snapshot(direct), "manager of the factory / direct construction")
    ctx.nontrivial(bool(case["ops"]))


NAMES = {"clustering": sorted(CLASSES), "sampling": sorted(SAMPLERS), "managing": ["binary"]}
STRANGE = ["", " ", "None", "optics", "gmm", "default", "fuzzy", "COP", "MPC", "SPEC", "random_in_different_clusters", "closest_in_same_cluster",
           "farthest_in_different_clusters", "same_cluster", "closest_neighbors", "cop-kmeans", "ward", "0", "1"]


def gen_name(d):
    factory = d.choice(sorted(NAMES))
    name = d.choice([n for names in NAMES.values() for n in names] + STRANGE)
    how = d.int(0, 6)
    if how == 1:
        name = name.upper()
    elif how == 2:
        name = name.capitalize()
    elif how == 3:
        name = d.choice([name + " ", " " + name, name + "\n", name + "s", "_" + name])
    elif how == 4 and name:
        k = d.int(0, len(name) - 1)
        name = name[:k] + name[k + 1 :]
    elif how == 5:
        name = name.replace("_", d.choice(["-", " ", ""]))
    elif how == 6 and name:
        k = d.int(0, len(name) - 1)
        name = name[:k] + d.choice(list("abcdefghij_ ")) + name[k + 1 :]
    return {"factory": factory, "name": name}


def check_name(case, ctx):
    factory, name = case["factory"], case["name"]
    call = {
        "clustering": lambda: clustering_factory(algorithm=name),
        "sampling": lambda: sampling_factory(algorithm=name),
        "managing": lambda: managing_factory(list_of_data_IDs=["a", "b"], manager=name),
    }[factory]
    if name in NAMES[factory]:
        accepted(call, f"{factory} factory: {name!r}")
    else:
        refused(call, f"{factory} factory: unknown name {name!r}")
        ctx.nontrivial(True)
    ctx.label(factory)


# --------------------------------------------------------------------------
# Constructors of clustering algorithms
# --------------------------------------------------------------------------
INTS_FROM_1 = ([1, 2, 3, 7, 100, 10**6], [0, -1, -2, -150, -(10**9)])
NOT_NEGATIVE = ([0, 0.0, 1e-300, 1e-9, 0.5, 1, 3, 1e6], [-1e-300, -1e-12, -0.1, -1, -1e9, -1e308])
DOMAINS = {
    "kmeans": {
        "model": (["COP"], ["cop", "MPC", "", "COP ", "SPEC", "HMRF"]),
        "max_iteration": ([1, 2, 3, 7, 100], INTS_FROM_1[1]),
        "tolerance": NOT_NEGATIVE,
    },
    "hierarchical": {"linkage": (["ward", "average", "complete", "single"], ["Ward", "centroid", "median", "", "WARD", "single ", "weighted", "mean"])},
    "spectral": {
        "model": (["SPEC"], ["spec", "CCSR", "", "SPEC ", "COP", "MPC"]),
        "nb_components": ([None, 2, 3, 10], [1, 0, -1, -2, -100]),
    },
    "dbscan": {
        "eps": ([1e-300, 1e-9, 0.1, 1, 3.5, 1e9], [0, 0.0, -1e-300, -1e-9, -1, -1e9]),
        "min_samples": INTS_FROM_1,
    },
    "affinity_propagation": {
        "max_iteration": ([1, 2, 3, 7, 100], INTS_FROM_1[1]),
        "convergence_iteration": INTS_FROM_1,
    },
    "mpckmeans": {
        "model": (["MPC"], ["mpc", "COP", "", "MPC ", "SPEC"]),
        "max_iteration": ([1, 2, 3, 7], INTS_FROM_1[1]),
        "w": NOT_NEGATIVE,
    },
}


def gen_domain(d):
    algorithm = d.choice(sorted(CLASSES))
    domain = DOMAINS[algorithm]
    params = {}
    for name in sorted(domain):
        good, bad = domain[name]
        if d.bool(1, 2):
            inside = d.bool(3, 5)
            params[name] = [inside, d.choice(good if inside else bad)]
    return {"algorithm": algorithm, "params": params, "seed": d.int(0, 9), "factory": d.bool()}


def check_domain(case, ctx):
    algorithm = case["algorithm"]
    params = {name: value for name, (_, value) in case["params"].items()}
    inside = all(ok for ok, _ in case["params"].values())
    if case["factory"]:
        call = lambda: clustering_factory(algorithm=algorithm, random_seed=case["seed"], **params)
    else:
        call = lambda: CLASSES[algorithm](random_seed=case["seed"], **params)
    what = f"{algorithm} with {params}"
    ctx.label(f"{algorithm} {'inside' if inside else 'outside'}")
    if not inside:
        refused(call, what)
        ctx.nontrivial(True)
        return
    made = accepted(call, what)
    # Accepted parameters are usable.
    small = {"ids": ["b", "a", "d", "c", "e"], "vec": [[0, 0], [0, 1], [5, 5], [5, 6], [9, 0]], "q": 1, "order": [0, 1, 2, 3, 4],
             "links": [["a", "b", "MUST_LINK"], ["c", "a", "CANNOT_LINK"]], "mode": 0}
    if params.get("max_iteration", 0) > 1000 or (params.get("tolerance") is not None and params["tolerance"] < 1e-9 and params.get("max_iteration", 150) > 10):
        return
    result = accepted(lambda: cluster(made, manager_of(small, model_of(small)), vectors_of(small), None if algorithm in FREE_NUMBER else 2), what + ", clustering")
    require(set(result) == set(small["ids"]), f"{what}: clusters {sorted(result)}")


# --------------------------------------------------------------------------
# Clustering calls
# --------------------------------------------------------------------------
BAD_MANAGERS = ["none", "dict", "ids", "name", "class", "number", "vectors"]
BAD_VECTORS = ["none", "pairs", "array", "matrix", "values", "name", "keys"]


def bad_manager(kind, case):
    return {
        "none": None,
        "dict": {x: {} for x in case["ids"]},
        "ids": list(case["ids"]),
        "name": "binary",
        "class": BinaryConstraintsManager,
        "number": 0,
        "vectors": vectors_of(case),
    }[kind]


def bad_vectors(kind, case):
    vectors = vectors_of(case)
    return {
        "none": None,
        "pairs": list(vectors.items()),
        "array": np.array(case["vec"], dtype=float),
        "matrix": next(iter(vectors.values())),
        "values": list(vectors.values()),
        "name": "tfidf",
        "keys": set(vectors),
    }[kind]


def gen_call(d):
    algorithm = d.choice(sorted(CLASSES))
    case = gen_data(d, 2, 6)
    n = len(case["ids"])
    case["algorithm"] = algorithm
    case["params"] = gen_params(d, algorithm, n)
    if case["params"].get("tolerance") == 0:
        case["params"]["tolerance"] = 0.01
    case["nb"] = gen_number(d, algorithm, n)
    case["wrong"] = d.choice([["manager"], ["vectors"], ["number"], ["number"], ["number", "vectors"], ["manager", "number"], ["manager", "vectors"]])
    case["bad_manager"] = d.choice(BAD_MANAGERS)
    case["bad_vectors"] = d.choice(BAD_VECTORS)
    case["bad_number"] = d.choice([2, 3, 1, 0, n, -1, 10]) if algorithm in FREE_NUMBER else d.choice([None, 1, 0, -1, -2, -n, -(10**6), 1.5])
    case["used"] = d.bool()
    return case


def check_call(case, ctx):
    algorithm = case["algorithm"]
    model = model_of(case)
    manager, vectors = manager_of(case, model), vectors_of(case)
    before = snapshot(manager)
    fresh = dict(cluster(build(algorithm, case["params"]), manager, vectors, case["nb"]))
    made = build(algorithm, case["params"])
    if case["used"]:
        cluster(made, manager, vectors, case["nb"])
    arguments = {
        "constraints_manager": bad_manager(case["bad_manager"], case) if "manager" in case["wrong"] else manager,
        "vectors": bad_vectors(case["bad_vectors"], case) if "vectors" in case["wrong"] else vectors,
        "nb_clusters": case["bad_number"] if "number" in case["wrong"] else case["nb"],
    }
    shown = {"manager": case["bad_manager"], "vectors": case["bad_vectors"], "number": case["bad_number"]}
    what = f"{algorithm}.cluster with wrong {[(w, shown[w]) for w in case['wrong']]}"
    refused(lambda: made.cluster(**arguments), what)
    if "vectors" not in case["wrong"]:  # refused before computing anything: no vector is needed
        refused(lambda: made.cluster(**dict(arguments, vectors={})), what + ", no vectors at all")
    require_same(snapshot(manager), before, f"{what}: the manager after the refused call")
    after = dict(cluster(made, manager, vectors, case["nb"]))
    if algorithm == "spectral" and repeated_eigenvalue(case, model):  # not reproducible: finding on C14
        after = fresh
    require(after == fresh, f"{what}: after the refused call the object gives {after}, a new one {fresh}")
    ctx.label(algorithm)
    ctx.nontrivial(True)


# --------------------------------------------------------------------------
# Sampling
# --------------------------------------------------------------------------
SAMPLING_DOMAIN = {
    "clusters_restriction": ([None, "same_cluster", "different_clusters"], ["", "same_clusters", "different_cluster", "SAME_CLUSTER", "closest_neighbors", "same_cluster ", 0, 1, True, False]),
    "distance_restriction": ([None, "closest_neighbors", "farthest_neighbors"], ["", "closest", "farthest", "closest_neighbor", "CLOSEST_NEIGHBORS", "same_cluster", " farthest_neighbors", 0, 1, True, False]),
    "without_added_constraints": ([True, False], [0, 1, None, "True", "", 1.0, []]),
    "without_inferred_constraints": ([True, False], [0, 1, None, "False", "", 0.0, []]),
}


def gen_sampler(d):
    params = {}
    for name in sorted(SAMPLING_DOMAIN):
        if d.bool(1, 2):
            inside = d.bool(2, 3)
            params[name] = [inside, d.choice(SAMPLING_DOMAIN[name][0 if inside else 1])]
    return {"params": params}


def check_sampler(case, ctx):
    params = {name: value for name, (_, value) in case["params"].items()}
    inside = all(ok for ok, _ in case["params"].values())
    call = lambda: ClustersBasedConstraintsSampling(random_seed=1, **params)
    if inside:
        accepted(call, f"sampler with {params}")
    else:
        refused(call, f"sampler with {params}")
        ctx.nontrivial(True)


def gen_sample_call(d):
    case = gen_round(d, 6, lo=2)
    case["options"] = smp.gen_options(d)
    case["nb"] = max(1, min(case["nb"], 20))
    wrongs = [["manager"], ["nb"], ["nb"]]
    if case["options"]["clusters_restriction"]:
        wrongs += [["clustering"], ["clustering"]]
    if case["options"]["distance_restriction"]:
        wrongs += [["vectors"], ["vectors"]]
    case["wrong"] = d.choice(wrongs)
    case["bad_manager"] = d.choice(BAD_MANAGERS)
    case["bad_vectors"] = d.choice(BAD_VECTORS + ["absent"])
    case["bad_nb"] = d.choice([-1, -2, -(10**6), 1.0, 2.5, "3", "", None, [1]])
    case["bad_clustering"] = d.choice(["absent", "none", "labels", "pairs", "name", "array"])
    return case


def check_sample_call(case, ctx):
    model = model_of(case)
    manager, vectors, options = manager_of(case, model), vectors_of(case), case["options"]
    before = snapshot(manager)
    clustering = smp.clustering_of(case)
    sampler = smp.build(options)
    arguments = {"constraints_manager": manager, "nb_to_select": case["nb"], "clustering_result": clustering, "vectors": vectors}
    (wrong,) = case["wrong"]
    if wrong == "manager":
        arguments["constraints_manager"] = bad_manager(case["bad_manager"], case)
    elif wrong == "nb":
        arguments["nb_to_select"] = case["bad_nb"]
    elif wrong == "clustering":
        kind = case["bad_clustering"]
        if kind == "absent":
            del arguments["clustering_result"]
        else:
            arguments["clustering_result"] = {
                "none": None, "labels": list(clustering.values()), "pairs": list(clustering.items()), "name": "kmeans",
                "array": np.array(list(clustering.values())),
            }[kind]
    else:
        if case["bad_vectors"] == "absent":
            del arguments["vectors"]
        else:
            arguments["vectors"] = bad_vectors(case["bad_vectors"], case)
    shown = {"manager": case["bad_manager"], "nb": case["bad_nb"], "clustering": case["bad_clustering"], "vectors": case["bad_vectors"]}
    what = f"sample with wrong {wrong} ({shown[wrong]!r}), {options}"
    refused(lambda: sampler.sample(**arguments), what)
    if wrong == "manager" or wrong == "nb":  # refused before computing anything
        refused(lambda: sampler.sample(**dict(arguments, vectors={})), what + ", no vectors at all")
    require_same(snapshot(manager), before, f"{what}: the manager after the refused call")
    after = [tuple(p) for p in sample(sampler, manager, case, vectors, options)]
    fresh = [tuple(p) for p in sample(smp.build(options), manager, case, vectors, options)]
    require(after == fresh, f"{what}: after the refused call the sampler selects {after}, a new one {fresh}")
    ctx.label(wrong)
    ctx.nontrivial(True)


TESTS = [
    Test("clustering_factory", gen_clustering, check_clustering, rand=500, hyp=30),
    Test("defaults", gen_defaults, check_defaults, rand=900, hyp=40),
    Test("sampling_factory", gen_sampling, check_sampling, rand=900, hyp=40),
    Test("managing_factory", gen_managing, check_managing, rand=500, hyp=30),
    Test("names", gen_name, check_name, rand=2000, hyp=100),
    Test("constructors", gen_domain, check_domain, rand=2500, hyp=100),
    Test("cluster_calls", gen_call, check_call, rand=600, hyp=40),
    Test("samplers", gen_sampler, check_sampler, rand=1500, hyp=50),
    Test("sample_calls", gen_sample_call, check_sample_call, rand=900, hyp=50),
]
