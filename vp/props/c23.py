"""C23: the interactive loop with a truthful annotator converges to the truth."""

import os

from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
from cognitivefactory.interactive_clustering.constraints.binary import load_constraints_manager_from_json
from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory

from vp.clu import cluster, gen_data, partition, plain, require_constraints, vectors_of
from vp.engine import Test, require
from vp.mgr import components_of, request, require_model
from vp.model import CL, ML, Model

ID = "C23"
RULE = "complete loops sampling -> truthful annotation -> clustering, with saves, reloads and retractions; non-trivial = at least two hidden classes, one with several data, and some pair known by inference only at the end"
SAMPLERS = ["random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters"]


def gen(d, lo=2, hi=11):
    case = gen_data(d, lo, hi, exact=True)
    n = len(case["ids"])
    k = d.weighted([(3, d.int(1, min(n, 3))), (3, d.int(1, min(n, 5))), (1, n)])
    case["truth"] = [d.int(0, k - 1) for _ in range(n)]
    case["links"] = []
    case["plan"] = [
        {
            "sampler": d.choice(SAMPLERS),
            "algorithm": d.choice(["kmeans", "hierarchical", "dbscan", "kmeans"]),
            "nb": d.int(2, n),
            "batch": d.weighted([(4, 1), (3, d.int(1, 4)), (1, d.int(1, 20))]),
            "seed": d.int(0, 99),
            "reload": d.bool(1, 8),
            "retract": d.bool(1, 10),
            "flip": d.bool(),
        }
        for _ in range(d.int(2, 6))
    ]
    case["final"] = d.int(2, n + 1)
    case["keep"] = d.bool()
    return case


def check(case, ctx):
    ids = case["ids"]
    truth = dict(zip(ids, case["truth"]))
    vectors = vectors_of(case)
    manager = managing_factory(list_of_data_IDs=list(ids), manager="binary")
    model = Model(ids)
    pairs = len(ids) * (len(ids) - 1) // 2
    done, retracted, turn = 0, 0, 0
    labels = {x: 0 for x in ids}
    objects: dict = {}

    def kept(factory, **options):
        """A new object, or in some cases the one used in earlier rounds."""
        key = (factory.__name__, tuple(sorted(options.items())))
        if key not in objects or not case.get("keep"):
            objects[key] = factory(**options)
        return objects[key]

    while True:
        step = case["plan"][turn % len(case["plan"])]
        turn += 1
        require(turn <= 4 * pairs + 20, f"{turn} rounds for {pairs} pairs: the loop does not end")
        sampler = kept(sampling_factory, algorithm=step["sampler"], without_inferred_constraints=True, random_seed=step["seed"])
        sample = sampler.sample(constraints_manager=manager, nb_to_select=step["batch"], clustering_result=labels, vectors=vectors)
        if not sample:  # nothing left for this strategy: any pair
            anything = kept(sampling_factory, algorithm="random", without_inferred_constraints=True, random_seed=step["seed"])
            sample = anything.sample(constraints_manager=manager, nb_to_select=step["batch"])
        complete = manager.check_completude_of_constraints()
        require(complete == model.complete(), f"complete: {complete}, expected {model.complete()}")
        require(bool(sample) == (not complete), f"sampling gives {sample} although completeness is {complete}")
        if not sample:
            break
        first = tuple(sample[0])
        require(model.inferred(*first) is None, f"the sampled pair {first} is already known")
        for a, b in sample:
            kind = ML if truth[a] == truth[b] else CL
            if step["flip"]:
                a, b = b, a
            try:
                accepted = request(manager, ["addc", a, b, kind])
            except ValueError as err:
                require(False, f"truthful annotation {(a, b, kind)} refused: {err}")
            require(accepted is True, f"truthful annotation {(a, b, kind)} returned {accepted!r}")
            model.apply(["addc", a, b, kind])
            done += 1
        require(model.inferred(*first) is not None, "no new knowledge")
        if step["retract"] and model.cons and retracted < 3:
            a, b = sorted(model.cons)[step["seed"] % len(model.cons)]
            request(manager, ["delc", b, a])
            model.apply(["delc", b, a])
            retracted += 1
        if step["reload"]:
            path = os.path.join(ctx.scratch, f"loop-{os.getpid()}.json")
            manager.to_json(path)
            manager = load_constraints_manager_from_json(path)
            os.remove(path)
            ctx.label("reloads")
        algorithm = step["algorithm"]
        kargs = {"dbscan": {"eps": 1.5, "min_samples": 2}, "kmeans": {"max_iteration": 5}}.get(algorithm, {})
        algo = kept(clustering_factory, algorithm=algorithm, random_seed=step["seed"], **kargs)
        labels = plain(cluster(algo, manager, vectors, None if algorithm == "dbscan" else step["nb"]))
        require_constraints(labels, model, True, True, f"{algorithm} in round {turn}")
    require(done - retracted <= pairs, f"{done} annotations for {pairs} pairs")
    require_model(manager, model, "at the end", explicit=True)
    classes = partition(truth)
    require(components_of(manager) == classes, f"components {components_of(manager)}, hidden classes {classes}")
    if len(classes) > 1:
        bounds = manager.get_min_and_max_number_of_clusters()
        require(tuple(bounds) == (len(classes), len(classes)), f"range {bounds}, there are {len(classes)} classes")
    for algorithm in ("kmeans", "hierarchical", "dbscan"):
        kargs = {"eps": 1.5, "min_samples": 2} if algorithm == "dbscan" else {}
        algo = clustering_factory(algorithm=algorithm, random_seed=3, **kargs)
        result = plain(cluster(algo, manager, vectors, None if algorithm == "dbscan" else case["final"]))
        require(partition(result) == classes, f"{algorithm} in {case['final']} gives {result}, the truth is {truth}")
    known = sum(1 for i, a in enumerate(ids) for b in ids[i + 1 :] if model.added(a, b) is None)
    ctx.nontrivial(1 < len(classes) < len(ids) and known)
    ctx.label(f"classes_{min(len(classes), 6)}")


TESTS = [
    Test("big", lambda d: gen(d, 12, 22), check, rand=60, hyp=0, rule="12 to 22 data"),
    Test("huge", lambda d: gen(d, 26, 45), check, rand=16, hyp=0, rule="26 to 45 data"),
    Test("loop", gen, check, rand=1200, hyp=60),
]
