"""C14: a fixed seed makes clustering reproducible whatever happened before."""

from vp.child import ask
from vp.clu import build, cluster, gen_data, gen_number, gen_params, manager_of, model_of, prepared, repeated_eigenvalue, shake, vectors_of
from vp.engine import Test, require

ID = "C14"
RULE = "the same call on a new object, on an object used before on other data, after disturbing the global generators, in another interpreter with another hash seed, with the vectors in another order with vectors of unmanaged data, and verbose; non-trivial = at least two clusters of different sizes"


def make(algorithm, lo, hi):
    def gen(d):
        case = gen_data(d, lo, hi, extras=False)
        n = len(case["ids"])
        case["params"] = gen_params(d, algorithm, n)
        if case["params"].get("tolerance") == 0 and case["params"]["max_iteration"] > 10:
            case["params"]["max_iteration"] = 10
        case["nb"] = gen_number(d, algorithm, n)
        case["other"] = gen_data(d, max(lo, 2), min(hi, 8), extras=False)
        case["other_nb"] = gen_number(d, algorithm, len(case["other"]["ids"]))
        case["order2"] = d.shuffle(range(n))
        case["shake"] = [d.int(0, 9999), d.int(0, 9999), d.int(0, 9999)]
        dim = len(case["vec"][0])
        case["more"] = [[d.int(-3, 30) for _ in range(dim)] for _ in range(d.int(1, 3))]
        case["front"] = d.bool()
        case["elsewhere"] = d.bool(1, 3)
        if d.bool():
            case["earlier"] = d.int(1, 15)
        return case

    def check(case, ctx):
        model = model_of(case)
        manager = manager_of(case, model)
        nb = case["nb"]

        def same(result, message, want=None):
            if result == (base if want is None else want):
                return
            if algorithm == "spectral" and repeated_eigenvalue(case, model):
                ctx.known("C14", "spectral-repeated-eigenvalue", message)
            else:
                require(False, message)

        shake(case["shake"][0])
        base = dict(cluster(build(algorithm, case["params"]), manager, vectors_of(case), nb))

        shake(case["shake"][1])
        again = cluster(build(algorithm, case["params"]), manager, vectors_of(case), nb)
        same(dict(again), f"a second object with the same seed gives {dict(again)}, first {base}")

        other = case["other"]
        other_model = model_of(other)
        used = build(algorithm, case["params"])
        shake(case["shake"][2])
        cluster(used, manager_of(other, other_model), vectors_of(other), case["other_nb"])
        reused = cluster(used, manager, vectors_of(case), nb)
        same(dict(reused), f"an object already used gives {dict(reused)}, a new one {base}")
        repeated = cluster(used, manager, vectors_of(case), nb)
        same(dict(repeated), f"the same call repeated gives {dict(repeated)}, first {base}")

        if "earlier" in case:  # used on an earlier state of the same manager and vectors
            kept = build(algorithm, case["params"])
            evolved, vectors = prepared(kept, dict(case, before=case["earlier"]), model, nb)
            kept_result = dict(cluster(kept, evolved, vectors, nb))
            shake(case["shake"][1])
            fresh_result = dict(cluster(build(algorithm, case["params"]), evolved, vectors, nb))
            same(kept_result, f"an object used on an earlier state of the same manager and vectors gives {kept_result}, a new one {fresh_result}", fresh_result)

        shuffled = cluster(build(algorithm, case["params"]), manager, vectors_of(case, order=case["order2"]), nb)
        same(dict(shuffled), f"vectors in another order give {dict(shuffled)}, first {base}")

        extended = dict(case, extra=case["more"] + ([[0] * len(case["vec"][0])] if case["front"] == bool(len(case["more"]) % 2) else []))
        more = cluster(build(algorithm, case["params"]), manager, vectors_of(extended), nb)
        same(dict(more), f"vectors of unmanaged data change the result: {dict(more)}, first {base}")

        talkative = cluster(build(algorithm, case["params"]), manager, vectors_of(case), nb, verbose=True)
        same(dict(talkative), f"verbose=True changes the result: {dict(talkative)}, first {base}")

        if case["elsewhere"]:
            reply = ask({"what": "cluster", "algorithm": algorithm, "case": case})
            require("ok" in reply, "in another interpreter:", reply)
            same(reply["ok"], f"another interpreter (other hash seed) gives {reply['ok']}, first {base}")
            ctx.label("other_interpreter")

        # The same knowledge reached by another history of the manager.
        alternative = manager_of(dict(case, mode=(case["mode"] + 1) % 3), model)
        if algorithm in ("kmeans", "spectral", "mpckmeans"):
            other = cluster(build(algorithm, case["params"]), alternative, vectors_of(case), nb)
            if alternative.get_connected_components() == manager.get_connected_components():
                same(dict(other), f"a manager with the same knowledge gives {dict(other)}, first {base}")
        sizes = sorted(list(base.values()).count(c) for c in set(base.values()))
        ctx.nontrivial(len(sizes) > 1 and sizes[0] != sizes[-1])

    return gen, check


TESTS = [
    Test("kmeans_huge", *make("kmeans", 60, 120), rand=8, hyp=0),
    Test("hierarchical_huge", *make("hierarchical", 45, 70), rand=4, hyp=0),
    Test("spectral_huge", *make("spectral", 60, 120), rand=8, hyp=0),
    Test("dbscan_huge", *make("dbscan", 60, 120), rand=12, hyp=0),
    Test("affinity_propagation_huge", *make("affinity_propagation", 50, 100), rand=8, hyp=0),
    Test("mpckmeans_huge", *make("mpckmeans", 24, 50), rand=4, hyp=0),
    Test("kmeans", *make("kmeans", 1, 16), rand=500, hyp=30),
    Test("hierarchical", *make("hierarchical", 1, 12), rand=500, hyp=30),
    Test("spectral", *make("spectral", 2, 14), rand=250, hyp=20),
    Test("dbscan", *make("dbscan", 1, 14), rand=700, hyp=30),
    Test("affinity_propagation", *make("affinity_propagation", 1, 12), rand=500, hyp=30),
    Test("mpckmeans", *make("mpckmeans", 1, 8), rand=120, hyp=10),
    Test("kmeans_big", *make("kmeans", 16, 36), rand=100, hyp=0),
    Test("hierarchical_big", *make("hierarchical", 12, 24), rand=60, hyp=0),
    Test("spectral_big", *make("spectral", 14, 36), rand=60, hyp=0),
    Test("dbscan_big", *make("dbscan", 14, 36), rand=120, hyp=0),
    Test("affinity_propagation_big", *make("affinity_propagation", 12, 24), rand=100, hyp=0),
    Test("mpckmeans_big", *make("mpckmeans", 8, 16), rand=24, hyp=0),
]
