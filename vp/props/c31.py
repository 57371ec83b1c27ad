"""C31: affinity propagation with soft must-links = standard affinity propagation of the data and one point per must-link group."""

import numpy as np

from vp.clu import build, cluster, distances_of, gen_data, gen_params, manager_of, model_of, partition, plain, run_prepared, vectors_of
from vp.engine import Test, require
from vp.props.c21 import groups_of, reference

ID = "C31"
RULE = "clusters compared with scikit-learn's affinity propagation of an independent similarity of data and group points, where neither depends on noise of the size of rounding errors; non-trivial = compared, several clusters and at least one group of several data"
ASSUMPTIONS = ["scikit-learn's affinity propagation is trusted as the standard method"]


def similarity_of(model, groups, dist, level=0.0, state=None):
    """Similarity of the data, and of data and groups; with noise on the data (and so on the groups) if level > 0."""
    ids = model.ids
    data = np.array([[-dist[a, b] for b in ids] for a in ids])
    if level:
        data = data * (1 + level * state.randn(*data.shape))
    place = {x: i for i, x in enumerate(ids)}
    cross = np.array([[0.0 if a in g else max(data[place[a], place[b]] for b in g) for g in groups] for a in ids])
    far = 2 * data.min() * np.ones((len(groups), len(groups)))
    return data, np.block([[data, cross], [cross.T, far]])


def restrict(outcome, ids):
    """Partition of the data only (the points of groups are left out)."""
    if outcome is None:
        return {frozenset(ids)}
    return {frozenset(x[1] for x in g if x[0] == "datum") for g in outcome} - {frozenset()}


def propagate(model, groups, dist, params, noise):
    data, whole = similarity_of(model, groups, dist)
    median = np.median(data)
    if noise >= 1000:  # noise on the data only: data and the points of their groups remain exact doubles
        state = np.random.RandomState(noise)
        data, whole = similarity_of(model, groups, dist, 2.2 * 10.0 ** -(10 + noise % 7), state)
    names = [{("datum", x)} for x in model.ids] + [{("group", k)} for k in range(len(groups))]
    return restrict(reference(whole, names, params, noise, preference=median, silent=noise >= 1000), model.ids)


def same_for_seeds(case, model, got, count):
    for seed in range(1, count + 1):
        algo = build("affinity_propagation", dict(case["params"], random_seed=case["params"]["random_seed"] // 2 + 77 * seed))
        if partition(plain(cluster(algo, manager_of(case, model), vectors_of(case), None))) != got:
            return False
    return True


def gen(d, lo=2, hi=10):
    case = gen_data(d, lo, hi, wide=True)
    case["params"] = gen_params(d, "affinity_propagation", len(case["ids"]))
    case["params"]["absolute_must_links"] = False
    if d.bool(2, 3):
        case["params"]["max_iteration"] = 400
    return case


def gen_spread(d, lo=2, hi=10):
    """Data without ties, in several areas, so that the result is determined."""
    case = gen(d, lo, hi)
    dim = d.int(1, 3)
    areas = [[d.int(-300, 300) for _ in range(dim)] for _ in range(d.int(1, 4))]
    width = d.choice([30, 100, 300])
    case["vec"] = [[c + d.int(-width, width) for c in d.choice(areas)] for _ in case["ids"]]
    case["q"] = 100
    case.pop("extra", None)
    case["params"].update(max_iteration=400, convergence_iteration=d.choice([10, 15, 30]))
    return case


def check(case, ctx):
    model = model_of(case)
    dist = distances_of(case)
    result = plain(run_prepared(build("affinity_propagation", case["params"]), case, model, None))
    got = partition(result)
    groups = groups_of(model)
    scale = 1 + max(dist.values())
    values = [dist[a, b] for i, a in enumerate(model.ids) for b in model.ids[i + 1 :]]
    if max(values) - min(values) <= 1e-9 * scale:
        ctx.label("all_equal")
        if case["q"] == 1 and max(values) == min(values):
            require(len(got) == len(model.ids), f"all data are at the same distance: expected one cluster per datum, got {result}")
        return
    want = propagate(model, groups, dist, case["params"], 0)
    if any(propagate(model, groups, dist, case["params"], noise) != want for noise in (7, 14, 1001, 1004, 1007, 1014, 1021)):
        ctx.label("unstable_reference")
        return
    if not same_for_seeds(case, model, got, 2):
        ctx.label("seed_decides")
        return
    if got != want:
        if not same_for_seeds(case, model, got, 40):
            ctx.label("seed_decides")
            return
        for noise in [*range(15, 120), *range(1022, 1200)]:
            if got == propagate(model, groups, dist, case["params"], noise):
                ctx.label("unstable_reference")
                return
    require(got == want, f"clusters {sorted(map(sorted, got))}, but affinity propagation of data and group points gives {sorted(map(sorted, want))}")
    ctx.label("compared")
    ctx.label("one_cluster", len(want) == 1)
    ctx.nontrivial(len(want) > 1 and len(groups) < len(model.ids))


TESTS = [
    Test("soft", gen, check, rand=1200, hyp=40),
    Test("big", lambda d: gen_spread(d, 10, 24), check, rand=120, hyp=0, rule="10 to 24 data"),
    Test("huge", lambda d: gen_spread(d, 40, 80), check, rand=40, hyp=0, rule="40 to 80 data"),
    Test("spread", gen_spread, check, rand=2000, hyp=40),
]
