"""C21: strict-must-link affinity propagation = standard affinity propagation of the must-link groups."""

import warnings

import numpy as np
from sklearn.cluster import affinity_propagation
from sklearn.exceptions import ConvergenceWarning

from vp.clu import build, cluster, distances_of, gen_data, gen_params, manager_of, model_of, partition, plain, run_prepared, vectors_of
from vp.engine import Test, require

ID = "C21"
RULE = "groups (must-link components) compared with scikit-learn's affinity propagation on an independent similarity of the groups, where neither depends on noise of the size of rounding errors, and with an exemplar predicate; non-trivial = compared, several clusters, at least one group of several data or ten data"
ASSUMPTIONS = ["scikit-learn's affinity propagation is trusted as the standard method"]


class Silent(np.random.RandomState):
    """A generator without noise."""

    def randn(self, *shape):
        return np.zeros(shape)

    def standard_normal(self, size=None):
        return np.zeros(size)


def groups_of(model):
    return sorted(model.components(), key=lambda g: min(model.ids.index(x) for x in g))


def group_similarity(groups, dist):
    return np.array([[-min(dist[a, b] for a in g for b in h) for h in groups] for g in groups])


def reference(similarity, groups, params, noise, preference=None, silent=False):
    """Partition, or None without convergence.  Data and preference are disturbed by a relative 1e-9 or less."""
    state = np.random.RandomState(noise)
    level = 0.0 if noise == 0 or silent else 10.0 ** -(9 + noise % 8)
    preference = (np.median(similarity) if preference is None else preference) * (1 + level * state.randn())
    similarity = similarity * (1 + level * state.randn(*similarity.shape))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        centers, labels = affinity_propagation(
            similarity,
            preference=preference,
            convergence_iter=params["convergence_iteration"],
            max_iter=params["max_iteration"],
            damping=0.5,
            random_state=Silent() if silent else noise,
        )
    if any(issubclass(w.category, ConvergenceWarning) for w in caught):
        return None
    out: dict = {}
    for g, label in zip(groups, labels):
        out.setdefault(int(label), set()).update(g)
    return {frozenset(x) for x in out.values()}


def same_for_seeds(case, model, got, count):
    """Does another seed (another noise of the size of rounding errors) give the same clusters?"""
    for seed in range(1, count + 1):
        algo = build("affinity_propagation", dict(case["params"], random_seed=case["params"]["random_seed"] // 2 + 77 * seed))
        if partition(plain(cluster(algo, manager_of(case, model), vectors_of(case), None))) != got:
            return False
    return True


def gen(d, lo=2, hi=14):
    case = gen_data(d, lo, hi, wide=True)
    case["params"] = gen_params(d, "affinity_propagation", len(case["ids"]))
    case["params"]["absolute_must_links"] = True
    if d.bool(1, 2):
        case["params"]["max_iteration"] = 400
    return case


def check(case, ctx):
    model = model_of(case)
    dist = distances_of(case)
    result = plain(run_prepared(build("affinity_propagation", case["params"]), case, model, None))
    got = partition(result)
    groups = groups_of(model)
    similarity = group_similarity(groups, dist)
    scale = 1 + max(dist.values())
    slack = 1e-6 * scale

    # Exemplars: in each cluster some group such that all the others prefer it to the other exemplars.
    where = [result[min(g)] for g in groups]
    for g in groups:
        require(len({result[x] for x in g}) == 1, f"must-link group {sorted(g)} is split: {result}")
    labels = sorted(set(where))
    if 1 < len(labels) and np.prod([where.count(c) for c in labels], dtype=float) <= 20000:
        members = [[i for i in range(len(groups)) if where[i] == c] for c in labels]
        require(exists_exemplars(members, similarity, slack), f"no choice of exemplars explains {sorted(map(sorted, got))}")
        ctx.label("exemplars")

    # Differential.
    if len(groups) < 2:
        return
    values = [dist[a, b] for i, a in enumerate(model.ids) for b in model.ids[i + 1 :]]
    if max(values) - min(values) <= 1e-9 * scale:
        ctx.label("all_equal")
        want = {frozenset(g) for g in groups}
        exact = case["q"] == 1 and (max(values) == min(values))
        if exact:
            require(got == want, f"all data are at the same distance: expected one cluster per group, got {sorted(map(sorted, got))}")
        return
    off = similarity[~np.eye(len(groups), dtype=bool)]
    if off.max() - off.min() <= 1e-9 * scale and np.median(similarity) < off.min() + slack:
        ctx.label("equal_groups")
        return
    outcomes = [reference(similarity, groups, case["params"], noise) for noise in (0, 7, 8, 14)]
    want = outcomes[0]
    if any(outcome != want for outcome in outcomes):
        ctx.label("unstable_reference")
        return
    if not same_for_seeds(case, model, got, 3):
        ctx.label("seed_decides")
        return
    expected = {frozenset(model.ids)} if want is None else want
    if got != expected:
        if not same_for_seeds(case, model, got, 40):
            ctx.label("seed_decides")
            return
        for noise in range(15, 200):  # does rounding decide after all?
            outcome = reference(similarity, groups, case["params"], noise)
            if got == ({frozenset(model.ids)} if outcome is None else outcome):
                ctx.label("unstable_reference")
                return
    require(got == expected, f"clusters {sorted(map(sorted, got))}, but affinity propagation of the groups gives {sorted(map(sorted, expected))} ({'no ' if want is None else ''}convergence)")
    ctx.label("compared")
    ctx.label("no_convergence", want is None)
    ctx.nontrivial(want is not None and len(want) > 1 and (len(groups) < len(model.ids) or len(model.ids) >= 10))


def exists_exemplars(members, similarity, slack):
    """Backtracking over one exemplar per cluster."""
    chosen: list = []

    def compatible(new_cluster, new):
        # no member of an earlier cluster prefers `new`, no member of the new cluster prefers an earlier exemplar
        for c, e in enumerate(chosen):
            if any(m != e and similarity[m, new] > similarity[m, e] + slack for m in members[c]):
                return False
            if any(m != new and similarity[m, e] > similarity[m, new] + slack for m in members[new_cluster]):
                return False
        return True

    def go(c):
        if c == len(members):
            return True
        for e in members[c]:
            if compatible(c, e):
                chosen.append(e)
                if go(c + 1):
                    return True
                chosen.pop()
        return False

    return go(0)


def gen_equal(d):
    n = d.int(1, 8)
    ids = d.shuffle([f"{'mb9'[i % 3]}{i}" for i in range(n)])
    how = d.choice(["identical", "one_hot", "pair"])
    if how == "pair":
        n = min(n, 2)
        ids = ids[:n]
        vec = [[d.int(0, 9), d.int(0, 9)] for _ in ids]
    elif how == "one_hot":
        size = d.int(1, 5)
        vec = [[size * (i == j) for j in range(n)] for i in range(n)]
    else:
        base = [d.int(-3, 3) for _ in range(d.int(1, 3))]
        vec = [list(base) for _ in ids]
    truth = [d.int(0, 3) for _ in ids]
    links = []
    for _ in range(d.int(0, 2 * n)):
        i, j = d.int(0, n - 1), d.int(0, n - 1)
        if i != j:
            links.append([ids[i], ids[j], "MUST_LINK" if truth[i] == truth[j] else "CANNOT_LINK"])
    params = gen_params(d, "affinity_propagation", n)
    params["absolute_must_links"] = True
    return {"ids": ids, "vec": vec, "q": 1, "links": links, "order": d.shuffle(range(n)), "mode": d.int(0, 2), "params": params}


def check_equal(case, ctx):
    model = model_of(case)
    result = plain(run_prepared(build("affinity_propagation", case["params"]), case, model, None))
    want = {frozenset(g) for g in model.components()}
    require(partition(result) == want, f"nothing distinguishes the data: expected {sorted(map(sorted, want))}, got {result}")
    ctx.nontrivial(len(want) > 1 and len(want) < len(model.ids))


TESTS = [
    Test("propagation", gen, check, rand=4000, hyp=200),
    Test("big", lambda d: gen(d, 14, 36), check, rand=160, hyp=0, rule="14 to 36 data"),
    Test("huge", lambda d: gen(d, 50, 130), check, rand=40, hyp=0, rule="50 to 130 data"),
    Test("equal", gen_equal, check_equal, rand=1500, hyp=60),
]
