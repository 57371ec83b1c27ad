"""C22: MPC k-means: number of clusters, recovery of must-link groups, first assignment."""

import numpy as np

from vp.clu import build, cluster, dense_of, gen_data, gen_number, gen_params, model_of, partition, plain, row, run_prepared
from vp.engine import Test, require
from vp.mgr import new_manager, request
from vp.model import CL, ML

ID = "C22"
RULE = "non-trivial = both types of constraints (number); constraints inside reach and at least two groups of several data (groups); the penalties change the assignment that distances alone give (first)"


def require_number(result, case, model):
    want = min(case["nb"], len(model.ids))
    require(set(result) == set(model.ids), f"clusters of {sorted(result)}")
    require(all(c >= 0 for c in result.values()), f"data without cluster: {result}")
    require(len(set(result.values())) == want, f"{len(set(result.values()))} clusters instead of {want}: {result}")


def gen_any(d, lo=1, hi=11):
    case = gen_data(d, lo, hi)
    case["params"] = gen_params(d, "mpckmeans", len(case["ids"]))
    case["nb"] = gen_number(d, "mpckmeans", len(case["ids"]))
    return case


def check_any(case, ctx):
    model = model_of(case)
    result = plain(run_prepared(build("mpckmeans", case["params"]), case, model, case["nb"]))
    require_number(result, case, model)
    comps, adjacency = model.cl_graph()
    ctx.nontrivial(any(adjacency.values()) and len(comps) < len(model.ids))
    ctx.label("duplicates", len({tuple(v) for v in case["vec"]}) < len(case["vec"]))


def gen_groups(d):
    """As many must-link groups as clusters."""
    k = d.int(2, 5)
    sizes = [d.int(1, 3) for _ in range(k)]
    n = sum(sizes)
    labels = [g for g, s in enumerate(sizes) for _ in range(s)]
    ids = d.shuffle([f"{'k2Y'[i % 3]}{i}" for i in range(n)])
    dim = d.int(1, 3)
    spread = d.choice([4, 10, 25])
    centers = [[spread * d.int(-3, 3) for _ in range(dim)] for _ in range(k)]
    vec = [[c + d.int(-3, 3) for c in centers[g]] for g in labels]
    links = []
    for g in range(k):
        members = [i for i in range(n) if labels[i] == g]
        for a, b in zip(members, members[1:]):
            links.append([ids[a], ids[b], ML])
    for _ in range(d.int(0, 6)):
        i, j = d.int(0, n - 1), d.int(0, n - 1)
        if labels[i] != labels[j]:
            links.append([ids[i], ids[j], CL])
    params = gen_params(d, "mpckmeans", n)
    perm = d.shuffle(range(n))
    return {
        "ids": [ids[i] for i in perm], "vec": [vec[i] for i in perm], "q": 1, "links": d.shuffle(links), "order": d.shuffle(range(n)),
        "mode": d.int(0, 2), "params": params, "nb": k,
    }


def barycenters(model, dense):
    groups = sorted(model.components(), key=sorted)
    return groups, [np.mean([dense[x] for x in g], axis=0) for g in groups]


def check_groups(case, ctx):
    model = model_of(case)
    dense = {x: np.array(v) for x, v in dense_of(case).items()}
    groups, centers = barycenters(model, dense)
    result = plain(run_prepared(build("mpckmeans", case["params"]), case, model, case["nb"]))
    require_number(result, case, model)
    for g, group in enumerate(groups):
        for x in group:
            d = [float(((dense[x] - c) ** 2).sum()) for c in centers]
            if any(h != g and d[h] <= d[g] + 1e-6 for h in range(len(groups))):
                return
    require(partition(result) == set(groups), f"the groups {sorted(map(sorted, groups))} are well placed but the clusters are {sorted(map(sorted, partition(result)))}")
    ctx.nontrivial(len([g for g in groups if len(g) > 1]) >= 2)
    ctx.label("with_cannot_links", any(v == CL for v in model.cons.values()))


def gen_first(d):
    """Small data, as many groups as clusters, one iteration."""
    case = gen_groups(d)
    k = d.int(2, 3)
    n = d.int(max(k, 3), 6)
    labels = list(range(k)) + [d.int(0, k - 1) for _ in range(n - k)]
    ids = d.shuffle([f"{'k2Y'[i % 3]}{i}" for i in range(n)])
    dim = d.int(1, 2)
    vec = [[d.int(0, 9) for _ in range(dim)] for _ in range(n)]
    links = []
    for i in range(n):
        for j in range(i + 1, n):
            if labels[i] == labels[j] or d.bool(1, 2):
                links.append([ids[i], ids[j], ML if labels[i] == labels[j] else CL])
    case.update(ids=ids, vec=vec, links=links, order=d.shuffle(range(n)), nb=k)
    case["params"] = {"max_iteration": 1, "w": d.choice([0, 0.05, 0.2, 0.5, 1.0, 3]), "random_seed": d.int(0, 99)}
    return case


def outcomes(model, dense, groups, centers, w, slack):
    """Every result of one sequential assignment, over all orders and ties."""
    ids = list(model.ids)
    n, k = len(ids), len(centers)
    square = {(a, b): float(((dense[a] - dense[b]) ** 2).sum()) for a in ids for b in ids}
    top = max(square.values())
    base = {x: [float(((dense[x] - c) ** 2).sum()) for c in centers] for x in ids}
    found, seen = set(), set()

    def go(labels):
        if labels in seen:
            return
        seen.add(labels)
        given = dict(labels)
        if len(given) == n:
            found.add(labels)
            return
        for x in ids:
            if x in given:
                continue
            cost = []
            for c in range(k):
                value = base[x][c]
                for y, other in given.items():
                    kind = model.inferred(x, y)
                    if kind == ML and other != c:
                        value += 2 * w * square[x, y]
                    elif kind == CL and other == c:
                        value += 2 * w * (top - square[x, y])
                cost.append(value)
            for c in range(k):
                if cost[c] <= min(cost) + slack:
                    go(frozenset([*labels, (x, c)]))

    go(frozenset())
    return found, base


def check_first(case, ctx):
    model = model_of(case)
    dense = {x: np.array(v, dtype=float) for x, v in dense_of(case).items()}
    groups, centers = barycenters(model, dense)
    if len(groups) != case["nb"]:
        return
    result = plain(run_prepared(build("mpckmeans", case["params"]), case, model, case["nb"]))
    require_number(result, case, model)
    found, base = outcomes(model, dense, groups, centers, case["params"]["w"], 1e-7)
    allowed = set()
    for labels in found:
        parts: dict = {}
        for x, c in labels:
            parts.setdefault(c, set()).add(x)
        if len(parts) < len(centers):
            ctx.label("empty_cluster_possible")
            return  # refilled by an unspecified datum
        allowed.add(frozenset(frozenset(p) for p in parts.values()))
    got = frozenset(partition(result))
    require(got in allowed, f"one iteration gives {sorted(map(sorted, got))}; possible assignments: {[sorted(map(sorted, p)) for p in allowed][:3]}")
    plain_parts: dict = {}
    for x in model.ids:
        plain_parts.setdefault(int(np.argmin(base[x])), set()).add(x)
    ctx.nontrivial(frozenset(frozenset(p) for p in plain_parts.values()) != got)
    ctx.label("compared")


def gen_giant(d):
    """One very large must-link group among small ones, far from each other."""
    sizes = [d.int(960, 1100)] + [d.int(1, 3) for _ in range(d.int(1, 3))]
    return {"sizes": sizes if d.bool() else sizes[::-1], "chain": d.bool(), "seed": d.int(0, 9), "cannot": d.bool()}


def check_giant(case, ctx):
    groups = [[f"{g}-{i:04d}" for i in range(size)] for g, size in enumerate(case["sizes"])]
    ids = [x for group in groups for x in group]
    manager = new_manager(ids)
    for group in groups:
        for i, x in enumerate(group[1:]):
            request(manager, ["addc", group[i] if case["chain"] else group[0], x, ML])
    if case["cannot"]:
        request(manager, ["addc", groups[0][0], groups[1][0], CL])
    vectors = {x: row([100 * g + i % 5, i % 3]) for g, group in enumerate(groups) for i, x in enumerate(group)}
    algo = build("mpckmeans", {"max_iteration": 1, "random_seed": case["seed"]})
    result = plain(cluster(algo, manager, vectors, len(groups)))
    require(partition(result) == {frozenset(group) for group in groups}, f"groups of {case['sizes']} data are far from each other but the clusters have {sorted(map(len, partition(result)))} data")
    ctx.nontrivial()


TESTS = [
    Test("giant", gen_giant, check_giant, rand=8, hyp=0, thorough=4, rule="a must-link group of 960 to 1100 data"),
    Test("big", lambda d: gen_any(d, 12, 26), check_any, rand=60, hyp=0, rule="12 to 26 data"),
    Test("huge", lambda d: gen_any(d, 30, 70), check_any, rand=20, hyp=0, rule="30 to 70 data"),
    Test("number", gen_any, check_any, rand=3000, hyp=100),
    Test("groups", gen_groups, check_groups, rand=8000, hyp=100),
    Test("first", gen_first, check_first, rand=8000, hyp=100),
]
