"""C20: DBSCAN groups by density and constraints, and isolates noise."""

from vp.clu import build, distances_of, gen_data, gen_params, model_of, partition, plain, require_constraints, run_prepared
from vp.engine import Test, require
from vp.model import CL, ML

ID = "C20"
RULE = "brute-force eps-neighbourhoods; non-trivial = dense and sparse data, at least two clusters, and at least one constraint between distinct data (density), or several groups and constraints (groups)"


def run(case, model, factor=1.0):
    params = dict(case["params"], eps=case["params"]["eps"] * factor)
    algo = build("dbscan", params)
    result = run_prepared(algo, dict(case, q=case["q"] / factor), model, None)
    return algo, plain(result)


def require_numbers(algo, result, what):
    regular = {c for c in result.values() if c >= 0}
    noise = [c for c in result.values() if c < 0]
    require(len(set(noise)) == len(noise), f"{what}: two noise data share a cluster: {result}")
    require(regular == set(range(len(regular))), f"{what}: regular clusters are numbered {sorted(regular)}")
    require(set(noise) == set(range(-len(noise), 0)), f"{what}: noise clusters are numbered {sorted(noise)}")
    require(algo.number_of_regular_clusters == len(regular), f"{what}: {algo.number_of_regular_clusters} regular clusters announced, {len(regular)} in {result}")
    require(algo.number_of_single_noise_point_clusters == len(noise), f"{what}: {algo.number_of_single_noise_point_clusters} noise data announced, {len(noise)} in {result}")
    require(algo.number_of_clusters == len(regular) + len(noise), f"{what}: {algo.number_of_clusters} clusters announced in total, {len(regular) + len(noise)} in {result}")


def gen_density(d):
    case = gen_data(d, 1, 16, wide=True)
    case["params"] = gen_params(d, "dbscan", len(case["ids"]))
    if d.bool(1, 4):
        case["links"] = []
    case["factor"] = 2.0 ** d.choice([1, -1, 4, -4, 10, -20, -35, 30, -50])
    return case


def check_density(case, ctx):
    model = model_of(case)
    dist = distances_of(case)
    eps, least = case["params"]["eps"], case["params"]["min_samples"]
    exact = case["q"] == 1
    if not exact and any(abs(value - eps) < 1e-6 * (1 + value) for value in dist.values()):
        return  # rounding decides
    ids = model.ids
    algo, result = run(case, model)
    require_numbers(algo, result, "dbscan")
    require_constraints(result, model, True, True, "dbscan")

    near = {x: {y for y in ids if dist[x, y] <= eps} for x in ids}
    dense = {x for x in ids if len(near[x]) >= least}
    linked = {x for x in ids if len(model.component(x)) > 1}

    # Chains.
    reach = {x: x for x in ids}

    def find(x):
        while reach[x] != x:
            x = reach[x]
        return x

    for x in ids:
        for y in ids:
            if y in near[x] or model.inferred(x, y) == ML:
                reach[find(x)] = find(y)
    for group in partition(result):
        root = {find(x) for x in group}
        require(len(root) == 1, f"cluster {sorted(group)} joins data that no chain of steps below {eps} or must-links joins")
    # Noise.
    for x in ids:
        if x not in linked and x not in dense and not (near[x] & dense):
            require(result[x] < 0, f"{x!r} is isolated (neighbours {sorted(near[x])}, {least} needed) but is in regular cluster {result[x]}")
    if CL not in model.cons.values():
        for x in dense:
            lost = sorted(y for y in near[x] if result[y] < 0)
            require(len(lost) < least, f"{lost} are all noise although they are within {eps} of {x!r} ({least} needed) and nothing is separated")
        ctx.label("dense_without_cannot_links", bool(dense))
    for x in ids:
        if len(model.component(x)) > 1:
            require(result[x] >= 0, f"{x!r} is must-linked but announced as single noise datum")
    # Units.
    if exact or not any(abs(value - eps) < 1e-5 * (1 + value) for value in dist.values()):
        again, scaled = run(case, model, case["factor"])
        require(scaled == result, f"multiplying vectors and eps by {case['factor']} changes {result} into {scaled}")
        require_numbers(again, scaled, "scaled dbscan")
    ctx.nontrivial(dense and len(dense) < len(ids) and len(set(result.values())) > 1 and model.cons)
    ctx.label("noise", any(c < 0 for c in result.values()))
    ctx.label("regular", any(c >= 0 for c in result.values()))
    ctx.label("mixed", len({c >= 0 for c in result.values()}) == 2)


def gen_groups(d):
    """Groups of data close to each other and far from the other groups."""
    k = d.int(1, 4)
    sizes = [d.int(1, 5) for _ in range(k)]
    n = sum(sizes)
    labels = [g for g, s in enumerate(sizes) for _ in range(s)]
    ids = d.shuffle([f"{'9a0Z'[i % 4]}{i}" for i in range(n)])
    dim = d.int(1, 3)
    centers = [[40 * g] + [d.int(0, 3) for _ in range(dim - 1)] for g in range(k)]
    vec = [[c + d.int(0, 2) for c in centers[g]] for g in labels]
    links = []
    for _ in range(d.int(0, n)):
        i, j = d.int(0, n - 1), d.int(0, n - 1)
        if i != j:
            links.append([ids[i], ids[j], ML if labels[i] == labels[j] else CL])
    perm = d.shuffle(range(n))
    return {
        "ids": [ids[i] for i in perm], "vec": [vec[i] for i in perm], "labels": [labels[i] for i in perm], "q": 1, "links": links,
        "order": d.shuffle(range(n)), "mode": d.int(0, 2), "params": {"eps": d.choice([2, 4, 6.5, 10, 30] if dim == 1 else [4, 6.5, 10, 30]), "min_samples": d.int(1, 5), "random_seed": 1},
    }


def check_groups(case, ctx):
    model = model_of(case)
    algo, result = run(case, model)
    require_numbers(algo, result, "dbscan")
    label = dict(zip(case["ids"], case["labels"]))
    least = case["params"]["min_samples"]
    want = set()
    for g in set(case["labels"]):
        members = frozenset(x for x in case["ids"] if label[x] == g)
        if len(members) >= least:
            want.add(members)
            require(all(result[x] >= 0 for x in members), f"group {sorted(members)} is dense ({least} needed) but has noise: {result}")
        else:
            want |= {c for c in model.components() if c <= members}
            for x in members:
                single = len(model.component(x)) == 1
                require((result[x] < 0) == single, f"{x!r} of a sparse group: cluster {result[x]}, must-linked: {not single}")
    require(partition(result) == want, f"groups are {sorted(map(sorted, want))}, clusters {sorted(map(sorted, partition(result)))}")
    ctx.nontrivial(len(set(case["labels"])) > 1 and model.cons)


def gen_islands(d):
    """Two data sets far from each other; links stay inside each, except some cannot-links."""
    left, right = gen_data(d, 1, 10, exact=True, extras=False), gen_data(d, 1, 8, exact=True, extras=False)
    ids = [f"{'ba'[0]}{x}" for x in left["ids"]] + [f"{'ba'[1]}{x}" for x in right["ids"]]
    n, m = len(left["ids"]), len(right["ids"])
    dim = max(len(left["vec"][0]), len(right["vec"][0]))
    vec = [v + [0] * (dim - len(v)) + [0] for v in left["vec"]] + [v + [0] * (dim - len(v)) + [5000] for v in right["vec"]]
    links = [["b" + a, "b" + b, kind] for a, b, kind in left["links"]] + [["a" + a, "a" + b, kind] for a, b, kind in right["links"]]
    links = d.shuffle(links)
    return {
        "ids": ids, "vec": vec, "q": 1, "links": links, "sides": [0] * n + [1] * m, "shuffled": d.shuffle(range(n + m)), "order": d.shuffle(range(n + m)), "mode": d.int(0, 2),
        "cross": [[ids[d.int(0, n - 1)], ids[n + d.int(0, m - 1)], CL] for _ in range(d.weighted([(2, 0), (1, d.int(1, 4))]))],
        "params": gen_params(d, "dbscan", n + m),
    }


def check_islands(case, ctx):
    side = dict(zip(case["ids"], case["sides"]))
    alone = {}
    for s in (0, 1):
        keep = [i for i in case["shuffled"] if case["sides"][i] == s]
        part = {
            "ids": [case["ids"][i] for i in keep], "vec": [case["vec"][i] for i in keep], "q": 1, "params": case["params"], "mode": case["mode"],
            "links": [l for l in case["links"] if side[l[0]] == s], "order": [keep.index(i) for i in case["order"] if i in keep],
        }
        alone.update(run(part, model_of(part))[1])
    both = dict(case, ids=[case["ids"][i] for i in case["shuffled"]], vec=[case["vec"][i] for i in case["shuffled"]], links=case["links"] + case["cross"])
    algo, result = run(both, model_of(both))
    require_numbers(algo, result, "dbscan")
    for s in (0, 1):
        mine = [x for x in both["ids"] if side[x] == s]
        before, after = partition({x: alone[x] for x in mine}), partition({x: result[x] for x in mine})
        require(before == after, f"data far away change the clusters {sorted(map(sorted, before))} into {sorted(map(sorted, after))}")
        for x in mine:
            require((alone[x] < 0) == (result[x] < 0), f"data far away change {x!r} from cluster {alone[x]} to {result[x]}")
    require(not any(side[x] != side[y] for group in partition(result) for x in group for y in group), "data far away from each other share a cluster")
    ctx.nontrivial(len(partition(result)) > 2 and any(c >= 0 for c in result.values()) and case["links"])
    ctx.label("cannot_link_across", case["cross"])


def gen_big(d, lo=16, hi=40):
    case = gen_data(d, lo, hi, wide=True)
    case["params"] = gen_params(d, "dbscan", len(case["ids"]))
    case["links"] = [] if d.bool(1, 4) else [l for l in case["links"] if l[2] == ML] if d.bool(1, 2) else case["links"]
    case["factor"] = 2.0 ** d.choice([1, -1, 4, -20, -40, 30])
    return case


TESTS = [
    Test("big", gen_big, check_density, rand=500, hyp=0),
    Test("huge", lambda d: gen_big(d, 60, 120), check_density, rand=14, hyp=0, rule="60 to 120 data"),
    Test("density", gen_density, check_density, rand=7000, hyp=250),
    Test("islands", gen_islands, check_islands, rand=3000, hyp=150),
    Test("groups", gen_groups, check_groups, rand=4000, hyp=150),
]
