"""C32: DBSCAN's clusters are those of the constrained procedure (local clusters, must-link cores, absorption)."""

from itertools import product

from vp.clu import build, distances_of, gen_data, gen_params, model_of, partition, plain, run_prepared
from vp.engine import Test, require
from vp.model import CL, ML

ID = "C32"
RULE = "reference procedure on exact integer distances; non-trivial = at least one must-link group of several data, one cannot-link, and a regular cluster"


def reference(model, dist, eps, least):
    """Clusters before must-link groups are gathered: datum -> set of members of its cluster."""
    ids = model.ids
    apart = {(a, b) for a in ids for b in ids if a != b and model.inferred(a, b) == CL}
    mates = {a: [b for b in ids if model.inferred(a, b) == ML] for a in ids}  # a included

    # Local clusters.
    isolated, local = set(), {}
    for x in ids:
        if x in isolated:
            continue
        near = [y for y in ids if y not in isolated and dist[x, y] <= eps]
        if len(near) < least:
            continue
        if any((a, b) in apart for a in near for b in near):
            isolated.update(near)
            for y in near:
                local[y] = {y}
        else:
            local[x] = set(near)

    # Cores: each datum in turn claims what is free in its local cluster and those of its must-linked data.
    owner, cores = {}, {}
    for x in ids:
        wanted = set(local.get(x, {x})) | {y for y in mates[x] if y in local}
        for y in wanted:
            owner.setdefault(y, x)
        if owner[x] == x:
            core = {y for y in wanted if owner[y] == x} | set(mates[x])
            if len(core) > 1:
                cores[x] = core

    # Absorption of the closest local clusters.
    for core in cores.values():
        while local:
            gaps = {c: min(dist[a, b] for a in core for b in members) for c, members in local.items()}
            closest = min(gaps, key=gaps.get)
            if gaps[closest] > eps or any((a, b) in apart for a in core for b in local[closest]):
                break
            core |= local.pop(closest)

    # Final clusters.
    number, place = 0, {}
    for core in cores.values():
        for y in core:
            place[y] = number
        number += 1
    for members in local.values():
        rest = [y for y in members if y not in place]
        if len(rest) >= least:
            for y in rest:
                place[y] = number
            number += 1
    return place


def gen(d, lo=1, hi=14):
    case = gen_data(d, lo, hi, exact=True, wide=True)
    case["params"] = gen_params(d, "dbscan", len(case["ids"]))
    if d.bool(1, 3):
        case["params"]["min_samples"] = d.int(1, 3) if len(case["ids"]) < 14 or d.bool() else d.int(5, 14)
    if d.bool(1, 4):
        case["unit"] = 2.0 ** d.choice([-30, 20, -20, -45, 40])
    return case


# A rare situation: the must-linked data f and k are claimed by data that found no core, and end in no cluster.
RARE = {
    "ids": list("abcdefghijk"),
    "vec": [[3], [3], [5], [2], [1], [0], [4], [1], [5], [5], [5]],
    "links": [
        ["a", "h", CL], ["j", "e", ML], ["h", "i", CL], ["k", "f", ML], ["c", "d", CL], ["b", "h", ML], ["c", "a", ML], ["c", "h", CL],
        ["g", "f", CL], ["i", "g", CL], ["c", "i", ML], ["e", "i", CL], ["a", "j", CL], ["b", "a", CL], ["j", "h", ML],
    ],
    "params": {"eps": 1.5, "min_samples": 3, "random_seed": 1},
}


def gen_rare(d):
    """The rare situation, with a few changes."""
    ids, vec = list(RARE["ids"]), [list(v) for v in RARE["vec"]]
    links = [l for l in RARE["links"] if d.bool(19, 20)]
    for _ in range(d.weighted([(3, 0), (1, 1), (1, 2)])):
        vec[d.int(0, len(ids) - 1)] = [d.int(0, 7)]
    for i in range(d.int(0, 2)):
        ids.append("lmn"[i])
        vec.append([d.int(0, 9)])
        if d.bool():
            links.append([ids[-1], d.choice(ids[:-1]), d.choice([ML, CL])])
    return {"ids": ids, "vec": vec, "q": 1, "links": links, "mode": d.int(0, 2), "params": dict(RARE["params"])}


def gen_twins(d):
    """The same situation twice, far apart, the data in any order."""
    half = gen(d, 2, 9) if d.bool(3, 4) else gen_rare(d)
    n = len(half["ids"])
    ids = ["a" + x for x in half["ids"]] + ["b" + x for x in half["ids"]]
    links = [[side + a, side + b, kind] for a, b, kind in half["links"] for side in "ab"]
    order = list(range(2 * n)) if d.bool(1, 2) else [p for i in range(n) for p in (i, n + i)] if d.bool() else d.shuffle(range(2 * n))
    vec = [v + [0] for v in half["vec"]] + [v + [4096] for v in half["vec"]]
    return {
        "ids": [ids[i] for i in order], "vec": [vec[i] for i in order], "q": 1, "links": links, "order": d.shuffle(range(2 * n)), "mode": half["mode"], "params": half["params"],
    }


def gen_dense(d):
    """Many data close to each other: large overlapping neighbourhoods."""
    n, width = d.int(20, 60), d.int(6, 40)
    ids = [f"{i:02d}" for i in d.shuffle(range(n))]
    vec = [[d.int(0, width)] + ([d.int(0, 1)] if width < 12 else [0]) for _ in ids]
    links = [[d.choice(ids), d.choice(ids), d.choice([ML, ML, CL])] for _ in range(d.weighted([(2, 0), (2, d.int(1, 4)), (1, d.int(5, 20))]))]
    return {
        "ids": ids, "vec": vec, "q": 1, "links": [l for l in links if l[0] != l[1]], "order": d.shuffle(range(n)), "mode": d.int(0, 2),
        "params": {"eps": d.choice([1.5, 2.5, 4, 6]), "min_samples": d.int(2, 16), "random_seed": 1},
    }


def check(case, ctx):
    model = model_of(case)
    dist = distances_of(case)
    unit = case.get("unit", 1.0)  # a power of two: changes no comparison
    params = dict(case["params"], eps=case["params"]["eps"] * unit)
    result = plain(run_prepared(build("dbscan", params), dict(case, q=case["q"] / unit), model, None))
    place = reference(model, dist, case["params"]["eps"], case["params"]["min_samples"])
    choices, groups = [], []
    for group in model.components():
        known = {place[x] for x in group if x in place}
        groups.append(group)
        choices.append(sorted(known) if known else [("own", min(group))])
        single = len(group) == 1 and not known
        for x in group:
            require((result[x] < 0) == single, f"{x!r} is {'not ' if single else ''}noise in {result}; the procedure gives {place}")
    total = 1
    for options in choices:
        total *= len(options)
    if total > 300:
        ctx.label("too_many_choices")
        return
    got = partition(result)
    fits = any(got == partition({x: c for group, c in zip(groups, chosen) for x in group}) for chosen in product(*choices))
    require(fits, f"clusters {sorted(map(sorted, got))}; the procedure gives {place}, groups {sorted(map(sorted, model.components()))}")
    ctx.label("several_choices", total > 1)
    ctx.label("several_groups_left_alone", sum(1 for g in groups if len(g) > 1 and not any(x in place for x in g)) > 1)
    ctx.nontrivial(any(len(g) > 1 for g in groups) and CL in model.cons.values() and any(c >= 0 for c in result.values()))


TESTS = [
    Test("big", lambda d: gen(d, 14, 40), check, rand=600, hyp=0, rule="14 to 40 data"),
    Test("huge", lambda d: gen(d, 60, 150), check, rand=32, hyp=0, rule="60 to 150 data"),
    Test("dense", gen_dense, check, rand=400, hyp=0, rule="20 to 60 data close to each other"),
    Test("twins", gen_twins, check, rand=3000, hyp=100, rule="4 to 18 data, every situation twice"),
    Test("procedure", gen, check, rand=12000, hyp=400),
]
