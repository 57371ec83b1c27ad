"""Shared generators and helpers for sampling checks."""

from __future__ import annotations

from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling

from vp.clu import gen_data
from vp.engine import Draw, require
from vp.model import Model


def gen_options(d: Draw, distance=(None, "closest_neighbors", "farthest_neighbors")) -> dict:
    return {
        "random_seed": d.weighted([(3, d.int(0, 5)), (1, d.int(0, 2**32))]),
        "clusters_restriction": d.choice([None, "same_cluster", "different_clusters"]),
        "distance_restriction": d.choice(list(distance)),
        "without_added_constraints": d.bool(2, 3),
        "without_inferred_constraints": d.bool(1, 2),
    }


def gen_round(d: Draw, hi: int = 14, lo: int = 1, exact: bool = True) -> dict:
    """One situation to sample in."""
    case = gen_data(d, lo, hi, exact=exact, scaled=True, wide=True)
    n = len(case["ids"])
    k = d.weighted([(5, d.int(1, max(1, min(n, 5)))), (1, d.int(1, n))])
    case["labels"] = [d.int(0, k - 1) if d.bool(9, 10) else -1 - d.int(0, 2) for _ in range(n)]
    if d.bool(1, 5):  # any integers identify clusters
        case["labels"] = [label * 1000 + 7 for label in case["labels"]]
    pairs = n * (n - 1) // 2
    case["nb"] = d.weighted([(5, d.int(0, 4)), (4, d.int(0, pairs)), (2, pairs + d.int(0, 3)), (1, 10**6), (1, 1)])
    if d.bool(1, 4):  # the clustering result also knows data that are not (or no longer) managed
        case["stale"] = [d.int(-2, k) for _ in range(d.int(1, 3))]
    case["give"] = d.bool(1, 2)  # give a clustering / vectors even when not needed
    return case


def clustering_of(case) -> dict:
    out = dict(zip(case["ids"], case["labels"]))
    stale = {f"deleted {k}": label for k, label in enumerate(case.get("stale", []))}
    return {**out, **stale} if len(stale) % 2 else {**stale, **out}


def build(options):
    return ClustersBasedConstraintsSampling(**options)


def sample(sampler, manager, case, vectors, options=None):
    options = options or case.get("options")
    arguments = {"constraints_manager": manager, "nb_to_select": case["nb"]}
    if options["clusters_restriction"] is not None or case["give"]:
        arguments["clustering_result"] = clustering_of(case)
    if options["distance_restriction"] is not None or case["give"]:
        arguments["vectors"] = vectors
    return sampler.sample(**arguments)


def eligible(case, options, model: Model) -> set:
    """Independent enumeration of the eligible pairs."""
    label = clustering_of(case)
    out = set()
    for a in model.ids:
        for b in model.ids:
            if not a < b:
                continue
            if options["clusters_restriction"] == "same_cluster" and label[a] != label[b]:
                continue
            if options["clusters_restriction"] == "different_clusters" and label[a] == label[b]:
                continue
            if options["without_added_constraints"] and model.added(a, b) is not None:
                continue
            if options["without_inferred_constraints"] and model.inferred(a, b) is not None:
                continue
            out.add((a, b))
    return out


def require_sample(result, case, options, model: Model, what: str) -> list:
    require(isinstance(result, list), f"{what}: not a list: {result!r}")
    pairs = [tuple(p) for p in result]
    for p in pairs:
        require(len(p) == 2, f"{what}: {p!r} is not a pair")
    pool = eligible(case, options, model)
    for p in pairs:
        require(p in pool, f"{what}: {p!r} is not eligible (explicit {model.added(*p) if set(p) <= set(model.ids) else '?'}, options {options})")
    require(len(set(pairs)) == len(pairs), f"{what}: a pair is selected twice: {pairs}")
    want = min(case["nb"], len(pool))
    require(len(pairs) == want, f"{what}: {len(pairs)} pairs selected, {case['nb']} requested, {len(pool)} eligible")
    return pairs
