"""Shared generators and helpers for clustering and sampling checks."""

from __future__ import annotations

import math
import random

import numpy as np
from scipy.sparse import coo_matrix, csc_matrix, csr_matrix, lil_matrix

from cognitivefactory.interactive_clustering.clustering.affinity_propagation import AffinityPropagationConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.dbscan import DBScanConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.hierarchical import HierarchicalConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.kmeans import KMeansConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.mpckmeans import MPCKMeansConstrainedClustering
from cognitivefactory.interactive_clustering.clustering.spectral import SpectralConstrainedClustering

from vp.engine import Draw, require
from vp.mgr import gen_ids, new_manager, request
from vp.model import CL, ML, Model

CLASSES = {
    "kmeans": KMeansConstrainedClustering,
    "hierarchical": HierarchicalConstrainedClustering,
    "spectral": SpectralConstrainedClustering,
    "dbscan": DBScanConstrainedClustering,
    "affinity_propagation": AffinityPropagationConstrainedClustering,
    "mpckmeans": MPCKMeansConstrainedClustering,
}
FREE_NUMBER = ("dbscan", "affinity_propagation")  # these choose the number of clusters


# --------------------------------------------------------------------------
# Data sets
# --------------------------------------------------------------------------
def gen_vectors(d: Draw, ids: list, truth: dict, exact: bool = False, wide: bool = False):
    """Vectors as lists of integers and a divisor (coordinates are integer / divisor)."""
    style = d.weighted([(5, "grid"), (4, "blobs"), (3, "cont"), (2, "few"), (2, "sparse"), (1, "line"), (1, "same")])
    dim = d.int(1, 4)
    q = 1
    if exact and style == "cont" and d.bool():  # almost equal long distances
        far = d.choice([10**4, 10**5, 10**6])
        vec = {x: [far * d.int(0, 2) + d.int(0, 4) for _ in range(dim)] for x in ids}
    elif style == "grid":
        top = d.choice([1, 2, 3, 5])
        vec = {x: [d.int(0, top) for _ in range(dim)] for x in ids}
    elif style == "blobs":
        spread = d.choice([20, 8])
        centers = {}
        vec = {}
        loyal = d.choice([10, 8, 5])
        for x in ids:
            c = truth[x] if d.int(0, 9) < loyal else d.int(0, 5)
            if c not in centers:
                centers[c] = [spread * d.int(0, 3) for _ in range(dim)]
            vec[x] = [v + d.int(-2, 2) for v in centers[c]]
    elif style == "cont":
        q = 1 if exact else 100
        vec = {x: [d.int(-300, 300) for _ in range(dim)] for x in ids}
    elif style == "few":
        pool = [[d.int(-3, 3) for _ in range(dim)] for _ in range(d.int(1, 3))]
        vec = {x: list(d.choice(pool)) for x in ids}
    elif style == "sparse":
        dim = d.weighted([(4, d.int(3, 8)), (1, d.int(12, 40)), (2 if wide else 0, d.int(60, 600))])
        q = 1 if exact else 7
        vec = {x: [0] * dim for x in ids}
        for x in ids:
            for _ in range(d.int(0, 3) if dim < 60 else d.int(2, 6)):
                vec[x][d.int(0, dim - 1)] = d.int(1, 7)
    elif style == "line":
        dim = 1
        vec = {x: [i * i if d.bool(9, 10) else i] for i, x in enumerate(ids)}
    else:
        base = [d.int(0, 2) for _ in range(dim)]
        vec = {x: list(base) for x in ids}
    return vec, q, style


def gen_links(d: Draw, ids: list, truth: dict):
    """Links consistent with `truth`."""
    n = len(ids)
    if n < 2:
        return []
    mode = d.weighted([(5, "some"), (3, "ml"), (3, "cl"), (2, "many"), (1, "none"), (1, "all")])
    if mode == "none":
        return []
    pairs = [(a, b) for i, a in enumerate(ids) for b in ids[i + 1 :]]
    if mode == "all":
        chosen = d.shuffle(pairs) if len(pairs) <= 45 else pairs
    else:
        count = min(len(pairs), d.int(1, n) if mode != "many" else d.int(n, 3 * n))
        chosen = [d.choice(pairs) for _ in range(count)]
    links = []
    for a, b in chosen:
        kind = ML if truth[a] == truth[b] else CL
        if mode == "ml" and kind == CL and d.bool(4, 5):
            mates = [x for x in ids if truth[x] == truth[a] and x != a]
            if not mates:
                continue
            b, kind = d.choice(mates), ML
        if mode == "cl" and kind == ML and d.bool(4, 5):
            others = [x for x in ids if truth[x] != truth[a]]
            if not others:
                continue
            b, kind = d.choice(others), CL
        links.append([a, b, kind] if d.bool() else [b, a, kind])
    return links


def gen_data(d: Draw, lo: int = 1, hi: int = 20, exact: bool = False, extras: bool = True, scaled: bool = False, wide: bool = False) -> dict:
    ids = gen_ids(d, lo, hi)
    n = len(ids)
    k = d.weighted([(4, d.int(1, min(n, 3))), (4, d.int(1, min(n, 6))), (1, n)])
    truth = {x: d.int(0, k - 1) for x in ids}
    vec, q, style = gen_vectors(d, ids, truth, exact, wide)
    links = gen_links(d, ids, truth)
    order = list(range(n)) if d.bool() else d.shuffle(range(n))
    case = {"ids": ids, "vec": [vec[x] for x in ids], "q": q, "links": links, "order": order, "mode": d.int(0, 2), "style": style}
    if scaled and d.bool(1, 4):  # tiny or huge coordinates, by a power of two (no rounding)
        case["q"] *= 2.0 ** d.choice([20, -8, 30, 10, -20])
    if extras and d.bool(1, 4):
        dim = len(vec[ids[0]])
        case["extra"] = [[d.int(0, 3) for _ in range(dim)] for _ in range(d.int(1, 3))]
    if d.bool(1, 4):  # the algorithm was used before on an earlier state of the same manager and vectors
        case["before"] = d.int(1, 15)
    return case


def model_of(case) -> Model:
    model = Model(case["ids"])
    for a, b, kind in case["links"]:
        op = ["addc", a, b, kind]
        if model.is_valid(op):
            model.apply(op)
    return model


def manager_of(case, model: Model):
    """A real manager with the knowledge of `model`, reached in one of three ways."""
    ids, mode = case["ids"], case.get("mode", 0)
    if mode == 0 or len(ids) < 2:
        manager = new_manager(ids)
    elif mode == 1:
        half = len(ids) // 2
        manager = new_manager(ids[:half])
        for x in ids[half:]:
            request(manager, ["addid", x])
    else:  # detour: a temporary ID and temporary links, all retracted
        temporary = "temporary id"
        manager = new_manager([temporary] + ids)
        request(manager, ["addc", temporary, ids[0], ML])
        request(manager, ["addc", ids[1], temporary, CL])
        request(manager, ["addc", ids[-1], ids[0], CL if ids[-1] == ids[1] else ML])
        request(manager, ["delc", ids[0], ids[-1]])
        request(manager, ["delid", temporary])
    for a, b, kind in case["links"]:
        if model.inferred(a, b) == kind:
            request(manager, ["addc", a, b, kind])
    return manager


FORMATS = {"csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix, "lil": lil_matrix}


def row(values, q=1, fmt="csr"):
    return FORMATS[fmt](np.array([[v / q for v in values]], dtype=float))


def vectors_of(case, order=None, extra=True) -> dict:
    ids = case["ids"]
    vectors = {ids[i]: row(case["vec"][i], case["q"]) for i in (case["order"] if order is None else order)}
    if extra and case.get("extra"):
        more = {f"unmanaged {k}": row(v, case["q"]) for k, v in enumerate(case["extra"])}
        vectors = {**vectors, **more} if len(case["extra"]) % 2 else {**more, **vectors}
    return vectors


def prepared(algo, case, model: Model, number) -> tuple:
    """Manager and vectors of the case, after using `algo` on an earlier state of both if the case says so.

    Bits of case["before"]: 1 = half of the links came later, 2 = the vectors were exchanged, 4 = one more datum was managed,
    8 = two more links were known and retracted later.
    """
    how = case.get("before", 0)
    if not how or len(model.ids) < 2:
        return manager_of(case, model), vectors_of(case)
    links = case["links"]
    early = dict(case, links=links[: len(links) // 2]) if how & 1 else case
    manager = manager_of(early, model_of(early))
    vectors = vectors_of(case)
    final = dict(vectors)
    if how & 2:
        for key, other in zip(list(final), reversed(list(final))):
            vectors[key] = final[other]
    if how & 4:
        vectors["early id"] = final[case["ids"][0]] + final[case["ids"][-1]]
        request(manager, ["addid", "early id"])
        request(manager, ["addc", "early id", case["ids"][0], ML])
    retracted = []
    if how & 8:
        known = model_of(early)
        for i, a in enumerate(known.ids):
            for b in known.ids[i + 1 :]:
                op = ["addc", a, b, ML if (i + how) % 2 else CL]
                if len(retracted) < 2 and known.inferred(a, b) is None and known.is_valid(op):
                    known.apply(op)
                    request(manager, op)
                    retracted.append(["delc", a, b])
    cluster(algo, manager, vectors, number if number is None else number + how % 2)
    vectors.update(final)
    for op in retracted:
        request(manager, op)
    if how & 4:
        request(manager, ["delid", "early id"])
    for a, b, kind in links:
        if model.inferred(a, b) == kind:
            request(manager, ["addc", a, b, kind])
    return manager, vectors


def run_prepared(algo, case, model: Model, number, **options):
    """Cluster the case with `algo`, possibly used before."""
    return cluster(algo, *prepared(algo, case, model, number), number, **options)


def dense_of(case) -> dict:
    return {x: [v / case["q"] for v in case["vec"][i]] for i, x in enumerate(case["ids"])}


def euclid(u, v) -> float:
    return math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))


def distances_of(case) -> dict:
    """Brute-force distances (exact integers under the root when q == 1)."""
    ids, vec, q = case["ids"], case["vec"], case["q"]
    out = {}
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            out[a, b] = math.sqrt(sum((u - v) ** 2 for u, v in zip(vec[i], vec[j]))) / q
    return out


def similarity(model: Model, dense: dict, adjusted: bool = True):
    """Gaussian similarity of the data, set to 1 / 0 by the must-links / cannot-links."""
    ids = model.ids
    gamma = 1.0 / len(dense[ids[0]])
    out = np.ones((len(ids), len(ids)))
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            out[i, j] = np.exp(-gamma * sum((u - v) ** 2 for u, v in zip(dense[a], dense[b])))
            kind = model.inferred(a, b) if adjusted else None
            if kind == ML:
                out[i, j] = 1.0
            elif kind == CL:
                out[i, j] = 0.0
    return out


def repeated_eigenvalue(case, model: Model) -> bool:
    """Has the normalised Laplacian of the adjusted similarity a repeated eigenvalue?

    There the eigenvectors are not determined, and ARPACK (scipy) picks them with a hidden generator which no seed controls.
    """
    matrix = similarity(model, dense_of(case))
    np.fill_diagonal(matrix, 0)
    degree = matrix.sum(axis=0)
    scale = np.where(degree > 0, np.sqrt(degree), 1)
    values = np.linalg.eigvalsh(np.eye(len(matrix)) - matrix / scale / scale[:, None])
    return len(values) > 1 and float(np.diff(values).min()) < 1e-6


# --------------------------------------------------------------------------
# Algorithms
# --------------------------------------------------------------------------
def gen_params(d: Draw, algorithm: str, n: int) -> dict:
    """Constructor parameters inside the documented domain, with a fixed seed."""
    seed = d.weighted([(3, d.int(0, 3)), (1, d.int(0, 2**32 - 1))])
    params = {"random_seed": seed}
    if algorithm == "kmeans":
        params["max_iteration"] = d.choice([150, 1, 2, 3, 10])
        params["tolerance"] = d.choice([1e-4, 0, 0.5, 5])
        if params["tolerance"] == 0 and params["max_iteration"] == 150:  # such a run never converges
            params["max_iteration"] = d.choice([20, 10, 150, 30, 40])
    elif algorithm == "hierarchical":
        params["linkage"] = d.choice(["ward", "average", "complete", "single"])
    elif algorithm == "spectral":
        params["nb_components"] = d.choice([None, 2, 3])
    elif algorithm == "dbscan":
        params["eps"] = d.choice([0.5, 1, 1.5, 2, 3, 0.1, 6, 25])
        params["min_samples"] = d.int(1, 6)
    elif algorithm == "affinity_propagation":
        params["max_iteration"] = d.choice([150, 20, 400, 1])
        params["convergence_iteration"] = d.choice([10, 1, 15])
        params["absolute_must_links"] = d.bool(3, 4)
    elif algorithm == "mpckmeans":
        params["max_iteration"] = d.choice([10, 1, 3, 30])
        params["w"] = d.choice([1.0, 0, 0.3, 10])
    return params


def gen_number(d: Draw, algorithm: str, n: int):
    if algorithm in FREE_NUMBER:
        return None
    return d.weighted([(3, 2), (4, d.int(2, max(2, min(n, 6)))), (2, d.int(2, n + 2)), (1, max(2, n))])


def build(algorithm: str, params: dict):
    return CLASSES[algorithm](**params)


def cluster(model, manager, vectors, number, **options):
    if number is None:
        return model.cluster(constraints_manager=manager, vectors=vectors, **options)
    return model.cluster(constraints_manager=manager, vectors=vectors, nb_clusters=number, **options)


def partition(result) -> set:
    groups: dict = {}
    for x, c in result.items():
        groups.setdefault(c, set()).add(x)
    return {frozenset(g) for g in groups.values()}


def plain(result) -> dict:
    require(isinstance(result, dict), "the result is not a dictionary:", type(result))
    return {str(k): int(v) for k, v in result.items()}


def require_constraints(result, model: Model, ml=True, cl=True, what="") -> None:
    for i, a in enumerate(model.ids):
        for b in model.ids[i + 1 :]:
            known = model.inferred(a, b)
            if ml and known == ML:
                require(result[a] == result[b], f"{what}: must-linked {a!r} and {b!r} are in clusters {result[a]} and {result[b]}")
            if cl and known == CL:
                require(result[a] != result[b], f"{what}: cannot-linked {a!r} and {b!r} are both in cluster {result[a]}")


def tension(case, model: Model) -> bool:
    """Do constraints fight geometry (close data apart, or far data together)?"""
    dist = distances_of(case)
    known = [(dist[a, b], model.inferred(a, b)) for i, a in enumerate(model.ids) for b in model.ids[i + 1 :]]
    mls = [x for x, kind in known if kind == ML]
    cls = [x for x, kind in known if kind == CL]
    return bool(mls and cls and max(mls) > min(cls))


def shake(seed: int) -> None:
    """Disturb the global random generators."""
    random.seed(seed)
    np.random.seed(seed % 2**32)
