"""C19: spectral clustering = standard spectral clustering of the constraint-adjusted similarity."""

import numpy as np
from sklearn.cluster import SpectralClustering

from vp.clu import build, dense_of, gen_data, model_of, partition, repeated_eigenvalue, run_prepared, similarity
from vp.engine import Test, require
from vp.model import CL, ML

ID = "C19"
RULE = "partition compared with scikit-learn on an independently adjusted similarity matrix, where the latter is stable under small perturbations; non-trivial = compared, and the constraints change the partition that the raw similarity gives"
ASSUMPTIONS = ["at least two data (scikit-learn refuses one)", "scikit-learn's spectral solver is trusted"]


def reference(matrix, number, seed, ids):
    solver = SpectralClustering(n_clusters=number, affinity="precomputed", random_state=seed)
    labels = solver.fit_predict(matrix.copy())
    return partition(dict(zip(ids, labels.tolist())))


def stable_reference(matrix, number, seed, ids, scale=1e-10):
    """Partition given by the standard method; None if rounding may decide it."""
    degree = matrix.sum(axis=0) ** -0.5
    spectrum = np.sort(np.linalg.eigvalsh(matrix * degree[:, None] * degree[None, :]))[::-1]
    if number < len(ids) and spectrum[number - 1] - spectrum[number] < 1e-4:
        return None  # the embedding itself is not determined
    first = reference(matrix, number, seed, ids)
    noise = np.random.RandomState(seed % 1000 + 5)
    for _ in range(2):
        shake = noise.uniform(-scale, scale, matrix.shape)
        moved = matrix * (1 + (shake + shake.T) / 2)
        if reference(moved, number, seed, ids) != first:
            return None
    return first


def more_outcomes(matrix, number, seed, ids):
    """Outcomes of the standard method under many perturbations (only computed to confirm a difference)."""
    noise = np.random.RandomState(seed % 1000 + 77)
    out = []
    for turn in range(240):
        scale = 10.0 ** -(8 + turn % 8)
        shake = noise.uniform(-scale, scale, matrix.shape)
        out.append(reference(matrix * (1 + (shake + shake.T) / 2), number, seed, ids))
    return out


def gen(d, lo=2, hi=14):
    case = gen_data(d, lo, hi, wide=True)
    n = len(case["ids"])
    if d.bool(2, 3):  # bring data within reach of the kernel
        case["q"] = d.choice([1, 2, 3, 8, 20]) * case["q"]
    case["nb"] = d.weighted([(4, 2), (4, d.int(2, max(2, min(5, n)))), (1, d.int(2, n + 1))])
    case["seed"] = d.int(0, 1000)
    case["components"] = d.choice([None, 2, 3, 6])
    return case


def check(case, ctx):
    model = model_of(case)
    dense = dense_of(case)
    number = min(case["nb"], len(model.ids))
    want = stable_reference(similarity(model, dense), number, case["seed"], model.ids)
    algo = build("spectral", {"nb_components": case["components"], "random_seed": case["seed"]})
    got = partition(run_prepared(algo, case, model, case["nb"]))
    if want is None:
        ctx.label("unstable_reference")
        return
    if got != want and repeated_eigenvalue(case, model):
        ctx.label("unstable_reference")  # see the finding on C14
        return
    if got != want and got in more_outcomes(similarity(model, dense), number, case["seed"], model.ids):
        ctx.label("unstable_reference")  # rounding decides after all
        return
    require(
        got == want,
        f"{number} clusters: {sorted(map(sorted, got))}, but the adjusted similarity gives {sorted(map(sorted, want))}",
    )
    ctx.label("compared")
    raw = reference(similarity(model, dense, False), number, case["seed"], model.ids)
    ctx.nontrivial(raw != want)


def gen_blocks(d):
    k = d.int(2, 4)
    sizes = [d.int(1, 5) for _ in range(k)]
    n = sum(sizes)
    ids = d.shuffle([f"{'pqrs'[i % 4]}{i}" for i in range(n)])
    labels = [b for b, s in enumerate(sizes) for _ in range(s)]
    how = d.choice(["far", "cl", "ml"])
    vec = []
    for b in labels:
        base = b * (1000 if how != "cl" else 0)
        spread = 30 if how == "ml" else 1
        vec.append([base + d.int(0, spread), d.int(0, spread)])
    links = []
    for i in range(n):
        for j in range(i + 1, n):
            if how == "cl" and labels[i] != labels[j]:
                links.append([ids[i], ids[j], CL])
            if how == "ml" and labels[i] == labels[j] and (j == i + 1 or d.bool(1, 5)):
                links.append([ids[i], ids[j], ML])
    return {"ids": ids, "vec": vec, "q": 1, "links": links, "order": d.shuffle(range(n)), "mode": 0, "nb": k, "seed": d.int(0, 1000), "components": None}


TESTS = [
    Test("differential", gen, check, rand=3000, hyp=120),
    Test("big", lambda d: gen(d, 14, 45), check, rand=200, hyp=0, rule="14 to 45 data"),
    Test("huge", lambda d: gen(d, 60, 150), check, rand=48, hyp=0, rule="60 to 150 data"),
    Test("blocks", gen_blocks, check, rand=800, hyp=40, rule="similarity made of as many disconnected blocks as clusters"),
]
