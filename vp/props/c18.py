"""C18: every k-means iteration is a valid constrained assignment to the previous centroids."""

from fractions import Fraction
from itertools import combinations
from math import comb

import numpy as np

from vp.clu import build, cluster, dense_of, gen_data, manager_of, model_of, partition, require_constraints, vectors_of
from vp.engine import Test, require
from vp.model import CL

ID = "C18"
RULE = "results for successive iteration limits compared step by step with a reference assignment (all processing orders, ties and group representatives accepted); non-trivial = some step changes the clusters and constraints forbid some nearest centroid, or at least ten data without constraints"
LIMIT = 3000  # correspondences tried per step


class Step:
    """One assignment step: old centroids -> new clusters."""

    def __init__(self, model, dense, slack):
        self.groups = sorted(model.components(), key=sorted)
        self.apart = {
            g: [h for h in self.groups if h != g and model.inferred(min(g), min(h)) == CL] for g in self.groups
        }
        self.dense = {x: np.array(v, dtype=float) for x, v in dense.items()}
        self.slack = slack

    def closer(self, centroids):
        """For each group and centroid: per member, the centroids strictly closer than it."""
        out = {}
        for g in self.groups:
            for x in g:
                d = [float(np.sqrt(((self.dense[x] - c) ** 2).sum())) for c in centroids]
                for k in range(len(centroids)):
                    better = frozenset(j for j in range(len(centroids)) if d[j] < d[k] - self.slack)
                    out.setdefault((g, k), set()).add(better)
        return out

    def explanations(self, centroids, clusters):
        """All correspondences cluster -> centroid (or None: opened) that explain `clusters`; None if too many."""
        clusters = sorted(clusters, key=sorted)
        inside = [[g for g in self.groups if g <= q] for q in clusters]
        closer = self.closer(centroids)
        everything = frozenset(range(len(centroids)))
        options = []
        for members in inside:
            choice = []
            for k in range(len(centroids)):
                # a closer centroid can only be refused because of a cannot-linked group elsewhere
                if all(any(not better or len(better) <= len(self.apart[g]) for better in closer[g, k]) for g in members):
                    choice.append(k)
            if len(members) == 1 and len(self.apart[members[0]]) >= len(centroids):
                choice.append(None)
            options.append(choice)
        found, tried, nodes = [], 0, 0
        order = sorted(range(len(clusters)), key=lambda i: len(options[i]))

        def valid(assigned):
            place = {g: assigned[i] for i, members in enumerate(inside) for g in members}
            done, left = set(), set(self.groups)
            progress = True
            while left and progress:
                progress = False
                for g in list(left):
                    blocked = frozenset(place[h] for h in self.apart[g] if h in done and place[h] is not None)
                    k = place[g]
                    good = blocked == everything if k is None else any(better <= blocked for better in closer[g, k])
                    if good:
                        done.add(g)
                        left.discard(g)
                        progress = True
            return not left

        def go(position, assigned, used):
            nonlocal tried, nodes
            nodes += 1
            if tried > LIMIT or nodes > 10 * LIMIT:
                return
            if position == len(order):
                tried += 1
                if valid(assigned):
                    found.append(dict(assigned))
                return
            i = order[position]
            for k in options[i]:
                if k is None or k not in used:
                    assigned[i] = k
                    go(position + 1, assigned, used | ({k} if k is not None else set()))
                    del assigned[i]

        go(0, {}, frozenset())
        if tried > LIMIT or nodes > 10 * LIMIT:
            return None
        return clusters, found

    def means(self, clusters):
        return [np.mean([self.dense[x] for x in q], axis=0) for q in sorted(clusters, key=sorted)]


def show(parts):
    return [sorted(p) for p in sorted(parts, key=sorted)]


def make(hi, constrained, lo=2, top=6):
    def gen(d):
        case = gen_data(d, lo, hi, extras=False, wide=True)
        unit = 2.0 ** d.choice([-20, -35, 10, 20]) if d.bool(1, 4) else 1.0
        case["q"] /= unit
        if not constrained:
            case["links"] = []
        n = len(case["ids"])
        case["nb"] = d.weighted([(4, 2), (3, 3), (2, d.int(2, 4)), (1, d.int(2, n + 1 if n < 30 else 8))])
        case["seed"] = d.int(0, 50)
        case["steps"] = d.int(2, top)
        case["tolerance"] = d.choice([0.0001, 0.3, 1, 3, 10]) * (unit if d.bool(4, 5) else 1)
        case["limit"] = d.int(1, top + 1)
        return case

    return gen


def check(case, ctx):
    model = model_of(case)
    manager = manager_of(case, model)
    vectors = vectors_of(case)
    dense = dense_of(case)
    nb = min(case["nb"], len(model.ids))
    slack = 1e-6 * max((abs(v) for vec in dense.values() for v in vec), default=0) or 1e-9
    step = Step(model, dense, slack)

    def run(limit, tolerance, used=False):
        algo = build("kmeans", {"max_iteration": limit, "tolerance": tolerance, "random_seed": case["seed"]})
        if used:  # the object has already clustered the same data, with other vectors
            other = dict(zip(vectors, reversed(list(vectors.values()))))
            cluster(algo, manager, other, case["nb"])
        result = cluster(algo, manager, vectors, case["nb"])
        require_constraints(result, model, True, True, f"after {limit} iterations")
        kept = getattr(algo, "centroids", None)
        if kept is not None:
            require(set(kept) == set(result.values()), f"centroids are kept for clusters {sorted(kept)}, the result has {sorted(set(result.values()))}")
            for number, vector in kept.items():
                mean = np.mean([dense[x] for x in result if result[x] == number], axis=0)
                got = np.asarray(vector.toarray() if hasattr(vector, "toarray") else vector, dtype=float).ravel()
                require(np.allclose(got, mean, atol=slack, rtol=0), f"the centroid kept for cluster {number} is {got}, the mean of its data {mean}")
        return partition(result)

    steps = max(case["steps"], case["limit"])
    history = [None] + [run(t, 0) for t in range(1, steps + 1)]

    # First step: centroids are distinct data.
    if comb(len(model.ids), nb) <= 330:
        good = unknown = False
        for start in combinations(range(len(model.ids)), nb):
            centroids = [np.array(dense[model.ids[i]], dtype=float) for i in start]
            answer = step.explanations(centroids, history[1])
            if answer is None:
                unknown = True
            elif answer[1]:
                good = True
                break
        require(good or unknown, f"one iteration gives {show(history[1])}, which no choice of {nb} data as centroids explains")
        ctx.label("first_step")

    # Next steps.
    shifts = {}
    moved = False
    for t in range(2, steps + 1):
        old, new = history[t - 1], history[t]
        moved = moved or old != new
        centroids = step.means(old)
        answer = step.explanations(centroids, new)
        if answer is None:
            ctx.label("too_many_correspondences")
            continue
        clusters, found = answer
        require(found, f"iteration {t} goes from {show(old)} to {show(new)}: not an assignment to the nearest allowed centroids")
        shifts[t] = []
        for assigned in found:
            ids = list(assigned.values())
            if None in ids or len(ids) != len(old):
                shifts[t].append(None)
            else:
                new_means = step.means(new)
                shifts[t].append(sum(float(np.sqrt(((new_means[i] - centroids[k]) ** 2).sum())) for i, k in assigned.items()))
        ctx.label("step")

    # Stopping rule.
    tolerance, limit = case["tolerance"], case["limit"]
    got = run(limit, tolerance, bool(case.get("before")))
    required = None  # first iteration at which every explanation says "converged"
    for t in range(2, limit):
        if t in shifts and all(s is not None and s < tolerance - slack for s in shifts[t]):
            required = t
            break
    last = limit if required is None else required
    possible = {last}
    for t in range(2, last):
        if t not in shifts or any(s is not None and s < tolerance + slack for s in shifts[t]):
            possible.add(t)
    require(
        any(got == history[t] for t in possible),
        f"with tolerance {tolerance} and at most {limit} iterations the result is {show(got)}; expected the one of iteration {sorted(possible)}: {[show(history[t]) for t in sorted(possible)]}",
    )
    ctx.label("stopped_by_tolerance", required is not None and history[required] != history[limit])
    nearest_refused = False
    for t in range(2, steps + 1):
        centroids = step.means(history[t - 1])
        closer = step.closer(centroids)
        place = {g: i for i, q in enumerate(sorted(history[t - 1], key=sorted)) for g in step.groups if g <= q}
        nearest_refused = nearest_refused or any(closer[g, place[g]] and frozenset() not in closer[g, place[g]] for g in step.groups)
    ctx.nontrivial((moved and nearest_refused) if any(model.cons) else len(model.ids) >= 10 and moved)
    ctx.label("moved", moved)


def gen_slow(d):
    """Many data on a line and several clusters: many iterations are needed."""
    n = d.int(80, 180)
    power = d.choice([1, 2, 1.5, 0.5])
    places = [round(1000 * (i + d.int(0, 9) / 10) ** power) for i in range(n)]
    return {
        "ids": [f"{i:03d}" for i in range(n)], "vec": [[v] for v in d.shuffle(places)], "q": 1, "links": [], "order": list(range(n)), "mode": 0,
        "nb": d.int(3, 9), "seed": d.int(0, 200), "limit": d.choice([150, 150, 60, 30, 22, 14]), "tolerance": d.choice([1e-4, 1e-4, 1, 100]),
    }


def check_slow(case, ctx):
    model = model_of(case)
    manager, vectors = manager_of(case, model), vectors_of(case)
    place = {x: Fraction(v[0]) for x, v in zip(case["ids"], case["vec"])}
    scale = max(map(abs, place.values()))

    def run(limit, tolerance):
        algo = build("kmeans", {"max_iteration": limit, "tolerance": tolerance, "random_seed": case["seed"]})
        return partition(cluster(algo, manager, vectors, case["nb"]))

    current = sorted(run(1, 0), key=sorted)  # the cluster of each centroid
    tolerance, iterations = Fraction(case["tolerance"]), 1
    while iterations < case["limit"]:
        means = [sum(place[x] for x in q) / len(q) for q in current]
        new: list = [set() for _ in means]
        for x, v in place.items():
            square = sorted(((v - m) ** 2, k) for k, m in enumerate(means))
            if len(square) > 1 and square[1][0] - square[0][0] <= Fraction(1, 10**12) * scale**2:
                ctx.label("tie")
                return
            new[square[0][1]].add(x)
        iterations += 1
        vanished = not all(new)
        kept = [(frozenset(q), m) for q, m in zip(new, means) if q]
        current = [q for q, _ in kept]
        if not vanished:
            shift = sum(abs(sum(place[x] for x in q) / len(q) - m) for q, m in kept)
            if abs(shift - tolerance) <= Fraction(1, 10**7) * tolerance:
                ctx.label("tie")
                return
            if shift < tolerance:
                break
    got = run(case["limit"], case["tolerance"])
    require(
        got == set(current),
        f"with tolerance {case['tolerance']} and at most {case['limit']} iterations the result is {show(got)}; iterating from {show(run(1, 0))} gives {show(current)} after {iterations}",
    )
    ctx.nontrivial(iterations > 10)
    ctx.label("more_than_20_iterations", iterations > 20)


TESTS = [
    Test("slow", gen_slow, check_slow, rand=48, hyp=0, rule="80 to 180 data on a line, as many iterations as needed; non-trivial = more than ten"),
    Test("constrained", make(9, True), check, rand=2400, hyp=120),
    Test("constrained_big", make(24, True, 9), check, rand=400, hyp=0, rule="9 to 24 data"),
    Test("long", make(60, False, 25, 20), check, rand=120, hyp=0, rule="25 to 60 data, up to 21 iterations"),
    Test("huge", make(150, False, 70, 6), check, rand=40, hyp=0, rule="70 to 150 data"),
    Test("constrained_huge", make(60, True, 30), check, rand=32, hyp=0, rule="30 to 60 data"),
    Test("free", make(30, False), check, rand=1200, hyp=60),
]
