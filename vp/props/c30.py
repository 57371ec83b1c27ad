"""C30: MPC k-means: starting centers, and every iteration under the learnt metric."""

from itertools import combinations, product
from math import comb, prod

import numpy as np

from vp.clu import build, cluster, dense_of, gen_data, model_of, partition, plain, prepared, vectors_of
from vp.engine import Test, require
from vp.model import CL, ML

ID = "C30"
RULE = "the partitions after 1, 2, 3... iterations with the same seed; non-trivial = a step after the first one that changes the partition under a metric influenced by violated constraints (steps), or a first assignment with more (fewer) must-link groups than clusters and at least one constraint (starts)"
ASSUMPTIONS = ["ties within 1e-12 relative of the largest cost may go either way", "at most 6 data in constraints (and 30 in all), so that every processing order is explored"]


class Reference:
    """All the outcomes of one iteration: any processing order, any choice at ties."""

    def __init__(self, case, model):
        self.ids = list(model.ids)
        self.n = len(self.ids)
        dense = dense_of(case)
        self.x = np.array([dense[i] for i in self.ids], dtype=float)
        self.limit = 40000 if self.n <= 6 else 1500  # states explored per assignment
        self.k = min(case["nb"], self.n)
        self.w = case["params"]["w"]
        self.kind = [[model.inferred(a, b) if a != b else None for b in self.ids] for a in self.ids]
        self.groups = [[self.ids.index(m) for m in g] for g in sorted(model.components(), key=sorted)]

    def starts(self):
        """Every possible list of starting centers (None: too many)."""
        x, centers = self.x, [self.x[g].mean(axis=0) for g in self.groups]
        sizes = [len(g) for g in self.groups]
        if len(self.groups) == self.k:
            return [centers]
        if len(self.groups) < self.k:
            if comb(self.n, self.k - len(self.groups)) > 300:
                return None
            return [centers + [x[i] for i in extra] for extra in combinations(range(self.n), self.k - len(self.groups))]
        found, seen = set(), set()

        def go(chosen):
            if frozenset(chosen) in seen or len(seen) > 600:
                return
            seen.add(frozenset(chosen))
            if len(chosen) == self.k:
                found.add(tuple(sorted(chosen)))
                return
            score = {
                j: sizes[j] * min(float(np.linalg.norm(centers[j] - centers[c])) for c in chosen)
                for j in range(len(centers)) if j not in chosen
            }
            top = max(score.values())
            for j, value in score.items():
                if value >= top - 1e-9 * (1 + top):
                    go(chosen + [j])

        for first in range(len(centers)):
            go([first])
        if len(seen) > 600:
            return None  # too many ties
        return [[centers[j] for j in chosen] for chosen in sorted(found)]

    def squares(self, metric):
        diff = self.x[:, None, :] - self.x[None, :, :]
        return (diff * diff * metric).sum(axis=2)

    def farthest(self, metric):
        """Pairs at the largest distance."""
        square = self.squares(metric)
        top = float(square.max())
        return top, [(i, j) for i in range(self.n) for j in range(i) if square[i, j] >= top - 1e-9 * (1 + top)] or [(0, 0)]

    def outcomes(self, centers, metric):
        """Every partition that one assignment can give, with its labellings (None: too many)."""
        square = self.squares(metric).tolist()
        top = max(map(max, square))
        base = [[float(((p - c) ** 2 * metric).sum()) for c in centers] for p in self.x]
        scale = max(map(max, base)) + 2 * self.w * self.n * top
        slack = 1e-12 * (1 + scale)
        found, seen = set(), set()
        # Data without constraint neither influence nor suffer the order.
        free = [i for i in range(self.n) if not any(self.kind[i])]
        ties = [[c for c, value in enumerate(base[i]) if value <= min(base[i]) + slack] for i in free]
        if prod(map(len, ties)) > 64:
            return None
        stack = [tuple(-1 if i in free else None for i in range(self.n))]
        while stack:
            labels = stack.pop()
            if labels in seen:
                continue
            seen.add(labels)
            if len(seen) > self.limit:
                return None
            todo = [i for i in range(self.n) if labels[i] is None]
            if not todo:
                found.add(labels)
                continue
            for i in todo:
                cost = list(base[i])
                for j, other in enumerate(labels):
                    if other is None or other == -1:
                        continue
                    if self.kind[i][j] == ML:
                        extra = 2 * self.w * square[i][j]
                        for c in range(len(cost)):
                            if c != other:
                                cost[c] += extra
                    elif self.kind[i][j] == CL:
                        cost[other] += 2 * self.w * (top - square[i][j])
                least = min(cost)
                for c, value in enumerate(cost):
                    if value <= least + slack:
                        stack.append(labels[:i] + (c,) + labels[i + 1 :])
        parts: dict = {}
        if len(found) * prod(map(len, ties)) > self.limit / 2:
            return None
        for labels in found:
            for choice in product(*ties):
                full = list(labels)
                for i, c in zip(free, choice):
                    full[i] = c
                if self.n > 6 and len(set(full)) < self.k - 2:
                    return None  # too many ways of filling the empty clusters
                self.refill(tuple(full), base, slack, parts)
        return parts

    def refill(self, labels, base, slack, parts):
        empty = [c for c in range(self.k) if c not in labels]

        def go(labels, empty):
            if not empty:
                groups: dict = {}
                for i, c in enumerate(labels):
                    groups.setdefault(c, []).append(self.ids[i])
                parts.setdefault(frozenset(frozenset(g) for g in groups.values()), set()).add(labels)
                return
            candidates = [i for i in range(self.n) if labels.count(labels[i]) > 1]
            top = max(base[i][labels[i]] for i in candidates)
            for i in candidates:
                if base[i][labels[i]] >= top - slack:
                    for k, c in enumerate(empty):  # the numbering of the clusters is not known
                        go(labels[:i] + (c,) + labels[i + 1 :], empty[:k] + empty[k + 1 :])

        go(labels, empty)

    def means(self, part):
        return [np.mean([self.x[self.ids.index(m)] for m in sorted(g)], axis=0) for g in sorted(part, key=sorted)]

    def unchanged(self, labels, part):
        """Does a labelling give each cluster (in the order of `means`) its own data?"""
        groups = sorted(part, key=sorted)
        return all(self.ids[i] in groups[c] for i, c in enumerate(labels))

    def still(self, part, befores):
        """May the centers have been the means of this partition already, so that the iterations stop there?"""
        for start in befores:
            left = list(self.means(part))
            for center in start:
                near = [k for k, m in enumerate(left) if np.allclose(m, center, atol=1e-5, rtol=0)]
                if not near:
                    break
                left.pop(near[0])
            else:
                return True
        return False

    def metrics(self, part, pairs):
        """The metrics learnt from a partition (several when the farthest pair is not unique)."""
        where = {m: g for g in part for m in g}
        scatter = np.zeros(self.x.shape[1])
        for g in part:
            rows = np.array([self.x[self.ids.index(m)] for m in g])
            scatter = scatter + ((rows - rows.mean(axis=0)) ** 2).sum(axis=0)
        apart, together = [], []
        for i in range(self.n):
            for j in range(i):
                same = where[self.ids[i]] == where[self.ids[j]]
                if self.kind[i][j] == ML and not same:
                    apart.append((i, j))
                elif self.kind[i][j] == CL and same:
                    together.append((i, j))
        out = []
        for a, b in pairs:
            total = scatter.copy()
            for i, j in apart:
                total = total + self.w * (self.x[i] - self.x[j]) ** 2
            for i, j in together:
                total = total + 2 * self.w * np.maximum((self.x[a] - self.x[b]) ** 2 - (self.x[i] - self.x[j]) ** 2, 0)
            metric = self.n / np.maximum(total, 1e-9)
            if not any(np.allclose(metric, other, rtol=1e-9) for other in out):
                out.append(metric)
        return out, bool(apart or together) and self.w > 0


def show(parts):
    return [sorted(map(sorted, p)) for p in sorted(parts, key=lambda p: sorted(map(sorted, p)))][:4]


def first(case, model):
    """Manager, and partition after one iteration."""
    algo = build("mpckmeans", dict(case["params"], max_iteration=1))
    manager, vectors = prepared(algo, case, model, case["nb"])
    return manager, frozenset(partition(plain(cluster(algo, manager, vectors, case["nb"]))))


def run(case, manager, iterations):
    params = dict(case["params"], max_iteration=iterations)
    return frozenset(partition(plain(cluster(build("mpckmeans", params), manager, vectors_of(case), case["nb"]))))


def gen_small(d, hi):
    case = gen_data(d, 2, hi, extras=False)
    n = len(case["ids"])
    case["params"] = {"w": d.choice([1.0, 0.3, 3, 0.05, 0, 10]), "random_seed": d.int(0, 999)}
    case["nb"] = d.weighted([(4, 2), (4, 3), (1, 4), (1, n)])
    shrink(d, case)
    return case


def shrink(d, case):
    """Sometimes, very close data: the centers move by little."""
    if d.bool(1, 6):
        case["q"] *= 2.0 ** d.int(5, 8)


def gen_starts(d):
    return gen_small(d, 6)


def gen_many(d):
    """More data and clusters, few of them in constraints."""
    case = gen_data(d, 7, 30, extras=False)
    n = len(case["ids"])
    members, links = [], []
    for link in case["links"]:
        new = [x for x in link[:2] if x not in members]
        if len(members) + len(set(new)) <= 6:
            members += new
            links.append(link)
    case["links"] = links
    case["params"] = {"w": d.choice([1.0, 0.3, 3, 0.05, 0, 10]), "random_seed": d.int(0, 999)}
    case["nb"] = d.weighted([(2, 2), (2, 3), (4, d.int(4, 8)), (1, n - d.int(0, 3))])
    case["steps"] = d.int(1, 6)
    shrink(d, case)
    return case


def check_many(case, ctx):
    check_starts(case, ctx)
    check_steps(case, ctx)


def check_starts(case, ctx):
    model = model_of(case)
    _, got = first(case, model)
    ref = Reference(case, model)
    allowed = set()
    ones = np.ones(ref.x.shape[1])
    starts = ref.starts()
    if starts is None:
        return
    for centers in starts:
        parts = ref.outcomes(centers, ones)
        if parts is None:
            return
        allowed |= set(parts)
        if ref.n > 6 and got in allowed:
            break
    require(got in allowed, f"the first iteration gives {show([got])}, which no allowed start and order gives: {show(allowed)}")
    ctx.nontrivial(len(ref.groups) != ref.k and bool(model.cons))
    ctx.label("more_groups_than_clusters", len(ref.groups) > ref.k)
    ctx.label("fewer_groups_than_clusters", len(ref.groups) < ref.k)
    ctx.label("possible_partitions_at_most_3", len(allowed) <= 3)


def gen_steps(d):
    case = gen_small(d, 6)
    if d.bool(3, 5):  # uneven coordinates: the metric matters
        n = len(case["ids"])
        dim = d.int(2, 3)
        spread = [d.choice([1, 3, 12, 40]) for _ in range(dim)]
        case["vec"] = [[d.int(0, 4) * s + d.int(0, 2) for s in spread] for _ in range(n)]
        case["q"] = 1
        shrink(d, case)
    case["steps"] = d.int(2, 4)
    return case


def check_steps(case, ctx):
    model = model_of(case)
    ref = Reference(case, model)
    ones = np.ones(ref.x.shape[1])
    previous = None
    manager, current = first(case, model)
    _, pairs = ref.farthest(ones)
    metrics, strained = ref.metrics(current, pairs)
    good = False
    for step in range(2, case["steps"] + 2):
        if len(metrics) > 3:
            ctx.label("ambiguous_farthest_pair")
            break
        after = run(case, manager, step)
        centers = ref.means(current)
        kept = []
        unclear = False
        options, labellings = set(), set()
        for metric in metrics:
            parts = ref.outcomes(centers, metric)
            if parts is None:
                unclear = True
                break
            options |= set(parts)
            labellings |= parts.get(after, set())
            if after in parts:
                kept.append(metric)
        if unclear:
            ctx.label("too_many_orders")
            break
        befores = ref.starts() if step == 2 else [ref.means(previous)]
        if after == current and (befores is None or ref.still(current, befores)):
            ctx.label("converged")
            break
        require(
            bool(kept),
            f"iteration {step} goes from {show([current])} to {show([after])}; with the means and the metric {[m.tolist() for m in metrics]} it could give {show(options)}",
        )
        ctx.label(f"step_{step}")
        if after == current and all(ref.unchanged(labels, current) for labels in labellings):
            # Every datum kept its cluster, whatever the order: the centers did not move, so it ends there.
            for more in (1, 2, 5):
                final = run(case, manager, step + more)
                require(final == after, f"the centers no longer move at iteration {step} ({show([after])}), but {more} more give {show([final])}")
            ctx.label("stopped")
            break
        if after != current:
            ctx.label("changed")
            good = good or strained
            if ref.outcomes(centers, ones) is not None and after not in ref.outcomes(centers, ones):
                ctx.label("decided_by_the_metric")
        fresh, strained_next = [], strained
        for metric in kept:
            _, pairs = ref.farthest(metric)
            learnt, strained_next = ref.metrics(after, pairs)
            for m in learnt:
                if not any(np.allclose(m, other, rtol=1e-9) for other in fresh):
                    fresh.append(m)
        previous, current, metrics, strained = current, after, fresh, strained_next
    ctx.nontrivial(good)


TESTS = [
    Test("many", gen_many, check_many, rand=2500, hyp=0, rule="7 to 30 data, at most 6 of them in constraints, up to 30 clusters"),
    Test("starts", gen_starts, check_starts, rand=6000, hyp=60),
    Test("steps", gen_steps, check_steps, rand=6000, hyp=60),
]
