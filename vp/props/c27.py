"""C27: frequencies of clusters."""

from collections import Counter
from fractions import Fraction

from cognitivefactory.interactive_clustering.utils.frequency import compute_clusters_frequency

from vp.engine import Test, require

ID = "C27"
RULE = "exact rational shares; non-trivial = at least three clusters of different sizes"


def gen(d):
    n = d.weighted([(1, 0), (5, d.int(1, 12)), (4, d.int(1, 60)), (1, d.int(60, 300))])
    style = d.int(0, 4)
    top = d.int(0, 8)
    labels = []
    for i in range(n):
        if style == 0:
            labels.append(d.int(0, top))
        elif style == 1:
            labels.append(d.int(-3, top))
        elif style == 2:
            labels.append(d.choice([-1, 0, 7, 1000000, -5000000, 10**18, -(10**12)]))
        elif style == 4:
            labels.append(i if d.bool(3, 4) else d.int(0, n))
        else:
            labels.append(0 if d.bool(9, 10) else d.int(0, top))
    return {"labels": labels, "order": d.shuffle(range(n)) if n <= 60 else list(range(n))[::-1]}


def gen_big(d):
    n = d.int(300, 4000)
    top = d.choice([1, 3, 30, 300, n])
    labels = [d.int(-top // 10, top) for _ in range(n)]
    return {"labels": labels, "order": list(range(n))[:: d.choice([1, -1])]}


def check(case, ctx):
    labels = case["labels"]
    n = len(labels)
    clusters = {f"id {i}": c for i, c in enumerate(labels)}
    count = Counter(labels)
    got = compute_clusters_frequency(clustering_result=clusters)
    require(isinstance(got, dict), f"not a dictionary: {got!r}")
    require(set(got) == set(labels), f"entries for clusters {sorted(got)}, clusters are {sorted(set(labels))}")
    for c, value in got.items():
        want = Fraction(count[c], n)
        require(abs(Fraction(float(value)) - want) <= Fraction(1, 10**12), f"cluster {c} has frequency {value}, expected {want}")
    if n:
        require(abs(sum(got.values()) - 1) < 1e-9, f"frequencies sum to {sum(got.values())}")
    other = compute_clusters_frequency(clustering_result={f"id {i}": labels[i] for i in case["order"]})
    require(other == got, f"the order of the data changes the frequencies: {got} -> {other}")
    ctx.nontrivial(len(set(count.values())) >= 2 and len(set(labels)) >= 3)


TESTS = [
    Test("frequency", gen, check, rand=12000, hyp=400),
    Test("big", gen_big, check, rand=200, hyp=0, rule="300 to 4000 data, up to 4000 clusters"),
]
