"""C06: the announced range of cluster numbers is right."""

from vp.engine import Test, require
from vp.mgr import gen_history, gen_ids, new_manager, request, run_history
from vp.model import CL, ML, Model, chromatic, degeneracy

ID = "C06"
RULE = "exact chromatic number and degeneracy of the cannot-link graph over the components by brute force; non-trivial = chromatic number at least 3 and more than one component"
ASSUMPTIONS = ["states with a single must-link component are outside the lower-bound/upper-bound order claim (the announced minimum is always at least 2)"]


def verify(manager, model, ctx, chi=None):
    low, high = manager.get_min_and_max_number_of_clusters()
    comps, graph = model.cl_graph()
    require(manager.get_min_and_max_number_of_clusters(threshold=0.5)[1] == high, "the maximum depends on the threshold")
    require(high == len(comps), f"maximum is {high}, there are {len(comps)} components")
    chi = chromatic(graph) if chi is None else chi
    top = max(2, degeneracy(graph) + 1)
    require(low >= max(2, chi), f"minimum is {low} but no assignment respects the constraints with less than {max(2, chi)} clusters")
    require(low <= top, f"minimum is {low}, a smallest-last colouring needs {top} at most")
    if len(comps) >= 2:
        require(low <= high, f"minimum {low} exceeds maximum {high}")
    ctx.label(f"chromatic_{min(chi, 7)}")
    ctx.label("slack", top > max(2, chi))
    ctx.nontrivial(chi >= 3 and len(comps) > 1)


def gen_graph(d):
    ids = gen_ids(d, 2, 24)
    k = d.int(2, max(2, min(len(ids), 12)))
    groups = [[x] for x in ids[:k]]
    for x in ids[k:]:
        groups[d.int(0, k - 1)].append(x)
    links = []
    for g in groups:
        for i in range(1, len(g)):
            links.append([g[i], g[d.int(0, i - 1)], ML])
    shape = d.choice(["random", "random", "dense", "cycle", "clique", "wheel", "crown", "path", "none"])
    edges = []
    if shape in ("random", "dense"):
        num = 9 if shape == "dense" else d.int(2, 7)
        edges = [(i, j) for i in range(k) for j in range(i + 1, k) if d.bool(num, 10)]
    elif shape == "cycle":
        edges = [(i, (i + 1) % k) for i in range(k) if k > 2]
    elif shape == "path":
        edges = [(i, i + 1) for i in range(k - 1)]
    elif shape == "clique":
        m = d.int(2, k)
        edges = [(i, j) for i in range(m) for j in range(i + 1, m)]
    elif shape == "wheel" and k > 3:
        edges = [(i, i % (k - 1) + 1) for i in range(1, k)] + [(0, i) for i in range(1, k)]
    elif shape == "crown" and k >= 6:
        h = k // 2
        edges = [(i, h + j) for i in range(h) for j in range(h) if i != j]
    for i, j in edges:
        if i != j:
            links.append([d.choice(groups[i]), d.choice(groups[j]), CL])
    return {"ids": d.shuffle(ids), "links": d.shuffle(links)}


def check_graph(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    for a, b, kind in case["links"]:
        if model.is_valid(["addc", a, b, kind]):
            request(manager, ["addc", a, b, kind])
            model.apply(["addc", a, b, kind])
    verify(manager, model, ctx)


def gen_large(d):
    """Many groups, whose cannot-link graph has a known chromatic number k: k parts and a clique of k."""
    ids = gen_ids(d, 16, 70)
    n = len(ids)
    k = d.int(2, 9)
    parts = [i if i < k else d.int(0, k - 1) for i in range(n)]
    links = []
    for i in range(n):
        if i >= 2 * k and d.bool(1, 4):
            mates = [j for j in range(i) if parts[j] == parts[i]]
            j = d.choice(mates)
            links.append([ids[i], ids[j], ML])
    edges = {(i, j) for i in range(k) for j in range(i)}
    for _ in range(d.choice([n // 2, 2 * n, 5 * n])):
        i, j = d.int(0, n - 1), d.int(0, n - 1)
        if parts[i] != parts[j]:
            edges.add((max(i, j), min(i, j)))
    links += [[ids[i], ids[j], CL] for i, j in sorted(edges)]
    return {"ids": d.shuffle(ids), "links": d.shuffle(links), "chi": k}


def check_large(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    for a, b, kind in case["links"]:
        require(model.is_valid(["addc", a, b, kind]), "harness: inconsistent case")
        request(manager, ["addc", a, b, kind])
        model.apply(["addc", a, b, kind])
    verify(manager, model, ctx, case["chi"])


def gen(d):
    return gen_history(d, hi_ids=14, hi_ops=50)


def check(case, ctx):
    manager, model = run_history(case)
    if model.ids:
        verify(manager, model, ctx)


def gen_complete(d):
    ids = gen_ids(d, 2, 16)
    k = d.int(2, max(2, min(8, len(ids))))
    truth = [i if i < k else d.int(0, k - 1) for i in range(len(ids))]
    return {"ids": ids, "truth": d.shuffle(truth)}


def check_complete(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    label = dict(zip(case["ids"], case["truth"]))
    for i, a in enumerate(case["ids"]):
        for b in case["ids"][i + 1 :]:
            if model.inferred(a, b) is None:
                op = ["addc", a, b, ML if label[a] == label[b] else CL]
                request(manager, op)
                model.apply(op)
    classes = len(set(case["truth"]))
    low, high = manager.get_min_and_max_number_of_clusters()
    require((low, high) == (max(2, classes), classes), f"complete annotation with {classes} classes gives the range {(low, high)}")
    ctx.nontrivial(classes >= 3)


TESTS = [
    Test("large", gen_large, check_large, rand=1500, hyp=0, rule="16 to 70 data, known chromatic number (parts and a planted clique)"),
    Test("graphs", gen_graph, check_graph, rand=30000, hyp=900, rule="random, clique, cycle, wheel, crown graphs over must-link groups"),
    Test("history", gen, check, rand=15000, hyp=450),
    Test("complete", gen_complete, check_complete, rand=6000, hyp=240, rule="complete annotation: both bounds equal the number of classes"),
]
