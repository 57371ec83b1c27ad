"""C16: each merge of the hierarchical tree joins a closest pair of compatible clusters."""

import json
import math

import numpy as np

from cognitivefactory.interactive_clustering.clustering.hierarchical import Cluster

from vp.clu import build, cluster, dense_of, distances_of, gen_data, model_of, prepared, row
from vp.engine import Test, require
from vp.model import CL

ID = "C16"
RULE = "the whole tree is replayed merge by merge against brute-force linkage distances; non-trivial = at least three merges, among clusters some of which are incompatible or hold several data"
LINKAGES = ["ward", "average", "complete", "single"]


def linkage_distance(linkage, left, right, dist, dense):
    if linkage == "single":
        return min(dist[a, b] for a in left for b in right)
    if linkage == "complete":
        return max(dist[a, b] for a in left for b in right)
    if linkage == "average":
        gap = np.mean([dense[a] for a in left], axis=0) - np.mean([dense[b] for b in right], axis=0)
        return float(np.sqrt((gap**2).sum()))
    merged = sorted(left | right)
    total = sum(dist[a, b] for i, a in enumerate(merged) for b in merged[i + 1 :])
    return total / (len(left) * len(right))


def walk(node):
    yield node
    for child in node.children:
        yield from walk(child)


def require_tree(root, model, dense):
    """Structure of the tree; returns its nodes."""
    nodes = list(walk(root))
    for node in nodes:
        members = list(node.members)
        require(len(set(members)) == len(members), f"a node holds the same datum twice: {members}")
        require(node.get_cluster_size() == len(members), f"size of {members} is given as {node.get_cluster_size()}")
        center = np.asarray(node.centroid.toarray()).ravel()
        mean = np.mean([dense[x] for x in members], axis=0)
        require(np.allclose(center, mean, rtol=1e-9, atol=1e-12 * max(abs(v) for x in members for v in dense[x])), f"barycenter of {members} is {center}, expected {mean}")
        if node.children:
            union = [x for child in node.children for x in child.members]
            require(sorted(union) == sorted(members), f"members {members} are not the union of the children {union}")
            depth = 1 + max(child.cluster_inverse_depth for child in node.children)
        else:
            depth = 0
        require(node.cluster_inverse_depth == depth, f"depth of {members} is {node.cluster_inverse_depth}, expected {depth}")
    require(sorted(root.members) == sorted(model.ids), f"the root holds {sorted(root.members)}")
    numbers = [node.cluster_ID for node in nodes]
    require(len(set(numbers)) == len(numbers), f"two nodes have the same number: {sorted(numbers)}")
    return nodes


def gen(d):
    case = gen_data(d, 1, 14, scaled=True, wide=True)
    case["linkage"] = d.choice(LINKAGES)
    case["nb"] = d.int(2, 5)
    case["reuse"] = d.bool(1, 4)
    return case


def gen_big(d, lo=14, hi=32):
    case = gen_data(d, lo, hi, scaled=True, wide=True)
    case["linkage"] = d.choice(LINKAGES)
    case["nb"] = d.int(2, 12)
    case["reuse"] = False
    return case


def check(case, ctx):
    model = model_of(case)
    algo = build("hierarchical", {"linkage": case["linkage"], "random_seed": 1})
    manager, vectors = prepared(algo, case, model, case["nb"])
    if case["reuse"]:
        cluster(algo, manager, {x: row([i % 3, 1]) for i, x in enumerate(model.ids)}, 2)
    cluster(algo, manager, vectors, case["nb"])
    dense, dist = dense_of(case), distances_of(case)
    nodes = require_tree(algo.clustering_root, model, dense)

    leaves = {frozenset(node.members) for node in nodes if not node.children}
    require(leaves == model.components(), f"leaves {leaves} are not the must-link components {model.components()}")
    merges = sorted((node for node in nodes if node.children), key=lambda node: node.clustering_iteration)
    steps = [node.clustering_iteration for node in merges]
    require(len(set(steps)) == len(steps), f"two merges have the same iteration: {steps}")

    scale = max((abs(v) for vec in dense.values() for v in vec), default=0)
    slack = (1e-9 if math.frexp(case["q"])[0] == 0.5 else 2e-5) * scale
    current = set(leaves)
    distance = {}

    def far(left, right):
        key = frozenset((left, right))
        if key not in distance:
            apart = any(model.inferred(a, b) == CL for a in left for b in right)
            distance[key] = None if apart else linkage_distance(case["linkage"], left, right, dist, dense)
        return distance[key]

    incompatible = False
    exact = case["q"] == 1 and case["linkage"] in ("single", "complete")  # equal distances are equal numbers
    for node in merges:
        parts = [frozenset(child.members) for child in node.children]
        for part in parts:
            require(part in current, f"merge {node.clustering_iteration} uses {sorted(part)}, which is not a current cluster")
        listed = sorted(current, key=sorted)
        best = None
        for i, left in enumerate(listed):
            for right in listed[i + 1 :]:
                value = far(left, right)
                if value is None:
                    incompatible = True
                elif best is None or value < best[0]:
                    best = (value, left, right)
        if best is None:
            require(node is algo.clustering_root and set(parts) == current, f"no compatible pair is left but {[sorted(p) for p in parts]} are merged")
            current = {frozenset(node.members)}
            break
        require(len(parts) == 2, f"{len(parts)} clusters are merged although {sorted(best[1])} and {sorted(best[2])} are compatible")
        value = far(*parts)
        require(value is not None, f"{sorted(parts[0])} and {sorted(parts[1])} are merged although a cannot-link separates them")
        require(
            value <= best[0] + slack,
            f"{case['linkage']}: {sorted(parts[0])} and {sorted(parts[1])} are merged at {value}; {sorted(best[1])} and {sorted(best[2])} are closer, at {best[0]}",
        )
        if exact:
            smallest = min(len(left) + len(right) for i, left in enumerate(listed) for right in listed[i + 1 :] if far(left, right) == best[0])
            require(
                len(parts[0]) + len(parts[1]) == smallest,
                f"{case['linkage']}: {sorted(parts[0])} and {sorted(parts[1])} are merged; two clusters at the same distance give a smaller cluster, of {smallest} data",
            )
            ctx.label("tie_of_sizes", smallest < max(len(left) + len(right) for i, left in enumerate(listed) for right in listed[i + 1 :] if far(left, right) == best[0]))
        current = (current - set(parts)) | {frozenset(node.members)}
    require(len(current) == 1, f"the tree stops with {len(current)} clusters")

    description = json.loads(json.dumps(algo.clustering_root.to_dict()))
    stack = [(description, algo.clustering_root)]
    while stack:
        entry, node = stack.pop()
        require(
            entry["cluster_ID"] == node.cluster_ID
            and sorted(entry["members"]) == sorted(node.members)
            and entry["clustering_iteration"] == node.clustering_iteration
            and entry["cluster_inverse_depth"] == node.cluster_inverse_depth
            and len(entry["children"]) == len(node.children),
            f"the description {entry} does not match its node",
        )
        stack += list(zip(entry["children"], node.children))
    ctx.nontrivial(len(merges) >= 3 and (incompatible or any(len(leaf) > 1 for leaf in leaves)))
    ctx.label("linkage_" + case["linkage"])
    ctx.label("root_of_incompatible", len(merges) and far_root(algo.clustering_root, model))


def far_root(root, model):
    parts = [set(child.members) for child in root.children]
    return len(parts) >= 2 and any(model.inferred(a, b) == CL for a in parts[0] for b in parts[1])


def gen_nodes(d):
    ids = [f"d{i}" for i in range(d.int(2, 9))]
    dim = d.int(1, 3)
    groups = [d.int(0, 5) for _ in ids]
    return {
        "vec": [[d.int(-5, 5) for _ in range(dim)] for _ in ids],
        "ids": ids,
        "groups": groups,
        "again": d.bool(),
        "iteration": d.int(1, 50),
        "heights": [d.int(0, 3) for _ in ids],
    }


def check_nodes(case, ctx):
    """Nodes built by hand, then extended with new children."""
    vectors = {x: row(case["vec"][i]) for i, x in enumerate(case["ids"])}
    dense = {x: case["vec"][i] for i, x in enumerate(case["ids"])}
    groups: dict = {}
    for x, g in zip(case["ids"], case["groups"]):
        groups.setdefault(g, []).append(x)
    leaves = [Cluster(vectors=vectors, cluster_ID=i, clustering_iteration=0, members=list(m)) for i, m in enumerate(groups.values())]
    if len(leaves) < 2:
        return
    heights = case.get("heights", [1] + [0] * len(case["ids"]))[: len(leaves)]
    tops = []
    for i, leaf in enumerate(leaves):
        for step in range(heights[i]):
            leaf = Cluster(vectors=vectors, cluster_ID=100 + 10 * i + step, clustering_iteration=1, children=[leaf])
        tops.append(leaf)
    node = Cluster(vectors=vectors, cluster_ID=99, clustering_iteration=2, children=tops[:1])
    require(node.cluster_inverse_depth == heights[0] + 1, f"depth is {node.cluster_inverse_depth}, expected {heights[0] + 1}")
    node.add_new_children(new_children=tops[1:], new_clustering_iteration=case["iteration"])
    if case["again"]:
        node.add_new_children(new_children=[tops[-1]], new_clustering_iteration=case["iteration"])
    require(sorted(node.members) == sorted(case["ids"]), f"members are {sorted(node.members)} after adding children")
    require(len(node.children) == len(leaves), f"{len(node.children)} children, expected {len(leaves)}")
    require(node.clustering_iteration == case["iteration"], "the iteration was not updated")
    require(node.cluster_inverse_depth == max(heights) + 1, f"depth is {node.cluster_inverse_depth}, expected {max(heights) + 1}")
    center = np.asarray(node.centroid.toarray()).ravel()
    mean = np.mean([dense[x] for x in case["ids"]], axis=0)
    require(np.allclose(center, mean, rtol=1e-9, atol=1e-9), f"barycenter is {center}, expected {mean}")
    for children, members in (((leaves[0],), ["d0"]), (None, None)):
        try:
            Cluster(vectors=vectors, cluster_ID=1, clustering_iteration=0, children=None if children is None else list(children), members=members)
        except ValueError:
            continue
        require(False, "a node with both or none of children and members was accepted")
    ctx.nontrivial(len(leaves) > 2)


TESTS = [
    Test("tree", gen, check, rand=5000, hyp=250),
    Test("big", gen_big, check, rand=100, hyp=0, rule="14 to 32 data"),
    Test("huge", lambda d: gen_big(d, 50, 90), check, rand=20, hyp=0, rule="50 to 90 data"),
    Test("nodes", gen_nodes, check_nodes, rand=1500, hyp=60),
]
