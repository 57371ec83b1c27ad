"""C17: cuts of the hierarchical tree."""

from vp.clu import build, gen_data, model_of, partition, run_prepared
from vp.engine import Test, require
from vp.props.c16 import LINKAGES, walk

ID = "C17"
RULE = "every cut compared with a reference exploration of the returned tree following all tie choices; non-trivial = some cut with at least three clusters, and the two criteria disagree or the root has more than two children"
CAP = 4000


def cuts(root, number, by):
    """All partitions reachable by splitting, None when there are too many tie choices."""
    nodes = list(walk(root))
    name = {id(node): i for i, node in enumerate(nodes)}

    def rank(node):
        return len(node.members) if by == "size" else node.clustering_iteration

    finals, seen, stack = set(), set(), [frozenset([0])]
    while stack:
        state = stack.pop()
        if state in seen:
            continue
        seen.add(state)
        if len(seen) > CAP:
            return None
        if len(state) >= number:
            finals.add(state)
            continue
        top = max(rank(nodes[i]) for i in state)
        for i in state:
            if rank(nodes[i]) != top:
                continue
            if not nodes[i].children:
                finals.add(state)
            else:
                stack.append((state - {i}) | {name[id(child)] for child in nodes[i].children})
    return {frozenset(frozenset(nodes[i].members) for i in state) for state in finals}


def gen(d, lo=2, hi=16):
    case = gen_data(d, lo, hi, wide=True)
    n = len(case["ids"])
    case["linkage"] = d.choice(LINKAGES)
    case["nb"] = d.int(2, n + 2)
    case["numbers"] = sorted({d.int(2, n + 2) for _ in range(4)})
    case["first"] = d.choice(["size", "iteration"])
    return case


def check(case, ctx):
    model = model_of(case)
    algo = build("hierarchical", {"linkage": case["linkage"], "random_seed": 0})
    try:
        algo.compute_predicted_clusters(nb_clusters=2)
    except ValueError:
        pass
    else:
        require(False, "a cut before any clustering was not refused")
    result = dict(run_prepared(algo, case, model, case["nb"]))
    root = algo.clustering_root
    found = {}
    for by in (case["first"], "iteration" if case["first"] == "size" else "size"):
        previous = None
        for number in case["numbers"]:
            cut = algo.compute_predicted_clusters(nb_clusters=number, by=by)
            require(set(cut) == set(model.ids), f"cut of {sorted(cut)}")
            parts = partition(cut)
            allowed = cuts(root, number, by)
            if allowed is not None:
                require(frozenset(parts) in allowed, f"cut in {number} by {by} gives {[sorted(p) for p in parts]}, not an exploration of the tree (e.g. {[sorted(p) for p in next(iter(allowed))]})")
                ctx.label("compared")
            if previous is not None:
                for part in parts:
                    require(any(part <= big for big in previous), f"by {by}: {sorted(part)} of the cut in {number} is inside no cluster of a coarser cut {[sorted(p) for p in previous]}")
            previous = parts
            found[by, number] = parts
    again = algo.compute_predicted_clusters(nb_clusters=min(case["nb"], len(model.ids)), by="size")
    require(dict(again) == result, f"clustering in {case['nb']} gave {result}, cutting its tree {dict(again)}")
    default = algo.compute_predicted_clusters(nb_clusters=case["numbers"][0])
    require(partition(default) == found["size", case["numbers"][0]], "the default criterion is not the size")
    require(algo.dict_of_predicted_clusters == result, "a cut changed the prediction kept by the object")
    differ = any(found["size", n] != found["iteration", n] for n in case["numbers"])
    ctx.nontrivial(max(len(p) for p in found.values()) >= 3 and (differ or len(root.children) > 2))
    ctx.label("criteria_differ", differ)
    ctx.label("wide_root", len(root.children) > 2)


TESTS = [
    Test("big", lambda d: gen(d, 16, 36), check, rand=80, hyp=0, rule="16 to 36 data"),
    Test("huge", lambda d: gen(d, 50, 90), check, rand=20, hyp=0, rule="50 to 90 data"),
    Test("cuts", gen, check, rand=5000, hyp=250),
]
