"""C02: inferred constraints are exactly the transitive consequences of the explicit ones."""

from vp.engine import Test
from vp.mgr import gen_history, gen_huge, gen_ids, gen_long, has_derived, new_manager, request, require_model, run_history
from vp.model import CL, ML, Model

ID = "C02"
RULE = "histories of accepted requests, compared with a union-find closure recomputed from scratch; non-trivial = at the end some constraint is known by inference only"


def gen(d):
    return gen_history(d, hi_ids=16, hi_ops=60, self_ops=True)


def check(case, ctx):
    state = {"worst": False}

    def step(number, op, manager, model):
        if number % case.get("every", 1) == 0:
            require_model(manager, model, f"after step {number} {op}", explicit=False)
            state["worst"] = state["worst"] or has_derived(model)

    manager, model = run_history(case, step)
    require_model(manager, model, "at the end", explicit=False)
    ctx.label("derived_cannot_link", any(model.inferred(a, b) == CL and model.added(a, b) is None for a in model.ids for b in model.ids))
    ctx.label("three_components_apart", sum(1 for v in model.cl_graph()[1].values() if v) >= 3)
    ctx.nontrivial(state["worst"])


def gen_groups(d):
    """Big groups built in an arbitrary order, then joined or separated by a few last links."""
    ids = gen_ids(d, 6, 40)
    k = d.int(2, max(2, min(8, len(ids) // 2)))
    groups = [[] for _ in range(k)]
    for x in ids:
        groups[d.int(0, k - 1)].append(x)
    groups = [g for g in groups if g]
    links = []
    for g in groups:
        order = d.shuffle(g)
        shape = d.choice(["chain", "star", "tree"])
        for i in range(1, len(order)):
            j = i - 1 if shape == "chain" else (0 if shape == "star" else d.int(0, i - 1))
            links.append([order[i], order[j], ML] if d.bool() else [order[j], order[i], ML])
    super_of = [d.int(0, len(groups) - 1) for _ in groups]
    for i in range(len(groups)):
        for j in range(i + 1, len(groups)):
            if d.bool(1, 2):
                a, b = d.choice(groups[i]), d.choice(groups[j])
                links.append([a, b, ML if super_of[i] == super_of[j] else CL])
    links = d.shuffle(links)
    return {"ids": ids, "ops": [["addc"] + link for link in links]}


def check_groups(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    for op in case["ops"]:
        if not model.is_valid(op):
            continue
        request(manager, op)
        model.apply(op)
    require_model(manager, model, "after all links", explicit=False)
    ctx.nontrivial(has_derived(model))
    ctx.label("component_of_8_or_more", any(len(c) >= 8 for c in model.components()))


TESTS = [
    Test("huge", gen_huge, check, rand=80, hyp=0, rule="50 to 280 IDs, 500 requests at most"),
    Test("long", gen_long, check, rand=3000, hyp=0, rule="14 to 40 IDs, 200 requests at most"),
    Test("history", gen, check, rand=25000, hyp=1200, rule="16 IDs, 60 requests at most; every pair in both argument orders after every step"),
    Test("groups", gen_groups, check_groups, rand=12500, hyp=450, rule="up to 40 IDs in groups linked as chains, stars or trees, then joined/separated, all links in shuffled order"),
]
