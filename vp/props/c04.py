"""C04: retraction leaves no residue; the order of additions does not matter."""

from vp.engine import Test, require
from vp.mgr import gen_history, gen_huge, gen_long, has_derived, new_manager, request, require_same, run_history, snapshot
from vp.model import Model

ID = "C04"
RULE = "a history with deletions versus a fresh manager given only the surviving facts, in shuffled order, then the same continuation on both; non-trivial = a deletion removed a constraint and something is still inferred at the end"


def gen_big(d):
    return gen(d, gen_long(d, hi_ids=30, hi_ops=150))


def gen_most(d):
    return gen(d, gen_huge(d, lo_ids=40, hi_ids=80, hi_ops=300))


def gen(d, case=None):
    case = case or gen_history(d, hi_ids=14, hi_ops=50)
    model = Model(case["ids"])
    for op in case["ops"]:
        if model.is_valid(op):
            model.apply(op)
    case["perm_ids"] = d.shuffle(model.ids)
    case["perm_cons"] = [[b, a, kind] if d.bool() else [a, b, kind] for (a, b), kind in d.shuffle(sorted(model.cons.items()))]
    more = []
    for _ in range(d.int(0, 8)):
        if len(model.ids) < 2:
            break
        if model.cons and d.bool(1, 3):
            op = ["delc", *d.choice(sorted(model.cons))]
        else:
            a, b = d.sample(model.ids, 2)
            kind = d.choice(["MUST_LINK", "CANNOT_LINK"])
            if model.inferred(a, b) not in (None, kind):
                kind = model.inferred(a, b)
            op = ["addc", a, b, kind]
        model.apply(op)
        more.append(op)
    case["more"] = more
    return case


def queries(manager):
    snap = snapshot(manager, ordered_ids=False)
    ids = snap["ids"]
    if len(ids) >= 1:
        snap["max_clusters"] = manager.get_min_and_max_number_of_clusters()[1]
    conflicts = {}
    for a in ids:
        for b in ids:
            if a < b:
                for kind in ("MUST_LINK", "CANNOT_LINK"):
                    found = manager.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, kind)
                    conflicts[(a, b, kind)] = None if found is None else tuple(sorted(found))
    snap["conflicts"] = conflicts
    return snap


def check(case, ctx):
    dropped = []
    shadow = Model(case["ids"])

    def step(number, op, manager, model):
        nonlocal shadow
        if set(shadow.cons) - set(model.cons):
            dropped.append(op)
        shadow = model.copy()

    manager, model = run_history(case, step)
    require(sorted(model.ids) == sorted(case["perm_ids"]), "harness: stale case")
    fresh = new_manager(case["perm_ids"])
    for a, b, kind in case["perm_cons"]:
        request(fresh, ["addc", a, b, kind])
    require_same(queries(fresh), queries(manager), "fresh manager (left) and manager with a history (right)")
    for op in case["more"]:
        request(fresh, op)
        request(manager, op)
        require_same(queries(fresh), queries(manager), f"after the same continuation {op}: fresh (left) and with a history (right)")
    ctx.label("continuation", case["more"])
    ctx.nontrivial(dropped and has_derived(model))


TESTS = [
    Test("huge", gen_most, check, rand=40, hyp=0, rule="40 to 80 IDs, 300 requests at most"),
    Test("long", gen_big, check, rand=800, hyp=0, rule="14 to 30 IDs, 150 requests at most"),
    Test("rebuild", gen, check, rand=20000, hyp=900, rule="explicit, inferred, components, completeness, maximum clusters number and every conflict query"),
]
