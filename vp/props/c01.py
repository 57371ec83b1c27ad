"""C01: explicit constraints and managed IDs are exact over any history."""

from vp.engine import Test, require
from vp.mgr import gen_history, gen_huge, gen_long, new_manager, require_model, run_history
from vp.model import Model

ID = "C01"
RULE = "histories of accepted requests (add/delete IDs and constraints); non-trivial = contains a constraint deletion or ID deletion that removed at least one explicit constraint, with at least one explicit constraint left at the end"
ASSUMPTIONS = ["self-pairs are outside the claim; requests that the documentation refuses are the subject of C03"]


def gen(d):
    case = gen_history(d, hi_ids=18, hi_ops=70)
    case["flavor"] = d.int(0, 1)
    return case


def gen_big(d):
    case = gen_long(d)
    case["flavor"] = 0
    return case


def gen_most(d):
    return {**gen_huge(d), "flavor": 0}


def check(case, ctx):
    removed = []
    shadow = Model(case["ids"])
    start = new_manager(case["ids"], case["flavor"])
    require_model(start, shadow, "fresh manager", inferred=False)

    def step(number, op, manager, model):
        nonlocal shadow
        gone = len(set(shadow.cons) - set(model.cons))
        if gone:
            removed.append(gone)
            ctx.label("removed_by_" + op[0])
        shadow = model.copy()
        if number % case.get("every", 1) == 0:
            require_model(manager, model, f"after step {number} {op}", inferred=False)

    manager, model = run_history(case, step)
    require_model(manager, model, "at the end", inferred=False)
    for a in model.ids:
        require(manager.get_added_constraint(a, a) in (("MUST_LINK", 1.0), None), "self pair of", a)
    readded = {op[1] for op in case["ops"] if op[0] == "delid"} & {op[1] for op in case["ops"] if op[0] == "addid"}
    ctx.label("readded_id", readded)
    ctx.nontrivial(removed and model.cons)


TESTS = [
    Test("huge", gen_most, check, rand=80, hyp=0, rule="50 to 280 IDs, 500 requests at most"),
    Test("long", gen_big, check, rand=3000, hyp=0, rule="14 to 40 IDs, 200 requests at most"),
    Test("history", gen, check, rand=30000, hyp=1200, rule="18 IDs, 70 requests at most; compared with a dictionary after every step"),
]
