"""C07: conflict diagnosis."""

from vp.engine import Test, require
from vp.mgr import gen_history, gen_huge, gen_long, request, run_history, snapshot, require_same
from vp.model import CL, ML

ID = "C07"
RULE = "every ordered pair and both types at the end of a history; non-trivial = some contradiction involves two different components of which one has 2 or more members"


def gen(d):
    case = gen_history(d, hi_ids=13, hi_ops=40)
    case["stop"] = d.int(0, 200)
    return case


def check(case, ctx):
    manager, model = run_history(case)
    before = snapshot(manager)
    interesting = False
    for a in model.ids:
        for b in model.ids:
            for kind in (ML, CL):
                found = manager.get_list_of_involved_data_IDs_in_a_constraint_conflict(data_ID1=a, data_ID2=b, constraint_type=kind)
                known = model.inferred(a, b)
                what = f"conflict query {(a, b, kind)}, inferred {known}"
                if known is None or known == kind:
                    require(found is None, f"{what}: no conflict expected, got {found!r}")
                    continue
                require(isinstance(found, list), f"{what}: a conflict is expected, got {found!r}")
                want = model.component(a) | model.component(b)
                require(len(found) == len(set(found)), f"{what}: duplicates in {found!r}")
                require(set(found) == want, f"{what}: got {sorted(found)!r}, expected {sorted(want)!r}")
                try:
                    request(manager, ["addc", a, b, kind])
                except ValueError:
                    pass
                else:
                    require(False, f"{what}: reported as a conflict but accepted")
                if known == CL and len(want) > 2:
                    interesting = True
                ctx.label("conflict_" + known)
    require_same(before, snapshot(manager), "diagnosis changed the manager")
    ctx.nontrivial(interesting)


TESTS = [
    Test("huge", gen_huge, check, rand=40, hyp=0, rule="50 to 280 IDs, 500 requests at most"),
    Test("history", gen, check, rand=20000, hyp=900),
    Test("long", gen_long, check, rand=2000, hyp=0, rule="14 to 40 IDs, 200 requests at most"),
]
