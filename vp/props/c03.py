"""C03: contradictory or invalid requests are refused without any effect; all others are accepted."""

from vp.engine import Test, Violation, require
from vp.mgr import gen_history, gen_huge, gen_long, new_manager, request, require_model, require_same, snapshot
from vp.model import CL, ML, Model

ID = "C03"
RULE = "histories where about 40 % of the requests are arbitrary (contradictions, unknown IDs or types, duplicates); non-trivial = at least one contradiction of an inferred-only constraint was requested, and at least one request was accepted after a refusal"


def gen(d):
    case = gen_history(d, hi_ids=12, hi_ops=44, invalid=40, self_ops=True)
    case["probe"] = [d.int(0, 30), d.int(0, 30)]
    return case


def gen_big(d):
    case = gen_long(d, invalid=30, hi_ids=30, hi_ops=120)
    case["probe"] = [d.int(0, 30), d.int(0, 30)]
    return case


def gen_most(d):
    case = gen_huge(d, invalid=30, lo_ids=40, hi_ids=80, hi_ops=80)
    case["probe"] = [d.int(0, 30), d.int(0, 30)]
    return case


def refused(call, what):
    try:
        result = call()
    except ValueError:
        return
    raise Violation(f"{what} was accepted (returned {result!r}) instead of raising ValueError")


def check(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    before = snapshot(manager)
    contradictions = after_refusal = refusals = 0
    for number, op in enumerate(case["ops"]):
        what = f"step {number}: {op}"
        if model.is_valid(op):
            try:
                done = request(manager, op)
            except ValueError as err:
                raise Violation(f"{what} is legitimate but was refused: {err}") from err
            require(done is True, f"{what} returned {done!r} instead of True")
            model.apply(op)
            require_model(manager, model, what)
            before = snapshot(manager)
            after_refusal += 1 if refusals else 0
        else:
            if op[0] == "addc" and op[1] in model.ids and op[2] in model.ids and op[3] in (ML, CL):
                ctx.label("contradiction")
                contradictions += 1 if (op[1] != op[2] and model.added(op[1], op[2]) is None) else 0
            refused(lambda: request(manager, op), what)
            refusals += 1
            after = snapshot(manager)
            require_same(before, after, f"{what} was refused but changed the manager")
    # Queries about strangers are refused too.
    stranger = "no such ID"
    known = model.ids[case["probe"][0] % len(model.ids)] if model.ids else stranger
    for a, b in ((stranger, known), (known, stranger), (stranger, stranger)):
        refused(lambda: manager.get_added_constraint(a, b), f"explicit query {(a, b)}")
        refused(lambda: manager.get_inferred_constraint(a, b), f"inferred query {(a, b)}")
        for kind in (ML, CL):
            refused(
                lambda: manager.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, kind),
                f"conflict query {(a, b, kind)}",
            )
    require_same(before, snapshot(manager), "queries changed the manager")
    ctx.nontrivial(contradictions and after_refusal)


TESTS = [
    Test("huge", gen_most, check, rand=25, hyp=0, rule="40 to 80 IDs, 80 requests at most"),
    Test("long", gen_big, check, rand=800, hyp=0, rule="14 to 30 IDs, 120 requests at most"),
    Test("history", gen, check, rand=25000, hyp=1200, rule="full observable snapshot before/after every refusal, model comparison after every acceptance"),
]
