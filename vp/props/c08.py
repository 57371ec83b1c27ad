"""C08: saving and loading gives back the same knowledge."""

import os

from cognitivefactory.interactive_clustering.constraints.binary import load_constraints_manager_from_json

from vp.engine import Test, require
from vp.mgr import gen_history, gen_huge, gen_long, has_derived, request, require_model, require_same, run_history, snapshot
from vp.model import Model

ID = "C08"
RULE = "JSON round trip at the end of a history, onto a new or an already used path, then the same continuation on both; non-trivial = explicit constraints of both types saved"
ASSUMPTIONS = ["files live in a scratch directory"]


def gen_big(d):
    return gen(d, gen_long(d))


def gen_most(d):
    return gen(d, gen_huge(d))


def renamed(value, old, new):
    """The same case with another spelling of an ID."""
    if isinstance(value, dict):
        return {k: renamed(v, old, new) for k, v in value.items()}
    if isinstance(value, list):
        return [renamed(v, old, new) for v in value]
    return new if isinstance(value, str) and value == old and value not in ("MUST_LINK", "CANNOT_LINK", "addc", "delc", "addid", "delid") else value


def gen(d, first=None):
    first = first or gen_history(d, hi_ids=16, hi_ops=40)
    other = gen_history(d, hi_ids=16, hi_ops=30) if d.bool() else None
    model = Model(first["ids"])
    for op in first["ops"]:
        if model.is_valid(op):
            model.apply(op)
    more = []
    for _ in range(d.int(0, 6)):
        if len(model.ids) < 2:
            break
        what = d.choice(["addc", "delc", "delid", "addc"])
        if what == "addc":
            a, b = d.sample(model.ids, 2)
            kind = model.inferred(a, b) or d.choice(["MUST_LINK", "CANNOT_LINK"])
            op = ["addc", a, b, kind]
        elif what == "delc" and model.cons:
            op = ["delc", *d.choice(sorted(model.cons))]
        elif what == "delid" and len(model.ids) > 2:
            op = ["delid", d.choice(model.ids)]
        else:
            continue
        model.apply(op)
        more.append(op)
    case = {"main": first, "previous": other, "more": more}
    if d.bool(1, 12):  # one ID with characters that not every encoding can write
        old, new = d.choice(first["ids"]), d.choice(["\ud800", "x\udfff", "\x00", "\u2028", "\ufeffa", "\r", "\U0010ffff"])
        case = renamed(case, old, new)
    return {**case, "name": d.choice(["m.json", "données é.json", "m"])}


def check(case, ctx):
    path = os.path.join(ctx.scratch, case["name"])
    if os.path.exists(path):
        os.remove(path)
    if case["previous"] is not None:
        earlier, _ = run_history(case["previous"])
        earlier.to_json(path)
        ctx.label("overwrites_a_file")
    manager, model = run_history(case["main"])
    before = snapshot(manager)
    done = manager.to_json(path)
    require(done is True, f"saving returned {done!r}")
    require_same(before, snapshot(manager), "saving changed the manager")
    loaded = load_constraints_manager_from_json(path)
    require(loaded is not manager, "loading must build a new manager")
    require_model(loaded, model, "loaded manager")
    require_same(before, snapshot(loaded), "saved (left) and loaded (right)")
    # A second generation is identical, and both copies evolve alike and independently.
    loaded.to_json(path)
    again = load_constraints_manager_from_json(path)
    require_same(before, snapshot(again), "saved (left) and saved-loaded-saved-loaded (right)")
    for op in case["more"]:
        request(loaded, op)
        model.apply(op)
        require_model(loaded, model, f"loaded manager after {op}")
    require_same(before, snapshot(manager), "changing the loaded manager changed the saved one")
    os.remove(path)
    ctx.nontrivial({"MUST_LINK", "CANNOT_LINK"} <= {c[0] for c in before["explicit"].values() if c})
    ctx.label("derived", has_derived(model))


TESTS = [
    Test("huge", gen_most, check, rand=60, hyp=0, rule="50 to 280 IDs, 500 requests at most"),
    Test("roundtrip", gen, check, rand=15000, hyp=600),
    Test("long", gen_big, check, rand=1500, hyp=0, rule="14 to 40 IDs, 200 requests at most"),
]
