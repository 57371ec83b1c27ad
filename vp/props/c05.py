"""C05: must-link components partition the data; completeness means that everything is known."""

from vp.engine import Test, require
from vp.mgr import components_of, gen_history, gen_huge, gen_ids, gen_long, new_manager, request, run_history
from vp.model import CL, ML, Model

ID = "C05"
RULE = "components and completeness compared with the model; non-trivial = a component of 3 or more, and either completeness reached or at least one pair unknown with a cannot-link present"


def verify(manager, model, what):
    comps = components_of(manager)
    require(comps == model.components(), f"{what}: components {sorted(map(sorted, comps))}, expected {sorted(map(sorted, model.components()))}")
    half = {frozenset(c) for c in manager.get_connected_components(threshold=0.5)}
    require(half == comps, f"{what}: components {sorted(map(sorted, half))} with threshold 0.5, {sorted(map(sorted, comps))} by default")
    require(manager.check_completude_of_constraints(threshold=0.5) == model.complete(), f"{what}: completeness with threshold 0.5, expected {model.complete()}")
    done = manager.check_completude_of_constraints()
    require(done is model.complete() or done == model.complete(), f"{what}: completeness is {done!r}, expected {model.complete()}")


def gen(d):
    return gen_history(d, hi_ids=16, hi_ops=60)


def check(case, ctx):
    def step(number, op, manager, model):
        if number % case.get("every", 1) == 0:
            verify(manager, model, f"after step {number} {op}")

    manager, model = run_history(case, step)
    verify(manager, model, "at the end")
    ctx.nontrivial(any(len(c) >= 3 for c in model.components()) and CL in model.cons.values())


def gen_near(d):
    """Annotate towards completeness, in an arbitrary order, then retract a few links."""
    ids = gen_ids(d, 1, 20)
    k = d.int(1, max(1, min(7, len(ids))))
    truth = {x: d.int(0, k - 1) for x in ids}
    pairs = [(a, b) for i, a in enumerate(ids) for b in ids[i + 1 :]]
    pairs = d.shuffle(pairs) if len(pairs) < 70 else d.sample(pairs, min(len(pairs), 120))
    return {"ids": ids, "pairs": [[a, b, ML if truth[a] == truth[b] else CL] for a, b in pairs], "skip": d.bool(3, 4), "retract": d.int(0, 3), "truth": [truth[x] for x in ids]}


def check_near(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    verify(manager, model, "fresh manager")
    trail = []
    for a, b, kind in case["pairs"]:
        if case["skip"] and model.inferred(a, b) is not None:
            continue
        op = ["addc", a, b, kind]
        request(manager, op)
        model.apply(op)
        trail.append(op)
        verify(manager, model, f"after {len(trail)} annotations")
    ctx.label("complete", model.complete())
    ctx.nontrivial(model.complete() and len(case["ids"]) >= 3)
    for op in trail[-case["retract"] :] if case["retract"] else []:
        request(manager, ["delc", op[1], op[2]])
        model.apply(["delc", op[1], op[2]])
        verify(manager, model, f"after retracting {op}")


def gen_last(d):
    """Many data, all relations known but one or two."""
    ids = gen_ids(d, 30, 160)
    k = d.int(2, 14)
    alone = d.int(0, min(k - 1, 4))  # classes of one datum
    truth = [i if i < alone else d.int(alone, k - 1) for i in range(len(ids))]
    classes: dict = {}
    for x, c in zip(ids, truth):
        classes.setdefault(c, []).append(x)
    links = [[members[i], d.choice(members[:i]), ML] for members in classes.values() for i in range(1, len(members))]
    apart = [[d.choice(classes[a]), d.choice(classes[b]), CL] for a in classes for b in classes if a < b]
    lonely = [link for link in apart if truth[ids.index(link[0])] < alone and truth[ids.index(link[1])] < alone]
    last = [d.choice((lonely if d.bool(1, 3) else apart if d.bool() else links) or apart) for _ in range(d.int(1, 2))]
    return {"ids": ids, "links": d.shuffle([link for link in links + apart if link not in last]), "last": last}


def check_last(case, ctx):
    manager, model = new_manager(case["ids"]), Model(case["ids"])
    for link in case["links"]:
        request(manager, ["addc"] + link)
        model.apply(["addc"] + link)
    verify(manager, model, "before the last links")
    for link in case["last"]:
        request(manager, ["addc"] + link)
        model.apply(["addc"] + link)
        verify(manager, model, f"after {link}")
    ctx.nontrivial(model.complete())
    for a, b, _ in case["last"][:1]:
        request(manager, ["delc", a, b])
        model.apply(["delc", a, b])
        verify(manager, model, f"after retracting {a!r}, {b!r}")


TESTS = [
    Test("last", gen_last, check_last, rand=160, hyp=0, rule="30 to 160 data, all relations known but one or two"),
    Test("huge", gen_huge, check, rand=80, hyp=0, rule="50 to 280 IDs, 500 requests at most"),
    Test("long", gen_long, check, rand=3000, hyp=0, rule="14 to 40 IDs, 200 requests at most"),
    Test("history", gen, check, rand=20000, hyp=900),
    Test("annotate", gen_near, check_near, rand=8000, hyp=360, rule="annotation up to completeness, then retractions"),
]
