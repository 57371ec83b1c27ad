"""C09: samplers return exactly as many distinct eligible pairs as possible."""

from vp.clu import manager_of, model_of, vectors_of
from vp.engine import Test
from vp.mgr import request
from vp.smp import build, eligible, gen_options, gen_round, require_sample, sample

ID = "C09"
RULE = "one sampler object used in 1 to 4 situations (managers, clusterings, vectors, requested numbers), the manager of the last one also evolving between two calls; non-trivial = some but not all pairs eligible and at least one selected"


def gen(d):
    options = gen_options(d)
    rounds = [gen_round(d, 12) for _ in range(d.int(1, 4))]
    return {"options": options, "rounds": rounds, "annotate": [d.int(0, 1) for _ in range(6)]}


def gen_big(d):
    options = gen_options(d)
    return {"options": options, "rounds": [gen_round(d, 45, 16) for _ in range(d.int(1, 2))], "annotate": [d.int(0, 1) for _ in range(30)]}


def gen_huge(d):
    return {"options": gen_options(d), "rounds": [gen_round(d, 160, 50)], "annotate": [d.int(0, 1) for _ in range(30)]}


def check(case, ctx):
    options = case["options"]
    sampler = build(options)
    manager = model = last = None
    for number, situation in enumerate(case["rounds"]):
        model = model_of(situation)
        manager = manager_of(situation, model)
        result = sample(sampler, manager, situation, vectors_of(situation), options)
        pairs = require_sample(result, situation, options, model, f"call {number}")
        pool = eligible(situation, options, model)
        n = len(model.ids)
        ctx.nontrivial(pairs and 0 < len(pool) < n * (n - 1) // 2)
        ctx.label("fewer_than_requested", len(pool) < situation["nb"] < 10**6)
        ctx.label("explicit_kept", any(model.added(*p) for p in pairs))
        ctx.label("inferred_only_kept", any(model.inferred(*p) and not model.added(*p) for p in pairs))
        last = (situation, pairs)
    # The same manager, after annotations of what was sampled.
    situation, pairs = last
    for (a, b), bit in zip(pairs, case["annotate"]):
        op = ["addc", b, a, ("MUST_LINK", "CANNOT_LINK")[bit]]
        if model.is_valid(op):
            request(manager, op)
            model.apply(op)
    result = sample(sampler, manager, situation, vectors_of(situation), options)
    require_sample(result, situation, options, model, "call after annotation")
    ctx.label("reused", len(case["rounds"]) > 1)


TESTS = [
    Test("sequence", gen, check, rand=6000, hyp=300),
    Test("big", gen_big, check, rand=800, hyp=0, rule="16 to 45 data, up to 990 pairs"),
    Test("huge", gen_huge, check, rand=40, hyp=0, rule="50 to 160 data, up to 12720 pairs"),
]
