"""C11: random sampling is reproducible by seed and can reach every eligible pair."""

import math

from vp.child import ask
from vp.clu import manager_of, model_of, shake, vectors_of
from vp.engine import Test, require
from vp.smp import build, eligible, gen_options, gen_round, require_sample, sample

ID = "C11"
RULE = "repetition under disturbed global generators, other instances, earlier uses and another interpreter with another hash seed; reachability over 400 seeds; non-trivial = more eligible pairs than requested, at least one requested"
ASSUMPTIONS = ["reachability: 400 seeds, at most 15 eligible pairs; chance of missing a pair under uniform sampling below 1e-10 per case"]


def gen(d):
    case = gen_round(d, 10, 2)
    case["options"] = gen_options(d)
    case["nb"] = d.int(1, 8)
    case["other"] = gen_round(d, 8, 2)
    case["shake"] = [d.int(0, 9999) for _ in range(3)]
    case["elsewhere"] = d.bool(1, 3)
    return case


def check(case, ctx):
    options = case["options"]
    model = model_of(case)
    manager = manager_of(case, model)
    shake(case["shake"][0])
    base = sample(build(options), manager, case, vectors_of(case))
    require_sample(base, case, options, model, "first call")
    shake(case["shake"][1])
    used = build(options)
    other = case["other"]
    sample(used, manager_of(other, model_of(other)), other, vectors_of(other), options)
    shake(case["shake"][2])
    require(sample(used, manager, case, vectors_of(case)) == base, "a sampler already used selects other pairs with the same seed")
    require(sample(used, manager, case, vectors_of(case)) == base, "the same call repeated selects other pairs with the same seed")
    if case["elsewhere"]:
        reply = ask({"what": "sample", "case": case})
        require("ok" in reply, "in another interpreter:", reply)
        require([tuple(p) for p in reply["ok"]] == [tuple(p) for p in base], f"another interpreter selects {reply['ok']}, first {base}")
        ctx.label("other_interpreter")
    pool = eligible(case, options, model)
    ctx.nontrivial(len(pool) > case["nb"])


def gen_reach(d):
    case = gen_round(d, 6, 2)
    case["options"] = gen_options(d, (None,))
    case["nb"] = d.int(1, 3)
    return case


def check_reach(case, ctx):
    options = dict(case["options"])
    model = model_of(case)
    manager = manager_of(case, model)
    pool = eligible(case, options, model)
    if not pool or len(pool) > 15:
        return
    seen = set()
    firsts = set()
    for seed in range(400):
        options["random_seed"] = seed
        pairs = [tuple(p) for p in sample(build(options), manager, case, vectors_of(case), options)]
        seen.update(pairs)
        firsts.add(tuple(pairs))
        if seen == pool and seed > 20:
            break
    require(seen == pool, f"over 400 seeds, eligible pairs never selected: {sorted(pool - seen)}")
    if len(pool) > case["nb"] + 2:
        options["random_seed"] = None
        sampler = build(options)
        outcomes = {tuple(map(tuple, sample(sampler, manager, case, vectors_of(case), options))) for _ in range(200)}
        require(len(outcomes) > 1, "without seed, 200 calls always select the same pairs")
    ctx.nontrivial(len(pool) > case["nb"])


def gen_wide(d):
    case = gen_round(d, 34, 8 + 6 * d.int(0, 1))
    case["links"] = case["links"][: d.int(0, 4)]
    case["options"] = gen_options(d, (None,))
    case["nb"] = d.choice([1, 1, 2, 3, 5])
    return case


def check_wide(case, ctx):
    """Same thing with many eligible pairs; as many seeds as needed for a chance below 1e-10 of missing one."""
    options = dict(case["options"])
    model = model_of(case)
    manager = manager_of(case, model)
    vectors = vectors_of(case)
    pool = eligible(case, options, model)
    if len(pool) <= case["nb"]:
        return
    count = int(len(pool) / case["nb"] * (math.log(len(pool)) + 24)) + 50
    missing = set(pool)
    for seed in range(count):
        options["random_seed"] = seed
        missing.difference_update(tuple(p) for p in sample(build(options), manager, case, vectors, options))
        if not missing:
            break
    require(not missing, f"over {count} seeds, eligible pairs never selected: {sorted(missing)[:5]} of {len(pool)}")
    ctx.nontrivial(len(pool) > 15)
    ctx.label("more than 50 pairs", len(pool) > 50)
    ctx.label("more than 100 pairs", len(pool) > 100)


TESTS = [
    Test("wide", gen_wide, check_wide, rand=500, hyp=0, rule="8 to 34 data, up to 561 eligible pairs"),
    Test("repeat", gen, check, rand=3000, hyp=120),
    Test("reach", gen_reach, check_reach, rand=1200, hyp=30),
]
