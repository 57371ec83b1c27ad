"""C10: distance-driven sampling returns the closest/farthest eligible pairs."""

import math

from vp.clu import distances_of, manager_of, model_of, vectors_of
from vp.engine import Test, require
from vp.smp import build, eligible, gen_options, gen_round, require_sample, sample

ID = "C10"
RULE = "closest/farthest sampling with brute-force distances; non-trivial = at least two pairs selected, at least one eligible pair left out, and not all distances equal"


def make(exact, lo=2, hi=14):
    def gen(d):
        options = gen_options(d, ("closest_neighbors", "farthest_neighbors"))
        rounds = []
        for _ in range(d.int(1, 2)):
            situation = gen_round(d, hi, lo, exact=exact)
            if situation["nb"] in (0, 10**6):
                situation["nb"] = d.int(1, max(12, 3 * lo))
            rounds.append(situation)
        return {"options": options, "rounds": rounds}

    return gen


def check(case, ctx):
    options = case["options"]
    sampler = build(options)
    for number, situation in enumerate(case["rounds"]):
        model = model_of(situation)
        manager = manager_of(situation, model)
        pairs = require_sample(
            sample(sampler, manager, situation, vectors_of(situation), options), situation, options, model, f"call {number}"
        )
        dist = distances_of(situation)
        top = max(dist.values(), default=0.0)
        biggest = max((abs(v) for vec in situation["vec"] for v in vec), default=0) / situation["q"]
        # Exact when coordinates are integers (times a power of two); otherwise the usual error of |x|^2 - 2xy + |y|^2 under the root.
        exact = math.frexp(situation["q"])[0] == 0.5
        slack = 1e-9 * top if exact else 1e-6 * biggest
        ctx.label("tiny", 0 < top < 1e-4)
        sign = 1 if options["distance_restriction"] == "closest_neighbors" else -1
        values = [sign * dist[p] for p in pairs]
        for left, right in zip(pairs, pairs[1:]):
            require(sign * dist[left] <= sign * dist[right] + slack, f"{left} at {dist[left]} comes before {right} at {dist[right]} ({options['distance_restriction']})")
        rest = eligible(situation, options, model) - set(pairs)
        if pairs and rest:
            worst = max(values)
            best = min(rest, key=lambda p: sign * dist[p])
            require(sign * dist[best] >= worst - slack, f"{best} at {dist[best]} is left out although a selected pair is at {sign * worst} ({options['distance_restriction']})")
        ctx.nontrivial(len(pairs) >= 2 and rest and max(dist.values()) > 0)
        ctx.label("ties", len({dist[p] for p in pairs}) < len(pairs))


TESTS = [
    Test("huge", make(True, 50, 160), check, rand=60, hyp=0, rule="50 to 160 data, up to 12720 pairs"),
    Test("big", make(True, 16, 45), check, rand=800, hyp=0, rule="16 to 45 data, up to 990 pairs, integer coordinates"),
    Test("integer", make(True), check, rand=5000, hyp=250, rule="integer coordinates, exact comparison"),
    Test("float", make(False), check, rand=2500, hyp=100, rule="decimal coordinates, tolerance 1e-6"),
]
