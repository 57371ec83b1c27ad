"""Generated-input search engine.

A property module lists `Test`s.  A test has a generator `gen(d)` written against
the small `Draw` interface below, returning a JSON-able case, and a check
`check(case, ctx)` which runs the real code on the case and raises `Violation`
when the oracle disagrees.

The same generator is driven by two back ends:

* `rand`: a recorded pseudo-random choice sequence (fast, uniform); a failing
  sequence is shrunk here by deleting / lowering choices;
* `hyp` : Hypothesis (its mutation and boundary heuristics, and its shrinker).

Every choice comes from these two back ends, seeded by VERIF_SEED only.
"""

from __future__ import annotations

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass
from typing import Any, Callable, List, Optional

REPO_SRC = "/repo/src"


class Violation(Exception):
    """The property is broken on the current case."""


class CaseTimeout(BaseException):
    """One case burnt its whole CPU allowance."""


class HarnessError(Exception):
    """The harness itself failed (never reported as a violation)."""


def require(condition: Any, *message: Any) -> None:
    """Raise `Violation` unless `condition` holds."""
    if not condition:
        raise Violation(" ".join(str(part) for part in message))


# --------------------------------------------------------------------------
# Draw interface
# --------------------------------------------------------------------------
class Draw:
    """Source of choices.  Simplest choice = smallest integer."""

    def int(self, lo: int, hi: int) -> int:  # pragma: no cover
        raise NotImplementedError

    def bool(self, num: int = 1, den: int = 2) -> bool:
        return self.int(0, den - 1) >= den - num

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        total = sum(w for w, _ in pairs)
        k = self.int(0, total - 1)
        for w, value in pairs:
            if k < w:
                return value
            k -= w
        raise AssertionError

    def shuffle(self, seq):
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.int(0, len(out) - 1 - i)
            out[i], out[j] = out[j], out[i]
        return out

    def sample(self, seq, k: int):
        out = list(seq)
        for i in range(k):
            j = i + self.int(0, len(out) - 1 - i)
            out[i], out[j] = out[j], out[i]
        return out[:k]

    def subset(self, seq, num: int = 1, den: int = 2):
        return [x for x in seq if self.bool(num, den)]


class RandDraw(Draw):
    """Pseudo-random choices, recorded."""

    def __init__(self, seed: str) -> None:
        self._rng = random.Random(seed)
        self.record: List[int] = []

    def int(self, lo: int, hi: int) -> int:
        value = lo if hi <= lo else self._rng.randint(lo, hi)
        self.record.append(value - lo)
        return value


class ReplayDraw(Draw):
    """Choices read back from a (possibly edited) record."""

    def __init__(self, record: List[int]) -> None:
        self._in = record
        self._pos = 0
        self.record: List[int] = []

    def int(self, lo: int, hi: int) -> int:
        value = 0
        if self._pos < len(self._in):
            value = self._in[self._pos]
            self._pos += 1
        span = hi - lo
        if span <= 0:
            value = 0
        elif value > span:
            value = value % (span + 1)
        self.record.append(value)
        return lo + value


class HypDraw(Draw):
    """Choices delegated to Hypothesis."""

    _cache: dict = {}

    def __init__(self, draw) -> None:
        self._draw = draw

    def int(self, lo: int, hi: int) -> int:
        if hi <= lo:
            return lo
        key = (lo, hi)
        strategy = self._cache.get(key)
        if strategy is None:
            from hypothesis import strategies as st

            strategy = self._cache[key] = st.integers(lo, hi)
        return self._draw(strategy)


def findings(prop: str) -> dict:
    """Open findings of a property: {key: what fails}, from lines `finding: property=C14 key=K text`."""
    out = {}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
    with open(path) as fileobject:
        for line in fileobject:
            words = line.split(None, 3)
            if len(words) == 4 and words[0] == "finding:" and words[1] == f"property={prop}" and words[2].startswith("key="):
                out[words[2][4:]] = words[3].strip()
    return out


# --------------------------------------------------------------------------
# Tests
# --------------------------------------------------------------------------
@dataclass
class Test:
    """One generated check of a property."""

    name: str
    gen: Callable[[Draw], Any]
    check: Callable[[Any, "Ctx"], None]
    rand: int = 1000  # cases of the `rand` back end, quick tier
    hyp: int = 100  # cases of the `hyp` back end, quick tier
    thorough: int = 12  # multiplier of both in the thorough tier
    cpu_limit: float = 90.0  # CPU seconds for one case
    rule: str = ""


class Ctx:
    """What a check reports about its case."""

    def __init__(self, scratch: str) -> None:
        self.scratch = scratch
        self.is_nontrivial = False
        self.labels: Counter = Counter()

    def nontrivial(self, condition: Any = True) -> None:
        if condition:
            self.is_nontrivial = True

    def label(self, name: str, condition: Any = True) -> None:
        if condition:
            self.labels[name] += 1

    def known(self, prop: str, key: str, *message: Any) -> None:
        """The case fails in the way of a listed finding: recorded.  Not listed: a violation."""
        if key not in findings(prop):
            raise Violation(" ".join(str(part) for part in message))
        self.labels[f"known_finding {key}"] += 1


class Stats:
    def __init__(self) -> None:
        self.evaluations = 0
        self.hashes: set = set()
        self.labels: Counter = Counter()
        self.samples: List[Any] = []

    def record(self, test: Test, case: Any, ctx: Ctx) -> None:
        self.evaluations += 1
        self.labels.update(ctx.labels)
        if ctx.is_nontrivial:
            text = json.dumps(case, sort_keys=True)
            digest = hashlib.blake2b((test.name + text).encode(), digest_size=8).hexdigest()
            if digest not in self.hashes:
                self.hashes.add(digest)
                if len(self.samples) < 2 and len(text) < 1500 and len(self.hashes) % 7 == 3:
                    self.samples.append({"test": test.name, "case": case})

    def to_json(self):
        return {
            "evaluations": self.evaluations,
            "hashes": sorted(self.hashes),
            "labels": dict(self.labels),
            "samples": self.samples,
        }


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(test: Test, case: Any, scratch: str) -> Ctx:
    """Run one case; raise Violation / CaseTimeout / HarnessError."""
    ctx = Ctx(scratch)
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu_limit)
    try:
        test.check(case, ctx)
    except Violation:
        raise
    except (MemoryError, OSError, ImportError, RecursionError) as err:
        if isinstance(err, (RecursionError, OSError)) and _in_repo(err.__traceback__):
            raise Violation(_describe(err)) from err
        raise HarnessError(traceback.format_exc()) from err
    except Exception as err:  # noqa: B902
        if type(err).__module__.startswith("hypothesis"):
            raise
        # Either the code under test raised, or what it returned could not be interpreted.
        raise Violation(_describe(err)) from err
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx


def _in_repo(tb) -> bool:
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def _describe(err: BaseException) -> str:
    frames = traceback.extract_tb(err.__traceback__)
    inside = [f for f in frames if f.filename.startswith(REPO_SRC)]
    where = inside[-1] if inside else frames[-1]
    kind = "unexpected exception" if inside else "result could not be interpreted"
    return f"{kind}: {type(err).__name__}: {err} (at {where.filename}:{where.lineno} in {where.name})"


# --------------------------------------------------------------------------
# Back ends
# --------------------------------------------------------------------------
class Failure(Exception):
    def __init__(self, case: Any, message: str) -> None:
        super().__init__(message)
        self.case = case
        self.message = message


def run_rand(test: Test, seed: str, start: int, stop: int, stats: Stats, scratch: str, deadline: float) -> None:
    for i in range(start, stop):
        if time.monotonic() > deadline:
            stats.labels["stopped_by_time_budget"] += 1
            return
        draw = RandDraw(f"{seed}:{test.name}:{i}")
        case = test.gen(draw)
        try:
            ctx = run_case(test, case, scratch)
        except Violation as violation:
            case, message = shrink(test, draw.record, case, str(violation), scratch)
            raise Failure(case, message) from violation
        except CaseTimeout:
            raise Failure(case, f"no result after {test.cpu_limit} s of CPU time on this case") from None
        stats.record(test, case, ctx)


def shrink(test: Test, record: List[int], case: Any, message: str, scratch: str, budget: float = 40.0):
    """Minimise a failing choice sequence (shortlex order)."""
    stop = time.monotonic() + budget
    best = list(record)

    def attempt(candidate: List[int]) -> bool:
        nonlocal best, case, message
        if time.monotonic() > stop:
            return False
        draw = ReplayDraw(candidate)
        try:
            new_case = test.gen(draw)
        except Exception:  # noqa: B902
            return False
        if (len(draw.record), draw.record) >= (len(best), best):
            return False
        try:
            run_case(test, new_case, scratch)
        except Violation as violation:
            best, case, message = draw.record, new_case, str(violation)
            return True
        except (CaseTimeout, HarnessError):
            return False
        return False

    improved = True
    while improved and time.monotonic() < stop:
        improved = False
        # Delete blocks.
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and time.monotonic() < stop:
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                i -= 1 if size < 8 else max(1, size // 2)
                i = min(i, len(best) - size)
        # Zero blocks.
        for size in (16, 4):
            i = 0
            while i < len(best) and time.monotonic() < stop:
                if any(best[i : i + size]) and attempt(best[:i] + [0] * len(best[i : i + size]) + best[i + size :]):
                    improved = True
                i += size
        # Lower single choices.
        i = 0
        while i < len(best) and time.monotonic() < stop:
            if best[i] > 0:
                for value in (0, 1, best[i] // 2, best[i] - 1):
                    if i < len(best) and value < best[i] and attempt(best[:i] + [value] + best[i + 1 :]):
                        improved = True
                        break
            i += 1
    return case, message


def run_hyp(test: Test, seed: str, count: int, stats: Stats, scratch: str, deadline: float) -> None:
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings
    from hypothesis import strategies as st
    from hypothesis.internal.conjecture import engine as hyp_engine

    hyp_engine.MAX_SHRINKING_SECONDS = 45
    best: Optional[tuple] = None

    @st.composite
    def cases(draw):
        return test.gen(HypDraw(draw))

    @hypothesis.seed(int.from_bytes(hashlib.sha256(seed.encode()).digest()[:8], "big"))
    @settings(
        max_examples=count,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        verbosity=Verbosity.quiet,
        print_blob=False,
        report_multiple_bugs=False,
    )
    @hypothesis.given(cases())
    def search(case):
        nonlocal best
        if best is None and time.monotonic() > deadline:
            stats.labels["stopped_by_time_budget"] += 1
            return
        try:
            ctx = run_case(test, case, scratch)
        except Violation as violation:
            size = len(json.dumps(case))
            if best is None or size <= best[0]:
                best = (size, case, str(violation))
            raise
        except CaseTimeout:
            raise Failure(case, f"no result after {test.cpu_limit} s of CPU time on this case") from None
        stats.record(test, case, ctx)

    try:
        search()
    except (Violation, Failure) as err:
        if best is None:
            raise err
        raise Failure(best[1], best[2]) from err
    except BaseException:
        if best is None:
            raise
        raise Failure(best[1], best[2]) from None


def die(message: str) -> None:
    print(message, file=sys.stderr)
    sys.exit(2)
