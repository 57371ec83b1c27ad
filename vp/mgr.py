"""Shared generators and helpers for constraints managers."""

from __future__ import annotations

from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
from cognitivefactory.interactive_clustering.constraints.factory import managing_factory

from vp.engine import Draw, Violation, require
from vp.model import CL, ML, Model

ODD_IDS = [
    "0", "00", "01", "1", "10", "2", "", " ", "a", "A", "aa", "é", "e\u0301", "E", "z", "Z", "None", "nan", "-1", "1.0",
    "MUST_LINK", "CANNOT_LINK", "data 1", "data_1", "data-1", "\u00df", "ss", "\n", "\t", "\\", '"', "'", "{", "😀", "日本", "true",
    "a" * 40, "a" * 40 + "b", "~", "\u007f", "100", "011", "9", "99",
]


def gen_ids(d: Draw, lo: int = 1, hi: int = 28, mode: str = "mix") -> list:
    """Distinct data IDs, in an arbitrary order."""
    size = d.weighted([(5, 0), (5, 1), (2, 2)])
    a, b = ((lo, 6), (5, 12), (11, hi))[size] if lo <= 12 else ((lo, (lo + hi) // 2), (lo, hi), (lo, hi))[size]
    a, b = max(lo, min(a, hi)), max(lo, min(b, hi))
    n = d.int(a, b)
    style = d.weighted([(5, "num"), (2, "word"), (2, "odd"), (1, "pad"), (1, "gap"), (1, "joined")])
    if style == "num":
        ids = [str(i) for i in range(n)]
    elif style == "pad":
        ids = [f"{i:03d}" for i in range(n)]
    elif style == "joined":  # different pairs of IDs read the same once joined with the separator
        token, separator = d.choice("x1"), d.choice(["/", "_", "-", ",", " ", "|", ":", ";", "", "||", "::", "\t", "--", "__", ", ", " - ", "\0", "\n", "."])
        ids = [separator.join([token] * (i + 1)) for i in range(n)]
    elif style == "gap":
        ids = [str(7 * i + 3) for i in range(n)]
    elif style == "word":
        ids = [f"{'abcxyz'[i % 6]}{'_' * (i // 6)}{i}" for i in range(n)]
    else:
        ids = d.sample(ODD_IDS, min(n, len(ODD_IDS)))
        return ids + [f"{ODD_IDS[i % 20]}.{i}" for i in range(len(ids), n)]
    if d.bool(2, 3):
        ids = d.shuffle(ids)
    return ids


def gen_history(d: Draw, hi_ids: int = 16, hi_ops: int = 60, invalid: int = 0, with_ids: bool = True, self_ops: bool = False, lo_ids: int = 1) -> dict:
    """A history of requests.  `invalid` = weight (out of 100) of arbitrary, mostly refused, requests."""
    universe = gen_ids(d, lo_ids, hi_ids)
    n0 = len(universe) if (not with_ids or d.bool(1, 2)) else d.int(max(1, lo_ids), len(universe))
    start = universe[:n0]
    k = d.int(1, max(1, min(len(universe), 6)))
    truth = {x: d.int(0, k - 1) for x in universe}
    model = Model(start)
    ops = []
    count = d.weighted([(4, d.int(0, 12)), (4, d.int(8, hi_ops // 2)), (2, d.int(hi_ops // 2, hi_ops))])
    p_ml = d.choice([5, 2, 8])
    for _ in range(count):
        op = None
        if invalid and d.int(0, 99) < invalid:
            op = gen_invalid(d, model, universe)
        else:
            menu = [(14, "addc"), (4, "delc")]
            if with_ids:
                menu += [(2, "addid"), (2, "delid")]
            what = d.weighted(menu)
            if what == "addc" and len(model.ids) >= 2:
                a, b = d.sample(model.ids, 2)
                if d.int(0, 9) < p_ml:  # prefer a must-link: pick b in the class of a
                    mates = [x for x in model.ids if truth[x] == truth[a] and x != a]
                    if mates:
                        b = d.choice(mates)
                kind = ML if truth[a] == truth[b] else CL
                if self_ops and d.bool(1, 25):
                    b, kind = a, ML
                op = ["addc", a, b, kind]
            elif what == "delc" and len(model.ids) >= 2:
                pairs = sorted(model.cons)
                if pairs and d.bool(4, 5):
                    a, b = d.choice(pairs)
                    if d.bool():
                        a, b = b, a
                else:
                    a, b = d.sample(model.ids, 2)
                op = ["delc", a, b]
            elif what == "addid":
                free = [x for x in universe if x not in model.ids]
                if free:
                    op = ["addid", d.choice(free)]
            elif what == "delid" and len(model.ids) > lo_ids:
                op = ["delid", d.choice(model.ids)]
        if op is None:
            continue
        ops.append(op)
        if model.is_valid(op):
            model.apply(op)
    return {"ids": start, "ops": ops}


def gen_long(d: Draw, invalid: int = 0, hi_ids: int = 40, hi_ops: int = 200) -> dict:
    """A long history on many IDs, verified every few steps."""
    case = gen_history(d, hi_ids=hi_ids, hi_ops=hi_ops, invalid=invalid, lo_ids=14)
    case["every"] = d.int(7, 23)
    return case


def gen_huge(d: Draw, invalid: int = 0, lo_ids: int = 50, hi_ids: int = 280, hi_ops: int = 500) -> dict:
    """A very long history on many IDs, verified from time to time."""
    case = gen_history(d, hi_ids=hi_ids, hi_ops=hi_ops, invalid=invalid, lo_ids=lo_ids)
    case["every"] = d.int(hi_ops // 4, hi_ops)
    return case


BAD_TYPES = ["must_link", "MUST LINK", "", "CANNOT_LINK ", "LINK", "None", "MUST_LINK\n", "cannot_link", "MUST_LINKS"]


def gen_invalid(d: Draw, model: Model, universe: list) -> list:
    """A request that is refused most of the time."""
    strangers = [x for x in universe if x not in model.ids] + ["?", "absent", "0 ", "-"]
    what = d.choice(["conflict", "conflict", "unknown1", "unknown2", "type", "dup", "delunknown", "selfcl", "del2"])
    some = model.ids or ["?"]
    a, b = d.choice(some), d.choice(some)
    s = d.choice([x for x in strangers if x not in model.ids] or ["no such id"])
    kind = d.choice([ML, CL])
    if what == "conflict":
        derived = [(x, y) for x in model.ids for y in model.ids if x < y and model.added(x, y) is None and model.inferred(x, y) is not None]
        if derived and d.bool(2, 3):
            a, b = d.choice(derived)
            if d.bool():
                a, b = b, a
        elif model.ids:
            for _ in range(4):
                if model.inferred(a, b) is not None and a != b:
                    break
                a, b = d.choice(some), d.choice(some)
        if model.ids:
            if model.inferred(a, b) is not None:
                kind = CL if model.inferred(a, b) == ML else ML
        return ["addc", a, b, kind]
    if what == "unknown1":
        return [d.choice(["addc", "delc"]), s, a, kind][: 4]
    if what == "unknown2":
        return [d.choice(["addc", "delc"]), a, s, kind][: 4]
    if what == "type":
        return ["addc", a, b, d.choice(BAD_TYPES)]
    if what == "dup":
        return ["addid", a]
    if what == "delunknown":
        return ["delid", s]
    if what == "del2":
        return ["delc", s, s]
    return ["addc", a, a, CL]


# --------------------------------------------------------------------------
VALUES = [None, 1.0, None, 0.5, None, 0.0, 1, 0.25]  # None: left out


def value_for(a: str, b: str, name: str) -> dict:
    """A value or threshold, which the binary manager documents but does not use; it depends on the IDs only."""
    value = VALUES[(3 * len(a) + sum(map(ord, a)) + 5 * len(b) + sum(map(ord, b))) % len(VALUES)]
    return {} if value is None else {name: value}


def request(manager, op):
    """Send a request to the real manager."""
    kind = op[0]
    if kind == "addid":
        return manager.add_data_ID(data_ID=op[1])
    if kind == "delid":
        return manager.delete_data_ID(data_ID=op[1])
    if kind == "addc":
        return manager.add_constraint(data_ID1=op[1], data_ID2=op[2], constraint_type=op[3], **value_for(op[1], op[2], "constraint_value"))
    if kind == "delc":
        return manager.delete_constraint(data_ID1=op[1], data_ID2=op[2])
    raise AssertionError(kind)


def new_manager(ids, flavor: int = 0):
    return BinaryConstraintsManager(list_of_data_IDs=list(ids)) if flavor == 0 else managing_factory(list_of_data_IDs=list(ids))


def run_history(case, step=None):
    """Replay a history of accepted requests on the real manager and on the model."""
    manager = new_manager(case["ids"])
    model = Model(case["ids"])
    for number, op in enumerate(case["ops"]):
        if not model.is_valid(op):
            continue
        try:
            done = request(manager, op)
        except ValueError as err:
            raise Violation(f"step {number}: valid request {op} refused: {err}") from err
        require(done is True, f"step {number}: valid request {op} returned {done!r} instead of True")
        model.apply(op)
        if step is not None:
            step(number, op, manager, model)
    return manager, model


def explicit_of(manager, ids):
    """Explicit constraints, both argument orders, distinct pairs."""
    return {(a, b): manager.get_added_constraint(data_ID1=a, data_ID2=b) for a in ids for b in ids if a != b}


def inferred_of(manager, ids):
    return {(a, b): manager.get_inferred_constraint(data_ID1=a, data_ID2=b, **value_for(a, b, "threshold")) for a in ids for b in ids}


def components_of(manager):
    """Components as a set of frozensets, after checking that they are lists without duplicates."""
    listed = manager.get_connected_components()
    require(isinstance(listed, list), "components are not a list:", listed)
    for component in listed:
        require(len(set(component)) == len(component), "duplicate in a component:", component)
        require(len(component) > 0, "empty component in", listed)
    sets = {frozenset(c) for c in listed}
    require(len(sets) == len(listed), "the same component is listed twice:", listed)
    return sets


def snapshot(manager, ordered_ids: bool = True):
    """Every observable answer of a manager."""
    ids = manager.get_list_of_managed_data_IDs()
    return {
        "ids": list(ids) if ordered_ids else sorted(ids),
        "explicit": explicit_of(manager, ids),
        "inferred": inferred_of(manager, ids),
        "components": components_of(manager),
        "complete": manager.check_completude_of_constraints(),
    }


def require_same(left: dict, right: dict, what: str) -> None:
    for field in left:
        if left[field] == right[field]:
            continue
        if isinstance(left[field], dict):
            diff = {
                k: (left[field].get(k), right[field].get(k))
                for k in set(left[field]) | set(right[field])
                if left[field].get(k) != right[field].get(k)
            }
            raise Violation(f"{what}: {field} differ: {dict(sorted(diff.items())[:4])}")
        raise Violation(f"{what}: {field} differ: {left[field]!r} != {right[field]!r}")


def require_model(manager, model: Model, what: str, explicit: bool = True, inferred: bool = True) -> None:
    """The real manager agrees with the model."""
    ids = manager.get_list_of_managed_data_IDs()
    require(isinstance(ids, list), what, "managed IDs are not a list:", ids)
    require(ids == model.ids, f"{what}: managed IDs are {ids!r}, expected {model.ids!r}")
    for a in ids:
        for b in ids:
            if explicit and a != b:
                got = manager.get_added_constraint(data_ID1=a, data_ID2=b)
                kind = model.added(a, b)
                want = None if kind is None else (kind, 1.0)
                require(got == want, f"{what}: explicit constraint of {(a, b)} is {got!r}, expected {want!r}")
            if inferred:
                got = manager.get_inferred_constraint(data_ID1=a, data_ID2=b, **value_for(a, b, "threshold"))
                want = model.inferred(a, b)
                require(got == want, f"{what}: inferred constraint of {(a, b)} is {got!r}, expected {want!r}")


def has_derived(model: Model) -> bool:
    """Is some constraint known only by inference?"""
    return any(
        model.inferred(a, b) is not None and model.added(a, b) is None for a in model.ids for b in model.ids if a < b
    )
