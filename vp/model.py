"""Reference model of a binary constraints manager, written from the documentation."""

from __future__ import annotations

from typing import Dict, FrozenSet, List, Optional, Set, Tuple

ML, CL = "MUST_LINK", "CANNOT_LINK"


class Model:
    """Explicit constraints in a dictionary; everything else recomputed from scratch."""

    def __init__(self, ids: List[str]) -> None:
        self.ids: List[str] = list(ids)
        self.cons: Dict[Tuple[str, str], str] = {}
        self._cache = None

    def copy(self) -> "Model":
        other = Model(self.ids)
        other.cons = dict(self.cons)
        return other

    @staticmethod
    def key(a: str, b: str) -> Tuple[str, str]:
        return (a, b) if a <= b else (b, a)

    # -- derived knowledge -------------------------------------------------
    def _derive(self):
        if self._cache is None:
            parent = {x: x for x in self.ids}

            def find(x):
                while parent[x] != x:
                    parent[x] = parent[parent[x]]
                    x = parent[x]
                return x

            for (a, b), kind in self.cons.items():
                if kind == ML:
                    parent[find(a)] = find(b)
            root = {x: find(x) for x in self.ids}
            apart: Set[FrozenSet[str]] = set()
            for (a, b), kind in self.cons.items():
                if kind == CL:
                    apart.add(frozenset((root[a], root[b])))
            self._cache = (root, apart)
        return self._cache

    def inferred(self, a: str, b: str) -> Optional[str]:
        root, apart = self._derive()
        if root[a] == root[b]:
            return ML
        if frozenset((root[a], root[b])) in apart:
            return CL
        return None

    def added(self, a: str, b: str) -> Optional[str]:
        return self.cons.get(self.key(a, b))

    def components(self) -> Set[FrozenSet[str]]:
        root, _ = self._derive()
        groups: Dict[str, List[str]] = {}
        for x in self.ids:
            groups.setdefault(root[x], []).append(x)
        return {frozenset(g) for g in groups.values()}

    def component(self, a: str) -> FrozenSet[str]:
        root, _ = self._derive()
        return frozenset(x for x in self.ids if root[x] == root[a])

    def complete(self) -> bool:
        return all(self.inferred(a, b) is not None for a in self.ids for b in self.ids)

    def cl_graph(self) -> Tuple[List[FrozenSet[str]], Dict[int, Set[int]]]:
        """Components and the cannot-link graph over them."""
        comps = sorted(self.components(), key=lambda c: sorted(c))
        where = {x: i for i, c in enumerate(comps) for x in c}
        adjacency: Dict[int, Set[int]] = {i: set() for i in range(len(comps))}
        for (a, b), kind in self.cons.items():
            if kind == CL:
                adjacency[where[a]].add(where[b])
                adjacency[where[b]].add(where[a])
        return comps, adjacency

    # -- operations ---------------------------------------------------------
    def is_valid(self, op) -> bool:
        """Does the documentation say that this request is accepted?"""
        kind = op[0]
        if kind == "addid":
            return op[1] not in self.ids
        if kind == "delid":
            return op[1] in self.ids
        if op[1] not in self.ids or op[2] not in self.ids:
            return False
        if kind == "delc":
            return True
        if op[3] not in (ML, CL):
            return False
        return self.inferred(op[1], op[2]) in (None, op[3])

    def apply(self, op) -> None:
        """Apply a valid operation."""
        kind = op[0]
        self._cache = None
        if kind == "addid":
            self.ids.append(op[1])
        elif kind == "delid":
            self.ids.remove(op[1])
            self.cons = {k: v for k, v in self.cons.items() if op[1] not in k}
        elif kind == "addc":
            if op[1] != op[2]:
                self.cons.setdefault(self.key(op[1], op[2]), op[3])
        elif kind == "delc":
            self.cons.pop(self.key(op[1], op[2]), None)
        else:
            raise AssertionError(kind)


def colorable(adjacency: Dict[int, Set[int]], k: int) -> bool:
    """Exact k-colourability by backtracking (DSATUR order)."""
    color: Dict[int, int] = {}

    def go() -> bool:
        left = [v for v in adjacency if v not in color]
        if not left:
            return True
        v = max(left, key=lambda u: (len({color[w] for w in adjacency[u] if w in color}), len(adjacency[u])))
        used = {color[w] for w in adjacency[v] if w in color}
        top = max(color.values(), default=-1)
        for c in range(min(k, top + 2)):
            if c not in used:
                color[v] = c
                if go():
                    return True
                del color[v]
        return False

    return go()


def chromatic(adjacency: Dict[int, Set[int]]) -> int:
    k = 1 if adjacency else 0
    while not colorable(adjacency, k):
        k += 1
    return k


def degeneracy(adjacency: Dict[int, Set[int]]) -> int:
    graph = {v: set(n) for v, n in adjacency.items()}
    best = 0
    while graph:
        v = min(graph, key=lambda u: len(graph[u]))
        best = max(best, len(graph[v]))
        for w in graph.pop(v):
            graph[w].discard(v)
    return best
