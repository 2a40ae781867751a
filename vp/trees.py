"""Ordered forests: shapes to start from, and the list-manipulation meaning of every operation."""
from functools import lru_cache

PKS = [7, 3, 9, 1, 5, 12, 4, 15, 2, 20]


@lru_cache(None)
def forests(n, maxdepth=99):
    """All ordered forests with n nodes and the given depth limit, as parent tuples in depth-first order."""
    if n == 0:
        return ((),)
    if maxdepth == 0:
        return ()
    out = []
    for k in range(n):                    # size of the first tree's child forest
        for inner in forests(k, maxdepth - 1):
            for rest in forests(n - 1 - k, maxdepth):
                first = [None] + [0 if p is None else p + 1 for p in inner]
                out.append(tuple(first + [None if p is None else p + k + 1 for p in rest]))
    return tuple(out)


class Forest:
    """Children lists keyed by node id; None is the virtual root."""

    def __init__(self, parents=()):
        self.kids = {None: []}
        for i, p in enumerate(parents):
            self.kids[i] = []
            self.kids[p].append(i)

    def copy(self):
        f = Forest()
        f.kids = {k: list(v) for k, v in self.kids.items()}
        return f

    def parent(self, x):
        for p, ks in self.kids.items():
            if x in ks:
                return p
        raise KeyError(x)

    def depth(self, x):
        d = 1
        while (x := self.parent(x)) is not None:
            d += 1
        return d

    def subtree(self, x):
        out = [x]
        for k in self.kids[x]:
            out += self.subtree(k)
        return out

    def order(self):
        out = []
        for r in self.kids[None]:
            out += self.subtree(r)
        return out

    def nodes(self):
        return [k for k in self.kids if k is not None]

    def ancestors(self, x):
        out = []
        while (x := self.parent(x)) is not None:
            out.insert(0, x)
        return out

    def siblings(self, x):
        return self.kids[self.parent(x)]

    def insert(self, x, parent, index):
        self.kids.setdefault(x, [])
        self.kids[parent].insert(index, x)

    def place(self, x, target, pos):
        """Put x (not currently in the forest) relative to target."""
        if pos in ("first-child", "last-child"):
            self.insert(x, target, 0 if pos == "first-child" else len(self.kids[target]))
            return
        p = self.parent(target)
        sib = self.kids[p]
        i = sib.index(target)
        self.insert(x, p, {"first-sibling": 0, "left": i, "right": i + 1, "last-sibling": len(sib)}[pos])

    def move(self, x, target, pos):
        if x == target:
            sib = self.siblings(x)
            if pos in ("first-sibling", "last-sibling"):
                sib.remove(x)
                sib.insert(0 if pos == "first-sibling" else len(sib), x)
            return
        self.siblings(x).remove(x)
        self.place(x, target, pos)

    def remove(self, xs):
        gone = set()
        for x in xs:
            gone |= set(self.subtree(x))
        for k in list(self.kids):
            if k in gone:
                del self.kids[k]
            else:
                self.kids[k] = [c for c in self.kids[k] if c not in gone]
        return gone


SIBLING_POS = ["first-sibling", "left", "right", "last-sibling"]
CHILD_POS = ["first-child", "last-child"]
MOVE_POS = SIBLING_POS + CHILD_POS
SORTED_POS = ["sorted-sibling", "sorted-child"]


def show(parents):
    return "".join("r" if p is None else str(p) for p in parents)


def shapes(nmax, maxdepth=99, nmin=1):
    return [p for n in range(nmin, nmax + 1) for p in forests(n, maxdepth)]
