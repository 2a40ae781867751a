"""Adjacency list."""
from vp.env import And, Not, Or
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import models, witnesses
from vp.trees import PKS, shapes

S = 1000


class State(c.BaseState):
    """Sibling order values are arbitrary increasing numbers within each group (sorted models store none)."""

    def __init__(self, env, model, parents, sort=False, strict=False):
        super().__init__(env, model, parents, sort)
        f = self.f
        self.so = {}
        rows = []
        for x in f.order():
            p = f.parent(x)
            row = {"id": PKS[x], "parent_id": None if p is None else PKS[p], "val": self.val[x], "key": self.key[x]}
            sib = f.siblings(x)
            i = sib.index(x)
            if not model.node_order_by:
                self.so[x] = row["sib_order"] = env.int(f"o{x}", 1, S)
                if i:
                    env.assume(self.so[sib[i - 1]] < self.so[x])
            elif strict and i:
                env.assume(Not(self.ordered(x, sib[i - 1])))
            rows.append(row)
        self.start(rows)


class Kit:
    no_stored_order = False
    state = State

    @staticmethod
    def exact(env, prop, st, rows, f, pk):
        by = c.present(env, prop, rows, f, pk)
        if by is None:
            return
        for p, ks in f.kids.items():
            prev = None
            for x in ks:
                r = by[pk(x)]
                env.require(prop, "parent", r["parent_id"] == (None if p is None else pk(p)))
                env.require(prop, "sibling order", r["sib_order"] >= 1 if prev is None else prev < r["sib_order"])
                prev = r["sib_order"]

    @staticmethod
    def loose(env, prop, st, by, f, pk):
        for x in f.nodes():
            p = f.parent(x)
            env.require(prop, "parent", by[pk(x)]["parent_id"] == (None if p is None else pk(p)))

    @staticmethod
    def before(st, a, b):
        return a["sib_order"] < b["sib_order"]


class SortedKit(Kit):
    no_stored_order = True

    @staticmethod
    def before(st, a, b):
        return False


@harness
def al_insert(env, **p):
    c.insert(env, Kit, "A01", **p)


@harness
def al_move(env, **p):
    c.move(env, Kit, "A02", **p)


@harness
def al_delete(env, **p):
    c.delete(env, Kit, "A03", **p)


@harness
def al_sorted_add(env, **p):
    c.sorted_add(env, SortedKit, "A04", **p)


@harness
def al_sorted_move(env, **p):
    c.sorted_move(env, SortedKit, "A04", **p)


@harness
def al_nav(env, model, parents, node, sort=False):
    M = getattr(models(), model)
    st = State(env, M, parents, sort=sort, strict=True)
    c.nav(env, "A05", st, node, M)


@harness
def al_ties(env, model, parents, node):
    """Among siblings with equal keys: one after the other, as listed (the database keeping to one order for them)."""
    M = getattr(models(), model)
    st = State(env, M, parents, sort=True)
    o = M.objects
    listed = c.pks_of(o.get_siblings(st.get(node, M)))
    env.require("A05", "siblings", sorted(listed) == sorted(c.want(st.f.siblings(node))))
    i = listed.index(PKS[node])
    one = lambda v: None if v is None else v.pk      # noqa: E731
    env.require("A05", "previous sibling, as listed", one(o.get_prev_sibling(st.get(node, M))) == (listed[i - 1] if i else None))
    env.require("A05", "next sibling, as listed",
                one(o.get_next_sibling(st.get(node, M))) == (listed[i + 1] if i + 1 < len(listed) else None))
    env.reach("navigated")


@jobs("A01", bounds="every forest shape of at most 5 nodes (6 in thorough) with arbitrary distinct sibling order values up to 1000; "
      "every target and position")
def a01(tier):
    return c.all_inserts("al", "AL", 5 if tier == "quick" else 6)


@jobs("A02", bounds="every forest shape of at most 5 nodes (6 in thorough) with arbitrary distinct sibling order values up to 1000; "
      "every node, target outside the branch, and position")
def a02(tier):
    return c.all_moves("al", "AL", 5 if tier == "quick" else 6)


@jobs("A03", bounds="every forest shape of at most 5 nodes (6 in thorough) with arbitrary distinct sibling order values; every single "
      "node, every subset of nodes, the whole table; querysets of children, descendants, siblings, ancestors, roots, combined, excluding, "
      "reversed and joined ones, with related or only some columns loaded on at most 3 (4) nodes, joined 2 (3)")
def a03(tier):
    return c.all_deletes("al", "AL", 5 if tier == "quick" else 6, 3 if tier == "quick" else 4, "ALA")


@jobs("A04", bounds="every forest shape of at most 5 nodes (6 in thorough) with one integer key, 3 (4) nodes with two keys (one "
      "descending); arbitrary keys in [-50, 50] with ties; every target and sorted position")
def a04(tier):
    n1, n2 = (5, 3) if tier == "quick" else (6, 4)
    return c.all_sorted("al", "ALS", "ALSS", n1, n2)


@jobs("A05", bounds="every forest shape of at most 5 nodes (6 in thorough), every node, depth limits none/0/1/2; arbitrary distinct "
      "sibling order values; plain models and models sorted by distinct keys; previous and next sibling among equal keys, one or two "
      "fields, at most 4 nodes (5)")
def a05(tier):
    n = 5 if tier == "quick" else 6
    out = c.all_nav("al", "AL", n, "ALS", n)
    for s in shapes(n - 1):
        if any(s.count(p) > 1 for p in s):
            out += [("al_ties", dict(model=m, parents=s, node=x)) for m in ("ALS", "ALSS")
                    for x in range(len(s)) if s.count(s[x]) > 1 and (m == "ALS" or len(s) < 4)]
    return out


witnesses("A01", "inserted")
witnesses("A02", "moved")
witnesses("A03", "some removed, some kept")
witnesses("A04", "inserted", "moved")
witnesses("A05", "navigated")
