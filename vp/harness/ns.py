"""Nested sets."""
import itertools

from vp.env import And, Iff, Implies, Not, Or
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import models, witnesses
from vp.trees import PKS, SIBLING_POS

T = 1000


class State(c.BaseState):
    """Intervals follow from the shape; tree identifiers are arbitrary increasing positive numbers (gaps allowed)."""

    def __init__(self, env, model, parents, sort=False):
        super().__init__(env, model, parents, sort)
        f = self.f
        self.tid, self.lft, self.rgt = {}, {}, {}
        prev = None
        for r in f.kids[None]:
            t = env.int(f"t{r}", 1, T)
            if prev is not None:
                env.assume(prev < t)
            prev = t
            intervals(f, r, 1, self.lft, self.rgt)
            for x in f.subtree(r):
                self.tid[x] = t
        self.start([{"id": PKS[x], "tree_id": self.tid[x], "lft": self.lft[x], "rgt": self.rgt[x], "depth": f.depth(x),
                     "val": self.val[x], "key": self.key[x]} for x in f.order()])


def intervals(f, x, at, lft, rgt):
    lft[x] = at
    at += 1
    for k in f.kids[x]:
        at = intervals(f, k, at, lft, rgt)
    rgt[x] = at
    return at + 1


class Kit:
    no_stored_order = False
    state = State

    @staticmethod
    def exact(env, prop, st, rows, f, pk):
        by = c.present(env, prop, rows, f, pk)
        if by is None:
            return
        lft, rgt = {}, {}
        prev = None
        for r in f.kids[None]:
            intervals(f, r, 1, lft, rgt)
            t = by[pk(r)]["tree_id"]
            env.require(prop, "tree identifiers in order", t >= 1 if prev is None else prev < t)
            prev = t
            for x in f.subtree(r):
                row = by[pk(x)]
                env.require(prop, "tree identifier", row["tree_id"] == t)
                env.require(prop, "left bound", row["lft"] == lft[x])
                env.require(prop, "right bound", row["rgt"] == rgt[x])
                env.require(prop, "depth", row["depth"] == f.depth(x))

    @staticmethod
    def loose(env, prop, st, by, f, pk):
        for x in f.nodes():
            r = by[pk(x)]
            p = f.parent(x)
            env.require(prop, "depth", r["depth"] == f.depth(x))
            env.require(prop, "interval size", r["rgt"] - r["lft"] + 1 == 2 * len(f.subtree(x)))
            if p is None:
                env.require(prop, "roots start at one", r["lft"] == 1)
                for y in f.kids[None]:
                    if y != x:
                        env.require(prop, "one tree per root", r["tree_id"] != by[pk(y)]["tree_id"])
            else:
                q = by[pk(p)]
                env.require(prop, "inside the parent",
                            And(r["tree_id"] == q["tree_id"], r["lft"] > q["lft"], r["rgt"] < q["rgt"]))
                for y in f.kids[p]:
                    if y != x:
                        o = by[pk(y)]
                        env.require(prop, "siblings disjoint", Or(r["rgt"] < o["lft"], o["rgt"] < r["lft"]))

    @staticmethod
    def before(st, a, b):
        return Or(a["tree_id"] < b["tree_id"], And(a["tree_id"] == b["tree_id"], a["lft"] < b["lft"]))


@harness
def ns_insert(env, **p):
    c.insert(env, Kit, "N01", **p)


@harness
def ns_move(env, **p):
    c.move(env, Kit, "N02", **p)


@harness
def ns_delete(env, **p):
    c.delete(env, Kit, "N03", **p)


@harness
def ns_sorted_add(env, **p):
    c.sorted_add(env, Kit, "N04", **p)


@harness
def ns_sorted_move(env, **p):
    c.sorted_move(env, Kit, "N04", **p)


@harness
def ns_nav(env, model, parents, node, sort=False):
    M = getattr(models(), model)
    st = State(env, M, parents, sort=sort)
    c.nav(env, "N05", st, node, M)


# ===================================================================== shape-free variants
class Free:
    """n rows forming an arbitrary valid table: bounds, tree identifiers and depths are all symbolic."""

    def __init__(self, env, model, n):
        self.env, self.model, self.n = env, model, n
        self.table = model.objects.tree_model
        self.t = [env.int(f"t{i}", 1, n + 1) for i in range(n)]
        self.l = [env.int(f"l{i}", 1, 2 * n) for i in range(n)]
        self.r = [env.int(f"r{i}", 1, 2 * n) for i in range(n)]
        self.d = [env.int(f"d{i}", 1, n) for i in range(n)]
        rows = [{"id": PKS[i], "tree_id": self.t[i], "lft": self.l[i], "rgt": self.r[i], "depth": self.d[i],
                 "val": 100 + i, "key": 10 + i} for i in range(n)]
        # rows are listed depth first, which loses no generality
        for i in range(n - 1):
            env.assume(before(rows[i], rows[i + 1]))
        env.assume(valid(rows))
        env.load(self.table, rows)
        self.rows = rows


def before(a, b):
    return Or(a["tree_id"] < b["tree_id"], And(a["tree_id"] == b["tree_id"], a["lft"] < b["lft"]))


def above(a, b):
    """a is an ancestor of b"""
    return And(a["tree_id"] == b["tree_id"], a["lft"] < b["lft"], b["rgt"] < a["rgt"])


def count(conds):
    from vp.env import ite
    n = 0
    for q in conds:
        n = ite(q, n + 1, n)
    return n


def valid(rows):
    out = []
    for a in rows:
        others = [b for b in rows if b is not a]
        out.append(And(a["lft"] >= 1, a["lft"] < a["rgt"], a["tree_id"] >= 1))
        out.append(a["rgt"] - a["lft"] - 1 == 2 * count([above(a, b) for b in others]))
        out.append(a["depth"] == 1 + count([above(b, a) for b in others]))
        out.append(Implies(Not(Or([above(b, a) for b in others])), a["lft"] == 1))
        for b in others:
            out.append(Implies(a["tree_id"] == b["tree_id"],
                               Or(above(a, b), above(b, a), a["rgt"] < b["lft"], b["rgt"] < a["lft"])))
    return And(out)


def parent_of(rows, p, x):
    """p is the parent of x"""
    return And(above(p, x), p["depth"] + 1 == x["depth"])


def siblings(rows, a, b):
    return Or(And(a["depth"] == 1, b["depth"] == 1), *[And(parent_of(rows, p, a), parent_of(rows, p, b)) for p in rows])


def spot(rows, y, t, pos):
    """Before the operation: row y (outside the moved branch) comes before the requested place."""
    if pos == "left":
        return before(y, t)
    if pos == "right":
        return Or(y is t, before(y, t), above(t, y))
    if pos == "first-child":
        return Or(y is t, before(y, t))
    if pos == "last-child":
        return Or(y is t, before(y, t), above(t, y))
    first = [And(siblings(rows, t, s), Not(before(y, s))) for s in rows if s is not y] + [siblings(rows, t, y)]
    if pos == "first-sibling":          # y precedes every sibling of the target
        return Not(Or(first))
    # last-sibling: y does not come after the last sibling's branch
    return Or(y is t, siblings(rows, t, y), before(y, t), *[And(siblings(rows, t, s), above(s, y)) for s in rows])


def free_check(env, prop, st, rows, post, branch, head, t, pos, by):
    """post encodes: rows outside branch related as before, branch placed at the requested spot."""
    env.require(prop, "valid encoding", valid(post))
    P = {r["id"]: r for r in post}
    n = len(rows)
    child = pos in ("first-child", "last-child")
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            a, b = rows[i], rows[j]
            pa, pb = P[a["id"]], P[b["id"]]
            both_out = And(Not(branch[i]), Not(branch[j]))
            both_in = And(branch[i], branch[j])
            env.require(prop, "relations of other nodes kept",
                        Implies(both_out, And(Iff(above(a, b), above(pa, pb)), Iff(before(a, b), before(pa, pb)))))
            env.require(prop, "branch intact",
                        Implies(both_in, And(Iff(above(a, b), above(pa, pb)), Iff(before(a, b), before(pa, pb)))))
    for i in range(n):
        y, py = rows[i], P[rows[i]["id"]]
        if y["id"] == head:
            continue
        h = P[head]
        up = Or(above(y, t), y is t) if child else above(y, t)
        env.require(prop, "new ancestors", Implies(Not(branch[i]), And(Iff(up, above(py, h)), Not(above(h, py)))))
        env.require(prop, "place", Implies(Not(branch[i]), Iff(spot([r for k, r in enumerate(rows)], y, t, pos), before(py, h))))


@harness
def ns_free_insert(env, n, op, target=None, pos=None):
    M = models().NS
    st = Free(env, M, n)
    if op == "root":
        res = env.call(M.objects.add_root, {"val": 7, "key": 8})
    elif op == "child":
        res = env.call(M.objects.add_child, M.objects.get(pk=PKS[target]), {"val": 7, "key": 8})
    else:
        res = env.call(M.objects.add_sibling, M.objects.get(pk=PKS[target]), pos, {"val": 7, "key": 8})
    c.outcome(env, res)
    post = env.rows(st.table)
    env.observe("rows", post)
    env.require("N01", "insertion succeeds", res[0] == "ok")
    new = {r["id"] for r in post} - {r["id"] for r in st.rows}
    env.require("N01", "one new row", len(new) == 1 and len(post) == n + 1)
    if res[0] != "ok" or len(new) != 1:
        return
    env.reach("inserted, any shape")
    head = list(new)[0]
    P = {r["id"]: r for r in post}
    for i in range(n):
        env.require("N01", "data unchanged", And(P[PKS[i]]["val"] == 100 + i, P[PKS[i]]["key"] == 10 + i))
    if op == "root":
        env.require("N01", "valid encoding", valid(post))
        for a in st.rows:
            env.require("N01", "last root", And(before(P[a["id"]], P[head]), Not(above(P[a["id"]], P[head]))))
            for b in st.rows:
                if a is not b:
                    env.require("N01", "relations of other nodes kept",
                                And(Iff(above(a, b), above(P[a["id"]], P[b["id"]])), Iff(before(a, b), before(P[a["id"]], P[b["id"]]))))
        return
    t = [r for r in st.rows if r["id"] == PKS[target]][0]
    free_check(env, "N01", st, st.rows, post, [False] * n, head, t, "last-child" if op == "child" else pos, None)


@harness
def ns_free_move(env, n, node, target, pos):
    M = models().NS
    st = Free(env, M, n)
    rows = st.rows
    h, t = rows[node], rows[target]
    env.assume(Not(above(h, t)))
    res = env.call(M.objects.move, M.objects.get(pk=PKS[node]), M.objects.get(pk=PKS[target]), pos)
    c.outcome(env, res)
    post = env.rows(st.table)
    env.observe("rows", post)
    env.require("N02", "move succeeds", res[0] == "ok")
    env.require("N02", "rows kept", {r["id"] for r in post} == {r["id"] for r in rows})
    if res[0] != "ok":
        return
    env.reach("moved, any shape")
    for r in post:
        i = [k for k in range(n) if PKS[k] == r["id"]][0]
        env.require("N02", "data unchanged", And(r["val"] == 100 + i, r["key"] == 10 + i))
    branch = [True if k == node else above(h, rows[k]) for k in range(n)]
    free_check(env, "N02", st, rows, post, branch, PKS[node], t, pos, None)


def free_inserts(n):
    out = []
    for k in range(1, n + 1):
        out.append(("ns_free_insert", dict(n=k, op="root")))
        for t in range(k):
            out.append(("ns_free_insert", dict(n=k, op="child", target=t)))
            for pos in SIBLING_POS:
                out.append(("ns_free_insert", dict(n=k, op="sibling", target=t, pos=pos)))
    return out


def free_moves(n):
    from vp.trees import MOVE_POS
    return [("ns_free_move", dict(n=k, node=a, target=b, pos=pos)) for k in range(2, n + 1) for a in range(k) for b in range(k)
            if a != b for pos in MOVE_POS]


@jobs("N01", bounds="every forest shape of at most 5 nodes (6 in thorough) with arbitrary increasing tree identifiers, every target "
      "and position; and, without fixing a shape, every valid table of at most 4 rows (5) with all columns symbolic")
def n01(tier):
    big = tier != "quick"
    return c.all_inserts("ns", "NS", 6 if big else 5) + free_inserts(5 if big else 4)


witnesses("N01", "inserted", "inserted, any shape")


@jobs("N02", bounds="every forest shape of at most 5 nodes (6 in thorough) with arbitrary increasing tree identifiers, every node, "
      "target outside the branch, and position; and, without fixing a shape, every valid table of at most 4 rows (5) with all "
      "columns symbolic")
def n02(tier):
    big = tier != "quick"
    return c.all_moves("ns", "NS", 6 if big else 5) + free_moves(5 if big else 4)


witnesses("N02", "moved", "moved, any shape")


@jobs("N03", bounds="every forest shape of at most 5 nodes (6 in thorough) with arbitrary increasing tree identifiers, every single "
      "node, every subset of nodes, the whole table; querysets of children, descendants, siblings, ancestors, roots, combined, excluding, "
      "reversed and joined ones, with related or only some columns loaded on at most 3 (4) nodes, joined 2 (3)")
def n03(tier):
    return c.all_deletes("ns", "NS", 5 if tier == "quick" else 6, 3 if tier == "quick" else 4, "NSA")


witnesses("N03", "some removed, some kept")


@jobs("N04", bounds="every forest shape of at most 5 nodes (6 in thorough) with one integer key, 3 (4) nodes with two keys (one "
      "descending); arbitrary keys in [-50, 50] with ties, arbitrary tree identifiers; every target and sorted position")
def n04(tier):
    n1, n2 = (5, 3) if tier == "quick" else (6, 4)
    return c.all_sorted("ns", "NSS", "NSSS", n1, n2)


witnesses("N04", "inserted", "moved")


@jobs("N05", bounds="every forest shape of at most 5 nodes (6 in thorough), every node, depth limits none/0/1/2; arbitrary tree "
      "identifiers; plain and sorted models")
def n05(tier):
    n = 5 if tier == "quick" else 6
    return c.all_nav("ns", "NS", n, "NSS", n - 1)


witnesses("N05", "navigated")


# ===================================================================== the consistency checker
@harness
def ns_problems(env, n, parent=None, sane=False, trees=None, lefts=None):
    """trees, lefts: the part of the cases in which the tree identifiers and left bounds are ordered like these numbers."""
    M = models().NS
    table = M.objects.tree_model
    rows = [{"id": PKS[i], "tree_id": env.int(f"t{i}", 1, n), "lft": env.int(f"l{i}", 1, 2 * n + 1),
             "rgt": env.int(f"r{i}", 1, 2 * n + 1), "depth": env.int(f"d{i}", 0, n + 1), "val": 0, "key": 0} for i in range(n)]
    ok = valid(rows)
    if sane:
        env.assume(ok)
    for column, ranks in (("tree_id", trees), ("lft", lefts)):
        for i in range(n if ranks else 0):
            for j in range(i):
                a, b = rows[i][column], rows[j][column]
                env.assume(a == b if ranks[i] == ranks[j] else a < b if ranks[i] < ranks[j] else b < a)
    env.load(table, rows)
    if parent is None:
        got = M.objects.find_problems()
    else:
        got = M.objects.find_problems(parent=M.objects.get(pk=PKS[parent]))
    got = [list(x) for x in got]
    env.require("N06", "four lists", len(got) == 4)
    flat = [pk for part in got for pk in part]
    env.observe("any", bool(flat))
    inv = [r["rgt"] <= r["lft"] for r in rows]
    overlap, tworoots = [], []
    for i in range(n):
        for j in range(i):
            a, b = rows[i], rows[j]
            good = And(Not(inv[i]), Not(inv[j]), a["tree_id"] == b["tree_id"])
            apart = Or(a["rgt"] < b["lft"], b["rgt"] < a["lft"])
            overlap.append(And(good, Not(apart), Not(above(a, b)), Not(above(b, a))))
            top = [Not(Or([above(rows[k], x) for k in range(n) if rows[k] is not x])) for x in (a, b)]
            tworoots.append(And(good, apart, top[0], top[1]))
    depth = [r["depth"] != 1 + count([above(o, r) for o in rows if o is not r]) for r in rows]
    shape_ok = Not(Or(inv + overlap + tworoots))
    if flat:
        env.reach("problems")
    else:
        env.reach("clean")
    if parent is None:
        env.require("N06", "a valid table has no problems", Implies(ok, not flat))
        for i in range(n):
            env.require("N06", "inverted exactly", Iff(inv[i], PKS[i] in got[0]))
            env.require("N06", "wrong depth exactly, on well nested tables",
                        Implies(shape_ok, Iff(depth[i], PKS[i] in got[3])))
        env.require("N06", "broken tables are flagged", Implies(Or([Not(shape_ok)] + depth), bool(flat)))
        for k, name in enumerate(["inverted", "overlapping", "two roots", "wrong depth"]):
            if got[k]:
                env.reach(name)
            if k in (1, 2):
                env.require("N06", f"{name}: listed only when something is", Implies(shape_ok, not got[k]))
    else:
        env.require("N06", "a valid branch has no problems", Implies(ok, not flat))
        p = rows[parent]
        for i in range(n):
            if PKS[i] in flat:
                r = rows[i]
                env.require("N06", "only nodes of the branch are judged",
                            And(r["tree_id"] == p["tree_id"], r["lft"] >= p["lft"], r["rgt"] <= p["rgt"]))
            r = rows[i]
            inside = And(r["tree_id"] == p["tree_id"], r["lft"] >= p["lft"], r["rgt"] <= p["rgt"])
            env.require("N06", "wrong depth exactly, on branches of well nested tables",
                        Implies(And(shape_ok, inside), Iff(depth[i], PKS[i] in got[3])))


@jobs("N06", bounds="every table of at most 3 rows (4 in thorough, split by the order of the columns) with arbitrary bounds, tree identifiers and depths; whole table "
      "and, on valid tables of at most 4 rows (5), every branch")
def n06(tier):
    n = 3 if tier == "quick" else 4
    out = [("ns_problems", dict(n=k)) for k in range(1, 4)]
    if n == 4:
        orders = [r for r in itertools.product(range(4), repeat=4) if set(r) == set(range(max(r) + 1))]
        for t in orders:
            out += [("ns_problems", dict(n=4, trees=t, lefts=s)) for s in (orders if len(set(t)) < 3 else [None])]
    out += [("ns_problems", dict(n=k, sane=True)) for k in range(1, n + 2)]
    out += [("ns_problems", dict(n=k, parent=p)) for k in range(1, n) for p in range(k)]
    out += [("ns_problems", dict(n=k, parent=p, sane=True)) for k in range(1, n + 1) for p in range(k)]
    return out


witnesses("N06", "problems", "clean", "inverted", "overlapping", "two roots", "wrong depth")
