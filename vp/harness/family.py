"""Trees whose nodes belong to several model classes: multi-table children and proxies."""
from vp.env import And, Iff, Implies, Not, Or
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness import cross
from vp.harness.common import models, witnesses
from vp.harness.cross import World, fresh, new_data, overflow, plain_ops, sorted_ops
from vp.trees import MOVE_POS, PKS, Forest, shapes

FAMILIES = ["MPI", "NSI", "ALI", "LTI"]
SORTED_FAMILIES = ["MPSI", "NSSI", "ALSI", "LTSI"]
PROXIES = ["MP1Proxy", "NSProxy", "ALProxy", "LTProxy"]


class Family(World):
    """subs: the nodes that also have a row in the child table; `via`: the class whose manager is used;
    `objects`: the class the caller's node objects have (where the node is one)."""

    def __init__(self, env, prop, model, parents, subs, via, objects, sort=False):
        super().__init__(env, prop, model, parents, sort)
        self.base, self.sub = getattr(models(), model), getattr(models(), model + "Sub")
        self.subs = set(subs)
        self.link = self.sub._meta.pk.column
        env.load(self.sub, [{self.link: PKS[x], "extra": 500 + x} for x in sorted(self.subs)])
        self.M = {"sub": self.sub, "base": self.base, "proxy": getattr(models(), model + "SubProxy", None)}[via]
        self.objects = objects
        self.extra = {x: 500 + x for x in self.subs}

    def held(self, x):
        if self.objects == "mixed" and self.obj:        # the first object is of the base class, the second of the child class
            return (self.sub if x in self.subs else self.base).objects.get(pk=self.pks[x])
        if x not in self.obj:
            cls = self.sub if self.objects == "sub" and x in self.subs else self.base
            self.obj[x] = cls.objects.get(pk=self.pks[x])
        return self.obj[x]

    def apply(self, op, data=None):
        data = dict(data or {"val": 7, "key": 8})
        kept = dict(data)
        if self.M is not self.base:
            data["extra"] = 77
        res, new = super().apply(op, data)
        if new is not None and self.M is not self.base:
            self.subs.add(new)
            self.extra[new] = 77
        return res, new

    def check(self, rows):
        via, self.M = self.M, self.base
        super().check(rows)
        self.M = via
        parts = self.env.rows(self.sub)
        self.env.require(self.prop, "child rows of exactly the right nodes",
                         sorted(r[self.link] for r in parts) == sorted(self.pks[x] for x in self.subs))
        by = {r[self.link]: r for r in parts}
        for x in self.subs:
            if self.pks[x] in by:
                self.env.require(self.prop, "child data", by[self.pks[x]]["extra"] == self.extra[x])


@harness
def x_family(env, model, parents, subs, via, objects, op, sort=False):
    w = Family(env, "X11", model, parents, subs, via, objects, sort)
    gone = []
    if op[0] == "delete":
        res = env.call(w.held(op[1]).delete)
        gone = [op[1]]
    elif op[0] == "delete many":
        res = env.call(w.M.objects.filter(pk__in=[PKS[x] for x in op[1]]).delete)
        gone = [x for x in op[1] if via == "base" or x in w.subs]
    else:
        res, new = w.apply(op, new_data(env, w))
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X11", "operation succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    if gone or op[0].startswith("delete"):
        w.subs -= set(w.f.remove(gone))
        env.reach("deleted")
    elif op[0] != "move":
        env.require("X11", "the new node has the class it was added through", type(res[1]) is w.M)
    rows = w.rows()
    env.observe("rows", rows)
    env.observe("parts", env.rows(w.sub))
    w.check(rows)
    by = {r["id"]: r for r in rows}
    for x in w.f.nodes():
        if w.pks[x] in by:
            r = by[w.pks[x]]
            env.require("X11", "data", And(r["val"] == w.keys[x][0], r["key"] == w.keys[x][1]))
    if not op[0].startswith("delete"):
        n = new if op[0] != "move" else op[1]
        fresh(env, "X11", w, n, w.obj[n], rows, "object")
        if n in w.subs:
            env.reach("child class node " + ("moved" if op[0] == "move" else "added"))


@harness
def x_family_refused(env, model, parents, subs, via, objects, op, sort=False):
    """A move into the node's own branch, whatever classes the two objects have."""
    w = Family(env, "X11", model, parents, subs, via, objects, sort)
    _, n, t, pos = op
    res = env.call(w.M.objects.move, w.held(n), w.held(t), pos)
    c.outcome(env, res)
    env.require("X11", "refused", res[0] == "err" and type(res[1]).__name__ == "InvalidMoveToDescendant")
    env.require("X11", "a refused move changes nothing", c.same_rows(w.st.before, w.rows()))
    env.reach("refused")


@harness
def x_proxy(env, model, parents, op):
    """The same through a proxy of the tree's class: one table, results of the proxy class."""
    w = World(env, "X11", model, parents)
    if op[0] == "delete":
        res = env.call(w.held(op[1]).delete)
    else:
        res, new = w.apply(op)
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X11", "operation succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    if op[0] == "delete":
        w.f.remove([op[1]])
    rows = w.rows()
    env.observe("rows", rows)
    w.check(rows)
    for o in list(w.M.objects.get_tree()) + list(w.M.objects.get_root_nodes()):
        env.require("X11", "results are of the proxy class", type(o) is w.M)
    env.reach("through a proxy")


@harness
def x_family_nav(env, model, parents, subs, node, sub):
    """Navigation from an object of the child class, or through its manager, sees every node of the tree."""
    w = Family(env, "X11", model, parents, subs, sub if sub == "proxy" else "sub" if sub else "base", "sub")
    if node in w.subs:
        c.nav(env, "X11", w.st, node, w.M if sub == "proxy" else w.sub, others=w.base)
    if sub:
        o = w.M.objects
        env.require("X11", "tree through the child class", [x.pk for x in o.get_tree()] == [PKS[x] for x in w.f.order()])
        env.require("X11", "roots through the child class", [x.pk for x in o.get_root_nodes()] == [PKS[x] for x in w.f.kids[None]])
        n = w.base.objects.get(pk=PKS[node])
        env.require("X11", "children through the child class", [x.pk for x in o.get_children(n)] == [PKS[x] for x in w.f.kids[node]])
        env.require("X11", "own nodes of the child class", sorted(x.pk for x in w.sub.objects.all()) == sorted(PKS[x] for x in w.subs))


def masks(n, big):
    if big or n < 3:
        for k in range(2 ** n):
            yield tuple(i for i in range(n) if k >> i & 1)
    else:
        yield from ((1,), (0, 2))


def own_branch(parents, sort):
    f = Forest(parents)
    for n in f.nodes():
        for t in f.subtree(n):
            for pos in (["sorted-child", "sorted-sibling"] if sort else MOVE_POS):
                if t != n or pos.endswith("child"):
                    yield ("move", n, t, pos)


@jobs("X11", db="pg", bounds="materialized path, nested sets, adjacency list and ltree trees whose nodes are a base model or its multi-table child class; every forest of at most 2 nodes (thorough: 3) (plain and node_order_by; plus three plain siblings of mixed classes), every subset of nodes being of the child class, every add (root, child, sibling in every position), move, own-branch move (refused) and delete through the manager of either class (adds and moves also through a proxy of the child class), with the caller's objects of the base class, the child class or mixed; navigation from and through the child class and its proxy; the same operations through proxy models. ltree labels at most 2 characters")
def x11(tier):
    out = []
    big = tier != "quick"
    for m in FAMILIES + SORTED_FAMILIES:
        srt = m in SORTED_FAMILIES
        for s in list(shapes(3 if big else 2)) + ([] if big or srt else [(None, None, None)]):
            ops = (sorted_ops(s) if srt else plain_ops(s)) + [("delete", x) for x in range(len(s))] + [("delete many", tuple(range(len(s))))]
            for mask in masks(len(s), big):
                for op in ops:
                    for via in ("base", "sub") if srt or op[0].startswith("delete") else ("base", "sub", "proxy"):
                        for objects in ("base", "sub", "mixed") if mask else ("base",):
                            if objects == "mixed" and (op[0] != "move" or op[2] not in mask):
                                continue
                            if op[0] == "delete" and via == "sub":
                                continue
                            if via == "proxy" and objects != ("sub" if mask else "base"):
                                continue
                            out.append(("x_family", dict(model=m, parents=s, subs=mask, via=via, objects=objects, op=op, sort=srt)))
                for op in own_branch(s, srt):
                    for objects in ("sub", "mixed") if mask else ():
                        out.append(("x_family_refused", dict(model=m, parents=s, subs=mask, via=("base", "sub")[len(out) % 2],
                                                             objects=objects, op=op, sort=srt)))
                if not srt:
                    for x in range(len(s)):
                        for sub in (False, True, "proxy"):
                            out.append(("x_family_nav", dict(model=m, parents=s, subs=mask, node=x, sub=sub)))
    for m in PROXIES:
        for s in shapes(3 if big else 2):
            for op in plain_ops(s) + [("delete", x) for x in range(len(s))]:
                out.append(("x_proxy", dict(model=m, parents=s, op=op)))
    return out


witnesses("X11", "refused", "deleted", "child class node added", "child class node moved", "through a proxy")
