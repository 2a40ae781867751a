"""Properties that span the tree types: one kit per type, the same histories on each."""
from vp.env import And, Iff, Implies, Not, Or
from vp.harness import harness, jobs
from vp.harness import al, lt, mp, ns
from vp.harness import common as c
from vp.harness.common import NEWID, models, witnesses
from vp.trees import CHILD_POS, MOVE_POS, PKS, SIBLING_POS, Forest, shapes

PLAIN = ["MP1", "NS", "AL", "LT"]
SORTED = ["MP1S", "NSS", "ALS", "LTS"]


class MPKit:
    no_stored_order = False
    State = mp.State

    @staticmethod
    def exact(env, prop, st, rows, f, pk):
        mp.check_structure(env, prop, st, rows, f, pk)

    @staticmethod
    def loose(env, prop, st, by, f, pk):
        for x in f.nodes():
            r, p = by[pk(x)], f.parent(x)
            env.require(prop, "depth", r["depth"] == f.depth(x))
            env.require(prop, "numchild", r["numchild"] == len(f.kids[x]))
            env.require(prop, "path length", len(r["path"]) == f.depth(x) * st.sl)
            if p is not None:
                env.require(prop, "path prefix is the parent's path", r["path"][: -st.sl] == by[pk(p)]["path"])
            for y in f.siblings(x):
                if y != x:
                    env.require(prop, "paths distinct", r["path"] != by[pk(y)]["path"])

    @staticmethod
    def before(st, a, b):
        return a["path"] < b["path"]


def kit_of(model):
    if model.startswith("MP"):
        return MPKit
    k = {"NS": ns, "AL": al, "LT": lt}[model[:2]]
    if model.startswith("ALS"):
        return al.SortedKit
    return k.Kit


def state_of(env, model, parents, sort=False, **kw):
    M = getattr(models(), model)
    S = {"MP": mp.State, "NS": ns.State, "AL": al.State, "LT": lt.State}[model[:2]]
    return M, S(env, M, parents, sort=sort, **kw)


def exact(env, prop, M, st, rows, f, pk, keys=None, moved=None, prev=None, as_given=()):
    """The stored rows are exactly the tree f (in sorted models: up to the order the keys leave open)."""
    kit = kit_of(M.__name__)
    if keys is not None:
        c.sorted_result(env, kit, prop, st, rows, f, pk, keys, moved, prev, as_given)
        c.listings(env, kit, prop, st, f, pk, keys, M)
    else:
        kit.exact(env, prop, st, rows, f, pk)


POSITION = {"MP": ("path", "depth", "numchild"), "NS": ("lft", "rgt", "tree_id", "depth"), "AL": ("parent_id", "sib_order"),
            "LT": ("path",)}


def overflow(res):
    return res[0] == "err" and type(res[1]).__name__ == "PathOverflow"


# ===================================================================== histories
class World:
    """The current expected forest plus the objects the caller still holds."""

    def __init__(self, env, prop, model, parents, sort=False, **kw):
        self.env, self.prop, self.name = env, prop, model
        self.sort = sort
        self.M, self.st = state_of(env, model, parents, sort=sort, **kw)
        self.f = self.st.f.copy()
        self.pks = {x: PKS[x] for x in self.f.nodes()}
        self.keys = {x: (self.st.val[x], self.st.key[x]) for x in self.f.nodes()}
        self.obj = {}
        self.fresh_id = NEWID
        self.moved = None
        self.as_given = ()
        self.prev = {r["id"]: r for r in self.st.before}

    def held(self, x):
        if x not in self.obj:
            self.obj[x] = self.M.objects.get(pk=self.pks[x])
        return self.obj[x]

    def apply(self, op, data=None):
        """op: ("root",) ("child", t) ("sibling", t, pos) ("move", n, t, pos).  Returns (outcome, new id or None)."""
        o, M = M_objects(self.M), self.M
        data = data or {"val": 7, "key": 8}
        if op[0] == "move":
            _, n, t, pos = op
            res = self.env.call(o.move, self.held(n), self.held(t), pos)
            if res[0] == "ok":
                if self.sort:
                    par = t if pos == "sorted-child" else self.f.parent(t)
                    if par != self.f.parent(n):
                        self.f.siblings(n).remove(n)
                        self.f.insert(n, par, 0)
                else:
                    self.f.move(n, t, pos or "last-sibling")
            self.moved = n
            return res, None
        if op[0] == "root":
            res = self.env.call(o.add_root, data)
        elif op[0] == "child":
            res = self.env.call(o.add_child, self.held(op[1]), data)
        else:
            res = self.env.call(o.add_sibling, self.held(op[1]), op[2], data)
        if res[0] != "ok":
            return res, None
        new = self.fresh_id
        self.fresh_id += 1
        if op[0] == "root":
            self.f.insert(new, None, len(self.f.kids[None]))
        elif op[0] == "child":
            self.f.insert(new, op[1], len(self.f.kids[op[1]]))
        elif self.sort:
            self.f.insert(new, self.f.parent(op[1]), 0)
        else:
            self.f.place(new, op[1], op[2] or "last-sibling")
        self.pks[new] = res[1].pk
        self.keys[new] = (data["val"], data["key"])
        self.obj[new] = res[1]
        self.moved = new
        return res, new

    def rows(self):
        return self.env.rows(self.st.table)

    def check(self, rows):
        ids = {r["id"] for r in rows}
        self.env.require(self.prop, "exactly the expected nodes", ids == {self.pks[x] for x in self.f.nodes()})
        exact(self.env, self.prop, self.M, self.st, rows, self.f, lambda x: self.pks[x],
              self.keys if self.sort else None, self.moved, self.prev, self.as_given)
        self.prev = {r["id"]: r for r in rows}
        if self.name.startswith("LT"):          # what the next step's known-finding condition looks at
            self.st.f = self.f.copy()
            self.st.lab = {x: lt.split(self.prev[self.pks[x]]["path"])[-1] for x in self.f.nodes()}


def M_objects(M):
    return M.objects


def value_of(obj, name):
    v = getattr(obj, name)
    return lt.str_(v) if name == "path" else v


def fresh(env, prop, w, x, obj, rows, what):
    """obj describes node x of the stored tree as it is now."""
    row = [r for r in rows if r["id"] == w.pks[x]]
    env.require(prop, f"{what} still stored", len(row) == 1)
    if len(row) != 1:
        return
    for name in POSITION[w.name[:2]]:
        if name in row[0]:
            env.require(prop, f"{what}: {name} agrees with the database", value_of(obj, name) == row[0][name])
    env.require(prop, f"{what}: depth", obj.get_depth() == w.f.depth(x))
    p = w.f.parent(x)
    got = w.M.objects.get_parent(obj)
    env.require(prop, f"{what}: parent", (None if got is None else got.pk) == (None if p is None else w.pks[p]))
    env.require(prop, f"{what}: is_root", bool(obj.is_root()) == (p is None))
    env.require(prop, f"{what}: is_leaf", bool(obj.is_leaf()) == (not w.f.kids[x]))


def answers(env, prop, w, x, obj, what):
    """Queries through obj see the stored tree as it is now (in sorted models: up to the order)."""
    o, f = w.M.objects, w.f
    sub = f.subtree(x)
    for label, got, want in (("children", o.get_children(obj), f.kids[x]), ("siblings", o.get_siblings(obj), f.siblings(x)),
                             ("descendants", o.get_descendants(obj), sub[1:]), ("ancestors", o.get_ancestors(obj), f.ancestors(x)),
                             ("branch", o.get_tree(obj), sub)):
        got, want = c.pks_of(got), [w.pks[y] for y in want]
        if w.sort:
            got, want = sorted(got), sorted(want)
        env.require(prop, f"{what}: {label} as asked for through it", got == want)


def warm_up(w, op):
    """Let the held objects fill whatever they cache."""
    for x in {y for y in op[1:] if isinstance(y, int)}:
        o = w.held(x)
        list(w.M.objects.get_descendants(o))
        w.M.objects.get_parent(o)
        o.get_depth()
        o.is_leaf()


def new_data(env, w, i=""):
    if not w.sort:
        return {"val": 7, "key": 8}
    return {"val": env.int(f"nv{i}", -c.V, c.V), "key": 8}


@harness
def x_fresh(env, model, parents, op, warm=False, sort=False):
    w = World(env, "X04", model, parents, sort)
    if warm:
        warm_up(w, op)
    res, new = w.apply(op, new_data(env, w))
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X04", "operation succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    env.reach("object checked")
    rows = w.rows()
    env.observe("rows", rows)
    for x in sorted(w.obj):
        what = "created node" if x == new else "moved node" if op[0] == "move" and x == op[1] else "target"
        fresh(env, "X04", w, x, w.obj[x], rows, what)
        if len(parents) < 3:
            answers(env, "X04", w, x, w.obj[x], what)


@harness
def x_chain(env, model, parents, ops, prop="X04", sort=False, warm=False):
    """Several operations in a row through the same objects, never reloaded: each must do what it says."""
    w = World(env, prop, model, parents, sort)
    for i, op in enumerate(ops):
        op = tuple(op)
        if warm:
            warm_up(w, op)
        res, _ = w.apply(op, new_data(env, w, i))
        if overflow(res):
            env.observe("outcome", "PathOverflow")
            return
        env.require(prop, f"operation {i + 1} succeeds", res[0] == "ok")
        if res[0] != "ok":
            c.outcome(env, res)
            return
        rows = w.rows()
        env.observe(f"rows{i}", rows)
        w.check(rows)
    env.reach("chain finished")


def plain_ops(parents, moves=True):
    out = [("root",)]
    for t in range(len(parents)):
        out.append(("child", t))
        out += [("sibling", t, pos) for pos in SIBLING_POS]
    if moves:
        out += [("move", n, t, pos) for n, t, pos in c.move_pairs(parents)]
    return out


def sorted_ops(parents):
    out = [("root",)]
    f = Forest(parents)
    for t in range(len(parents)):
        out += [("child", t), ("sibling", t, "sorted-sibling")]
    for n in f.nodes():
        sub = set(f.subtree(n))
        for t in f.nodes():
            for pos in ("sorted-sibling", "sorted-child"):
                if t not in sub or (t == n and pos == "sorted-sibling"):
                    out.append(("move", n, t, pos))
    return out


def replayed(parents, ops, sort=False):
    """Forest after ops (ids as World assigns them), or None if some op is not applicable."""
    f, new = Forest(parents), NEWID
    for op in ops:
        if op[0] == "move":
            _, n, t, pos = op
            if t in f.subtree(n) and not (t == n and pos in SIBLING_POS + ["sorted-sibling"]):
                return None
            if sort:
                par = t if pos == "sorted-child" else f.parent(t)
                if par != f.parent(n):
                    f.siblings(n).remove(n)
                    f.insert(n, par, 0)
            else:
                f.move(n, t, pos)
        else:
            if op[0] == "root":
                f.insert(new, None, len(f.kids[None]))
            elif op[0] == "child":
                f.insert(new, op[1], len(f.kids[op[1]]))
            elif sort:
                f.insert(new, f.parent(op[1]), 0)
            else:
                f.place(new, op[1], op[2])
            new += 1
    return f


def follow_ups(parents, first, sort=False):
    """Operations a caller can go on with using only the objects the first operation involved."""
    held = [x for x in first[1:] if isinstance(x, int)] + ([NEWID] if first[0] != "move" else [])
    out = []
    sib = ["sorted-sibling"] if sort else SIBLING_POS
    for x in held:
        out.append(("child", x))
        out += [("sibling", x, pos) for pos in sib]
        for y in held:
            for pos in (["sorted-sibling", "sorted-child"] if sort else MOVE_POS):
                if replayed(parents, [first, ("move", x, y, pos)], sort) is not None:
                    out.append(("move", x, y, pos))
    return list(dict.fromkeys(out))


def chains(model, nmax, sort=False):
    out = []
    for s in shapes(nmax):
        for a in (sorted_ops(s) if sort else plain_ops(s)):
            for b in follow_ups(s, a, sort):
                out.append(("x_chain", dict(model=model, parents=s, ops=(a, b), sort=sort, warm=True)))
    return out


@jobs("X04", db="pg", bounds="four tree types, plain and sorted models; one operation (every add/move kind, node, target and position) on every "
      "shape of up to 3 nodes with warm object caches (cold ones for child additions and on up to 2 nodes), and every two-operation chain through unreloaded objects on shapes of up to 2 "
      "nodes; queries through the objects on shapes of up to 2 nodes; symbolic steps, intervals, orders, labels (up to 2 characters) and keys")
def x04(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN:
        for s in shapes(3):
            for op in plain_ops(s):
                if op[0] != "root":
                    out.append(("x_fresh", dict(model=m, parents=s, op=op, warm=True)))
                    if op[0] == "child" or len(s) < 3:
                        out.append(("x_fresh", dict(model=m, parents=s, op=op)))
    for m in SORTED:
        for s in shapes(3):
            for op in sorted_ops(s):
                if op[0] != "root":
                    out.append(("x_fresh", dict(model=m, parents=s, op=op, warm=True, sort=True)))
                    if op[0] == "child":
                        out.append(("x_fresh", dict(model=m, parents=s, op=op, sort=True)))


    for m in PLAIN:
        out += chains(m, 2)
    for m in SORTED:
        out += chains(m, 2, True)
    return out


witnesses("X04", "object checked", "chain finished")


# ===================================================================== stale and shared parents
@harness
def x_stale(env, model, parents, target, count=2, sort=False, lens=None):
    """add_child through an object whose position columns hold arbitrary out-of-date values."""
    w = World(env, "X05", model, parents, sort)
    p = w.held(target)
    t = w.M.objects.tree_model
    if model.startswith("MP"):
        p.path = env.str("stale_path", (lens or 1) * t.steplen, t.alphabet)
        p.depth, p.numchild = env.int("stale_depth", 1, 4), env.int("stale_numchild", 0, 4)
    elif model.startswith("NS"):
        p.lft, p.rgt = env.int("stale_lft", 1, 12), env.int("stale_rgt", 2, 13)
        env.assume(p.lft < p.rgt)
        p.tree_id, p.depth = env.int("stale_tree", 1, 50), env.int("stale_depth", 1, 4)
    elif model.startswith("AL"):
        if not sort:
            p.sib_order = env.int("stale_order", 1, 50)
        p.parent_id = [None] + [w.pks[x] for x in w.f.order() if x not in w.f.subtree(target)]
        p.parent_id = p.parent_id[env.choose("stale_parent", len(p.parent_id))]
        p._cached_depth = env.int("stale_depth", 1, 4)
    else:
        from treebeard.ltree import PathValue
        p.path = PathValue([env.str(f"stale{i}", 1, lt.FULL) for i in range(lens or 1)])
    for i in range(count):
        res, _ = w.apply(("child", target), new_data(env, w, i))
        if overflow(res):
            env.observe("outcome", "PathOverflow")
            return
        env.require("X05", f"addition {i + 1} succeeds", res[0] == "ok")
        if res[0] != "ok":
            c.outcome(env, res)
            return
        rows = w.rows()
        env.observe(f"rows{i}", rows)
        w.check(rows)
    env.reach("added through a stale object")


@harness
def x_shared(env, model, parents, target, who, sort=False):
    """Several objects of the same node, all loaded up front, take turns in adding children to it."""
    w = World(env, "X05", model, parents, sort)
    copies = [w.M.objects.get(pk=w.pks[target]) for _ in range(max(who) + 1)]
    for k in copies:
        k.get_depth()
        w.M.objects.get_parent(k)
    for i, k in enumerate(who):
        w.obj[target] = copies[k]
        w.st.several_steps = i > 0
        res, _ = w.apply(("child", target), new_data(env, w, i))
        if overflow(res):
            env.observe("outcome", "PathOverflow")
            return
        env.require("X05", f"addition {i + 1} succeeds", res[0] == "ok")
        if res[0] != "ok":
            c.outcome(env, res)
            return
        rows = w.rows()
        env.observe(f"rows{i}", rows)
        w.check(rows)
    env.reach("added through shared objects")


def add_sequences(parents, length):
    """Sequences of add_child whose targets are existing nodes or nodes the sequence created."""
    seqs = [[]]
    for i in range(length):
        seqs = [q + [("child", t)] for q in seqs for t in list(range(len(parents))) + [NEWID + j for j in range(i)]]
    return [tuple(q) for q in seqs]


@jobs("X05", db="pg", bounds="four tree types, plain and sorted models; shapes of up to 3 nodes (sorted 2; thorough one more); two additions through "
      "an object whose position columns hold arbitrary values (paths of 1 or 2 steps, numbers in a small range), three additions taking "
      "turns between up to 3 preloaded objects, and every sequence of three add_child calls on old and new nodes")
def x05(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        n = (4 if big else 3) - srt
        for s in shapes(n):
            for t in range(len(s)):
                for ln in ((1, 2) if m[:2] in ("MP", "LT") else (None,)):
                    out.append(("x_stale", dict(model=m, parents=s, target=t, count=2, sort=srt, lens=ln)))
                for who in ((0, 1, 0), (0, 1, 2)):
                    if not (srt and len(s) > 1 and not big):
                        out.append(("x_shared", dict(model=m, parents=s, target=t, who=who, sort=srt)))
        for s in shapes(1 if srt and not big else 2):
            for q in add_sequences(s, 3):
                out.append(("x_chain", dict(model=m, parents=s, ops=q, prop="X05", sort=srt)))
    return out


witnesses("X05", "added through a stale object", "added through shared objects", "chain finished")


# ===================================================================== refused requests
ADD_POS = SIBLING_POS + ["sorted-sibling"]
ALL_POS = MOVE_POS + ["sorted-sibling", "sorted-child"]


def refuse(env, w, names, fn, *a, **k):
    before = w.rows()
    res = env.call(fn, *a, **k)
    c.outcome(env, res)
    env.require("X01", "refused", res[0] == "err")
    if res[0] == "err":
        env.require("X01", f"refused with {' or '.join(names)}", type(res[1]).__name__ in names)
    env.require("X01", "the stored tree is as before", c.same_rows(before, w.rows()))
    env.reach(names[0])


@harness
def x_bad_position(env, model, parents, api, args, length, sort=False):
    """Any string of the given length that names no position of the method."""
    w = World(env, "X01", model, parents, sort)
    pos = env.str("pos", length, "-abcdefghijklmnopqrstuvwxyz") if length else ""
    for p in (ADD_POS if api == "add_sibling" else ALL_POS):
        if len(p) == length:
            env.assume(pos != p)
    if api == "add_sibling":
        refuse(env, w, ("InvalidPosition",), w.M.objects.add_sibling, w.held(args[0]), pos, {"val": 1, "key": 2})
    else:
        refuse(env, w, ("InvalidPosition",), w.M.objects.move, w.held(args[0]), w.held(args[1]), pos)


@harness
def x_refused(env, model, parents, what, args=(), pos=None, sort=False, method="add_child"):
    w = World(env, "X01", model, parents, sort)
    o, M = w.M.objects, w.M
    data = {"val": 1, "key": 2}
    if what == "mode-add":
        refuse(env, w, ("InvalidPosition",) if sort else ("MissingNodeOrderBy",), o.add_sibling, w.held(args[0]), pos, data)
    elif what == "mode-move":
        refuse(env, w, ("InvalidPosition",) if sort else ("MissingNodeOrderBy",), o.move, w.held(args[0]), w.held(args[1]), pos)
    elif what == "own-branch":
        refuse(env, w, ("InvalidMoveToDescendant",), o.move, w.held(args[0]), w.held(args[1]), pos)
    else:
        if what == "saved":
            if args[1] == "fetched":
                bad, kw = "NodeAlreadySaved", dict(instance=w.held(args[2]))
            else:                                 # handed back by an earlier insertion
                got = env.call(o.add_root, dict(data))
                if overflow(got):
                    return
                env.require("X01", "insertion succeeds", got[0] == "ok")
                if got[0] != "ok":
                    return
                bad, kw = "NodeAlreadySaved", dict(instance=got[1])
        elif what == "both":
            bad, kw = "ValueError", dict(create_kwargs=data, instance=M(**data, **({"pk": 70} if args[1:] else {})))
        else:
            bad, kw = "ValueError", {}
        if method == "add_root":
            refuse(env, w, (bad,), o.add_root, **kw)
        elif method == "add_child":
            refuse(env, w, (bad,), o.add_child, w.held(args[0]), **kw)
        else:
            refuse(env, w, (bad,), o.add_sibling, w.held(args[0]), pos, **kw)


@jobs("X01", db="pg", bounds="four tree types, plain and sorted models; shapes of up to 3 nodes (thorough 4), every node and target; position names: "
      "every string of up to 15 letters and dashes that is no position, on shapes of up to 2 nodes; every position the ordering mode rules out; "
      "every move into the node's own branch at every position; saved instances (fetched or just inserted); data and instance both or neither; "
      "symbolic steps, intervals, orders, labels and keys")
def x01(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for s in [(None,), (None, 0)] + ([(None, None), (None, 0, 0)] if tier != "quick" else []):
            for length in range(16):
                out.append(("x_bad_position", dict(model=m, parents=s, api="add_sibling", args=(len(s) - 1,), length=length, sort=srt)))
                out.append(("x_bad_position", dict(model=m, parents=s, api="move", args=(0, len(s) - 1), length=length, sort=srt)))
        for s in shapes(n):
            f = Forest(s)
            ids = range(len(s))
            for t in ids:
                for pos in (SIBLING_POS if srt else ["sorted-sibling"]):
                    out.append(("x_refused", dict(model=m, parents=s, what="mode-add", args=(t,), pos=pos, sort=srt)))
                for pos in ["first-child", "last-child", "sorted-child"]:
                    out.append(("x_bad_name", dict(model=m, parents=s, target=t, pos=pos, sort=srt)))
                for x in ids:
                    if len(s) <= 2:
                        for pos in (MOVE_POS if srt else ["sorted-sibling", "sorted-child"]):
                            out.append(("x_refused", dict(model=m, parents=s, what="mode-move", args=(x, t), pos=pos, sort=srt)))
                    if t in f.subtree(x):
                        for pos in (["sorted-sibling", "sorted-child", None] if srt else MOVE_POS + [None]):
                            if t != x or (pos or "").endswith("-child"):
                                out.append(("x_refused", dict(model=m, parents=s, what="own-branch", args=(x, t), pos=pos, sort=srt)))
        for s in shapes(2):
            for t in range(len(s)):
                for method in ("add_root", "add_child", "add_sibling"):
                    if method == "add_root" and t:
                        continue
                    pos = None if method != "add_sibling" else "sorted-sibling" if srt else ["left", None, "last-sibling"][t]
                    for x in range(len(s)):
                        out.append(("x_refused", dict(model=m, parents=s, what="saved", args=(t, "fetched", x), pos=pos, sort=srt, method=method)))
                    out.append(("x_refused", dict(model=m, parents=s, what="saved", args=(t, "inserted"), pos=pos, sort=srt, method=method)))
                    out.append(("x_refused", dict(model=m, parents=s, what="both", args=(t,), pos=pos, sort=srt, method=method)))
                    out.append(("x_refused", dict(model=m, parents=s, what="both", args=(t, "key"), pos=pos, sort=srt, method=method)))
                    out.append(("x_refused", dict(model=m, parents=s, what="neither", args=(t,), pos=pos, sort=srt, method=method)))
    return out


@harness
def x_bad_name(env, model, parents, target, pos, sort=False):
    """A position that only move knows, given to add_sibling."""
    w = World(env, "X01", model, parents, sort)
    refuse(env, w, ("InvalidPosition",), w.M.objects.add_sibling, w.held(target), pos, {"val": 1, "key": 2})


witnesses("X01", "InvalidPosition", "MissingNodeOrderBy", "InvalidMoveToDescendant", "NodeAlreadySaved", "ValueError")


# ===================================================================== all or nothing
BULK = [{"id": 61, "data": {"val": 1, "key": 2}, "children": [{"id": 62, "data": {"val": 3, "key": 4}}]},
        {"id": 63, "data": {"val": 5, "key": 6}}]


def start_op(env, w, op, data):
    """The operation as a call without arguments; everything it needs is fetched before."""
    o, M = w.M.objects, w.M
    if op[0] == "move":
        n, t = w.held(op[1]), w.held(op[2])
        return lambda: o.move(n, t, op[3])
    if op[0] == "root":
        return lambda: o.add_root(data)
    if op[0] == "child":
        t = w.held(op[1])
        return lambda: o.add_child(t, data)
    if op[0] == "sibling":
        t = w.held(op[1])
        return lambda: o.add_sibling(t, op[2], data)
    if op[0] == "delete":
        if len(op[1]) == 1:
            n = w.held(op[1][0])
            return lambda: n.delete()
        return lambda: o.filter(pk__in=[w.pks[x] for x in op[1]]).delete()
    if op[0] == "load":
        t = None if op[1] is None else w.held(op[1])
        return lambda: o.load_bulk(BULK, parent=t, **dict(op[2]))
    if op[0] == "repair":
        t = None if op[1] is None else w.held(op[1])
        return lambda: o.fix_tree(fix_paths=True, parent=t)
    raise AssertionError(op)


@harness
def x_fault(env, model, parents, op, sort=False, outer=False):
    """The k-th statement of the operation fails, for every k."""
    from django.db import transaction
    kw = {"wild": True} if op[0] == "repair" else {}
    if op[0] == "repair":
        w = World.__new__(World)
        w.M, w.st = state_of(env, model, parents, sort="unsorted" if sort else False, wild=op[1] if op[1] is not None else True)
        w.env, w.prop, w.name, w.sort, w.obj = env, "X02", model, sort, {}
        w.f, w.pks = w.st.f.copy(), {x: PKS[x] for x in w.st.f.nodes()}
    else:
        w = World(env, "X02", model, parents, sort)
    call = start_op(env, w, op, new_data(env, w))
    before = w.rows()
    k = env.int("fault", 1, 80)
    if outer:
        with transaction.atomic():
            env.fault(k)
            res = env.call(call)
            hit = env.end_fault()
    else:
        env.fault(k)
        res = env.call(call)
        hit = env.end_fault()
    c.outcome(env, res)
    rows = w.rows()
    env.require("X02", "fewer statements than the fault range", env.statements() < 80)
    if not hit:
        if overflow(res):
            env.require("X02", "a refused operation changes nothing", c.same_rows(before, rows))
        else:
            env.require("X02", "operation succeeds without a fault", res[0] == "ok")
        return
    env.require("X02", "the failure is reported", res[0] == "err")
    if res[0] == "err":
        env.require("X02", "the database's own error propagates", type(res[1]).__name__ == "OperationalError")
    env.require("X02", "the stored tree is as before", c.same_rows(before, rows))
    env.reach(op[0] + " hit")


@jobs("X02", db="pg", bounds="four tree types, plain and sorted models; every add and move on shapes of up to 2 nodes and four shapes of 3 (thorough: all "
      "of 3), deletion of every one or two nodes on shapes of up to 3 (4), loading a three-node structure under every parent of shapes of up "
      "to 2 (by adding, with keys, in bulk), path repair of arbitrary depths and counts; the failing statement number is symbolic and "
      "covers every statement of the operation; with and without a surrounding transaction on the small shapes; "
      "symbolic steps, intervals, orders, labels and keys")
def x02(tier):
    import itertools
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        mk = sorted_ops if srt else plain_ops
        def add(s, op, **k):
            out.append(("x_fault", dict(model=m, parents=s, op=op, sort=srt, **k)))
        add((), ("root",))
        for s in shapes(3 if big else 2) + ([] if big else [(None, 0, 0), (None, None, 0), (None, None, None), (None, 0, 1)]):
            ops = mk(s)
            for op in ops:
                add(s, op)
                if len(s) < 3:
                    add(s, op, outer=True)
        for s in shapes(4 if big else 3):
            for r in (1, 2):
                for q in itertools.combinations(range(len(s)), r):
                    add(s, ("delete", q))
                    if len(s) < 3:
                        add(s, ("delete", q), outer=True)
        for s in [()] + shapes(2):
            for t in [None] + list(range(len(s))):
                kws = [(), (("keep_ids", True),)]
                if m.startswith("MP"):
                    kws += [(("bulk_create", True),)]
                for kw in kws:
                    add(s, ("load", t, kw))
                add(s, ("load", t, kws[-1]), outer=True)
        if m.startswith("MP"):
            for s in shapes(3 if big else 2) + ([] if big else [(None, 0, 0), (None, None, None)]):
                for t in [None] + list(range(len(s))):
                    add(s, ("repair", t))
    return out


witnesses("X02", "root hit", "child hit", "sibling hit", "move hit", "delete hit", "load hit", "repair hit")


# ===================================================================== mirroring through signals
class Mirror:
    """A copy of the tree columns kept up to date from signals alone, as the documentation describes them."""

    def __init__(self, w):
        from django.db.models.signals import post_save
        self.w, self.kind = w, w.name[:2]
        self.rows = {r["id"]: {c_: r[c_] for c_ in self.columns()} for r in w.st.before}
        self.on = []
        self.sent = []
        if self.kind == "MP":
            from treebeard import mp_tree as m
            self.listen(m.path_updated, self.path_updated)
            self.listen(m.nodes_deleted, self.mp_deleted)
        elif self.kind == "NS":
            from treebeard import ns_tree as m
            self.listen(m.gap_altered, self.gap_altered)
            self.listen(m.tree_ids_incremented, self.tree_ids_incremented)
            self.listen(m.subtree_moved, self.ns_moved)
            self.listen(m.nodes_deleted, self.ns_deleted)
        else:
            from treebeard import ltree as m
            self.listen(m.subtree_moved_right, self.moved_right)
            self.listen(m.subtree_moved, self.lt_moved)
            self.listen(m.nodes_deleted, self.lt_deleted)
        self.listen(post_save, self.saved)

    def columns(self):
        return {"MP": ("path", "depth"), "NS": ("tree_id", "lft", "rgt", "depth"), "LT": ("path",)}[self.kind]

    def listen(self, signal, fn):
        def receiver(sender, signal=None, **kw):
            if sender._meta.concrete_model._meta.db_table == self.w.st.table._meta.db_table:
                self.sent.append(fn.__name__)
                fn(**kw)
        signal.connect(receiver, weak=False)
        self.on.append((signal, receiver))

    def stop(self):
        for signal, receiver in self.on:
            signal.disconnect(receiver)

    def saved(self, instance, **kw):
        self.rows[instance.pk] = {c_: value_of(instance, c_) for c_ in self.columns()}

    # ---- materialized path
    def path_updated(self, old_path, new_path, using, **kw):
        sl = self.w.st.table.steplen
        for r in self.rows.values():
            if r["path"].startswith(old_path):
                r["path"] = new_path + r["path"][len(old_path):]
                if len(old_path) != len(new_path):
                    r["depth"] = len(r["path"]) // sl

    def mp_deleted(self, pks_to_remove, paths_to_remove, using, **kw):
        for pk in list(self.rows):
            if pk in pks_to_remove or any(self.rows[pk]["path"].startswith(p) for p in paths_to_remove):
                del self.rows[pk]

    # ---- nested sets
    def gap_altered(self, tree_id, start_index, offset, using, **kw):
        for r in self.rows.values():
            if r["tree_id"] == tree_id:
                if r["lft"] >= start_index:
                    r["lft"] = r["lft"] + offset
                if r["rgt"] >= start_index:
                    r["rgt"] = r["rgt"] + offset

    def tree_ids_incremented(self, min_tree_id, using, **kw):
        for r in self.rows.values():
            if r["tree_id"] >= min_tree_id:
                r["tree_id"] = r["tree_id"] + 1

    def ns_moved(self, tree_id, lft, rgt, target_tree_id, index_offset, depth_offset, using, **kw):
        for r in self.rows.values():
            if r["tree_id"] == tree_id and r["lft"] >= lft and r["rgt"] <= rgt:
                r["tree_id"] = target_tree_id
                r["lft"] = r["lft"] + index_offset
                r["rgt"] = r["rgt"] + index_offset
                r["depth"] = r["depth"] + depth_offset

    def ns_deleted(self, removed_ranges, using, **kw):
        for pk in list(self.rows):
            r = self.rows[pk]
            for t, a, b in removed_ranges:
                if r["tree_id"] == t and r["lft"] >= a and r["rgt"] <= b:
                    del self.rows[pk]
                    break

    # ---- ltree
    def moved_right(self, path, using, **kw):
        first = lt.split(path)
        n = len(first)
        for r in self.rows.values():
            labels = lt.split(r["path"])
            if len(labels) >= n and labels[:n - 1] == first[:n - 1] and labels[n - 1] >= first[n - 1]:
                labels[n - 1] = labels[n - 1] + "A"
                r["path"] = lt.str_(labels)

    def lt_moved(self, old_path, new_path, using, **kw):
        old, new = lt.split(old_path), lt.split(new_path)
        for r in self.rows.values():
            labels = lt.split(r["path"])
            if labels[:len(old)] == old:
                r["path"] = lt.str_(new + labels[len(old):])

    def lt_deleted(self, paths_to_remove, using, **kw):
        gone = [lt.split(p) for p in paths_to_remove]
        for pk in list(self.rows):
            labels = lt.split(self.rows[pk]["path"])
            if any(labels[:len(g)] == g for g in gone):
                del self.rows[pk]


@harness
def x_mirror(env, model, parents, op, sort=False, lens=None):
    w = World(env, "X03", model, parents, sort, **({"lens": lens} if lens else {}))
    data = new_data(env, w)
    if op[0] in ("delete", "repair"):
        call = start_op(env, w, op, data)
    m = Mirror(w)
    try:
        if op[0] in ("delete", "repair"):
            res = env.call(call)
        else:
            res, _ = w.apply(op, data)
    finally:
        m.stop()
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X03", "operation succeeds", res[0] == "ok")
    rows = w.rows()
    env.observe("rows", rows)
    env.observe("signals", m.sent)
    for s in m.sent:
        env.reach(s)
    got = {r["id"]: r for r in rows}
    env.require("X03", "the mirror holds exactly the stored nodes", set(m.rows) == set(got))
    for pk in set(m.rows) & set(got):
        for name in m.columns():
            env.require("X03", f"the mirror's {name} equals the stored one", m.rows[pk][name] == got[pk][name])


def tuples(n, values):
    out = [()]
    for _ in range(n):
        out = [t + (v,) for t in out for v in values]
    return out


@jobs("X03", db="pg", bounds="materialized path, nested sets and ltree, plain and sorted models; every add and move on every shape of up to 3 nodes "
      "(thorough: 4 for plain models), deletion of every set of up to 3 nodes, path repair of the whole tree or a branch (materialized path); "
      "two-character steps and labels on shapes of up to 2 nodes; symbolic steps, intervals, labels and keys")
def x03(tier):
    import itertools
    out = []
    big = tier != "quick"
    for m in ("MP1", "NS", "LT", "MP1S", "NSS", "LTS"):
        srt = m.endswith("S") and m != "NS"
        for s in [()] + shapes(3 + (big and not srt)):
            for op in (sorted_ops(s) if srt else plain_ops(s)):
                out.append(("x_mirror", dict(model=m, parents=s, op=op, sort=srt)))
            if not srt:
                for r in (1, 2, 3):
                    for q in itertools.combinations(range(len(s)), r):
                        out.append(("x_mirror", dict(model=m, parents=s, op=("delete", q))))
    for s in shapes(3 + big):
        for t in [None] + list(range(len(s))):
            out.append(("x_mirror", dict(model="MP1", parents=s, op=("repair", t))))
            out.append(("x_mirror", dict(model="MP1S", parents=s, op=("repair", t), sort="unsorted")))
    for s in shapes(2) + ([(None, 0, 0), (None, None, 0), (None, None, None)] if big else []):
        for lens in tuples(len(s), (1, 2))[1:]:
            for op in plain_ops(s):
                out.append(("x_mirror", dict(model="LT", parents=s, op=op, lens=lens)))
    for s in shapes(2):
        for op in plain_ops(s):
            out.append(("x_mirror", dict(model="MP2", parents=s, op=op)))
    return out


witnesses("X03", "path_updated", "mp_deleted", "gap_altered", "tree_ids_incremented", "ns_moved", "ns_deleted", "moved_right",
          "lt_moved", "lt_deleted", "saved")


# ===================================================================== dump and load
LOADED = 200
LOAD_IDS = [64, 61, 66, 62, 65, 63]


def structure(spec, data, keep_ids=False, empty_lists=False):
    """load_bulk's nested form of a shape."""
    items = []
    for i, p in enumerate(spec):
        d = {"data": dict(data[i])}
        if keep_ids:
            d["id"] = LOAD_IDS[i]
        if empty_lists:
            d["children"] = []
        items.append(d)
    top = []
    for i, p in enumerate(spec):
        (top if p is None else items[p].setdefault("children", [])).append(items[i])
    return top


def check_loaded(env, w, rows, extra, added, label):
    """rows hold the forest w.f, in which the nodes LOADED+i are new and carry the key column value extra[i]."""
    prop = w.prop
    old = {r["id"] for r in w.st.before}
    for i, key in extra.items():
        got = [r["id"] for r in rows if r["id"] not in old and bool(r["key"] == key)]
        env.require(prop, f"{label}: every loaded node is stored once", len(got) == 1)
        if len(got) != 1:
            return False
        w.pks[LOADED + i] = got[0]
    env.require(prop, f"{label}: reports the new keys", sorted(added) == sorted(w.pks[LOADED + i] for i in extra))
    w.moved = None
    prev = w.prev
    w.check(rows)
    kit = kit_of(w.name)
    if w.sort and not kit.no_stored_order:
        by = {r["id"]: r for r in rows}
        for ks in w.f.kids.values():
            new = [x for x in ks if x >= LOADED]
            for j, b in enumerate(new):
                for a in new[:j]:
                    env.require(prop, f"{label}: siblings that are in order stay in the given order",
                                Implies(c.key_le(w.M, w.keys[a], w.keys[b]), kit.before(w.st, by[w.pks[a]], by[w.pks[b]])))
    return True


@harness
def x_load(env, model, parents, spec, target, mode=(), sort=False, lists=False):
    import copy
    w = World(env, "X06", model, parents, sort)
    mode = dict(mode)
    keep = mode.get("keep_ids", False)
    data = [{"val": env.int(f"lv{i}", -c.V, c.V) if sort else 100 + 7 * i, "key": LOADED + i} for i in range(len(spec))]
    given = structure(spec, data, keep, lists)
    kept = copy.deepcopy(structure(spec, [{"val": 0, "key": d["key"]} for d in data], keep, lists))
    t = None if target is None else w.held(target)
    res = env.call(w.M.objects.load_bulk, given, parent=t, **mode)
    c.outcome(env, res)
    rows = w.rows()
    env.observe("rows", rows)
    if overflow(res):
        env.reach("refused")
        env.require("X06", "a refused load changes nothing", c.same_rows(w.st.before, rows))
        if model.startswith("MP"):
            top = len(w.st.alpha) ** w.st.sl - 1
            first = len([p for p in spec if p is None])
            shape = Forest(spec)
            deepest = (w.f.depth(target) if target is not None else 0) + max(shape.depth(x) for x in shape.nodes())
            last = [mp.num(w.st, w.st.step[x]) + first > top for x in w.f.kids[target][-1:]]
            full = [len(shape.kids[x]) > top for x in shape.kids] + [deepest * w.st.sl > w.M._meta.get_field("path").max_length]
            env.require("X06", "refused although there is room for everything", Or(last + full))
        return
    env.require("X06", "load succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    for i, p in enumerate(spec):
        par = target if p is None else LOADED + p
        w.f.insert(LOADED + i, par, len(w.f.kids[par]))
        w.keys[LOADED + i] = (data[i]["val"], data[i]["key"])
    env.reach("loaded")
    if mode.get("bulk_create"):              # documented: deeper levels keep the order of the data
        w.as_given = [LOADED + i for i in range(len(spec))]
    w.st.several_steps = len(spec) > 1
    if not check_loaded(env, w, rows, {i: d["key"] for i, d in enumerate(data)}, res[1], "load"):
        return
    if keep:
        for i in range(len(spec)):
            env.require("X06", "keys kept", w.pks[LOADED + i] == LOAD_IDS[i])
    by = {r["id"]: r for r in rows}
    for i, d in enumerate(data):
        r = by[w.pks[LOADED + i]]
        env.require("X06", "loaded data", And(r["val"] == d["val"], r["key"] == d["key"]))
    for x in range(len(parents)):
        env.require("X06", "other nodes' data", And(by[PKS[x]]["val"] == w.st.val[x], by[PKS[x]]["key"] == w.st.key[x]))
    given2 = structure(spec, [{"val": 0, "key": d["key"]} for d in data], keep, lists)
    env.require("X06", "the structure handed in is not changed", given2 == kept and
                [sorted(d) for d in given] == [sorted(d) for d in given2])


def expect_dump(env, w, got, ks, keep, where="dump"):
    env.require("X06", f"{where}: number of entries", len(got) == len(ks))
    if len(got) != len(ks):
        return
    for d, x in zip(got, ks):
        key = w.M._meta.pk.attname
        names = {"data"} | ({key} if keep else set()) | ({"children"} if w.f.kids[x] else set())
        env.require("X06", f"{where}: parts of an entry", set(d) == names)
        if set(d) != names:
            continue
        if keep:
            env.require("X06", f"{where}: key", d[key] == PKS[x])
        env.require("X06", f"{where}: only the user's data", set(d["data"]) == {"val", "key"})
        if set(d["data"]) == {"val", "key"}:
            env.require("X06", f"{where}: data", And(d["data"]["val"] == w.st.val[x], d["data"]["key"] == w.st.key[x]))
        expect_dump(env, w, d.get("children", []), w.f.kids[x], keep, where)


@harness
def x_roundtrip(env, model, parents, branch, keep, dest, bulk=False, sort=False):
    """Dump a tree or branch, load it under another node (new keys), or into the emptied table (same keys)."""
    w = World(env, "X06", model, parents, sort)
    o = w.M.objects
    b = None if branch is None else w.held(branch)
    res = env.call(o.dump_bulk, parent=b, keep_ids=keep)
    env.require("X06", "dump succeeds", res[0] == "ok")
    if res[0] != "ok":
        c.outcome(env, res)
        return
    dumped = res[1]
    no_order = sort and kit_of(model).no_stored_order
    if not no_order:
        expect_dump(env, w, dumped, w.f.kids[None] if branch is None else [branch], keep)
        env.observe("dump", dumped)
    env.reach("dumped")
    kw = {"bulk_create": True} if bulk else {}
    nodes = w.f.order() if branch is None else w.f.subtree(branch)
    f0 = w.f.copy()
    if keep:
        (o.all() if branch is None else o.filter(pk=PKS[branch])).delete()
        w.f.remove(list(w.f.kids[None]) if branch is None else [branch])
        dest = None
    t = None if dest is None else w.held(dest)
    res = env.call(o.load_bulk, dumped, parent=t, keep_ids=keep, **kw)
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X06", "load succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = w.rows()
    if not no_order:
        env.observe("rows", rows)
    env.reach("round trip")
    shift = 0 if keep else LOADED
    w.st.several_steps = len(nodes) > 1
    for x in nodes:
        par = dest if x == branch or (branch is None and f0.parent(x) is None) else f0.parent(x) + shift
        w.f.insert(x + shift, par, len(w.f.kids[par]))
    if keep:
        w.moved, w.prev = branch, ({r["id"]: r for r in w.st.before} if sort else w.prev)
        env.require("X06", "reports the kept keys", sorted(res[1]) == sorted(PKS[x] for x in nodes))
        w.check(rows)
    else:
        ids = [r["id"] for r in rows if r["id"] not in PKS[:len(parents)]]
        env.require("X06", "reports the new keys", sorted(res[1]) == sorted(ids))
        copy_of = {}
        for x in nodes:
            got = [r["id"] for r in rows if r["id"] in ids and bool(r["key"] == w.st.key[x])]
            env.require("X06", "one copy of every node", len(got) == 1)
            if len(got) != 1:
                return
            w.pks[x + shift] = got[0]
            w.keys[x + shift] = w.keys[x]
        w.moved = None
        w.check(rows)
    by = {r["id"]: r for r in rows}
    for x in nodes:
        r = by[w.pks[x + shift]]
        env.require("X06", "data carried over", And(r["val"] == w.st.val[x], r["key"] == w.st.key[x]))


def tag_rows(env, through, col):
    return sorted([(r[col], r["tag_id"]) for r in env.rows(through)])


@harness
def x_tags(env, model, parents, branch, keep, dest, bulk=False, sort=False):
    """Nodes carry rows of a many-to-many relation: dumps name them and loads restore them."""
    from vp.vmodels.models import Tag
    w = World(env, "X06", model, parents, sort)
    o = w.M.objects
    through = w.M.tags.through
    col = w.M._meta.model_name + "_id"
    env.load(Tag, [{"id": i, "num": i} for i in (4, 6)])
    tags, links = {}, []
    for x in range(len(parents)):
        a, b = env.bool(f"a{x}"), env.bool(f"b{x}")
        tags[x] = [t for t, has in ((4, a), (6, b)) if has]
        links += [(PKS[x], t) for t in tags[x]]
    env.load(through, [{"id": i + 1, col: n, "tag_id": t} for i, (n, t) in enumerate(links)])
    res = env.call(o.dump_bulk, parent=None if branch is None else w.held(branch), keep_ids=keep)
    env.require("X06", "dump succeeds", res[0] == "ok")
    if res[0] != "ok":
        c.outcome(env, res)
        return
    dumped = res[1]
    nodes = w.f.order() if branch is None else w.f.subtree(branch)
    flat = []

    def walk(ds):
        for d in ds:
            flat.append(d["data"])
            walk(d.get("children", []))
    walk(dumped)
    env.require("X06", "one entry for every node", len(flat) == len(nodes))
    if len(flat) != len(nodes):
        return
    if not (sort and kit_of(model).no_stored_order):
        for d, x in zip(flat, nodes):
            env.require("X06", "related rows in the dump", sorted(int(t) for t in d["tags"]) == tags[x])
    if keep:
        (o.all() if branch is None else o.filter(pk=PKS[branch])).delete()
        env.require("X06", "links of removed nodes are removed",
                    tag_rows(env, through, col) == sorted((PKS[x], t) for x in w.f.nodes() if x not in nodes for t in tags[x]))
        dest = None
    res = env.call(o.load_bulk, dumped, parent=None if dest is None else w.held(dest), keep_ids=keep,
                   **({"bulk_create": True} if bulk else {}))
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X06", "load succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = env.rows(w.M)
    want = [(PKS[x], t) for x in w.f.nodes() for t in tags[x]]
    if not keep:
        for x in nodes:
            new = [r["id"] for r in rows if r["id"] not in PKS[:len(parents)] and bool(r["key"] == w.st.key[x])]
            env.require("X06", "one copy of every node", len(new) == 1)
            if len(new) != 1:
                return
            want += [(new[0], t) for t in tags[x]]
    env.require("X06", "related rows carried over", tag_rows(env, through, col) == sorted(want))
    env.reach("related rows")


@jobs("X06", db="pg", bounds="stored forests of at most 2 nodes (thorough 3) and loaded forests of at most 3 (thorough 4; sorted 2-3), round trips of "
      "forests of at most 3 (thorough 4) nodes; paths, intervals, labels, order fields and loaded values symbolic; every target and branch, with "
      "and without keys and bulk creation (in batches of 1, 2 and many); nodes that carry rows of a "
      "many-to-many relation (any subset of two related rows each; forests of at most 2 nodes and two of 3, thorough 3); full levels and too-deep data on a model with 3 places per level and 3 levels")
def x06(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        modes = [(), (("keep_ids", True),)]
        if m.startswith("MP"):
            modes += [(("bulk_create", True),), (("bulk_create", True), ("keep_ids", True))]
        specs = shapes(4 if big else 3) if not srt else shapes(3 if big else 2) + [(None, None, 0), (None, None, 1), (None, 0, 0)]
        for s in [()] + shapes(2 if not big else 3):
            for t in [None] + list(range(len(s))):
                for sp in specs:
                    for md in modes:
                        if srt and len(sp) == 3 and len(s) == 2 and not big:
                            continue
                        if len(s) == 2 and md and not md[0][0] == "bulk_create":
                            continue
                        out.append(("x_load", dict(model=m, parents=s, spec=sp, target=t, mode=md, sort=srt,
                                                   lists=len(sp) == 2)))
        if m.startswith("MP"):
            for s, t in (((), None), ((None,), 0)):
                for sp in specs + [(None, 0, 0, 1), (None, 0, 0, 0)][:1 if srt and not big else 2]:
                    for size in (1, 2):
                        if len(sp) > size:
                            out.append(("x_load", dict(model=m, parents=s, spec=sp, target=t, sort=srt, mode=(("bulk_create", True), ("batch_size", size)))))
        for s in shapes(4 if big else 3):
            if srt and len(s) == 3 and not big and s not in ((None, 0, 0), (None, None, 0), (None, 0, 1)):
                continue
            for b in [None] + list(range(len(s))):
                for bulk in ((False, True) if m.startswith("MP") else (False,)):
                    out.append(("x_roundtrip", dict(model=m, parents=s, branch=b, keep=True, dest=None, bulk=bulk, sort=srt)))
                    for d in ([None] + list(range(len(s))) if len(s) < 3 or big else [None, len(s) - 1]):
                        if not (srt and len(s) == 3):
                            out.append(("x_roundtrip", dict(model=m, parents=s, branch=b, keep=False, dest=d, bulk=bulk, sort=srt)))
    for m in [k + "M" for k in ("MP", "NS", "AL", "LT")] + [k + "SM" for k in ("MP", "NS", "AL", "LT")]:
        srt = "S" in m[2:]
        for s in shapes(3 if big else 2) + [(None, 0, 0), (None, 0, 1)] * (not srt and not big):
            for b in [None] + list(range(len(s))):
                for bulk in ((False, True) if m.startswith("MP") else (False,)):
                    out.append(("x_tags", dict(model=m, parents=s, branch=b, keep=True, dest=None, bulk=bulk, sort=srt)))
                    if len(s) < 3 or b in (None, 0):
                        out.append(("x_tags", dict(model=m, parents=s, branch=b, keep=False, dest=None if b is None else 0, bulk=bulk, sort=srt)))
    return out + tiny_loads(big)


def tiny_loads(big):
    """More children than a level holds, or more levels than a path holds."""
    out = []
    for m in ("MPTiny", "MPTinyS"):
        for s in [(), (None,), (None, None), (None, 0)]:
            for t in [None] + list(range(len(s))):
                for sp in [(None,) * 3, (None,) * 4, (None, 0, 0, 0), (None, 0, 0, 0, 0), (None, 0, 1), (None, 0, 1, 2), (None, None, 1, 2)]:
                    if m == "MPTinyS" and sp[1:2] == (None,) and len(sp) > 3:
                        continue
                    for md in ((), (("bulk_create", True),)):
                        out.append(("x_load", dict(model=m, parents=s, spec=sp, target=t, mode=md, sort=m == "MPTinyS")))
    return out


witnesses("X06", "loaded", "refused", "dumped", "round trip", "related rows")


# ===================================================================== annotated lists
def nesting(entries):
    """What the documented template makes of the marks: the nested lists of keys, or None when they do not balance."""
    top = []
    stack = []                      # open lists; the last item of each is open too
    for pk, info in entries:
        if info["open"]:
            new = []
            if stack:
                stack[-1][-1][1] = new
            else:
                top.append(new)
            stack.append(new)
        elif not stack:
            return None
        stack[-1].append([pk, None])
        for _ in info["close"]:
            if not stack:
                return None
            stack.pop()
    return None if stack or len(top) > 1 else (top[0] if top else [])


def expected_nesting(f, ks, limit):
    return [[PKS[x], expected_nesting(f, f.kids[x], limit) if f.kids[x] and (limit is None or f.depth(x) < limit) else None]
            for x in ks]


def check_annotated(env, f, got, ks, limit, label):
    """got: result of get_annotated_list; ks: the expected first-level nodes."""
    want = [y for x in ks for y in f.subtree(x) if limit is None or f.depth(y) <= limit]
    env.require("X07", f"{label}: nodes in depth-first order", [o.pk for o, _ in got] == [PKS[y] for y in want])
    if len(got) != len(want):
        return
    base = f.depth(want[0]) if want else 0
    env.require("X07", f"{label}: levels", [i["level"] for _, i in got] == [f.depth(y) - base for y in want])
    env.require("X07", f"{label}: closing marks are numbered", all(list(i["close"]) == list(range(len(i["close"]))) for _, i in got))
    env.require("X07", f"{label}: marks nest as the tree does",
                nesting([(o.pk, i) for o, i in got]) == expected_nesting(f, [x for x in ks if x in want], limit))


@harness
def x_annotated(env, model, parents, branch, limits=(None, 0, 1, 2, 3, 4), sort=False):
    M, st = state_of(env, model, parents, sort)
    f, o = st.f, M.objects
    for d in limits:
        node = None if branch is None else st.get(branch)
        res = env.call(o.get_annotated_list, node, d) if d is not None else env.call(o.get_annotated_list, node)
        env.require("X07", f"listing limited to {d} succeeds", res[0] == "ok")
        if res[0] == "ok":
            env.observe(f"list {d}", [[x.pk, dict(i, open=bool(i["open"]))] for x, i in res[1]])
            check_annotated(env, f, res[1], f.kids[None] if branch is None else [branch], d, f"limit {d}")
    node = None if branch is None else st.get(branch)
    got = o.get_annotated_list_qs(o.get_tree(node))
    check_annotated(env, f, got, f.kids[None] if branch is None else [branch], None, "of a tree")
    if branch is not None:
        got = o.get_annotated_list_qs(o.get_descendants(node))
        check_annotated(env, f, got, f.kids[branch], None, "of the descendants")
    env.reach("listed")
    if any(len(i["close"]) > 1 for _, i in got):
        env.reach("several levels closed at once")


STEEP = [(None, 0, 1, 2, None), (None, 0, 1, 2, 3, 0), (None, 0, 1, 2, 3, None)]


@jobs("X07", db="pg", bounds="forests of at most 4 (thorough 5) nodes with symbolic paths, intervals, orders and labels, sorted ones at most 3 "
      "(thorough 4) with symbolic order fields; three forests of 5 and 6 nodes that close three or four levels at once; every branch and the whole tree; depth limits none and 0 to 4")
def x07(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for s in [()] + shapes((4 if big else 3) if srt else (5 if big else 4)):
            for b in [None] + list(range(len(s))):
                out.append(("x_annotated", dict(model=m, parents=s, branch=b, sort=srt)))
        for s in STEEP:
            out.append(("x_annotated", dict(model=m, parents=s, branch=None, limits=(None, 3), sort=srt)))
    return out


witnesses("X07", "listed", "several levels closed at once")


# ===================================================================== the form
def form_of(M):
    from treebeard.forms import movenodeform_factory
    return movenodeform_factory(M, fields=["val", "key"])


def placed(f, n, ref, pos, sort):
    """The forest after the form's request; n is already in it, or is new.  Returns the new forest."""
    f = f.copy()
    known = n in f.nodes()
    if sort:
        par = ref if pos == "sorted-child" or ref is None else f.parent(ref)
        if known and par == f.parent(n):
            return f
        if known:
            f.siblings(n).remove(n)
        f.insert(n, par, 0)
    elif ref is None:
        if known:
            f.move(n, f.kids[None][0], "first-sibling")
        else:
            f.insert(n, None, len(f.kids[None]))
    elif known:
        f.move(n, ref, pos)
    elif pos == "first-child":
        f.insert(n, ref, 0)
    else:
        f.place(n, ref, pos)
    return f


def form_world(env, model, parents, sort, subs):
    """subs: the nodes of a multi-table child class, whose form is used then."""
    if subs is None:
        return World(env, "X08", model, parents, sort)
    from vp.harness.family import Family
    return Family(env, "X08", model, parents, subs, "sub", "sub", sort)


@harness
def x_form(env, model, parents, node, ref, pos, sort=False, subs=None):
    w = form_world(env, model, parents, sort, subs)
    F = form_of(w.M)
    held = None if node is None else w.held(node)
    nv = env.int("nv", -c.V, c.V) if sort else 7
    two = sort and len(w.M.node_order_by) > 1
    nk = env.int("nk", -c.V, c.V) if two else w.st.key[node] if sort and node is not None else 8
    data = {"val": nv, "key": nk, "treebeard_position": pos, "treebeard_ref_node": "" if ref is None else str(PKS[ref])}
    form = F(data=data, instance=held)
    own = node is not None and ref is not None and ref in w.f.subtree(node)
    choices = [(str(v), str(l).replace("\xa0", "&nbsp;")) for v, l in form.fields["treebeard_ref_node"].choices]
    offered = [v for v, _ in choices]
    hidden = w.f.subtree(node) if node is not None else []
    expect = [""] + [str(PKS[x]) for x in w.f.order() if x not in hidden]
    if sort and kit_of(model).no_stored_order:
        env.require("X08", "reference nodes offered", sorted(offered) == sorted(expect))
    else:
        env.require("X08", "reference nodes offered", offered == expect)
    if sorted(offered) == sorted(expect):
        back = {str(PKS[x]): x for x in w.f.nodes()}
        env.require("X08", "choices are indented by depth", all(
            l == "&nbsp;" * 4 * (w.f.depth(back[v]) - 1) + l.replace("&nbsp;", "") and v in l for v, l in choices if v))
    names = ["sorted-child", "sorted-sibling"] if sort else ["first-child", "left", "right"]
    env.require("X08", "positions offered", [v for v, _ in form.fields["treebeard_position"].choices] == names)
    ok = form.is_valid()
    if own:
        env.require("X08", "own branch refused", not ok)
        env.require("X08", "a refused form changes nothing", c.same_rows(w.st.before, w.rows()))
        env.reach("refused")
        return
    env.require("X08", "offered choices accepted", ok)
    if not ok:
        return
    res = env.call(form.save)
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X08", "save succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = w.rows()
    env.observe("rows", rows)
    n = NEWID if node is None else node
    w.f = placed(w.f, n, ref, pos, sort)
    if node is None:
        w.pks[n] = res[1].pk
    w.keys[n] = (nv, nk)
    w.moved = n
    if subs is not None and node is None:
        w.subs.add(n)
        w.extra[n] = 0
    w.check(rows)
    env.reach("created" if node is None else "moved")
    for x in w.f.nodes():
        r = [r for r in rows if r["id"] == w.pks[x]][0]
        env.require("X08", "data", And(r["val"] == w.keys[x][0], r["key"] == w.keys[x][1]))
    fresh(env, "X08", w, n, res[1], rows, "saved object")


@harness
def x_form_initial(env, model, parents, node, sort=False, subs=None):
    """What the form shows describes the node's place, and submitting it as shown changes nothing but the data."""
    w = form_world(env, model, parents, sort, subs)
    F = form_of(w.M)
    form = F(instance=w.held(node))
    pos, ref = form.initial["treebeard_position"], form.initial["treebeard_ref_node"]
    back = {PKS[x]: x for x in w.f.nodes()}
    r = None if ref is None else back[ref.pk]
    env.observe("initial", [pos, None if ref is None else ref.pk])
    env.require("X08", "shown reference is not in the node's branch", r is None or r not in w.f.subtree(node))
    if r is None or r not in w.f.subtree(node):
        env.require("X08", "shown place is the node's place", placed(w.f, node, r, pos, sort).kids == w.f.kids)
    env.require("X08", "shown data", And(form.initial["val"] == w.st.val[node], form.initial["key"] == w.st.key[node]))
    data = {"val": form.initial["val"], "key": 77, "treebeard_position": pos, "treebeard_ref_node": "" if r is None else str(PKS[r])}
    form = F(data=data, instance=w.held(node))
    ok = form.is_valid()
    env.require("X08", "accepted as shown", ok)
    if not ok:
        return
    res = env.call(form.save)
    c.outcome(env, res)
    env.require("X08", "save succeeds", res[0] == "ok")
    rows = w.rows()
    env.observe("rows", rows)
    for a, b in zip(w.st.before, rows):
        env.require("X08", "only the edited data changes", And([a[k] == b[k] for k in a if not (k == "key" and a["id"] == PKS[node])]))
        if a["id"] == PKS[node]:
            env.require("X08", "edited data stored", b["key"] == 77)
    env.reach("shown")


@jobs("X08", db="pg", bounds="forests of at most 3 (thorough 4) nodes, sorted ones at most 2 (thorough 3; also three siblings, and two order fields, "
      "one descending); new and every existing node, every reference node (its own branch included) and position; symbolic stored positions, and on sorted models symbolic stored and submitted order fields; "
      "plus: every node's form submitted as shown with one other field edited")
def x08(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for s in [()] + shapes((4 if big else 3) if not srt else (3 if big else 2)):
            for n in [None] + list(range(len(s))):
                for r in [None] + list(range(len(s))):
                    for pos in (["sorted-child", "sorted-sibling"] if srt else ["first-child", "left", "right"]):
                        if srt and r is None and pos == "sorted-sibling" and len(s) > 1:
                            continue
                        out.append(("x_form", dict(model=m, parents=s, node=n, ref=r, pos=pos, sort=srt)))
                if n is not None:
                    out.append(("x_form_initial", dict(model=m, parents=s, node=n, sort=srt)))
    for m in SORTED + ["MP1SS", "NSSS", "ALSS", "LTSS"]:
        for s in shapes(2) if m not in SORTED else ((None, None, None), (None, 0, 0, 0)):
            for n in [None] + list(range(len(s))):
                for r, pos in [(None, "sorted-child"), (0, "sorted-child"), (0, "sorted-sibling")]:
                    if big or m not in SORTED or n is not None and len(s) - n < 4 - (s[1] is None) and (r, pos) == (s[1], "sorted-child"):
                        out.append(("x_form", dict(model=m, parents=s, node=n, ref=r, pos=pos, sort=True)))
    for m in ["MPI", "NSI", "ALI", "LTI", "MPSI", "NSSI", "ALSI", "LTSI"]:
        srt = m[2] == "S"
        for s in shapes(3 if big and not srt else 2):
            for k in range(1 << len(s)):
                subs = [x for x in range(len(s)) if k >> x & 1]
                for n in [None] + subs:
                    for r in [None] + list(range(len(s))):
                        for pos in (["sorted-child", "sorted-sibling"] if srt else ["first-child", "left", "right"]):
                            if srt and r is None and pos == "sorted-sibling" and len(s) > 1:
                                continue
                            out.append(("x_form", dict(model=m, parents=s, node=n, ref=r, pos=pos, sort=srt, subs=subs)))
                    if n is not None:
                        out.append(("x_form_initial", dict(model=m, parents=s, node=n, sort=srt, subs=subs)))
    for m in ["MP1Proxy", "NSProxy", "ALProxy", "LTProxy"]:
        for s in [()] + shapes(2):
            for n in [None] + list(range(len(s))):
                for r in [None] + list(range(len(s))):
                    for pos in ["first-child", "left", "right"]:
                        out.append(("x_form", dict(model=m, parents=s, node=n, ref=r, pos=pos)))
                if n is not None:
                    out.append(("x_form_initial", dict(model=m, parents=s, node=n)))
    return out


witnesses("X08", "created", "moved", "refused", "shown")
