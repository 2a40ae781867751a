"""Materialized path: one API step from an arbitrary valid pre-state (shape concrete, path steps symbolic)."""
from vp.env import And, Iff, Implies, Not, Or
from vp.harness import META, harness, jobs
from vp.harness import common as c
from vp.sym import SymStr
from vp.trees import CHILD_POS, MOVE_POS, PKS, SIBLING_POS, Forest, forests, shapes

V = 50      # magnitude of symbolic sort keys and payloads


def models():
    from vp.vmodels import models as m
    return m


class State:
    """A valid tree: `forest` of indices; row i has pk PKS[i] and a path made of symbolic steps."""

    def __init__(self, env, model, parents, sort=False, wild=None):
        self.env, self.model, self.f = env, model, Forest(parents)
        self.sl, self.alpha = model.steplen, model.alphabet
        self.zero = self.alpha[0] * self.sl
        self.step, self.path = {}, {}
        self.val, self.key = {}, {}
        for x in self.f.order():
            p = self.f.parent(x)
            s = env.str(f"s{x}", self.sl, self.alpha if self.sl > 1 else self.alpha[1:])
            if self.sl > 1:
                env.assume(s != self.zero)
            sib = self.f.siblings(x)
            i = sib.index(x)
            if i:
                env.assume(self.step[sib[i - 1]] < s)
            self.step[x] = s
            self.path[x] = s if p is None else self.path[p] + s
            if sort:
                self.val[x] = env.int(f"v{x}", -V, V)
                self.key[x] = env.int(f"k{x}", -V, V) if len(model.node_order_by) > 1 else 10 + x
                if i and sort != "unsorted":
                    env.assume(le(self, sib[i - 1], x))
            else:
                self.val[x], self.key[x] = 100 + x, 10 + x
        self.table = model.objects.tree_model
        # wild: stored depths and counts are arbitrary (the node `wild` itself excepted)
        self.wild = {}
        for x in self.f.order():
            self.wild[x] = (self.f.depth(x), len(self.f.kids[x]))
            if wild is not None and (wild is True or x != wild):
                self.wild[x] = (env.int(f"d{x}", 0, 9), env.int(f"n{x}", 0, 9))
        env.load(self.table, [self.row(x) for x in self.f.order()])
        self.before = env.rows(self.table)

    def row(self, x):
        return {self.pkcol(): PKS[x], "path": self.path[x], "depth": self.wild[x][0], "numchild": self.wild[x][1],
                "val": self.val[x], "key": self.key[x]}

    def pkcol(self):
        return "id"

    def get(self, x, model=None):
        return (model or self.model).objects.get(pk=PKS[x])

    # ---- sibling positions as numbers
    def maxpos(self):
        return self.alpha[-1] * self.sl


def le(st, a, b, strict=False):
    """a sorts no later than b by node_order_by (val ascending, then key descending if declared)."""
    two = len(st.model.node_order_by) > 1
    if two:
        return Or(st.val[a] < st.val[b],
                  And(st.val[a] == st.val[b], st.key[a] > st.key[b] if strict else st.key[a] >= st.key[b]))
    return st.val[a] < st.val[b] if strict else st.val[a] <= st.val[b]


def stepnum_next(st, a, b):
    """step b is the number right after step a (equal width)"""
    n = st.model.numconv_obj()
    return num(st, b) == num(st, a) + 1


def num(st, s):
    """Numeric value of a step, independent of the code under test."""
    r = 0
    for i in range(len(s)):
        r = r * len(st.alpha) + digit(st.alpha, s[i])
    return r


def digit(alpha, ch):
    if isinstance(ch, str):
        return alpha.index(ch)
    from vp import sym
    c = ch.cs[0]
    if type(c) is int:
        return alpha.index(chr(c))
    return sym.table_lookup([(ord(a), i) for i, a in enumerate(alpha)], c)


def legal_steps(st, path):
    """every step of the path is a non-zero word over the alphabet, and the length is a multiple of steplen"""
    if len(path) == 0 or len(path) % st.sl:
        return False
    out = []
    for i in range(len(path)):
        ch = path[i]
        if isinstance(ch, str):
            out.append(ch in st.alpha)
        else:
            c = ch.cs[0]
            out.append(chr(c) in st.alpha if type(c) is int else Or([c == ord(a) for a in st.alpha]))
    for i in range(0, len(path), st.sl):
        out.append(path[i:i + st.sl] != st.zero)
    return And(out)


def check_structure(env, prop, st, rows, forest, pk=None):
    """rows encode exactly `forest` (ids mapped to pks by pk())."""
    pk = pk or (lambda x: PKS[x])
    by = {r["id"]: r for r in rows}
    want = {pk(x) for x in forest.nodes()}
    env.require(prop, "nodes present", set(by) == want)
    if set(by) != want:
        return by
    prev = None
    for x in forest.order():
        r = by[pk(x)]
        d = forest.depth(x)
        env.require(prop, "depth", r["depth"] == d)
        env.require(prop, "numchild", r["numchild"] == len(forest.kids[x]))
        env.require(prop, "path length", len(r["path"]) == d * st.sl)
        env.require(prop, "path alphabet", legal_steps(st, r["path"]))
        p = forest.parent(x)
        if p is not None:
            env.require(prop, "path prefix is the parent's path", r["path"][: -st.sl] == by[pk(p)]["path"])
        if prev is not None:
            env.require(prop, "depth-first path order", prev["path"] < r["path"])
        prev = r
    return by


def check_payload(env, prop, st, rows, skip=()):
    for r in rows:
        for x in st.f.nodes():
            if PKS[x] == r["id"]:
                env.require(prop, "data unchanged", And(r["val"] == st.val[x], r["key"] == st.key[x]))


def same_rows(a, b):
    if len(a) != len(b):
        return False
    return And([x[c] == y[c] for x, y in zip(a, b) for c in x] + [x["id"] == y["id"] for x, y in zip(a, b)])


def outcome(env, res):
    env.observe("outcome", res[0] if res[0] == "ok" else type(res[1]).__name__)


NEWID = 90


def overflow_justified(st, sib, j, top=None):
    """No free position at or to the right of the insertion point: the siblings from index j on are packed against the end."""
    n = len(sib)
    if n == 0:
        return False
    top = len(st.alpha) ** st.sl - 1
    last = num(st, st.step[sib[-1]])
    if j >= n:
        return last == top
    return And(last == top, num(st, st.step[sib[j]]) == top - (n - 1 - j))


def depth_overflow(st, d):
    return d * st.sl > st.model._meta.get_field("path").max_length


# ===================================================================== insertions
@harness
def mp_insert(env, model, parents, op, target=None, pos=None, mode="kwargs"):
    M = getattr(models(), model)
    st = State(env, M, parents)
    f = st.f.copy()
    data = {"val": 7, "key": 8}
    kw = {"instance": M(**data)} if mode == "instance" else {"create_kwargs": data}
    if op == "root":
        par, j = None, len(f.kids[None])
        res = env.call(M.objects.add_root, **kw)
        f.insert(NEWID, None, j)
    elif op == "child":
        par, j = target, len(f.kids[target])
        tobj = st.get(target)
        res = env.call(M.objects.add_child, tobj, **kw)
        f.insert(NEWID, target, j)
    else:
        tobj = st.get(target)
        res = env.call(M.objects.add_sibling, tobj, pos, **kw)
        f.place(NEWID, target, pos or "last-sibling")
        par = f.parent(NEWID)
        j = f.kids[par].index(NEWID)
    finish_insert(env, st, f, res, par, j, "M01")


def finish_insert(env, st, f, res, par, j, prop):
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    new = {r["id"] for r in rows} - {PKS[x] for x in st.f.nodes()}
    for P in (prop, "M08"):
        if res[0] == "ok":
            if P == prop:
                env.reach("inserted")
            env.require(P, "one new row", len(new) == 1)
            if len(new) != 1:
                continue
            npk = new.pop() if P == "M08" else list(new)[0]
            by = check_structure(env, P, st, rows, f, lambda x: npk if x == NEWID else PKS[x])
            check_payload(env, P, st, rows)
            env.require(P, "new node's data", And(by[npk]["val"] == 7, by[npk]["key"] == 8))
            env.require(P, "returned object is the new node", res[1].pk == npk)
            env.require(P, "path fits the column",
                        len(by[npk]["path"]) <= st.model._meta.get_field("path").max_length)
            depth_ok = not depth_overflow(st, f.depth(NEWID))
            env.require(P, "a path longer than the column is refused", depth_ok)
        else:
            env.reach("refused")
            env.require(P, "only a full level refuses", type(res[1]).__name__ == "PathOverflow")
            why = Or(overflow_justified(st, st.f.kids[par], j), depth_overflow(st, f.depth(NEWID)))
            env.require(P, "refused although there is room", why)
            env.require(P, "refused insertion changed the tree", same_rows(st.before, rows))


# ===================================================================== moves
@harness
def mp_move(env, model, parents, node, target, pos, same=False):
    M = getattr(models(), model)
    st = State(env, M, parents)
    f = st.f.copy()
    nobj = st.get(node)
    tobj = nobj if (same and node == target) else st.get(target)
    res = env.call(M.objects.move, nobj, tobj, pos)
    f.move(node, target, pos or "last-sibling")
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    par = f.parent(node)
    rest = [x for x in f.kids[par] if x != node]
    j = f.kids[par].index(node)
    deepest = max(f.depth(x) for x in f.subtree(node))
    for P in ("M02", "M08"):
        if res[0] == "ok":
            env.reach("moved")
            check_structure(env, P, st, rows, f)
            check_payload(env, P, st, rows)
            env.require(P, "a path longer than the column is refused", not depth_overflow(st, deepest))
        else:
            env.reach("refused")
            env.require(P, "only a full level refuses", type(res[1]).__name__ == "PathOverflow")
            env.require(P, "refused although there is room",
                        Or(move_overflow_justified(st, node, target, pos or "last-sibling", f), depth_overflow(st, deepest)))
            env.require(P, "refused move changed the tree", same_rows(st.before, rows))


def move_overflow_justified(st, node, target, pos, f):
    """Positions from the insertion point to the end of the level are all taken (the moved node may be one of them)."""
    par = f.parent(node)
    sib = st.f.kids[par]                       # before the move, node possibly included
    if pos in CHILD_POS:
        j = 0 if pos == "first-child" else len(sib)
    else:
        i = sib.index(target)
        j = {"first-sibling": 0, "left": i, "right": i + 1, "last-sibling": len(sib)}[pos]
    return overflow_justified(st, sib, j)


def move_pairs(parents):
    f = Forest(parents)
    for n in f.nodes():
        sub = set(f.subtree(n))
        for t in f.nodes():
            for pos in MOVE_POS:
                if t in sub and not (t == n and pos in SIBLING_POS):
                    continue
                yield n, t, pos


def insert_jobs(model, parents, positions=True, mode="kwargs"):
    out = [("mp_insert", dict(model=model, parents=parents, op="root", mode=mode))]
    for t in range(len(parents)):
        out.append(("mp_insert", dict(model=model, parents=parents, op="child", target=t, mode=mode)))
        if positions:
            for pos in SIBLING_POS:
                out.append(("mp_insert", dict(model=model, parents=parents, op="sibling", target=t, pos=pos, mode=mode)))
    return out


@jobs("M01", bounds="every forest shape of at most 5 nodes (quick; 6 in thorough) with one symbolic character per step, at "
      "most 3 nodes with two characters per step; every target and position; step values arbitrary (36-letter alphabet)")
def m01(tier):
    n1, n2 = (5, 3) if tier == "quick" else (6, 4)
    out = [("mp_insert", dict(model="MP1", parents=(), op="root"))]
    for s in shapes(n1):
        out += insert_jobs("MP1", s)
    for s in shapes(n2):
        out += insert_jobs("MP2", s)
    for s in shapes(2):
        out += insert_jobs("MP1", s, mode="instance")
        out.append(("mp_insert", dict(model="MP1", parents=s, op="sibling", target=0, pos=None)))
    return out


META["M01"]["witnesses"] = ["inserted", "refused"]


@jobs("M02", bounds="every forest shape of at most 5 nodes (quick; 6 in thorough) with one symbolic character per step, at "
      "most 3 nodes (4) with two characters per step; every node, target outside the branch, and position")
def m02(tier):
    n1, n2 = (5, 3) if tier == "quick" else (6, 4)
    out = []
    for model, n in (("MP1", n1), ("MP2", n2)):
        for s in shapes(n):
            for a, b, pos in move_pairs(s):
                out.append(("mp_move", dict(model=model, parents=s, node=a, target=b, pos=pos)))
    for s in shapes(2):
        out.append(("mp_move", dict(model="MP1", parents=s, node=0, target=0, pos=None)))
        for pos in SIBLING_POS:
            out.append(("mp_move", dict(model="MP1", parents=s, node=0, target=0, pos=pos, same=True)))
    return out


META["M02"]["witnesses"] = ["moved", "refused"]


# ===================================================================== deletion
@harness
def mp_delete(env, model, parents, how, node=None, refs=False):
    M = getattr(models(), model)
    st = State(env, M, parents)
    table = st.table
    f = st.f.copy()
    ref = models().MPRef
    if refs:
        env.load(ref, [{"id": i + 1, "node_id": PKS[x]} for i, x in enumerate(st.f.order())])
    what, chosen = c.selection(env, st, M, how, node)
    res = env.call(what.delete)
    gone = f.remove(chosen)
    outcome(env, res)
    rows = env.rows(table)
    env.observe("rows", rows)
    env.require("M03", "deletion succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    if gone and f.nodes():
        env.reach("some removed, some kept")
    check_structure(env, "M03", st, rows, f)
    check_payload(env, "M03", st, rows)
    for r in rows:
        for x in f.nodes():
            if PKS[x] == r["id"]:
                env.require("M03", "kept node keeps its path", r["path"] == st.path[x])
    total, per = res[1]
    label = table._meta.label
    env.observe("count", [total, per])
    env.require("M03", "reported count", per.get(label, 0) == len(gone))
    if how == "joined":
        left = sorted(r["node_id"] for r in env.rows(getattr(models(), model + "Note")))
        env.require("M03", "rows referring to removed nodes", left == sorted(2 * [PKS[x] for x in f.nodes()]))
        env.require("M03", "reported total", total == 3 * len(gone))
    elif refs:
        left = {r["node_id"] for r in env.rows(ref)}
        env.require("M03", "rows referring to removed nodes", left == {PKS[x] for x in f.nodes()})
    else:
        env.require("M03", "reported total", total == len(gone))


@jobs("M03", bounds="every forest shape of at most 4 nodes (quick; 5 in thorough), every single node, every subset of nodes, "
      "the whole table; with and without rows of another table referring to the nodes; step values arbitrary; querysets of children, descendants, siblings, "
      "ancestors, roots, combined, excluding, reversed and joined ones, with related or only some columns loaded (3 nodes, joined 2)")
def m03(tier):
    n = 4 if tier == "quick" else 5
    out = []
    out += c.all_deletes("mp", "MP1", n, n - 1, "MPA")
    for s in shapes(n - 1):
        out.append(("mp_delete", dict(model="MP2", parents=s, how="subset")))
        out.append(("mp_delete", dict(model="MP1", parents=s, how="subset", refs=True)))
    return out


META["M03"]["witnesses"] = ["some removed, some kept"]


# ===================================================================== sorted trees
def check_sorted(env, prop, st, rows, f, pk, keys):
    """rows encode the parent relation of f; siblings are in declared order and old relative order is kept."""
    by = {r["id"]: r for r in rows}
    want = {pk(x) for x in f.nodes()}
    env.require(prop, "nodes present", set(by) == want)
    if set(by) != want:
        return
    for x in f.nodes():
        r = by[pk(x)]
        d = f.depth(x)
        p = f.parent(x)
        env.require(prop, "depth", r["depth"] == d)
        env.require(prop, "numchild", r["numchild"] == len(f.kids[x]))
        env.require(prop, "path length", len(r["path"]) == d * st.sl)
        env.require(prop, "path alphabet", legal_steps(st, r["path"]))
        env.require(prop, "data unchanged", And(r["val"] == keys[x][0], r["key"] == keys[x][1]))
        if p is not None:
            env.require(prop, "path prefix is the parent's path", r["path"][: -st.sl] == by[pk(p)]["path"])
    for p, ks in f.kids.items():
        for i, a in enumerate(ks):
            for b in ks[:i]:
                ra, rb = by[pk(a)], by[pk(b)]
                env.require(prop, "paths distinct", ra["path"] != rb["path"])
                env.require(prop, "declared order", Implies(ra["path"] < rb["path"], key_le(st, keys[a], keys[b])))
                env.require(prop, "declared order", Implies(rb["path"] < ra["path"], key_le(st, keys[b], keys[a])))


def key_le(st, a, b):
    if len(st.model.node_order_by) > 1:
        return Or(a[0] < b[0], And(a[0] == b[0], a[1] >= b[1]))
    return a[0] <= b[0]


def check_relative(env, prop, st, rows, f, moved):
    """Nodes other than `moved` keep their relative order inside each sibling group."""
    by = {r["id"]: r for r in rows}
    for p, ks in f.kids.items():
        old = [x for x in st.f.order() if x in ks and x != moved]
        for a, b in zip(old, old[1:]):
            if PKS[a] in by and PKS[b] in by:
                env.require(prop, "relative order kept", by[PKS[a]]["path"] < by[PKS[b]]["path"])


@harness
def mp_sorted_add(env, model, parents, op, target=None, mode="kwargs"):
    M = getattr(models(), model)
    st = State(env, M, parents, sort=True)
    f = st.f.copy()
    two = len(M.node_order_by) > 1
    nv, nk = env.int("nv", -V, V), (env.int("nk", -V, V) if two else 8)
    data = {"val": nv, "key": nk}
    kw = {"instance": M(**data)} if mode == "instance" else {"create_kwargs": data}
    if op == "root":
        par = None
        res = env.call(M.objects.add_root, **kw)
    elif op == "child":
        par = target
        res = env.call(M.objects.add_child, st.get(target), **kw)
    else:
        par = f.parent(target)
        res = env.call(M.objects.add_sibling, st.get(target), "sorted-sibling" if op == "sibling" else None, **kw)
    sib = list(f.kids[par])
    f.insert(NEWID, par, 0)
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    keys = {x: (st.val[x], st.key[x]) for x in st.f.nodes()}
    keys[NEWID] = (nv, nk)
    new = {r["id"] for r in rows} - {PKS[x] for x in st.f.nodes()}
    for P in ("M04", "M08"):
        if res[0] == "ok":
            env.reach("inserted")
            env.require(P, "one new row", len(new) == 1)
            if len(new) != 1:
                continue
            npk = list(new)[0]
            check_sorted(env, P, st, rows, f, lambda x: npk if x == NEWID else PKS[x], keys)
            check_relative(env, P, st, rows, f, NEWID)
            env.require(P, "returned object is the new node", res[1].pk == npk)
        else:
            env.reach("refused")
            env.require(P, "only a full level refuses", type(res[1]).__name__ == "PathOverflow")
            env.require(P, "refused although there is room",
                        Or(depth_overflow(st, f.depth(NEWID)), sorted_full(st, sib, keys, NEWID)))
            env.require(P, "refused insertion changed the tree", same_rows(st.before, rows))


def sorted_full(st, sib, keys, new):
    """No free position from the earliest place the order allows: some legal insertion index is packed to the end."""
    alts = []
    for j in range(len(sib) + 1):
        ok = [key_le(st, keys[s], keys[new]) for s in sib[:j]] + [key_le(st, keys[new], keys[s]) for s in sib[j:]]
        alts.append(And(overflow_justified(st, sib, j), And(ok)))
    return Or(alts)


@harness
def mp_sorted_move(env, model, parents, node, target, pos, edited=False):
    M = getattr(models(), model)
    st = State(env, M, parents, sort=True)
    f = st.f.copy()
    obj = st.get(node)
    if edited:
        c.edit_keys(env, st, node, obj, M)
    res = env.call(M.objects.move, obj, st.get(target), pos)
    par = target if pos == "sorted-child" else st.f.parent(target)
    sib = list(st.f.kids[par])
    if par != st.f.parent(node):
        f.siblings(node).remove(node)
        f.insert(node, par, 0)
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    keys = {x: (st.val[x], st.key[x]) for x in st.f.nodes()}
    deepest = max(f.depth(x) for x in f.subtree(node))
    for P in ("M04", "M08"):
        if res[0] == "ok":
            env.reach("moved")
            check_sorted(env, P, st, rows, f, lambda x: PKS[x], keys)
            check_relative(env, P, st, rows, f, node)
            env.require(P, "a path longer than the column is refused", not depth_overflow(st, deepest))
        else:
            env.reach("refused")
            env.require(P, "only a full level refuses", type(res[1]).__name__ == "PathOverflow")
            env.require(P, "refused although there is room", Or(depth_overflow(st, deepest), sorted_full(st, sib, keys, node)))
            env.require(P, "refused move changed the tree", same_rows(st.before, rows))


def sorted_jobs(prefix, model, parents, moves=True):
    out = [(prefix + "_sorted_add", dict(model=model, parents=parents, op="root"))]
    f = Forest(parents)
    for t in range(len(parents)):
        out.append((prefix + "_sorted_add", dict(model=model, parents=parents, op="child", target=t)))
        out.append((prefix + "_sorted_add", dict(model=model, parents=parents, op="sibling", target=t)))
    if moves:
        for n in f.nodes():
            sub = set(f.subtree(n))
            for t in f.nodes():
                for pos in ("sorted-sibling", "sorted-child"):
                    if t in sub and not (t == n and pos == "sorted-sibling"):
                        continue
                    out.append((prefix + "_sorted_move", dict(model=model, parents=parents, node=n, target=t, pos=pos)))
    return out


@jobs("M04", bounds="every forest shape of at most 5 nodes with one integer key, 3 (4) nodes with two keys "
      "(one descending); arbitrary keys in [-50, 50] with ties, arbitrary steps; every target and sorted position; moves of a node "
      "whose keys were just edited, up to 3 (4) nodes")
def m04(tier):
    n1, n2 = (5, 3) if tier == "quick" else (5, 4)
    out = [("mp_sorted_add", dict(model="MP1S", parents=(), op="root"))]
    for s in shapes(n1):
        out += sorted_jobs("mp", "MP1S", s)
    for s in shapes(n2):
        out += sorted_jobs("mp", "MP1SS", s)
        out += c.edited_jobs("mp", "MP1S", s) + (c.edited_jobs("mp", "MP1SS", s) if len(s) < 3 else [])
    for s in shapes(2, nmin=2):
        out.append(("mp_sorted_add", dict(model="MP1S", parents=s, op="none", target=0)))
        out.append(("mp_sorted_add", dict(model="MP1S", parents=s, op="root", mode="instance")))
        out.append(("mp_sorted_add", dict(model="MP1S", parents=s, op="child", target=0, mode="instance")))
        out.append(("mp_sorted_move", dict(model="MP1S", parents=s, node=1, target=0, pos=None)))
    return out


META["M04"]["witnesses"] = ["inserted", "moved", "refused"]


@jobs("M08", bounds="alphabet of four digits, one character per step (three positions per level), path column of three "
      "characters; every forest shape of at most 4 nodes (quick; 5 in thorough) and depth at most 3; every operation, moves that would go deeper included")
def m08(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for s in shapes(n, 3):
        if max(Forest(s).kids and [len(k) for k in Forest(s).kids.values()]) > 3:
            continue
        out += insert_jobs("MPTiny", s)
        for a, b, pos in move_pairs(s):
            out.append(("mp_move", dict(model="MPTiny", parents=s, node=a, target=b, pos=pos)))
    for s in shapes(n - 1, 3):
        if max([len(k) for k in Forest(s).kids.values()]) > 3:
            continue
        out += sorted_jobs("mp", "MPTinyS", s)
    return out


META["M08"]["witnesses"] = ["inserted", "moved", "refused"]


# ===================================================================== navigation
def pks_of(seq):
    return [o.pk for o in seq]


def want(xs):
    return [PKS[x] for x in xs]


def nav_checks(env, prop, st, x, M, depths=(None, 0, 1, 2), group=True):
    f, o = st.f, M.objects
    node = st.get(x, M)
    req = lambda label, got, exp: env.require(prop, label, got == exp)   # noqa: E731
    sib, kids = f.siblings(x), f.kids[x]
    i = sib.index(x)
    roots = f.kids[None]
    one = lambda v: None if v is None else v.pk      # noqa: E731
    nth = lambda xs, k: PKS[xs[k]] if xs else None   # noqa: E731
    sub, anc = f.subtree(x), f.ancestors(x)
    req("root nodes", pks_of(o.get_root_nodes()), want(roots))
    req("first root", one(o.get_first_root_node()), nth(roots, 0))
    req("last root", one(o.get_last_root_node()), nth(roots, -1))
    req("whole tree", pks_of(o.get_tree()), want(f.order()))
    req("children", pks_of(o.get_children(node)), want(kids))
    req("children count", o.get_children_count(node), len(kids))
    req("first child", one(o.get_first_child(node)), nth(kids, 0))
    req("last child", one(o.get_last_child(node)), nth(kids, -1))
    req("siblings", pks_of(o.get_siblings(node)), want(sib))
    req("first sibling", one(o.get_first_sibling(node)), PKS[sib[0]])
    req("last sibling", one(o.get_last_sibling(node)), PKS[sib[-1]])
    req("previous sibling", one(o.get_prev_sibling(node)), PKS[sib[i - 1]] if i else None)
    req("next sibling", one(o.get_next_sibling(node)), PKS[sib[i + 1]] if i + 1 < len(sib) else None)
    req("ancestors", pks_of(o.get_ancestors(node)), want(anc))
    req("parent", one(o.get_parent(node)), PKS[anc[-1]] if anc else None)
    req("parent again (cached)", one(o.get_parent(node)), PKS[anc[-1]] if anc else None)
    req("parent, updated", one(o.get_parent(node, update=True)), PKS[anc[-1]] if anc else None)
    req("root of the node", one(o.get_root(node)), PKS[(anc + [x])[0]])
    req("descendants", pks_of(o.get_descendants(node)), want(sub[1:]))
    req("descendants with self", pks_of(o.get_descendants(node, include_self=True)), want(sub))
    req("descendant count", o.get_descendant_count(node), len(sub) - 1)
    req("branch", pks_of(o.get_tree(node)), want(sub))
    d0 = f.depth(x)
    for d in depths:
        lim = [y for y in sub if d is None or f.depth(y) - d0 <= d]
        req(f"descendants limited to {d}", pks_of(o.get_descendants(node, max_depth=d)), want(lim[1:]))
        req(f"descendants with self limited to {d}", pks_of(o.get_descendants(node, include_self=True, max_depth=d)), want(lim))
        req(f"descendant count limited to {d}", o.get_descendant_count(node, max_depth=d), len(lim) - 1)
        req(f"branch limited to {d}", pks_of(o.get_tree(node, max_depth=d)), want(lim))
        top = [y for y in f.order() if d is None or f.depth(y) <= d]
        req(f"tree limited to {d}", pks_of(o.get_tree(max_depth=d)), want(top))
    if group:
        g = list(o.get_descendants_group_count(node))
        req("group of children", [(n.pk, n.descendants_count) for n in g], [(PKS[k], len(f.subtree(k)) - 1) for k in kids])
        g = list(o.get_descendants_group_count())
        req("group of roots", [(n.pk, n.descendants_count) for n in g], [(PKS[k], len(f.subtree(k)) - 1) for k in roots])
    req("depth", node.get_depth(), d0)
    req("is root", bool(node.is_root()), not anc)
    req("is leaf", bool(node.is_leaf()), not kids)
    for y in f.order():
        other = st.get(y, M)
        req("is descendant of", bool(node.is_descendant_of(other)), y in anc)
        req("is child of", bool(node.is_child_of(other)), bool(anc) and anc[-1] == y)
        req("is sibling of", bool(node.is_sibling_of(other)), y in sib)
    env.reach("navigated")


@harness
def mp_nav(env, model, parents, node, sort=False):
    M = getattr(models(), model)
    st = State(env, M, parents, sort=sort)
    nav_checks(env, "M05", st, node, M)


@jobs("M05", bounds="every forest shape of at most 4 nodes (quick; 5 in thorough), every node, depth limits none/0/1/2; "
      "step values arbitrary; one- and two-character steps, plain and sorted models")
def m05(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for s in shapes(n):
        for x in range(len(s)):
            out.append(("mp_nav", dict(model="MP1", parents=s, node=x)))
    for s in shapes(n - 1):
        for x in range(len(s)):
            out.append(("mp_nav", dict(model="MP2", parents=s, node=x)))
            out.append(("mp_nav", dict(model="MP1S", parents=s, node=x, sort=True)))
    return out


META["M05"]["witnesses"] = ["navigated"]


# ===================================================================== the consistency checker
def evil_str(env, name, n, alpha, bad):
    return env.str(name, n, alpha + bad)


def illegal(st_alpha, p):
    out = []
    for i in range(len(p)):
        ch = p[i]
        if isinstance(ch, str):
            out.append(ch not in st_alpha)
        else:
            c = ch.cs[0]
            out.append(chr(c) not in st_alpha if type(c) is int else Not(Or([c == ord(a) for a in st_alpha])))
    return Or(out)


def prefix(a, b):
    """a is a prefix of b"""
    return False if len(a) > len(b) else b[: len(a)] == a


class Wild:
    """Rows with arbitrary distinct paths of the given lengths and arbitrary depth and child count."""

    def __init__(self, env, model, lens, bad=""):
        self.env, self.model = env, model
        self.sl, self.alpha = model.steplen, model.alphabet
        n = len(lens)
        self.path = [env.str(f"p{i}", lens[i], self.alpha + bad) for i in range(n)]
        for i in range(n):
            for j in range(i):
                if lens[i] == lens[j]:
                    env.assume(self.path[i] != self.path[j])
        self.depth = [env.int(f"d{i}", 0, 9) for i in range(n)]
        self.numchild = [env.int(f"n{i}", 0, 9) for i in range(n)]
        self.table = model.objects.tree_model
        env.load(self.table, [{"id": PKS[i], "path": self.path[i], "depth": self.depth[i], "numchild": self.numchild[i],
                               "val": 100 + i, "key": 10 + i} for i in range(n)])
        self.before = env.rows(self.table)
        self.n = n

    def children(self, i):
        return [And(prefix(self.path[i], self.path[j]))
                for j in range(self.n) if len(self.path[j]) == len(self.path[i]) + self.sl]

    def orphan(self, i):
        k = len(self.path[i]) - self.sl
        if k <= 0:
            return False
        return Not(Or([self.path[j] == self.path[i][:k] for j in range(self.n) if len(self.path[j]) == k]))


@harness
def mp_problems(env, model, lens, bad="", parent=None):
    M = getattr(models(), model)
    w = Wild(env, M, lens, bad)
    if parent is not None:
        got = M.objects.find_problems(parent=M.objects.get(pk=PKS[parent]))
    else:
        got = M.objects.find_problems()
    got = [[pk for pk in part] for part in got]
    env.observe("problems", got)
    env.require("M06", "five lists", len(got) == 5)
    flat = [pk for part in got for pk in part]
    env.require("M06", "each node listed at most once", len(set(flat)) == len(flat))
    env.require("M06", "only nodes listed", set(flat) <= {PKS[i] for i in range(w.n)})
    for k, name in enumerate(["chars", "length", "orphan", "depth", "numchild"]):
        if got[k]:
            env.reach(name)
    if not flat:
        env.reach("clean")
    for i in range(w.n):
        inside = True if parent is None else prefix(w.path[parent], w.path[i])
        ln = len(w.path[i])
        c1 = illegal(w.alpha, w.path[i])
        c2 = bool(ln % w.sl)
        c3 = w.orphan(i)
        c4 = w.depth[i] != ln // w.sl
        kids = w.children(i)
        cnt = 0
        for k in kids:
            cnt = env_ite(k, cnt)
        c5 = w.numchild[i] != cnt
        # rows with a fault of their own below this node make its child count a matter of taste
        murky = Or([And(prefix(w.path[i], w.path[j]), Or(illegal(w.alpha, w.path[j]), bool(len(w.path[j]) % w.sl)))
                    for j in range(w.n) if j != i])
        conds = [c1, And(Not(c1), c2), And(Not(c1), Not(c2), c3), And(Not(c1), Not(c2), Not(c3), c4),
                 And(Not(c1), Not(c2), Not(c3), Not(c4), c5)]
        names = ["illegal characters", "wrong length", "orphans", "wrong depth", "wrong child count"]
        for k in range(5):
            has = PKS[i] in got[k]
            claim = Iff(And(inside, conds[k]), has)
            env.require("M06", names[k], claim if k < 4 else Implies(Not(murky), claim))


def env_ite(cond, cnt):
    from vp.env import ite
    return ite(cond, cnt + 1, cnt)


def len_tuples(n, lens):
    import itertools
    return [t for k in range(1, n + 1) for t in itertools.combinations_with_replacement(lens, k)]


@jobs("M06", bounds="tables of at most 3 rows (4 in thorough; 2 and 3 with illegal characters); every combination "
      "of path lengths up to three steps including lengths that are not a multiple of the step; arbitrary distinct paths over "
      "the 36-letter alphabet plus an illegal character, arbitrary depth and child count 0..9; whole table and every branch")
def m06(tier):
    big = tier != "quick"
    out = [("mp_problems", dict(model="MP1", lens=t)) for t in len_tuples(3 if not big else 4, (1, 2, 3))]
    out += [("mp_problems", dict(model="MP1", lens=t, bad="*")) for t in len_tuples(2 if not big else 3, (1, 2, 3))]
    out += [("mp_problems", dict(model="MP2", lens=t, bad="*")) for t in len_tuples(2, (1, 2, 3, 4, 5))]
    out += [("mp_problems", dict(model="MP2", lens=t)) for t in len_tuples(3 if not big else 4, (1, 2, 3, 4, 6))]
    for t in len_tuples(3 if not big else 4, (1, 2, 3)):
        for p in sorted({t.index(x) for x in t}):
            out.append(("mp_problems", dict(model="MP1", lens=t, parent=p)))
    return out


META["M06"]["witnesses"] = ["chars", "length", "orphan", "depth", "numchild", "clean"]


# ===================================================================== repair
class OnMySQL:
    """The database connections, seen as MySQL ones: the repair has a branch of its own for them."""

    def __getitem__(self, alias):
        from types import SimpleNamespace
        return SimpleNamespace(vendor="mysql")


@harness
def mp_fix(env, model, lens, parent=None, mysql=False):
    import treebeard.mp_tree as module
    M = getattr(models(), model)
    w = Wild(env, M, lens)
    real = getattr(module, "connections", None)
    if mysql and real is not None:
        module.connections = OnMySQL()
    try:
        if parent is not None:
            res = env.call(M.objects.fix_tree, parent=M.objects.get(pk=PKS[parent]))
        else:
            res = env.call(M.objects.fix_tree)
    finally:
        if mysql and real is not None:
            module.connections = real
    outcome(env, res)
    rows = env.rows(w.table)
    env.observe("rows", rows)
    env.require("M07", "repair succeeds", res[0] == "ok")
    by = {r["id"]: r for r in rows}
    env.require("M07", "rows kept", set(by) == {PKS[i] for i in range(w.n)})
    for i in range(w.n):
        r = by[PKS[i]]
        inside = True if parent is None else prefix(w.path[parent], w.path[i])
        cnt = 0
        for k in w.children(i):
            cnt = env_ite(k, cnt)
        env.require("M07", "default repair changes no path or data",
                    And(r["path"] == w.path[i], r["val"] == 100 + i, r["key"] == 10 + i))
        env.require("M07", "depth repaired", Implies(inside, r["depth"] == len(w.path[i]) // w.sl))
        env.require("M07", "child count repaired", Implies(inside, r["numchild"] == cnt))
        if parent is not None:
            env.require("M07", "nodes outside the branch untouched",
                        Implies(Not(inside), And(r["depth"] == w.depth[i], r["numchild"] == w.numchild[i])))
    env.reach("repaired")


@harness
def mp_fix_paths(env, model, parents, parent=None):
    M = getattr(models(), model)
    srt = bool(M.node_order_by)
    st = State(env, M, parents, sort="unsorted" if srt else False, wild=parent if parent is not None else True)
    if parent is not None:
        res = env.call(M.objects.fix_tree, fix_paths=True, parent=st.get(parent))
    else:
        res = env.call(M.objects.fix_tree, fix_paths=True)
    outcome(env, res)
    rows = env.rows(st.table)
    f = st.f
    scope = set(f.subtree(parent)) if parent is not None else set(f.nodes())
    by = {r["id"]: r for r in rows}
    if not srt:
        env.observe("rows", rows)
    env.require("M07", "rows kept", set(by) == {PKS[x] for x in f.nodes()})
    if res[0] != "ok":
        env.reach("refused")
        env.require("M07", "only a full level refuses", type(res[1]).__name__ == "PathOverflow")
        top = len(st.alpha) ** st.sl - 1
        groups = [k for p, k in f.kids.items() if k and (parent is None or p in scope)]
        env.require("M07", "refused although no level is close to full",
                    Or([num(st, st.step[k[-1]]) + len(k) > top for k in groups]))
        for x in f.nodes():
            env.require("M07", "refused repair kept the paths", by[PKS[x]]["path"] == st.path[x])
        return
    env.reach("repaired")
    check_payload(env, "M07", st, rows)
    for x in f.nodes():
        r = by[PKS[x]]
        if x not in scope:
            env.require("M07", "nodes outside the branch untouched",
                        And(r["path"] == st.path[x], r["depth"] == st.wild[x][0], r["numchild"] == st.wild[x][1]))
            continue
        env.require("M07", "depth repaired", r["depth"] == f.depth(x))
        env.require("M07", "child count repaired", r["numchild"] == len(f.kids[x]))
        env.require("M07", "path length", len(r["path"]) == f.depth(x) * st.sl)
        if x == parent:
            env.require("M07", "the branch's own root keeps its path", r["path"] == st.path[x])
            continue
        p = f.parent(x)
        if p is not None:
            env.require("M07", "every node keeps its parent", r["path"][: -st.sl] == by[PKS[p]]["path"])
    for p, ks in f.kids.items():
        if parent is not None and p not in scope:
            continue
        pos = {x: num(st, by[PKS[x]]["path"][-st.sl:]) for x in ks}
        keys = {x: (st.val[x], st.key[x]) for x in ks}
        for x in ks:
            env.require("M07", "no gaps", And(pos[x] >= 1, pos[x] <= len(ks)))
        for a in ks:
            for b in ks:
                if a == b:
                    continue
                env.require("M07", "positions distinct", pos[a] != pos[b])
                if srt:
                    env.require("M07", "declared order", Implies(pos[a] < pos[b], key_le(st, keys[a], keys[b])))
                elif ks.index(a) < ks.index(b):
                    env.require("M07", "previous order", pos[a] < pos[b])


@jobs("M07", bounds="default repair: at most 4 rows (5 in thorough) with arbitrary distinct paths of up to three steps and arbitrary "
      "depths and counts; path repair: every forest shape of at most 4 nodes (5) with arbitrary steps, depths and counts, "
      "and arbitrary sort keys (one key, or two with one descending); whole tree and every branch; a tiny alphabet to reach "
      "full levels; the default repair of at most 3 rows (4) also as it is done on MySQL (same database, its own branch of the code)")
def m07(tier):
    big = tier != "quick"
    out = [("mp_fix", dict(model="MP1", lens=t)) for t in len_tuples(4 if not big else 5, (1, 2, 3))]
    out += [("mp_fix", dict(model="MP2", lens=t)) for t in len_tuples(2 if not big else 3, (2, 4, 6))]
    out += [("mp_fix", dict(model="MP1", lens=t, mysql=True)) for t in len_tuples(3 if not big else 4, (1, 2, 3))]
    for t in len_tuples(3 if not big else 4, (1, 2, 3)):
        for p in sorted({t.index(x) for x in t}):
            out.append(("mp_fix", dict(model="MP1", lens=t, parent=p)))
            if len(t) == 2:
                out.append(("mp_fix", dict(model="MP1", lens=t, parent=p, mysql=True)))
    n = 5 if big else 4
    for s in shapes(n):
        out.append(("mp_fix_paths", dict(model="MP1", parents=s)))
        out.append(("mp_fix_paths", dict(model="MP1S", parents=s)))
    for s in shapes(n - 1):
        out.append(("mp_fix_paths", dict(model="MP2", parents=s)))
        out.append(("mp_fix_paths", dict(model="MP1SS", parents=s)))
        for x in range(len(s)):
            out.append(("mp_fix_paths", dict(model="MP1", parents=s, parent=x)))
            out.append(("mp_fix_paths", dict(model="MP1S", parents=s, parent=x)))
    for s in shapes(3, 3):
        out.append(("mp_fix_paths", dict(model="MPTiny", parents=s)))
        out.append(("mp_fix_paths", dict(model="MPTinyS", parents=s)))
    return out


META["M07"]["witnesses"] = ["repaired", "refused"]
