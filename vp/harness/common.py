"""Checks shared by the tree types: one API step from an arbitrary valid pre-state, judged against list manipulation.

A kit (one per tree type) supplies: state(env, model, parents, sort) building the pre-state, exact(...) deciding whether
stored rows encode a given ordered forest, loose(...) deciding whether they encode its parent relation, and before(...)
telling the stored order of two siblings.
"""
from vp.env import And, Implies, Or
from vp.harness import META
from vp.trees import CHILD_POS, MOVE_POS, PKS, SIBLING_POS, Forest, shapes

V = 50
NEWID = 90


def models():
    from vp.vmodels import models as m
    return m


class BaseState:
    """Forest of indices; row i has pk PKS[i]; symbolic sort keys when sort is set."""

    def __init__(self, env, model, parents, sort=False):
        self.env, self.model, self.f = env, model, Forest(parents)
        self.val, self.key = {}, {}
        self.table = model.objects.tree_model
        two = len(model.node_order_by or ()) > 1
        for x in self.f.order():
            sib = self.f.siblings(x)
            i = sib.index(x)
            if sort:
                self.val[x] = env.int(f"v{x}", -V, V)
                self.key[x] = env.int(f"k{x}", -V, V) if two else 10 + x
                if i and sort != "unsorted":
                    env.assume(self.ordered(sib[i - 1], x))
            else:
                self.val[x], self.key[x] = 100 + x, 10 + x

    def ordered(self, a, b):
        return key_le(self.model, (self.val[a], self.key[a]), (self.val[b], self.key[b]))

    def start(self, rows):
        self.env.load(self.table, rows)
        self.before = self.env.rows(self.table)

    def get(self, x, model=None):
        return (model or self.model).objects.get(pk=PKS[x])


def key_le(model, a, b):
    if len(model.node_order_by or ()) > 1:
        return Or(a[0] < b[0], And(a[0] == b[0], a[1] >= b[1]))
    return a[0] <= b[0]


def key_lt(model, a, b):
    if len(model.node_order_by or ()) > 1:
        return Or(a[0] < b[0], And(a[0] == b[0], a[1] > b[1]))
    return a[0] < b[0]


def same_rows(a, b):
    if len(a) != len(b):
        return False
    return And([x[c] == y[c] for x, y in zip(a, b) for c in x])


def outcome(env, res):
    env.observe("outcome", res[0] if res[0] == "ok" else type(res[1]).__name__)


def payload(env, prop, st, rows):
    for r in rows:
        for x in st.f.nodes():
            if PKS[x] == r["id"]:
                env.require(prop, "data unchanged", And(r["val"] == st.val[x], r["key"] == st.key[x]))


def present(env, prop, rows, f, pk):
    by = {r["id"]: r for r in rows}
    ok = set(by) == {pk(x) for x in f.nodes()}
    env.require(prop, "nodes present", ok)
    return by if ok else None


# ===================================================================== insertions
def insert(env, kit, prop, model, parents, op, target=None, pos=None, mode="kwargs"):
    M = getattr(models(), model)
    st = kit.state(env, M, parents)
    f = st.f.copy()
    data = {"val": 7, "key": 8}
    kw = {"instance": M(**data)} if mode == "instance" else {"create_kwargs": data}
    if op == "root":
        res = env.call(M.objects.add_root, **kw)
        f.insert(NEWID, None, len(f.kids[None]))
    elif op == "child":
        res = env.call(M.objects.add_child, st.get(target), **kw)
        f.insert(NEWID, target, len(f.kids[target]))
    else:
        res = env.call(M.objects.add_sibling, st.get(target), pos, **kw)
        f.place(NEWID, target, pos or "last-sibling")
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    env.require(prop, "insertion succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    env.reach("inserted")
    new = {r["id"] for r in rows} - {PKS[x] for x in st.f.nodes()}
    env.require(prop, "one new row", len(new) == 1)
    if len(new) != 1:
        return
    npk = list(new)[0]
    kit.exact(env, prop, st, rows, f, lambda x: npk if x == NEWID else PKS[x])
    payload(env, prop, st, rows)
    nr = [r for r in rows if r["id"] == npk][0]
    env.require(prop, "new node's data", And(nr["val"] == 7, nr["key"] == 8))
    env.require(prop, "returned object is the new node", res[1].pk == npk)


def move(env, kit, prop, model, parents, node, target, pos, same=False):
    M = getattr(models(), model)
    st = kit.state(env, M, parents)
    f = st.f.copy()
    nobj = st.get(node)
    tobj = nobj if (same and node == target) else st.get(target)
    res = env.call(M.objects.move, nobj, tobj, pos)
    f.move(node, target, pos or "last-sibling")
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    env.require(prop, "move succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    env.reach("moved")
    kit.exact(env, prop, st, rows, f, lambda x: PKS[x])
    payload(env, prop, st, rows)


RELATED = ("children", "descendants", "branch", "siblings", "ancestors", "parent")


def selection(env, st, M, how, node=None):
    """-> (what .delete is called on, nodes it stands for)"""
    f, o = st.f, M.objects
    if how == "node":
        return st.get(node), [node]
    if how == "all":
        return o.all(), f.nodes()
    if how == "none":
        return o.none(), []
    if how == "roots":
        return o.get_root_nodes(), list(f.kids[None])
    if how == "tree":
        return o.get_tree(), f.nodes()
    if how == "joined":                         # rows of another table: the same node may come several times
        Note = getattr(models(), M.__name__ + "Note")
        rows = [{"id": 10 * i + k, "node_id": PKS[x], "number": env.int(f"n{x}{k}", 0, 9)} for i, x in enumerate(f.order()) for k in range(2)]
        env.load(Note, rows)
        least = env.int("least", 0, 9)
        qs = o.filter(**{M.__name__.lower() + "note__number__gte": least})
        return qs, [x for x in f.order() if any([bool(r["number"] >= least) for r in rows if r["node_id"] == PKS[x]])]
    if how in RELATED:
        n = o.get(pk=PKS[node])
        if how == "branch":
            return o.get_descendants(n, include_self=True), f.subtree(node)
        if how == "parent":
            return o.filter(pk__in=[p.pk for p in [o.get_parent(n)] if p]), [p for p in [f.parent(node)] if p is not None]
        return getattr(o, "get_" + how)(n), {"children": f.kids[node], "siblings": f.kids[f.parent(node)],
                                             "descendants": [x for x in f.subtree(node) if x != node], "ancestors": f.ancestors(node)}[how]
    chosen = [x for x in f.order() if env.choose(f"in{x}", 2)]
    ids = [PKS[x] for x in chosen]
    rest = [PKS[x] for x in f.nodes() if x not in chosen]
    if how == "excluding":
        return o.exclude(pk__in=rest), chosen
    if how == "backwards":
        return o.order_by("-pk").filter(pk__in=ids), chosen
    if how == "deepest first":
        return o.get_queryset().reverse().filter(pk__in=ids), chosen
    if how == "with owners":
        return o.select_related("owner").filter(pk__in=ids), chosen
    if how == "prefetched":
        return o.prefetch_related(M.__name__.lower() + "note_set").filter(pk__in=ids), chosen
    if how == "loaded in part":
        return o.defer("val").filter(pk__in=ids), chosen
    if how == "either":
        return o.filter(pk__in=ids) | o.filter(pk__in=ids[:1]), chosen
    return o.filter(pk__in=ids), chosen


def delete(env, kit, prop, model, parents, how, node=None):
    M = getattr(models(), model)
    st = kit.state(env, M, parents)
    f = st.f.copy()
    what, chosen = selection(env, st, M, how, node)
    if isinstance(what, list):                  # some queries of adjacency lists return lists
        what = M.objects.filter(pk__in=[x.pk for x in what])
    res = env.call(what.delete)
    gone = f.remove(chosen)
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    env.require(prop, "deletion succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    if gone and f.nodes():
        env.reach("some removed, some kept")
    kit.exact(env, prop, st, rows, f, lambda x: PKS[x])
    payload(env, prop, st, rows)
    total, per = res[1]
    env.observe("count", [total, per])
    env.require(prop, "reported count", per.get(st.table._meta.label, 0) == len(gone))
    if how == "joined":
        left = sorted(r["node_id"] for r in env.rows(getattr(models(), model + "Note")))
        env.require(prop, "rows referring to removed nodes", left == sorted(2 * [PKS[x] for x in f.nodes()]))
        env.require(prop, "reported total", total == 3 * len(gone))
    else:
        env.require(prop, "reported total", total == len(gone))


# ===================================================================== sorted trees
def sorted_result(env, kit, prop, st, rows, f, pk, keys, moved, prev=None, as_given=()):
    """as_given: parents whose children must come in the forest's own order instead of the declared one."""
    by = present(env, prop, rows, f, pk)
    if by is None:
        return
    kit.loose(env, prop, st, by, f, pk)
    for x in f.nodes():
        r = by[pk(x)]
        env.require(prop, "data unchanged", And(r["val"] == keys[x][0], r["key"] == keys[x][1]))
    for p, ks in f.kids.items():
        for i, a in enumerate(ks):
            for b in ks[:i]:
                ra, rb = by[pk(a)], by[pk(b)]
                ab, ba = kit.before(st, ra, rb), kit.before(st, rb, ra)
                if p in as_given:
                    env.require(prop, "given order", ba)
                    continue
                ex = Or([kit.excused(env, st, f, by, pk, *q) for q in ((a, b), (b, a))]) if hasattr(kit, "excused") else False
                env.require(prop, "declared order", Or(ex, And(Implies(ab, key_le(st.model, keys[a], keys[b])),
                                                               Implies(ba, key_le(st.model, keys[b], keys[a])))))
        if prev is not None:            # relative order as it was before the last of several steps
            for i, b in enumerate(ks):
                for a in ks[:i]:
                    if kit.no_stored_order or moved in (a, b) or pk(a) not in prev or pk(b) not in prev:
                        continue
                    for x, y in ((a, b), (b, a)):
                        ex = kit.excused(env, st, f, by, pk, x, y) if hasattr(kit, "excused") else False
                        env.require(prop, "relative order kept", Or(ex, Implies(kit.before(st, prev[pk(x)], prev[pk(y)]),
                                                                               kit.before(st, by[pk(x)], by[pk(y)]))))
            continue
        old = [x for x in st.f.order() if x in ks and x != moved]
        if not kit.no_stored_order:
            for i, b in enumerate(old):
                for a in old[:i]:
                    ex = kit.excused(env, st, f, by, pk, a, b) if hasattr(kit, "excused") else False
                    env.require(prop, "relative order kept", Or(ex, kit.before(st, by[pk(a)], by[pk(b)])))


def sorted_add(env, kit, prop, model, parents, op, target=None, mode="kwargs"):
    M = getattr(models(), model)
    st = kit.state(env, M, parents, sort=True)
    f = st.f.copy()
    two = len(M.node_order_by) > 1
    nv, nk = env.int("nv", -V, V), (env.int("nk", -V, V) if two else 8)
    data = {"val": nv, "key": nk}
    kw = {"instance": M(**data)} if mode == "instance" else {"create_kwargs": data}
    if op == "root":
        par = None
        res = env.call(M.objects.add_root, **kw)
    elif op == "child":
        par = target
        res = env.call(M.objects.add_child, st.get(target), **kw)
    else:
        par = f.parent(target)
        res = env.call(M.objects.add_sibling, st.get(target), "sorted-sibling" if op == "sibling" else None, **kw)
    f.insert(NEWID, par, 0)
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    keys = {x: (st.val[x], st.key[x]) for x in st.f.nodes()}
    keys[NEWID] = (nv, nk)
    env.require(prop, "insertion succeeds", res[0] == "ok")
    new = {r["id"] for r in rows} - {PKS[x] for x in st.f.nodes()}
    if res[0] != "ok":
        return
    env.reach("inserted")
    env.require(prop, "one new row", len(new) == 1)
    if len(new) != 1:
        return
    npk = list(new)[0]
    pk = lambda x: npk if x == NEWID else PKS[x]        # noqa: E731
    sorted_result(env, kit, prop, st, rows, f, pk, keys, NEWID)
    env.require(prop, "returned object is the new node", res[1].pk == npk)
    listings(env, kit, prop, st, f, pk, keys, M)


def edit_keys(env, st, x, obj, M):
    """Give a node new data (its place may not be the right one any more), as a user does before asking for a sorted move."""
    st.val[x] = obj.val = env.int("nv", -V, V)
    if len(M.node_order_by) > 1:
        st.key[x] = obj.key = env.int("nk", -V, V)
    obj.save()
    st.before = env.rows(st.table)


def sorted_move(env, kit, prop, model, parents, node, target, pos, edited=False):
    M = getattr(models(), model)
    st = kit.state(env, M, parents, sort=True)
    f = st.f.copy()
    obj = st.get(node)
    if edited:
        edit_keys(env, st, node, obj, M)
    res = env.call(M.objects.move, obj, st.get(target), pos)
    par = target if pos == "sorted-child" else st.f.parent(target)
    if par != st.f.parent(node):
        f.siblings(node).remove(node)
        f.insert(node, par, 0)
    outcome(env, res)
    rows = env.rows(st.table)
    env.observe("rows", rows)
    keys = {x: (st.val[x], st.key[x]) for x in st.f.nodes()}
    env.require(prop, "move succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    env.reach("moved")
    sorted_result(env, kit, prop, st, rows, f, lambda x: PKS[x], keys, node)
    listings(env, kit, prop, st, f, lambda x: PKS[x], keys, M)


def listings(env, kit, prop, st, f, pk, keys, M):
    """Where the order is not stored, what counts is the order the children listings come in."""
    if not kit.no_stored_order:
        return
    back = {pk(x): x for x in f.nodes()}
    for p, ks in f.kids.items():
        got = [o.pk for o in (M.objects.get_root_nodes() if p is None else M.objects.get_children(M.objects.get(pk=pk(p))))]
        env.require(prop, "listing holds the siblings", sorted(got) == sorted(pk(x) for x in ks))
        if sorted(got) != sorted(pk(x) for x in ks):
            return
        for a, b in zip(got, got[1:]):
            env.require(prop, "listing in declared order", key_le(st.model, keys[back[a]], keys[back[b]]))


# ===================================================================== navigation
def pks_of(seq):
    return [o.pk for o in seq]


def want(xs):
    return [PKS[x] for x in xs]


def nav(env, prop, st, x, M, depths=(None, 0, 1, 2), group=True, others=None):
    f, o = st.f, M.objects
    node = st.get(x, M)
    req = lambda label, got, exp: env.require(prop, label, got == exp)   # noqa: E731
    sib, kids = f.siblings(x), f.kids[x]
    i = sib.index(x)
    roots = f.kids[None]
    one = lambda v: None if v is None else v.pk      # noqa: E731
    nth = lambda xs, k: PKS[xs[k]] if xs else None   # noqa: E731
    sub, anc = f.subtree(x), f.ancestors(x)
    req("root nodes", pks_of(o.get_root_nodes()), want(roots))
    req("first root", one(o.get_first_root_node()), nth(roots, 0))
    req("last root", one(o.get_last_root_node()), nth(roots, -1))
    req("whole tree", pks_of(o.get_tree()), want(f.order()))
    req("children", pks_of(o.get_children(node)), want(kids))
    req("children count", o.get_children_count(node), len(kids))
    req("first child", one(o.get_first_child(node)), nth(kids, 0))
    req("last child", one(o.get_last_child(node)), nth(kids, -1))
    req("siblings", pks_of(o.get_siblings(node)), want(sib))
    req("first sibling", one(o.get_first_sibling(node)), PKS[sib[0]])
    req("last sibling", one(o.get_last_sibling(node)), PKS[sib[-1]])
    req("previous sibling", one(o.get_prev_sibling(node)), PKS[sib[i - 1]] if i else None)
    req("next sibling", one(o.get_next_sibling(node)), PKS[sib[i + 1]] if i + 1 < len(sib) else None)
    req("ancestors", pks_of(o.get_ancestors(node)), want(anc))
    req("parent", one(o.get_parent(node)), PKS[anc[-1]] if anc else None)
    req("parent again (cached)", one(o.get_parent(node)), PKS[anc[-1]] if anc else None)
    req("parent, updated", one(o.get_parent(node, update=True)), PKS[anc[-1]] if anc else None)
    req("root of the node", one(o.get_root(node)), PKS[(anc + [x])[0]])
    req("descendants", pks_of(o.get_descendants(node)), want(sub[1:]))
    req("descendants with self", pks_of(o.get_descendants(node, include_self=True)), want(sub))
    req("descendant count", o.get_descendant_count(node), len(sub) - 1)
    req("branch", pks_of(o.get_tree(node)), want(sub))
    d0 = f.depth(x)
    for d in depths:
        lim = [y for y in sub if d is None or f.depth(y) - d0 <= d]
        req(f"descendants limited to {d}", pks_of(o.get_descendants(node, max_depth=d)), want(lim[1:]))
        req(f"descendants with self limited to {d}", pks_of(o.get_descendants(node, include_self=True, max_depth=d)), want(lim))
        req(f"descendant count limited to {d}", o.get_descendant_count(node, max_depth=d), len(lim) - 1)
        req(f"branch limited to {d}", pks_of(o.get_tree(node, max_depth=d)), want(lim))
        top = [y for y in f.order() if d is None or f.depth(y) <= d]
        req(f"tree limited to {d}", pks_of(o.get_tree(max_depth=d)), want(top))
    if group:
        g = list(o.get_descendants_group_count(node))
        req("group of children", [(n.pk, n.descendants_count) for n in g], [(PKS[k], len(f.subtree(k)) - 1) for k in kids])
        g = list(o.get_descendants_group_count())
        req("group of roots", [(n.pk, n.descendants_count) for n in g], [(PKS[k], len(f.subtree(k)) - 1) for k in roots])
    req("depth", node.get_depth(), d0)
    req("is root", bool(node.is_root()), not anc)
    req("is leaf", bool(node.is_leaf()), not kids)
    for y in f.order():
        other = st.get(y, others or M)
        req("is descendant of", bool(node.is_descendant_of(other)), y in anc)
        req("is child of", bool(node.is_child_of(other)), bool(anc) and anc[-1] == y)
        req("is sibling of", bool(node.is_sibling_of(other)), y in sib)
        # objects reached by navigation must answer like freshly loaded ones
        if y in sub:
            via = [o_ for o_ in o.get_descendants(node, include_self=True) if o_.pk == PKS[y]][0]
            req("depth of a descendant found by navigation", via.get_depth(), f.depth(y))
    env.reach("navigated")


# ===================================================================== job lists
def move_pairs(parents):
    f = Forest(parents)
    for n in f.nodes():
        sub = set(f.subtree(n))
        for t in f.nodes():
            for pos in MOVE_POS:
                if t in sub and not (t == n and pos in SIBLING_POS):
                    continue
                yield n, t, pos


def insert_jobs(prefix, model, parents, positions=True, mode="kwargs"):
    out = [(prefix + "_insert", dict(model=model, parents=parents, op="root", mode=mode))]
    for t in range(len(parents)):
        out.append((prefix + "_insert", dict(model=model, parents=parents, op="child", target=t, mode=mode)))
        if positions:
            for pos in SIBLING_POS:
                out.append((prefix + "_insert", dict(model=model, parents=parents, op="sibling", target=t, pos=pos, mode=mode)))
    return out


def all_inserts(prefix, model, n):
    out = [(prefix + "_insert", dict(model=model, parents=(), op="root"))]
    for s in shapes(n):
        out += insert_jobs(prefix, model, s)
    for s in shapes(2):
        out += insert_jobs(prefix, model, s, mode="instance")
        out.append((prefix + "_insert", dict(model=model, parents=s, op="sibling", target=0, pos=None)))
    return out


def all_moves(prefix, model, n):
    out = []
    for s in shapes(n):
        for a, b, pos in move_pairs(s):
            out.append((prefix + "_move", dict(model=model, parents=s, node=a, target=b, pos=pos)))
    for s in shapes(2):
        out.append((prefix + "_move", dict(model=model, parents=s, node=0, target=0, pos=None)))
        for pos in SIBLING_POS:
            out.append((prefix + "_move", dict(model=model, parents=s, node=0, target=0, pos=pos, same=True)))
    return out


def all_deletes(prefix, model, n, variants=0, joined=None):
    out = []
    for s in shapes(n):
        for x in range(len(s)):
            out.append((prefix + "_delete", dict(model=model, parents=s, how="node", node=x)))
        out.append((prefix + "_delete", dict(model=model, parents=s, how="subset")))
        out.append((prefix + "_delete", dict(model=model, parents=s, how="all")))
    for s in shapes(variants) if variants else ():
        for how in RELATED:
            for x in range(len(s)):
                if (how not in ("ancestors", "parent") or s[x] is not None) and (how not in ("children", "descendants") or x in s):
                    out.append((prefix + "_delete", dict(model=model, parents=s, how=how, node=x)))
        for how in ("none", "roots", "tree", "excluding", "backwards", "deepest first", "either"):
            out.append((prefix + "_delete", dict(model=model, parents=s, how=how)))
    for s in shapes(max(1, variants - 1)) if joined else ():
        for how in ("joined", "with owners", "prefetched", "loaded in part"):
            out.append((prefix + "_delete", dict(model=joined, parents=s, how=how)))
    return out


def sorted_jobs(prefix, model, parents, moves=True):
    out = [(prefix + "_sorted_add", dict(model=model, parents=parents, op="root"))]
    f = Forest(parents)
    for t in range(len(parents)):
        out.append((prefix + "_sorted_add", dict(model=model, parents=parents, op="child", target=t)))
        out.append((prefix + "_sorted_add", dict(model=model, parents=parents, op="sibling", target=t)))
    if moves:
        for n in f.nodes():
            sub = set(f.subtree(n))
            for t in f.nodes():
                for pos in ("sorted-sibling", "sorted-child"):
                    if t in sub and not (t == n and pos == "sorted-sibling"):
                        continue
                    out.append((prefix + "_sorted_move", dict(model=model, parents=parents, node=n, target=t, pos=pos)))
    return out


def edited_jobs(prefix, model, parents):
    """Sorted moves of a node whose data was edited since it got its place."""
    return [(h, dict(p, edited=True)) for h, p in sorted_jobs(prefix, model, parents) if "node" in p]


def all_sorted(prefix, one, two, n1, n2):
    out = [(prefix + "_sorted_add", dict(model=one, parents=(), op="root"))]
    for s in shapes(n1):
        out += sorted_jobs(prefix, one, s)
    for s in shapes(n2):
        out += sorted_jobs(prefix, two, s)
    for s in shapes(max(3, n2)):
        out += edited_jobs(prefix, one, s) + (edited_jobs(prefix, two, s) if len(s) < 3 else [])
    for s in shapes(2, nmin=2):
        out.append((prefix + "_sorted_add", dict(model=one, parents=s, op="none", target=0)))
        out.append((prefix + "_sorted_add", dict(model=one, parents=s, op="root", mode="instance")))
        out.append((prefix + "_sorted_add", dict(model=one, parents=s, op="child", target=0, mode="instance")))
        out.append((prefix + "_sorted_move", dict(model=one, parents=s, node=1, target=0, pos=None)))
    return out


def all_nav(prefix, model, n, sort=None, nsort=0):
    out = []
    for s in shapes(n):
        for x in range(len(s)):
            out.append((prefix + "_nav", dict(model=model, parents=s, node=x)))
    if sort:
        for s in shapes(nsort):
            for x in range(len(s)):
                out.append((prefix + "_nav", dict(model=sort, parents=s, node=x, sort=True)))
    return out


def witnesses(prop, *labels):
    META[prop]["witnesses"] = list(labels)
