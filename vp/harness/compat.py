"""The deprecated calls on node classes and objects that forward to the manager."""
from vp.env import And
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import models, witnesses
from vp.harness.cross import PLAIN, SORTED, World, new_data, overflow, plain_ops, sorted_ops, state_of, structure
from vp.trees import PKS, Forest, shapes

ON_CLASS = {"get_root_nodes", "get_first_root_node", "get_last_root_node", "get_tree", "get_descendants_group_count", "load_bulk", "dump_bulk",
            "find_problems", "fix_tree", "get_annotated_list_qs", "get_annotated_list"}


class OldManager:
    """Answers like the manager, through the deprecated calls."""

    def __init__(self, M, instance):
        self.M, self.instance = M, instance

    def data(self, kw):
        return {"instance": self.M(**kw)} if self.instance else kw

    def add_root(self, kw):
        return self.M.add_root(**self.data(kw))

    def add_child(self, target, kw):
        return target.add_child(**self.data(kw))

    def add_sibling(self, target, pos, kw):
        if pos is None:
            return target.add_sibling(**self.data(kw))
        return target.add_sibling(pos, **self.data(kw))

    def move(self, node, target, pos):
        if pos is None:
            return node.move(target)
        return node.move(target, pos)

    def __getattr__(self, name):
        if name in ON_CLASS:
            return getattr(self.M, name)
        if name.startswith("get_"):
            return lambda node, *a, **k: self.M.objects.get(pk=node.pk) if name == "get" else getattr(node, name)(*a, **k)
        return getattr(self.M.objects, name)

    def get(self, **k):
        return self.M.objects.get(**k)


class HandlerManager(OldManager):
    """The deprecated handler classes of materialized path."""

    def data(self, kw):
        return {"instance": self.M(**kw)} if self.instance == "handler instance" else kw

    def add_root(self, kw):
        from treebeard import mp_tree
        return mp_tree.MP_AddRootHandler(self.M, **self.data(kw)).process()

    def add_child(self, target, kw):
        from treebeard import mp_tree
        return mp_tree.MP_AddChildHandler(target, self.data(kw)).process()

    def add_sibling(self, target, pos, kw):
        from treebeard import mp_tree
        return mp_tree.MP_AddSiblingHandler(target, pos, self.data(kw)).process()

    def move(self, node, target, pos):
        from treebeard import mp_tree
        return mp_tree.MP_MoveHandler(*([node, target] if pos is None else [node, target, pos])).process()


class Old:
    def __init__(self, M, instance=False):
        self.M, self.objects = M, (HandlerManager if isinstance(instance, str) else OldManager)(M, instance)

    def __getattr__(self, name):
        return getattr(self.M, name)


@harness
def x_old_nav(env, model, parents, node, sort=False):
    M, st = state_of(env, model, parents, sort, **({"strict": True} if model.startswith("ALS") else {}))     # ties: any order is right
    c.nav(env, "X14", st, node, Old(M))


@harness
def x_old_op(env, model, parents, op, instance=False, sort=False):
    w = World(env, "X14", model, parents, sort)
    w.M = Old(w.M, instance)
    op = tuple(op)
    res, new = w.apply(op, new_data(env, w))
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X14", "operation succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = w.rows()
    env.observe("rows", rows)
    w.check(rows)
    env.reach("changed")


@harness
def x_old_bulk(env, model, parents, target, sort=False):
    w = World(env, "X14", model, parents, sort)
    M, o = w.M, w.M.objects
    node = None if target is None else w.held(target)
    for keep in (True, False):
        env.require("X14", "dump", M.dump_bulk(parent=node, keep_ids=keep) == o.dump_bulk(parent=node, keep_ids=keep))
    for d in (None, 1, 2):
        a, b = M.get_annotated_list(node, max_depth=d), o.get_annotated_list(node, max_depth=d)
        env.require("X14", "annotated list", [(x.pk, i) for x, i in a] == [(x.pk, i) for x, i in b])
    a, b = M.get_annotated_list_qs(M.get_tree(node)), o.get_annotated_list_qs(o.get_tree(node))
    env.require("X14", "annotated list of a query", [(x.pk, i) for x, i in a] == [(x.pk, i) for x, i in b])
    if hasattr(o, "find_problems"):
        env.require("X14", "problems", M.find_problems() == o.find_problems())
    if model.startswith("MP"):
        M.fix_tree(fix_paths=False)
    rows = w.rows()
    env.require("X14", "reading changes nothing", c.same_rows(w.st.before, rows))
    data = [{"val": env.int("lv", -c.V, c.V) if sort else 101, "key": 300}]
    res = env.call(M.load_bulk, structure([None], data), parent=node)
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X14", "load succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = w.rows()
    env.observe("rows", rows)
    w.f.insert(300, target, len(w.f.kids[target]))
    w.pks[300], w.keys[300] = res[1][0], (data[0]["val"], 300)
    w.moved = 300
    w.check(rows)
    by = {r["id"]: r for r in rows}
    if w.pks[300] in by:
        env.require("X14", "loaded data", And(by[w.pks[300]]["val"] == data[0]["val"], by[w.pks[300]]["key"] == 300))
    env.reach("loaded")


@jobs("X14", db="pg", bounds="four tree types, plain and sorted models; navigation of every node of every shape of up to 3 nodes (thorough 4); every add and move on "
      "shapes of up to 2 nodes (thorough 3; sorted 2), with keywords and with an instance, and through the deprecated handler classes; dump, load, annotated lists, problem finder and repair on shapes of up to 2 nodes")
def x14(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for s in shapes((4 if big else 3) - srt):
            for x in range(len(s)):
                out.append(("x_old_nav", dict(model=m, parents=s, node=x, sort=srt)))
        for s in shapes(3 if big and not srt else 2):
            default = [("sibling", 0, None)] + ([("move", 1, 0, None)] if s == (None, None) or s == (None, 0) and not srt else [])
            for op in (sorted_ops(s) if srt else plain_ops(s)) + default:
                for inst in ((False, True) if op[0] != "move" else (False,)) + (("handler", "handler instance") if m.startswith("MP") else ()):
                    out.append(("x_old_op", dict(model=m, parents=s, op=op, instance=inst, sort=srt)))
        for s in shapes(2):
            for t in [None] + list(range(len(s))):
                out.append(("x_old_bulk", dict(model=m, parents=s, target=t, sort=srt)))
    return out


witnesses("X14", "navigated", "changed", "loaded")


# ===================================================================== customised managers
RICH = ["MPC", "NSC", "ALC", "LTC"]
RICH_SORTED = ["MPSC", "NSSC", "ALSC", "LTSC"]


@harness
def x_rich_op(env, model, parents, op, sort=False):
    """Operations through a manager whose querysets follow a relation, carry an annotation and prefetch."""
    w = World(env, "X16", model, parents, sort)
    op = tuple(op)
    if op[0] == "delete":
        what, chosen = c.selection(env, w.st, w.M, *op[1:])
        if isinstance(what, list):
            what = w.M.objects.filter(pk__in=[x.pk for x in what])
        res = env.call(what.delete)
        gone = w.f.remove(chosen)
        if res[0] == "ok":
            env.require("X16", "reported count", res[1][1].get(w.M._meta.label, 0) == len(gone))
    elif op[0] == "fix":
        res = env.call(w.M.objects.fix_tree, fix_paths=op[1])
    elif op[0] == "load":
        res = env.call(w.M.objects.load_bulk, structure([None], [{"val": 101, "key": 300}]), parent=w.held(op[1]))
        if res[0] == "ok":
            w.f.insert(300, op[1], len(w.f.kids[op[1]]))
            w.pks[300], w.keys[300] = res[1][0], (101, 300)
            w.moved = 300
    else:
        res, new = w.apply(op, new_data(env, w))
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X16", "operation succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = w.rows()
    env.observe("rows", rows)
    if op[0] == "fix" and op[1]:
        loose = {r["id"]: r for r in rows}
        env.require("X16", "all nodes kept", len(rows) == len(parents))
        for x in w.f.nodes():
            r, p = loose[PKS[x]], w.f.parent(x)
            env.require("X16", "repaired place", And(r["depth"] == w.f.depth(x), r["numchild"] == len(w.f.kids[x]),
                                                     True if p is None else r["path"][:-1] == loose[PKS[p]]["path"]))
    else:
        w.check(rows)
    env.reach(op[0])


@harness
def x_rich_nav(env, model, parents, node, sort=False):
    M, st = state_of(env, model, parents, sort, **({"strict": True} if model.startswith("ALS") else {}))     # ties: any order is right
    c.nav(env, "X16", st, node, M)
    o = M.objects
    for n in list(o.get_tree()) if hasattr(M.objects, "Query") else ():
        env.require("X16", "annotation", n.twice == 2 * n.val)
    for keep in (True, False):
        dump = o.dump_bulk(keep_ids=keep)
        env.observe("dump", dump)
        env.require("X16", "dumped roots", len(dump) == len(st.f.kids[None]))
    ann = o.get_annotated_list()
    env.require("X16", "annotated list", [(x.pk, i["level"]) for x, i in ann] == [(PKS[x], st.f.depth(x) - 1) for x in st.f.order()])
    if hasattr(o, "find_problems"):
        env.require("X16", "no problems", all(len(p) == 0 for p in o.find_problems()))


@jobs("X16", db="pg", bounds="four tree types, plain and sorted models whose manager returns querysets with a followed nullable relation, an annotation and a "
      "prefetch; navigation, dump, annotated list and problem finder on shapes of up to 3 nodes (thorough 4; sorted one less); every add, move, deletion, "
      "load and repair on shapes of up to 2 nodes (thorough 3)")
def x16(tier):
    out = []
    big = tier != "quick"
    for m in RICH + RICH_SORTED:
        srt = m in RICH_SORTED
        for s in shapes((4 if big else 3) - srt):
            for x in range(len(s)):
                out.append(("x_rich_nav", dict(model=m, parents=s, node=x, sort=srt)))
        for s in shapes(3 if big and not srt else 2):
            ops = (sorted_ops(s) if srt else plain_ops(s)) + [("delete", "subset"), ("delete", "deepest first"), ("delete", "all"), ("delete", "tree")]
            for x in range(len(s)):
                ops += [("delete", "node", x), ("delete", "branch", x), ("delete", "siblings", x), ("load", x)]
            if m.startswith("MP"):
                ops += [("fix", False), ("fix", True)]
            for op in ops:
                out.append(("x_rich_op", dict(model=m, parents=s, op=op, sort=srt)))
    return out


witnesses("X16", "navigated", "root", "child", "sibling", "move", "delete", "load", "fix")


# ===================================================================== other primary keys
KEYS = {"U": [0, -5, 9, 1, 4], "T": ["m", "0", "a b", "None", "7"]}


@harness
def x_keys(env, inner, params):
    """Another harness, on a model whose primary key has another name, other types and unusual values."""
    from vp import harness as registry
    from vp.vmodels.models import NEXT
    was = PKS[:]
    NEXT[0] = 0
    try:
        PKS[:] = KEYS[params["model"][-1]]
        env.rename = {p: "X17" for p in ("X06", "X08", "X10", "X13", "X16")}
        env.props = {"X17"} if env.props is not None else None
        registry.get(inner)(env, **params)
    finally:
        PKS[:] = was


@jobs("X17", db="pg", bounds="four tree types, plain and sorted models whose primary key is an integer named uid (zero and negative values among them) or text; "
      "navigation on shapes of up to 3 nodes; additions, moves, deletions, repair, dump and load with the same keys, move form, admin listing and admin moves "
      "on shapes of up to 2 nodes (thorough 3)")
def x17(tier):
    out = []
    big = tier != "quick"
    for kind in ("U", "T"):
        for t in ("MP", "NS", "AL", "LT"):
            for srt in (False, True):
                m = t + ("S" if srt else "") + kind
                inner = []
                for s in shapes((4 if big else 3) - srt):
                    inner += [("x_rich_nav", dict(node=x), s) for x in range(len(s))]
                for s in shapes(3 if big and not srt else 2):
                    ops = (sorted_ops(s) if srt else plain_ops(s)) + [("delete", "subset"), ("delete", "all")]
                    for x in range(len(s)):
                        ops += [("delete", "node", x), ("delete", "branch", x), ("delete", "siblings", x), ("load", x)]
                    if t == "MP":
                        ops += [("fix", False), ("fix", True)]
                    inner += [("x_rich_op", dict(op=op), s) for op in ops]
                    for pos in ("sorted-child", "sorted-sibling") if srt else ("first-child", "left", "right"):
                        for n in [None] + list(range(len(s))):
                            for r in [None] + list(range(len(s))):
                                inner.append(("x_form", dict(node=n, ref=r, pos=pos), s))
                    for n in range(len(s)):
                        inner.append(("x_form_initial", dict(node=n), s))
                        for r in range(len(s)):
                            for rel in ("child", "above", "below"):
                                inner.append(("x_admin_move", dict(node=n, target=r, relation=rel), s))
                    for n in [None] + list(range(len(s))):
                        inner.append(("x_listing", dict(node=n), s))
                        for keep in (True, False):
                            inner.append(("x_roundtrip", dict(branch=n, keep=keep, dest=None), s))
                out += [("x_keys", dict(inner=i, params=dict(p, model=m, parents=s, sort=srt))) for i, p, s in inner]
    return out


witnesses("X17", "navigated", "root", "child", "sibling", "move", "delete", "load", "fix")


# ===================================================================== objects obtained otherwise
TREE_FIELDS = {"MP": ("path", "depth", "numchild"), "NS": ("tree_id", "lft", "rgt", "depth"), "AL": ("parent", "sib_order"), "LT": ("path",)}


def obtained(w, x, how):
    """The caller's object for node x, got in some other way than a plain query."""
    import copy
    M, pk = w.M, w.pks[x]
    fields = [n for n in TREE_FIELDS[w.name[:2]] if n in {f.name for f in M._meta.fields}]
    if how == "only":
        return M.objects.only("val").get(pk=pk)
    if how == "keys":
        return M.objects.only("val", "key", fields[0]).get(pk=pk)
    if how == "deferred":
        return M.objects.defer(*fields, "key").get(pk=pk)
    if how == "counts deferred":
        return M.objects.defer(fields[-1]).get(pk=pk)
    if how == "copied":
        return copy.copy(M.objects.get(pk=pk))
    if how == "base manager":
        return M._base_manager.get(pk=pk)
    if how == "refreshed":
        o = M(pk=pk)
        o.refresh_from_db()
        return o
    if how == "refreshed in part":
        o = M.objects.only("pk").get(pk=pk)
        o.refresh_from_db(fields=["val"])
        return o
    if how == "listed":
        return [o for o in M.objects.get_tree() if o.pk == pk][0]
    assert False, how


def hold(w, how):
    def held(x):
        if x not in w.obj:
            w.obj[x] = obtained(w, x, how)
        return w.obj[x]
    w.held = held


@harness
def x_got_op(env, model, parents, op, how, sort=False):
    from vp.harness.cross import fresh
    w = World(env, "X18", model, parents, sort)
    hold(w, how)
    op = tuple(op)
    if op[0] == "delete":
        obj = w.held(op[1])
        res = env.call(obj.delete)
        w.f.remove([op[1]])
    else:
        res, new = w.apply(op, new_data(env, w))
    c.outcome(env, res)
    if overflow(res):
        return
    env.require("X18", "operation succeeds", res[0] == "ok")
    if res[0] != "ok":
        return
    rows = w.rows()
    env.observe("rows", rows)
    w.check(rows)
    if op[0] != "delete":
        for x in sorted(w.obj):
            fresh(env, "X18", w, x, w.obj[x], rows, "object held")
    env.reach(op[0])


@harness
def x_got_nav(env, model, parents, node, how, sort=False):
    M, st = state_of(env, model, parents, sort, **({"strict": True} if model.startswith("ALS") else {}))

    class W:
        pass
    w = W()
    w.M, w.name, w.pks = M, model, PKS
    st.get = lambda x, M=None: obtained(w, x, how)
    c.nav(env, "X18", st, node, M)


WAYS = ["only", "keys", "deferred", "counts deferred", "copied", "base manager", "refreshed", "refreshed in part", "listed"]


@jobs("X18", db="pg", bounds="four tree types, plain and sorted models; objects got with only()/defer() (four choices of fields), copied, through the base manager, "
      "refreshed wholly or in part, from a tree listing; navigation of every node of every shape of up to 3 nodes; every add, move and deletion on shapes of up "
      "to 2 nodes (thorough 3)")
def x18(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for how in WAYS:
            for s in shapes(3 - srt):
                for x in range(len(s)):
                    out.append(("x_got_nav", dict(model=m, parents=s, node=x, how=how, sort=srt)))
            for s in shapes(3 if big and not srt else 2):
                ops = (sorted_ops(s) if srt else plain_ops(s)) + [("delete", x) for x in range(len(s))]
                for op in ops:
                    if op[0] != "root":
                        out.append(("x_got_op", dict(model=m, parents=s, op=op, how=how, sort=srt)))
    return out


witnesses("X18", "navigated", "child", "sibling", "move", "delete")
