"""Additions that run at the same time on separate connections."""
from vp.env import And, Iff, Implies, Not, Or  # noqa: F401
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import witnesses
from vp.harness.cross import World, kit_of, new_data
from vp.trees import shapes

MODELS = ["MP1", "NS", "AL", "LT"]
SORTED = ["MP1S", "NSS", "ALS", "LTS"]


@harness
def x_sessions(env, model, parents, target, count=2, sort=False, shared=False):
    """count sessions each add one child to the target; shared: through one object loaded before."""
    w = World(env, "X12", model, parents, sort)
    objs = [w.M.objects.get(pk=w.pks[target]) for _ in range(1 if shared else count)]
    data = [dict(new_data(env, w, i), key=20 + i) for i in range(count)]
    outs = env.sessions([lambda i=i: w.M.objects.add_child(objs[0 if shared else i], data[i]) for i in range(count)])
    env.observe("outcomes", [o[0] if o[0] == "ok" else type(o[1]).__name__ for o in outs])
    rows = w.rows()
    if any(o[0] == "err" and type(o[1]).__name__ == "PathOverflow" for o in outs):
        return
    env.require("X12", "every addition succeeds", all(o[0] == "ok" for o in outs))
    if not all(o[0] == "ok" for o in outs):
        return
    env.observe("rows", rows)
    new = []
    for i, o in enumerate(outs):
        x = w.fresh_id + i
        w.pks[x] = o[1].pk
        w.keys[x] = (data[i]["val"], data[i]["key"])
        new.append(x)
    by = {r["id"]: r for r in rows}
    kit = kit_of(model)
    env.require("X12", "every addition is stored", all(w.pks[x] in by for x in new))
    if not all(w.pks[x] in by for x in new):
        return
    if not sort:            # some order of the additions; the stored positions say which
        done = []
        for x in new:
            k = len(done)
            while k and bool(kit.before(w.st, by[w.pks[x]], by[w.pks[done[k - 1]]])):
                k -= 1
            done.insert(k, x)
        new = done
    for x in new:
        w.f.insert(x, target, len(w.f.kids[target]))
    w.check(rows)
    for x in new:
        r = by[w.pks[x]]
        env.require("X12", "data", And(r["val"] == w.keys[x][0], r["key"] == w.keys[x][1]))
    env.reach("added concurrently")
    if env.sched.switches:
        env.reach("a session was overtaken before its end")


@jobs("X12", db="pg", bounds="two sessions on PostgreSQL at READ COMMITTED (its row locks, waiting, statement snapshots and uniqueness waits modelled), each adding one child to the same parent, for materialized path, nested sets, adjacency list and ltree trees, plain and node_order_by (symbolic sort keys); every forest of at most 2 nodes (thorough: 3, and three sessions on one), every target, every stored position; every order of their statements and commits that locks permit; parent objects loaded before either session starts, separate or the same. MTI and other isolation levels not covered")
def x12(tier):
    out = []
    big = tier != "quick"
    for m in MODELS + SORTED:
        srt = m in SORTED
        for s in list(shapes(3 if big else 2)):
            for t in range(len(s)):
                for shared in (False, True):
                    out.append(("x_sessions", dict(model=m, parents=s, target=t, sort=srt, shared=shared)))
        for s in [(None,), (None, 0)]:
            if big or (not srt and s == (None,)):
                out.append(("x_sessions", dict(model=m, parents=s, target=0, count=3, sort=srt)))
    return out


witnesses("X12", "added concurrently")
