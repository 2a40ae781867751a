"""The admin's tree views."""
from vp.env import And, Iff, Implies, Not, Or
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import models, witnesses
from vp.harness.cross import PLAIN, SORTED, World, kit_of, overflow
from vp.trees import PKS, shapes


class Messages:
    def __init__(self):
        self.kept = []

    def add(self, level, message, extra_tags=""):
        self.kept.append((level, str(message)))


class User:
    is_active = is_staff = True
    is_authenticated = True
    pk = 1

    def __init__(self, perms):
        self.perms = perms

    def has_perm(self, perm, obj=None):
        return bool(self.perms.get(perm.split(".")[1].split("_")[0], False))


def request_of(method, data, perms):
    from django.http import HttpRequest, QueryDict
    r = HttpRequest()
    r.method = method
    q = QueryDict(mutable=True)
    for k, v in data.items():
        q[k] = v
    setattr(r, method, q)
    r.user = User(perms)
    r._messages = Messages()
    return r


def admin_of(M, objects_allowed):
    from django.contrib.admin import AdminSite
    from treebeard.admin import TreeAdmin

    class Admin(TreeAdmin):
        def has_change_permission(self, request, obj=None):
            return super().has_change_permission(request, obj) and (obj is None or bool(objects_allowed[obj.pk]))

    return Admin(M, AdminSite())


@harness
def x_admin_move(env, model, parents, node, target, relation, sort=False, perms=False, lens=None):
    """node/target: index, or a text that is no node's key."""
    from django.core.exceptions import PermissionDenied
    w = World(env, "X10", model, parents, sort)
    f = w.f
    have = {"view": env.bool("view") if perms else True, "change": env.bool("change") if perms else True}
    allowed = {PKS[x]: env.bool(f"may{x}") if perms and x == node else not perms or x != target for x in f.nodes()}
    data = {}
    for k, v in (("node", node), ("target", target)):
        if v is not None:
            data[k] = str(PKS[v]) if isinstance(v, int) else v
    if relation is not None:
        data["relation"] = relation
    ma = admin_of(w.M, allowed)
    req = request_of("POST", data, have)
    res = env.call(ma.move_node, req)
    status = res[1].status_code if res[0] == "ok" else type(res[1]).__name__
    env.observe("status", status)
    rows = w.rows()
    env.observe("rows", rows)
    known = isinstance(node, int) and isinstance(target, int) and relation in ("child", "sibling")
    done = status == 200
    env.require("X10", "answers with success, bad request or permission denied", status in (200, 400, "PermissionDenied"))
    may_enter = Or(have["view"], have["change"])
    may = And(have["change"], allowed[PKS[node]]) if known else may_enter
    env.require("X10", "denied exactly without permission", Iff(status == "PermissionDenied", Or(Not(may_enter), And(known, Not(may)))))
    if not done:
        env.require("X10", "a refused request changes nothing", c.same_rows(w.st.before, rows))
        env.reach("denied" if status == "PermissionDenied" else "bad request")
    env.require("X10", "applied only with permission", Implies(done, may))
    if not known:
        env.require("X10", "a malformed request is refused", not done)
        return
    inside = target in f.subtree(node) and not (relation == "sibling" and target == node)
    if inside:
        env.require("X10", "a destination inside the node's own branch is refused", not done)
        return
    if status == 400 and model.startswith("MP"):
        env.require("X10", "refused only for lack of room", no_room(w, node, target, relation))
        env.reach("no room")
        return
    env.require("X10", "a proper request is applied", Implies(may, done))
    if not done:
        return
    if sort:
        par = target if relation == "child" else f.parent(target)
        if par != f.parent(node):
            f.siblings(node).remove(node)
            f.insert(node, par, 0)
    else:
        f.move(node, target, "last-child" if relation == "child" else "left")
    w.moved = node
    w.check(rows)
    by = {r["id"]: r for r in rows}
    for x in f.nodes():
        env.require("X10", "data unchanged", And(by[PKS[x]]["val"] == w.st.val[x], by[PKS[x]]["key"] == w.st.key[x]))
    env.reach("applied")


def no_room(w, node, target, relation):
    from vp.harness import mp
    f = w.f
    top = len(w.st.alpha) ** w.st.sl - 1
    par = target if relation == "child" else f.parent(target)
    deep = (f.depth(par) if par is not None else 0) + max(f.depth(y) for y in f.subtree(node)) - f.depth(node) + 1
    sib = f.kids[par]
    return Or(deep > w.M._meta.get_field("path").max_length,
              bool(sib) and mp.num(w.st, w.st.step[sib[-1]]) == top)


@jobs("X10", db="pg", bounds="forests of at most 3 (thorough 4) nodes, sorted ones at most 2 (thorough 3); every node, target and relation; model-wide and per-object "
      "permissions symbolic on forests of at most 2 nodes; symbolic stored positions and order fields; nine malformed requests; full levels and too-deep moves "
      "on a model with 3 places per level and 3 levels")
def x10(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for s in shapes((4 if big else 3) if not srt else (3 if big else 2)):
            for n in range(len(s)):
                for t in range(len(s)):
                    for rel in ("child", "sibling"):
                        out.append(("x_admin_move", dict(model=m, parents=s, node=n, target=t, relation=rel, sort=srt)))
        for s in shapes(2):
            for n in range(len(s)):
                for t in range(len(s)):
                    for rel in ("child", "sibling"):
                        out.append(("x_admin_move", dict(model=m, parents=s, node=n, target=t, relation=rel, sort=srt, perms=True)))
        s = (None, 0)
        for n, t, rel in [("99", 0, "child"), (0, "99", "child"), (0, "x", "sibling"), ("", 1, "sibling"), (1, None, "child"), (None, 1, "child"),
                          (1, 0, None), (1, 0, "left"), (1, 0, "")]:
            out.append(("x_admin_move", dict(model=m, parents=s, node=n, target=t, relation=rel, sort=srt, perms=True)))
    for m in ("MPTiny", "MPTinyS"):
        for s in [(None, 0, 1), (None, 0, None), (None, None, 1), (None, None), (None, None, 1, 1), (None, 0, 1, None), (None, 0, None, 2)]:
            for n in range(len(s)):
                for t in range(len(s)):
                    for rel in ("child", "sibling"):
                        out.append(("x_admin_move", dict(model=m, parents=s, node=n, target=t, relation=rel, sort=m == "MPTinyS")))
    return out


witnesses("X10", "applied", "denied", "bad request", "no room")


# ===================================================================== listing
def listing_of(env, ma, parent, have, page, ajax):
    """(status, [(row pk as displayed)], [context rows])"""
    import html
    import json
    import re
    from django.core.exceptions import PermissionDenied
    from django.http import Http404
    from treebeard.templatetags.admin_tree import tree_context
    req = request_of("GET", {"p": str(page)} if page > 1 else {}, have)
    req.META["SCRIPT_NAME"] = ""
    try:
        if ajax:
            resp = ma.children_view(req, parent)
            if resp.status_code != 200:
                return resp.status_code, None, None
            data = json.loads(resp.content)
            by_text = {str(p): p for p in PKS}
            shown = [by_text.get(x, x) for x in re.findall(r"object \(([^)]*)\)", html.unescape(data["result_html"]))]
            env.observe("pages", [data["page"], data["num_pages"]])
            return 200, shown, data["tree_context"]
        resp = ma.changelist_view(req)
        if resp.status_code != 200:
            return resp.status_code, None, None
        cl = resp.context_data["cl"]
        rows = tree_context(cl, req)
        return 200, [o.pk for o in cl.result_list], rows
    except (PermissionDenied, Http404) as e:
        return type(e).__name__, None, None


@harness
def x_listing(env, model, parents, node, sort=False, perms=False, size=100, page=1, via=None, subs=()):
    """The admin list of a node's children (node: index, None for the top level, text for no node's key)."""
    if via:
        from vp.harness.family import Family
        w = Family(env, "X13", model, parents, subs, via, "base", sort)
    else:
        w = World(env, "X13", model, parents, sort)
    f = w.f
    have = {"view": env.bool("view") if perms else True, "change": env.bool("change") if perms else True}
    allowed = {PKS[x]: env.bool(f"may{x}") if perms else x % 2 == 0 for x in f.nodes()}
    ma = admin_of(w.M, allowed)
    ma.list_per_page = size
    ajax = node is not None
    parent = str(PKS[node]) if isinstance(node, int) else node
    status, shown, rows = listing_of(env, ma, parent, have, page, ajax)
    env.observe("status", status)
    env.observe("rows", rows)
    env.observe("shown", shown)
    may = Or(have["view"], have["change"])
    env.require("X13", "denied exactly without permission", Iff(status == "PermissionDenied", Not(may)))
    env.require("X13", "the listing changes nothing", c.same_rows(w.st.before, w.rows()))
    if status == "PermissionDenied":
        env.reach("denied")
        return
    if isinstance(node, str) or (via and via != "base" and node is not None and node not in w.subs):
        env.require("X13", "no list for what is no node", status == "Http404")
        env.reach("no such node")
        return
    env.require("X13", "the list is shown", status == 200)
    if status != 200:
        return
    kids = [x for x in f.kids[node] if not via or via == "base" or x in w.subs]
    pks = [PKS[x] for x in kids]
    part = pks[size * (page - 1): size * page]
    by_text = {str(p): p for p in PKS}
    ids = [by_text.get(str(r["node-id"]), str(r["node-id"])) for r in rows]
    env.require("X13", "every displayed row has its context, in the same order", shown == ids)
    if kit_of(model).no_stored_order if not via else model.startswith("AL") and sort:
        env.require("X13", "rows are the node's children", set(ids) <= set(pks) and len(ids) == len(set(ids)) == len(part))
        back = dict(zip(pks, kids))
        for a, b in zip(ids, ids[1:]):
            env.require("X13", "rows in the declared order", c.key_le(w.M, w.keys[back[a]], w.keys[back[b]]))
    else:
        env.require("X13", "rows are the node's children in order", ids == part)
    if set(ids) - set(pks):
        return
    for r, pk in zip(rows, ids):
        x = kids[pks.index(pk)]
        env.require("X13", "level", r["level"] == f.depth(x))
        env.require("X13", "parent", r["parent-id"] == (parent if node is not None else "0"))
        if not via or via == "base":
            env.require("X13", "expandable exactly with children", r["has-children"] == int(bool(f.kids[x])))
        env.require("X13", "changeable exactly with permission",
                    Iff(r["can-change"] == 1, And(have["change"], allowed[PKS[x]])))
    env.reach("listed")
    if len(part) > 1:
        env.reach("several rows")
    if page > 1 and part:
        env.reach("second page")


def subsets(xs):
    xs = list(xs)
    return [[x for i, x in enumerate(xs) if k >> i & 1] for k in range(1 << len(xs))]


@jobs("X13", db="pg", bounds="forests of at most 4 (thorough 5) nodes, sorted ones at most 3 (thorough 4); the top level, every node and an unknown key; "
      "pages of 100, 1 and 2 rows; model-wide and per-object permissions symbolic on forests of at most 2 nodes; symbolic stored positions and order fields; "
      "admins of multi-table base and child classes (every subset of nodes being of the child class) and of proxies on forests of at most 3 nodes")
def x13(tier):
    out = []
    big = tier != "quick"
    for m in PLAIN + SORTED:
        srt = m in SORTED
        for s in shapes((5 if big else 4) - srt):
            for n in [None] + list(range(len(s))):
                out.append(("x_listing", dict(model=m, parents=s, node=n, sort=srt)))
        for s in shapes(2):
            for n in [None, "99"] + list(range(len(s))):
                out.append(("x_listing", dict(model=m, parents=s, node=n, sort=srt, perms=True)))
        for s in ((None, None, None), (None, 0, 0, 0)) if not srt or big else ((None, None, None),):
            for size in (1, 2):
                for page in (1, 2):
                    out.append(("x_listing", dict(model=m, parents=s, node=None if s[1] is None else 0, sort=srt, size=size, page=page)))
    for m in ["MPI", "NSI", "ALI", "LTI"] + (["MPSI", "NSSI", "ALSI", "LTSI"] if big else []):
        srt = m[2] == "S"
        for s in shapes(3 if not srt else 2):
            for sub in subsets(range(len(s))):
                for via in ("base", "sub") + (("proxy",) if not srt else ()):
                    for n in [None] + list(range(len(s))):
                        out.append(("x_listing", dict(model=m, parents=s, node=n, sort=srt, via=via, subs=sub)))
    for m in ("MP1Proxy", "NSProxy", "ALProxy", "LTProxy"):
        for s in shapes(3):
            for n in [None] + list(range(len(s))):
                out.append(("x_listing", dict(model=m, parents=s, node=n)))
    return out


witnesses("X13", "listed", "denied", "no such node", "several rows", "second page")


# ===================================================================== editing
def edit_admin(M, Note, may):
    from django.contrib import admin
    from django.http import HttpResponse
    from treebeard.admin import TreeAdmin
    from treebeard.forms import movenodeform_factory

    class Notes(admin.TabularInline):
        model, extra = Note, 0

        def has_add_permission(self, request, obj=None):
            return True
        has_change_permission = has_delete_permission = has_view_permission = has_add_permission

    class Admin(TreeAdmin):
        form = movenodeform_factory(M, fields=["val", "key"])
        inlines = [Notes]

        def log_addition(self, *a):
            pass
        log_change = log_addition

        def render_change_form(self, request, context, add=False, change=False, form_url="", obj=None):
            from django.template.response import TemplateResponse
            context.update({                    # what Django's own method adds, without its look-up of the content type
                "add": add, "change": change, "has_view_permission": self.has_view_permission(request, obj),
                "has_add_permission": self.has_add_permission(request), "has_change_permission": self.has_change_permission(request, obj),
                "has_delete_permission": self.has_delete_permission(request, obj), "has_editable_inline_admin_formsets": True,
                "has_file_field": False, "has_absolute_url": False, "absolute_url": None, "form_url": form_url, "opts": self.opts,
                "content_type_id": 1, "save_as": self.save_as, "save_on_top": self.save_on_top, "to_field_var": "_to_field",
                "is_popup_var": "_popup", "app_label": self.opts.app_label})
            return TemplateResponse(request, "admin/change_form.html", context)         # shown, never rendered here

        def response_add(self, request, obj, post_url_continue=None):
            return HttpResponse("added")

        def response_change(self, request, obj):
            return HttpResponse("changed")

    return Admin(M, admin.AdminSite())


@harness
def x_edit(env, model, parents, node, ref, pos, bad=None, notes=1):
    """The admin's add page (node None) or change page, submitted together with rows of another table."""
    from django.core.exceptions import PermissionDenied
    from vp.harness.cross import placed
    from vp.harness.common import NEWID
    w = World(env, "X15", model, parents)
    Note = getattr(models(), model + "Note")
    old = [] if node is None else [{"id": 1, "node_id": PKS[node], "number": 5}]
    env.load(Note, old)
    perms = {"view": True, "change": env.bool("change"), "add": env.bool("add")}
    ma = edit_admin(w.M, Note, perms)
    number = env.int("number", 0, 9)
    data = {"val": 7, "key": 8, "treebeard_position": pos, "treebeard_ref_node": "" if ref is None else str(PKS[ref])}
    pre = model.lower() + "note_set"
    data.update({pre + "-TOTAL_FORMS": str(notes + len(old)), pre + "-INITIAL_FORMS": str(len(old)), pre + "-MIN_NUM_FORMS": "0",
                 pre + "-MAX_NUM_FORMS": "1000"})
    for i in range(len(old)):
        data.update({f"{pre}-{i}-id": "1", f"{pre}-{i}-node": str(PKS[node]), f"{pre}-{i}-number": 6})
    for i in range(len(old), len(old) + notes):
        data.update({f"{pre}-{i}-id": "", f"{pre}-{i}-node": "" if node is None else str(PKS[node]), f"{pre}-{i}-number": number})
    if bad == "inline":
        data[f"{pre}-{notes + len(old) - 1}-number"] = "x"
    elif bad == "inline missing":                   # an existing row: an empty new one is simply ignored by Django
        data[f"{pre}-0-number"] = ""
    elif bad == "field":
        data["val"] = "x"
    elif bad == "position":
        data["treebeard_position"] = "sorted-child"
    elif bad == "reference":
        data["treebeard_ref_node"] = "99"
    req = request_of("POST", data, perms)
    req._dont_enforce_csrf_checks = True
    req.META["SCRIPT_NAME"] = ""
    try:
        resp = ma.changeform_view(req, None if node is None else str(PKS[node]))
        kind = "page with errors" if getattr(resp, "context_data", None) else resp.content.decode()
    except PermissionDenied:
        kind = "denied"
    except Exception as e:
        kind = type(e).__name__
    env.observe("outcome", kind)
    rows, left = w.rows(), env.rows(Note)
    env.observe("rows", rows)
    env.observe("notes", left)
    may = perms["add"] if node is None else perms["change"]
    env.require("X15", "denied exactly without permission", Iff(kind == "denied", Not(may)))
    own = node is not None and ref is not None and ref in w.f.subtree(node)
    if kind == "PathOverflow":
        env.require("X15", "a refused submission changes nothing", And(c.same_rows(w.st.before, rows), c.same_rows(old, left)))
        return
    if kind == "denied" or bad or own:
        env.require("X15", "a submission with errors is shown again", kind in ("denied", "page with errors"))
        env.require("X15", "a submission with errors changes nothing", And(c.same_rows(w.st.before, rows), c.same_rows(old, left)))
        env.reach("denied" if kind == "denied" else "shown again")
        return
    env.require("X15", "a valid submission is saved", kind == ("added" if node is None else "changed"))
    if kind not in ("added", "changed"):
        return
    env.reach(kind)
    n = NEWID if node is None else node
    w.f = placed(w.f, n, ref, pos, False)
    new = [r["id"] for r in rows if r["id"] not in PKS[:len(parents)]]
    env.require("X15", "one new node when adding", len(new) == (1 if node is None else 0))
    if len(new) != (1 if node is None else 0):
        return
    if node is None:
        w.pks[n] = new[0]
    w.keys[n] = (7, 8)
    w.check(rows)
    for x in w.f.nodes():
        for r in rows:
            if r["id"] == w.pks[x]:
                env.require("X15", "data", And(r["val"] == w.keys[x][0], r["key"] == w.keys[x][1]))
    env.require("X15", "accompanying rows saved for the node", len(left) == len(old) + notes and
                And([r["node_id"] == w.pks[n] for r in left] + [r["number"] == 6 for r in left[:len(old)]] +
                    [r["number"] == number for r in left[len(old):]]))


@jobs("X15", db="pg", bounds="forests of at most 2 nodes (thorough 3; plain models); adding and every node to edit, every reference node (the own branch "
      "included) and position, with an edited and a new row of another table; errors in the node's fields, in the accompanying rows, in the position and in the reference; "
      "permissions symbolic; symbolic stored positions; full levels on a model with 35 places and 3 levels")
def x15(tier):
    out = []
    for m in ("MPA", "NSA", "ALA", "LTA"):
        for s in [()] + shapes(3 if tier != "quick" else 2):
            for n in [None] + list(range(len(s))):
                for r in [None] + list(range(len(s))):
                    for pos in ("first-child", "left", "right"):
                        for bad in (None, "inline") if tier == "quick" and len(s) > 1 else (None, "inline", "inline missing", "field", "position", "reference"):
                            if n is not None or bad != "inline missing":
                                out.append(("x_edit", dict(model=m, parents=s, node=n, ref=r, pos=pos, bad=bad)))
    return out


witnesses("X15", "denied", "shown again", "added", "changed")
