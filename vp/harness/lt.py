"""Ltree (PostgreSQL)."""
from vp.env import And, Iff, Implies, Not, Or
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import models, witnesses
from vp.trees import PKS

FULL = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALPHA = FULL


class State(c.BaseState):
    """Labels are arbitrary words (length per node given by `lens`), increasing within each sibling group."""

    def __init__(self, env, model, parents, sort=False, lens=None, alpha=ALPHA):
        super().__init__(env, model, parents, sort)
        f = self.f
        self.lab, self.path = {}, {}
        self.alpha = alpha
        for x in f.order():
            p = f.parent(x)
            n = 1 if lens is None else lens[x]
            s = env.str(f"s{x}", n, alpha)
            sib = f.siblings(x)
            i = sib.index(x)
            if i:
                env.assume(self.lab[sib[i - 1]] < s)
            self.lab[x] = s
            self.path[x] = s if p is None else self.path[p] + "." + s
        self.start([{"id": PKS[x], "path": self.path[x], "val": self.val[x], "key": self.key[x]} for x in f.order()])


def split(path):
    return str_(path).split(".")


def str_(p):
    if not (isinstance(p, (list, tuple)) or hasattr(p, "data")):
        return p
    out = ""
    for i, q in enumerate(p):
        out = out + ("." if i else "") + q
    return out


def legal(label):
    if len(label) == 0:
        return False
    out = []
    for i in range(len(label)):
        ch = label[i]
        if isinstance(ch, str):
            out.append(ch in FULL)
        else:
            k = ch.cs[0]
            out.append(chr(k) in FULL if type(k) is int else Or([k == ord(a) for a in FULL]))
    return And(out)


def excused(env, st, f, by, pk, a, b):
    """Known finding LT-SHIFT: shifting a group of siblings appends "A" to every label, which puts a label behind another
    one that extends it with a digit.  True for a pair (a before b) that was shifted so and stands in that relation."""
    if "LT-SHIFT" in env.findings and getattr(st, "several_steps", False):
        # after several insertions the labels before each shift are not known any more: look for the pattern shifts leave in
        # the group (later steps place nodes relative to siblings that are already out of order)
        if f.parent(a) != f.parent(b):
            return False
        labs = [split(by[pk(x)]["path"])[f.depth(x) - 1] for x in f.kids[f.parent(a)]]
        out = []
        for la in labs:
            for lb in labs:
                for k in range(1, len(la)):
                    n = len(la) - k
                    if len(lb) > n + k:
                        out.append(And(la[n:] == "A" * k, lb[len(lb) - k:] == "A" * k, lb[:n] == la[:n], lb[n:n + 1] < "A"))
        return Or(out)
    if "LT-SHIFT" not in env.findings or a not in st.lab or b not in st.lab or st.f.parent(a) != st.f.parent(b):
        return False
    la, lb = st.lab[a], st.lab[b]
    if len(lb) <= len(la):
        return False
    now = [split(by[pk(x)]["path"])[f.depth(x) - 1] for x in (a, b)]
    nxt = lb[len(la)]
    return And(now[0] == la + "A", now[1] == lb + "A", lb[:len(la)] == la, nxt < "A")


class Kit:
    no_stored_order = False
    state = State
    excused = staticmethod(excused)

    @staticmethod
    def exact(env, prop, st, rows, f, pk):
        by = c.present(env, prop, rows, f, pk)
        if by is None:
            return
        Kit.loose(env, prop, st, by, f, pk)
        for p, ks in f.kids.items():
            for i, b in enumerate(ks):
                for a in ks[:i]:
                    env.require(prop, "sibling order", Or(excused(env, st, f, by, pk, a, b),
                                                          by[pk(a)]["path"] < by[pk(b)]["path"]))

    @staticmethod
    def loose(env, prop, st, by, f, pk):
        parts = {x: split(by[pk(x)]["path"]) for x in f.nodes()}
        for x in f.nodes():
            p = f.parent(x)
            env.require(prop, "depth", len(parts[x]) == f.depth(x))
            env.require(prop, "legal labels", And([legal(q) for q in parts[x]]))
            if p is not None:
                env.require(prop, "inside the parent", And([a == b for a, b in zip(parts[x][:-1], parts[p])])
                            if len(parts[x]) == len(parts[p]) + 1 else False)
            for y in f.nodes():
                if y < x:
                    env.require(prop, "paths unique", by[pk(x)]["path"] != by[pk(y)]["path"])

    @staticmethod
    def before(st, a, b):
        return a["path"] < b["path"]


@harness
def lt_insert(env, lens=None, alpha=ALPHA, **p):
    k = type("K", (Kit,), {"state": staticmethod(lambda e, m, s, sort=False: State(e, m, s, sort, lens, alpha))})
    c.insert(env, k, "L01", **p)


@harness
def lt_move(env, lens=None, alpha=ALPHA, **p):
    k = type("K", (Kit,), {"state": staticmethod(lambda e, m, s, sort=False: State(e, m, s, sort, lens, alpha))})
    c.move(env, k, "L02", **p)


@harness
def lt_delete(env, lens=None, alpha=FULL, **p):
    k = type("K", (Kit,), {"state": staticmethod(lambda e, m, s, sort=False: State(e, m, s, sort, lens, alpha))})
    c.delete(env, k, "L03", **p)


@harness
def lt_sorted_add(env, lens=None, alpha=ALPHA, **p):
    k = type("K", (Kit,), {"state": staticmethod(lambda e, m, s, sort=False: State(e, m, s, sort, lens, alpha))})
    c.sorted_add(env, k, "L04", **p)


@harness
def lt_sorted_move(env, lens=None, alpha=ALPHA, **p):
    k = type("K", (Kit,), {"state": staticmethod(lambda e, m, s, sort=False: State(e, m, s, sort, lens, alpha))})
    c.sorted_move(env, k, "L04", **p)


@harness
def lt_nav(env, model, parents, node, sort=False, lens=None, alpha=FULL):
    M = getattr(models(), model)
    st = State(env, M, parents, sort, lens, alpha)
    c.nav(env, "L05", st, node, M)


def mixed(job_list, nmax, longest=2, model=("LT",), sizes=None):
    """Every job, plus a copy for each combination of label lengths 1..longest on pre-states of at most nmax nodes."""
    out = list(job_list)
    for name, p in job_list:
        n = len(p["parents"])
        if 0 < n <= nmax and p["model"] in model:
            for k in range(1, longest ** n):
                lens = tuple(1 + k // longest ** i % longest for i in range(n))
                out.append((name, dict(p, lens=lens)))
    return out


def cousins(job_list):
    """Two parents with a child each, the label of one being a prefix of the other's."""
    return [(n, dict(p, lens=(1, 1, 2, 1))) for n, p in job_list if p["parents"] == (None, 0, None, 2) and p["model"] == "LT"]


BOUNDS = ("Every ordered forest of at most {} nodes with one-character labels and of at most {} nodes with every mix of one and "
          "two character labels, and two roots with a child each at label lengths 1, 1, 2, 1 (thorough tier: {} nodes; up to three characters at two nodes). Labels are symbolic over the "
          "whole digit and upper-case alphabet, so every value and every gap between siblings is covered. {} Larger trees "
          "and longer labels are outside.")


@jobs("L01", db="pg", bounds=BOUNDS.format(5, 3, 6, "Every operation, target and position; keyword and instance creation."))
def l01(tier):
    if tier == "quick":
        js = c.all_inserts("lt", "LT", 5)
        return mixed(js, 3) + cousins(js)
    return mixed(mixed(c.all_inserts("lt", "LT", 6), 4), 2, 3)


@jobs("L02", db="pg", bounds=BOUNDS.format(5, 3, 5, "Every (node, target, position) a move accepts."))
def l02(tier):
    if tier == "quick":
        js = c.all_moves("lt", "LT", 5)
        return mixed(js, 3) + cousins(js)
    return mixed(mixed(c.all_moves("lt", "LT", 5), 4), 2, 3)


@jobs("L03", db="pg", bounds=BOUNDS.format(4, 3, 5, "Every single node, every subset as a queryset, the whole table, and on fewer nodes querysets of children, descendants, siblings, ancestors, roots, combined, excluding, reversed and joined ones, with related or only some columns loaded."))
def l03(tier):
    if tier == "quick":
        js = c.all_deletes("lt", "LT", 4, 3, "LTA")
        return mixed(js, 3) + cousins(js)
    return mixed(c.all_deletes("lt", "LT", 5, 4, "LTA"), 4)


@jobs("L04", db="pg", bounds=BOUNDS.format(4, 2, 4, "Sort keys are symbolic integers in [-50, 50], one ascending key or an "
                                           "ascending and a descending one (2 nodes, thorough 3)."))
def l04(tier):
    if tier == "quick":
        return mixed(c.all_sorted("lt", "LTS", "LTSS", 4, 2), 2, model=("LTS",))
    return mixed(c.all_sorted("lt", "LTS", "LTSS", 4, 3), 3, model=("LTS",))


@jobs("L05", db="pg", bounds=BOUNDS.format(4, 3, 5, "Every node, depth limits none, 0, 1, 2."))
def l05(tier):
    if tier == "quick":
        js = c.all_nav("lt", "LT", 4, "LTS", 3)
        return mixed(js, 3) + cousins(js)
    return mixed(c.all_nav("lt", "LT", 5, "LTS", 4), 4)


# ===================================================================== label generation on its own
@harness
def lt_label(env, before=None, after=None, skips=0, skiplen=1):
    """generate_label on arbitrary neighbours (lengths given; None: absent) and arbitrary labels already in use."""
    from treebeard.ltree import InvalidLabelConstraints, generate_label
    b = None if before is None else env.str("b", before, FULL)
    a = None if after is None else env.str("a", after, FULL)
    if b is not None and a is not None:
        env.assume(a < b)
    sk = [env.str(f"k{i}", skiplen, FULL) for i in range(skips)]
    for i in range(skips):
        for j in range(i):
            env.assume(sk[i] != sk[j])
    res = env.call(generate_label, skip=set(sk), before=b, after=a)
    env.observe("outcome", res[1] if res[0] == "ok" else type(res[1]).__name__)
    if res[0] == "ok":
        env.reach("generated")
        lab = res[1]
        env.require("L06", "legal", legal(lab))
        if a is not None:
            env.require("L06", "after the left neighbour", a < lab)
        if b is not None:
            env.require("L06", "before the right neighbour", lab < b)
        for k in sk:
            env.require("L06", "not in use", lab != k)
        return
    # nothing lies strictly between: the right neighbour is the left one plus "0", or the very first label.  (A label in use
    # between the two means they are not neighbours, which no caller produces: nothing is claimed about refusals then.)
    env.reach("refused")
    between = Or([And(True if a is None else a < k, True if b is None else k < b) for k in sk])
    room = True if b is None else (And(b != "0", b != "00") if a is None else b != a + "0")
    env.require("L06", "refuses only without room", Or(between, Not(room)))
    env.require("L06", "refusal is the documented one", Or(between, isinstance(res[1], InvalidLabelConstraints)))


@jobs("L06", db="pg", bounds="Neighbours absent or of one to three symbolic characters over the whole alphabet, zero to two labels "
                             "in use of one or two characters; longer labels and more labels in use are outside.",
      functions="")
def l06(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for b in [None] + list(range(1, top + 1)):
        for a in [None] + list(range(1, top + 1)):
            for k, ln in ((0, 1), (1, 1), (1, 2), (2, 1), (2, 2)):
                out.append(("lt_label", dict(before=b, after=a, skips=k, skiplen=ln)))
    return out


# ===================================================================== path values
def cut(text):
    """The labels of a text, read off character by character."""
    out, cur = [], ""
    for i in range(len(text)):
        if text[i] == ".":
            out.append(cur)
            cur = ""
        else:
            cur = cur + text[i]
    return out + [cur]


def same(labels, wanted):
    labels = list(labels)
    return len(labels) == len(wanted) and And([a == b for a, b in zip(labels, wanted)])


GIVEN = ["text", "padded", "list", "tuple", "value", "generator"]


def given(form, labels):
    from treebeard.ltree.fields import PathValue
    text = str_(list(labels))
    return {"text": lambda: text, "padded": lambda: " " + text + "\n", "list": lambda: list(labels), "tuple": lambda: tuple(labels),
            "value": lambda: PathValue(list(labels)), "generator": lambda: (x for x in labels)}[form]()


@harness
def lt_value(env, form, lens, other):
    """A path of arbitrary labels given in some form, as a value, through the field and on an object."""
    from treebeard.ltree.fields import PathValue
    L = "L07"
    M = models().LT
    field = M._meta.get_field("path")
    labels = [env.str(f"s{i}", n, FULL) for i, n in enumerate(lens)]
    theirs = [env.str(f"o{i}", n, FULL) for i, n in enumerate(other)]
    text = str_(labels)
    v = PathValue(given(form, labels))
    env.observe("value", list(v))
    env.require(L, "labels", same(v, labels))
    env.require(L, "text", And(str_(v) == text, v.__str__() == text))
    env.require(L, "another of the same labels", And(v == PathValue(text), v == PathValue(labels), PathValue(v) == v))
    w = PathValue(theirs)
    env.require(L, "equal exactly with the same labels", Iff(v == w, same(labels, theirs)))
    for d in range(len(labels) + 1):
        env.require(L, "part of a path", And(same(v[:d], labels[:d]), same(v[d:], labels[d:])))
    if form in ("text", "padded", "list", "value"):
        env.require(L, "written", And(field.get_prep_value(given(form, labels)) == text,
                                      field.get_db_prep_value(given(form, labels), None) == text))
    env.require(L, "read", And(same(field.from_db_value(text, None, None), labels), same(field.to_python(given(form, labels)), labels)))
    node, far = M(path=given(form if form != "generator" else "list", labels)), M(path=str_(theirs))
    env.require(L, "on an object", same(node.path, labels))
    node.path = given(form if form != "generator" else "list", labels)
    env.require(L, "on an object again", And(same(node.path, labels), node.path.__str__() == text))
    n, m = len(labels), len(theirs)
    env.require(L, "depth", And(node.get_depth() == n, Iff(node.is_root(), n == 1)))
    env.require(L, "child", Iff(node.is_child_of(far), n == m + 1 and same(labels[:m], theirs)))
    env.require(L, "sibling", Iff(node.is_sibling_of(far), n == m and same(labels[:-1], theirs[:-1])))
    env.require(L, "descendant", Iff(node.is_descendant_of(far), n > m and same(labels[:m], theirs)))
    env.reach("path given")


@harness
def lt_text(env, n):
    """Any text of labels and dots; no text; what is no path."""
    from treebeard.ltree.fields import PathValue
    L = "L07"
    field = models().LT._meta.get_field("path")
    t = env.str("t", n, "0AZ.")
    labels = cut(t)
    env.assume(And([len(x) > 0 for x in labels]))
    env.require(L, "labels", And(same(PathValue(t), labels), same(field.to_python(t), labels), same(field.from_db_value(t, None, None), labels)))
    env.require(L, "text", And(PathValue(t).__str__() == t, field.get_prep_value(t) == t))
    env.require(L, "no labels", And(len(PathValue("")) == 0, len(PathValue([])) == 0, PathValue("").__str__() == ""))
    env.require(L, "nothing", And(field.to_python(None) is None, field.get_prep_value(None) is None,
                                  field.get_db_prep_value(None, None) is None, field.from_db_value(None, None, None) is None,
                                  not models().LT().path, models().LT(path=None).path is None))
    k = env.int("k", -5, 5)
    for what, f in (("value", PathValue), ("to python", field.to_python), ("prepared", field.get_prep_value),
                    ("written", lambda x: field.get_db_prep_value(x, None))):
        res = env.call(f, k)
        env.require(L, "a number is no path, " + what, res[0] == "err" and isinstance(res[1], ValueError))
    env.reach("text read")


@harness
def lt_lookup(env, parents, node, form, lens=None, alpha=FULL):
    """The lookups on a path column, over a stored forest and a path that may or may not be stored."""
    from treebeard.ltree.fields import Subpath
    L = "L07"
    st = State(env, models().LT, parents, lens=lens, alpha=alpha)
    M, f = models().LT, st.f
    of = {PKS[x]: cut(st.path[x]) for x in f.order()}
    if node is None:
        mine = [env.str("q0", 1, alpha), env.str("q1", 1, alpha)]
    else:
        mine = of[PKS[node]]
    up = [r.pk for r in M.objects.filter(path__ancestors=given(form, mine))]
    down = [r.pk for r in M.objects.filter(path__descendants=given(form, mine))]
    at = [r.pk for r in M.objects.filter(path=given(form, mine))]
    env.observe("found", [up, down, at])
    for pk, labels in of.items():
        k = len(labels)
        env.require(L, "ancestors", Iff(pk in up, k <= len(mine) and same(mine[:k], labels)))
        env.require(L, "descendants", Iff(pk in down, k >= len(mine) and same(labels[: len(mine)], mine)))
        env.require(L, "exact", Iff(pk in at, same(labels, mine)))
    env.require(L, "each once", all(len(set(q)) == len(q) for q in (up, down, at)))
    for d in (1, 2, 3):
        env.require(L, "depth", sorted(M.objects.filter(path__depth=d).values_list("pk", flat=True)) == sorted(pk for pk in of if len(of[pk]) == d))
    for pk, head in M.objects.annotate(head=Subpath("path", 0, 1)).values_list("pk", "head"):
        env.require(L, "part of the column", same(head, of[pk][:1]))
    for pk, tail in M.objects.annotate(tail=Subpath("path", 0)).values_list("pk", "tail"):
        env.require(L, "the whole column", same(tail, of[pk]))
    env.reach("looked up")


@jobs("L07", db="pg", bounds="Paths of up to three labels of one or two characters over the whole alphabet, given in six forms, next to a second path of up to "
                             "three labels; every well-formed text of up to five characters over three letters and the dot; lookups over every forest of "
                             "up to three nodes (thorough four) with stored paths and a free path of two labels.", functions="")
def l07(tier):
    big = tier != "quick"
    out = []
    shapes = [(1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1)] + ([(2, 2), (1, 2, 1), (1, 1, 1, 1)] if big else [])
    for form in GIVEN:
        for a in shapes:
            for b in shapes:
                out.append(("lt_value", dict(form=form, lens=a, other=b)))
    for n in range(1, 6 if not big else 7):
        out.append(("lt_text", dict(n=n)))
    from vp.trees import forests
    for n in range(1, 5 if big else 4):
        for parents in forests(n):
            for node in [None] + list(range(n)):
                for form in ("text", "list", "value"):
                    out.append(("lt_lookup", dict(parents=parents, node=node, form=form)))
                    if n == 3:
                        out.append(("lt_lookup", dict(parents=parents, node=node, form=form, lens=(2, 1, 2))))
    return out


witnesses("L07", "path given", "text read", "looked up")
witnesses("L06", "generated", "refused")
witnesses("L01", "inserted")
witnesses("L02", "moved")
witnesses("L03", "some removed, some kept")
witnesses("L04", "inserted", "moved")
witnesses("L05", "navigated")
