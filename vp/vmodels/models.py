"""Concrete tree models used by the checks (one table each; `val`/`key` are payload or sort keys)."""
import os

from django.db import models

from treebeard.al_tree import AL_Node, AL_NodeManager
from treebeard.mp_tree import MP_Node, MP_NodeManager, MP_NodeQuerySet
from treebeard.ns_tree import NS_Node, NS_NodeManager, NS_NodeQuerySet

LTREE = os.environ.get("VP_LTREE") == "1"


class _Payload(models.Model):
    val = models.IntegerField(default=0)
    key = models.IntegerField(default=0)

    class Meta:
        abstract = True


# ------------------------------------------------------------------ materialized path
class MPBase(MP_Node, _Payload):
    class Meta:
        abstract = True
        app_label = "vmodels"


class MP1(MPBase):
    """one character per step, the default 36 character alphabet"""
    steplen = 1


class MP2(MPBase):
    """two characters per step; the lowest character of the alphabet is not 0"""
    steplen = 2
    alphabet = "BCDFGHJKLMNPQRSTVWXZ"


class MP1S(MPBase):
    steplen = 1
    node_order_by = ["val"]


class MP1SS(MPBase):
    steplen = 1
    node_order_by = ["val", "-key"]


class MPTiny(MPBase):
    """alphabet of four digits, one per step, paths of at most three steps: capacity limits are within reach"""
    steplen = 1
    alphabet = "0123"
    path = models.CharField(max_length=3, unique=True)


class MPTinyS(MPBase):
    steplen = 1
    alphabet = "0123"
    node_order_by = ["val"]
    path = models.CharField(max_length=3, unique=True)


class MP1Proxy(MP1):
    class Meta:
        proxy = True
        app_label = "vmodels"


class MPI(MPBase):
    """base of a multi-table inheritance hierarchy"""
    steplen = 1


class MPISub(MPI):
    extra = models.IntegerField(default=0)

    objects = MP_NodeManager()

    class Meta:
        app_label = "vmodels"


class MPISubProxy(MPISub):
    class Meta:
        proxy = True
        app_label = "vmodels"


class MPSI(MPBase):
    steplen = 1
    node_order_by = ["val"]


class MPSISub(MPSI):
    extra = models.IntegerField(default=0)

    objects = MP_NodeManager()

    class Meta:
        app_label = "vmodels"


class MPRef(models.Model):
    """rows that point at nodes (cascade on delete)"""
    node = models.ForeignKey(MP1, on_delete=models.CASCADE)

    class Meta:
        app_label = "vmodels"


# ------------------------------------------------------------------ nested sets
class NSBase(NS_Node, _Payload):
    class Meta:
        abstract = True
        app_label = "vmodels"


class NS(NSBase):
    pass


class NSS(NSBase):
    node_order_by = ["val"]


class NSSS(NSBase):
    node_order_by = ["val", "-key"]


class NSProxy(NS):
    class Meta:
        proxy = True
        app_label = "vmodels"


class NSI(NSBase):
    pass


class NSISub(NSI):
    extra = models.IntegerField(default=0)

    objects = NS_NodeManager()

    class Meta:
        app_label = "vmodels"


class NSISubProxy(NSISub):
    class Meta:
        proxy = True
        app_label = "vmodels"


class NSSI(NSBase):
    node_order_by = ["val"]


class NSSISub(NSSI):
    extra = models.IntegerField(default=0)

    objects = NS_NodeManager()

    class Meta:
        app_label = "vmodels"


# ------------------------------------------------------------------ adjacency list
class AL(AL_Node, _Payload):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()

    class Meta:
        app_label = "vmodels"


class ALS(AL_Node, _Payload):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["val"]

    class Meta:
        app_label = "vmodels"


class ALSS(AL_Node, _Payload):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["val", "-key"]

    class Meta:
        app_label = "vmodels"


class ALProxy(AL):
    class Meta:
        proxy = True
        app_label = "vmodels"


class ALI(AL_Node, _Payload):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()

    class Meta:
        app_label = "vmodels"


class ALISub(ALI):
    extra = models.IntegerField(default=0)

    objects = AL_NodeManager()

    class Meta:
        app_label = "vmodels"


class ALISubProxy(ALISub):
    class Meta:
        proxy = True
        app_label = "vmodels"


class ALSI(AL_Node, _Payload):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["val"]

    class Meta:
        app_label = "vmodels"


class ALSISub(ALSI):
    extra = models.IntegerField(default=0)

    objects = AL_NodeManager()

    class Meta:
        app_label = "vmodels"


MODELS = [MP1, MP2, MP1S, MP1SS, MPTiny, MPTinyS, MPI, MPISub, MPRef, NS, NSS, NSSS, NSI, NSISub, AL, ALS, ALSS,
          MPSI, MPSISub, NSSI, NSSISub, ALI, ALISub, ALSI, ALSISub]

# ------------------------------------------------------------------ ltree
if LTREE:
    from treebeard.ltree import LT_Node, LT_NodeManager, LT_NodeQuerySet

    class LTBase(LT_Node, _Payload):
        class Meta(LT_Node.Meta):
            abstract = True
            app_label = "vmodels"

    class LT(LTBase):
        class Meta(LTBase.Meta):
            abstract = False

    class LTS(LTBase):
        node_order_by = ["val"]

        class Meta(LTBase.Meta):
            abstract = False

    class LTSS(LTBase):
        node_order_by = ["val", "-key"]

        class Meta(LTBase.Meta):
            abstract = False

    class LTProxy(LT):
        class Meta:
            proxy = True
            app_label = "vmodels"

    class LTI(LTBase):
        class Meta(LTBase.Meta):
            abstract = False

    class LTISub(LTI):
        extra = models.IntegerField(default=0)

        objects = LT_NodeManager()

        class Meta:
            app_label = "vmodels"

    class LTISubProxy(LTISub):
        class Meta:
            proxy = True
            app_label = "vmodels"

    class LTSI(LTBase):
        node_order_by = ["val"]

        class Meta(LTBase.Meta):
            abstract = False

    class LTSISub(LTSI):
        extra = models.IntegerField(default=0)

        objects = LT_NodeManager()

        class Meta:
            app_label = "vmodels"

    MODELS += [LT, LTS, LTSS, LTI, LTISub, LTSI, LTSISub]


# ------------------------------------------------------------------ other alphabets and step lengths (no tables of their own)
class CodeBin1(MP1):
    steplen = 1
    alphabet = "01"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeBin4(CodeBin1):
    steplen = 4

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeTri3(CodeBin4):
    steplen = 3
    alphabet = "bdf"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeDec2(MP1):
    steplen = 2
    alphabet = "0123456789"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeDefault2(MP1):
    steplen = 2

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeDefault4(CodeDec2):
    steplen = 4
    alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeMixed2(MP1):
    steplen = 2
    alphabet = "!0123456789ABCXYZ_abcxyz~"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeGreek2(MP1):
    steplen = 2
    alphabet = "xyzαβγω"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeBase85(MP1):
    """the converter's own default alphabet: not in character order"""
    steplen = 3
    alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeBack2(MP1):
    """as many characters as another alphabet, in another order"""
    steplen = 2
    alphabet = "9876543210"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeBack36(MP1):
    steplen = 2
    alphabet = "ZYXWVUTSRQPONMLKJIHGFEDCBA9876543210"

    class Meta:
        proxy = True
        app_label = "vmodels"


class CodeWide(MP1):
    """more positions than a float can count exactly"""
    steplen = 12
    alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

    class Meta:
        proxy = True
        app_label = "vmodels"


# ------------------------------------------------------------------ trees with rows of another table edited along with a node
class Owner(models.Model):
    number = models.IntegerField()

    class Meta:
        app_label = "vmodels"


class _Owned(models.Model):
    owner = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE, related_name="+")

    class Meta:
        abstract = True


class MPA(MPBase, _Owned):
    steplen = 1
    path = models.CharField(max_length=3, unique=True)


class MPANote(models.Model):
    node = models.ForeignKey(MPA, on_delete=models.CASCADE)
    number = models.IntegerField()

    class Meta:
        app_label = "vmodels"


class NSA(NSBase, _Owned):
    pass


class NSANote(models.Model):
    node = models.ForeignKey(NSA, on_delete=models.CASCADE)
    number = models.IntegerField()

    class Meta:
        app_label = "vmodels"


class ALA(AL_Node, _Payload, _Owned):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()

    class Meta:
        app_label = "vmodels"


class ALANote(models.Model):
    node = models.ForeignKey(ALA, on_delete=models.CASCADE)
    number = models.IntegerField()

    class Meta:
        app_label = "vmodels"


MODELS += [Owner, MPA, MPANote, NSA, NSANote, ALA, ALANote]

if LTREE:
    class LTA(LTBase, _Owned):
        class Meta(LTBase.Meta):
            abstract = False

    class LTANote(models.Model):
        node = models.ForeignKey(LTA, on_delete=models.CASCADE)
        number = models.IntegerField()

        class Meta:
            app_label = "vmodels"

    MODELS += [LTA, LTANote]


# ------------------------------------------------------------------ customised managers: they extend the tree's own manager and queryset, as documented
class _Rich:
    def get_queryset(self):
        order = super().get_queryset().query.order_by
        return self.Query(self.model, using=self._db).order_by(*order).select_related("owner").annotate(
            twice=models.F("val") * 2).prefetch_related("marks")


def _mark(node):
    body = {"__module__": __name__, "node": models.ForeignKey(node, on_delete=models.CASCADE, related_name="marks"),
            "Meta": type("Meta", (), {"app_label": "vmodels"})}
    return type(node.__name__ + "Mark", (models.Model,), body)


class MPRichManager(_Rich, MP_NodeManager):
    class Query(MP_NodeQuerySet):
        pass


class NSRichManager(_Rich, NS_NodeManager):
    class Query(NS_NodeQuerySet):
        pass


class ALRichManager(_Rich, AL_NodeManager):
    Query = models.QuerySet


class MPC(MPBase, _Owned):
    steplen = 1
    objects = MPRichManager()


class MPSC(MPBase, _Owned):
    steplen = 1
    node_order_by = ["val"]
    objects = MPRichManager()


class NSC(NSBase, _Owned):
    objects = NSRichManager()


class NSSC(NSBase, _Owned):
    node_order_by = ["val"]
    objects = NSRichManager()


class ALC(AL_Node, _Payload, _Owned):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    sib_order = models.PositiveIntegerField()
    objects = ALRichManager()

    class Meta:
        app_label = "vmodels"


class ALSC(AL_Node, _Payload, _Owned):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)
    node_order_by = ["val"]
    objects = ALRichManager()

    class Meta:
        app_label = "vmodels"


for _m in (MPC, MPSC, NSC, NSSC, ALC, ALSC):
    MODELS += [_m, _mark(_m)]

if LTREE:
    class LTRichManager(_Rich, LT_NodeManager):
        class Query(LT_NodeQuerySet):
            pass

    class LTC(LTBase, _Owned):
        objects = LTRichManager()

        class Meta(LTBase.Meta):
            abstract = False

    class LTSC(LTBase, _Owned):
        node_order_by = ["val"]
        objects = LTRichManager()

        class Meta(LTBase.Meta):
            abstract = False

    for _m in (LTC, LTSC):
        MODELS += [_m, _mark(_m)]


# ------------------------------------------------------------------ primary keys of other names and types
NEXT = [0]


def next_code():
    NEXT[0] += 1
    return f"new{NEXT[0]}"


class _Uid(models.Model):
    uid = models.AutoField(primary_key=True)

    class Meta:
        abstract = True


class _Code(models.Model):
    code = models.CharField(max_length=20, primary_key=True, default=next_code)

    class Meta:
        abstract = True


class _ALBase(AL_Node, _Payload):
    parent = models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)

    class Meta:
        abstract = True
        app_label = "vmodels"


class _ALOrder(_ALBase):
    sib_order = models.PositiveIntegerField()

    class Meta:
        abstract = True
        app_label = "vmodels"


def _keyed(name, *bases, **body):
    Meta = type("Meta", (), {"app_label": "vmodels", "abstract": False})
    m = type(name, bases, {"__module__": __name__, "Meta": body.pop("Meta", Meta), **body})
    globals()[name] = m
    MODELS.append(m)


for _k, _b in (("U", _Uid), ("T", _Code)):
    for _s in (False, True):
        _n, _o = ("S" if _s else "") + _k, {"node_order_by": ["val"]} if _s else {}
        _keyed("MP" + _n, _b, MPBase, steplen=1, **_o)
        _keyed("NS" + _n, _b, NSBase, **_o)
        _keyed("AL" + _n, _b, _ALBase if _s else _ALOrder, **_o)
        if LTREE:
            _keyed("LT" + _n, _b, LTBase, Meta=type("Meta", (LTBase.Meta,), {"abstract": False}), **_o)


# ------------------------------------------------------------------ nodes with many-to-many data
class Tag(models.Model):
    num = models.IntegerField(default=0)

    class Meta:
        app_label = "vmodels"


class _Tagged(models.Model):
    tags = models.ManyToManyField(Tag)

    class Meta:
        abstract = True


MODELS.append(Tag)
for _s in (False, True):
    _n, _o = "SM" if _s else "M", {"node_order_by": ["val"]} if _s else {}
    _keyed("MP" + _n, MPBase, _Tagged, steplen=1, **_o)
    _keyed("NS" + _n, NSBase, _Tagged, **_o)
    _keyed("AL" + _n, _ALBase if _s else _ALOrder, _Tagged, **_o)
    if LTREE:
        _keyed("LT" + _n, LTBase, _Tagged, Meta=type("Meta", (LTBase.Meta,), {"abstract": False}), **_o)
