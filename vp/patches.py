"""Lets symbolic values pass through Django's value conversion layer unchanged."""
from .sym import SYM, SymBool, SymInt, SymStr


def install():
    from django.core.serializers import base as sbase
    from django.core.serializers import python as spython
    from django.db.models import expressions, fields

    def passing(cls, name, types=SYM):
        orig = cls.__dict__.get(name)
        if orig is None:
            return

        def f(self, value, *a, **k):
            if isinstance(value, types):
                return value
            return orig(self, value, *a, **k)
        f.__name__ = name
        setattr(cls, name, f)

    for cls in (fields.CharField, fields.TextField, fields.IntegerField, fields.BooleanField, fields.AutoFieldMixin,
                fields.Field, fields.related.ForeignKey if hasattr(fields, "related") else fields.IntegerField):
        for name in ("to_python", "get_prep_value", "get_db_prep_value", "validate", "run_validators"):
            passing(cls, name)

    from django import forms
    for cls in (forms.IntegerField, forms.Field):
        for name in ("to_python", "validate", "run_validators"):
            passing(cls, name)

    orig_rof = expressions.Value._resolve_output_field

    def rof(self):
        if isinstance(self.value, SymStr):
            return fields.CharField()
        if isinstance(self.value, SymInt):
            return fields.IntegerField()
        if isinstance(self.value, SymBool):
            return fields.BooleanField()
        return orig_rof(self)
    expressions.Value._resolve_output_field = rof

    for mod in (sbase, spython):
        if hasattr(mod, "is_protected_type"):
            o = mod.is_protected_type
            mod.is_protected_type = lambda x, o=o: isinstance(x, SYM) or o(x)

    cp = expressions.BaseExpression.__dict__["convert_value"]
    orig_cv = cp.func

    def convert_value(self):
        f = orig_cv(self)
        return lambda value, expression, connection: value if isinstance(value, SYM) else f(value, expression, connection)
    new = type(cp)(convert_value)
    new.__set_name__(expressions.BaseExpression, "convert_value")
    expressions.BaseExpression.convert_value = new

    from .instr import _str

    def value_to_string(self, obj):
        return _str(self.value_from_object(obj))
    fields.Field.value_to_string = value_to_string

    from django.core.serializers.json import DjangoJSONEncoder
    from .instr import concretised
    orig_default = DjangoJSONEncoder.default
    DjangoJSONEncoder.default = lambda self, o: concretised(o) if isinstance(o, SYM) else orig_default(self, o)
