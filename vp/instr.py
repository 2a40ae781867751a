"""Loads the `treebeard` package from the repository's current source with its builtins made symbolic-aware.

Only the source's abstract syntax is touched: calls, `in`, subscripts, f-strings and `%` go through the small
runtime below, which behaves exactly like the plain operation unless a symbolic value takes part.
"""
import ast
import builtins
import collections
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import os
import sys
import types

from . import sym
from .sym import SYM, And, Or, Not, SymBool, SymInt, SymStr, Unsupported, is_sym, ite

REPO = os.environ.get("VP_REPO", "/repo")
EXEMPT = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}
FUNCTIONS = {}       # qualified name -> number of symbolic executions entering it


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module, self.stack = module, []

    # --- scopes
    def _func(self, node):
        self.stack.append(node.name)
        qual = f"{self.module}.{'.'.join(self.stack)}"
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        body = [self.visit(s) for s in node.body]
        body = [x for s in body for x in (s if isinstance(s, list) else [s])]
        enter = ast.Expr(ast.Call(ast.Name("__vp_enter__", ast.Load()), [ast.Constant(qual)], []))
        at = 1 if (isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                   and isinstance(body[0].value.value, str)) else 0
        body.insert(at, enter)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # --- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in EXEMPT:
            return self.generic_visit(node)
        self.generic_visit(node)
        return ast.Call(ast.Name("__vp_call__", ast.Load()), [node.func] + node.args, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__vp_in__" if isinstance(node.ops[0], ast.In) else "__vp_notin__"
            return ast.Call(ast.Name(name, ast.Load()), [node.left, node.comparators[0]], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__vp_get__", ast.Load()), [node.value, _key(node.slice)], [])
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(ast.Call(ast.Name("__vp_set__", ast.Load()), [t.value, _key(t.slice), node.value], []))
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            fn = ast.Lambda(ast.arguments([], [ast.arg("__a"), ast.arg("__b")], None, [], [], None, []),
                            ast.BinOp(ast.Name("__a", ast.Load()), node.op, ast.Name("__b", ast.Load())))
            return ast.Expr(ast.Call(ast.Name("__vp_aug__", ast.Load()), [t.value, _key(t.slice), node.value, fn], []))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(ast.Call(ast.Name("__vp_del__", ast.Load()), [t.value, _key(t.slice)], [])))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(ast.Name("__vp_mod__", ast.Load()), [node.left, node.right], [])
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("__vp_setof__", ast.Load()), [ast.ListComp(node.elt, node.generators)], [])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("__vp_setof__", ast.Load()), [ast.List(node.elts, ast.Load())], [])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is None or isinstance(k, ast.Constant) for k in node.keys) or None in node.keys:
            return node
        pairs = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.Call(ast.Name("__vp_dictof__", ast.Load()), [ast.List(pairs, ast.Load())], [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple([node.key, node.value], ast.Load())
        return ast.Call(ast.Name("__vp_dictof__", ast.Load()), [ast.ListComp(pair, node.generators)], [])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit(spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion),
                                        spec if spec is not None else ast.Constant("")], ast.Load()))
            else:
                parts.append(v)
        return ast.Call(ast.Name("__vp_fmt__", ast.Load()), parts, [])


def _key(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name("__vp_slice__", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_key(e) for e in s.elts], ast.Load())
    return s


# ===================================================================== runtime
def vp_enter(q):
    FUNCTIONS[q] = FUNCTIONS.get(q, 0) + 1


def _len(x):
    return len(x)


def _isinstance(x, t):
    if is_sym(x):
        ts = t if isinstance(t, tuple) else (t,)
        base = {SymInt: int, SymStr: str, SymBool: bool}[type(x)]
        for k in ts:
            if isinstance(k, tuple):
                if _isinstance(x, k):
                    return True
            elif not isinstance(k, type):        # typing constructs such as int | str
                if isinstance(k, type(int | str)) and _isinstance(x, k.__args__):
                    return True
            elif issubclass(base, k) or isinstance(x, k):
                return True
        # abstract classes (Iterable, Sized, ...)
        return any(isinstance(k, type) and k not in (int, str, bool) and issubclass(base, k) for k in ts)
    return isinstance(x, t)


def _str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymStr):
            return x
        if not isinstance(x, (str, int, float, type(None), type)) and not is_sym(x):
            f = getattr(type(x), "__str__", None)
            if f is not None and getattr(f, "__module__", "").startswith("treebeard"):
                return f(x)
    return str(*a, **k)


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return ite(x, 1, 0)
        if isinstance(x, SymStr):
            r = 0
            for c in x.cs:
                r = r * 10 + (c - 48)
            return r
    return int(*a, **k)


def _bool(x=False):
    if is_sym(x):
        return sym.as_cond(x)
    return bool(x)


def _ord(x):
    if isinstance(x, SymStr) and len(x) == 1:
        return x.cs[0]
    return ord(x)


def _chr(x):
    return SymStr([x]) if isinstance(x, SymInt) else chr(x)


def _type(*a):
    if len(a) == 1 and is_sym(a[0]):
        return {SymInt: int, SymStr: str, SymBool: bool}[type(a[0])]
    return type(*a)


def _divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else divmod(a, b)


def _minmax(fn, sgn):
    def f(*a, **k):
        if k or (len(a) == 1 and not hasattr(a[0], "__iter__")):
            return fn(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and all(isinstance(x, (int, SymInt)) for x in xs) and any(is_sym(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = ite((x < r) if sgn < 0 else (x > r), x, r)
            return r
        return fn(xs, **k)
    return f


def _sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def lazy_product(*its, repeat=1):
    pools = [list(p) if not isinstance(p, SymSlice) else p for p in its] * repeat

    def rec(i):
        if i == len(pools):
            yield ()
            return
        for x in pools[i]:
            for rest in rec(i + 1):
                yield (x,) + rest
    return rec(0)


class SymSlice:
    """A concrete sequence sliced from a symbolic start: iterated lazily, one fork per element."""

    def __init__(self, base, start):
        self.base, self.start = base, start

    def __iter__(self):
        i = 0
        n = len(self.base)
        while True:
            if isinstance(self.start, int) and self.start + i >= n:
                return
            idx = self.start + i
            if not bool(idx < n):
                return
            yield self.base[idx] if isinstance(idx, int) else sym.str_at(self.base, idx)
            i += 1

    def _materialise(self):
        return self.base[self.start.__index__():]

    def __len__(self):
        return len(self._materialise())

    def __getitem__(self, k):
        return vp_get(self._materialise(), k)


def _member(x, c):
    """Whether x is in c, without a fork where the elements can be compared as terms."""
    if isinstance(x, (str, int, SymStr, SymInt)) and not isinstance(c, (str, SymStr)):
        return Or([_eq(x, y) for y in c])
    return vp_in(x, c)


class _SetOps:
    """Set algebra for elements that may be symbolic (hashing cannot tell those apart).

    Elements that may coincide are only told apart (by a case split) when an operation depends on it."""
    _loose = None           # elements not told apart yet; the underlying set is empty meanwhile

    def _items(self):
        return self._loose if self._loose is not None else list(super().__iter__())

    def _tight(self):
        items, self._loose = self._loose, None
        if items is not None:
            self._fill(_distinct(items))

    def __len__(self):
        self._tight()
        return super().__len__()

    def __bool__(self):
        return bool(self._loose) or super().__len__() > 0

    def __iter__(self):
        self._tight()
        return super().__iter__()

    def __repr__(self):
        return repr(set(self._items())) if self._loose is None else "{...}"

    def difference(self, *os):
        os = [_elements(o) for o in os]
        return VSet([x for x in self._items() if not any(bool(_member(x, o)) for o in os)])

    def intersection(self, *os):
        os = [_elements(o) for o in os]
        return VSet([x for x in self._items() if all(bool(_member(x, o)) for o in os)])

    def union(self, *os):
        return VSet([*self._items(), *(x for o in os for x in _elements(o))])

    def symmetric_difference(self, o):
        mine, o = self._items(), _elements(o)
        return VSet([x for x in mine if not bool(_member(x, o))] + [x for x in o if not bool(_member(x, mine))])

    def issubset(self, o):
        o = _elements(o)
        return And([_member(x, o) for x in self._items()])

    def issuperset(self, o):
        mine = self._items()
        return And([_member(x, mine) for x in _elements(o)])

    def isdisjoint(self, o):
        mine = self._items()
        return And([Not(_member(x, mine)) for x in _elements(o)])

    def copy(self):
        return VSet(self._items())

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, _SETLIKE) else NotImplemented

    def __rsub__(self, o):
        return VSet(_elements(o)).difference(self) if isinstance(o, _SETLIKE) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, _SETLIKE) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return self.union(o) if isinstance(o, _SETLIKE) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, _SETLIKE) else NotImplemented

    __rxor__ = __xor__

    def __le__(self, o):
        return self.issubset(o) if isinstance(o, _SETLIKE) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if isinstance(o, _SETLIKE) else NotImplemented

    def __lt__(self, o):
        return And(self.issubset(o), Not(self.issuperset(o))) if isinstance(o, _SETLIKE) else NotImplemented

    def __gt__(self, o):
        return And(self.issuperset(o), Not(self.issubset(o))) if isinstance(o, _SETLIKE) else NotImplemented

    def __eq__(self, o):
        return And(self.issubset(o), self.issuperset(o)) if isinstance(o, _SETLIKE) else NotImplemented

    def __ne__(self, o):
        return Not(self == o) if isinstance(o, _SETLIKE) else NotImplemented

    def __contains__(self, x):
        return bool(_member(x, self._items()))


class VSet(_SetOps, set):
    __hash__ = None

    def __init__(self, items=()):
        items = _elements(items)
        if any(sym.has_sym(x, 2) for x in items):
            self._loose = items
        else:
            self._fill(items)

    def _fill(self, items):
        set.clear(self)
        for x in items:
            set.add(self, x)

    def clear(self):
        self._loose = None
        set.clear(self)

    def add(self, x):
        if self._loose is not None or sym.has_sym(x, 2):
            self._loose = [*self._items(), x]
            set.clear(self)
        else:
            set.add(self, x)

    def _pull(self, x):
        self._tight()
        for y in list(set.__iter__(self)):
            if bool(_eq(x, y)):
                self._fill([z for z in set.__iter__(self) if z is not y])
                return True
        return False

    def discard(self, x):
        self._pull(x)

    def remove(self, x):
        if not self._pull(x):
            raise KeyError(x)

    def pop(self):
        self._tight()
        return set.pop(self)

    def update(self, *os):
        for o in os:
            for x in _elements(o):
                self.add(x)

    def _become(self, new):
        self.clear()
        self.update(new)
        return self

    def difference_update(self, *os):
        self._become(self.difference(*os))

    def intersection_update(self, *os):
        self._become(self.intersection(*os))

    def symmetric_difference_update(self, o):
        self._become(self.symmetric_difference(o))

    def __isub__(self, o):
        return self._become(self.difference(o))

    def __iand__(self, o):
        return self._become(self.intersection(o))

    def __ior__(self, o):
        self.update(o)
        return self

    def __ixor__(self, o):
        return self._become(self.symmetric_difference(o))


_SETLIKE = (set, frozenset, type({}.keys()), type({}.items()))


def _elements(o):
    return list(o._items()) if isinstance(o, _SetOps) else list(o)


def _distinct(items):
    items = list(items)
    if not any(sym.has_sym(x, 2) for x in items):
        return dict.fromkeys(items)
    out = []
    for x in items:
        if _find_key(out, x) is _MISSING:
            out.append(x)
    return out


def vp_setof(items=()):
    return VSet(items)


def vp_dictof(pairs):
    out = {}
    for k, v in pairs:
        vp_set(out, k, v)
    return out


def _fromkeys(it, value=None):
    return vp_dictof((x, value) for x in it)


def _dict_update(d, *a, **k):
    for src in a:
        for key, v in (list(src.items()) if hasattr(src, "keys") else list(src)):
            vp_set(d, key, v)
    d.update(k)


def _counter(*a, **k):
    c = collections.Counter(**k)
    if a:
        _count(c, a[0], 1)
    return c


def _count(c, src, sgn):
    for key, n in (list(src.items()) if hasattr(src, "keys") else [(x, 1) for x in src]):
        vp_set(c, key, vp_get(c, key) + sgn * n)


def _defaultdict(factory=None, *a, **k):
    d = collections.defaultdict(factory)
    _dict_update(d, *a, **k)
    return d


def _ordereddict(*a, **k):
    d = collections.OrderedDict()
    _dict_update(d, *a, **k)
    return d


def _dict(*a, **k):
    if len(a) == 1 and not isinstance(a[0], dict) and not hasattr(a[0], "keys"):
        d = vp_dictof(a[0])
        d.update(k)
        return d
    return dict(*a, **k)


def _frozenset(*a):
    items = list(*a)
    return VSet(items) if any(sym.has_sym(x, 2) for x in items) else frozenset(items)


CONCRETE_MODULES = {"re", "string", "json", "textwrap", "math", "unicodedata", "html", "urllib.parse", "base64", "hashlib"}


def concretised(x):
    """A value C code can take: symbolic parts are case split."""
    if isinstance(x, SymStr):
        return str(x)
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymBool):
        return bool(x)
    if type(x) in (list, tuple, set) and sym.has_sym(x):
        return type(x)(concretised(y) for y in x)
    return x


def _map(f, *its):
    return (vp_call(f, *xs) for xs in zip(*its))


def _filter(f, it):
    return (x for x in it if (vp_call(f, x) if f is not None else x))


def _starmap(f, it):
    return (vp_call(f, *xs) for xs in it)


def _reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    for x in it:
        acc = vp_call(f, acc, x)
    return acc


HOOKS = {
    id(map): _map, id(filter): _filter, id(itertools.starmap): _starmap, id(functools.reduce): _reduce,
    id(set): vp_setof, id(dict): _dict, id(frozenset): _frozenset,
    id(isinstance): _isinstance, id(str): _str, id(int): _int, id(bool): _bool, id(ord): _ord, id(chr): _chr,
    id(type): _type, id(divmod): _divmod, id(min): _minmax(min, -1), id(max): _minmax(max, 1),
    id(itertools.product): lazy_product, id(collections.Counter): _counter, id(collections.defaultdict): _defaultdict,
    id(collections.OrderedDict): _ordereddict,
}
_LRU = type(functools.lru_cache(lambda: 0))
_BUILTIN = type("".join)
_METHOD = type(str.join)
_MTYPE = types.MethodType


def vp_call(f, *a, **k):
    h = HOOKS.get(id(f))
    if h is not None:
        return h(*a, **k)
    if type(f) is _LRU and sym.has_sym((a, tuple(k.values()))):
        return f.__wrapped__(*a, **k)            # a memo table must not carry terms from one path to the next
    if type(f) is _MTYPE and type(f.__func__) is _LRU and sym.has_sym((a, tuple(k.values()))):
        return f.__func__.__wrapped__(f.__self__, *a, **k)
    if type(f) is _MTYPE and isinstance(f.__self__, collections.Counter) and f.__name__ in ("update", "subtract") and a:
        _count(f.__self__, a[0], 1 if f.__name__ == "update" else -1)
        return None
    if type(f) is _BUILTIN:
        s = f.__self__
        if f.__name__ == "fromkeys" and s is dict:
            return _fromkeys(*a)
        if f.__name__ == "update" and isinstance(s, dict) and a and sym.has_sym((list(s), a[0]), 4):
            return _dict_update(s, *a, **k)
        if type(s) is str:
            return _str_method(s, f.__name__, f, a, k)
        if isinstance(s, dict) and a:
            return _dict_method(s, f.__name__, f, a, k)
        if type(s) is list and f.__name__ in ("index", "count", "remove") and (is_sym(a[0]) or any(map(is_sym, s))):
            return f(*a, **k)
        if isinstance(s, set) and a and f.__name__ in ("add", "discard", "remove"):
            return _set_method(s, f.__name__, f, a)
        if (a or k) and (type(s).__module__ in CONCRETE_MODULES or getattr(s, "__name__", "") in CONCRETE_MODULES):
            return f(*map(concretised, a), **{n: concretised(v) for n, v in k.items()})
    elif type(f) is _METHOD and f.__objclass__ is str and a and isinstance(a[0], (str, SymStr)):
        if isinstance(a[0], SymStr):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        return vp_call(getattr(a[0], f.__name__), *a[1:], **k)
    elif (a or k) and getattr(f, "__module__", None) in CONCRETE_MODULES:
        return f(*map(concretised, a), **{n: concretised(v) for n, v in k.items()})
    return f(*a, **k)


def _str_method(s, name, f, a, k):
    if name == "join":
        parts = list(a[0])
        if any(isinstance(p, SymStr) for p in parts):
            return SymStr.of(s).join(parts)
        return f(parts)
    if not a or not (sym.has_sym(a) or sym.has_sym(k)):
        return f(*a, **k)
    if name in ("index", "find") and len(a) == 1 and isinstance(a[0], SymStr) and len(a[0]) == 1 and len(set(s)) == len(s):
        c = a[0].cs[0]
        if type(c) is int:
            return f(chr(c))
        if bool(Or([c == ord(x) for x in s])):
            return sym.table_lookup([(ord(x), i) for i, x in enumerate(s)], c)
        if name == "find":
            return -1
        raise ValueError("substring not found")
    m = getattr(SymStr, name, None)
    if m is None or name == "format":
        return f(*map(concretised, a), **{n: concretised(v) for n, v in k.items()})
    return m(SymStr.of(s), *a, **k)


_MISSING = object()


def _find_key(d, key):
    for kk in list(d):
        if kk is key:
            return kk
        if type(kk) is tuple or type(key) is tuple:
            if type(kk) is type(key) and len(kk) == len(key) and bool(And([_eq(x, y) for x, y in zip(kk, key)])):
                return kk
            continue
        if bool(_eq(kk, key)):
            return kk
    return _MISSING


def _eq(a, b):
    r = a == b
    return r if isinstance(r, SymBool) else bool(r)


def _symkeys(d, key):
    return sym.has_sym(key, 2) or any(sym.has_sym(x, 2) for x in d)


def _dict_get(d, key):
    # finite int table with symbolic key: one lookup instead of a fork per key
    if isinstance(key, SymStr) and len(key) == 1 and d and all(type(x) is str and len(x) == 1 for x in d) \
            and all(type(v) is int for v in d.values()):
        c = key.cs[0]
        if type(c) is int:
            return d.get(chr(c), _MISSING)
        dom = None
        if len(c.t) == 1 and c.t[0][1] == 1:
            dom = sym.ENG.atoms[c.t[0][0]][3]
        keys = {ord(x): v for x, v in d.items()}
        if dom is not None and all((x + c.k) in keys for x in dom):
            return sym.table_lookup([(x + c.k, keys[x + c.k]) for x in dom], c)
        if bool(Or([c == x for x in keys])):
            return sym.table_lookup(list(keys.items()), c)
        return _MISSING
    if isinstance(key, SymInt) and d and all(type(x) is int for x in d) and all(type(v) is int for v in d.values()):
        if bool(Or([key == x for x in d])):
            return sym.table_lookup(list(d.items()), key)
        return _MISSING
    k = _find_key(d, key)
    return _MISSING if k is _MISSING else d[k]


def _dict_method(d, name, f, a, k):
    if not _symkeys(d, a[0]) or name not in ("get", "pop", "setdefault", "__contains__", "__getitem__"):
        return f(*a, **k)
    if name == "get":
        r = _dict_get(d, a[0])
        return (a[1] if len(a) > 1 else k.get("default")) if r is _MISSING else r
    kk = _find_key(d, a[0])
    if name == "__contains__":
        return kk is not _MISSING
    if name == "__getitem__":
        return vp_get(d, a[0])
    if name == "pop":
        if kk is _MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return _pop(d, kk)
    if kk is _MISSING:
        v = a[1] if len(a) > 1 else None
        d[a[0]] = v
        return v
    return d[kk]


def _pop(d, kk):
    v = d[kk]
    del d[kk]
    return v


def _set_method(s, name, f, a):
    if not _symkeys(s, a[0]):
        return f(*a)
    kk = _find_key(s, a[0])
    if name == "add":
        if kk is _MISSING:
            s.add(a[0])
        return None
    if kk is _MISSING:
        if name == "remove":
            raise KeyError(a[0])
        return None
    s.remove(kk)


def vp_in(x, c):
    if isinstance(c, str) and isinstance(x, SymStr):
        return SymStr.of(c).contains(x)
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, _SetOps):
        return _member(x, c._items())
    if isinstance(c, (dict, set, frozenset)):
        if _symkeys(c, x):
            return _find_key(c, x) is not _MISSING
        return x in c
    if isinstance(c, (list, tuple)) and (is_sym(x) or any(is_sym(y) for y in c)):
        return Or([_eq(x, y) for y in c])
    return x in c


def vp_notin(x, c):
    return Not(vp_in(x, c))


def vp_slice(a, b, c):
    return slice(a, b, c)


def vp_get(o, k):
    if isinstance(o, dict):
        if _symkeys(o, k):
            r = _dict_get(o, k)
            if r is _MISSING:
                m = getattr(type(o), "__missing__", None)
                if m is not None:
                    return m(o, k)
                raise KeyError(k)
            return r
        return o[k]
    if isinstance(k, slice) and (is_sym(k.start) or is_sym(k.stop)):
        if isinstance(o, str) and isinstance(k.start, SymInt) and k.stop is None and k.step is None and bool(k.start >= 0):
            return SymSlice(o, k.start)
        return o[slice(*[x.__index__() if isinstance(x, SymInt) else x for x in (k.start, k.stop, k.step)])]
    if isinstance(k, SymInt) and isinstance(o, str):
        return sym.str_at(o, k)
    return o[k]


def vp_set(o, k, v):
    if isinstance(o, dict) and _symkeys(o, k):
        kk = _find_key(o, k)
        o[k if kk is _MISSING else kk] = v
    else:
        o[k] = v


def vp_aug(o, k, v, fn):
    vp_set(o, k, fn(vp_get(o, k), v))


def vp_del(o, k):
    if isinstance(o, dict) and _symkeys(o, k):
        kk = _find_key(o, k)
        if kk is _MISSING:
            raise KeyError(k)
        del o[kk]
    else:
        del o[k]


def vp_mod(a, b):
    if isinstance(a, str) and sym.has_sym(b):
        vals = list(b) if isinstance(b, tuple) else [b]
        out, i = SymStr([]), 0
        while i < len(a):
            if a[i] == "%" and i + 1 < len(a):
                t = a[i + 1]
                if t == "%":
                    out = out + "%"
                elif t == "s":
                    out = out + _fmt1(vals.pop(0))
                elif t == "d":
                    out = out + str(vals.pop(0))
                else:
                    return a % concretised(b)
                i += 2
            else:
                out = out + a[i]
                i += 1
        return out
    return a % b


def _fmt1(v):
    r = _str(v)
    return r if isinstance(r, (str, SymStr)) else str(r)


def vp_fmt(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, SymStr):
            if conv == 114:
                out += ["'", v, "'"]
                continue
            if spec:
                v = _pad(v, spec)
            out.append(v)
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = _str(v)
            elif conv == 97:
                v = ascii(v)
            if not spec and not isinstance(v, str):
                v = _str(v)
                out.append(v)
            else:
                out.append(format(v, spec if isinstance(spec, str) else str(spec)))
    if any(isinstance(x, SymStr) for x in out):
        return SymStr([]).join(out)
    return "".join(out)


def _pad(v, spec):
    import re
    m = re.fullmatch(r"(?:(.)?([<>]))?(0)?(\d+)?s?", str(spec))
    if not m:
        return format(str(v), str(spec))
    fill, align, zero, width = m.groups()
    width = int(width or 0)
    fill = fill or ("0" if zero else " ")
    return v.rjust(width, fill) if align == ">" else v.ljust(width, fill)


RUNTIME = {
    "__vp_enter__": vp_enter, "__vp_call__": vp_call, "__vp_in__": vp_in, "__vp_notin__": vp_notin,
    "__vp_get__": vp_get, "__vp_set__": vp_set, "__vp_aug__": vp_aug, "__vp_del__": vp_del, "__vp_mod__": vp_mod,
    "__vp_setof__": vp_setof, "__vp_dictof__": vp_dictof, "__vp_fmt__": vp_fmt, "__vp_slice__": vp_slice,
}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):          # never read or write bytecode caches
        path = self.get_filename(fullname)
        with open(path, "rb") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewriter(fullname).visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(RUNTIME)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, instrument=True):
        self.instrument = instrument

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "treebeard" and not fullname.startswith("treebeard."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        loader = Loader if self.instrument else importlib.machinery.SourceFileLoader
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(fullname, init, loader=loader(fullname, init),
                                                          submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=loader(fullname, base + ".py"))
        return None


def install(instrument=True):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(instrument))
