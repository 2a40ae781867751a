"""Evaluates Django Query objects directly over rows with symbolic cells (no SQL text is produced).

SQL's three-valued logic is kept as pairs (true-condition, false-condition); whether a cell is NULL is concrete.
A row's membership in a result is a path decision, except for EXISTS, COUNT/SUM/MIN/MAX and integer UPDATEs, which
are encoded as one term without splitting the path.
"""
from django.core.exceptions import EmptyResultSet, FullResultSet
from django.db import DataError, models
from django.db.models import aggregates as dagg
from django.db.models import expressions as dex
from django.db.models import fields as dfields
from django.db.models import functions as dfn
from django.db.models import lookups as dlk
from django.db.models.sql import compiler as djc
from django.db.models.sql import subqueries
from django.db.utils import NotSupportedError
from django.db.models.sql.constants import CURSOR, LOUTER, MULTI, NO_RESULTS, ROW_COUNT, SINGLE
from django.db.models.sql.datastructures import BaseTable, Join
from django.db.models.sql.query import Query
from django.db.models.sql.where import AND, OR, XOR, ExtraWhere, NothingNode, WhereNode
from django.db.transaction import TransactionManagementError

from .. import sym
from ..sym import And, Not, Or, SymBool, SymInt, SymStr, Unsupported, ite, is_sym

AGG_FUNCS = {"COUNT", "MAX", "MIN", "SUM", "AVG"}


def B(c):
    return bool(c)


# ------------------------------------------------------------------ three-valued conditions
def tv(c):
    """condition (python bool / SymBool / None) -> (true, false) pair"""
    if c is None:
        return (False, False)
    c = sym.as_cond(c)
    return (c, Not(c))


def to_value(pair):
    """(true, false) pair -> SQL boolean value"""
    t, f = pair
    if Or(t, f) is False:
        return None
    return t


def is_ltree(expr):
    f = getattr(expr, "_output_field_or_none", None)
    if f is None:
        f = getattr(expr, "output_field", None)
    try:
        return f is not None and f.db_type(None) == "ltree"
    except Exception:
        return False


def labels(v):
    return SymStr.of(v).split(".") if len(v) else []


def trivial(node):
    """"empty"/"full" when Django itself knows the outcome of a condition without asking the database, else None."""
    if isinstance(node, NothingNode):
        return "empty"
    if isinstance(node, WhereNode):
        kinds = [trivial(ch) for ch in node.children]
        r = None
        if node.connector == AND:
            r = "empty" if "empty" in kinds else "full" if all(k == "full" for k in kinds) else None
        elif node.connector == OR:
            r = "full" if "full" in kinds else "empty" if kinds and all(k == "empty" for k in kinds) else None
        if node.negated and r:
            r = "full" if r == "empty" else "empty"
        return r
    if isinstance(node, dex.NegatedExpression):
        k = trivial(node.expression)
        return {"empty": "full", "full": "empty"}.get(k)
    if isinstance(node, dlk.In) and isinstance(node.rhs, (list, tuple, set, frozenset)):
        return "empty" if all(v is None for v in node.rhs) else None
    if isinstance(node, dlk.Exact) and isinstance(node.rhs, Query) and known_empty(node.rhs):
        return "empty"
    if isinstance(node, dex.Exists) and known_empty(node.query):
        return "empty"
    return None


def known_empty(q):
    if getattr(q, "combinator", None):
        return False
    return q.is_empty() or trivial(q.where) == "empty"


class Ev:
    """Expression evaluator for one connection."""

    def __init__(self, compiler):
        self.c = compiler
        self.store = compiler.connection.store

    # -------------------------------------------------------------- conditions
    def cond(self, node, env):
        if node is None:
            return (True, False)
        if isinstance(node, WhereNode):
            parts = [self.cond(ch, env) for ch in node.children]
            if not parts:
                r = (True, False)
            elif node.connector == AND:
                r = (And([p[0] for p in parts]), Or([p[1] for p in parts]))
            elif node.connector == OR:
                r = (Or([p[0] for p in parts]), And([p[1] for p in parts]))
            else:
                r = parts[0]
                for p in parts[1:]:
                    r = (Or(And(r[0], p[1]), And(r[1], p[0])), Or(And(r[0], p[0]), And(r[1], p[1])))
            return (r[1], r[0]) if node.negated else r
        if isinstance(node, NothingNode):
            return (False, True)
        if isinstance(node, ExtraWhere):
            raise Unsupported("raw SQL in where")
        if isinstance(node, dlk.Lookup):
            return self.lookup(node, env)
        if isinstance(node, dex.NegatedExpression):
            t, f = self.cond(node.expression, env)
            return (f, t)
        if isinstance(node, dex.ExpressionWrapper):
            return self.cond(node.expression, env)
        return tv(self.ev(node, env))

    def rhs(self, lk, env):
        r = lk.rhs
        if hasattr(r, "resolve_expression") or isinstance(r, Query):
            return self.ev(r, env)
        return self.prep(lk, r)

    def prep(self, lk, v):
        if v is None or isinstance(v, (bool,)) or is_sym(v):
            return v
        f = getattr(lk.lhs, "output_field", None)
        if f is None or hasattr(v, "resolve_expression"):
            return v
        try:
            if f.db_type(None) == "ltree":
                return f.get_db_prep_value(v, self.c.connection, prepared=True)
        except (AttributeError, KeyError, TypeError):
            pass
        return v

    def lookup(self, lk, env):
        name = lk.lookup_name
        pg = getattr(lk, "postgres_operator", None)
        if name == "isnull" and pg is None:
            v = self.ev(lk.lhs, env)
            return tv((v is None) == bool(lk.rhs))
        if name == "in":
            return self.lookup_in(lk, env)
        a = self.ev(lk.lhs, env)
        if name == "range":
            lo, hi = lk.rhs
            lo = self.ev(lo, env) if hasattr(lo, "resolve_expression") else self.prep(lk, lo)
            hi = self.ev(hi, env) if hasattr(hi, "resolve_expression") else self.prep(lk, hi)
            if a is None or lo is None or hi is None:
                return (False, False)
            return tv(And(a >= lo, a <= hi))
        b = self.rhs(lk, env)
        if name == "exact" and isinstance(b, (bool, SymBool)) and isinstance(a, (bool, SymBool)):
            if a is None or b is None:
                return (False, False)
            return tv(sym.Iff(a, b))
        if a is None or b is None:
            return (False, False)
        if pg is not None:
            if pg == "<@":
                return tv(ltree_prefix(b, a))
            if pg == "@>":
                return tv(ltree_prefix(a, b))
            raise Unsupported("operator " + pg)
        if name in ("exact", "lt", "lte", "gt", "gte"):
            a, b = self.align(lk, a, b)
            if name == "exact":
                return tv(_eq(a, b))
            if is_ltree(lk.lhs):
                lt, eq = ltree_cmp(a, b)
                return tv({"lt": lt, "lte": Or(lt, eq), "gt": Not(Or(lt, eq)), "gte": Not(lt)}[name])
            return tv({"lt": a < b, "lte": a <= b, "gt": a > b, "gte": a >= b}[name] if False else _cmp(name, a, b))
        if name in ("startswith", "istartswith", "endswith", "contains", "icontains", "iendswith", "iexact"):
            x, y = SymStr.of(_text(a)), SymStr.of(_text(b))
            if name[0] == "i" and name not in ("in",):
                x, y, name = x.lower(), y.lower(), name[1:]
            if name == "exact":
                return tv(x == y)
            if name == "contains":
                return tv(x.contains(y))
            return tv(getattr(x, name)(y))
        raise Unsupported("lookup " + name)

    def align(self, lk, a, b):
        return a, b

    def lookup_in(self, lk, env):
        a = self.ev(lk.lhs, env)
        r = lk.rhs
        if isinstance(r, Query) or hasattr(r, "query") and isinstance(getattr(r, "query"), Query):
            q = r if isinstance(r, Query) else r.query
            q = q.clone()
            if not q.has_select_fields and isinstance(lk, dlk.In):
                q.clear_select_clause()
                q.add_fields(["pk"])
            if a is None:
                return (False, False)
            alts = self.sub_values(q, env)
            ts, null = [], False
            for c, v in alts:
                if v is None:
                    null = True
                else:
                    ts.append(And(c, _eq(a, v)))
            t = Or(ts)
            return (t, False if null else Not(t))
        vals = []
        for v in r:
            vals.append(self.ev(v, env) if hasattr(v, "resolve_expression") else self.prep(lk, v))
        null = any(v is None for v in vals)
        vals = [v for v in vals if v is not None]
        if not vals:
            return (False, True)
        if a is None:
            return (False, False)
        t = Or([_eq(a, v) for v in vals])
        return (t, False if null else Not(t))

    def sub_values(self, q, env):
        """[(condition, value)] of a one-column subquery."""
        comp = q.get_compiler(connection=self.c.connection)
        return comp.cond_values(env)

    # -------------------------------------------------------------- expressions
    def ev(self, x, env):
        if isinstance(x, Query):
            return self.scalar(x, env)
        if isinstance(x, (WhereNode, NothingNode, dlk.Lookup)):
            return to_value(self.cond(x, env))
        if isinstance(x, dex.Col):
            row = env[x.alias]
            if row is None:
                return None
            return row[x.target.column]
        if isinstance(x, djc.PositionRef) or isinstance(x, dex.Ref):
            refs = env.get("__refs__")
            if refs is not None and x.refs in refs:
                return refs[x.refs]
            return self.ev(x.source, env)
        if isinstance(x, dex.Value):
            v = x.value
            f = x._output_field_or_none
            if v is None or is_sym(v):
                return v
            if f is not None and not isinstance(v, (int, str, float, bool)):
                v = f.get_db_prep_value(v, connection=self.c.connection)
            return v
        if isinstance(x, dex.Exists):
            q = x.query.exists() if not getattr(x.query, "_vp_exists", False) else x.query
            comp = q.get_compiler(connection=self.c.connection)
            return comp.exists_cond(env)
        if isinstance(x, dex.Subquery):
            return self.scalar(x.query, env)
        if isinstance(x, dex.NegatedExpression):
            t, f = self.cond(x.expression, env)
            return to_value((f, t))
        if isinstance(x, dex.ExpressionWrapper):
            return self.ev(x.expression, env)
        if isinstance(x, dex.OrderBy):
            return self.ev(x.expression, env)
        if isinstance(x, dex.CombinedExpression):
            return self.combined(x, env)
        if isinstance(x, dex.Case):
            res = self.ev(x.default, env)
            for case in reversed(x.cases):
                t, _ = self.cond(case.condition, env)
                if t is True:
                    res = self.ev(case.result, env)
                elif t is not False:
                    v = self.ev(case.result, env)
                    if v is None or res is None:
                        if not (v is None and res is None):
                            res = v if B(t) else res
                    else:
                        res = ite(t, v, res)
            return res
        if isinstance(x, dex.Func):
            return self.func(x, env)
        if isinstance(x, dex.ExpressionList):
            return tuple(self.ev(e, env) for e in x.get_source_expressions())
        if isinstance(x, dex.ColPairs):
            raise Unsupported("composite keys")
        if isinstance(x, (int, str, bool, type(None), SymInt, SymStr, SymBool)):
            return x
        raise Unsupported("expression " + type(x).__name__)

    def scalar(self, q, env):
        comp = q.get_compiler(connection=self.c.connection)
        rows = comp.run(env)
        return rows[0][0] if rows else None

    def combined(self, x, env):
        a, b = self.ev(x.lhs, env), self.ev(x.rhs, env)
        if a is None or b is None:
            return None
        op = x.connector
        if isinstance(a, (bool, SymBool)):
            a = ite(a, 1, 0)
        if isinstance(b, (bool, SymBool)):
            b = ite(b, 1, 0)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "%%"):
            if isinstance(a, float) or isinstance(b, float):
                return a / b if op == "/" else a % b
            if b == 0:
                if self.store.dialect == "postgresql":
                    raise DataError("division by zero")
                return None
            if B(a < 0) or (isinstance(b, int) and b < 0):
                q = -((-a) // b) if not (isinstance(b, int) and b < 0) else -(a // (-b))
                return q if op == "/" else a - q * b
            return a // b if op == "/" else a % b
        raise Unsupported("operator " + op)

    def func(self, x, env):
        args = x.get_source_expressions()
        name = (x.extra.get("function") or x.function or "").upper() if hasattr(x, "extra") else (x.function or "").upper()
        if isinstance(x, (dfn.Concat, dfn.text.ConcatPair)):
            vals = [self.ev(a, env) for a in args]
            if isinstance(x, dfn.Concat):
                return vals[0]
            lt = [is_ltree(a) or (isinstance(a, dfn.text.ConcatPair) and _ltree_pair(a)) for a in args]
            a, b = [SymStr([]) if v is None else v for v in vals]
            a, b = _text(a), _text(b)
            if any(lt):
                if not len(a) or not len(b):
                    return SymStr.of(a) + b
                return SymStr.of(a) + "." + b
            return SymStr.of(a) + b if is_sym(a) or is_sym(b) else a + b
        if isinstance(x, dfn.Cast):
            v = self.ev(args[0], env)
            f = x.output_field
            if v is None:
                return None
            if isinstance(f, models.IntegerField):
                if isinstance(v, (SymInt, int)):
                    return ite(v, 1, 0) if isinstance(v, bool) else v
                if isinstance(v, SymBool):
                    return ite(v, 1, 0)
                raise Unsupported("cast of text to integer")
            if isinstance(f, (models.CharField, models.TextField)):
                return _text(v)
            if isinstance(f, models.BooleanField):
                return sym.as_cond(v)
            raise Unsupported("cast to " + type(f).__name__)
        if isinstance(x, dagg.Aggregate) or name in AGG_FUNCS:
            raise Unsupported("aggregate outside of an aggregate query")
        vals = [self.ev(a, env) for a in args]
        if name == "COALESCE":
            for v in vals:
                if v is not None:
                    return v
            return None
        if isinstance(x, (dfn.Greatest, dfn.Least)):
            if self.store.dialect == "sqlite" and any(v is None for v in vals):
                return None
            vals = [v for v in vals if v is not None]
            if not vals:
                return None
            r = vals[0]
            for v in vals[1:]:
                r = ite(v > r if isinstance(x, dfn.Greatest) else v < r, v, r)
            return r
        if any(v is None for v in vals):
            return None
        if isinstance(x, dfn.NullIf):
            return None if B(_eq(vals[0], vals[1])) else vals[0]
        if name in ("LENGTH", "CHAR_LENGTH"):
            return len(vals[0])
        if name in ("SUBSTRING", "SUBSTR", "LEFT", "RIGHT") or isinstance(x, (dfn.Substr, dfn.Left, dfn.Right)):
            s = SymStr.of(_text(vals[0]))
            if isinstance(x, dfn.Right):
                n = int(vals[1])
                return s[len(s) - n:] if n and n < len(s) else (s if n else SymStr([]))
            if isinstance(x, dfn.Left):
                return s[: int(vals[1])]
            start = int(vals[1])
            if start < 1:
                raise Unsupported("substr from a non-positive position")
            if len(vals) > 2:
                return s[start - 1: start - 1 + int(vals[2])]
            return s[start - 1:]
        if name == "UPPER":
            return SymStr.of(vals[0]).upper()
        if name == "LOWER":
            return SymStr.of(vals[0]).lower()
        if name == "REPLACE":
            raise Unsupported("REPLACE")
        if name == "REPEAT" or isinstance(x, dfn.Repeat):
            return SymStr.of(vals[0]) * int(vals[1])
        if name == "LPAD" or isinstance(x, dfn.LPad):
            n = int(vals[1])
            return SymStr.of(vals[0])[:n].rjust(n, vals[2])
        if name == "ABS":
            return abs(vals[0])
        if name == "MOD":
            return vals[0] % vals[1]
        if name in ("FLOOR", "CEILING", "CEIL", "ROUND"):
            return vals[0]
        if name == "NLEVEL":
            return len(labels(vals[0]))
        if name == "SUBPATH":
            ls = labels(vals[0])
            n = len(ls)
            off = int(vals[1])
            if off < 0:
                off = n + off
            if len(vals) > 2:
                ln = int(vals[2])
                end = n + ln if ln < 0 else off + ln
            else:
                end = n
            end = min(end, n) if len(vals) > 2 and int(vals[2]) >= 0 else end
            if off < 0 or end < 0 or off >= n or off > end:
                self.store.aborted = self.store.dialect == "postgresql"
                raise DataError("invalid positions")
            return SymStr([]).__class__(SymStr.of(".").join(ls[off:end]).cs)
        if name in ("LTREE2TEXT", "TEXT2LTREE"):
            return vals[0]
        if name == "SUBLTREE":
            return SymStr.of(".").join(labels(vals[0])[int(vals[1]):int(vals[2])])
        raise Unsupported("SQL function " + name)


def _ltree_pair(p):
    return any(is_ltree(a) or (isinstance(a, dfn.text.ConcatPair) and _ltree_pair(a)) for a in p.get_source_expressions())


def _text(v):
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, (int, SymInt)):
        return str(int(v))
    return str(v)


def _cmp(name, a, b):
    if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)):
        raise Unsupported("comparison across types")
    return {"lt": lambda: a < b, "lte": lambda: a <= b, "gt": lambda: a > b, "gte": lambda: a >= b}[name]()


def _eq(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return sym.Iff(a, b)
    if isinstance(a, str) and not isinstance(b, str):
        a, b = b, a
    r = a == b
    if r is NotImplemented:
        return False
    return r if isinstance(r, SymBool) else bool(r)


def ltree_prefix(p, x):
    """p is an ancestor-or-self of x"""
    a, b = labels(p), labels(x)
    if len(a) > len(b):
        return False
    return And([u == v for u, v in zip(a, b)])


def ltree_cmp(x, y):
    a, b = labels(x), labels(y)
    n = min(len(a), len(b))
    lt, eq = len(a) < len(b), len(a) == len(b)
    for i in range(n - 1, -1, -1):
        l, e = a[i] < b[i], a[i] == b[i]
        lt, eq = Or(l, And(e, lt)), And(e, eq)
    return lt, eq


def has_agg(x):
    if isinstance(x, dagg.Aggregate):
        return True
    if isinstance(x, dex.Func) and (x.extra.get("function") or x.function or "").upper() in AGG_FUNCS \
            and not isinstance(x, (dfn.Greatest, dfn.Least)):
        return True
    if isinstance(x, (dex.Subquery, Query)):
        return False
    if hasattr(x, "get_source_expressions"):
        return any(has_agg(s) for s in x.get_source_expressions() if s is not None)
    return False


class SQLCompiler(djc.SQLCompiler):
    # ------------------------------------------------------------- neutralise SQL text generation
    def compile(self, node):
        return "x ASC", ()

    def as_sql(self, *a, **k):
        raise Unsupported("SQL text requested")

    def pre_sql_setup(self, with_col_aliases=False):
        self.setup_query(with_col_aliases=with_col_aliases)
        self.has_extra_select = False
        return [], [], []

    def get_extra_select(self, order_by, select):
        return []

    # ------------------------------------------------------------- evaluation
    @property
    def ev(self):
        return Ev(self)

    def ordering(self):
        out = []
        for expr, is_ref in self._order_by_pairs():
            out.append(expr.resolve_expression(self.query, allow_joins=True, reuse=None))
        return out

    def from_rows(self, outer):
        """[(env, condition)] of the FROM clause."""
        q = self.query
        store = self.connection.store
        ev = self.ev
        envs = [(dict(outer), True)]
        for alias in tuple(q.alias_map):
            if not q.alias_refcount[alias]:
                continue
            src = q.alias_map[alias]
            try:
                table = store.tables[src.table_name]
            except KeyError:
                raise Unsupported("table " + src.table_name)
            out = []
            if isinstance(src, BaseTable):
                for env, c in envs:
                    for r in table.rows:
                        e = dict(env)
                        e[alias] = r
                        out.append((e, c))
            else:
                extra = src.join_field.get_extra_restriction(src.table_alias, src.parent_alias)
                if extra or src.filtered_relation:
                    raise Unsupported("extra join restriction")
                for env, c in envs:
                    parent = env[src.parent_alias]
                    ms = []
                    for r in table.rows:
                        if parent is None:
                            continue
                        on = []
                        for lcol, rcol in src.join_cols:
                            a, b = parent[lcol], r[rcol]
                            on.append(False if a is None or b is None else _eq(a, b))
                        on = And(on)
                        if on is not False:
                            e = dict(env)
                            e[alias] = r
                            ms.append((e, on))
                    for e, on in ms:
                        out.append((e, And(c, on)))
                    if src.join_type == LOUTER:
                        none = Not(Or([on for _, on in ms]))
                        if none is not False:
                            e = dict(env)
                            e[alias] = None
                            out.append((e, And(c, none)))
            envs = out
        return envs

    def matched(self, outer):
        """[(env, condition)] after WHERE; conditions False dropped."""
        ev = self.ev
        out = []
        for env, c in self.from_rows(outer):
            t, _ = ev.cond(self.query.where, env)
            c = And(c, t)
            if c is not False:
                out.append((env, c))
        return out

    def prepare(self):
        self.setup_query()
        self.order = self.ordering() if not isinstance(self.query, subqueries.AggregateQuery) else []

    def exists_cond(self, outer=None):
        q = self.query
        if q.combinator or q.group_by is not None or q.distinct or q.low_mark or any(has_agg(e) for e in q.annotation_select.values()):
            return len(self.run(outer)) > 0
        if q.is_empty():
            return False
        self.setup_query()
        return Or([c for _, c in self.matched(outer or {})])

    def cond_values(self, outer):
        q = self.query
        self.prepare()
        if q.combinator or q.group_by is not None or q.is_sliced or any(has_agg(s[0]) for s in self.select):
            return [(True, r[0]) for r in self.run(outer)]
        ev = self.ev
        out = []
        for env, c in self.matched(outer or {}):
            out.append((c, ev.ev(self.select[0][0], env)))
        return out

    def run(self, outer=None):
        """Rows (tuples in self.select order)."""
        outer = outer or {}
        q = self.query
        if q.combinator:
            return self.run_combined(outer)
        self.prepare()
        if q.is_empty() and not any(has_agg(s[0]) for s in self.select):
            return []
        if q.explain_info or q.extra_select or q.extra_tables:
            raise Unsupported("extra/explain")
        ev = self.ev
        exprs = [s[0] for s in self.select]
        agg = any(has_agg(e) for e in exprs)
        where_agg = q.where.contains_aggregate if hasattr(q.where, "contains_aggregate") else False
        if q.group_by is None and agg:
            return [tuple(self.aggregate(e, self.matched(outer)) for e in exprs)]
        if q.group_by is not None and (agg or where_agg or any(has_agg(a) for a in q.annotation_select.values())):
            rows = self.run_grouped(outer, exprs)
        else:
            chosen = []
            low, high = q.low_mark, q.high_mark
            if high is not None and high == low:
                return []
            cand = self.matched(outer)
            if not self.order and not q.distinct and low == 0 and high == 1:
                for env, c in cand:
                    if B(c):
                        chosen = [env]
                        break
            else:
                chosen = [env for env, c in cand if B(c)]
                chosen = self.sort(chosen)
            self.picked = chosen if q.distinct else chosen[low:high]
            rows = [tuple(ev.ev(e, env) for e in exprs) for env in self.picked]
            if q.distinct:
                if q.distinct_fields:
                    raise Unsupported("DISTINCT ON")
                rows = self.dedupe(rows)[low:high]
            return rows
        return rows[q.low_mark:q.high_mark]

    def dedupe(self, rows):
        out = []
        for r in rows:
            if not any(B(And([_nulleq(a, b) for a, b in zip(r, o)])) for o in out):
                out.append(r)
        return out

    def run_combined(self, outer):
        q = self.query
        self.setup_query()
        lists = []
        for sub in q.combined_queries:
            if not q.values_select and sub.values_select:
                pass
            sub = sub.clone()
            if not sub.values_select and q.values_select:
                sub.set_values((*q.extra_select, *q.values_select, *q.annotation_select))
            comp = sub.get_compiler(connection=self.connection)
            lists.append(comp.run(outer))
        if q.combinator == "union":
            rows = [r for l in lists for r in l]
            if not q.combinator_all:
                rows = self.dedupe(rows)
        elif q.combinator == "intersection":
            rows = [r for r in lists[0] if all(any(B(And([_nulleq(a, b) for a, b in zip(r, o)])) for o in l) for l in lists[1:])]
        else:
            rows = [r for r in lists[0] if not any(any(B(And([_nulleq(a, b) for a, b in zip(r, o)])) for o in l) for l in lists[1:])]
        pairs = list(self._order_by_pairs())
        if pairs:
            cols = {}
            for i, (expr, _, alias) in enumerate(self.select):
                if alias:
                    cols[alias] = i
                if isinstance(expr, dex.Col):
                    cols.setdefault(expr.target.name, i)
                    cols.setdefault(expr.target.column, i)
            keys = []
            for expr, _ in pairs:
                e = expr.expression
                name = getattr(e, "name", None) or getattr(e, "refs", None) or (e.target.name if isinstance(e, dex.Col) else None)
                if name == "pk":
                    name = q.model._meta.pk.name
                if name not in cols:
                    raise Unsupported("ordering of a combined query")
                keys.append((cols[name], expr))
            rows = _insertion([([(r[i], o) for i, o in keys], r) for r in rows], self.connection.store)
        return rows[q.low_mark:q.high_mark]

    def sort(self, envs):
        if not self.order or len(envs) < 2:
            return envs
        ev = self.ev
        keyed = []
        for env in envs:
            keyed.append(([(ev.ev(o.expression, env), o) for o in self.order], env))
        return _insertion(keyed, self.connection.store)

    def run_grouped(self, outer, exprs):
        q = self.query
        ev = self.ev
        keys = [e for e in exprs if not has_agg(e)]
        if q.group_by is not True:
            keys += [e for e in q.group_by if not has_agg(e)]
        keys += [o.expression for o in self.order if not has_agg(o)]
        where, having, _ = q.where.split_having_qualify(must_group_by=True)
        groups = []
        for env, c in self.from_rows(outer):
            t, _f = ev.cond(where, env)
            c = And(c, t)
            if c is False:
                continue
            k = [ev.ev(e, env) for e in keys]
            for gk, members in groups:
                if B(And([_nulleq(a, b) for a, b in zip(gk, k)])):
                    members.append((env, c))
                    break
            else:
                groups.append((k, [(env, c)]))
        out = []
        for k, members in groups:
            if not B(Or([c for _, c in members])):
                continue
            vals = tuple(self.aggregate(e, members) if has_agg(e) else ev.ev(e, members[0][0]) for e in exprs)
            if having is not None:
                t = self.agg_cond(having, members)
                if not B(t[0]):
                    continue
            key = [((self.aggregate(o.expression, members) if has_agg(o) else ev.ev(o.expression, members[0][0])), o) for o in self.order]
            out.append((key, vals))
        return _insertion(out, self.connection.store) if self.order else [v for _, v in out]

    def agg_cond(self, node, members):
        if isinstance(node, WhereNode):
            parts = [self.agg_cond(c, members) for c in node.children]
            if node.connector == AND:
                r = (And([p[0] for p in parts]), Or([p[1] for p in parts]))
            elif node.connector == OR:
                r = (Or([p[0] for p in parts]), And([p[1] for p in parts]))
            else:
                raise Unsupported("xor having")
            return (r[1], r[0]) if node.negated else r
        if isinstance(node, dlk.Lookup) and node.lookup_name in ("exact", "lt", "lte", "gt", "gte"):
            a = self.aggregate(node.lhs, members)
            b = self.aggregate(node.rhs, members) if hasattr(node.rhs, "resolve_expression") else node.rhs
            if a is None or b is None:
                return (False, False)
            return tv(_eq(a, b) if node.lookup_name == "exact" else _cmp(node.lookup_name, a, b))
        raise Unsupported("having clause")

    def aggregate(self, e, members):
        """Value of an expression containing aggregates over [(env, cond)]."""
        ev = self.ev
        name = (e.extra.get("function") or e.function or "").upper() if isinstance(e, dex.Func) else ""
        if isinstance(e, dagg.Aggregate) or name in AGG_FUNCS:
            args = e.get_source_expressions()
            src = args[0]
            filt = getattr(e, "filter", None)
            if getattr(e, "distinct", False) and name != "COUNT":
                pass
            items = []
            for env, c in members:
                if filt is not None:
                    c = And(c, ev.cond(filt, env)[0])
                    if c is False:
                        continue
                v = 1 if isinstance(src, dex.Star) else ev.ev(src, env)
                if v is not None:
                    items.append((c, v))
            if name == "COUNT":
                if getattr(e, "distinct", False):
                    seen = []
                    for c, v in items:
                        if B(c) and not any(B(_eq(v, s)) for s in seen):
                            seen.append(v)
                    return len(seen)
                n = 0
                for c, _v in items:
                    n = n + ite(c, 1, 0)
                return n
            default = getattr(e, "default", None)
            if name == "SUM":
                if not B(Or([c for c, _ in items])):
                    return default
                n = 0
                for c, v in items:
                    n = n + ite(c, v, 0)
                return n
            if name in ("MAX", "MIN"):
                if not B(Or([c for c, _ in items])):
                    return default
                # fold: best so far with a validity condition
                valid, best = False, None
                for c, v in items:
                    if best is None:
                        valid, best = c, v
                        continue
                    better = (v > best) if name == "MAX" else (v < best)
                    take = And(c, Or(Not(valid), better))
                    best = ite(take, v, best)
                    valid = Or(valid, c)
                return best
            raise Unsupported("aggregate " + name)
        if isinstance(e, dfn.Coalesce):
            for s in e.get_source_expressions():
                v = self.aggregate(s, members)
                if v is not None:
                    return v
            return None
        if isinstance(e, dex.CombinedExpression):
            tmp = e.copy()
            tmp.lhs, tmp.rhs = [dex.Value(self.aggregate(s, members)) for s in (e.lhs, e.rhs)]
            return ev.combined(tmp, {})
        if isinstance(e, (dex.Ref,)):
            return self.aggregate(e.source, members)
        if isinstance(e, dex.Value):
            return ev.ev(e, {})
        if not has_agg(e):
            if not members:
                return None
            return ev.ev(e, members[0][0])
        raise Unsupported("aggregate expression " + type(e).__name__)

    # ------------------------------------------------------------- Django entry points
    def begin(self, kind, info=None):
        conn = self.connection
        conn.validate_no_broken_transaction()
        conn.ensure_connection()
        if getattr(self.query, "select_for_update", False) and kind == "SELECT":
            if conn.get_autocommit():
                raise TransactionManagementError("select_for_update cannot be used outside of a transaction.")
            kind = "SELECT FOR UPDATE"
        conn.store.statement(kind, self.query.model._meta.db_table, info)

    def locked(self, table, rows, again):
        """The rows to write, once no other session holds a lock on any of them; rows first seen by this statement only."""
        sched = self.connection.store.sched
        if sched is not None:
            first = {r[table.pk] for r in rows}
            while sched.lock(table.name, [r[table.pk] for r in rows]):
                rows = [r for r in again() if r[table.pk] in first]
        return rows

    def elided(self):
        q = getattr(self.query, "inner_query", self.query)
        return self.elide_empty and known_empty(q)

    def execute_sql(self, result_type=MULTI, chunked_fetch=False, chunk_size=100):
        if self.elided():
            if not isinstance(self.query, subqueries.AggregateQuery):
                self.setup_query()
            return iter([]) if result_type == MULTI else None
        self.begin("SELECT")
        rows = self.run()
        store = self.connection.store
        sched = store.sched
        if getattr(self.query, "select_for_update", False) and store.dialect == "postgresql" and not self.query.select_for_update_of:
            q = self.query
            if q.group_by is not None or q.distinct or any(q.alias_refcount.get(a) and getattr(t, "join_type", None) == LOUTER for a, t in q.alias_map.items()):
                store.aborted = True
                raise NotSupportedError("FOR UPDATE is not allowed here (outer join, grouping or DISTINCT)")
        if sched is not None and getattr(self.query, "select_for_update", False):
            table = self.connection.store.tables[self.query.base_table]
            while sched.lock(table.name, [e[self.query.base_table][table.pk] for e in self.picked]):
                rows = self.run()
        if result_type == SINGLE:
            return rows[0] if rows else None
        if result_type == MULTI:
            return iter([rows])
        return None

    def has_results(self):
        if self.elided():
            return False
        self.begin("SELECT")
        return sym.as_cond(self.exists_cond())


def _nulleq(a, b):
    if a is None or b is None:
        return a is None and b is None
    return _eq(a, b)


def _before(ka, kb, dialect):
    """strict 'a sorts before b' condition and equality, lexicographic over order terms"""
    lt, eq = False, True
    for (x, o), (y, _) in zip(ka, kb):
        if x is None or y is None:
            if x is None and y is None:
                l, e = False, True
            else:
                nulls_first = o.nulls_first or (not o.nulls_last and ((dialect != "postgresql") != bool(o.descending)))
                l, e = (x is None) == bool(nulls_first), False
        else:
            if isinstance(x, (bool, SymBool)):
                x, y = ite(x, 1, 0), ite(y, 1, 0)
            if is_ltree(o.expression):
                l, e = ltree_cmp(x, y)
                if o.descending:
                    l = And(Not(l), Not(e))
            else:
                l, e = (y < x if o.descending else x < y), _eq(x, y)
        lt = Or(lt, And(eq, l))
        eq = And(eq, e)
        if eq is False:
            break
    return lt


def _insertion(keyed, store):
    dialect = store.dialect
    out = []
    for k, item in keyed:
        pos = len(out)
        while pos > 0 and B(_before(k, out[pos - 1][0], dialect)):
            pos -= 1
        out.insert(pos, (k, item))
    store.ties += [([x for x, _ in a], [x for x, _ in b]) for (a, _), (b, _) in zip(out, out[1:])]
    return [i for _, i in out]


class SQLAggregateCompiler(SQLCompiler):
    def run(self, outer=None):
        inner = self.query.inner_query.get_compiler(connection=self.connection, elide_empty=self.elide_empty)
        rows = inner.run(outer)
        members = []
        for r in rows:
            refs = {alias: v for (_, _, alias), v in zip(inner.select, r) if alias}
            for name, idx in (inner.annotation_col_map or {}).items():
                refs.setdefault(name, r[idx])
            members.append(({"__refs__": refs}, True))
        return [tuple(self.agg_ref(e, members) for e in self.query.annotation_select.values())]

    def agg_ref(self, e, members):
        return self.aggregate(e, members)

    def exists_cond(self, outer=None):
        return len(self.run(outer)) > 0


class _Guard:
    """Undo a statement that fails half-way."""

    def __init__(self, store):
        self.store = store

    def __enter__(self):
        self.snap = self.store.snapshot()

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, Exception):
            self.store.restore(self.snap)


class SQLInsertCompiler(djc.SQLInsertCompiler, SQLCompiler):
    def compile(self, node):
        return SQLCompiler.compile(self, node)

    def execute_sql(self, returning_fields=None):
        q = self.query
        if q.on_conflict and q.on_conflict.name != "IGNORE":
            raise Unsupported("on conflict")
        opts = q.get_meta()
        store = self.connection.store
        self.begin("INSERT")
        table = store.tables[opts.db_table]
        ev = self.ev
        out = []
        with _Guard(store):
            for obj in q.objs:
                row = {c: None for c in table.fields}
                for f in table.fields.values():
                    if f.has_db_default():
                        raise Unsupported("db_default")
                for f in q.fields:
                    v = self.prepare_value(f, self.pre_save_val(f, obj))
                    if hasattr(v, "resolve_expression") or hasattr(v, "as_sql"):
                        v = ev.ev(v, {})
                    row[f.column] = normal(f, v)
                if row[table.pk] is None:
                    if not table.auto:
                        store.integrity("NOT NULL constraint failed: " + table.pk)
                    table.high = max([table.high] + [r[table.pk] for r in table.rows]) + 1
                    row[table.pk] = table.high
                for f in table.fields.values():
                    store.check_value(f, row[f.column])
                if q.on_conflict and store.clashes(table, row):
                    continue
                table.rows.append(row)
                out.append(row)
            store.check_unique(table)
            if self.connection.get_autocommit():
                store.check_deferred()
        if not returning_fields:
            return []
        cols = [f.get_col(opts.db_table) for f in returning_fields]
        rows = [tuple(r[f.column] for f in returning_fields) for r in out]
        converters = self.get_converters(cols)
        if converters:
            rows = self.apply_converters(rows, converters)
        return list(rows)


def normal(field, v):
    """Text cells are always held as SymStr so that hashing and comparison are uniform."""
    if isinstance(v, str) and isinstance(field, (models.CharField, models.TextField)) and \
            getattr(field, "vp_symbolic", False):
        return SymStr.of(v)
    if isinstance(v, SymBool):
        return v
    return v


class SQLDeleteCompiler(djc.SQLDeleteCompiler, SQLCompiler):
    def compile(self, node):
        return SQLCompiler.compile(self, node)

    def execute_sql(self, result_type=MULTI, *a, **k):
        store = self.connection.store
        q = self.query
        q.get_initial_alias()
        if known_empty(q):
            return 0 if result_type == ROW_COUNT else None
        self.begin("DELETE")
        table = store.tables[q.base_table]
        gone = []
        base = q.base_table
        aliases = [al for al in q.alias_map if q.alias_refcount[al] > 0]
        alias = next(al for al in aliases if isinstance(q.alias_map[al], BaseTable))
        for env, c in self.matched({}):
            r = env[alias]
            if not any(r is g for g in gone) and B(c):
                gone.append(r)
        gone = self.locked(table, gone, lambda: [e[alias] for e, c in self.matched({}) if B(c)])
        with _Guard(store):
            table.rows = [r for r in table.rows if not any(r is g for g in gone)]
            if self.connection.get_autocommit():
                store.check_deferred()
        if result_type == ROW_COUNT:
            return len(gone)
        return None


class SQLUpdateCompiler(djc.SQLUpdateCompiler, SQLCompiler):
    def compile(self, node):
        return SQLCompiler.compile(self, node)

    def pre_sql_setup(self):
        return djc.SQLUpdateCompiler.pre_sql_setup(self)

    def _primary(self):
        q = self.query
        self.pre_sql_setup()
        if not q.values:
            return None
        store = self.connection.store
        if known_empty(q):
            return None
        self.begin("UPDATE")
        table = store.tables[q.base_table]
        ev = self.ev
        assigns = []
        for field, model, val in q.values:
            if hasattr(val, "resolve_expression"):
                val = val.resolve_expression(q, allow_joins=False, for_save=True)
            elif hasattr(val, "prepare_database_save"):
                val = val.prepare_database_save(field)
            val = field.get_db_prep_save(val, connection=self.connection)
            assigns.append((field, val))
        alias = next(al for al in q.alias_map if q.alias_refcount[al] > 0 and isinstance(q.alias_map[al], BaseTable))
        count = 0
        cand = self.matched({})
        if store.sched is not None:
            rows = self.locked(table, [e[alias] for e, c in cand if B(c)],
                               lambda: [e[alias] for e, c in self.matched({}) if B(c)])
            cand = [(e, True) for e, c in self.matched({}) if any(e[alias] is r for r in rows)]
        with _Guard(store):
            changes = []
            for env, c in cand:
                row = env[alias]
                expr = any(hasattr(v, "as_sql") for _, v in assigns)
                if not mergeable(assigns, row) and not B(c):
                    continue
                if not mergeable(assigns, row):
                    c = True
                new = {}
                for field, val in assigns:
                    v = ev.ev(val, env) if hasattr(val, "resolve_expression") or hasattr(val, "as_sql") else val
                    new[field.column] = normal(field, v)
                if c is not True:
                    for col, v in new.items():
                        if not mergeval(row[col], v):
                            c = B(c)
                            break
                if c is False:
                    continue
                changes.append((row, new, c))
                count = count + ite(c, 1, 0)
            for row, new, c in changes:
                for col, v in new.items():
                    store.check_value(table.fields[col], v, c)
            for row, new, c in changes:
                for col, v in new.items():
                    row[col] = v if c is True else ite(c, v, row[col])
            if any(set(new) & {c for cols, d in table.unique for c in cols} for _, new, _ in changes):
                store.check_unique(table)
            if self.connection.get_autocommit():
                store.check_deferred()
        return count

    def execute_sql(self, result_type):
        row_count = self._primary()
        is_empty = row_count is None
        if row_count is None:
            row_count = 0
        for query in self.query.get_related_updates():
            aux = query.get_compiler(self.using).execute_sql(result_type)
            if is_empty and aux is not None:
                row_count = aux
                is_empty = False
        return row_count

    def execute_returning_sql(self, returning_fields):
        n = self.execute_sql(ROW_COUNT)
        return [()] * int(n)


def mergeable(assigns, row):
    """Only integer columns are merged without splitting the path."""
    return all(isinstance(f, models.IntegerField) and not f.primary_key for f, _ in assigns)


def mergeval(a, b):
    return isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool) and not isinstance(b, bool)
