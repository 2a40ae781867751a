"""The interface a harness is written against, for symbolic execution and for replay on a real database.

A harness builds a pre-state, calls treebeard, and states requirements.  Under SymEnv inputs are symbolic and
requirements are discharged by the solver; under RealEnv the same code runs with the inputs of one assignment.
"""
from . import sym
from .sym import And, Iff, Implies, Not, Or, PathSteer, ite  # noqa: F401  (re-exported to harnesses)


class Skip(Exception):
    """Raised in replay when an assumption does not hold for the given assignment."""


def called(pk, column, model):
    """The name harnesses use for a column: the primary key is "id" whatever its column, except where it refers to another table."""
    return "id" if column == pk and not model._meta.concrete_model._meta.pk.remote_field else column


class EnvBase:
    symbolic = False

    def __init__(self):
        self.props = None          # None: keep all; else set of property ids whose requirements count
        self.findings = set()
        self.observed = {}
        self.reached = set()
        self.rename = {}           # requirements of a harness used on behalf of another property

    def require(self, prop, label, cond):
        prop = self.rename.get(prop, prop)
        if self.props is None or prop in self.props:
            self._require(f"{prop}:{label}", cond)

    def observe(self, key, value):
        self.observed[key] = value

    def reach(self, label):
        """Marks a situation the check must be able to produce (vacuity witness)."""
        self.reached.add(label)

    def call(self, fn, *a, **k):
        """Outcome of one API call: ("ok", value) or ("err", exception)."""
        try:
            return ("ok", fn(*a, **k))
        except Exception as e:
            return ("err", e)

    def close_connection_state(self):
        from django.db import connection as c
        c.in_atomic_block = False
        c.savepoint_ids = []
        c.needs_rollback = False
        c.atomic_blocks = []
        c.run_on_commit = []
        c.run_commit_hooks_on_set_autocommit_on = False
        c.commit_on_exit = True
        c.closed_in_transaction = False
        c.savepoint_state = 0


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self):
        super().__init__()
        from .symdb.base import STORE
        from django.db import connection
        self.store, self.eng = STORE, sym.ENG
        connection.ensure_connection()
        self.close_connection_state()
        connection.autocommit = True
        STORE.reset()

    def int(self, name, lo=None, hi=None):
        return self.eng.int(name, lo, hi)

    def str(self, name, n, alphabet):
        return self.eng.str(name, n, alphabet)

    def bool(self, name):
        return self.eng.bool(name)

    def choose(self, name, n):
        """A value 0..n-1 decided by case split (every value is explored)."""
        v = self.eng.int(name, 0, n - 1)
        return v if isinstance(v, int) else v.__index__()

    def assume(self, cond):
        self.eng.assume(cond)

    def _require(self, label, cond):
        self.eng.require(label, cond)

    def load(self, model, rows):
        from .symdb.compiler import normal
        t = self.store.tables[model._meta.db_table]
        for r in rows:
            t.rows.append({c: normal(f, r.get(called(t.pk, c, model))) for c, f in t.fields.items()})
        pks = [r[called(t.pk, t.pk, model)] for r in rows]
        t.high = max([t.high] + [p for p in pks if isinstance(p, int)])

    def rows(self, model):
        t = self.store.tables[model._meta.db_table]
        return sorted(({called(t.pk, c, model): v for c, v in r.items()} for r in t.rows), key=lambda r: r[called(t.pk, t.pk, model)])

    def fault(self, k):
        self.store.fault = k
        self.store.fault_hit = None
        self.store.statements = 0

    def statements(self):
        """Statements since fault()."""
        return self.store.statements

    def end_fault(self):
        self.store.fault = None
        return self.store.fault_hit is not None

    def sessions(self, fns):
        """Runs the functions in concurrent sessions, in every order of their statements that row locks permit."""
        from .sessions import SymSched
        self.sched = SymSched(self, fns)
        return self.sched.run()


class RealEnv(EnvBase):
    def __init__(self, assignment, reset):
        super().__init__()
        self.a = assignment
        self.failed = []
        reset()
        self.fault_at = None
        self.count = 0
        self.hit = False

    def _in(self, name, default):
        return self.a.get(name, default)

    def int(self, name, lo=None, hi=None):
        return self._in(name, lo if lo is not None else 0)

    def str(self, name, n, alphabet):
        return self._in(name, alphabet[0] * n)

    def bool(self, name):
        return bool(self._in(name, 0))

    def choose(self, name, n):
        return self._in(name, 0)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def _require(self, label, cond):
        if not cond:
            self.failed.append(label)

    def load(self, model, rows):
        from django.db import connection
        meta = model._meta.concrete_model._meta
        cols = [f.column for f in meta.local_concrete_fields]
        q = connection.ops.quote_name
        with connection.cursor() as cur:
            for r in rows:
                cur.execute(
                    f"INSERT INTO {q(meta.db_table)} ({', '.join(map(q, cols))}) VALUES ({', '.join(['%s'] * len(cols))})",
                    [r.get(called(meta.pk.column, c, model)) for c in cols])
            if connection.vendor == "postgresql" and rows and meta.pk.get_internal_type() == "AutoField":
                cur.execute(f"SELECT setval(pg_get_serial_sequence('{q(meta.db_table)}', '{meta.pk.column}'), "
                            f"(SELECT greatest(max({q(meta.pk.column)}), 0) + 1 FROM {q(meta.db_table)}), false)")

    def rows(self, model):
        from django.db import connection
        meta = model._meta.concrete_model._meta
        cols = [f.column for f in meta.local_concrete_fields]
        q = connection.ops.quote_name
        with connection.cursor() as cur:
            cur.execute(f"SELECT {', '.join(map(q, cols))} FROM {q(meta.db_table)} ORDER BY {q(meta.pk.column)}")
            names = [called(meta.pk.column, c, model) for c in cols]
            return sorted((dict(zip(names, r)) for r in cur.fetchall()), key=lambda r: r[called(meta.pk.column, meta.pk.column, model)])

    # ---- statement-level hooks
    @staticmethod
    def _is_statement(sql):
        head = sql.lstrip().split(None, 1)[0].upper() if sql.strip() else ""
        return head in ("SELECT", "INSERT", "UPDATE", "DELETE", "(SELECT", "WITH")

    def _wrapper(self, execute, sql, params, many, context):
        if self._is_statement(sql):
            self.count += 1
            if self.count == self.fault_at:
                self.hit = True
                from django.db import OperationalError
                raise OperationalError("injected failure")
        return execute(sql, params, many, context)

    def fault(self, k):
        from django.db import connection
        self.fault_at, self.count, self.hit = k, 0, False
        connection.execute_wrappers.append(self._wrapper)

    def statements(self):
        return self.count

    def end_fault(self):
        from django.db import connection
        connection.execute_wrappers.remove(self._wrapper)
        self.fault_at = None
        return self.hit

    def sessions(self, fns):
        from .sessions import RealSched
        self.sched = RealSched(self, fns)
        return self.sched.run()
