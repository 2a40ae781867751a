"""A Django database backend whose cells may hold symbolic values (see compiler.py for query evaluation)."""
from django.db import DataError, IntegrityError, OperationalError
from django.db.backends.base.base import BaseDatabaseWrapper
from django.db.backends.base.client import BaseDatabaseClient
from django.db.backends.base.creation import BaseDatabaseCreation
from django.db.backends.base.features import BaseDatabaseFeatures
from django.db.backends.base.introspection import BaseDatabaseIntrospection
from django.db.backends.base.operations import BaseDatabaseOperations
from django.db import utils as dbutils
from django.db import models

from .. import sym
from ..sym import And, Not, Or, Unsupported, is_sym


class Table:
    def __init__(self, model):
        self.name = model._meta.db_table
        self.fields = {f.column: f for f in model._meta.local_concrete_fields}
        self.rows = []
        self.pk = model._meta.pk.column
        self.auto = isinstance(model._meta.pk, models.AutoField)
        self.unique = [((f.column,), False) for f in self.fields.values() if f.unique]
        for names in model._meta.unique_together:
            self.unique.append((tuple(model._meta.get_field(n).column for n in names), False))
        for c in model._meta.constraints:
            if isinstance(c, models.UniqueConstraint) and c.fields and c.condition is None:
                self.unique.append((tuple(model._meta.get_field(n).column for n in c.fields), bool(c.deferrable)))
        self.fks = [(f.column, f.target_field.model._meta.db_table, f.target_field.column)
                    for f in self.fields.values() if isinstance(f, models.ForeignKey) and f.db_constraint]
        self.high = 0


class Store:
    """The database content plus statement log, fault injection and constraint checking."""

    def __init__(self, dialect="sqlite"):
        self.dialect = dialect
        self.tables = {}
        self.models = {}
        self.reset()

    def reset(self):
        for t in self.tables.values():
            t.rows, t.high = [], 0
        self.savepoints = []
        self.tx_base = None
        self.log = []
        self.fault = None
        self.observer = None
        self.sched = None
        self.aborted = False
        self.statements = 0
        self.ties = []          # neighbouring sort keys: rows with equal keys come in an order the database is free to choose

    def create(self, model):
        t = Table(model)
        self.tables[t.name] = t
        self.models[t.name] = model

    def snapshot(self):
        return {n: ([dict(r) for r in t.rows]) for n, t in self.tables.items()}

    def restore(self, snap):
        for n, rows in snap.items():
            self.tables[n].rows = [dict(r) for r in rows]

    # ---- statements
    def statement(self, kind, table, info=None):
        if self.aborted:
            raise dbutils.InternalError("current transaction is aborted")
        if self.sched is not None:
            self.sched.boundary(kind)
        self.statements += 1
        self.log.append((kind, table))
        if self.observer is not None:
            self.observer(kind, table, info)
        if self.fault is not None and bool(self.fault == self.statements):
            self.fault_hit = (kind, table)
            if self.dialect == "postgresql" and self.tx_base is not None:
                self.aborted = True
            raise OperationalError("injected failure")

    def integrity(self, msg):
        if self.dialect == "postgresql" and self.tx_base is not None:
            self.aborted = True
        raise IntegrityError(msg)

    def check_value(self, field, value, cond=True):
        """Column constraints for a value stored when cond holds (cond may be symbolic)."""
        if value is None:
            if not field.null and bool(cond):
                self.integrity(f"NOT NULL constraint failed: {field.column}")
            return
        if isinstance(field, (models.PositiveIntegerField, models.PositiveBigIntegerField, models.PositiveSmallIntegerField)):
            if isinstance(value, (int, sym.SymInt)):
                if not bool(Or(Not(cond), value >= 0)):
                    self.integrity(f"CHECK constraint failed: {field.column}")
        if self.dialect == "postgresql" and isinstance(field, models.CharField) and field.max_length:
            if len(value) > field.max_length and bool(cond):
                self.aborted = True
                raise DataError("value too long")

    def check_unique(self, table, deferred=False):
        for cols, defer in table.unique:
            if defer != deferred:
                continue
            dup = []
            rows = table.rows
            for i in range(len(rows)):
                for j in range(i):
                    a, b = [rows[i][c] for c in cols], [rows[j][c] for c in cols]
                    if any(x is None for x in a + b):
                        continue
                    e = And([_eq(x, y) for x, y in zip(a, b)])
                    if e is not False:
                        dup.append(e)
            if dup and bool(Or(dup)):
                self.integrity(f"UNIQUE constraint failed: {table.name}.{cols}")
            if self.sched is not None and not deferred and self.sched.unique(table, cols):
                return self.check_unique(table, deferred)

    def clashes(self, table, row):
        """Whether a row may not be inserted because of a unique constraint."""
        out = [And([_eq(r[c], row[c]) for c in cols]) for cols, defer in table.unique for r in table.rows
               if not any(x[c] is None for c in cols for x in (r, row))]
        return bool(Or(out))

    def check_deferred(self):
        for t in self.tables.values():
            if any(d for _, d in t.unique):
                self.check_unique(t, True)
            for col, other, ocol in t.fks:
                if other not in self.tables:
                    continue
                have = [r[ocol] for r in self.tables[other].rows]
                for r in t.rows:
                    v = r[col]
                    if v is not None and not bool(Or([_eq(v, h) for h in have])):
                        self.integrity("FOREIGN KEY constraint failed")


def _eq(a, b):
    r = a == b
    return r if isinstance(r, sym.SymBool) else bool(r)


STORE = Store()


class DatabaseFeatures(BaseDatabaseFeatures):
    uses_savepoints = True
    can_return_columns_from_insert = True
    can_return_rows_from_bulk_insert = True
    can_return_rows_from_update = False
    has_bulk_insert = True
    has_select_for_update = True
    has_select_for_update_of = True
    has_select_for_update_nowait = True
    has_select_for_update_skip_locked = True
    supports_transactions = True
    can_defer_constraint_checks = True
    supports_boolean_expr_in_select_clause = True
    supports_comparing_boolean_expr = True
    supports_order_by_nulls_modifier = True
    interprets_empty_strings_as_nulls = False
    supports_subqueries_in_group_by = True
    can_use_chunked_reads = True
    supports_ignore_conflicts = True
    has_zoneinfo_database = True
    minimum_database_version = None


class DatabaseOperations(BaseDatabaseOperations):
    compiler_module = "vp.symdb.compiler"

    def quote_name(self, name):
        return '"%s"' % name

    def no_limit_value(self):
        return None

    def adapt_datetimefield_value(self, value):
        return value

    def adapt_datefield_value(self, value):
        return value

    def adapt_timefield_value(self, value):
        return value

    def adapt_decimalfield_value(self, value, max_digits=None, decimal_places=None):
        return value


class DatabaseIntrospection(BaseDatabaseIntrospection):
    pass


class Connection:
    def close(self):
        pass


class Database:
    DataError = dbutils.DataError
    OperationalError = dbutils.OperationalError
    IntegrityError = dbutils.IntegrityError
    InternalError = dbutils.InternalError
    ProgrammingError = dbutils.ProgrammingError
    NotSupportedError = dbutils.NotSupportedError
    DatabaseError = dbutils.DatabaseError
    InterfaceError = dbutils.InterfaceError
    Error = dbutils.Error


class DatabaseWrapper(BaseDatabaseWrapper):
    vendor = "sqlite"
    display_name = "symbolic"
    data_types = {}
    operators = {}
    Database = Database
    client_class = BaseDatabaseClient
    creation_class = BaseDatabaseCreation
    features_class = DatabaseFeatures
    introspection_class = DatabaseIntrospection
    ops_class = DatabaseOperations
    SchemaEditorClass = None

    @property
    def store(self):
        return STORE

    def get_database_version(self):
        return (99,)

    def check_database_version_supported(self):
        pass

    def get_connection_params(self):
        return {}

    def get_new_connection(self, conn_params):
        return Connection()

    def init_connection_state(self):
        pass

    def create_cursor(self, name=None):
        raise Unsupported("raw SQL cursor")

    def is_usable(self):
        return True

    def _close(self):
        pass

    # ---- transactions
    def _set_autocommit(self, autocommit):
        st = self.store
        if st.sched is not None:
            if not autocommit:
                st.sched.begin()
        elif not autocommit:
            st.tx_base = st.snapshot()
        # turning it back on after commit/rollback: nothing to do

    def _commit(self):
        st = self.store
        if st.sched is not None:
            return st.sched.commit()
        try:
            st.check_deferred()
        except IntegrityError:
            if st.tx_base is not None:
                st.restore(st.tx_base)
            st.aborted = False
            raise
        st.tx_base = st.snapshot() if st.tx_base is not None else None
        st.savepoints = []

    def _rollback(self):
        st = self.store
        if st.sched is not None:
            return st.sched.rollback()
        if st.tx_base is not None:
            st.restore(st.tx_base)
        st.savepoints = []
        st.aborted = False

    def _savepoint(self, sid):
        if self.store.sched is not None:
            return self.store.sched.savepoint(sid)
        self.store.savepoints.append((sid, self.store.snapshot()))

    def _savepoint_rollback(self, sid):
        st = self.store
        if st.sched is not None:
            return st.sched.savepoint_rollback(sid)
        for i in range(len(st.savepoints) - 1, -1, -1):
            if st.savepoints[i][0] == sid:
                st.restore(st.savepoints[i][1])
                del st.savepoints[i + 1:]
                st.aborted = False
                return
        raise Unsupported("unknown savepoint")

    def _savepoint_commit(self, sid):
        st = self.store
        for i in range(len(st.savepoints) - 1, -1, -1):
            if st.savepoints[i][0] == sid:
                del st.savepoints[i:]
                return

    def check_constraints(self, table_names=None):
        self.store.check_deferred()

    def schema_editor(self, *a, **k):
        raise Unsupported("schema editor")
