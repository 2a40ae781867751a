"""Several database sessions at once: one thread each, one running at a time, switched before every statement and commit.

SymSched gives the symbolic store READ COMMITTED visibility, row locks and waiting; which session goes next is an
input of the path (decided by the engine).  RealSched drives the same schedule on PostgreSQL connections.
"""
import threading
import time

from . import sym
from .sym import And


class Abandon(sym.PathSteer):
    """Ends the threads of a path that is given up."""


class Session:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.state = "new"
        self.go = threading.Semaphore(0)
        self.arrived = threading.Semaphore(0)
        self.out = None
        self.error = None
        self.ended = False
        self.deadlock = False
        self.rank = None
        # symbolic store
        self.writes = {}
        self.locks = {}
        self.waits = ()
        self.savepoints = []
        self.tx = None
        self.aborted = False
        # real connection
        self.pid = None


class Sched:
    def __init__(self, env, fns):
        self.env = env
        self.sessions = [Session(i, f) for i, f in enumerate(fns)]
        self.abort = False
        self.local = threading.local()
        self.finished = 0
        self.switches = 0

    def me(self):
        return getattr(self.local, "s", None)

    def body(self, s):
        self.local.s = s
        try:
            self.wait_go(s)
            self.enter(s)
            s.out = self.env.call(s.fn)
            self.leave(s)
            s.rank = self.finished
            self.finished += 1
        except BaseException as e:
            s.error = e
        finally:
            self.close(s)
            s.ended = True
            s.arrived.release()

    def wait_go(self, s):
        s.go.acquire()
        if self.abort:
            raise Abandon()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(s,), daemon=True) for s in self.sessions]
        try:
            for t in threads:
                t.start()
            for s in self.sessions:
                self.grant(s)
            step, last = 0, None
            while True:
                self.wake()
                ready = [s for s in self.sessions if s.state == "ready"]
                if not ready:
                    blocked = [s for s in self.sessions if s.state == "blocked"]
                    if not blocked:
                        break
                    self.break_deadlock(blocked[-1])
                    continue
                pick = 0
                if len(ready) > 1:
                    pick = self.env.choose(f"turn{step}", len(ready))
                    step += 1
                if last is not None and ready[pick] is not last and last.state == "ready":
                    self.switches += 1
                last = ready[pick]
                self.grant(last)
        finally:
            self.abort = True
            for s in self.sessions:
                if s.state != "done":
                    s.go.release()
            for t in threads:
                t.join(20)
        return [s.out for s in self.sessions]

    @staticmethod
    def arrive(s):
        s.state = "done" if s.ended else s.parked

    def grant(self, s):
        s.state = "running"
        s.go.release()
        self.settle(s)
        if s.error is not None:
            raise s.error


# ------------------------------------------------------------------ symbolic store
class SymSched(Sched):
    def __init__(self, env, fns):
        super().__init__(env, fns)
        self.store = env.store
        self.committed = {n: {r[t.pk]: dict(r) for r in t.rows} for n, t in self.store.tables.items()}

    def run(self):
        st = self.store
        st.sched = self
        try:
            return super().run()
        finally:
            st.sched = None
            st.savepoints, st.tx_base, st.aborted = [], None, False
            for n, t in st.tables.items():
                t.rows = [dict(r) for r in self.committed[n].values()]

    def settle(self, s):
        s.arrived.acquire()
        self.arrive(s)

    def wake(self):
        moved = True
        while moved:
            moved = False
            for s in self.sessions:
                if s.state == "blocked" and all(o.state == "done" for o in s.waits):
                    moved = True
                    self.grant(s)

    def break_deadlock(self, s):
        s.deadlock = True
        self.grant(s)

    # ---- called in the session's thread
    def enter(self, s):
        self.load(s)

    def leave(self, s):
        if s.tx is not None:
            raise sym.Unsupported("a session ended inside a transaction")
        self.keep(s)
        self.publish(s)

    def close(self, s):
        pass

    def park(self, s, state, waits=()):
        self.keep(s)
        from django.db import connection
        if connection.get_autocommit() and s.tx is None:
            if state == "blocked":
                raise sym.Unsupported("waiting outside a transaction")
            self.publish(s)
        s.savepoints, s.aborted = self.store.savepoints, self.store.aborted
        s.parked, s.waits = state, waits
        s.arrived.release()
        self.wait_go(s)
        self.load(s)
        if s.deadlock:
            s.deadlock = False
            self.store.aborted = s.tx is not None
            from django.db import OperationalError
            raise OperationalError("deadlock detected")

    def load(self, s):
        st = self.store
        for n, t in st.tables.items():
            rows = {pk: dict(r) for pk, r in self.committed[n].items()}
            for (tn, pk), r in s.writes.items():
                if tn == n:
                    if r is None:
                        rows.pop(pk, None)
                    else:
                        rows[pk] = dict(r)
            t.rows = list(rows.values())
        st.savepoints, st.aborted, st.tx_base = s.savepoints, s.aborted, s.tx

    def keep(self, s):
        """What the session wrote so far, from the difference between its view and what is committed."""
        if self.store.aborted or self.abort:
            return
        s.writes = {}
        for n, t in self.store.tables.items():
            base = self.committed[n]
            seen = set()
            for r in t.rows:
                pk = r[t.pk]
                seen.add(pk)
                b = base.get(pk)
                if b is None or any(r[k] is not b[k] for k in r):
                    s.writes[n, pk] = dict(r)
            for pk in base:
                if pk not in seen:
                    s.writes[n, pk] = None

    def publish(self, s):
        for (n, pk), r in s.writes.items():
            if r is None:
                self.committed[n].pop(pk, None)
            else:
                self.committed[n][pk] = r
        s.writes, s.locks = {}, {}

    def boundary(self, kind):
        s = self.me()
        if s is not None:
            self.park(s, "ready")

    def lock(self, table, pks):
        """Row locks before a write or FOR UPDATE; True if it had to wait (the statement must look at its rows again)."""
        s = self.me()
        others = [o for o in self.sessions if o is not s and o.state != "done" and
                  any((table, pk) in o.locks for pk in pks)]
        if others:
            self.park(s, "blocked", others)
            return True
        for pk in pks:
            s.locks[table, pk] = True
        return False

    def unique(self, table, cols):
        """Waits for uncommitted rows of other sessions that have the same key as one of this session's new rows."""
        s = self.me()
        if s is None:
            return False
        waits = []
        for o in self.sessions:
            if o is s or o.state == "done":
                continue
            for (n, pk), r in o.writes.items():
                if n != table.name or r is None:
                    continue
                for mine in table.rows:
                    b = self.committed[n].get(mine[table.pk])
                    if mine[table.pk] == pk or b is not None and all(mine[k] is b[k] for k in mine):
                        continue
                    if all(mine[c] is not None and r[c] is not None for c in cols):
                        e = And([mine[c] == r[c] for c in cols])
                        if e is not False and bool(e):
                            waits.append(o)
        if waits:
            self.park(s, "blocked", waits)
            return True
        return False

    # ---- transactions
    def begin(self):
        s = self.me()
        s.tx = {}
        s.savepoints = []
        self.store.tx_base, self.store.savepoints = s.tx, s.savepoints

    def commit(self):
        s = self.me()
        self.boundary("COMMIT")
        while any(self.unique(t, c) for t in self.store.tables.values() for c, d in t.unique if d):
            pass
        try:
            self.store.check_deferred()
        except Exception:
            self.rollback()
            raise
        self.keep(s)
        self.publish(s)
        s.tx = None
        self.store.tx_base = None

    def rollback(self):
        s = self.me()
        if self.abort:
            return
        s.writes, s.locks, s.tx, s.aborted, s.savepoints = {}, {}, None, False, []
        self.load(s)

    def savepoint(self, sid):
        s = self.me()
        self.keep(s)
        self.store.savepoints.append((sid, dict(s.writes)))

    def savepoint_rollback(self, sid):
        s = self.me()
        if self.abort:
            return
        sp = self.store.savepoints
        for i in range(len(sp) - 1, -1, -1):
            if sp[i][0] == sid:
                s.writes = dict(sp[i][1])
                s.savepoints = sp[: i + 1]
                s.aborted = False
                self.load(s)
                return
        raise sym.Unsupported("unknown savepoint")


# ------------------------------------------------------------------ PostgreSQL
class RealSched(Sched):
    def enter(self, s):
        from django.db import connection
        connection.ensure_connection()
        s.pid = connection.connection.info.backend_pid
        connection.execute_wrappers.append(self.wrapper)
        commit = connection._commit

        def _commit():
            self.boundary()
            return commit()
        connection._commit = _commit

    def leave(self, s):
        pass

    def close(self, s):
        from django.db import connection
        connection.close()

    def wrapper(self, execute, sql, params, many, context):
        if self.env._is_statement(sql):
            self.boundary()
        return execute(sql, params, many, context)

    def boundary(self):
        s = self.me()
        s.parked = "ready"
        s.arrived.release()
        self.wait_go(s)

    def blocked_by(self, s):
        """The sessions s waits for on the server, or None when it is not waiting."""
        from django.db import connection
        with connection.cursor() as cur:
            cur.execute("SELECT wait_event_type, pg_blocking_pids(pid) FROM pg_stat_activity WHERE pid = %s", [s.pid])
            row = cur.fetchone()
        if row is None or row[0] != "Lock":
            return None
        return [o for o in self.sessions if o.pid in row[1]]

    def settle(self, s):
        end = time.time() + 30
        while not s.arrived.acquire(timeout=0.004):
            if s.pid is not None:
                by = self.blocked_by(s)
                if by and all(o.state in ("ready", "blocked") for o in by):
                    s.state = "blocked"
                    return
            if time.time() > end:
                self.abort = True
                raise RuntimeError("a session neither advances nor waits")
        self.arrive(s)

    def wake(self):
        for s in self.sessions:
            if s.state == "blocked":
                by = self.blocked_by(s)
                if not by or all(o.state == "done" for o in by):
                    s.state = "running"
                    self.settle(s)
                    if s.error is not None:
                        raise s.error

    def break_deadlock(self, s):
        time.sleep(0.05)
        for o in self.sessions:
            if o.state == "blocked":
                o.state = "running"
                end = time.time() + 30
                while not o.arrived.acquire(timeout=0.05):
                    if time.time() > end:
                        raise RuntimeError("deadlock not broken")
                self.arrive(o)
                return
