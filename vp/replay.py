"""Real-database server: runs harnesses with concrete inputs on uninstrumented treebeard.

usage: /opt/venv/bin/python -m vp.replay sqlite|pg      (JSON requests on stdin, JSON answers on stdout)
       /opt/venv/bin/python -m vp.replay FILE           (re-runs one saved counterexample and prints the outcome)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

from vp import boot


class Cluster:
    """A throw-away PostgreSQL cluster reachable only through a socket in its own scratch directory."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp_pg_", dir="/tmp")
        shutil.chown(self.dir, "postgres", "postgres")
        os.chmod(self.dir, 0o700)
        self.bin = self._bindir()
        self._as(f"{self.bin}/initdb", "-D", f"{self.dir}/data", "-A", "trust", "-U", "postgres", "-N", "-E", "UTF8",
                 "--locale=C")
        self._as(f"{self.bin}/pg_ctl", "-D", f"{self.dir}/data", "-w", "-t", "60", "-l", f"{self.dir}/log", "-o",
                 f"-k {self.dir} -c listen_addresses='' -c fsync=off -c synchronous_commit=off -c full_page_writes=off "
                 f"-c shared_buffers=32MB -c max_connections=20", "start")
        self.settings = {"NAME": "postgres", "USER": "postgres", "HOST": self.dir}

    @staticmethod
    def _bindir():
        for v in sorted(os.listdir("/usr/lib/postgresql"), reverse=True):
            if os.path.exists(f"/usr/lib/postgresql/{v}/bin/initdb"):
                return f"/usr/lib/postgresql/{v}/bin"
        raise RuntimeError("no PostgreSQL")

    def _as(self, *cmd):
        r = subprocess.run(["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", *cmd],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/tmp",
                           env={"PATH": "/usr/bin:/bin", "HOME": self.dir, "LC_ALL": "C"}, text=True)
        if r.returncode:
            raise RuntimeError(r.stdout)

    def stop(self):
        try:
            self._as(f"{self.bin}/pg_ctl", "-D", f"{self.dir}/data", "-m", "immediate", "stop")
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def start(db):
    cluster = None
    if db == "pg":
        cluster = Cluster()
        boot.boot("pg", ltree=True, name=cluster.settings)
    else:
        boot.boot("sqlite")
    from django.core.management import call_command
    from django.db import connection
    from vp.vmodels.models import MODELS
    if db == "pg":
        with connection.cursor() as cur:
            cur.execute("CREATE EXTENSION IF NOT EXISTS ltree")
    call_command("migrate", verbosity=0)
    with connection.schema_editor() as se:
        for m in MODELS:
            se.create_model(m)
    connection.check_constraints()
    tables = [t._meta.db_table for m in MODELS for t in [m] + [f.remote_field.through for f in m._meta.local_many_to_many]]

    def reset():
        from vp.env import EnvBase
        q = connection.ops.quote_name
        connection.execute_wrappers.clear()
        if connection.in_atomic_block or connection.needs_rollback:
            connection.rollback()
            EnvBase().close_connection_state()
        with connection.cursor() as cur:
            if connection.vendor == "postgresql":
                cur.execute("TRUNCATE " + ", ".join(map(q, tables)) + " RESTART IDENTITY CASCADE")
            else:
                cur.execute("PRAGMA foreign_keys = OFF")
                for t in tables:
                    cur.execute(f"DELETE FROM {q(t)}")
                    cur.execute("DELETE FROM sqlite_sequence WHERE name = %s", [t])
                cur.execute("PRAGMA foreign_keys = ON")
    return cluster, reset


def run_one(req, reset):
    from vp import env as envmod
    from vp import harness
    e = envmod.RealEnv(req["assignment"], reset)
    e.props = set(req["props"]) if req.get("props") else None
    e.findings = set(req.get("findings") or ())
    try:
        harness.get(req["harness"])(e, **req["params"])
        return {"failed": e.failed, "observed": jsonable(e.observed)}
    except envmod.Skip:
        return {"failed": [], "skipped": True, "observed": {}}
    except Exception as x:
        return {"failed": e.failed, "error": traceback.format_exc(), "raised": type(x).__name__,
                "observed": jsonable(e.observed)}


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return int(x) if x.is_integer() else x
    return str(x)


def serve(db):
    cluster, reset = start(db)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        print("ready", file=out, flush=True)
        for line in sys.stdin:
            if not line.strip():
                break
            try:
                r = run_one(json.loads(line), reset)
            except Exception:
                r = {"failed": [], "error": traceback.format_exc(), "observed": {}}
            print(json.dumps(r), file=out, flush=True)
    finally:
        if cluster:
            from django.db import connection
            connection.close()
            cluster.stop()


def main():
    arg = sys.argv[1]
    if arg in ("sqlite", "pg"):
        return serve(arg)
    with open(arg) as fh:
        rec = json.load(fh)
    cluster, reset = start(rec["db"])
    try:
        r = run_one(rec, reset)
    finally:
        if cluster:
            from django.db import connection
            connection.close()
            cluster.stop()
    print(json.dumps(r, indent=1))
    bad = r["failed"] + ([f"unexpected {r['raised']}"] if r.get("raised") else [])
    if bad:
        print("reproduced:", ", ".join(bad))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
