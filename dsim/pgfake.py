"""A simulated telemetry database behind the interface of psycopg2.

The tables live in an in-memory SQL engine.  Every connect, statement and fetch
is a point where the plan can drop the connection, fail the statement or let
another client commit rows (each statement sees the rows committed before it:
READ COMMITTED).  Rows of statements without an order come in a seeded order.
"""
import datetime as dt
import json
import random
import re
import sqlite3
import sys
import types

UTC = dt.timezone.utc


class Error(Exception):
    pgcode = None


class Warning_(Exception):
    pass


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class OperationalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class InternalError(DatabaseError):
    pass


def stamp(t):
    """datetime -> text which sorts in time order."""
    return t.astimezone(UTC).strftime("%Y-%m-%d %H:%M:%S.%f")


def quote(x):
    if x is None:
        return "NULL"
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(quote(y) for y in x) + ")"
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, dt.datetime):
        return "'" + stamp(x if x.tzinfo else x.replace(tzinfo=UTC)) + "'"
    if isinstance(x, dt.date):
        return "'" + x.isoformat() + "'"
    return "'" + str(x).replace("'", "''") + "'"


TEXT = {"pos_id", "time_recorded", "move_cmd", "log_note", "calib_note", "name", "constants", "snapshot_name", "group_name", "element_name"}


class Database:
    """tables: {"schema.table": (columns, [row tuples])}; commits: [(statement number, {table: rows})]."""

    def __init__(self, world, seed, bools=("ctrl_enabled",), times=("time_recorded",), jsons=("constants",)):
        self.w = world
        self.rng = random.Random("pg/%s" % seed)
        self.eng = sqlite3.connect(":memory:", check_same_thread=False)
        self.eng.execute("pragma case_sensitive_like=on")
        self.eng.create_function("regexp", 2, lambda p, s: s is not None and re.search(p, s) is not None)
        self.cols = {}
        self.rows = {}
        self.bools, self.times, self.jsons = set(bools), set(times), set(jsons)
        self.schemas = set()
        self.nops = 0
        self.nstat = 0
        self.commits = []
        self.faults = []
        self.version = 0
        self.eng.execute("create table pg_class (relname text, relkind text)")
        self.lost = 0

    def create(self, name, cols, rel=True):
        schema, _, t = name.rpartition(".")
        if schema and schema not in self.schemas:
            self.eng.execute("attach ':memory:' as %s" % schema)
            self.schemas.add(schema)
        self.eng.execute("create table %s (%s)" % (name, ",".join('"%s" %s' % (c, "text" if c in TEXT else "numeric") for c in cols)))
        if rel:
            self.eng.execute("insert into pg_class values (?, 'r')", (t,))
        self.cols[name] = list(cols)
        self.rows[name] = []

    def insert(self, name, rows, version):
        """rows: dicts; the engine gets them, and self.rows keeps (version, dict)."""
        c = self.cols[name]

        def conv(x):
            if isinstance(x, dt.datetime):
                return stamp(x)
            if isinstance(x, dict):
                return json.dumps(x)
            return x
        for r in rows:
            self.eng.execute("insert into %s values (%s)" % (name, ",".join("?" * len(c))), [conv(r.get(k)) for k in c])
            self.rows[name].append((version, r))

    def at(self, name, version):
        return [r for v, r in self.rows[name] if v <= version]

    # ---- called for each operation of a client ----------------------
    def op(self, conn, kind):
        n = self.nops
        self.nops += 1
        self.w.tick(0.003)
        self.w.log("db", kind, n)
        self.w.yield_point("db")
        for f in self.faults:
            if f.get("done") or (f["kind"] == "refused") != (kind == "connect"):
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] - 1 < f["at"]:
                continue
            f["done"] = True
            self.w.count_fault("db_" + f["kind"])
            self.w.log("dbfault", f["kind"], n)
            self.lost += 1
            if f["kind"] == "refused":
                raise OperationalError("could not connect to server: Connection refused")
            if f["kind"] == "lost":
                conn.closed = 2
                raise OperationalError("server closed the connection unexpectedly")
            conn.failed = True
            raise OperationalError("canceling statement due to conflict with recovery")
        if kind == "execute":
            k = self.nstat
            self.nstat += 1
            for at, batch in list(self.commits):
                if k >= at:
                    self.commits.remove((at, batch))
                    self.commit(batch)

    def commit(self, batch):
        self.version += 1
        for name in sorted(batch):
            self.insert(name, batch[name], self.version)
        self.w.log("dbcommit", self.version)
        self.w.count_fault("db_commit")

    def run(self, sql):
        q = re.sub(r"\bdate\s+('[^']*')", r"\1", sql)
        q = re.sub(r"('[^']*')::\w+", r"\1", q)
        q = re.sub(r"(\S+)\s*!~\s*('[^']*')", r"not (\1 regexp \2)", q)
        q = re.sub(r"(\S+)\s+~\s+('[^']*')", r"(\1 regexp \2)", q)
        q = re.sub(r"'(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)(\.\d+)?(?:\+00(?::00)?)?'",
                   lambda m: "'%s%s'" % (m.group(1), (m.group(2) or ".").ljust(7, "0")), q)
        try:
            cur = self.eng.execute(q)
        except sqlite3.Error as e:
            raise ProgrammingError(str(e))
        names = [d[0] for d in cur.description or []]
        rows = cur.fetchall()
        if not re.search(r"\border\s+by\b", q, re.I):
            self.rng.shuffle(rows)
        out = []
        for r in rows:
            r = list(r)
            for i, n in enumerate(names):
                if r[i] is None:
                    continue
                if n in self.times:
                    r[i] = dt.datetime.strptime(r[i], "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=UTC)
                elif n in self.bools:
                    r[i] = bool(r[i])
                elif n in self.jsons:
                    r[i] = json.loads(r[i])
            out.append(tuple(r))
        return names, out

    def module(self):
        m = types.ModuleType("psycopg2")
        for c in (Error, InterfaceError, DatabaseError, OperationalError, ProgrammingError, InternalError):
            setattr(m, c.__name__, c)
        m.Warning = Warning_
        m.connect = lambda *a, **k: Connection(self)
        m.apilevel, m.paramstyle, m.threadsafety = "2.0", "pyformat", 2
        ext = types.ModuleType("psycopg2.extensions")
        ext.connection, ext.cursor = Connection, Cursor
        m.extensions = ext
        return m

    def install(self):
        self._old = {k: sys.modules.get(k) for k in ("psycopg2", "psycopg2.extensions")}
        m = self.module()
        sys.modules["psycopg2"] = m
        sys.modules["psycopg2.extensions"] = m.extensions

    def uninstall(self):
        for k, v in self._old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


class Column(tuple):
    name = property(lambda s: s[0])
    type_code = property(lambda s: s[1])


class Connection:
    def __init__(self, db):
        self.db = db
        self.closed = 0
        self.failed = False
        self.autocommit = False
        db.op(self, "connect")

    def check(self):
        if self.closed:
            raise InterfaceError("connection already closed")

    def cursor(self, *a, **k):
        self.check()
        return Cursor(self)

    def commit(self):
        self.check()
        self.failed = False

    def rollback(self):
        self.check()
        self.failed = False

    def close(self):
        self.closed = 1

    def set_session(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if not self.closed:
            self.failed = False


class Cursor:
    arraysize = 1

    def __init__(self, conn):
        self.connection = conn
        self.description = None
        self.rowcount = -1
        self.closed = False
        self._rows = None
        self.query = None

    def mogrify(self, op, params=None):
        if params is None:
            return op
        if isinstance(params, dict):
            return op % {k: quote(x) for k, x in params.items()}
        return op % tuple(quote(x) for x in params)

    def execute(self, op, params=None):
        c = self.connection
        c.check()
        if self.closed:
            raise InterfaceError("cursor already closed")
        if c.failed:
            raise InternalError("current transaction is aborted, commands ignored until end of transaction block")
        c.db.op(c, "execute")
        self.query = self.mogrify(op, params)
        try:
            names, self._rows = c.db.run(self.query)
        except ProgrammingError:
            c.failed = not c.autocommit
            raise
        self.description = [Column((n, None, None, None, None, None, None)) for n in names]
        self.rowcount = len(self._rows)

    def _take(self, n):
        self.connection.check()
        if self._rows is None:
            raise ProgrammingError("no results to fetch")
        out = self._rows[:n]
        self._rows = self._rows[n:]
        return out

    def fetchall(self):
        self.connection.check()
        self.connection.db.op(self.connection, "fetch")
        return self._take(10 ** 9)

    def fetchone(self):
        r = self._take(1)
        return r[0] if r else None

    def fetchmany(self, size=None):
        return self._take(size or self.arraysize)

    def __iter__(self):
        return iter(self._take(10 ** 9))

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
