"""The database binding: rows, values, errors and handles come through as SQLite has them."""
import os
import sqlite3
from ..engine import Part
from .. import strs, build
from . import common, c14

ID = "C21"
RULE = ("histories of statements on several databases (files and in memory, closed and opened again), with rows taken by callback - also with queries and collections inside of it - or as a tuple of tables, are compared with the same "
        "statements run through Python's sqlite3; some run under generated schedules of collections; non-trivial: at least ten rows fetched")
ASSUMPTIONS = ["SQLite itself is right: both sides use the system's library", "exec is always given a callback or nil, as calls without an optional argument are not part of what the JIT implements"]


def prepare(paths):
    g = build.build("gc")
    return {"gc": g.potion, "gclib": g.lib, "lib": paths.lib}


COLS = ["a", "b", "c", "name", "é", "x_1", "längeres_wort_als_spalte"]


def sqlstr(s):
    return "'" + s.replace("'", "''") + "'"


def ident(s):
    return '"%s"' % s


class World:
    def __init__(self, c):
        self.c = c
        self.lines, self.out = ["load 'database'"], []
        self.db = {}      # variable -> [path, connection or None]
        self.tables = {}  # path or variable -> {table: cols}
        self.files = {}
        self.rows = 0
        self.held = {}

    def say(self, src, text):
        self.lines.append(src)
        self.out.append(text + "\n")

    def value(self):
        c = self.c
        k = c.raw(6)
        if k == 0:
            return "NULL"
        if k == 1:
            return str(c.pick([0, 1, -1, 2 ** 31, 2 ** 62, -2 ** 63 + 1, 2 ** 63 - 1])) if c.bool() else str(c.n(-1000, 1000))
        if k == 2:
            return c.pick(["1.5", "-0.25", "1e100", "0.1"])
        if k == 3:
            return sqlstr("x" * c.n(0, 3000))
        return sqlstr("".join(x for x in strs.text(c, 40) if x not in "\0\r"))

    def lit(self, sql):
        return strs.literal(self.c, sql)

    def connect(self, path):
        if path == ":memory:":
            return sqlite3.connect(":memory:", isolation_level=None)
        if path not in self.files:
            self.files[path] = sqlite3.connect("file:%s_%d?mode=memory&cache=shared" % (path, id(self)), uri=True, isolation_level=None)
        return self.files[path]

    def key(self, v):
        p = self.db[v][0]
        return v if p == ":memory:" else p

    def step(self):
        c = self.c
        k = c.weighted([(3, "open"), (3, "create"), (8, "insert"), (2, "many"), (5, "select"), (5, "table"), (2, "update"), (1, "delete"), (1, "close"), (1, "reopen"), (1, "error"), (1, "open?"), (1, "junk"), (1, "look")])
        if k == "junk":
            self.lines.append(c.pick(["list(30000)", "200 times (i): ('j', i) string.", "list(70000)"]))
            return
        if k == "open" and len(self.db) < 4 or not self.db:
            v = "d%d" % len(self.db)
            p = c.pick([":memory:", "one.db", "two.db", "dreié.db"])
            if any(x[0] == p for x in self.db.values()):
                p = ":memory:"
            self.lines.append("%s = Database(%s)" % (v, self.lit(p)))
            self.db[v] = [p, self.connect(p)]
            self.tables.setdefault(self.key(v), {})
            return
        v = c.pick(sorted(self.db))
        path, con = self.db[v]
        if k == "open?":
            self.say("%s open? say" % v, "true" if con else "false")
            return
        if k == "look":
            self.look()
            return
        if k == "close":
            self.say("%s close open? say" % v, "false")
            if path == ":memory:":
                self.tables[v] = {}
            self.db[v][1] = None
            return
        if k == "reopen":
            self.say("%s open(%s) open? say" % (v, self.lit(path)), "true")
            if path == ":memory:":
                self.tables[v] = {}
            self.db[v][1] = self.connect(path)
            return
        if con is None:
            if c.bool():
                self.say("%s gettable('select 1') say" % v, "nil")
            else:
                self.say("%s exec('select 1', nil) kind say" % v, "Error")
            return
        ts = self.tables[self.key(v)]
        if k == "error":
            q = c.pick(["selec 1", "select * from none", "select 'x", "insert into none values (1)", "create table (", "select 1 from"])
            self.say("%s %s kind say" % (v, c.pick(["exec(%s, nil)", "gettable(%s)"]) % self.lit(q)), "Error")
            return
        if k == "create" or not ts:
            t = "t%d" % len(ts)
            cols = c.shuffle(COLS)[:c.n(1, len(COLS))]
            ts[t] = cols
            self.sql(v, "CREATE TABLE %s (%s)" % (t, ", ".join("%s%s" % (ident(x), c.pick(["", " TEXT", " INT", " BLOB"])) for x in cols)))
            return
        t = c.pick(sorted(ts))
        cols = ts[t]
        if k == "insert":
            n = c.n(1, 4)
            q = c.shuffle(cols)[:c.n(1, len(cols))]
            self.sql(v, "INSERT INTO %s (%s) VALUES %s" % (t, ", ".join(map(ident, q)), ", ".join("(%s)" % ", ".join(self.value() for _ in q) for _ in range(n))))
        elif k == "many":
            n = c.n(1, 300)
            self.sql(v, "WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM n WHERE i < %d) INSERT INTO %s SELECT %s FROM n"
                     % (n, t, ", ".join(c.pick(["i", "i * i", "'r' || i", "NULL", "substr('abcdefghijklmnop', i %% 9, i %% 5)".replace("%%", "%")]) for _ in cols)))
        elif k == "update":
            x = c.pick(cols)
            self.sql(v, "UPDATE %s SET %s = %s WHERE rowid %% 3 = %d" % (t, ident(x), self.value(), c.n(0, 2)))
        elif k == "delete":
            self.sql(v, "DELETE FROM %s WHERE rowid %% 5 = %d" % (t, c.n(0, 4)))
        else:
            q = c.shuffle(cols)[:c.n(1, len(cols))]
            s = "SELECT %s FROM %s ORDER BY rowid%s LIMIT %d" % (", ".join(ident(x) for x in q), t, c.pick(["", " DESC"]), c.pick([1, 5, 1000]))
            # SQLite's own conversion to text
            rows = [[None if x is None else str(x) for x in r] for r in con.execute(s.replace("SELECT " + ", ".join(ident(x) for x in q), "SELECT " + ", ".join("CAST(%s AS TEXT)" % ident(x) for x in q), 1)).fetchall()]
            self.rows += len(rows)
            show = c.shuffle(q)[:c.n(1, 3)]
            if c.bool(1, 5):
                show.append("none")
            pos = {x: i for i, x in enumerate(q)}
            get = lambda r, x: "nil" if x == "none" or r[pos[x]] is None else r[pos[x]]
            if k == "select":
                body, inner = [], []
                for x in show:
                    body.append("row(%s) print, '|' print" % self.lit(x))
                extra = c.raw(5)
                if extra == 1:
                    body.insert(0, "list(%d)" % c.pick([10, 3000, 30000 if len(rows) < 50 else 300]))
                if extra == 2:
                    body.append("n = n + 1, n print")
                if extra == 3 and len(rows) < 50:
                    body.append("%s gettable('select 7 as s')(0)('s') print" % v)
                    inner = True
                self.lines.append("n = 0")
                src = "%s exec(%s, (row):\n  %s\n  '' say.) open? say" % (v, self.lit(s), "\n  ".join(body))
                if c.bool(1, 3):
                    src = "f = (row):\n  %s\n  '' say.\n%s exec(%s, f) open? say" % ("\n  ".join(body), v, self.lit(s))
                self.lines.append(src)
                for i, r in enumerate(rows):
                    self.out.append("".join(get(r, x) + "|" for x in show) + (str(i + 1) if extra == 2 else "") + ("7" if inner else "") + "\n")
                self.out.append("true\n")
            else:
                g = "g%d" % c.n(0, 2)
                self.lines.append("%s = %s gettable(%s)" % (g, v, self.lit(s)))
                self.say("%s length say" % g, str(len(rows)))
                self.held[g] = (show, rows, pos)
                self.look()

    def look(self):
        c = self.c
        if not self.held:
            return
        g = c.pick(sorted(self.held))
        show, rows, pos = self.held[g]
        get = lambda r, x: "nil" if x == "none" or r[pos[x]] is None else r[pos[x]]
        if rows and c.bool():
            i = c.n(0, len(rows) - 1)
            for x in show:
                self.say("%s(%d)(%s) say" % (g, i, self.lit(x)), get(rows[i], x))
        else:
            self.lines.append("%s each (row):\n  %s\n  '' say." % (g, "\n  ".join("row(%s) print, '|' print" % self.lit(x) for x in show)))
            self.out += ["".join(get(r, x) + "|" for x in show) + "\n" for r in rows]

    def sql(self, v, s):
        self.db[v][1].execute(s)
        self.say("%s exec(%s, nil) open? say" % (v, self.lit(s)), "true")


def gen(c):
    w = World(c)
    for _ in range(c.n(6, 40)):
        w.step()
    end = {}
    for p, con in w.files.items():
        end[p] = dump(con)
    for con in list(w.files.values()) + [x[1] for x in w.db.values() if x[1]]:
        con.close()
    k = {"src": "\n".join(w.lines) + "\n", "exp": "".join(w.out), "end": end, "nt": w.rows >= 10}
    if c.bool(1, 3):
        k["sched"] = c14.schedule(c)
    return k


def dump(con):
    ts = sorted(x[0] for x in con.execute("select name from sqlite_master where type = 'table'"))
    return {t: [[repr(x) for x in r] for r in con.execute("select * from %s order by rowid" % t)] for t in ts}


def check(ctx, case):
    sched = case.get("sched")
    for m in ("-B", "-X"):
        d = ctx.fresh("db")
        os.symlink(ctx.extra["gclib" if sched else "lib"], os.path.join(d, "lib"))
        src, s = case["src"], sched
        if sched and m == "-X":
            src, s = "list(60000)\n" + src, "@400000:" + sched
        f = ctx.write("t.pn", src)
        if sched:
            r = ctx.run([ctx.extra["gc"], m, f], cwd=d, env={"POTION_GC_SCHEDULE": s})
        else:
            r = ctx.run([ctx.potion, m, f], cwd=d)
        e = common.diff(case["exp"], r, {"-B": "bytecode VM", "-X": "JIT"}[m] + (" collecting at " + s if s else ""))
        if e:
            return e
        names = {k for k in os.listdir(d) if k != "lib"}
        if names != {p for p in case["end"] if not p == ":memory:"} and names - set(case["end"]):
            return "%s: databases %r instead of %r" % (m, sorted(names), sorted(case["end"]))
        for p, want in case["end"].items():
            if not os.path.exists(os.path.join(d, p)):
                got = {}
            else:
                con = sqlite3.connect(os.path.join(d, p))
                got = dump(con)
                con.close()
            if got != want:
                for t in sorted(set(got) | set(want)):
                    if got.get(t) != want.get(t):
                        return "%s: %s: table %s: expected %s, got %s" % (m, p, t, str(want.get(t))[:300], str(got.get(t))[:300])
    return None


PARTS = [Part("statements", gen, check, 2500, 100000, nontrivial=lambda k: k["nt"], show=lambda k: {"source": k["src"], "expected": k["exp"][:3000], "collections": k.get("sched")})]
