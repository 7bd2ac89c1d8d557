from functools import cmp_to_key
from . import _core, functions
from ._core import Column, Term, ev, lit, col, AnalysisException, SparkLiteUnsupported, same, sort_key


class Row(tuple):
    def __new__(cls, *a, **k):
        r = super().__new__(cls, a if not k else tuple(k.values()))
        r.__fields__ = list(k)
        return r


class DataFrame:
    """cols: list of (frozenset(qualifiers), name); rows: list of tuples."""

    def __init__(self, cols, rows, session=None):
        self._cols, self._rows = list(cols), [tuple(r) for r in rows]

    @staticmethod
    def of(names, rows):
        return DataFrame([(frozenset(), n) for n in names], rows)

    @property
    def columns(self):
        return [n for _, n in self._cols]

    @property
    def dtypes(self):
        out = []
        for i, (_, n) in enumerate(self._cols):
            vs = [r[i] for r in self._rows if r[i] is not None]
            t = "string"
            if vs:
                v = vs[0]
                t = ("boolean" if isinstance(v, bool) else "bigint" if isinstance(v, int) else
                     "double" if isinstance(v, float) else "array" if isinstance(v, list) else "string")
            else:
                t = getattr(self, "_types", {}).get(n, "string")
            out.append((n, t))
        return out

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.columns:
            return col(n)
        raise AttributeError(f"'DataFrame' object has no attribute '{n}'")

    def __getitem__(self, n):
        return col(n)

    # --- name resolution (case-insensitive like Spark's default)
    def _find(self, name):
        if name.startswith("`") and name.endswith("`"):
            hits = [i for i, (_, n) in enumerate(self._cols) if n.lower() == name.strip("`").lower()]
            return self._one(hits, name), None
        hits = []
        if "." in name:
            q, rest = name.split(".", 1)
            hits = [i for i, (qs, n) in enumerate(self._cols) if q in qs and n.lower() == rest.lower()]
            if hits:
                return self._one(hits, name), None
        hits = [i for i, (_, n) in enumerate(self._cols) if n.lower() == name.lower()]
        if hits and "." not in name:
            return self._one(hits, name), None
        if "." in name:
            base, sub = name.split(".", 1)
            hits = [i for i, (_, n) in enumerate(self._cols) if n.lower() == base.lower()]
            if hits:
                return self._one(hits, name), sub
            hits = [i for i, (_, n) in enumerate(self._cols) if n.lower() == name.lower()]
            if hits:  # tolerated: a column whose own name contains a dot
                return self._one(hits, name), None
        raise AnalysisException(f"[UNRESOLVED_COLUMN] {name!r} in {self.columns}")

    def _one(self, hits, name):
        if not hits:
            raise AnalysisException(f"[UNRESOLVED_COLUMN] {name!r} in {self.columns}")
        if len(hits) > 1:
            raise AnalysisException(f"[AMBIGUOUS_REFERENCE] {name!r} in {self.columns}")
        return hits[0]

    def _res(self, r):
        def get(name):
            i, sub = self._find(name)
            if sub is None:
                return r[i]
            return None if r[i] is None else Term("field", (r[i], sub))
        return get

    def _check(self, c):
        """Analysis-time resolution: every referenced column must exist, even on empty tables."""
        def walk(x):
            if isinstance(x, Column):
                if x.op == "col":
                    if x.args[0] == "*" or x.args[0].endswith(".*"):
                        return
                    self._find(x.args[0])
                for a in x.args:
                    walk(a)
            elif isinstance(x, tuple):
                for a in x:
                    walk(a)
        walk(c)
        return c

    # --- transformations
    def where(self, c):
        if isinstance(c, str):
            raise SparkLiteUnsupported("where(str)")
        if not isinstance(c, Column):
            raise AnalysisException("where() expects a Column")
        if c.has_agg():
            raise AnalysisException("aggregate in where")
        self._check(c)
        out = []
        for r in self._rows:
            v = ev(c, self._res(r))
            if isinstance(v, Term):
                raise SparkLiteUnsupported(f"uninterpreted filter {v}")
            _core._chk(v)
            if v is True:
                out.append(r)
        return DataFrame(self._cols, out)
    filter = where

    def _expand(self, cs):
        flat = []
        for c in cs:
            if isinstance(c, (list, tuple)):
                flat.extend(c)
            else:
                flat.append(c)
        out = []
        for c in flat:
            c = col(c) if isinstance(c, str) else c
            if c.op == "col" and (c.args[0] == "*" or c.args[0].endswith(".*")):
                q = None if c.args[0] == "*" else c.args[0][:-2]
                hit = False
                for i, (qs, n) in enumerate(self._cols):
                    if q is None or q in qs:
                        out.append(("pos", i)); hit = True
                if not hit:
                    raise AnalysisException(f"cannot resolve {c.args[0]}")
            else:
                out.append(("expr", c))
        return out

    def select(self, *cs):
        items = self._expand(cs)
        cols = []
        for k, x in items:
            if k == "pos":
                cols.append(self._cols[x])
            else:
                self._check(x)
                if x.has_agg():
                    raise SparkLiteUnsupported("aggregate in select")
                if x.op == "col":
                    i, sub = self._find(x.args[0])
                    cols.append(self._cols[i] if sub is None else (frozenset(), sub.split(".")[-1]))
                else:
                    cols.append((frozenset(), x.outname()))
        rows = []
        for r in self._rows:
            g = self._res(r)
            rows.append(tuple(r[x] if k == "pos" else ev(x, g) for k, x in items))
        return DataFrame(cols, rows)

    def withColumn(self, name, c):
        if not isinstance(name, str):
            raise AnalysisException("withColumn name must be a str")
        if not isinstance(c, Column):
            raise AnalysisException("withColumn expects a Column")
        if c.has_agg():
            raise AnalysisException("aggregate function in withColumn without window")
        self._check(c)
        hits = [i for i, (_, n) in enumerate(self._cols) if n.lower() == name.lower()]
        rows = []
        for r in self._rows:
            v = ev(c, self._res(r))
            rows.append(tuple(v if i in hits else x for i, x in enumerate(r)) if hits else r + (v,))
        cols = [((frozenset(), name) if i in hits else x) for i, x in enumerate(self._cols)]
        if not hits:
            cols.append((frozenset(), name))
        return DataFrame(cols, rows)

    def withColumnRenamed(self, a, b):
        if not (isinstance(a, str) and isinstance(b, str)):
            raise AnalysisException("withColumnRenamed expects two names")
        return DataFrame([(q, b) if n.lower() == a.lower() else (q, n) for q, n in self._cols], self._rows)

    def drop(self, *names):
        ns = {(n.args[0] if isinstance(n, Column) else n).lower() for n in names}
        keep = [i for i, (_, n) in enumerate(self._cols) if n.lower() not in ns]
        return DataFrame([self._cols[i] for i in keep], [tuple(r[i] for i in keep) for r in self._rows])

    def orderBy(self, *cs):
        keys = []
        for c in (cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs):
            c = col(c) if isinstance(c, str) else c
            e, asc = (c.args if c.op == "sort" else (c, True))
            self._check(e)
            keys.append((e, asc))

        def cmp(x, y):
            for (e, asc), a, b in zip(keys, x[0], y[0]):
                ka, kb = sort_key(a), sort_key(b)
                if ka != kb:
                    s = -1 if ka < kb else 1
                    return s if asc else -s
            return 0
        dec = [([ev(e, self._res(r)) for e, _ in keys], r) for r in self._rows]
        return DataFrame(self._cols, [r for _, r in sorted(dec, key=cmp_to_key(cmp))])
    sort = orderBy

    def limit(self, n):
        if not isinstance(n, int) or isinstance(n, bool):
            raise AnalysisException("limit expects an int")
        if n < 0 or n > 2**31 - 1:
            raise AnalysisException(f"limit out of range: {n}")
        return DataFrame(self._cols, self._rows[:n])

    def tail(self, n):
        if n < 0 or n > 2**31 - 1:
            raise AnalysisException(f"tail out of range: {n}")
        return RowList(self.columns, self._rows[max(0, len(self._rows) - n):] if n else [])

    def alias(self, q):
        return DataFrame([(frozenset([q]), n) for _, n in self._cols], self._rows)

    def unionByName(self, o, allowMissingColumns=False):
        if not isinstance(o, DataFrame):
            raise AnalysisException("unionByName expects a DataFrame")
        lower = [n.lower() for n in self.columns]
        olower = [n.lower() for n in o.columns]
        if not allowMissingColumns and sorted(lower) != sorted(olower):
            raise AnalysisException("unionByName: column mismatch")
        cols = [(frozenset(), n) for n in self.columns] + [(frozenset(), n) for n in o.columns if n.lower() not in lower]
        extra = len(cols) - len(self._cols)
        rows = [r + (None,) * extra for r in self._rows]
        for r in o._rows:
            rows.append(tuple(r[olower.index(n.lower())] if n.lower() in olower else None for _, n in cols))
        return DataFrame(cols, rows)

    def join(self, o, on=None, how="inner"):
        if not isinstance(o, DataFrame):
            raise AnalysisException("join expects a DataFrame")
        if how not in ("inner", "left", "outer", "full", "right", "left_outer", "full_outer", "right_outer", "left_semi", "left_anti"):
            raise AnalysisException(f"unsupported join type {how}")
        if not isinstance(on, Column):
            raise SparkLiteUnsupported("join without a Column condition")
        cols = self._cols + o._cols
        tmp = DataFrame(cols, [])
        tmp._check(on)
        rows, matched_r = [], set()
        for a in self._rows:
            hit = False
            for j, b in enumerate(o._rows):
                v = ev(on, tmp._res(a + b))
                if isinstance(v, int) and not isinstance(v, bool):
                    v = bool(v) if v == 1 else v
                _core._chk(v)
                if v is True:
                    hit = True
                    matched_r.add(j)
                    if how not in ("left_semi", "left_anti"):
                        rows.append(a + b)
            if how == "left_semi" and hit or how == "left_anti" and not hit:
                rows.append(a)
            if not hit and how in ("left", "outer", "full", "left_outer", "full_outer"):
                rows.append(a + (None,) * len(o._cols))
        if how in ("right", "outer", "full", "right_outer", "full_outer"):
            for j, b in enumerate(o._rows):
                if j not in matched_r:
                    rows.append((None,) * len(self._cols) + b)
        return DataFrame(self._cols if how in ("left_semi", "left_anti") else cols, rows)

    def fillna(self, value, subset=None):
        types = dict(self.dtypes)
        subset = [subset] if isinstance(subset, str) else subset
        for n in subset or ():
            self._find(n)

        def ok(n):
            t = types[n]
            if subset is not None and n.lower() not in [s.lower() for s in subset]:
                return False
            if isinstance(value, bool): return t == "boolean"
            if isinstance(value, (int, float)): return t in ("bigint", "double")
            return t == "string"
        return DataFrame(self._cols, [tuple(value if v is None and ok(n) else v for (_, n), v in zip(self._cols, r)) for r in self._rows])

    def groupBy(self, *cs):
        keys = []
        for c in (cs[0] if len(cs) == 1 and isinstance(cs[0], (list, tuple)) else cs):
            c = col(c) if isinstance(c, str) else c
            self._check(c)
            keys.append(c)
        return Grouped(self, keys)
    groupby = groupBy

    def agg(self, *cs):
        return self.groupBy().agg(*cs)

    def distinct(self):
        out = []
        for r in self._rows:
            if not any(all(same(a, b) for a, b in zip(r, q)) for q in out):
                out.append(r)
        return DataFrame(self._cols, out)

    def count(self):
        return len(self._rows)

    def collect(self):
        return list(self._rows)


class RowList(list):
    """What DataFrame.tail returns in PySpark: a plain list of rows."""
    def __init__(self, cols, rows):
        super().__init__(rows)
        self.columns = cols


class Grouped:
    def __init__(self, df, keys):
        self.df, self.keys = df, keys

    def agg(self, *aggs):
        if not aggs:
            raise AnalysisException("exprs should not be empty")
        df = self.df
        for a in aggs:
            if not isinstance(a, Column):
                raise AnalysisException("agg expects Columns")
            df._check(a)
        groups = []
        for r in df._rows:
            k = [ev(c, df._res(r)) for c in self.keys]
            for kk, rows in groups:
                if all(same(x, y) for x, y in zip(k, kk)):
                    rows.append(r)
                    break
            else:
                groups.append((k, [r]))
        if not self.keys and not groups:
            groups = [([], [])]
        names = [c.outname() for c in self.keys]
        out = []
        for k, rows in groups:
            def keyres(nm, k=k):
                for n, v in zip(names, k):
                    if n.lower() == nm.split(".")[-1].lower():
                        return v
                raise AnalysisException(f"[MISSING_AGGREGATION] {nm}")
            grp = [df._res(r) for r in rows]
            out.append(tuple(k) + tuple(ev(a, keyres, grp) for a in aggs))
        return DataFrame([(frozenset(), n) for n in names] + [(frozenset(), a.outname()) for a in aggs], out)


class Window:
    unboundedPreceding, unboundedFollowing, currentRow = "up", "uf", "cr"

    def __init__(self, spec=()): self._s = spec
    @staticmethod
    def orderBy(*a): return Window((("orderBy",) + tuple(map(repr, a)),))
    @staticmethod
    def partitionBy(*a): return Window((("partitionBy",) + tuple(map(repr, a)),))
    def rowsBetween(self, a, b): return Window(self._s + (("rows", a, b),))
    def __repr__(self): return f"Window{self._s}"


class SparkSession:
    _current = None

    def __init__(self, tables):
        self.tables = tables
        self.log = []

    def table(self, name):
        self.log.append(name)
        if name not in self.tables:
            raise AnalysisException(f"[TABLE_OR_VIEW_NOT_FOUND] {name}")
        return self.tables[name]

    def range(self, a, b=None, step=1):
        if b is None: a, b = 0, a
        return DataFrame.of(["id"], [(i,) for i in range(a, b, step)])

    class _Builder:
        def getOrCreate(self): return SparkSession._current
        def __getattr__(self, n): return lambda *a, **k: self
    builder = _Builder()
