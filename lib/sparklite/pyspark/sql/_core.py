import re, math, datetime, struct
from functools import cmp_to_key


class AnalysisException(Exception):
    pass


class SparkLiteUnsupported(Exception):
    """The program used an API that sparklite does not model."""


class Term:
    """Uninterpreted function application."""
    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        self.fn, self.args = fn, tuple(args)

    def __eq__(self, o):
        return isinstance(o, Term) and self.fn == o.fn and len(self.args) == len(o.args) and all(
            same(a, b) for a, b in zip(self.args, o.args))

    def __hash__(self):
        return hash((self.fn, len(self.args)))

    def __repr__(self):
        return f"{self.fn}({', '.join(map(repr, self.args))})"


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def _coerce(a, b):
    """Spark's implicit cast for comparing a string with a number."""
    if isinstance(a, str) and _num(b):
        try:
            return (int(a) if isinstance(b, int) and re.fullmatch(r"\s*[+-]?\d+\s*", a) else float(a)), b
        except ValueError:
            return None, b
    if isinstance(b, str) and _num(a):
        y, x = _coerce(b, a)
        return x, y
    return a, b


def cmp_values(op, a, b):
    if a is None or b is None:
        return None
    a, b = _coerce(a, b)
    if a is None or b is None:
        return None
    if isinstance(a, Term) or isinstance(b, Term):
        if isinstance(a, Term) and isinstance(b, Term) and a == b and op in ("==", "<=", ">="):
            return True
        return Term(op, (a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        raise AnalysisException(f"type mismatch: {a!r} {op} {b!r}")
    if type(a) != type(b) and not (_num(a) and _num(b)):
        raise AnalysisException(f"type mismatch: {a!r} {op} {b!r}")
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def and3(a, b):
    _chk(a), _chk(b)
    if a is False or b is False:
        return False
    if isinstance(a, Term) or isinstance(b, Term):
        if a is True: return b
        if b is True: return a
        return Term("&", (a, b))
    if a is None or b is None:
        return None
    return True


def or3(a, b):
    _chk(a), _chk(b)
    if a is True or b is True:
        return True
    if isinstance(a, Term) or isinstance(b, Term):
        if a is False: return b
        if b is False: return a
        return Term("|", (a, b))
    if a is None or b is None:
        return None
    return False


def not3(a):
    _chk(a)
    if isinstance(a, Term):
        return Term("~", (a,))
    return None if a is None else (not a)


def _chk(a):
    if not (a is None or isinstance(a, (bool, Term))):
        raise AnalysisException(f"boolean expected, got {a!r}")


_UNITS = {"SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 604800}


def add_interval(t, text):
    """timestamp + INTERVAL"""
    m = re.fullmatch(r"\s*([+-]?\d+)\s+([A-Za-z]+?)S?\s*", text)
    if not m:
        raise AnalysisException(f"interval {text!r}")
    n, u = int(m.group(1)), m.group(2).upper()
    if u in ("MONTH", "YEAR"):
        k = t.year * 12 + t.month - 1 + n * (12 if u == "YEAR" else 1)
        y, mo = divmod(k, 12)
        mo += 1
        last = (datetime.date(y + (mo == 12), mo % 12 + 1, 1) - datetime.timedelta(1)).day
        return t.replace(year=y, month=mo, day=min(t.day, last))
    if u not in _UNITS:
        raise AnalysisException(f"interval {text!r}")
    return t + datetime.timedelta(seconds=n * _UNITS[u])


def trunc(unit, t):
    u = unit.lower()
    z = dict(microsecond=0)
    if u in ("second",): return t.replace(**z)
    z["second"] = 0
    if u in ("minute",): return t.replace(**z)
    z["minute"] = 0
    if u in ("hour",): return t.replace(**z)
    z["hour"] = 0
    if u in ("day", "dd"): return t.replace(**z)
    if u == "week": return t.replace(**z) - datetime.timedelta(t.weekday())
    z["day"] = 1
    if u in ("month", "mm", "mon"): return t.replace(**z)
    z["month"] = 1
    if u in ("year", "yyyy", "yy"): return t.replace(**z)
    return None


def arith(op, a, b):
    if isinstance(a, datetime.datetime) or isinstance(b, datetime.datetime):
        if isinstance(b, Term) and b.fn == "interval" and op == "+":
            return add_interval(a, b.args[0])
        if isinstance(b, Term) and b.fn == "interval" and op == "-":
            m = re.match(r"\s*([+-]?)(.*)", b.args[0])
            return add_interval(a, ("" if m.group(1) == "-" else "-") + m.group(2))
        if isinstance(a, Term) and a.fn == "interval" and op == "+":
            return add_interval(b, a.args[0])
    for v in (a, b):
        if isinstance(v, (bool, list)):
            raise AnalysisException(f"cannot apply {op} to {v!r}")
    if isinstance(a, Term) or isinstance(b, Term):
        return Term(op, (a, b))
    if a is None or b is None:
        return None
    if isinstance(a, str):
        a = _tofloat(a)
    if isinstance(b, str):
        b = _tofloat(b)
    if a is None or b is None:
        return None
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    if op == "/":
        return None if b == 0 else a / b
    if op == "%":
        if b == 0: return None
        if isinstance(a, int) and isinstance(b, int):
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        return math.fmod(a, b)
    raise SparkLiteUnsupported(op)


def _tofloat(s):
    try:
        return float(s)
    except ValueError:
        return None


def like_to_re(p, ci):
    out, i = [], 0
    while i < len(p):
        ch = p[i]
        if ch == "\\" and i + 1 < len(p):
            out.append(re.escape(p[i + 1])); i += 2; continue
        out.append(".*" if ch == "%" else "." if ch == "_" else re.escape(ch))
        i += 1
    return re.compile("".join(out), re.S | (re.I if ci else 0))


def like(v, p, ci=False):
    if v is None or p is None:
        return None
    if isinstance(v, (Term, list)) or isinstance(p, Term):
        return Term("ilike" if ci else "like", (v, p))
    if _num(v):
        v = num_to_str(v)
    return like_to_re(p, ci).fullmatch(v) is not None


def num_to_str(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


_JRE = [(r"\(\?<([A-Za-z_][A-Za-z0-9_]*)>", r"(?P<\1>")]


def jregex(p):
    for a, b in _JRE:
        p = re.sub(a, b, p)
    return re.compile(p)


def cast(v, t):
    if v is None or isinstance(v, Term) and t not in ("double",):
        return v if v is None else Term("cast_" + t, (v,))
    if isinstance(v, Term):
        return Term("cast_" + t, (v,))
    if t == "float":
        x = cast(v, "double")
        return None if x is None else struct.unpack("f", struct.pack("f", x))[0]
    if t == "double":
        if isinstance(v, str):
            s = v.strip()
            return _tofloat(s) if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s) else None
        return float(v)
    if t in ("int", "integer", "bigint", "long"):
        if isinstance(v, str):
            f = cast(v, "double")
            return None if f is None else int(f)
        return int(v)
    if t == "string":
        return v if isinstance(v, str) else num_to_str(v)
    if t == "boolean":
        return v if isinstance(v, bool) else bool(v)
    raise SparkLiteUnsupported(f"cast to {t}")


AGGS = {}


def agg(name):
    def deco(f):
        AGGS[name] = f
        return f
    return deco


def _nn(vs):
    return [v for v in vs if v is not None]


def _hasterm(vs):
    return any(isinstance(v, (Term, list)) for v in vs)


@agg("count")
def _(vs): return len(_nn(vs))
@agg("count_star")
def _(vs): return len(vs)
@agg("sum")
def _(vs):
    vs = _nn(vs)
    if not vs: return None
    if _hasterm(vs): return Term("sum", vs)
    return sum(vs)
@agg("avg")
def _(vs):
    vs = _nn(vs)
    if not vs: return None
    if _hasterm(vs): return Term("avg", vs)
    return sum(vs) / len(vs)
@agg("min")
def _(vs):
    vs = _nn(vs)
    if _hasterm(vs): return Term("min", vs)
    return min(vs) if vs else None
@agg("max")
def _(vs):
    vs = _nn(vs)
    if _hasterm(vs): return Term("max", vs)
    return max(vs) if vs else None
@agg("count_distinct")
def _(vs):
    out = []
    for v in _nn(vs):
        if not any(same(v, w) for w in out): out.append(v)
    return len(out)
@agg("approx_count_distinct")
def _(vs): return Term("approx_count_distinct", [AGGS["count_distinct"](vs)])
@agg("collect_list")
def _(vs): return _nn(vs)
@agg("collect_set")
def _(vs):
    out = []
    for v in _nn(vs):
        if not any(same(v, w) for w in out): out.append(v)
    return Term("set", sorted(out, key=sort_key))


def sort_key(v):
    if v is None: return (0, 0)
    if isinstance(v, bool): return (1, v)
    if _num(v): return (2, v)
    if isinstance(v, str): return (3, v)
    return (4, repr(v))


class Column:
    """op/args tree; `name` is the output column name."""

    def __init__(self, op, args, name=None):
        self.op, self.args, self.name = op, tuple(args), name

    # --- operators
    def _b(self, op, o, rev=False):
        o = lit(o)
        return Column("bin", (op, o, self) if rev else (op, self, o))

    def __eq__(self, o): return self._b("==", o)
    def __ne__(self, o): return self._b("!=", o)
    def __lt__(self, o): return self._b("<", o)
    def __le__(self, o): return self._b("<=", o)
    def __gt__(self, o): return self._b(">", o)
    def __ge__(self, o): return self._b(">=", o)
    def __add__(self, o): return self._b("+", o)
    def __sub__(self, o): return self._b("-", o)
    def __mul__(self, o): return self._b("*", o)
    def __truediv__(self, o): return self._b("/", o)
    def __mod__(self, o): return self._b("%", o)
    def __radd__(self, o): return self._b("+", o, True)
    def __rsub__(self, o): return self._b("-", o, True)
    def __rmul__(self, o): return self._b("*", o, True)
    def __rtruediv__(self, o): return self._b("/", o, True)
    def __and__(self, o): return self._b("&", o)
    def __or__(self, o): return self._b("|", o)
    def __rand__(self, o): return self._b("&", o, True)
    def __ror__(self, o): return self._b("|", o, True)
    def __invert__(self): return Column("not", (self,))
    def __neg__(self): return Column("neg", (self,))
    def __hash__(self): return id(self)

    def __bool__(self):
        raise ValueError("Cannot convert column into bool: please use '&' for 'and', '|' for 'or', '~' for 'not'")

    def __iter__(self):
        raise TypeError("Column is not iterable")

    def __getattr__(self, n):
        # real Columns turn unknown attributes into nested-field access; a generated
        # program never relies on that, so it is an error here.
        if n.startswith("__"):
            raise AttributeError(n)
        raise SparkLiteUnsupported(f"Column.{n}")

    def alias(self, n): return Column("alias", (self,), n)
    def like(self, p): return Column("fn", ("like", (self, lit(p))))
    def ilike(self, p): return Column("fn", ("ilike", (self, lit(p))))
    def rlike(self, p): return Column("fn", ("regexp_like", (self, lit(p))))
    def isNull(self): return Column("fn", ("isnull", (self,)))
    def isNotNull(self): return Column("fn", ("isnotnull", (self,)))
    def cast(self, t): return Column("cast", (self, t if isinstance(t, str) else type(t).__name__.replace("Type", "").lower()))
    astype = cast
    def asc(self): return Column("sort", (self, True))
    def desc(self): return Column("sort", (self, False))
    def isin(self, *vs):
        if len(vs) == 1 and isinstance(vs[0], (list, set, tuple)):
            vs = tuple(vs[0])
        return Column("fn", ("isin", (self, *[lit(v) for v in vs])))
    def bitwiseAND(self, o): return Column("fn", ("bitwiseAND", (self, lit(o))))
    def bitwiseOR(self, o): return Column("fn", ("bitwiseOR", (self, lit(o))))
    def bitwiseXOR(self, o): return Column("fn", ("bitwiseXOR", (self, lit(o))))
    def substr(self, a, b): return Column("fn", ("substring", (self, lit(a), lit(b))))
    def getField(self, n): return Column("field", (self, n))
    def getItem(self, n): return Column("fn", ("getitem", (self, lit(n))))
    def over(self, w): return Column("fn", ("over", (self, lit(repr(w)))))

    def when(self, c, v):
        if self.op != "case":
            raise AnalysisException("when() can only be applied on a Column previously generated by when()")
        return Column("case", (self.args[0] + ((c, lit(v)),), None))

    def otherwise(self, v):
        if self.op != "case" or self.args[1] is not None:
            raise AnalysisException("otherwise() can only be applied on a Column previously generated by when()")
        return Column("case", (self.args[0], lit(v)))

    # --- naming
    def outname(self):
        if self.name is not None:
            return self.name
        if self.op == "col":
            return self.args[0].split(".")[-1] if not self.args[0].startswith("`") else self.args[0].strip("`")
        return repr(self)

    def __repr__(self):
        if self.op == "col": return str(self.args[0])
        if self.op == "lit": return repr(self.args[0])
        return f"{self.op}({', '.join(map(repr, self.args))})"

    def has_agg(self):
        if self.op == "agg": return True
        def walk(x):
            if isinstance(x, Column): return x.has_agg()
            if isinstance(x, tuple): return any(walk(y) for y in x)
            return False
        return any(walk(a) for a in self.args)


def lit(v):
    if isinstance(v, Column):
        return v
    if isinstance(v, (list, tuple)):
        return Column("lit", (list(v),))
    if v is None or isinstance(v, (bool, int, float, str)):
        return Column("lit", (v,))
    raise AnalysisException(f"unsupported literal type {type(v)}: {v!r}")


def col(n):
    if isinstance(n, Column):
        return n
    if not isinstance(n, str):
        raise AnalysisException(f"col() expects a name, got {n!r}")
    return Column("col", (n,))


def ev(c, row, group=None):
    """row: Resolver-bound row (callable name->value). group: list of rows for aggregates."""
    op, a = c.op, c.args
    if op == "col":
        if group is not None:
            # grouping keys are resolved by the caller through `row`
            return row(a[0])
        return row(a[0])
    if op == "lit": return a[0]
    if op == "alias": return ev(a[0], row, group)
    if op == "sort": raise AnalysisException("sort order outside orderBy")
    if op == "bin":
        o, l, r = a
        if o == "&": return and3(ev(l, row, group), ev(r, row, group))
        if o == "|": return or3(ev(l, row, group), ev(r, row, group))
        x, y = ev(l, row, group), ev(r, row, group)
        if o in ("+", "-", "*", "/", "%"): return arith(o, x, y)
        return cmp_values(o, x, y)
    if op == "not": return not3(ev(a[0], row, group))
    if op == "neg": return arith("-", 0, ev(a[0], row, group))
    if op == "cast": return cast(ev(a[0], row, group), a[1])
    if op == "field":
        v = ev(a[0], row, group)
        return None if v is None else Term("field", (v, a[1]))
    if op == "case":
        for cond, val in a[0]:
            t = ev(cond, row, group)
            _chk(t)
            if isinstance(t, Term):
                return Term("case", [x for cd, vl in a[0] for x in (ev(cd, row, group), ev(vl, row, group))]
                            + ([ev(a[1], row, group)] if a[1] is not None else []))
            if t is True:
                return ev(val, row, group)
        return ev(a[1], row, group) if a[1] is not None else None
    if op == "agg":
        name, args, extra = a
        if group is None:
            raise AnalysisException(f"aggregate {name} outside of agg()")
        cols = [[ev(x, r) for r in group] for x in args]
        if name == "count_star": return len(group)
        if name in ("first", "last"):
            vs = cols[0]
            if extra.get("ignorenulls"): vs = _nn(vs)
            if not vs: return None
            return vs[0] if name == "first" else vs[-1]
        if name in AGGS: return AGGS[name](cols[0])
        vals = [Term("col", v) for v in cols]
        return Term(name, vals + [extra[k] for k in sorted(extra)])
    if op == "fn":
        from . import functions as F
        name, args = a
        return F._eval_fn(name, [ev(x, row, group) if isinstance(x, Column) else x for x in args])
    if op == "udf":
        f, args = a
        return f(*[ev(x, row, group) for x in args])
    if op == "explode":
        raise SparkLiteUnsupported("explode")
    raise SparkLiteUnsupported(op)
