import re, math, datetime, decimal, json
from . import _core
from ._core import Column, Term, lit, col, like as _like, jregex, cmp_values, _num, SparkLiteUnsupported, AnalysisException, num_to_str, cast, sort_key, same

column = col


def _c(x):
    """ColumnOrName"""
    if isinstance(x, Column): return x
    if isinstance(x, str): return col(x)
    raise AnalysisException(f"[NOT_COLUMN_OR_STR] {x!r}")


def when(c, v):
    if not isinstance(c, Column):
        raise AnalysisException("condition should be a Column")
    return Column("case", (((c, lit(v)),), None))


def expr(s):
    m = re.fullmatch(r"cidr_match\('([^']*)', (.+)\)", s)
    if m:
        return Column("fn", ("cidr_match", (col(m.group(2)), lit(m.group(1)))))
    m = re.fullmatch(r"INTERVAL (.+)", s)
    if m:
        return Column("fn", ("interval", (lit(m.group(1)),)))
    return Column("fn", ("expr", (lit(s),)))


def _agg(name, *args, **extra):
    return Column("agg", (name, tuple(args), extra))


def count(*a):
    if not a:
        raise TypeError("count() missing 1 required positional argument: 'col'")
    if len(a) > 1:
        raise TypeError("count() takes 1 positional argument")
    c = a[0]
    if isinstance(c, str) and c == "*":
        return _agg("count_star")
    c = _c(c)
    return _agg("count", c)


def sum(c): return _agg("sum", _c(c))
def avg(c): return _agg("avg", _c(c))
mean = avg
def min(c): return _agg("min", _c(c))
def max(c): return _agg("max", _c(c))
def count_distinct(c, *cs):
    if cs: return _agg("count_distinct_multi", _c(c), *[_c(x) for x in cs])
    return _agg("count_distinct", _c(c))
countDistinct = count_distinct
def approx_count_distinct(c, rsd=None): return _agg("approx_count_distinct", _c(c))
def first(c, ignorenulls=False): return _agg("first", _c(c), ignorenulls=ignorenulls)
def last(c, ignorenulls=False): return _agg("last", _c(c), ignorenulls=ignorenulls)
def collect_list(c): return _agg("collect_list", _c(c))
def collect_set(c): return _agg("collect_set", _c(c))
def stddev_samp(c): return _agg("stddev_samp", _c(c))
def stddev_pop(c): return _agg("stddev_pop", _c(c))
def var_samp(c): return _agg("var_samp", _c(c))
def var_pop(c): return _agg("var_pop", _c(c))
def mode(c): return _agg("mode", _c(c))
def _pct(p):
    if isinstance(p, Column):
        if p.op != "lit": raise SparkLiteUnsupported("non-literal percentile")
        return p.args[0]
    return p
def percentile(c, p, frequency=1): return _agg("percentile", _c(c), p=_pct(p))
def percentile_approx(c, p, accuracy=10000): return _agg("percentile_approx", _c(c), p=_pct(p))


def coalesce(*cs): return Column("fn", ("coalesce", tuple(_c(x) for x in cs)))
def greatest(*cs):
    if len(cs) < 2: raise AnalysisException("greatest needs at least 2 columns")
    return Column("fn", ("greatest", tuple(_c(x) for x in cs)))
def least(*cs):
    if len(cs) < 2: raise AnalysisException("least needs at least 2 columns")
    return Column("fn", ("least", tuple(_c(x) for x in cs)))
def concat(*cs): return Column("fn", ("concat", tuple(_c(x) for x in cs)))
def concat_ws(sep, *cs): return Column("fn", ("concat_ws", (lit(sep),) + tuple(_c(x) for x in cs)))

def regexp_extract(c, p, idx): return Column("fn", ("regexp_extract", (_c(c), lit(p), lit(idx))))
def regexp_replace(c, p, r): return Column("fn", ("regexp_replace", (_c(c), lit(p), lit(r))))
def regexp_like(c, p):
    # real signature: both ColumnOrName; the generator passes a bare python string as
    # the pattern, which real Spark would read as a *column name*
    return Column("fn", ("regexp_like", (_c(c), lit(p))))

def rand(*a): return Column("fn", ("rand", ()))
def current_timestamp(): return Column("fn", ("current_timestamp", ()))

# name -> positions whose bare-str arguments are literals (everything else: ColumnOrName)
_LIT_POS = {
    "window": (1, 2, 3), "date_format": (1,), "to_timestamp": (1,), "date_trunc": (0,),
    "get_json_object": (1,), "substring": (1, 2), "split": (1, 2), "slice": (1, 2), "get": (1,),
    "sha2": (1,), "shiftleft": (1,), "shiftright": (1,), "round": (1,), "array_join": (1, 2),
    "lag": (1, 2), "array_contains": (1,), "element_at": (1,), "sequence": (), "log": (), "pow": (0, 1),
    "atan2": (0, 1), "hypot": (0, 1), "lpad": (1, 2), "rpad": (1, 2), "from_unixtime": (1,), "conv": (1, 2),
}
_NAMES = """abs ceil ceiling floor exp log sqrt pow round bitwise_not isnull isnotnull like ilike nullif md5 sha1 sha2
date_format to_timestamp date_trunc json_object_keys get_json_object size get slice zip_with split length lower upper
ltrim rtrim trim url_decode acos acosh asin asinh atan atan2 atanh cos cosh hypot sin sinh tan tanh shiftleft shiftright
substring window array_distinct array_sort array_join from_unixtime unix_timestamp lag filter transform typeof
array sequence element_at array_position array_contains to_json from_json flatten try_to_number to_number sort_array
dayofmonth hour minute second year month weekofyear lpad rpad explode struct named_struct map_keys json_array_length
array_size printf try_cast reduce exists rint signum log10 log2 ln conv hex unhex bin base64 format_number format_string crc32 hash xxhash64
""".split()


def _mk(name):
    def f(*args, **kw):
        out = []
        for i, a in enumerate(args):
            if isinstance(a, Column): out.append(a)
            elif callable(a): out.append(a)
            elif isinstance(a, str) and i not in _LIT_POS.get(name, ()): out.append(col(a))
            else: out.append(lit(a))
        for k in sorted(kw):
            out.append(lit(kw[k]))
        if name == "window":
            return Column("fn", (name, tuple(out)), "window")
        return Column("fn", (name, tuple(out)))
    f.__name__ = name
    return f


for _n in _NAMES:
    if _n not in globals() or _n in ("abs", "round", "pow", "filter", "hash", "bin", "hex", "slice"):
        globals()[_n] = _mk(_n)


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    raise AttributeError(f"module 'pyspark.sql.functions' has no attribute '{n}'")


def udf(f=None, returnType=None):
    def deco(g):
        def call(*cs):
            cols = tuple(x if isinstance(x, Column) else col(x) for x in cs)
            return Column("udf", (g, cols))
        call.func = g
        return call
    return deco if f is None else deco(f)


def _cidr(ip, cidr):
    import ipaddress
    if ip is None: return None
    try:
        return ipaddress.ip_address(ip) in ipaddress.ip_network(cidr, strict=False)
    except ValueError:
        return False


_b_min, _b_max = __builtins__["min"] if isinstance(__builtins__, dict) else __builtins__.min, __builtins__["max"] if isinstance(__builtins__, dict) else __builtins__.max


def _bitop(n, a, b):
    if a is None or b is None: return None
    if isinstance(a, int) and isinstance(b, int):
        return {"bitwiseAND": a & b, "bitwiseOR": a | b, "bitwiseXOR": a ^ b}[n]
    return Term(n, (a, b))


def _eval_fn(n, v):
    anyterm = any(isinstance(x, Term) for x in v)
    if n == "cidr_match": return _cidr(v[0], v[1]) if not anyterm else Term(n, v)
    if n == "isnull": return v[0] is None
    if n == "isnotnull": return v[0] is not None
    if n == "coalesce":
        for x in v:
            if x is not None: return x
        return None
    if n == "like": return _like(v[0], v[1])
    if n == "ilike": return _like(v[0], v[1], True)
    if n in ("bitwiseAND", "bitwiseOR", "bitwiseXOR"): return _bitop(n, *v)
    if anyterm:
        return Term(n, [x for x in v])
    if n == "regexp_like":
        if v[0] is None or v[1] is None: return None
        return jregex(v[1]).search(v[0] if isinstance(v[0], str) else num_to_str(v[0])) is not None
    if n == "regexp_extract":
        if v[0] is None: return None
        m = jregex(v[1]).search(v[0] if isinstance(v[0], str) else num_to_str(v[0]))
        if m is None: return ""
        return m.group(v[2]) or ""
    if n == "regexp_replace":
        if v[0] is None: return None
        return jregex(v[1]).sub(re.sub(r"\$(\d)", r"\\\1", v[2]), v[0] if isinstance(v[0], str) else num_to_str(v[0]))
    if n in ("greatest", "least"):
        xs = [x for x in v if x is not None]
        if not xs: return None
        return _b_max(xs) if n == "greatest" else _b_min(xs)
    if n == "concat":
        if any(x is None for x in v): return None
        if any(isinstance(x, list) for x in v):
            return [y for x in v for y in (x if isinstance(x, list) else [x])]
        return "".join(x if isinstance(x, str) else num_to_str(x) for x in v)
    if n == "concat_ws":
        if any(isinstance(x, list) for x in v[1:]):
            v = [y for x in v for y in (x if isinstance(x, list) else [x])]
        return v[0].join(x if isinstance(x, str) else num_to_str(x) for x in v[1:] if x is not None)
    if n == "isin":
        if v[0] is None: return None
        out = False
        for x in v[1:]:
            out = _core.or3(out, cmp_values("==", v[0], x))
        return out
    if n == "nullif":
        e = cmp_values("==", v[0], v[1])
        return None if e is True else v[0]
    if n == "zip_with":
        if v[0] is None or v[1] is None: return None
        f = v[2]
        m = _b_max(len(v[0]), len(v[1]))
        g = lambda l, i: l[i] if i < len(l) else None
        return [_core.ev(lit(f(lit(g(v[0], i)), lit(g(v[1], i)))), lambda nm: None) for i in range(m)]
    if any(x is None for x in v) and n in (
            "length", "lower", "upper", "abs", "size", "get", "slice", "split", "substring", "ceil", "floor", "round", "trim",
            "ltrim", "rtrim", "shiftleft", "shiftright", "bitwise_not", "pow"):
        return None
    if n == "length" and isinstance(v[0], (str, int)): return len(v[0] if isinstance(v[0], str) else num_to_str(v[0]))
    if n == "lower" and isinstance(v[0], str): return v[0].lower()
    if n == "upper" and isinstance(v[0], str): return v[0].upper()
    if n == "abs" and _num(v[0]): return __builtins__["abs"](v[0]) if isinstance(__builtins__, dict) else __builtins__.abs(v[0])
    if n == "ceil" and _num(v[0]): return math.ceil(v[0])
    if n == "floor" and _num(v[0]): return math.floor(v[0])
    if n == "size" and isinstance(v[0], list): return len(v[0])
    if n == "get" and isinstance(v[0], list):
        return v[0][v[1]] if 0 <= v[1] < len(v[0]) else None
    if n == "slice" and isinstance(v[0], list):
        s, ln = v[1], v[2]
        if s == 0: raise AnalysisException("slice start must not be 0")
        i = s - 1 if s > 0 else len(v[0]) + s
        return v[0][i:i + ln] if 0 <= i else []
    if n == "substring" and isinstance(v[0], str):
        s, ln = v[1], v[2]
        i = s - 1 if s > 0 else (0 if s == 0 else len(v[0]) + s)
        if ln <= 0: return ""
        j = i + ln
        return v[0][_b_max(i, 0):_b_max(j, 0)]
    if n == "split" and isinstance(v[0], str):
        return re.split(v[1], v[0])
    if n in ("trim", "ltrim", "rtrim") and isinstance(v[0], str):
        ch = v[1] if len(v) > 1 else " "
        return {"trim": str.strip, "ltrim": str.lstrip, "rtrim": str.rstrip}[n](v[0], ch)
    if n == "shiftleft" and isinstance(v[0], int): return v[0] << v[1]
    if n == "shiftright" and isinstance(v[0], int): return v[0] >> v[1]
    if n == "bitwise_not" and isinstance(v[0], int): return ~v[0]
    if n == "pow" and isinstance(v[0], (int, float)) and isinstance(v[1], int) and 0 <= v[1] < 20: return float(v[0]) ** v[1]
    if n == "round" and _num(v[0]):
        d = decimal.Decimal(repr(v[0])).quantize(decimal.Decimal(1).scaleb(-(v[1] if len(v) > 1 else 0)), decimal.ROUND_HALF_UP)
        return int(d) if isinstance(v[0], int) else float(d)
    if n == "get_json_object":
        if v[0] is None or v[1] is None: return None
        if v[1] == "$":
            try:
                json.loads(v[0])
                return v[0]
            except ValueError:
                return None
    if n == "rand": return Term("rand", ())
    if n == "to_timestamp" and len(v) == 1 and isinstance(v[0], datetime.datetime): return v[0]
    if n == "date_trunc" and isinstance(v[1], datetime.datetime): return _core.trunc(v[0], v[1])
    return Term(n, v)
