"""C04: strings, numbers and names reach the program with their exact value."""
import ast as pyast
import re
from fractions import Fraction
import impl

CH = {"dq": '"', "sq": "'", "bs": "\\", "nl": "\n", "cr": "\r", "tab": "\t", "sp": " ", "comma": ",", "lp": "(", "rp": ")", "lb": "[",
      "rb": "]", "pipe": "|", "eq": "=", "hash": "#", "pct": "%", "dollar": "$", "tick": "`", "e2": "\u00e9", "arrow": "\u2192",
      "smile": "\U0001f600", "lc": "{", "rc": "}", "star": "*", "semi": ";", "dot": ".", "colon": ":", "slash": "/", "dash": "-", "us": "_",
      "lt": "<", "at": "@", "zwj": "\u200d", "nbsp": "\u00a0", "bell": "\x07", "plus": "+", "amp": "&", "quest": "?"}
txt = lambda q: "".join(CH.get(c, c) for c in q)

# [query with § for a double-quoted literal, may it be repeated (empty literals next to each other are a known finding), wildcards?]
STR = [
    'index=main | eval x=§', 'index=main | eval x=if(a=§, §, b)', 'index=main | eval x=case(a=§, §, b=1, "z")', 'index=main | eval x=coalesce(a, §)',
    'index=main | eval x=md5(§)', 'index=main | eval x=replace(a, §, §)', 'index=main | eval x=split(a, §)', 'index=main | eval x=trim(a, §), y=§',
    'index=main | eval x=nullif(a, §)', 'index=main | eval x=max(a, §)', 'index=main | eval x=len(§), y=substr(§, 1, 2)', 'index=main | eval x=§+1',
    'index=main | where a=§', 'index=main | where §=a', 'index=main | where a>§ AND NOT b!=§', 'index=main | where a IN (§, "z")',
    'index=main | where match(a, §)', 'index=main | where NOT (a=§ OR b=§)', 'index=main a=§', 'index=main a!=§ OR b=§', 'index=main NOT (a=§ b>=§)',
    'index=main | search a=§', 'index=main a IN (§, "k")', 'index=main a IN ("k", §, 5)', 'index=main §', 'index=main NOT § "u"', 'index=§',
    'index=§ sourcetype=§', 'source=§ host=§', 'index=main | fillnull value=§', 'index=main | fillnull value=§ a b',
    'makeresults annotate=true splunk_server=§ splunk_server_group=§', 'index=main | join b [search a=§ | eval x=§]',
    'multisearch [search index=§] [search index=w b=§]', 'tstats count from datamodel=M where a=§ by b', 'index=main | stats count(eval(a=§)) as x',
    'index=main | stats values(§) as x by a', 'index=main | eval x=strftime(a, "%Y"), y=§ | where y=§', 'index=main | eval x=nope(a, §, 3)',
    'index=main | eval x=mvappend(a, §)', 'index=main | eval x=tonumber(§)', 'index=main | eval x=if(isnull(a), §, upper(§))']
WILD = ['index=main a=§', 'index=main a!=§ OR b=§', 'index=main | search NOT a=§', 'index=main a IN (§, "k")', 'index=main | where a=§', 'index=main | where a!=§',
        'index=main | where a IN ("u", §)', 'index=main | join b [search a=§]', 'tstats count from datamodel=M where a=§ by b', 'index=main | eval x=if(a=§, 1, 2)']
# quoted names
DNAME = ['index=main §=1', 'index=main NOT §>1 OR b=§', 'index=main | search §=1', 'index=main | eval §=1', 'index=main | eval §=a+1, b=2', 'index=main | rename a AS §',
         'index=main | rename § AS b', 'index=main | fields a, §', 'index=main | fields - § b', 'index=main | table a §', 'index=main | stats count by §',
         'index=main | stats count AS § by b', 'index=main | stats sum(a) AS § by b', 'index=main | stats count by a, §', 'index=main | addtotals fieldname=§ a b',
         'index=main | addtotals § b', 'index=main | convert ctime(a) AS §', 'index=main | convert memk(§) AS b', 'index=main | spath input=a output=§ path=b',
         'index=main | spath input=§ output=x path=b', 'index=main | lookup dim k OUTPUT a AS §', 'index=main | lookup dim k AS § OUTPUT a',
         'index=main | lookup dim § OUTPUT a', 'index=main | join § [search b=1]', 'index=main | rex field=§ "(?<a>b)"', 'index=main | regex §="b"',
         'index=main | fields b | join c [search d=1 | fields §]']
SNAME = ['index=main | eval x=§+1', 'index=main | eval x=if(§=1, §, a)', 'index=main | eval §=1', 'index=main | where §>1', 'index=main | where isnull(§) OR b=§',
         'index=main §=1', 'index=main | rename § AS b', 'index=main | stats max(§) as x by b', 'index=main | stats count by §', 'index=main | fields a, §',
         'index=main | table § b', 'index=main | sort §, a' , 'index=main | eval x=len(upper(§))']
NUM = ['index=main | eval x=§', 'index=main | where a>§', 'index=main | where a=b+§', 'index=main a=§', 'index=main a IN (§, 2) b!=§', 'index=main | eval x=a * §',
       'index=main | eval x=if(a<§, §, b)', 'index=main | eval x=pow(§, 2)', 'index=main | where a IN (§, "z")', 'index=main | eval x=coalesce(a, §), y=§',
       'index=main | join b [search a>=§]', 'tstats count from datamodel=M where a=§ by b']
INT = ['index=main | eval x=round(a, §)', 'index=main | eval x=substr(a, §, §)', 'index=main | eval x=tonumber(a) + §']
UINT = ['index=main | head §', 'index=main | head limit=§', 'index=main | sort § a', 'index=main | sort limit=§ -a', 'index=main | head count<§',
        'makeresults count=§', 'index=main | eval x=mvindex(a, §)']
NAME = ['index=main §=1', 'index=main | search a=§', 'index=main a=§', 'index=main a!=§ OR b IN (§, c)', 'index=main §', 'index=§', 'index=main sourcetype=§', 'index=main | eval §=1',
        'index=main | rename a AS §', 'index=main | rename § AS b', 'index=main | fields a, §', 'index=main | fields - §', 'index=main | table § b', 'index=main | stats count by §, b',
        'index=main | stats sum(§) as x', 'index=main | stats sum(a) AS §', 'index=main | stats count AS § by b', 'index=main | addtotals a §',
        'index=main | convert ctime(§)', 'index=main | lookup § k OUTPUT a', 'index=main | lookup dim § OUTPUT a', 'index=main | lookup dim k AS b OUTPUT a AS §',
        'index=main | join § [search b=1]', 'index=main | rex field=§ "(?<a>b)"', 'index=main | regex §="b"', 'index=main | sort -§', 'index=main | sort 5 a, -§',
        'index=main | bin span=5m § AS b', 'index=main | spath input=§ output=x path=y', 'tstats count from datamodel=§', 'tstats count from datamodel=M by §',
        'index=main | where §=1', 'index=main | where isnull(§)', 'index=main | eval x=§ + 1', 'index=main | eval x=if(§=1, §, b)']
RT = lambda q: True
GROUPS = {"string": (STR, '"'), "wildcard": (WILD, '"'), "quoted name": (DNAME, '"'), "single-quoted name": (SNAME, "'"), "number": (NUM, ""), "integer": (INT, ""),
          "count": (UINT, ""), "name": (NAME, "")}
HOLE = {"string": ("QqZ", "QqZ"), "wildcard": ("Qq*Z", "Qq%Z"), "quoted name": ("QqZ", "QqZ"), "single-quoted name": ("QqZ", "QqZ"), "name": ("QqZ", "QqZ"),
        "number": ("31337", 31337), "integer": ("31337", 31337), "count": ("31337", 31337)}


def plain(regex):
    """The one text that a regular expression stands for."""
    out, rest = "", regex
    while rest:
        m = re.match(r"\\([^\w])|([^\\.^$*+?()\[\]{}|])", rest, re.S)
        if not m:
            return ("regular expression", regex)
        out, rest = out + (m[1] or m[2]), rest[m.end():]
    return out


def norm(n):
    """The structure of a Python program, however it is written."""
    if isinstance(n, pyast.UnaryOp) and isinstance(n.op, pyast.USub) and isinstance(n.operand, pyast.Constant):
        return ("Constant", -n.operand.value)
    if isinstance(n, pyast.Constant):
        return ("Constant", n.value)
    if isinstance(n, pyast.Call):
        kw = []
        for k in n.keywords:
            if k.arg is None and isinstance(k.value, pyast.Dict):
                kw += [(norm(a), norm(b)) for a, b in zip(k.value.keys, k.value.values)]
            else:
                kw.append((("Constant", k.arg), norm(k.value)))
        args = [norm(a) for a in n.args]
        if pyast.unparse(n.func) == "F.split" and len(args) == 2 and args[1][0] == "Constant":
            args[1] = ("Constant", plain(args[1][1]))   # Spark splits at a regular expression
        return ("Call", norm(n.func), tuple(args), tuple(kw))
    if isinstance(n, pyast.AST):
        return (type(n).__name__,) + tuple((f, norm(getattr(n, f, None))) for f in n._fields if f not in ("ctx", "type_ignores", "kind"))
    if isinstance(n, list):
        return tuple(norm(x) for x in n)
    return n


def fill(t, hole, value):
    """-> (the structure with the hole filled, number of holes)"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "Constant":
            if isinstance(hole, str) and isinstance(t[1], str) and hole in t[1]:
                return ("Constant", t[1].replace(hole, value)), t[1].count(hole)
            if not isinstance(hole, str) and type(t[1]) is int and abs(t[1] - hole) <= 1:
                return ("Constant", value + (t[1] - hole)), 1
            return t, 0
        out, k = [], 0
        for x in t:
            a, b = fill(x, hole, value)
            out.append(a)
            k += b
        return tuple(out), k
    return t, 0


_base = {}


def base(group, q, rt):
    k = (group, q, rt)
    if k not in _base:
        d = GROUPS[group][1]
        st, code = impl.try_transpile(q.replace("§", d + HOLE[group][0] + d), runtime=rt)
        _base[k] = norm(pyast.parse(code)) if st == "ok" else (st, code)
    return _base[k]


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and a[0] == "Constant" and len(b) == 2 and b[0] == "Constant":
            x, y = a[1], b[1]
            num = lambda v: isinstance(v, (int, float)) and not isinstance(v, bool)
            if num(x) and num(y):
                return Fraction(x) == Fraction(y)
            return type(x) is type(y) and x == y
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def one(job):
    group, q, rt, text, value = job
    b = base(group, q, rt)
    if b[0] in ("err", "panic"):
        return f"the query with a plain literal is not transpiled: {b[1]}"
    full = q.replace("§", text)
    st, code = impl.try_transpile(full, runtime=rt)
    if st != "ok":
        return f"not transpiled: {code}"
    try:
        got = norm(pyast.parse(code))
    except (SyntaxError, ValueError) as e:
        return f"the program is not Python: {e}\n{code}"
    exp, k = fill(b, HOLE[group][1], value)
    if k < 1:
        return f"the literal doesn't reach the program"
    if not same(exp, got):
        return f"the value {value!r} doesn't reach the program in its place, or the structure of the program differs\n{code}"
    return None


def run(h):
    q = h.quick
    st = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    core = ["a", "n", "dq", "sq", "bs", "nl", "sp", "e2", "rp"]
    full = core + ["x", "u", "N", "0", "t", "cr", "tab", "comma", "lp", "lb", "rb", "pipe", "eq", "hash", "pct", "dollar", "tick", "arrow", "smile", "lc", "rc",
                   "semi", "dot", "colon", "slash", "dash", "us", "lt", "at", "nbsp", "bell", "plus", "amp", "quest", "b"]
    L = lambda chars, n, quote, label, **kw: dict(module="Literal", constants=dict(Chars=st(chars), MaxLen=n, Quote=f'"{quote}"'), label=label,
                                                  invariants=("RoundTrip", "Contained", "Emit"), **kw)
    N = lambda digits, i, f, first, rest, n, label, **kw: dict(module="Number", constants=dict(Digits=st(digits), MaxInt=i, MaxFrac=f, NameFirst=st(first), NameRest=st(rest), MaxName=n),
                                                               invariants=("Canonical", "Emit"), label=label, **kw)
    short, long_, allc, deep, sshort, sall, wild, num, big, names = h.tlc_many([
        L(core, 3 if q else 4, "dq", "all short literals"), L(core, 14, "dq", "long literals", simulate=60 if q else 800, depth=15),
        L(full, 2, "dq", "every character"), L(full, 24, "dq", "long literals, every character", simulate=60 if q else 800, depth=25),
        L(core, 2 if q else 3, "sq", "all short quoted names"), L(full, 2 if q else 2, "sq", "every character in quoted names"),
        L(["a", "star", "bs", "dq", "sp", "pct"], 4 if q else 5, "dq", "wildcards"),
        N(["0", "1", "5", "9"], 3, 2 if q else 3, [], [], 0, "all short numbers"),
        N([str(d) for d in range(10)], 15, 7, [], [], 0, "long numbers", simulate=60 if q else 600, depth=24),
        N([], 0, 0, ["a", "B", "_"], ["1", "z", "_", "%", "{", "}", "@"], 3 if q else 4, "all short names")])
    jobs = []

    def add(group, recs, conv, per, modes=(False,), ok=lambda q, r: True):
        """every record in `per` of the positions, in turn (all if per is None)"""
        qs = GROUPS[group][0]
        k = h.seed
        for r in recs:
            c = conv(r)
            if c is None:
                continue
            for j in range(len(qs) if per is None else per):
                qq = qs[(k + j) % len(qs)]
                for rt in modes:
                    if ok(qq, r) and not (rt and not RT(qq)):
                        jobs.append((group, qq, rt) + c)
            k += per or 0

    def lit(d, wildcards=False):
        def conv(r):
            # a literal that is one quoted literal inside quotes is a known finding; names may not be empty
            t, v = txt(r["s"]), txt(r["v"])
            if wildcards:
                return (d + t + d, txt(r["w"])) if "star" in r["v"] else None
            return (d + t + d, v)
        return conv
    noempty = lambda qq, r: r["s"] or qq.count("§") + qq.count('"') < 2
    add("string", short, lit('"'), 6 if q else None, ok=noempty)
    add("string", allc, lit('"'), 4 if q else None, ok=noempty, modes=(False, True))
    add("string", [r for r in short if len(r["s"]) <= 2], lit('"'), None, modes=(False, True), ok=noempty)
    add("string", long_ + deep, lit('"'), 2 if q else 6, modes=(False, True), ok=noempty)
    names_ok = lambda r: bool(r["s"])
    add("quoted name", [r for r in short + allc if names_ok(r)], lit('"'), 3 if q else 12, modes=(False, True))
    add("quoted name", [r for r in long_ + deep if names_ok(r)], lit('"'), 1 if q else 4, modes=(False, True))
    add("single-quoted name", [r for r in sshort + sall if names_ok(r)], lit("'"), 4 if q else None, modes=(False, True))
    add("wildcard", wild, lit('"', True), 3 if q else None, modes=(False, True))
    number = lambda r: (r["t"], Fraction(r["v"]) if r["k"] == "dec" else int(r["v"]))
    add("number", [r for r in num if r["k"] in ("int", "dec")], lambda r: (r["t"], int(r["v"]) if r["k"] == "int" else float(r["t"])), 4 if q else None, modes=(False, True))
    add("number", [r for r in big if r["k"] in ("int", "dec")], lambda r: (r["t"], int(r["v"]) if r["k"] == "int" else float(r["t"])), 2, modes=(False, True))
    add("integer", [r for r in num if r["k"] == "int"], lambda r: (r["t"], int(r["v"])), None)
    add("count", [r for r in num + big if r["k"] == "int" and r["t"][0].isdigit() and len(r["t"]) < 18], lambda r: (r["t"], int(r["v"])), 3, ok=lambda qq, r: "sort" not in qq or int(r["v"]))  # 0: all rows
    add("name", [r for r in names if r["k"] == "name"], lambda r: (r["t"], r["v"]), 4 if q else 16, modes=(False, True))
    # a name that stands elsewhere in the query, too, may mean something together with it (eval b=1, b=2)
    # the text of a number fills the columns of numbers, too
    jobs = [j for j in jobs if "fillnull" not in j[1] or not re.fullmatch(r"[-+]?\d+", str(j[4]))]
    jobs = [j for j in dict.fromkeys(jobs) if "name" not in j[0] or j[4] not in re.findall(r"\w+", j[1])]
    for j, (state, why) in zip(jobs, h.pool(one, jobs)):
        h.traces += 1
        h.evals += 1
        h.cov(j[0])
        if state != "ok" or why:
            full_ = j[1].replace("§", j[3])
            h.violation({"q": full_, "runtime": j[2], "value": str(j[4])}, f"{full_}\n{why if state == 'ok' else state + ': ' + str(why)}{' (with the runtime)' if j[2] else ''}")
    for j in jobs[::max(1, len(jobs) // 6)]:
        h.sample({"query": j[1].replace("§", j[3]), "value": str(j[4])})
    return h.finish(rule="every literal of the lexer in the positions that take one; the generated program must be that for a plain literal with the plain one replaced by the exact value")
