"""C16: time formats and relative times."""
import datetime, re
import impl

EPOCH = datetime.datetime(1970, 1, 1)
SPARK = {}


def read(pattern):
    """what a pattern of Spark means, by the table of the specification; None for a piece that it does not have"""
    out, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if c == "'":
            # between apostrophes, where two of them are one; nothing between them is an apostrophe, too
            j, text = i + 1, ""
            while j < len(pattern):
                if pattern[j] == "'":
                    if pattern[j + 1:j + 2] != "'":
                        break
                    j += 1
                text += pattern[j]
                j += 1
            else:
                return None, f"the quote at {i} is not closed"
            out += [("text", x) for x in text or "'"]
            i = j + 1
        elif c.isascii() and c.isalpha():
            j = i
            while j < len(pattern) and pattern[j] == c:
                j += 1
            if pattern[i:j] not in SPARK:
                return None, f"`{pattern[i:j]}` is no field with a known meaning"
            out.append(("field", SPARK[pattern[i:j]]))
            i = j
        elif c in "[]{}#":
            return None, f"`{c}` outside quotes"
        else:
            out.append(("text", c))
            i += 1
    return out, None


FORMATS = ['index=main | eval x=strftime(a, §)', 'index=main | eval x=strptime(a, §)', 'index=main | convert timeformat=§ ctime(a) AS x',
           'index=main | convert timeformat=§ ctime(a) | rename a AS x', 'index=main | eval x=upper(strftime(a, §))',
           'index=main | eval b=1, x=if(a=2, 3, strftime(a, §))', 'index=main | join b [search index=main | eval x=strftime(a, §)]',
           'index=main | where isnotnull(strftime(a, §)) | eval x=strftime(a, §)']
REL = ['index=main | eval x=relative_time(a, §)', 'index=main | eval y=1, x=if(b=1, relative_time(a, §), a)', 'index=main | eval x=coalesce(relative_time(a, §), a)',
       'index=main | where b=1 | eval x=relative_time(a, §) | fields a, x', 'index=main | eval x=relative_time(relative_time(a, "@s"), §)']


def quote(chars):
    s = "".join(chars)
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def find(x, out):
    from pyspark.sql._core import Term
    if isinstance(x, Term):
        if x.fn in ("date_format", "to_timestamp") and len(x.args) == 2:
            out.append((x.fn, x.args[1]))
        for a in x.args:
            find(a, out)
    return out


def fmt(job):
    _, q, chars, ok, meaning, rt = job
    from pyspark.sql import DataFrame
    if q == "direct":
        from spl_transpiler.runtime import functions
        from pyspark.sql import functions as F
        try:
            df = DataFrame.of(["a"], [["v"]]).withColumn("x", functions.eval.strftime(F.col("a"), "".join(chars))).withColumn("y", functions.eval.strptime("a", "".join(chars)))
        except Exception as e:
            return f"refused: {type(e).__name__}: {e}"[:300] if ok else None
        vals = [df.collect()[0][1], df.collect()[0][2]]
    else:
        st, code = impl.try_transpile(q.replace("§", quote(chars)), runtime=rt)
        if st == "panic":
            return f"panic: {code}"
        if st == "ok" and not ok and rt:
            try:  # the runtime's functions refuse when they are called
                impl.run_code(code, {"main": DataFrame.of(["a", "b"], [["v", 1]])})
            except Exception:
                return None
        if (st == "ok") != ok:
            return f"refused: {code}" if ok else f"not refused\n{code}"
        if not ok:
            return None
        df, _ = impl.run_code(code, {"main": DataFrame.of(["a", "b"], [["v", 1]])})
        i = list(df.columns).index("x")
        vals = [df.collect()[0][i]]
    for v in vals:
        ps = find(v, [])
        if len(ps) != 1:
            return f"{len(ps)} patterns in {v!r}"
        fn, p = ps[0]
        want = "to_timestamp" if "strptime" in q or (q == "direct" and v is vals[-1]) else "date_format"
        if fn != want:
            return f"{fn} instead of {want}"
        got, why = read(p)
        if why:
            return f"pattern {p!r}: {why}"
        if got != meaning:
            k = next((k for k, (a, b) in enumerate(zip(got, meaning)) if a != b), min(len(got), len(meaning)))
            return f"pattern {p!r} means {got[k] if k < len(got) else 'nothing'} where the format says {meaning[k] if k < len(meaning) else 'nothing'}"
    return None


def rel(job):
    _, q, text, values, rt, quoted = job
    from pyspark.sql import DataFrame
    rows, exp = [], []
    for k, (d, s) in values:
        b = [int(z) for z in k.split(":")]
        rows.append([EPOCH + datetime.timedelta(days=b[0], seconds=b[1]), 1])
        exp.append(EPOCH + datetime.timedelta(days=d, seconds=s))
    st, code = impl.try_transpile(q.replace("§", f'"{text}"' if quoted else text), runtime=rt)
    if st != "ok":
        return f"refused: {code}"
    df, _ = impl.run_code(code, {"main": DataFrame.of(["a", "b"], rows)})
    i = list(df.columns).index("x")
    for r, e, got in zip(rows, exp, df.collect()):
        if got[i] != e:
            return f"{r[0]} becomes {got[i]} instead of {e}\n{code}"
    return None


def direct(job):
    """the runtime's relative_time called with the parts of the specifier"""
    _, text, parts, values = job
    from pyspark.sql import DataFrame, functions as F
    from spl_transpiler.runtime import functions
    span, snap, aft = parts
    for k, (d, s) in values:
        b = [int(z) for z in k.split(":")]
        t = EPOCH + datetime.timedelta(days=b[0], seconds=b[1])
        kw = {}
        if span[0]: kw["span"] = dict(value=span[0], scale=span[1] + "s")
        if aft[0]: kw["snap_offset"] = dict(value=aft[0], scale=aft[1] + "s")
        df = DataFrame.of(["a"], [[t]]).withColumn("x", functions.eval.relative_time("a", snap=snap + "s", **kw))
        e = EPOCH + datetime.timedelta(days=d, seconds=s)
        if df.collect()[0][1] != e:
            return f"functions.eval.relative_time({kw}, snap={snap}): {t} becomes {df.collect()[0][1]} instead of {e}"
    return None


def one(job):
    return {"fmt": fmt, "rel": rel, "direct": direct}[job[0]](job)


def run(h):
    q = h.quick
    sset = lambda xs: "{" + ", ".join('"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"' for x in xs) + "}"
    texts = ["T", "Z", "H", "d", "e", "3", "N", " ", "-", ":", "/", ",", "'", "[", "]", "{", "#", "!", "z", "M", "\u00e9", "$", ".", "Q", "x"]
    inst = "{I(20800, 50523), I(19782, 86399), I(20454, 0), I(19783, 3600), I(18262, 61), I(20543, 43199), I(11016, 5), I(-1, 86399)}"
    TF = lambda d, t, n, label, **kw: dict(module="TimeFormat", constants=dict(Directives=d, Texts=sset(t), MaxLen=n), invariants=("Unambiguous", "Expressible", "Emit"), label=label, **kw)
    RT = lambda nums, units, afters, label, **kw: dict(module="RelTime", constants=dict(Nums=nums, Units=units, Signs='{"-", ""}', Instants=inst, Afters=afters),
                                                       invariants=("Sane", "Emit"), label=label, **kw)
    sp, every, pairs, long_, rel1, rel2 = h.tlc_many([
        dict(module="TimeFormat", constants=dict(Directives="{}", Texts="{}", MaxLen=0), invariants=("EmitSpark",), label="the patterns of Spark"),
        TF("All", texts, 2, "every directive before and after every other"),
        TF('{"percent", "H", "bare", "q3", "z3", "Y", "plus"}', ["H", "3", "T", ":", "'"], 3 if q else 4, "percent signs"),
        TF("All \\ {d \\in All : Means(d) = No}", texts, 16, "long formats", simulate=150 if q else 3000, depth=17),
        RT("{70}", "DOMAIN Unit", '{"h"}', "every unit"),
        RT("{1, 3, 5, 11, 24, 30, 90, 400}", '{"s", "m", "h", "d", "w", "mon"}', '{"s", "min", "hours", "d", "weeks", "mon"}', "every number", simulate=300 if q else 6000, depth=4)])
    SPARK.update(sp[0]["spark"])
    jobs, seen = [], set()
    for recs, per in ((every, 2 if q else None), (pairs, 2 if q else None), (long_, 4 if q else None)):
        for n, r in enumerate(recs):
            f = tuple(r["f"])
            if f in seen or "%" not in f:  # a format without directives is left open
                continue
            seen.add(f)
            m = [(x["k"], x["v"]) for x in r["m"]]
            for j in range(per or len(FORMATS)):
                t = FORMATS[(n + j + h.seed) % len(FORMATS)]
                jobs.append(("fmt", t, r["f"], r["ok"], m, (n // len(FORMATS) + j) % 2 == 1))
            jobs.append(("fmt", "direct", r["f"], r["ok"], m, True))
    seen = set()
    for recs in (rel1, rel2):
        for n, r in enumerate(recs):
            if r["s"] in seen:
                continue
            seen.add(r["s"])
            v = sorted(r["v"].items())
            for j in range(1 if q else len(REL)):
                jobs.append(("rel", REL[(n + j + h.seed) % len(REL)], r["s"], v, (n + j) % 2 == 0, True))
            jobs.append(("direct", r["s"], (r["o"], r["n"], r["a"]), v))
    for j, (state, why) in zip(jobs, h.pool(one, jobs)):
        h.traces += 1
        h.evals += 1
        h.cov(j[0])
        if state != "ok" or why:
            what = j[1].replace("§", quote(j[2])) if j[0] == "fmt" else j[1].replace("§", f'"{j[2]}"') if j[0] == "rel" else j[1]
            h.violation({"q": what, "job": j}, f"{what}{' (with the runtime)' if j[0] == 'fmt' and j[5] or j[0] == 'rel' and j[4] else ''}\n{why if state == 'ok' else state + ': ' + str(why)}")
    for j in jobs[::max(1, len(jobs) // 6)]:
        h.sample({"job": str(j)[:300]})
    return h.finish(rule="every directive next to every other and to text, percent signs, long formats, in every position that takes a format, both modes and the runtime called directly; "
                         "every spelling of units, offsets and snaps, executed on instants at the ends of days, months and years")
