"""C22: programs that call the runtime library directly compute what the SPL names of its commands and functions mean."""
import c20
import impl
from pipes import job

TABLES = None
_ns = None


def names():
    global _ns
    if _ns is None:
        from pyspark.sql import functions as F
        from spl_transpiler.runtime import commands, functions
        _ns = {"F": F, "commands": commands, "functions": functions}
    return _ns


def session():
    from pyspark.sql import SparkSession
    s = SparkSession({n: impl.table(t) for n, t in TABLES.items()})
    SparkSession._current = s
    return s


def one(case):
    """A program: every frame holds its table at the end, and each call has read its tables."""
    sess = session()
    ns = dict(names())
    prog = "\n".join(f"f{j + 1} = {x}" for j, x in enumerate(case["p"]))
    try:
        done = 0
        for j, x in enumerate(case["p"]):
            exec(f"f{j + 1} = {x}", ns)
            if list(sess.log[done:]) != list(case["rd"][j]):
                return f"{prog}\nf{j + 1} reads {sess.log[done:]} instead of {case['rd'][j]}"
            done = len(sess.log)
        for j, t in enumerate(case["f"]):
            why = impl.diff(t, ns[f"f{j + 1}"], t["ord"])
            if why:
                return f"{prog}\nf{j + 1}: {why}"
    except Exception as e:
        return f"{prog}\n{type(e).__name__}: {e}"
    return None


def refused(text):
    session()
    try:
        r = eval(text, dict(names()))
        r = r.collect() if hasattr(r, "collect") else r
    except Exception:
        return None
    return f"{text} is not refused: {r!r}"


def call(case):
    """A function called on columns, names of columns and plain values."""
    ns = dict(names())
    exp = [impl.val(v) for v in case["v"]]
    try:
        c = eval(case["py"], ns)
        df = ns["commands"].eval(c20.table(), r=c)
        i = df.columns.index("r")
        for k, (x, row) in enumerate(zip(exp, df.collect())):
            if not impl.eq(x, row[i]):
                return f"row {k}: {row[i]!r} instead of {x!r}"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return None


def rt(fams, n, sim, label, **kw):
    j = job(fams, ["main"], n, rich=not sim, sim=sim, label=label, props=False, **kw)
    j.update(module="RuntimeMachine", spec="RSpec", invariants=["EmitRt", "EmitRtTables"], depth=n + 2 if sim else None,
             properties=() if sim else ("FramesStay",))
    return j


ALL = ["search", "data_model", "eval", "fillnull", "stats", "tstats"]


def run(h):
    global TABLES
    q = h.quick
    fn = lambda **kw: {**kw, "constants": {**kw["constants"], "Direct": True}}
    jobs = [fn(**c20.ONCE), fn(**c20.nested(q)), fn(**c20.deep(200 if q else 6000)),
            rt(["search", "data_model"], 1, 0, "every source"),
            rt(["search", "eval", "fillnull", "stats"], 3, 200 if q else 6000, "short programs"),
            rt(ALL, 8, 200 if q else 6000, "long programs", timeout=3000)]
    out = h.tlc_many(jobs)
    c20.DATA = [r for o in out[:3] for r in o if "arity" in r][0]
    calls = {r["py"]: r for o in out[:3] for r in o if r.get("py")}
    calls = list(calls.values())
    for c, (st, res) in zip(calls, h.pool(call, calls)):
        h.traces += 1
        h.evals += 1
        for f in c["c"]:
            h.cov("function " + f)
        if st != "ok" or res:
            h.violation({"python": c["py"]}, f"{c['py']}\n{st if st != 'ok' else ''} {res}")
    seen, progs, bad = set(), [], []
    for r in (r for o in out[3:] for r in o):
        if "tables" in r:
            TABLES, bad = r["tables"], r["refused"]
        elif tuple(r["p"]) not in seen:
            seen.add(tuple(r["p"]))
            progs.append(r)
    # a program that another one begins with is covered by that one
    inner = {tuple(r["p"][:-1]) for r in progs if len(r["p"]) > 1}
    progs = [r for r in progs if tuple(r["p"]) not in inner]
    for c, (st, res) in zip(progs, h.pool(one, progs)):
        h.traces += 1
        h.evals += len(c["p"])
        for f in c["fam"]:
            h.cov("command " + f)
        h.cov(f"{len(c['p'])} frames")
        if st != "ok" or res:
            h.violation({"program": c["p"], "expected": c["f"]}, res if st == "ok" else f"{c['p']}\n{st}: {res}")
    for text, (st, res) in zip(bad, h.pool(refused, bad)):
        h.evals += 1
        h.cov("refused")
        if st != "ok" or res:
            h.violation({"call": text}, f"{text}\n{st}: {res}")
    for c in progs[::max(1, len(progs) // 4)]:
        h.sample({"program": c["p"]})
    for c in calls[::max(1, len(calls) // 3)]:
        h.sample({"call": c["py"]})
    return h.finish(rule="every distinct call of the function machine written as a direct Python call; every program of the runtime machine (maximal ones), all frames compared after the last call")
