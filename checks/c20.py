"""C20: each supported function computes its documented Spark counterpart; wrong numbers of arguments are refused."""
import impl

DATA = None
TAB = None
RUNTIME = False


def table():
    global TAB
    if TAB is None:
        TAB = impl.table(DATA)
    return TAB


def run_query(text):
    df, _ = impl.run_code(impl.transpile("index=main | " + text, runtime=RUNTIME), {"main": table()})
    return df


def one(case):
    exp = [impl.val(v) for v in case["v"]]
    bad = []
    n = 0

    def check(text, want, whole=False):
        nonlocal n
        n += 1
        try:
            df = run_query(text)
            i = df.columns.index("r")
            for k, (x, row) in enumerate(zip(want, df.collect())):
                if not impl.eq(x, row[i]):
                    bad.append((text, f"row {k} {dict(zip(DATA['cols'], list(row)))}: {row[i]!r} instead of {x!r}"))
                    return
        except Exception as ex:
            bad.append((text, f"{type(ex).__name__}: {ex}"))
    e = case["t"]
    check(f"eval r={e}", exp)
    if case["ty"] == "b" and impl.ANY not in exp:
        n += 1
        text = f"where {e}"
        try:
            ids = [r[0] for r in run_query(f"eval r=case(false(), 0) | {text} | fields i1, n1").collect()]
            want = [r[DATA["cols"].index("i1")] for r, x in zip(table().collect(), exp) if x is True]
            if ids != want:
                bad.append((text, f"keeps the rows with i1 = {ids} instead of {want}"))
        except Exception as ex:
            bad.append((text, f"{type(ex).__name__}: {ex}"))
    return n, bad


def arity(case):
    st, res = impl.try_transpile("index=main | " + case["q"], runtime=RUNTIME)
    if (st == "ok") == case["ok"] and st != "panic":
        return None
    return f"{st} instead of {'ok' if case['ok'] else 'an error'}: {res[:200]}"


def load(h, jobs):
    """The distinct calls of the function machine and its table."""
    global DATA
    recs = sum(h.tlc_many(jobs), [])
    DATA = [r for r in recs if "cols" in r][0]
    cases = {}
    for r in recs:
        if "t" in r:
            cases.setdefault(r["t"], r)
    return list(cases.values())


def replay(h, cases):
    said = {}
    for case, (st, res) in zip(cases, h.pool(one, cases)):
        h.traces += 1
        for f in case["c"]:
            said[f] = said.get(f, False) or any("u" not in v for v in case["v"])
        if st != "ok":
            h.violation(case, f"{st}: {res}")
            continue
        n, bad = res
        h.evals += n
        for f in case["c"]:
            h.cov(f)
        for text, why in bad:
            h.violation({"text": text, "runtime": RUNTIME}, f"{text}\n{why}")
    if not all(said.values()):
        raise RuntimeError(f"functions without a specified value: {[f for f in said if not said[f]]}")
    for case, (st, res) in zip(DATA["arity"], h.pool(arity, DATA["arity"])):
        h.evals += 1
        h.cov("arguments: " + ("taken" if case["ok"] else "refused"))
        if st != "ok" or res:
            h.violation(case, f"{case['q']}\n{st if st != 'ok' else ''}{res}")
    for c in cases[len(cases) // 2::max(1, len(cases) // 5)]:
        h.sample({"eval": c["t"], "type": c["ty"]})


ONCE = dict(module="FnMachine", constants=dict(MaxDepth=1, AllLeaves=True, Deep=False, Sim=False, Direct=False), invariants=("TypeOK", "Emit", "EmitData"),
            label="every function with every shape of arguments")


def nested(q):
    return dict(module="FnMachine", constants=dict(MaxDepth=2, AllLeaves=not q, Deep=not q, Sim=False, Direct=False), invariants=("TypeOK", "Emit"),
                label="every call in every position of every other")


def deep(n):
    return dict(module="FnMachine", constants=dict(MaxDepth=6, AllLeaves=True, Deep=True, Sim=True, Direct=False), invariants=("EmitBig",),
                simulate=n, depth=9, label="random deep calls", timeout=3000)


def run(h):
    q = h.quick
    replay(h, load(h, [ONCE, nested(q), deep(400 if q else 8000)]))
    return h.finish(rule="every distinct call of the function machine; every function with zero to six arguments")
