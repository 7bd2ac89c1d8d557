"""C06: search keeps exactly the rows its conditions select."""
import impl

DATA = TAB = None


def one(case):
    global TAB
    if TAB is None:
        TAB = impl.table(DATA)
    bad, n = [], 0
    rows = [list(r) for r in TAB.collect()]
    want = [rows[i] for i in case["ids"]]
    t, tf = case["t"], case["tf"]
    qs = [f"search index=main {t}", f"index=main {tf}", f"search index=main | search {t}", f"index=main | eval z=1 | fields - z | search {tf}"]
    if not case["k"] == "|":
        qs.append(f"search {t} index=main")
    for q in dict.fromkeys(qs):
        n += 1
        try:
            df, log = impl.run_code(impl.transpile(q), {"main": TAB})
            got = [list(r) for r in df.collect()]
            if got != want or list(df.columns) != DATA["cols"]:
                bad.append((q, f"keeps {[r[0] for r in got]} instead of {case['ids']}"))
            elif log != ["main"]:
                bad.append((q, f"reads {log}"))
        except Exception as ex:
            bad.append((q, f"{type(ex).__name__}: {ex}"))
    return n, bad


def run(h):
    global DATA
    q = h.quick
    J = lambda leaves, nots, wild, label, **kw: dict(module="SearchMachine", constants=dict(MaxLeaves=leaves, MaxNots=nots, Wild=wild), label=label, **kw)
    recs = sum(h.tlc_many([
        J(4 if q else 5, 1, False, "all trees of AND, OR, NOT and blanks", invariants=("TypeOK", "Monotone", "Emit", "EmitData")),
        J(3, 3, False, "all trees with up to three NOTs", invariants=("TypeOK", "Monotone", "Emit")),
        J(1, 2, True, "every test", invariants=("TypeOK", "Emit")),
        J(6, 3, True, "random conditions", invariants=("EmitBig",), simulate=300 if q else 8000, depth=14, timeout=3000)]), [])
    DATA = [r for r in recs if "cols" in r][0]
    seen, cases = set(), []
    for r in recs:
        if "t" in r and r["t"] not in seen:
            seen.add(r["t"])
            cases.append(r)
    for case, (st, res) in zip(cases, h.pool(one, cases)):
        h.traces += 1
        if st != "ok":
            h.violation(case, f"{case['t']}\n{st}: {res}")
            continue
        n, bad = res
        h.evals += n
        h.cov({"&": "and", "|": "or", "n": "not", "c": "comparison", "w": "wildcard", "i": "in", "r": "cidr", "t": "term"}[case["k"]])
        for text, why in bad:
            h.violation({"text": text}, f"{text}\n{why}")
    for c in cases[len(cases) // 2::max(1, len(cases) // 5)]:
        h.sample({"search": c["t"], "kept": c["ids"]})
    return h.finish(rule="every distinct condition of the stack machine, as a leading and as a later search, with minimal and full parentheses")
