"""Replays the pipelines of SplPipeline: transpile the query, execute it, compare with the table of the specification."""
import impl

TABLES = None
RUNTIME = False


def one(case):
    q = case["q"]
    try:
        code = impl.transpile(q, runtime=RUNTIME)
    except Exception as e:
        return f"{q}\nnot transpiled: {type(e).__name__}: {e}"
    try:
        df, log = impl.run_code(code, {n: impl.table(t) for n, t in TABLES.items()})
        why = None if df is not None else "no result"
        if why is None:
            why = impl.diff(case, df, case["ord"])
        if why is None and sorted(log) != sorted(case["rd"]):
            why = f"reads {sorted(log)} instead of {sorted(case['rd'])}"
    except Exception as e:
        why = f"{type(e).__name__}: {e}"
    return None if why is None else f"{q}\n{why}\n{code}"


def job(fams, srcs=("main",), maxlen=2, depth=0, rich=False, sim=0, label=None, emit=None, props=True, timeout=800):
    st = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    inv = ["EmitTables", emit or "Emit"] + ([] if sim else ["TypeOK"])
    steps = maxlen * (depth + 1) + 3 + (8 if "multisearch" in fams else 0)
    return dict(module="SplPipeline",
                constants=dict(Fams=st(fams), Srcs=st(srcs), MaxLen=maxlen, MaxDepth=depth, Rich=rich, Sim=bool(sim)),
                invariants=inv, properties=() if sim or not props else
                ("FiltersKeepRows", "ColumnsKeepCount", "SortPermutes", "LookupKeepsLeft", "EvalKeepsOthers"),
                simulate=sim or None, depth=steps if sim else None, label=label, timeout=timeout)


def replay(h, recs, limit=None):
    global TABLES
    seen, cases = set(), []
    for r in recs:
        if "tables" in r:
            TABLES = r["tables"]
        elif r["q"] not in seen:
            seen.add(r["q"])
            cases.append(r)
    for case, (st, res) in zip(cases, h.pool(one, cases)):
        h.traces += 1
        h.evals += 1
        for f in case["fam"] or ["source only"]:
            h.cov(f)
        h.cov(f"length {case['n']}")
        if st != "ok":
            h.violation({"q": case["q"]}, f"{case['q']}\n{st}: {res}")
        elif res:
            h.violation({"q": case["q"], "expected": {k: case[k] for k in ("cols", "rows", "ord", "rd")}}, res)
    for c in cases[::max(1, len(cases) // 6)]:
        h.sample({"query": c["q"], "columns": c["cols"], "rows": len(c["rows"])})
    return cases


def run(h, jobs, rule):
    replay(h, sum(h.tlc_many(jobs), []))
    return h.finish(rule=rule)
