"""C08: a query reads exactly the tables it names."""
import impl

TABLES = None


def case_queries(c):
    t, tf = c["t"], c["tf"]
    if c["ok"]:
        for q in (f"search {t}", f"{t}", f"search {tf}", f"| search {t}"):
            yield q, c["lead"], c["read"]
        yield f"search index=base | join id [search {t}]", c["joined"], ["base"] + c["read"]
        yield f"search index=base | join id [| search {tf}]", c["joined"], ["base"] + c["read"]
        yield f"multisearch [search index=base] [search {t}]", c["multi"], ["base"] + c["read"]
    else:
        for q in (f"search {t}", f"{tf}", f"search index=base | join id [search {t}]", f"multisearch [search index=base] [search {t}]",
                  f"search index=base | join id [search index=main | join id [search {t}]]"):
            yield q, None, None
    yield f"search index=main | search {t}", c["later"], ["main"]
    yield f"search index=main | eval z=1 | fields - z | search {tf}", c["later"], ["main"]


def one(c):
    bad, n = [], 0
    for q, exp, read in case_queries(c):
        n += 1
        st, code = impl.try_transpile(q)
        if exp is None:
            if st != "err":
                bad.append((q, f"accepted, though it names an index where no source can be made of it:\n{code}"))
            continue
        if st != "ok":
            bad.append((q, f"not transpiled: {code}"))
            continue
        try:
            df, log = impl.run_code(code, {k: impl.table(v) for k, v in TABLES.items()})
            why = impl.diff(exp, df, exp["ord"])
            if sorted(log) != sorted(read):
                why = f"reads {log} instead of {read}"
        except Exception as e:
            why = f"{type(e).__name__}: {e}"
        if why:
            bad.append((q, why + "\n" + code))
    return n, bad


def run(h):
    global TABLES
    q = h.quick
    J = lambda leaves, nots, small, label, **kw: dict(module="SourceMachine", constants=dict(MaxLeaves=leaves, MaxNots=nots, Small3=small), label=label,
                                                      invariants=("Nothing", "Commutes", "Emit", "EmitData"), **kw)
    recs = sum(h.tlc_many([J(2, 1, False, "all pairs of tests"), J(4 if not q else 3, 1 if q else 2, True, "all trees"),
                           J(6, 2, False, "random", simulate=100 if q else 3000, depth=14, timeout=2000)]), [])
    seen, cases = set(), []
    for r in recs:
        if "tables" in r:
            TABLES = r["tables"]
        elif r["t"] not in seen:
            seen.add(r["t"])
            cases.append(r)
    for c, (st, res) in zip(cases, h.pool(one, cases)):
        h.traces += 1
        h.cov("refused" if not c["ok"] else f"{len(c['read'])} tables")
        if st != "ok":
            h.violation(c, f"{c['t']}\n{st}: {res}")
            continue
        h.evals += res[0]
        for text, why in res[1]:
            h.violation({"q": text}, f"{text}\n{why}")
    # data models, generated rows and other sources inside pipelines and subsearches
    import pipes
    seen = pipes.replay(h, sum(h.tlc_many([
        pipes.job(["join", "multisearch", "head", "lookup"], ["main", "web", "two", "cond", "gen", "dm"], 2, depth=2, sim=200 if q else 4000,
                  label="sources in nested subsearches", timeout=2000),
        pipes.job(["head"], ["main", "web", "audit", "two", "cond", "gen", "dm"], 1, label="every source")]), []))
    for c in cases[::max(1, len(cases) // 4)]:
        h.sample({"search": c["t"], "reads": c["read"] if c["ok"] else "refused"})
    return h.finish(rule="every condition of the stack machine as leading search, later search and subsearch; every kind of source in random nestings")
