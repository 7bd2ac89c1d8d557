"""C05: expressions compute the value SPL precedence and associativity give."""
import impl

DATA = None
TAB = None


def one(case):
    """-> list of (what, text, detail) disagreements"""
    global TAB
    if TAB is None:
        TAB = impl.table(DATA)
    exp = [impl.val(v) for v in case["v"]]
    bad = []
    n = 0

    def got(text):
        df, _ = impl.run_code(impl.transpile(text), {"main": TAB})
        return df
    texts = [("eval", case["t"])] + ([("eval-parens", case["tf"])] if case["tf"] != case["t"] else [])
    for what, e in texts:
        text = f"search index=main | eval r={e}"
        n += 1
        try:
            df = got(text)
            i = df.columns.index("r")
            for k, (x, row) in enumerate(zip(exp, df.collect())):
                if not impl.eq(x, row[i]):
                    bad.append((text, f"row {k} {list(row)[:-1]}: {row[i]!r} instead of {x!r}"))
                    break
        except Exception as ex:
            bad.append((text, f"{type(ex).__name__}: {ex}"))
    if case["ty"] == "b" and impl.ANY not in exp:
        for e in {case["w"], case["tf"]}:
            text = f"search index=main | where {e}"
            n += 1
            try:
                ids = [r[0] for r in got(text).collect()]
                want = [k for k, x in enumerate(exp) if x is True]
                if ids != want:
                    bad.append((text, f"keeps rows {ids} instead of {want}"))
            except Exception as ex:
                bad.append((text, f"{type(ex).__name__}: {ex}"))
    return n, bad


def run(h):
    global DATA
    q = h.quick
    recs = sum(h.tlc_many([
        dict(module="ExprMachine", constants=dict(MaxLeaves=4 if q else 5, MaxWraps=1, Rows=27, Wild=False, Lits=False),
             invariants=("TypeOK", "DeMorgan", "Emit", "EmitData"), label="all operator trees"),
        dict(module="ExprMachine", constants=dict(MaxLeaves=3 if q else 4, MaxWraps=1, Rows=27, Wild=False, Lits=True),
             invariants=("TypeOK", "DeMorgan", "Emit"), label="all trees over fields and literals"),
        dict(module="ExprMachine", constants=dict(MaxLeaves=1, MaxWraps=2, Rows=27, Wild=True, Lits=True),
             invariants=("TypeOK", "Emit"), label="every leaf, wrapped"),
        dict(module="ExprMachine", constants=dict(MaxLeaves=7, MaxWraps=3, Rows=27, Wild=True, Lits=True), invariants=("EmitBig",),
             simulate=300 if q else 6000, depth=16, label="random deep trees", timeout=3000)]), [])
    DATA = [r for r in recs if "cols" in r][0]
    seen, cases = set(), []
    for r in recs:
        if "t" in r and r["t"] not in seen:
            seen.add(r["t"])
            cases.append(r)
    for case, (st, res) in zip(cases, h.pool(one, cases)):
        h.traces += 1
        if st != "ok":
            h.violation(case, f"{st}: {res}")
            continue
        n, bad = res
        h.evals += n
        h.cov(case["ty"])
        for text, why in bad:
            h.violation({"text": text}, f"{text}\n{why}")
    for c in cases[len(cases) // 2::max(1, len(cases) // 5)]:
        h.sample({"eval": c["t"], "type": c["ty"]})
    return h.finish(rule="every distinct expression of the stack machine, in eval and where, minimal and full parentheses")
