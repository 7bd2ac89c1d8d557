"""C18: spellings that mean the same query transpile to the same program.

SpellMachine writes a query in its first spelling and in others; the programs of all spellings have to be one."""
import ast, collections
import impl

RT = (False, True)


def shape(code):
    try:
        return ast.dump(ast.parse(code))
    except SyntaxError:
        return code


def one(q):
    return [(st, shape(t) if st == "ok" else t.split("\n")[0], t) for st, t in (impl.try_transpile(q, runtime=rt) for rt in RT)]


def run(h):
    q = h.quick

    def M(bases, devs, label, **kw):
        return dict(module="SpellBases", constants=dict(Bases=bases, MaxDevs=devs, Sim="simulate" in kw), invariants=("Harmless", "Emit"), label=label, **kw)
    jobs = [M("AllBases", 1, "one place spelled differently"),
            M("AllBases", 99, "every place in any spelling", simulate=3000 if q else 40000, depth=400)]
    if not q:
        jobs.append(M("AllBases", 2, "two places spelled differently"))
    recs = sum(h.tlc_many(jobs), [])
    first = {}
    by = {}
    for r in recs:
        by.setdefault(r["q"], r)
        if not r["devs"]:
            first[r["id"]] = r["q"]
    texts = list(by)
    res = dict(zip(texts, h.pool(one, texts)))
    for i, t in first.items():
        state, out = res[t]
        if state != "ok" or any(st != "ok" for st, _, _ in out):
            h.violation({"q": t}, f"{t}\ndoes not transpile: {out}")
    ndev = collections.Counter()
    for t, r in by.items():
        h.traces += 1
        ndev[min(9, len(r["devs"]))] += 1
        (s0, o0), (s1, o1) = res[first[r["id"]]], res[t]
        for k in set(r["devs"]):
            h.cov(k)
        if s1 != "ok":
            h.violation({"q": t}, f"{t}\n{s1}: {o1}")
            continue
        if s0 != "ok":
            continue
        for rt, a, b in zip(RT, o0, o1):
            h.evals += 1
            if a[:2] != b[:2]:
                h.violation({"q": t, "same": first[r["id"]], "rt": rt, "devs": r["devs"]},
                            f"{t!r}\nis not what {first[r['id']]!r} is {'with' if rt else 'without'} the runtime, but differs from it in {', '.join(sorted(set(r['devs'])))} only:\n{b[2]}\ninstead of\n{a[2]}")
                break
    for t in texts[::max(1, len(texts) // 8)]:
        h.sample({"query": t, "same as": first[by[t]["id"]], "differs in": by[t]["devs"]})
    return h.finish(rule="every base query with each of its places spelled in each way alone (thorough: every two), and random spellings of all places at once",
                    extra={"spellings_by_places_changed": dict(ndev)})
