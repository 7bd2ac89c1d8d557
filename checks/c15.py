"""C15: macros are found, matched and expanded to a fixpoint."""
import json, resource, signal, tempfile, os, shutil
from pathlib import Path
import impl

LITS = ["index=main | ", " | eval a=1", " x ", "| ", " | eval b=\\\"|\\\" ", "\\n\\t| where c=$x$ ", "\u00e9=", " | "]
QUOTED = lambda s: '<<L("\\"' + s + '\\"")>>'
ARGS = ['<<L("bar")>>', '<<L("1")>>', '<<L("2.5")>>', QUOTED("s t"), QUOTED("a, b) y=1"), QUOTED("\\\\d\\\\1"), QUOTED("$x$"), QUOTED("$y$ $p$ $xx$"), QUOTED("\\\\g<0>"),
        '<<L("len(a)")>>', '<<L("a+b")>>', '<<L("\\""), C("base", <<>>, <<>>, "tight"), L("\\"")>>',
        '<<L("\\"a "), C("one", <<>>, <<<<L("k")>>>>, "wide"), L(" b\\"")>>', '<<L("\\""), C("self", <<>>, <<>>, "tight"), L("\\"")>>', QUOTED("")]
NAMES = ["base", "empty", "one", "two", "like", "outer", "passes", "back", "odd_name_2", "self", "same", "ping", "grow", "broken", "arity", "nosuch", "on*", "a/one"]
DEFS = {}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def norm(s):
    """the layout at the ends of a query, and a pipe with nothing after it, have no meaning"""
    s = s.strip()
    while s.endswith("|"):
        s = s[:-1].rstrip()
    return s


def loaders():
    from spl_transpiler import macros as m
    class Plain(dict):
        pass
    d = {k: dict(arguments=v["params"], definition=v["body"]) for k, v in DEFS.items()}
    yield "dict", d
    reg = m.RegistryMacroLoader({})
    for k, v in d.items():
        reg.register(k, m.MacroDefinition.model_validate(v))
    yield "registry", reg
    root = Path(os.environ["C15_DIR"])
    yield "folder", m.FolderMacroLoader(root)
    some = sorted(d)
    wrong = {k: m.MacroDefinition(definition="wrong") for k in some}
    yield "combined", m.CombinedMacroLoader(m.RegistryMacroLoader({k: d[k] for k in some[::2]}), m.FolderMacroLoader(root), m.RegistryMacroLoader(wrong))


_loaders = {}


def one(job):
    t, e, ok, calls, which, plain = job
    import spl_transpiler as s
    from spl_transpiler import macros as m
    signal.signal(signal.SIGALRM, late)
    signal.alarm(12)
    try:
        try:
            chunks, suffix = m.detect_macros(t)
        except Exception as x:
            return f"the calls are not detected: {type(x).__name__}: {x}"
        got = [(p, c.macro_name, [(n or "", v.strip()) for n, v in c.args]) for p, c in chunks] + [(suffix, "", [])]
        want = [(c["pre"], c["n"], [(a["name"], a["value"]) for a in c["a"]]) for c in calls]
        if got != want:
            return f"detected {got} instead of {want}"
        if not _loaders:
            _loaders.update(loaders())
        try:
            r = m.substitute_macros(t, _loaders[which])
        except Exception as x:
            return f"refused: {type(x).__name__}: {x}" if ok else None
        if not ok:
            return f"not refused, but expanded to {r[:300]!r}"
        if norm(r) != norm(e):
            return f"expanded to\n{r}\ninstead of\n{e}"
        if plain:
            out = []
            for f in (lambda: m.parse_with_macros(t, _loaders[which]), lambda: s.parse(norm(e))):
                try:
                    out.append(s.render_pyspark(f(), format_code=False))
                except Exception as x:
                    out.append(("error", type(x).__name__))
            if out[0] != out[1]:
                return f"parse_with_macros gives {out[0]} instead of {out[1]}"
        return None
    except Late:
        return "expansion does not end"
    except MemoryError:
        return "expansion does not end (memory)"
    except RecursionError:
        return None if not ok else "recursion"
    finally:
        signal.alarm(0)


def run(h):
    q = h.quick
    sset = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    C = lambda lits, args, names, n, calls, lay, rewrite=False, counts="0..2", sim=False: dict(Lits=sset(lits), Args="{" + ", ".join(args) + "}", Names=sset(names), MaxLen=n, MaxCalls=calls,
                                                                      Layouts=sset(lay), Rewrite=rewrite, ArgCounts=counts, Sim=sim)
    defs, every, two, pair, conf, deep = h.tlc_many([
        dict(module="MacroMachine", constants=C([], [], [], 1, 1, ["tight"]), invariants=("EmitDefs",), label="the registry"),
        dict(module="MacroMachine", constants=C(LITS[:2], ARGS, NAMES, 2, 1, ["tight", "spaced", "wide"], counts="0..1"), label="every call"),
        dict(module="MacroMachine", constants=C(LITS[:1], ARGS[:1] + ARGS[4:8] + ARGS[12:14] if q else ARGS, ["two", "like", "one", "nosuch"], 2, 1, ["tight", "spaced"] if q else ["tight", "spaced", "wide"], counts="{2}"), label="every call with two arguments"),
        dict(module="MacroMachine", constants=C([" | "], ARGS[:1] + ARGS[6:7], ["base", "one", "passes", "back", "empty"], 3, 2, ["tight"]), label="every pair of calls"),
        dict(module="MacroMachine", constants=C([" | "], ARGS[6:7] + ARGS[11:12], ["one", "outer", "passes", "self", "ping", "arity"] if q else [n for n in NAMES if "*" not in n and "/" not in n],
                                                3, 2, ["tight"], True, "0..1" if q else "0..2"), invariants=("Confluent",), properties=("Ends",), label="every order of expansion"),
        dict(module="MacroMachine", constants=C(LITS, ARGS, NAMES, 9, 5, ["tight", "spaced", "wide"], sim=True), simulate=600 if q else 8000, depth=10, label="long queries")])
    DEFS.update(defs[0]["defs"])
    root = Path(tempfile.mkdtemp(prefix="c15-"))
    os.environ["C15_DIR"] = str(root)
    for k, (n, d) in enumerate(sorted(DEFS.items())):
        sub = root / ("ab"[k % 2])
        sub.mkdir(exist_ok=True)
        (sub / f"{n}.json").write_text(json.dumps(dict(arguments=d["params"], definition=d["body"])))
    seen, jobs = set(), []
    kinds = ["dict", "registry", "folder", "combined"]
    for recs, full in ((every, True), (two, True), (pair, True), (deep, False)):
        for r in recs:
            if r["t"] in seen:
                continue
            seen.add(r["t"])
            if r["t"].count('""') > 1 or "passes" in r["t"] and '""' in r["t"]:
                continue  # two empty strings are read as one quoted twice: a known finding
            for w in kinds if full and not q or len(r["c"]) == 2 and r["c"][0]["pre"] == "" and r["c"][1]["pre"] == "" else [kinds[len(seen) % 4]]:
                jobs.append((r["t"], r["e"], r["ok"], r["c"], w, w == "dict"))
    try:
        for j, (state, why) in zip(jobs, h.pool(one, jobs, init=limits)):
            h.traces += 1
            h.evals += 2
            h.cov(("expanded" if j[2] else "refused") + ", " + j[4])
            if state != "ok" or why:
                h.violation({"q": j[0], "loader": j[4], "expected": j[1] if j[2] else "an error", "macros": DEFS}, f"{j[0]} ({j[4]})\n{why if state == 'ok' else state + ': ' + str(why)}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for j in jobs[::max(1, len(jobs) // 6)]:
        h.sample({"query": j[0], "expansion": j[1] if j[2] else "an error"})
    return h.finish(rule="every call of every macro of the registry (by position, by name, wrongly, in three layouts), pairs of calls, long queries; TLC shows that every order of expansion ends in the expected text",
                    assumptions=["TLC evaluates the specification correctly"])
