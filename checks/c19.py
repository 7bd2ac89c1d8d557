"""C19: options take the value written, or the default; arguments are unaffected."""
import impl


def command(text, rest):
    import spl_transpiler as s
    p = s.parse(text + rest)
    return p.commands[0 if text.startswith(("makeresults", "tstats", "datamodel", "inputlookup")) else 1][0]


def full(q):
    return q if q.startswith(("makeresults", "tstats", "datamodel", "inputlookup")) else "index=main | " + q


def public(c):
    return {a: getattr(c, a) for a in dir(c) if not a.startswith("_") and not callable(getattr(c, a))}


def plain(v):
    """value of a parsed command -> something comparable with the specification's"""
    if type(v).__name__ == "BoolValue":      # says its value only by name
        v = {"BoolValue(true)": True, "BoolValue(false)": False}[repr(v)]
    if type(v).__name__ == "TimeSpan":
        return ("span", v.value, str(v.scale))
    return (type(v).__name__, v)


def spec(v):
    if "n" in v:
        return ("NoneType", None)
    if "b" in v:
        return ("bool", v["b"])
    if "i" in v:
        return ("int", v["i"])
    if "s" in v:
        return ("str", v["s"])
    return ("span",) + tuple(v["span"])


def one(r):
    import spl_transpiler as s
    out = []
    for rest in ("", " | eval zz=1"):
        q = full(r["q"]) + rest
        try:
            p = s.parse(q)
        except Exception as e:
            if type(e).__name__ == "PanicException":
                return f"{q}\npanic: {e}"
            if not r["refused"]:
                return f"{q}\nrefused: {e}"
            continue
        k = 0 if full(r["q"]) == r["q"] else 1
        c = p.commands[k][0]
        if type(c).__name__ == "SearchCommand" and r["refused"]:
            continue                                              # read as a search for text: none of this command's business
        if r["refused"]:
            return f"{q}\naccepted, with {c!r}"
        got = public(c)
        attrs = {a["attr"]: a["v"] for a in r["attrs"]}
        for a, v in attrs.items():
            if a not in got:
                return f"{q}\nno attribute {a}: {c!r}"
            if plain(got[a]) != spec(v):
                return f"{q}\n{a} is {plain(got[a])}, not {spec(v)}"
        base = public(s.parse(full(r["base"]) + rest).commands[k][0])
        for a in base:
            if a not in attrs and got[a] != base[a]:
                return f"{q}\n{a} is {got[a]!r}, without options {base[a]!r}"
    return None


def run(h):
    q = h.quick
    M = lambda n, w, sim, few, label, **kw: dict(module="OptionMachine", constants=dict(Cmds=f"1..Len(AllCmds)", MaxGiven=n, MaxWrong=w, Sim=sim, Few=few), label=label,
                                            invariants=("OrderFree", "Independent", "Emit"), **kw)
    one_, two, rnd = h.tlc_many([
        M(1, 1, False, False, "every option with every value, right or wrong"),
        M(2, 0 if q else 1, False, q, "every pair of options in either order"),
        M(11, 1, True, False, "random options, up to all of a command's", simulate=1500 if q else 12000, depth=14)])
    recs = {r["q"]: r for r in one_ + two + rnd}
    for r, (state, why) in zip(recs.values(), h.pool(one, recs.values())):
        h.traces += 1
        h.evals += len(r["attrs"]) + 1
        h.cov(r["cmd"] + (" refused" if r["refused"] else ""))
        if state != "ok" or why:
            h.violation({"q": r["q"]}, why if state == "ok" else f"{r['q']}\n{state}: {why}")
    for r in list(recs.values())[::max(1, len(recs) // 6)]:
        h.sample({"q": r["q"], "refused": r["refused"]})
    return h.finish(rule="attributes of the parsed command against the specification's function of the options given; other attributes against the command without options")
