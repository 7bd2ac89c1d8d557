"""C01: every text is answered with a result or an ordinary error, and the process stays ready for the next one.

TextMachine writes texts; each is parsed, searched for macros and rendered in all modes in a process that goes on."""
import collections
import impl

PROBE = 'index=main a="x\\"y" | eval b=if(a>1, round(c, 2), "z"), d=mvindex(split(s, ","), 0) | stats sum(b) AS total BY d | sort 5 -total | head 3'
MODES = [(False, False), (True, False), (False, True), (True, True)]
_want = {}


def probe(fmt):
    return [impl.try_transpile(PROBE, runtime=rt, fmt=f) for rt, f in (MODES if fmt else MODES[:2])]


def init():
    for fmt in (False, True):
        _want[fmt] = probe(fmt)


def answer(f):
    try:
        f()
        return "result"
    except Exception:
        return "error"
    except BaseException as e:  # noqa: a panic
        return f"{type(e).__name__}: {e}"


class Loader(dict):
    """has every macro"""
    def __missing__(self, name):
        n = {"b": 1, "c": 2, "m": 1, "n": 1, "say": 1}.get(name, 0)
        return {"arguments": ["x", "y"][:n], "definition": ["a=1", "a=$x$ b=\"$x$\"", "a=$x$ | eval y=$y$"][n]}


def one(job):
    import spl_transpiler as s
    parse, render, detect, expand, convert = s.parse, s.render_pyspark, s.macros.detect_macros, s.macros.parse_with_macros, s.convert_spl_to_pyspark
    text, fmt, k = job
    res = {}
    p = []
    res["parse"] = answer(lambda: p.append(parse(text)))
    res["detect_macros"] = answer(lambda: detect(text))
    if "`" in text:
        res["parse_with_macros"] = answer(lambda: expand(text, Loader()))
    if k % 10 == 0:
        res["convert_spl_to_pyspark"] = answer(lambda: convert(text, format_code=False))
    if p:
        for rt, f in MODES:
            if fmt or not f:
                res[f"render_pyspark(allow_runtime={rt}, format_code={f})"] = answer(lambda: render(p[0], allow_runtime=rt, format_code=f))
    bad = [f"{c} answers with {r}" for c, r in res.items() if r not in ("result", "error")]
    if not bad and k % 4 == 0 and probe(False) != _want[False] or k % 200 == 0 and probe(True) != _want[True]:
        bad.append(f"afterwards, the process answers another query with {probe(True)} instead of {_want[True]}")
    return bad, res


def run(h):
    q = h.quick

    def M(texts, junk, wraps, times, mut, label, **kw):
        return dict(module="TextMachine", constants=dict(Texts=texts, Junk=junk, Wraps=wraps, Times=times, MaxMut=mut, Sim="simulate" in kw),
                    invariants=("Ready", "Emit") if "simulate" in kw else ("Ready", "LexIsAll", "Emit"), label=label, **kw)
    jobs = [M("FewTexts", "DullJunk", "FewWraps", "{2, 30}", 1, "one change anywhere") if q else M("AllTexts", "AllJunk", "AllWraps", "{2, 30}", 1, "one change anywhere", timeout=1500),
            M("AllTexts", "AllJunk", "AllWraps", "{2, 3, 15, 40}", 1, "one change", simulate=6000 if q else 60000, depth=2),
            M("AllTexts", "AllJunk", "AllWraps", "{2, 3, 15, 40}", 7, "several changes", simulate=1500 if q else 20000, depth=8)]
    recs = sum(h.tlc_many(jobs), [])
    by = {}
    for r in recs:
        by.setdefault(r["t"], r)
    texts = list(by)
    todo = [(t, k % (12 if q else 4) == 0, k) for k, t in enumerate(texts)]
    out = collections.Counter()
    for (t, fmt, k), (state, res) in zip(todo, h.pool(one, todo, init=init)):
        h.traces += 1
        r = by[t]
        for x in set(r["how"]) or ["unchanged"]:
            h.cov(x)
        if state != "ok":
            h.violation({"text": t}, f"{t!r}\n({', '.join(r['how'])})\nthe process {state}: {res}")
            continue
        bad, answers = res
        h.evals += len(answers)
        for c, a in answers.items():
            out[f"{c.split('(')[0]}: {a if a in r['may'] else 'other'}"] += 1
        if bad:
            h.violation({"text": t}, f"{t!r}\n({', '.join(r['how'])})\n" + "\n".join(bad))
    for t in texts[::max(1, len(texts) // 8)]:
        h.sample({"text": t[:300], "how": by[t]["how"]})
    return h.finish(rule="every single change of every piece of the texts (quick: some texts and junk), random changes of all, and up to seven changes one after another",
                    extra={"answers": dict(out)})
