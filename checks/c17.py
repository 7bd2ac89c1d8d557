"""C17: what cannot be expressed is refused, wherever it stands.

SplNest puts one piece nothing can be made of (a command, a source, a function, an end) into queries of other pieces;
the query has to be refused with an ordinary error, in both modes."""
import impl


def one(job):
    q, modes = job
    return [impl.try_transpile(q, runtime=rt) for rt in modes]


def run(h):
    q = h.quick

    def N(srcs, cmds, bs, bc, be, ml, md, mt, label, **kw):
        return dict(module="SplNest", constants=dict(Srcs=srcs, Cmds=cmds, BadSrcs=bs, BadCmds=bc, BadEnds=be, MaxLen=ml, MaxDepth=md, MaxTotal=mt, Sim="simulate" in kw),
                    invariants=("Nested", "Emit"), properties=() if "simulate" in kw else ("StaysRefused",), label=label, **kw)
    web, evl, two = '{"index=web"}', '{"eval x=1"}', '{"eval x=1", "stats count BY a"}'
    both = [
        N('{"index=web", "| makeresults count=3"}', two, "{}", "Refused", "{}", 3, 0, 3, "every refused command between others"),
        N(web, evl, "{}", "Refused", "{}", 3, 1, 4 if q else 5, "every refused command in and around subsearches"),
        N(web, two, "RefusedSources", "{}", "{}", 3, 1, 4, "every refused source in and around subsearches"),
        N('{"index=web"}', "Commands", "{}", "{}", "LeftOver", 2, 0, 2, "text left over after every command"),
        N('Sources', '{"eval x=a+1", "search a=1", "head 5"}', "{}", "{}", "LeftOver", 2, 1, 3, "text left over in and after subsearches"),
        N("Sources", "Commands", "RefusedSources", "Refused", "LeftOver", 5, 3, 14, "random nests", simulate=2500 if q else 30000, depth=40),
        N("Sources", "Commands", "{}", "Refused", "{}", 9, 0, 9, "long pipelines", simulate=600 if q else 10000, depth=12)]
    alone = [
        N(web, two, "RefusedAlone", "RefusedCalls", "{}", 2 if q else 3, 0, 2 if q else 3, "every refused function in every place"),
        N(web, evl, "RefusedAlone", "RefusedCalls", "{}", 2, 1, 3, "refused functions in subsearches"),
        N("Sources", "Commands", "RefusedAlone", "RefusedCalls", "{}", 5, 3, 14, "refused functions in random nests", simulate=900 if q else 12000, depth=40)]
    res = h.tlc_many(both + alone)
    jobs = {}
    for k, recs in enumerate(res):
        for r in recs:
            # a subsearch is rendered without the runtime's pieces in any mode, the rest may go to the runtime
            jobs[r["q"]] = (r["bad"], (False, True) if k < len(both) else (False,))
    keys = list(jobs)
    fine = 0
    for query, (state, out) in zip(keys, h.pool(one, [(k, jobs[k][1]) for k in keys])):
        bad, modes = jobs[query]
        h.traces += 1
        if state != "ok":
            h.violation({"q": query}, f"{query}\n{state}: {out}")
            continue
        for rt, (st, txt) in zip(modes, out):
            h.evals += 1
            if st == "panic":
                h.violation({"q": query, "rt": rt}, f"{query}\n{'with' if rt else 'without'} the runtime: panics: {txt}")
            elif not bad:
                fine += st == "ok"
                h.cov("without a refused piece: " + ("transpiles" if st == "ok" else "refused"))
            elif st == "ok":
                h.violation({"q": query, "rt": rt, "piece": bad}, f"{query}\n{'with' if rt else 'without'} the runtime: not refused, though nothing can be made of `{bad}`:\n{txt}")
            else:
                h.cov("refused " + ("with" if rt else "without") + " the runtime")
    for k in keys[::max(1, len(keys) // 8)]:
        h.sample({"query": k, "refused because of": jobs[k][0]})
    return h.finish(rule="every refused command, source, function and leftover at every position of pipelines and of subsearches, and at random positions of random nests of the whole vocabulary")
