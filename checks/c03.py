"""C03: generated programs are valid Python and define every name before use.

SplNest writes queries with pipelines in pipelines; every program made of them is recorded as what its statements
assign and read, and the machine Codegen runs through the recordings."""
import ast, json
import impl

MODES = [(rt, fmt) for rt in (False, True) for fmt in (False, True)]


class Reads(ast.NodeVisitor):
    """the names an expression reads from outside"""
    def __init__(self):
        self.names, self.bound = [], []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and not any(n.id in b for b in self.bound) and n.id not in self.names:
            self.names.append(n.id)

    def visit_Lambda(self, n):
        self.bound.append({a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs})
        self.visit(n.body)
        self.bound.pop()


def record(code):
    try:
        tree = ast.parse(code)
    except SyntaxError as e:
        return [dict(k="no Python", to="", reads=[])], str(e)
    body = []
    for st in tree.body:
        r = Reads()
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            r.visit(st.value)
            body.append(dict(k="assign", to=st.targets[0].id, reads=r.names))
        elif isinstance(st, ast.Expr):
            r.visit(st.value)
            body.append(dict(k="result", to="", reads=r.names))
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            continue
        else:
            body.append(dict(k=type(st).__name__, to="", reads=[]))
    return body, None


def one(job):
    q, formatted = job
    out = []
    for rt, fmt in MODES:
        if fmt and not formatted:
            continue
        st, code = impl.try_transpile(q, runtime=rt, fmt=fmt)
        out.append((st, code, *record(code)) if st == "ok" else (st, code[:300], None, None))
    return out


def run(h):
    q = h.quick
    N = lambda srcs, cmds, ml, md, mt, label, **kw: dict(
        module="SplNest", constants=dict(Srcs=srcs, Cmds=cmds, BadSrcs="{}", BadCmds="{}", BadEnds="{}", MaxLen=ml, MaxDepth=md, MaxTotal=mt, Sim="simulate" in kw),
        invariants=("Nested", "Emit"), label=label, **kw)
    few = '{"eval x=a+1", "stats count BY a", "fillnull value=0", "search a=1", "head 5", "where cidrmatch(\\"10.0.0.0/8\\", src)"}'
    two = '{"index=web", "| makeresults count=3"}'
    recs = sum(h.tlc_many([
        N("Sources", "Commands", 2, 0, 2, "every source and command"),
        N("Sources", '{"eval x=1"}', 2, 1, 4, "every source at every depth"),
        N(two, few, 3, 1, 4, "one level of subsearches"),
        N('{"index=web"}', '{"eval x=1", "sort a"}', 3, 2, 6 if q else 7, "nested subsearches"),
        N("Sources", "Commands", 5, 3, 16, "random nests", simulate=1500 if q else 20000, depth=40),
        N("Sources", "Commands", 9, 0, 9, "long pipelines", simulate=300 if q else 4000, depth=12)]), [])
    qs = list(dict.fromkeys(r["q"] for r in recs))
    programs, where = {}, {}
    jobs = [(x, not q or n % 5 == 0) for n, x in enumerate(qs)]
    for (query, formatted), (state, res) in zip(jobs, h.pool(one, jobs)):
        h.traces += 1
        if state != "ok":
            h.violation({"q": query}, f"{query}\n{state}: {res}")
            continue
        for (rt, fmt), (st, code, body, why) in zip([m for m in MODES if formatted or not m[1]], res):
            h.evals += 1
            mode = f"{'with' if rt else 'without'} the runtime, {'' if fmt else 'not '}formatted"
            h.cov(mode)
            if st != "ok":
                h.cov("refused")
                if not h.cover.get("refused", 0) > 5:
                    print("refused:", query, code.split("\n")[0])
                continue
            key = json.dumps(body)
            if key not in programs:
                programs[key] = len(programs) + 1
                where[len(programs)] = (query, mode, code, why)
    f = h.work / "programs.json"
    f.write_text(json.dumps([dict(id=n, body=json.loads(k)) for k, n in programs.items()]))
    bad = h.tlc("Codegen", invariants=("TypeOK", "Emit", "EmptyIsWrong"), label="recorded programs", env={"PROGRAMS": str(f)})
    for r in bad:
        query, mode, code, why = where[r["id"]]
        h.violation({"q": query, "mode": mode}, f"{query}\n{mode}: statement {r['at']} {r['why']}{' (' + why + ')' if why else ''}\n{code}")
    for k in list(where)[::max(1, len(where) // 6)]:
        h.sample({"query": where[k][0], "mode": where[k][1], "program": where[k][2][:300]})
    return h.finish(rule="every source with every command, pipelines nested in joins and multisearches to depth 3, random nests of all commands, each in all four modes; "
                         "the distinct recordings of statements run through the machine", extra={"distinct_programs": len(programs)})
