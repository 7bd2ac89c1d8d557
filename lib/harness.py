"""Common machinery of the checks: TLC runs, conformance runs, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, threading, time, traceback, multiprocessing as mp
from pathlib import Path
import build

ROOT = Path(__file__).resolve().parent.parent
SPEC, OUT = ROOT / "spec", ROOT / "out"
SPARKLITE = ROOT / "lib" / "sparklite"


class CheckError(Exception):
    """The check itself failed (exit 2)."""


def _decode(line):
    """One line printed by TLC for PrintT("@@" \\o json): a quoted, escaped TLA+ string."""
    body = line[1:-1]
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c == "\\" and i + 1 < len(body):
            n = body[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return json.loads("".join(out)[2:], strict=False)


class Harness:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = OUT / "work" / f"{pid}-{os.getpid()}"
        self.work.mkdir(parents=True, exist_ok=True)
        self.replays = OUT / "replay"
        self.replays.mkdir(parents=True, exist_ok=True)
        self.viol = []
        self.nviol = 0
        self.states = self.transitions = 0
        self.traces = 0          # spec behaviours replayed into the implementation
        self.evals = 0           # individual comparisons
        self.skipped = 0
        self.samples = []
        self.cover = {}
        self.notes = []
        self.models = []
        self._lock, self._n = threading.Lock(), 0
        self.known = json.loads((ROOT / "known-findings.json").read_text())["findings"] if (
            ROOT / "known-findings.json").exists() else []
        self._pkg = None
        self._err = None
        self._th = threading.Thread(target=self._build, daemon=True)
        self._th.start()

    quick = property(lambda s: s.tier != "thorough")

    # ---- implementation
    def _build(self):
        try:
            self._pkg = build.ensure_built()
        except BaseException as e:  # noqa
            self._err = e

    def built(self):
        self._th.join()
        if self._err is not None:
            raise CheckError(f"build failed: {self._err}")
        for p in (str(self._pkg), str(SPARKLITE)):
            if p not in sys.path:
                sys.path.insert(0, p)
        return self._pkg

    # ---- specification
    def tlc(self, module, constants=None, simulate=None, procs=6, **kw):
        """See _tlc; simulations are split over several TLC processes with derived seeds."""
        if not simulate:
            return self._tlc(module, constants, **kw)
        procs = min(procs, max(1, simulate // 10))
        out, errs, ths = [[] for _ in range(procs)], [], []

        def go(k):
            try:
                out[k] = self._tlc(module, constants, simulate=max(1, simulate // procs), seed=self.seed * 1000 + k, **kw)
            except BaseException as e:  # noqa
                errs.append(e)
        for k in range(procs):
            ths.append(threading.Thread(target=go, args=(k,)))
            ths[-1].start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        return [r for o in out for r in o]

    def tlc_many(self, jobs):
        """Run several TLC jobs (kwargs dicts) concurrently."""
        out, errs, ths = [[] for _ in jobs], [], []

        def go(k, j):
            try:
                out[k] = self.tlc(**j)
            except BaseException as e:  # noqa
                errs.append(e)
        for k, j in enumerate(jobs):
            ths.append(threading.Thread(target=go, args=(k, j)))
            ths[-1].start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        return out

    def _tlc(self, module, constants=None, invariants=("Emit",), properties=(), spec="Spec", init=None, nxt=None,
            simulate=None, depth=None, workers=8, timeout=600, defs="", seed=None, constraint=None, expect_fail=False,
            label=None, postcondition=None, extra_files=None, env=None):
        """Run TLC on `module`; returns the list of emitted records.

        constants: dict name -> TLA+ expression, instantiated through a generated wrapper module, so any
        expression is allowed.  simulate: number of behaviours (uses VERIF_SEED)."""
        with self._lock:
            self._n += 1
            d = self.work / f"tlc{self._n}"
        d.mkdir()
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, d)
        for n, t in (extra_files or {}).items():
            (d / n).write_text(t)
        name = "MC"
        consts = constants or {}
        wrap = [f"---- MODULE {name} ----", f"EXTENDS {module}"]
        cfg = []
        if spec and not init:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {nxt}"]
        for k, v in consts.items():
            if isinstance(v, bool):
                v = "TRUE" if v else "FALSE"
            wrap.append(f"MC_{k} == {v}")
            cfg.append(f"CONSTANT {k} <- MC_{k}")
        if defs:
            wrap.append(defs)
        wrap.append("====")
        (d / f"{name}.tla").write_text("\n".join(wrap) + "\n")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK FALSE")
        (d / f"{name}.cfg").write_text("\n".join(cfg) + "\n")
        cmd = ["tlc", "-metadir", str(d / "states"), "-config", f"{name}.cfg"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 10), "-seed", str(seed or self.seed), "-workers", "1"]
        else:
            cmd += ["-workers", str(workers)]
        cmd.append(f"{name}.tla")
        t = time.time()
        recs, tail = [], []
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             env={**os.environ, "JAVA_TOOL_OPTIONS": f"-Djava.io.tmpdir={d} -Xss64m " + ("-Xmx3g" if simulate else "-Xmx8g"), **(env or {})})
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith('"@@'):
                recs.append(line)
            else:
                tail.append(line)
                if len(tail) > 400:
                    del tail[:100]
        p.wait()
        timer.cancel()
        if not simulate:
            recs.sort()   # TLC's workers print in any order
        recs = [_decode(r) for r in recs]
        txt = "\n".join(tail)
        failed = p.returncode != 0 or "Error:" in txt
        st = {"module": module, "label": label or module, "mode": "simulate" if simulate else "bfs",
              "constants": {k: str(v)[:120] for k, v in consts.items()}, "emitted": len(recs)}
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        if m:
            gen, dis = (int(x.replace(",", "")) for x in m.groups())
            st.update(generated=gen, distinct=dis)
            self.states += dis
            self.transitions += gen
        m = re.search(r"depth of the complete state graph search is (\d+)", txt)
        if m:
            st["depth"] = int(m.group(1))
        ms = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", txt)
        if simulate:
            mm = re.search(r"The number of states generated: ([\d,]+)", txt)
            if mm:
                n = int(mm.group(1).replace(",", ""))
                st["generated"] = n
                self.states += n
                self.transitions += n
        st["wall_s"] = round(time.time() - t, 2)
        self.models.append(st)
        shutil.rmtree(d / "states", ignore_errors=True)
        if failed and not expect_fail:
            ls = [l for l in tail if not l.startswith(("Parsing file", "Semantic proc", "Linting"))]
            at = next((k for k, l in enumerate(ls) if l.startswith("Error:")), 0)
            nested = next((k for k, l in enumerate(ls) if "nested" in l), at + 8)
            raise CheckError(f"TLC failed on {module} ({label}):\n" + "\n".join(
                l[:300] for l in ls[at:at + 8] + ls[nested:nested + 25] + ["..."] + ls[-12:]))
        if expect_fail:
            return recs, failed, txt
        return recs

    # ---- conformance
    def pool(self, fn, items, procs=8, chunk=None, init=None):
        """Map fn over items in forked workers; results in order.  A worker that dies (abort, stack
        overflow) is reported as ('died', item)."""
        items = list(items)
        if not items:
            return []
        self.built()
        procs = min(procs, max(1, len(items) // 4))
        chunk = chunk or max(1, min(400, len(items) // (procs * 4) or 1))
        parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        ctx = mp.get_context("fork")
        out = [None] * len(parts)
        pending = list(range(len(parts)))[::-1]
        live = {}

        def work(conn, part):
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            res = []
            try:
                if init:
                    init()
                for it in part:
                    conn.send(("at", None))
                    try:
                        r = ("ok", fn(it))
                    except BaseException as e:  # noqa
                        if type(e).__name__ == "PanicException":
                            r = ("panic", str(e))
                        else:
                            r = ("exc", "".join(traceback.format_exception(e))[-3000:])
                    conn.send(("res", r))
                conn.send(("end", None))
            finally:
                conn.close()
                os._exit(0)
        while pending or live:
            while pending and len(live) < procs:
                k = pending.pop()
                a, b = ctx.Pipe(False)
                pr = ctx.Process(target=work, args=(b, parts[k][len(out[k] or []):]))
                pr.start()
                b.close()
                out[k] = out[k] or []
                live[a] = (k, pr, time.time())
            ready = mp.connection.wait(list(live), timeout=5)
            now = time.time()
            for c in list(live):
                k, pr, t = live[c]
                if c in ready:
                    done = False
                    try:
                        while c.poll():
                            tag, r = c.recv()
                            if tag == "res":
                                out[k].append(r)
                            elif tag == "end":
                                done = True
                        live[c] = (k, pr, now)
                    except EOFError:
                        pr.join()
                        del live[c]
                        if len(out[k]) < len(parts[k]):
                            out[k].append(("died", f"worker exit code {pr.exitcode}"))
                            if len(out[k]) < len(parts[k]):
                                pending.append(k)
                        continue
                    if done:
                        pr.join()
                        del live[c]
                elif now - t > 60:
                    pr.kill()
                    pr.join()
                    del live[c]
                    out[k].append(("timeout", "no answer within 60 s"))
                    if len(out[k]) < len(parts[k]):
                        pending.append(k)
        return [r for o in out for r in o]

    # ---- verdicts
    def violation(self, case, why, extra=None):
        self.nviol += 1
        if os.environ.get("VERIF_DEBUG"):  # development only: every violation, not just the first ones
            with open(os.environ["VERIF_DEBUG"], "a") as f:
                f.write(why + "\n\x00\n")
        if len(self.viol) >= 12:
            return
        n = len(self.viol) + 1
        p = self.replays / f"{self.id}-{n}.json"
        p.write_text(json.dumps({"property": self.id, "why": why, "case": case, "detail": extra, "seed": self.seed,
                                 "tier": self.tier}, indent=1, ensure_ascii=False, default=str))
        self.viol.append((p, why))

    def cov(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def known_for(self):
        return [k for k in self.known if k["property"] == self.id]

    def finish(self, level="model_checking", assumptions=(), exhaustive=None, extra=None, distinct=None, rule=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "comparisons": self.evals,
               "unspecified_skipped": self.skipped, "samples": self.samples or ["(none)"], "models": self.models,
               "by_kind": self.cover}
        if rule:
            cov["rule"] = rule
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if extra:
            cov.update(extra)
        ev = {"property": self.id, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": list(assumptions) or BASE_ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.id}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False, default=str))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.traces == 0 and not self.viol:
            print(f"{self.id}: nothing was replayed into the implementation", file=sys.stderr)
            return 2
        for p, why in self.viol[:8]:
            print(f"VIOLATION property={self.id} replay={p}")
            print("   " + str(why).replace("\n", "\n   ")[:600])
        print(f"{self.id}: {self.tier}: {self.states} spec states, {self.traces} behaviours replayed, {self.evals} comparisons, "
              f"{self.skipped} unspecified, {self.nviol} violations, {time.time()-self.t0:.1f}s")
        return 1 if self.viol else 0


BASE_ASSUMPTIONS = [
    "sparklite (lib/sparklite) implements the PySpark API subset with Spark's meaning",
    "TLC evaluates the specification correctly",
]
