"""C14: allowing the runtime never changes what a query computes."""
import c20
import pipes
from pipes import job

ALL = ["where", "search", "regex", "eval", "fields", "table", "rename", "fillnull", "addtotals", "bin", "convert", "rex", "spath",
       "sort", "head", "stats", "lookup", "join", "multisearch"]


def run(h):
    q = h.quick
    c20.RUNTIME = True
    c20.replay(h, c20.load(h, [c20.ONCE, c20.nested(True), c20.deep(200 if q else 6000)]))
    pipes.RUNTIME = True
    return pipes.run(h, [
        job([f for f in ALL if f not in ("join", "multisearch")], ["main"], 1, label="every command once"),
        job(["search", "eval", "fillnull", "stats"], ["web"], 2, sim=200 if q else 3000, label="the commands of the runtime"),
        job([f for f in ALL if f not in ("join", "multisearch")], ["main", "web", "two", "cond", "gen"], 9, sim=200 if q else 6000, label="long pipelines", timeout=3000),
        job(ALL, ["main", "web", "audit", "cond"], 4, depth=2, sim=200 if q else 4000, label="nested pipelines", timeout=3000)],
        "every prefix of every behaviour and every call of the function machine is transpiled with the runtime, executed with the runtime library and compared with the table of the specification (which the other checks compare with the standalone program)")
