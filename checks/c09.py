"""C09: a pipeline applies its commands left to right, each once, to its prefix."""
from pipes import job, run as go

ALL = ["where", "search", "regex", "eval", "fields", "table", "rename", "fillnull", "addtotals", "bin", "convert", "rex", "spath",
       "sort", "head", "stats", "lookup", "join", "multisearch"]


def run(h):
    q = h.quick
    return go(h, [
        job([f for f in ALL if f not in ("join", "multisearch")], ["main"], 1, label="every command once"),
        job(["head", "fields", "where", "rename", "fillnull"], ["audit"], 2 if q else 3, label="all short pipelines"),
        job([f for f in ALL if f not in ("join", "multisearch")], ["main", "web", "two", "cond", "gen"], 9, sim=300 if q else 8000, label="long pipelines", timeout=3000),
        job(ALL, ["main", "web", "audit", "cond"], 4, depth=2, sim=200 if q else 6000, label="nested pipelines", timeout=3000)],
        "every prefix of every behaviour is a case, so each step is compared on its own")
