"""C13: join, lookup, multisearch."""
from pipes import job, run as go


def run(h):
    q = h.quick
    return go(h, [
        job(["lookup"], ["main", "web"], 1, rich=True, label="every lookup"),
        job(["join"], ["main", "web"], 1, depth=1, label="every join of two sources"),
        job(["multisearch", "where", "head"], ["main", "web", "audit"], 1 if q else 1, depth=1, sim=200 if q else 4000, label="multisearches"),
        job(["join", "lookup", "where", "eval", "head", "fields"], ["main", "web", "audit", "cond"], 3, depth=2, sim=300 if q else 6000, label="subsearches in subsearches", timeout=3000)],
        "every lookup and join instance on two tables, random combinations of nested subsearches")
