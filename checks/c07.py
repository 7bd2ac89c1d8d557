"""C07: where and regex."""
from pipes import job, run as go


def run(h):
    q = h.quick
    return go(h, [
        job(["where", "regex"], ["main", "web", "audit"], 1, rich=True, label="every where and regex"),
        job(["where", "regex"], ["web"], 2, label="two filters") if not q else
        job(["where", "regex"], ["main", "web"], 3, sim=200, label="several filters"),
        job(["where", "regex", "eval", "sort", "fields", "rex", "rename"], ["main", "web"], 5, sim=300 if q else 8000, label="long pipelines")],
        "every where/regex instance on every table, then random conditions and pipelines")
