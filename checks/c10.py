"""C10: sort, head and limits."""
from pipes import job, run as go


def run(h):
    q = h.quick
    return go(h, [
        job(["sort", "head"], ["main"], 1, rich=True, label="every sort and head"),
        job(["sort", "head"], ["web"], 2, label="two of sort and head", timeout=1500) if not q else
        job(["sort", "head"], ["main", "web", "audit"], 3, sim=150, label="several of sort and head"),
        job(["sort", "head", "where", "eval", "fields"], ["main", "web"], 5, sim=300 if q else 8000, label="long pipelines")],
        "every sort/head instance on a table, then random pipelines")
