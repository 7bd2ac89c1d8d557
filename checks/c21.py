"""C21: rex and spath."""
from pipes import job, run as go


def run(h):
    q = h.quick
    return go(h, [
        job(["rex", "spath"], ["main", "web"], 1, rich=True, label="every rex and spath"),
        job(["rex", "spath"], ["main"], 2, label="two extractions") if not q else
        job(["rex", "spath"], ["main", "web"], 3, sim=200, label="several extractions"),
        job(["rex", "spath", "where", "eval", "rename", "fields", "stats"], ["main", "web"], 5, sim=300 if q else 6000, label="long pipelines")],
        "every rex/spath instance on two tables, then random pipelines")
