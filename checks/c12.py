"""C12: stats."""
from pipes import job, run as go


def run(h):
    q = h.quick
    return go(h, [
        job(["stats"], ["main"], 1, label="every aggregation and grouping") if q else
        job(["stats"], ["main", "web"], 1, rich=True, label="every aggregation and grouping"),
        job(["stats"], ["main", "web", "audit", "two"], 1, sim=300 if q else 6000, label="random lists"),
        job(["sort", "stats"], ["main", "web"], 2, sim=1500 if q else 6000, label="sorted rows"),
        job(["stats", "where", "eval", "sort", "rename", "fields"], ["main", "web", "audit"], 5, sim=300 if q else 8000, label="long pipelines")],
        "every aggregation with every grouping, random lists of aggregations, then random pipelines")
