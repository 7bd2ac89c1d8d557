"""C11: column commands."""
from pipes import job, run as go

COL = ["eval", "fields", "table", "rename", "fillnull", "addtotals", "bin", "convert"]


def run(h):
    q = h.quick
    return go(h, [
        job(COL, ["main", "gen"], 1, rich=True, label="every column command"),
        job(["fields", "rename"], ["audit"], 2, label="two column commands") if not q else
        job(COL, ["main", "gen", "two"], 2, sim=200, label="two column commands"),
        job(COL, ["main", "web", "two", "gen"], 7, sim=300 if q else 8000, label="long pipelines")],
        "every instance of every column command on a table, then random pipelines")
