#!/usr/bin/env python3
"""Developer tool (no check uses it): confirm a planted bug in a scratch copy of /repo.

  seedtest.py prepare              make the scratch copy /tmp/sc (once)
  seedtest.py diff <id>            save the scratch copy's changes as seeded/<id>/patch.diff
  seedtest.py confirm <id>...      builds, stable tests pass, demo 0 without / non-zero with the patch
  seedtest.py catch <id> [<check>] run the check of the planted bug's property against the scratch copy
"""
import json, os, shutil, subprocess, sys
from pathlib import Path
SC, V = Path("/tmp/sc"), Path(__file__).resolve().parent.parent
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not SC.exists():
        sh(f"cp -a /repo {SC}; mkdir -p {SC}-vp")
    for n in ("build.sh", "test.sh", "env.sh"):
        t = Path("/opt/vp", n).read_text().replace("/repo", str(SC)).replace("/opt/vp/env.sh", f"{SC}-vp/env.sh")
        Path(f"{SC}-vp", n).write_text(t)
    reset()


def reset():
    sh(f"cd {SC} && git checkout -q -- . && git clean -fdq src python")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh(f"git -C {SC} rev-parse HEAD").stdout.strip() != head:
        sh(f"cd {SC} && git fetch -q /repo && git reset -q --hard {head}")


def apply(i):
    reset()
    r = sh(f"cd {SC} && git apply {V}/seeded/{i}/patch.diff")
    assert r.returncode == 0, r.stdout


def build():
    return sh(f"bash {SC}-vp/build.sh")


def demo(i):
    return sh(f"bash {V}/seeded/{i}/demo.sh", cwd=SC, timeout=300)


def tests():
    ok = set()
    for _ in range(5):
        sh(f"bash {SC}-vp/test.sh /tmp/sc-vp/o.json")
        ok |= set(json.load(open("/tmp/sc-vp/o.json"))["passed"])
        if BASE <= ok:
            return []
    return sorted(BASE - ok)


def confirm(i):
    reset()
    b = build()
    assert b.returncode == 0, b.stdout[-800:]
    d0 = demo(i)
    apply(i)
    b = build()
    if b.returncode:
        return f"BUILD FAILS {b.stdout[-1500:]}"
    d1 = demo(i)
    t = tests()
    good = d0.returncode == 0 and d1.returncode != 0 and not t
    return ("GOOD" if good else "BAD") + f" demo {d0.returncode}->{d1.returncode}, missing tests {t[:5]}" + \
        ("" if good else "\n--- unpatched:\n" + d0.stdout[-800:] + "\n--- patched:\n" + d1.stdout[-800:])


def catch(i, check=None, tier="quick"):
    apply(i)
    check = check or json.loads((V / f"seeded/{i}/meta.json").read_text())["property"]
    r = sh(f"{V}/check {check}", env={**os.environ, "VERIF_REPO": str(SC), "VERIF_TIER": tier})
    reset()
    return f"{i} {check}: exit {r.returncode} " + ("CAUGHT" if r.returncode == 1 and f"VIOLATION property={check}" in r.stdout else "missed") \
        + "\n" + "\n".join(r.stdout.splitlines()[-6 if r.returncode else -1:])[:900]


if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if c == "prepare":
        prepare()
    elif c == "diff":
        d = V / "seeded" / a[0]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(sh(f"git -C {SC} diff").stdout)
    elif c == "confirm":
        prepare()
        for i in a:
            print(i, confirm(i), flush=True)
        reset()
    elif c == "catch":
        prepare()
        for i in (sorted(p.name for p in (V / "seeded").iterdir()) if a == ["all"] else a if len(a) == 1 else a[:1]):
            print(catch(i, a[1] if len(a) > 1 else None), flush=True)
