"""Build the Python extension from /repo's *current working tree*.

Sources are copied by content into build/src (so that cargo's mtime logic can
never reuse a stale crate), compiled with a private CARGO_TARGET_DIR, and the
importable package is placed in build/pkg/<content-hash>/spl_transpiler.
Nothing is written to /repo or /opt/vp.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
ROOT = Path(__file__).resolve().parent.parent
B = ROOT / "build"
PY = "/opt/spl-venv/bin/python"
SONAME = "spl_transpiler.cpython-312-x86_64-linux-gnu.so"


def env():
    e = dict(os.environ)
    e.update(
        HOME=e.get("HOME", "/root"),
        LANG=e.get("LANG", "C.UTF-8"),
        PATH="/opt/spl-venv/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        PYO3_PYTHON=PY,
        RUSTFLAGS="-Awarnings",
        CARGO_TARGET_DIR=str(B / "target"),
    )
    return e


def _src_files():
    out = []
    for top in ("Cargo.toml", "Cargo.lock", "build.rs", "README.md", "pyproject.toml", "LICENSE"):
        p = REPO / top
        if p.is_file():
            out.append(p)
    for d in ("src", "python", ".cargo"):
        base = REPO / d
        if base.is_dir():
            for p in sorted(base.rglob("*")):
                if p.is_file() and "__pycache__" not in p.parts and p.suffix not in (".so", ".pyc"):
                    out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in _src_files():
        h.update(str(p.relative_to(REPO)).encode() + b"\0")
        h.update(hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def ensure_built(verbose=False):
    """Return the directory to put on PYTHONPATH."""
    B.mkdir(exist_ok=True)
    with open(B / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        pkg = B / "pkg" / h
        if (pkg / "ok").exists():
            os.utime(pkg)
            return pkg
        src = B / "src"
        src.mkdir(exist_ok=True)
        wanted = {}
        for p in _src_files():
            wanted[p.relative_to(REPO)] = p
        for q in list(src.rglob("*")):
            if q.is_file() and q.relative_to(src) not in wanted:
                q.unlink()
        for rel, p in wanted.items():
            q = src / rel
            data = p.read_bytes()
            if not q.exists() or q.read_bytes() != data:
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_bytes(data)
        if not (src / "Cargo.lock").exists() and Path("/opt/vp/Cargo.lock").exists():
            shutil.copy("/opt/vp/Cargo.lock", src / "Cargo.lock")
        if not (B / "target").exists():
            boot = REPO / "target" / "ext"
            if boot.is_dir():
                # dependency artefacts only: the crate itself is always rebuilt (new path)
                subprocess.run(["cp", "-a", str(boot), str(B / "target")], check=False)
        # never trust a previously built artefact of the crate itself
        lib = src / "src" / "lib.rs"
        if lib.exists():
            os.utime(lib)
        t0 = time.time()
        r = subprocess.run(
            ["cargo", "build", "--workspace", "--lib", "--offline"],
            cwd=src, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cargo build failed:\n" + r.stdout[-4000:])
        if verbose:
            print(f"built in {time.time()-t0:.1f}s", file=sys.stderr)
        tmp = B / "pkg" / (h + ".tmp")
        if tmp.exists():
            shutil.rmtree(tmp)
        tmp.mkdir(parents=True)
        shutil.copytree(src / "python" / "spl_transpiler", tmp / "spl_transpiler")
        shutil.copy(B / "target" / "debug" / "libspl_transpiler.so", tmp / "spl_transpiler" / SONAME)
        (tmp / "ok").write_text(h)
        if pkg.exists():
            shutil.rmtree(pkg)
        tmp.rename(pkg)
        # keep only the last few builds
        olds = sorted((p for p in (B / "pkg").iterdir() if p != pkg), key=lambda p: p.stat().st_mtime)
        for p in olds[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        return pkg


if __name__ == "__main__":
    try:
        print(ensure_built(verbose=True))
    except BuildError as e:
        print(e)
        sys.exit(3)
