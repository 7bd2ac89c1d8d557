import importlib, sys, traceback
from pathlib import Path
R = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(R / "lib"), str(R / "checks")]
sys.dont_write_bytecode = True
from harness import Harness, CheckError


def main():
    pid = sys.argv[1]
    try:
        h = Harness(pid)
        rc = importlib.import_module(pid.lower()).run(h)
    except CheckError as e:
        print(f"{pid}: check error: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


main()
