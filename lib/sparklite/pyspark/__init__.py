"""sparklite: a tiny, deterministic, in-process stand-in for the part of the
PySpark API that generated programs and the spl_transpiler runtime use.

It executes generated programs on small concrete tables.  Functions whose value
does not matter for conformance (trigonometry, windows, hashes ...) are kept as
*uninterpreted terms*: F.sin(3) evaluates to Term("sin", (3,)).  The TLA+
specification produces the same terms, so a wrong function, a wrong argument or
a wrong argument order is still a difference.
"""
from .sql import Row  # noqa
