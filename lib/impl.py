"""The implementation under test: transpile with the real code, execute on sparklite."""
import ast as pyast, io, os, sys, contextlib


class Panic(Exception):
    pass


def transpile(text, runtime=False, fmt=False):
    """-> generated code; raises ValueError-like errors, Panic for panics."""
    import spl_transpiler as s
    try:
        return s.render_pyspark(s.parse(text), allow_runtime=runtime, format_code=fmt)
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            raise Panic(str(e)) from None
        raise


def try_transpile(text, runtime=False, fmt=False):
    try:
        return "ok", transpile(text, runtime, fmt)
    except Panic as e:
        return "panic", str(e)
    except Exception as e:
        return "err", f"{type(e).__name__}: {e}"


_compiled = {}


def run_code(code, tables):
    """Execute a generated program; returns (result, log of tables read)."""
    from pyspark.sql import functions as F, SparkSession
    sess = SparkSession({k: v for k, v in tables.items()})
    SparkSession._current = sess
    ns = {"spark": sess, "F": F}
    tree = pyast.parse(code)
    body = tree.body
    last = body[-1]
    if isinstance(last, pyast.Expr):
        pre, expr = body[:-1], last.value
    elif isinstance(last, pyast.Assign):
        pre, expr = body, pyast.Name(last.targets[0].id, pyast.Load())
        pyast.fix_missing_locations(pyast.copy_location(expr, last))
    else:
        raise SyntaxError("program has no result")
    if "commands." in code or "functions." in code or "udfs." in code:
        if "import" not in code:
            from spl_transpiler.runtime import commands, functions, udfs
            ns.update(commands=commands, functions=functions, udfs=udfs)
    exec(compile(pyast.Module(pre, []), "<generated>", "exec"), ns)
    e = pyast.Expression(expr)
    return eval(compile(e, "<generated>", "eval"), ns), sess.log


def table(spec):
    """[cols, rows] of the specification -> sparklite DataFrame"""
    from pyspark.sql import DataFrame
    return DataFrame.of(spec["cols"], [[val(x) for x in r] for r in spec["rows"]])


class Any_:
    def __repr__(self): return "<unspecified>"


ANY = Any_()


def val(v):
    """specification value -> python value"""
    if "n" in v: return None
    if "i" in v: return v["i"]
    if "d" in v: return v["d"][0] / v["d"][1]
    if "s" in v: return v["s"]
    if "b" in v: return v["b"]
    if "m" in v: return [val(x) for x in v["m"]]
    if "t" in v:
        from pyspark.sql._core import Term, sort_key
        a = [val(x) for x in v["a"]]
        if v["t"] == "pi":
            import math
            return math.pi
        if v["t"] == "set":
            a.sort(key=sort_key)
        return Term(v["t"], a)
    if "u" in v: return ANY
    raise ValueError(v)


def eq(exp, got):
    from pyspark.sql._core import same, Term
    if exp is ANY: return True
    if isinstance(exp, list) and isinstance(got, list):
        return len(exp) == len(got) and all(eq(a, b) for a, b in zip(exp, got))
    if isinstance(exp, Term) and isinstance(got, Term):
        if exp.fn == got.fn == "col":  # an uninterpreted statistic is one of the bag of its values
            left = list(got.args)
            for a in exp.args:
                k = next((k for k, b in enumerate(left) if eq(a, b)), None)
                if k is None: return False
                del left[k]
            return not left
        return exp.fn == got.fn and len(exp.args) == len(got.args) and all(eq(a, b) for a, b in zip(exp.args, got.args))
    return same(exp, got)


def diff(exp, df, ordered=True):
    """Compare a specification table with an executed data frame; None if equal."""
    cols = list(df.columns)
    if cols != list(exp["cols"]):
        return f"columns {cols} instead of {list(exp['cols'])}"
    rows = df.collect() if hasattr(df, "collect") else list(df)
    er = [[val(x) for x in r] for r in exp["rows"]]
    if len(rows) != len(er):
        return f"{len(rows)} rows instead of {len(er)}: {[list(r) for r in rows][:4]} instead of {er[:4]}"
    if ordered:
        for k, (a, b) in enumerate(zip(er, rows)):
            if not all(eq(x, y) for x, y in zip(a, b)):
                return f"row {k}: {list(b)} instead of {a}"
        return None
    left = list(rows)
    for a in er:
        for b in left:
            if all(eq(x, y) for x, y in zip(a, b)):
                left.remove(b)
                break
        else:
            return f"no row {a} among {[list(r) for r in rows][:6]}"
    return None
