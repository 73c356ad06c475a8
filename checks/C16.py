"""C16: acetone_compare reports agreement only of files that agree.

Every pair of values of a set covering all magnitudes and classes, at every position of files of up to 3 x 3 values, with every combination of lengths, in the forms the tools write
(hexadecimal, decimal, JSON). Oracle: exact rational arithmetic on the parsed values."""
import contextlib
import io
import itertools
import math
import sys
from fractions import Fraction as F

import numpy as np

import acx
from acx import Bad, count, scratch

EPS, TINY = F(128) * F(2) ** -52, F(2) ** -1022
INF, NAN = math.inf, math.nan


def values(precision):
    t, man, emin = (np.float32, 23, -149) if precision == "float" else (np.float64, 52, -1074)
    one = [1.0 + k * 2.0 ** -52 for k in (1, 100, 255, 256, 257, 300, 1024)] if precision == "double" else [1.0 + k * 2.0 ** -23 for k in (1, 2)]
    v = [0.0, 1.0, 0.1, 2.0, 1e-30, 1e30, float(np.finfo(t).max), float(np.finfo(t).tiny), 2.0 ** emin, 2.0 ** (emin + 3), 3.5, 1e5, 123456.789, *one]
    v = [float(t(x)) for x in v]
    return sorted({*v, *[-x for x in v]}) + [INF, -INF, NAN]


def form(x, enc):
    if enc == "dec":
        return repr(x)
    h = x.hex() if math.isfinite(x) else str(x)
    return f'"{h}"' if enc == "json" else h


def line(r, enc):
    w = [form(x, enc) for x in r]
    return "[" + ", ".join(w) + "]" if enc == "json" else " ".join(w) + ("  " if enc == "hex" else " ")


def pair(a, b):
    """(agree or None if undecided, absolute, relative error) as exact numbers, math.inf or math.nan."""
    if math.isnan(a) or math.isnan(b):
        return (None if math.isnan(a) and math.isnan(b) else False), NAN, NAN
    if a == b:
        return True, F(0), F(0)
    if math.isinf(a) or math.isinf(b):
        return False, INF, INF
    fa, fb = F(a), F(b)
    d, s = abs(fa - fb), abs(fa) + abs(fb)
    lim = max(TINY, EPS * s)
    return (None if abs(d - lim) <= lim / 10 ** 9 else d < lim), d, d / (s / 2)


def expected(A, B, nb):
    agree, dm, rm = True, F(0), F(0)
    for i in range(nb):
        if i >= len(A) or i >= len(B) or len(A[i]) != len(B[i]):
            agree = False
            dm = rm = None
            continue
        for a, b in zip(A[i], B[i]):
            g, d, r = pair(a, b)
            agree = False if g is False or agree is False else None if g is None else agree
            dm = None if dm is None or d is None else NAN if d is NAN or dm is NAN else max(dm, d)
            rm = None if rm is None or r is None else NAN if r is NAN or rm is NAN else max(rm, r)
    return agree, dm, rm


def same(got, want, over=False):
    if want is None:
        return not got <= 1e300                       # something was not comparable: no finite error may be reported
    if want is NAN:
        return math.isnan(got)
    if want == INF:
        return got == INF
    if want > F(np.finfo(np.float64).max):
        return got >= 1e308
    if want == 0:
        return got == 0
    if math.isinf(got) and over:
        return True
    if math.isnan(got) or math.isinf(got):
        return False
    return abs(F(got) - want) <= want / 10 ** 6 + TINY / 2 ** 60


def run(A, B, nb, precision, enc, cli, d):
    from acetone_nnet.cli import compare
    for n, r in (("a", A), ("b", B)):
        (d / n).write_text("".join(line(x, enc) + "\n" for x in r))
    if not cli:
        return compare.compare_files(str(d / "a"), str(d / "b"), nb, precision)
    argv, out = sys.argv, io.StringIO()
    sys.argv = ["acetone_compare", str(d / "a"), str(d / "b"), str(nb), *(["--precision", precision] if precision != "float" else [])]
    try:
        with contextlib.redirect_stdout(out):
            compare.acetone_compare()
    finally:
        sys.argv = argv
    v = [float(l.rsplit(":", 1)[1]) for l in out.getvalue().splitlines() if ":" in l]
    return None, v[0], v[1]


def check(A, B, nb, precision, enc, cli, d):
    count("comparisons")
    try:
        ok, dm, rm = run(A, B, nb, precision, enc, cli, d)
    except Exception as e:
        return [("run", f"{A} {B} nb={nb}: {type(e).__name__}: {e}")]
    g, wd, wr = expected(A, B, nb)
    what = f"{precision} {enc} nb={nb} {A} against {B}"
    f = []
    if ok is not None and g is not None and bool(ok) != g:
        f.append(("verdict", f"{what}: {ok} instead of {g}"))
    if not same(float(dm), wd):
        f.append(("absolute error", f"{what}: {dm} instead of {wd if wd is None or wd in (INF,) or wd is NAN else float(wd)}"))
    if not same(float(rm), wr, wd is not None and wd > 1e308):
        f.append(("relative error", f"{what}: {rm} instead of {None if wr is None else float(wr)}"))
    return f


def case(kind, precision, enc="hex", cli=False, i=0, **kw):
    V = values(precision)
    fails = []
    with scratch() as d:
        if kind == "pairs":                      # V[i] against every value, alone
            for b in V:
                fails += check([[V[i]]], [[b]], 1, precision, enc, cli, d)
        elif kind == "position":                 # one differing value at every place, every number of lines compared
            base = [[1.0, -2.0, 3.5], [0.0, 1e30, 0.5], [2.0 ** -20, 7.0, -0.0]]
            for (r, k), x, nb in itertools.product(itertools.product(range(3), range(3)), (NAN, INF, 4.25, -8.0), (0, 1, 2, 3)):
                B = [list(l) for l in base]
                B[r][k] = x
                fails += check(base, B, nb, precision, enc, cli, d) + check(B, base, nb, precision, enc, cli, d)
                for (r2, k2), y in itertools.product(itertools.product(range(3), range(3)), (5.5, NAN)):
                    if (r2, k2) > (r, k):
                        C = [list(l) for l in B]
                        C[r2][k2] = y
                        fails += check(base, C, nb, precision, enc, cli, d)
                if len(fails) > 5:
                    break
        else:                                    # every combination of line counts and line lengths
            for (na, n2), (ca, cb), nb in itertools.product(itertools.product(range(4), repeat=2), itertools.product(range(1, 4), repeat=2), range(4)):
                for r in range(3):
                    A = [[1.0, 2.0, 3.0][:ca if j == r else 2] for j in range(na)]
                    B = [[1.0, 2.0, 3.0][:cb if j == r else 2] for j in range(n2)]
                    fails += check(A, B, nb, precision, enc, cli, d)
                if len(fails) > 5:
                    break
    return fails


def main():
    acx.import_target()
    c = acx.Check("C16", rule="one case per value of the set (against every other value) and per form of file; exact rational oracle")
    q = [(f"pairs,{p},{e},cli={cli},{i}", dict(kind="pairs", precision=p, enc=e, cli=cli, i=i)) for p in ("float", "double") for e in ("hex", "dec", "json") for cli in (False, True) for i in range(len(values(p)))]
    q += [(f"{k},{p},{e},cli={cli}", dict(kind=k, precision=p, enc=e, cli=cli)) for k in ("position", "lengths") for p in ("float", "double") for e in ("hex", "dec", "json") for cli in (False, True)]
    c.run(q, case)
    c.assumptions = ["two NaN at the same place are not decided", "the tolerance is the documented 128 double precision units of the sum of the magnitudes"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
