"""C18: a .nnet network, with or without normalisation, is what the generated program and the Python reference compute.

Every chain of up to 3 layers of 1..3 neurons (thorough 4 and 4), networks of 12 to 102 layers and of layers of 10 to 101 neurons, every combination of positions of the inputs relative to the normalisation bounds (below, at, inside, at, above),
several normalisations, against an exact evaluation of the file's definition."""
import itertools
import sys

import numpy as np

import acx
from acx import count, product, scratch, three_way, union
from nnet import reference, weights, write

NORM = {"unit": (-1.0, 1.0, 0.0, 1.0), "shift": (0.0, 4.0, 2.0, 4.0), "wide": (-64.0, 8.0, -8.0, 32.0), "neg": (-5.0, -1.0, -3.0, 0.5), "point": (2.0, 2.0, 1.0, 2.0), "outside": (1.0, 2.0, 16.0, 0.25),
        "digits": (1048576.125, 1048640.875, 1048600.625, 4.0),
        "dec": (-0.3, 0.7, 0.1, 0.9), "big": (-60760.0, 60760.0, 1.9791091e4, 60261.0)}


def bounds(norm, n):
    """Different numbers for every input, and for the output."""
    lo, hi, me, ra = NORM[norm]
    k = np.arange(n)
    exact = norm not in ("dec", "big")
    sc = 2.0 ** -(k % 2) if exact else 1 / (1 + 0.3 * k)
    mins, maxs = list(lo - k * 0.5), list(hi + k * 0.25)
    means, ranges = list(me + k * 0.5) + [65537.0625 if norm == "digits" else -3.5 if exact else 0.37], list(ra * sc) + [8.0 if exact else 373.9]
    return mins, maxs, means, ranges


def points(mins, maxs, n):
    axes = []
    for i in range(n):
        lo, hi = mins[i], maxs[i]
        axes.append(sorted({lo - 2.5, lo - 2.0 ** -6, lo, lo + (hi - lo) / 4, hi, hi + 0.5} if n < 4 else {lo - 2.5, lo, lo + (hi - lo) / 4, hi + 0.5}))
    return np.array(list(itertools.product(*axes)), np.float32)


def case(sizes, norm=None, style="plain", opt=False, k=0, versions=None, enc="hex"):
    W, B = weights(sizes, k)
    n = sizes[0]
    large = len(sizes) > 6 or max(sizes) > 8
    if large:            # contracting, and no layer of which all neurons are off
        W = [w / (16 * len(w[0])) + np.array([[float(c == (r + l) % len(w[0])) for c in range(len(w[0]))] for r in range(len(w))]) for l, w in enumerate(W)]
        B = [np.abs(b) / 8 + 0.25 for b in B]
    nm = bounds(norm or "shift", n)
    X = points(*nm[:2], n)
    want = reference(X, W, B, nm if norm else None)
    exact = norm not in ("dec", "big") and not large
    if large and norm not in ("point", "outside") and len({tuple(r) for r in want.round(4).tolist()}) < len(want) // 16:
        return [("harness", "degenerate network")]
    kw = dict(normalize=bool(norm))
    st = {"plain": {}, "noheader": {"header": ()}, "crlf": {"eol": "\r\n"}, "exp": {"fmt": lambda x: f"{x:.9e}"}, "int": {"fmt": lambda x: str(int(x)) if x == int(x) else repr(x)}, "nocomma": {"comma": ""}, "space": {"comma": ", "}}[style]
    with scratch() as d:
        f = d / "net.nnet"
        write(f, sizes, W, B, *nm, **st)
        gk = dict(kw, optimization=opt)
        if enc != "hex":
            gk["bin_dataset" if enc == "bin" else "to_hex"] = enc == "bin"
        if enc == "bin":
            gk = dict(gk)
        fails = []
        for model in ((str(f), f) if style == "plain" else (f,)):
            # files in another style may be refused, but not misread
            r = three_way(model, X.reshape(len(X), 1, n), (1, n), want=want, gen_kw=gk, rtol=0 if exact else 3e-5, atol=0 if exact else 1e-3 * (1 if norm == "dec" else 1), py=True, c=enc != "bin")
            if style in ("nocomma", "space") and r and r[0][0] == "import":
                count("refused")
                r = []
            fails += r
        return fails


def main():
    acx.import_target()
    c = acx.Check("C18", rule="one case per chain of layer sizes, normalisation and file style; every combination of input positions relative to the bounds is run")
    m = 4 if c.thorough else 3
    chains = [s for k in ((2, 3, 4) if not c.thorough else (2, 3, 4, 5)) for s in itertools.product(range(1, m + 1), repeat=k) if k < 4 or (max(s) <= 3 and (c.thorough or s[0] < 3)) and (k < 5 or max(s) <= 2)]
    q = [(f"{s},{nm}", dict(sizes=s, norm=nm)) for s in chains for nm in ((None, "shift", "wide") if len(s) > 2 else (None, *NORM))]
    q += [(f"{s},{nm},{st},opt={o}", dict(sizes=s, norm=nm, style=st, opt=o)) for s in ((2, 3, 2), (3, 1), (1, 2, 3)) for nm in (None, *NORM) for st in ("plain", "noheader", "crlf", "exp", "int", "nocomma", "space") for o in (False, True)]
    q += [(f"{s},{nm},dec", dict(sizes=s, norm=nm, enc="dec")) for s in ((2, 3, 2), (3, 1)) for nm in (None, *NORM)]
    q += [(f"{s},{nm},{k}", dict(sizes=s, norm=nm, k=k)) for s in ((2, 3, 2), (3, 4, 3, 2)) for nm in (None, "shift", "outside") for k in (1, 2, 3)]
    # networks of the size that is used: ten layers and more, ten neurons and more
    q += [(f"large,{s},{nm},opt={o}", dict(sizes=s, norm=nm, opt=o)) for s in ((5, 50, 50, 50, 50, 50, 50, 5), (2,) * 13, (3,) * 12 + (11,), (2, 12, 11, 10), (1,) + (3,) * 101 + (2,), (4, 101, 1), (2, 1, 13)) for nm in (None, *NORM)[:None if len(s) < 50 else 2]
          for o in ((False, True) if nm in (None, "shift") else (False,))]
    seen = set()
    q = [x for x in q if not (x[0] in seen or seen.add(x[0]))]
    c.run(q, case)
    c.assumptions = ["weights, bounds and ranges are dyadic in the exact families: single precision loses nothing"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
