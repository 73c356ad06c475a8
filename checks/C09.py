"""C09: Resize layers (nearest, linear, cubic)."""
import itertools
import sys
from fractions import Fraction as F

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import infer

COORD = ("half_pixel", "half_pixel_symmetric", "pytorch_half_pixel", "align_corners", "asymmetric")
NEAREST = ("round_prefer_floor", "round_prefer_ceil", "floor", "ceil")


def out_len(n, how, v):
    return v if how == "sizes" else int(np.floor(n * np.float32(float(v)) + 1e-6))


def positions(coord, n, how, v):
    """The source coordinate of every output sample, from the ONNX definition, in exact arithmetic."""
    m = out_len(n, how, v)
    s = F(m, n) if how == "sizes" else F(v)
    r = []
    for i in range(m):
        if coord == "half_pixel":
            x = (i + F(1, 2)) / s - F(1, 2)
        elif coord == "half_pixel_symmetric":
            x = F(n, 2) * (1 - F(m) / (s * n)) + (i + F(1, 2)) / s - F(1, 2)
        elif coord == "pytorch_half_pixel":
            x = (i + F(1, 2)) / s - F(1, 2) if m > 1 else F(0)
        elif coord == "align_corners":
            x = F(i * (n - 1), m - 1) if m > 1 else F(0)
        else:
            x = F(i) / s
        r.append(x)
    return r


def clear(mode="nearest", coord="half_pixel", nearest=None, how="scales", v=(2, 2), H=3, W=3, **_):
    """Whether rounding (nearest) is decided by the definition and not by the last bit of a float: every coordinate is exactly representable or away
    from the rounding boundary."""
    if any(out_len(n, how, x) < 1 for n, x in zip((H, W), v)):
        return False
    if mode == "cubic" and coord == "half_pixel_symmetric":
        return False
    if mode != "nearest":
        return True
    for n, x in zip((H, W), v):
        s = F(out_len(n, how, x), n) if how == "sizes" else F(x)
        dyadic = (s.numerator & (s.numerator - 1)) == 0 and (s.denominator & (s.denominator - 1)) == 0
        for p in positions(coord, n, how, x):
            q = p if nearest in ("floor", "ceil") else p + F(1, 2)
            frac = q - (q.numerator // q.denominator)
            if min(frac, 1 - frac) < F(1, 1000) and not (dyadic and coord != "align_corners") and not (coord == "asymmetric" and p == 0):
                return False
    return True


def case(mode="nearest", coord="half_pixel", nearest=None, how="scales", v=(2, 2), H=3, W=3, C=2, act=None, opt=False, dtype="float", opset=18,
         axes=None, excl=0, a=None, rank=4, then=None, omit_mode=False):
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    shape = {4: (1, C, H, W), 3: (C, H, W), 2: (H, W)}[rank]
    if rank == 2:
        C = 1
    full = {4: (1, 1, *v), 3: (1, *v), 2: tuple(v)}[rank] if how == "scales" else {4: (1, C, *v), 3: (C, *v), 2: tuple(v)}[rank]
    if axes is not None:
        full = [full[x % rank] for x in axes]
    inits = {"S": np.array([float(x) for x in full], np.float32) if how == "scales" else np.array(full, np.int64)}
    ins = ["X", "", "S"] if how == "scales" else ["X", "", "", "S"]
    if opset < 13:
        inits["roi"] = np.zeros(0, np.float32)
        ins[1] = "roi"
        if how == "sizes":
            inits["es"] = np.zeros(0, np.float32)
            ins[2] = "es"
    kw = {} if omit_mode else {"mode": mode}
    if coord:
        kw["coordinate_transformation_mode"] = coord
    if nearest:
        kw["nearest_mode"] = nearest
    if axes is not None:
        kw["axes"] = [x % rank for x in axes]
    if excl:
        kw["exclude_outside"] = 1
    if a is not None:
        kw["cubic_coeff_a"] = a
    nodes = [node("Resize", ins, ["Y"], **kw)]
    out = "Y"
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
        out = "Z"
    if then == "pool":
        nodes.append(node("MaxPool", [out], ["Q"], kernel_shape=[2, 2], strides=[1, 1]))
        out = "Q"
    if then == "resize":
        inits["S2"] = np.array([1, 1, 0.5, 2], np.float32)
        nodes.append(node("Resize", [out, "", "S2"], ["Q"], mode="nearest"))
        out = "Q"
    build = lambda t: infer(onnx_model(nodes, [("X", shape, t)], [(out, (), t)], inits, opset=opset))
    m, oracle = build(t), build(T.FLOAT)
    if axes is not None:                # onnxruntime and the shape inference do not know negative axes: they are written in the model given to the generator only
        for at in m.graph.node[0].attribute:
            if at.name == "axes":
                at.ints[:] = axes
    n = int(np.prod(shape))
    X = np.stack([np.arange(n) + 1, (np.arange(n) * 7) % 31 - 15, -np.arange(n) - 1, (np.arange(n) == n // 2) * 64]).astype(nt).reshape(-1, 1, n)
    # onnxruntime implements Resize of doubles for some modes only: the inputs are exact in both types
    want = acx.ort_run(oracle, X.astype(np.float32), shape)
    tol = 1e-6 if act == "Sigmoid" else 2e-4 if mode == "cubic" else 5e-5
    if mode == "nearest" and not act:
        tol = 0
    if dtype == "double" and mode == "cubic":          # onnxruntime implements cubic for floats only
        want = acx.ort_run(infer(onnx_model(nodes, [("X", shape, T.FLOAT)], [(out, (), T.FLOAT)], inits, opset=opset)), X.astype(np.float32), shape)
    return three_way(m, X, shape, want=want, rtol=1e-5 if tol else 0, atol=tol, gen_kw={"optimization": True} if opt else None)


def main():
    acx.import_target()
    c = acx.Check("C09", rule="one case = one generated program (mode x coordinate transformation x nearest rounding x lengths x scale or size per axis x coefficient x "
                  "exclude_outside x axes x rank x activation x optimisation x type); inputs give every element a different value; non-trivial when the outputs are not all equal")
    dy = [F(1, 2), F(1), F(2), F(4)]
    fr = [F(3, 2), F(5, 2), F(3), F(3, 4), F(7, 10), F(6, 5), F(1, 3)]
    D = lambda L: [(x, y) for x in L for y in L]
    q = union(
        product(mode=("nearest",), coord=COORD, nearest=NEAREST, v=D(dy), H=(2, 3), W=(4,), keep=clear),
        product(mode=("nearest",), coord=COORD, nearest=NEAREST, v=list(zip(fr, fr[1:] + fr[:1])), H=(3, 4), W=(5,), keep=clear),
        product(mode=("nearest",), coord=COORD, nearest=NEAREST, how=("sizes",), v=D((1, 2, 3, 5, 7)), H=(3,), W=(4,), keep=clear),
        product(mode=("nearest",), coord=COORD, nearest=NEAREST, v=[(F(1), F(2)), (F(2), F(1)), (F(3), F(3)), (F(1), F(1, 2))], H=(1, 2), W=(1, 2, 5), keep=clear),
        product(mode=("linear", "cubic"), coord=COORD, v=D(dy[:3]) + list(zip(fr, fr[2:] + fr[:2])), H=(3,), W=(4,), keep=clear),
        product(mode=("linear", "cubic"), coord=COORD, how=("sizes",), v=D((1, 2, 3, 5, 7)), H=(3,), W=(4,), keep=clear),
        product(mode=("linear", "cubic"), coord=COORD, how=("sizes", "scales"), v=[(1, 2), (2, 1), (3, 3), (1, 1)], H=(1, 2), W=(1, 2, 5), C=(1, 3), keep=clear),
        product(mode=("cubic",), coord=COORD, excl=(0, 1), a=(-0.75, -0.5, 0.0, -1.0, -0.12345678), how=("sizes",), v=[(6, 7), (2, 9), (5, 3), (4, 5)], H=(4,), W=(5,), keep=clear),
        product(mode=("nearest", "linear", "cubic"), coord=("half_pixel", "asymmetric"), v=[(2, 2), (1, 2)], act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True), keep=clear),
        product(mode=("nearest", "linear", "cubic"), v=[(2, 2)], how=("sizes", "scales"), rank=(4,), axes=([2, 3], [3, 2], [-1, -2], [-1], [2], [3], [1, 3]), keep=clear),
        product(mode=("nearest", "linear", "cubic"), v=[(2, 4)], how=("sizes", "scales"), rank=(3, 2), axes=(None, [-1], [-2, -1]), W=(2,), H=(2,),
                keep=lambda mode, rank, axes, **k: rank == 2 or mode == "nearest"),
        product(mode=("nearest", "linear", "cubic"), coord=(None,), v=[(2, 2)], how=("sizes", "scales"), opset=(11, 13, 18, 19), omit_mode=(False, True),
                keep=lambda mode, omit_mode, **k: mode == "nearest" or not omit_mode),
        product(mode=("nearest", "linear", "cubic"), coord=("half_pixel", "align_corners", "asymmetric"), v=[(2, 2), (2, 1)], then=("pool", "resize"), opt=(False, True), keep=clear),
        product(mode=("nearest", "linear", "cubic"), coord=COORD, v=[(2, 2), (1, 4)], dtype=("double",), keep=clear),
    )
    if c.thorough:
        sizes = list(itertools.product((1, 2, 3, 4, 5, 6, 7, 8), repeat=2))
        q = union(q, product(mode=("nearest",), coord=COORD, nearest=NEAREST, how=("sizes",), v=sizes, H=(1, 2, 3, 5), W=(4,), C=(1,), keep=clear),
                  product(mode=("linear", "cubic"), coord=COORD, how=("sizes",), v=sizes, H=(1, 2, 3, 5), W=(4,), C=(1,), excl=(0, 1),
                          keep=lambda mode, excl, **k: clear(mode=mode, **k) and (mode == "cubic" or not excl)))
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for ONNX Resize",
                     "nearest-neighbour cases whose source coordinate falls on a rounding boundary only up to float error are left out, the definition not deciding them"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
