"""C06: Pad layers (constant, edge, reflect, wrap)."""
import itertools
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import infer, ints


def case(mode="constant", pads=(0, 0, 0, 0, 0, 0), C=2, H=3, W=4, value=0.0, act=None, opt=False, axes=None, opset=19, rank=4, then=None, omit=False, dtype="float"):
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    shape = (1, C, H, W) if rank == 4 else (1, W)
    n = int(np.prod(shape))
    if axes is None:
        full = [0, *pads[:3], 0, *pads[3:]] if rank == 4 else [0, pads[2], 0, pads[5]]
    else:
        full = [pads[(a % 4) - 1] for a in axes] + [pads[(a % 4) + 2] for a in axes]
    inits = {"P": np.array(full, np.int64)}
    ins = ["X", "P"]
    if not omit:
        inits["v"] = np.array(value, nt)
        ins.append("v")
    elif axes is not None:
        ins.append("")
    if axes is not None:
        inits["ax"] = np.array(axes, np.int64)
        ins.append("ax")
    nodes = [node("Pad", ins, ["Y"], **({"mode": mode} if mode else {}))]
    out = "Y"
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
        out = "Z"
    if then == "conv":
        oc = C + pads[0] + pads[3]
        inits["w"] = ints((2, oc, 2, 2), 5, 1, 7, 3).astype(nt)
        nodes.append(node("Conv", [out, "w"], ["K"], kernel_shape=[2, 2], strides=[1, 1]))
        out = "K"
    m = infer(onnx_model(nodes, [("X", shape, t)], [(out, (), t)], inits, opset=opset))
    X = np.stack([np.arange(n) + 1, (np.arange(n) * 7) % 31 - 15, -np.arange(n) - 1]).astype(nt).reshape(-1, 1, n)
    if dtype == "double":
        X = X + 2.0 ** -30
    tol = 1e-6 if act == "Sigmoid" else 0
    return three_way(m, X, shape, rtol=tol, atol=tol, gen_kw={"optimization": True} if opt else None)


def legal(mode="constant", pads=(0,) * 6, C=2, H=3, W=4, rank=4, **_):
    d = (C, H, W)
    if mode == "reflect":          # ONNX/numpy: defined for pads of at most size-1
        return all(pads[i] < d[i] and pads[i + 3] < d[i] for i in range(3))
    if mode == "wrap":             # onnxruntime refuses wrapping more than once
        return all(pads[i] <= d[i] and pads[i + 3] <= d[i] for i in range(3))
    return True


def main():
    acx.import_target()
    c = acx.Check("C06", rule="one case = one generated program (mode x pads on both sides of every axis x shape x constant x activation x optimisation); inputs give "
                  "every element a different value, so the output identifies the source of each element; non-trivial when the outputs are not all equal")
    M = ("constant", "edge", "reflect", "wrap")
    P = [p for p in itertools.product((0, 1, 2), repeat=4)]
    sp = [(0, a, b, 0, e, d) for a, b, e, d in P]                                   # every spatial combination
    ch = [(a, 0, b, d, e, 0) for a, b, d, e in itertools.product((0, 1, 2), repeat=4)]
    q = union(
        product(mode=M, pads=sp, keep=legal),
        product(mode=M, pads=ch, C=(3,), keep=legal),
        product(mode=M, pads=[(0, a, b, 0, d, e) for a, b, d, e in itertools.product((0, 1), repeat=4)], C=(1, 2), H=(1, 2), W=(1, 2, 3), keep=legal),
        product(mode=M, pads=[(0, 0, 0, 0, 0, 0), (0, 3, 1, 0, 2, 4), (2, 0, 3, 1, 4, 0), (0, 5, 0, 0, 0, 7)], C=(3,), H=(5, 9), W=(5, 8), keep=legal),
        product(mode=("constant",), pads=[(0, 1, 1, 0, 1, 1), (1, 0, 2, 0, 3, 1)], value=(0.0, 1.5, -3.0, 0.1, 1e-7, 1e10, float("inf"), float("-inf")), dtype=("float", "double")),
        product(mode=M, pads=[(0, 1, 2, 0, 1, 2), (1, 0, 1, 1, 2, 1)], C=(2,), H=(3,), W=(4,), act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True), value=(2.0,), keep=legal),
        product(mode=M, pads=[(0, 1, 2, 0, 1, 1), (1, 0, 1, 1, 2, 1)], then=("conv",), value=(3.0,), keep=legal),
        product(mode=M, pads=[(1, 1, 2, 1, 2, 1), (0, 2, 1, 0, 1, 2)], axes=([2, 3], [3, 2], [-1], [-2, -1], [1, 2, 3], [1], [-3, 3]), value=(3.0,), omit=(False, True), C=(3,), keep=legal),
        product(mode=M + (None,), pads=[(0, 1, 2, 0, 2, 1)], omit=(True,), opset=(13, 18, 19), keep=lambda mode, opset, **k: mode != "wrap" or opset == 19),
        product(mode=M, pads=[(0, 0, a, 0, 0, b) for a in (0, 1, 3) for b in (0, 2)], rank=(2,), W=(4,), value=(3.0,), keep=legal),
        product(mode=M, pads=[(0, 1, 2, 0, 2, 1)], dtype=("double",), value=(0.5,), keep=legal),
    )
    # remove combinations where axes hides an illegal pad is harmless: all pads above are legal on every axis
    if c.thorough:
        A = list(itertools.product((0, 1, 2), repeat=6))
        q = union(q, product(mode=M, pads=A, C=(2, 3), H=(3,), W=(3,), keep=legal))
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for ONNX Pad"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
