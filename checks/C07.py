"""C07: reductions, softmax and batch normalisation."""
import itertools
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import basis, infer, ints

POW = np.array([1, -2, 4, -1, 2, 0.5, -4, -0.5, 8, -8], np.float32)


def case(op="ReduceSum", axes=None, keep=1, C=2, H=3, W=4, act=None, opt=False, opset=13, rank=4, noop=None, axis=None, scale=1.0, pre=False, then=None, eps=None, dtype="float", var=None):
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    shape = {4: (1, C, H, W), 3: (1, C, W), 2: (1, W)}[rank]
    n = int(np.prod(shape))
    inits, nodes, a, tol = {}, [], "X", 0
    if pre:
        nodes.append(node("LeakyRelu", ["X"], ["x"], alpha=2.0))
        a = "x"
    if op.startswith("Reduce"):
        kw, ins = {"keepdims": keep} if keep is not None else {}, [a]
        if opset >= (13 if op == "ReduceSum" else 18):
            if axes is not None:
                inits["A"] = np.array(axes, np.int64)
                ins.append("A")
            if noop is not None:
                kw["noop_with_empty_axes"] = noop
        elif axes is not None:
            kw["axes"] = list(axes)
        nodes.append(node(op, ins, ["Y"], **kw))
        if op == "ReduceProd":         # signed powers of two: every product is exact
            X = np.stack([POW[(np.arange(n) * p + q) % len(POW)] for p in (1, 3, 7) for q in (0, 4)] + [np.ones(n)]).reshape(-1, 1, n)
        else:
            X = basis(n)[1:]
            X = np.concatenate([X, -X])
            if op == "ReduceMean":
                tol = 1e-6
    elif op == "Softmax":
        nodes.append(node("Softmax", [a], ["Y"], **({} if axis is None else {"axis": axis})))
        X = basis(n)
        X = np.concatenate([X, -3 * X]) * scale
        tol = 1e-6
    elif op == "BatchNormalization":
        for i, k in enumerate(("s", "b", "m")):
            inits[k] = ints((C,), 5, i, 9, 4).astype(nt)
        inits["v"] = (np.arange(C) % 4 + 0.5).astype(nt) ** 2
        if var is not None:                          # so small (or zero) that epsilon decides, or large
            inits["v"] = (inits["v"] * var).astype(nt)
            inits["m"] = inits["m"] * 0              # no cancellation: errors stay relative
        nodes.append(node(op, [a, "s", "b", "m", "v"], ["Y"], **({} if eps is None else {"epsilon": eps})))
        X = basis(n)
        tol = 2e-6
    out = "Y"
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
        out = "Z"
        tol = tol or (1e-6 if act == "Sigmoid" else 0)
    if then == "conv":
        nodes.append(node("Add", ["X", out], ["K"]))
        out = "K"
    m = infer(onnx_model(nodes, [("X", shape, t)], [(out, (), t)], inits, opset=opset))
    X = X.astype(nt)
    want = X.reshape(len(X), -1) if noop == 1 and axes is None else None      # this onnxruntime rejects noop_with_empty_axes
    if want is not None and act:
        want = {"Relu": lambda v: np.maximum(v, 0), "LeakyRelu": lambda v: np.where(v < 0, v * nt(0.25), v), "Sigmoid": lambda v: (1 / (1 + np.exp(-v.astype(np.float64)))).astype(nt)}[act](want)
    return three_way(m, X, shape, want=want, rtol=tol, atol=tol * 10 if op == "BatchNormalization" else tol, gen_kw={"optimization": True} if opt else None)


RED = ("ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd")


def main():
    acx.import_target()
    c = acx.Check("C07", rule="one case = one generated program (operator x reduced axes x keepdims x opset x shape x activation x optimisation), run on every "
                  "unit impulse of either sign or on signed powers of two; non-trivial when the reference outputs are not all equal")
    subsets = [list(s) for k in (1, 2, 3) for s in itertools.combinations((1, 2, 3), k)]
    dims = dict(C=(1, 2, 3), H=(1, 3), W=(1, 4))
    sm = dict(C=(1, 2, 3), H=(1, 3), W=(1, 4))
    q = union(
        product(op=RED, axes=subsets, keep_dims=(0, 1), **dims),
        product(op=RED, axes=(None, [1], [2, 3], [1, 2, 3], [-1], [-2, -3], [3, 1], [0, 1], [0, 1, 2, 3]), keep_dims=(None, 0, 1), opset=(11, 13, 18)),
        product(op=RED, opset=(18,), noop_=(0, 1), act=(None, "Relu", "LeakyRelu", "Sigmoid"), opt=(False, True)),
        product(op=RED, axes=subsets, act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True)),
        product(op=RED, axes=subsets, pre=(True,), then=("conv",)),
        product(op=RED, axes=([1], [-1]), rank=(2, 3), keep_dims=(0, 1)),
        product(op=("ReduceMean", "ReduceMax", "ReduceSum"), axes=subsets, dtype=("double",)),
        product(op=("Softmax",), axis=(1, 2, 3, -1, -2, -3), **sm),
        product(op=("Softmax",), axis=(None, 1, 2, 3), opset=(11, 12, 13), C=(1, 2), H=(1, 3), W=(1, 4)),
        product(op=("Softmax",), axis=(None, 1, -1), rank=(2,), W=(1, 2, 7), opset=(11, 13), pre=(False, True)),
        product(op=("Softmax",), axis=(None, 1, 2, -1, -2), rank=(3,), opset=(13,)),
        product(op=("Softmax",), axis=(1, 2, 3), scale=(10.0, 1000.0), act=(None, "LeakyRelu"), opt=(False, True)),
        product(op=("Softmax",), rank=(2,), W=(5,), scale=(10.0, 1000.0, 1e6)),
        product(op=("Softmax",), rank=(2, 4), W=(5,), dtype=("double",)),
        product(op=("BatchNormalization",), **dims, eps=(None, 0.001, 0.5)),
        product(op=("BatchNormalization",), act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True), pre=(False, True)),
        product(op=("BatchNormalization",), dtype=("double",), eps=(None, 0.25)),
        product(op=("BatchNormalization",), var=(0, 1e-9, 1e-6, 1e-3, 1e9), eps=(None, 3e-7, 1.2345678e-4, 1e-12, 12.5), dtype=("float", "double"), opt=(False, True)),
        product(op=("BatchNormalization",), var=(1e-6, 1), eps=(0.0,)),
    )
    q = [(cid, {{"keep_dims": "keep", "noop_": "noop"}.get(k, k): v for k, v in p.items()}) for cid, p in q]
    if c.thorough:
        d2 = dict(C=(1, 2, 3, 5), H=(1, 2, 3), W=(1, 2, 4))
        q += [("T," + cid, p) for cid, p in product(op=RED, axes=subsets, **d2) + product(op=("Softmax",), axis=(1, 2, 3), **d2) + product(op=("BatchNormalization",), **d2)]
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for the ONNX operators; exponentials and square roots are compared to a relative tolerance of 1e-6"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
