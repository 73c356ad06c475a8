"""C03: element-wise operators with numpy broadcasting."""
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import infer, ints

POW = np.array([1, -2, 4, -1, 2, 8, -4, 0.5, -8, 16], np.float32)


def pow2(shape, a=3, b=1):
    n = int(np.prod(shape)) if len(shape) else 1
    return POW[(np.arange(n) * a + b) % len(POW)].reshape(shape)


def operand(kind, name, nodes, inits, C, H, W, i):
    """Adds what produces operand `name`; kinds: X, T (full tensor), r<axes> (reduced tensor), c<shape> (initializer)."""
    if kind == "X":
        return "X"
    if kind == "T":
        if C is None:          # (1, N) tensors
            inits[f"V{i}"] = np.eye(W, dtype=np.float32)[np.roll(np.arange(W), i + 1)] * (2 ** i)
            nodes.append(node("MatMul", ["X", f"V{i}"], [name]))
        else:
            inits[f"V{i}"] = (np.eye(C, dtype=np.float32)[np.roll(np.arange(C), i + 1)] * (-2.0) ** i).reshape(C, C, 1, 1)
            nodes.append(node("Conv", ["X", f"V{i}"], [name], kernel_shape=[1, 1], strides=[1, 1]))
        return name
    if kind[0] == "r":
        axes = [int(ch) for ch in kind[1:]]
        nodes.append(node("ReduceMax" if i % 2 else "ReduceMin", ["X"], [name], axes=axes, keepdims=1))
        return name
    shape = tuple({"1": 1, "C": C, "H": H, "W": W}[ch] for ch in kind[1:])
    inits[name] = pow2(shape, 3, i)
    return name


def case(op="Add", kinds=("T", "T"), C=3, H=2, W=4, act=None, opt=False, opset=13):
    nodes, inits = [], {}
    names = [operand(k, f"o{i}", nodes, inits, C, H, W, i) for i, k in enumerate(kinds)]
    nodes.append(node(op, names, ["Y"]))
    out = "Y"
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
        out = "Z"
    shape = (1, W) if C is None else (1, C, H, W)
    m = infer(onnx_model(nodes, [("X", shape)], [(out, ())], inits, opset=opset))
    n = int(np.prod(shape))
    X = np.stack([POW[(np.arange(n) * a + b) % len(POW)] for a in (1, 3, 7, 9) for b in (0, 3, 6)] + [np.ones(n), -np.ones(n)]).astype(np.float32)
    X = X.reshape(-1, 1, n)
    tol = 1e-6 if op in ("Div", "Mean") or act == "Sigmoid" else 0
    return three_way(m, X, shape, rtol=tol, atol=tol, gen_kw={"optimization": True} if opt else None)


OPS = ("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean")
CONST = ("c", "c1", "cW", "cHW", "cH1", "cC11", "cCHW", "c1CHW", "c1C11", "c111W", "c1111", "c11HW", "cC1W")
RED = ("r1", "r2", "r3", "r12", "r13", "r23", "r123")


def main():
    acx.import_target()
    c = acx.Check("C03", rule="one case = one generated program (operator x kind and shape of every operand x operand order x following activation), "
                  "executed on 14 signed power-of-two inputs; non-trivial when the reference outputs are not all equal")
    tensors = ("X", "T") + RED
    q = union(
        product(op=OPS, kinds=[(a, b) for a in tensors for b in tensors if (a, b) != ("X", "X")] + [("X", "X"), ("T", "T")]),
        product(op=("Add", "Sub", "Mul", "Div"), kinds=[(a, b) for b in CONST for a in ("X", "T", "r2", "r23")] +
                [(b, a) for b in CONST for a in ("X", "T", "r2", "r23")]),
        product(op=("Max", "Min", "Mean"), kinds=[(a, b, d) for a in ("X", "T", "r23") for b in ("T", "r1") for d in ("X", "T", "r3", "r123")]),
        product(op=OPS, kinds=(("T", "T"), ("T", "r23"), ("r1", "T"), ("T", "cC11"), ("T", "c")), act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True)),
        product(op=("Max", "Min", "Mean"), kinds=[(a, b) for b in CONST for a in ("X", "T", "r23")] + [(b, a) for b in CONST for a in ("X", "T", "r23")]
                + [("T", "c", "cW"), ("c1", "r1", "cC11"), ("T",), ("r2",)]),
        product(op=OPS, C=(None,), H=(None,), W=(1, 5), kinds=(("X", "T"), ("T", "X"), ("T", "T"))),
        product(op=("Add", "Sub", "Mul", "Div"), C=(None,), H=(None,), W=(1, 5), kinds=(("T", "cW"), ("T", "c"), ("T", "c1W"), ("cW", "T"), ("X", "c1"))),
        product(op=OPS, C=(1, 2), H=(1, 3), W=(1, 2), kinds=(("T", "X"), ("T", "r1"), ("r23", "T"))),
    )
    if c.thorough:
        q = union(q, product(op=OPS, kinds=[(a, b) for a in tensors for b in tensors], C=(1, 2, 4), H=(1, 3), W=(1, 2)),
                  product(op=OPS, kinds=[(a, b) for b in CONST for a in tensors] + [(b, a) for b in CONST for a in tensors], C=(1, 2), H=(3,), W=(1, 2)))
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for the ONNX element-wise operators"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
