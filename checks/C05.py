"""C05: layers that move data (Concat, Gather, GatherElements, Transpose, Tile, shape-only operators)."""
import itertools
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import infer, ints

AXES = (1, 2, 3, -1, -2, -3)


def case(op="Concat", axis=None, C=2, H=3, W=4, act=None, opt=False, idx=None, sizes=None, perm=None, reps=None, rank=4, tail=None, variant=None, opset=13):
    shape = {4: (1, C, H, W), 3: (1, C, W), 2: (1, W)}[rank]
    n = int(np.prod(shape))
    nodes, inits = [], {}
    if op == "Concat":
        names = []
        for i, s in enumerate(sizes):          # operand i: s planes taken along the axis, scaled by a distinct factor
            f = f"k{i}"
            inits[f] = np.array((-2.0) ** (i + 1), np.float32)
            d = shape[axis]
            if s == d:
                nodes.append(node("Mul", ["X", f], [f"a{i}"]))
            else:
                inits[f"g{i}"] = (np.arange(s) * 2 + i).astype(np.int64) % d
                nodes.append(node("Gather", ["X", f"g{i}"], [f"t{i}"], axis=axis))
                nodes.append(node("Mul", [f"t{i}", f], [f"a{i}"]))
            names.append(f"a{i}")
        if variant == "same":                  # the same tensor several times
            names = [names[0]] * len(names)
        if variant == "input":                 # the graph input itself is an operand
            names[0] = "X"; nodes = [k for k in nodes if k.output[0] != "a0"]
        nodes.append(node("Concat", names, ["Y"], axis=axis))
    elif op == "Gather":
        inits["I"] = np.array(idx, np.int64 if variant != "i32" else np.int32)
        nodes.append(node("Gather", ["X", "I"], ["Y"], **({} if axis is None else {"axis": axis})))
    elif op == "GatherElements":
        s = list(shape)
        d = shape[axis]
        s[axis] = sizes
        ind = (np.arange(int(np.prod(s))) * 5 // 2 + np.arange(int(np.prod(s))) ** 2) % d
        if variant == "neg":
            ind = np.where(np.arange(ind.size) % 3 == 0, ind - d, ind)
        inits["I"] = ind.reshape(s).astype(np.int64)
        nodes.append(node("GatherElements", ["X", "I"], ["Y"], axis=axis))
    elif op == "Transpose":
        nodes.append(node("Transpose", ["X"], ["Y"], **({} if perm is None else {"perm": list(perm)})))
    elif op == "Tile":
        inits["R"] = np.array(reps, np.int64)
        nodes.append(node("Tile", ["X", "R"], ["Y"]))
    elif op == "shape":
        a = "X"
        for i, t in enumerate(variant.split("+")):
            b = f"s{i}"
            if t == "flat":
                nodes.append(node("Flatten", [a], [b], axis=1))
            elif t == "reshape2":
                inits[f"r{i}"] = np.array([1, n], np.int64)
                nodes.append(node("Reshape", [a, f"r{i}"], [b]))
            elif t == "reshape4":
                inits[f"r{i}"] = np.array([1, H, C, W], np.int64)
                nodes.append(node("Reshape", [a, f"r{i}"], [b]))
            elif t == "drop":
                nodes.append(node("Dropout", [a], [b]))
            elif t == "relu":
                nodes.append(node("Relu", [a], [b]))
            elif t == "leaky":
                nodes.append(node("LeakyRelu", [a], [b], alpha=2.0))
            elif t == "gemm":
                inits[f"w{i}"] = ints((n, 3), 5, 1, 11, 5)
                nodes.append(node("Gemm", [a, f"w{i}"], [b]))
            elif t == "conv":
                inits[f"w{i}"] = ints((2, H, 1, 1), 5, 1, 11, 5)
                nodes.append(node("Conv", [a, f"w{i}"], [b], kernel_shape=[1, 1], strides=[1, 1]))
            elif t == "addprev":               # the tensor before the shape-only operator has a second user
                nodes.append(node("Add", [a, a0], [b]))
            a0, a = a, b
        nodes[-1].output[0] = "Y"
    out = "Y"
    if tail == "conv":                         # consumer that mixes every element: exposes layout confusion
        pass
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
        out = "Z"
    m = infer(onnx_model(nodes, [("X", shape)], [(out, ())], inits, opset=opset))
    X = np.stack([np.arange(n) - n // 2, (np.arange(n) * 7) % 31 - 15, np.ones(n)]).astype(np.float32).reshape(-1, 1, n)
    tol = 1e-6 if act == "Sigmoid" else 0
    return three_way(m, X, shape, rtol=tol, atol=tol, gen_kw={"optimization": True} if opt else None)


def main():
    acx.import_target()
    c = acx.Check("C05", rule="one case = one generated program (operator x axis x operand sizes/indices/permutation/repeats x shape x activation x "
                  "optimisation); inputs give every element a different value, so the outputs identify the source of each; non-trivial when the outputs are not all equal")
    dims = dict(C=(1, 2, 3), H=(1, 3), W=(2, 4))
    lists = ([0], [1, 0], [0, 0, 1], [-1], [1, -2, 0, 1])
    acts = (None, "Relu", "LeakyRelu", "Sigmoid")
    perms = [(0, *p) for p in itertools.permutations((1, 2, 3))]
    ok = lambda idx, axis, C=2, H=3, W=4, **_: all(-d <= i < d for i in idx for d in [(1, C, H, W)[axis]])
    okc = lambda sizes, axis, C=2, H=3, W=4, **_: True
    q = union(
        product(op=("Concat",), axis=AXES, sizes=([1, 2], [2, 1], [1], [2, 3], [3, 4, 1], [1, 1, 1, 2]), **dims, keep=okc),
        product(op=("Concat",), axis=(1, 2, 3), sizes=([2, 2], [2, 2, 2], [2, 1]), variant=("same", None), C=(2,), H=(2,), W=(2,), act=acts, opt=(False, True)),
        product(op=("Concat",), axis=(1, 2, 3), sizes=([2, 2], [2, 1, 3]), variant=("input",), C=(2,), H=(2,), W=(2,)),
        product(op=("Concat",), axis=(1, -1), sizes=([3, 3], [3, 1]), rank=(2,), W=(3,)),
        product(op=("Gather",), axis=AXES, idx=lists, **dims, keep=ok),
        product(op=("Gather",), axis=(1, 2, 3), idx=([1, -2, 0, 1],), C=(2,), H=(3,), W=(4,), act=acts, opt=(False, True), variant=(None, "i32")),
        product(op=("Gather",), axis=(1, -1), idx=([2, 0], [1], [-1, -3, 1, 2]), rank=(2,), W=(3,)),
        product(op=("GatherElements",), axis=AXES, sizes=(1, 2, 5), variant=(None, "neg"), **dims),
        product(op=("GatherElements",), axis=(1, 2, 3), sizes=(2,), act=acts, opt=(False, True)),
        product(op=("Transpose",), perm=perms, C=(1, 2, 3), H=(1, 3, 4), W=(1, 2, 5)),
        product(op=("Transpose",), perm=perms, act=acts, opt=(False, True)),
        product(op=("Tile",), reps=[(1, a, b, d) for a in (1, 2, 3) for b in (1, 2) for d in (1, 3)], **dims),
        product(op=("Tile",), reps=((1, 2, 1, 2),), act=acts, opt=(False, True)),
        product(op=("Tile",), reps=((1, 3),), rank=(2,), W=(3,)),
        product(op=("shape",), variant=("flat", "relu+flat", "flat+gemm", "relu+reshape2+gemm", "reshape4+conv", "leaky+reshape4+conv+relu", "drop+relu", "leaky+drop+flat+gemm",
                                        "leaky+drop+addprev", "leaky+drop+addprev+drop+addprev", "drop+addprev"), **dims, opt=(False, True)),
    )
    if c.thorough:
        d2 = dict(C=(1, 2, 3, 4), H=(1, 2, 3), W=(1, 2, 3, 4))
        q = union(q, product(op=("Transpose",), perm=perms, **d2), product(op=("Tile",), reps=[(1, a, b, d) for a in (1, 2, 3) for b in (1, 2, 3) for d in (1, 2, 3)], **d2),
                  product(op=("GatherElements",), axis=AXES, sizes=(1, 2, 3, 4, 5, 6), variant=(None, "neg"), **d2),
                  product(op=("Gather",), axis=AXES, idx=[list(t) for k in (1, 2, 3) for t in itertools.product((0, 1, -1, -2), repeat=k)], C=(2,), H=(3,), W=(2, 4)),
                  product(op=("Concat",), axis=(1, 2, 3), sizes=[list(t) for k in (1, 2, 3) for t in itertools.product((1, 2, 3), repeat=k)], **dims))
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for the ONNX data-movement operators"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
