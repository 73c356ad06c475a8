"""C04: Gemm, MatMul and Dense layers."""
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import basis, infer, ints

ACT = {"LeakyRelu": {"alpha": 0.25}}


def finish(nodes, inits, shape, act, opt, opset=13, dtype="float", versions=None, tol=None):
    from onnx import TensorProto as T
    out = nodes[-1].output[0]
    if act:
        nodes.append(node(act, [out], ["Z"], **ACT.get(act, {})))
        out = "Z"
    t = {"float": T.FLOAT, "double": T.DOUBLE}[dtype]
    if dtype == "double":
        inits = {k: v.astype(np.float64) for k, v in inits.items()}
    m = infer(onnx_model(nodes, [("X", shape, t)], [(out, (), t)], inits, opset=opset))
    n = int(np.prod(shape))
    X = basis(n)
    if dtype == "double":
        X = X.astype(np.float64) + 2.0 ** -30          # binary32 would lose it
    rtol, atol = tol or ((1e-6, 1e-6) if act in ("Sigmoid", "Tanh") else (0, 0))
    return three_way(m, X, shape, rtol=rtol, atol=atol, gen_kw={"optimization": True} if opt else None, versions=versions)


def case(op="Gemm", M=1, K=3, N=4, tA=0, tB=0, alpha=None, beta=None, bias="N", act=None, opt=False, dtype="float", pre=False, C=1):
    inits, nodes = {}, []
    tol = None
    if op == "Gemm":
        size = max(abs(f) for f in (1 if alpha is None else alpha, 0 if bias is None else 1 if beta is None else beta))
        if np.log2(size) % 1:        # not a power of two: results are rounded
            tol = 4e-7, 4e-7 * size * 30
        inits["W"] = ints((N, K) if tB else (K, N), 7, 3)
        shape = (K, M) if tA else (M, K)
        kw = {k: v for k, v in dict(transA=tA, transB=tB, alpha=alpha, beta=beta).items() if v is not None}
        src = "X"
        if pre:
            nodes.append(node("LeakyRelu", ["X"], ["x"], alpha=2.0))
            src = "x"
        ins = [src, "W"]
        if bias is not None:
            bs = {"N": (N,), "1N": (1, N), "1": (1,), "11": (1, 1), "M1": (M, 1), "MN": (M, N), "s": ()}[bias]
            inits["B"] = ints(bs, 5, 2)
            ins.append("B")
        nodes.append(node("Gemm", ins, ["Y"], **kw))
    elif op == "MatMulAdd":
        shape = (M, K)
        inits["W"], inits["B"] = ints((K, N)), ints((N,), 5, 2)
        nodes += [node("MatMul", ["X", "W"], ["y"]), node("Add", ["y", "B"] if bias == "N" else ["B", "y"], ["Y"])]
    elif op == "MatMulR":            # tensor x constant
        shape = (M, K) if C == 1 else (1, C, M, K)
        inits["W"] = ints((K, N) if bias == "2d" else (1, C, K, N))
        nodes.append(node("MatMul", ["X", "W"], ["Y"]))
    elif op == "MatMulL":            # constant x tensor
        shape = (K, N) if C == 1 else (1, C, K, N)
        inits["W"] = ints((M, K) if bias == "2d" else (1, C, M, K))
        nodes.append(node("MatMul", ["W", "X"], ["Y"]))
    elif op == "MatMulV":            # right operand is a vector
        shape = (M, K)
        inits["W"] = ints((K,))
        nodes.append(node("MatMul", ["X", "W"], ["Y"]))
    elif op == "MatMulT":            # two computed tensors
        shape = (1, C, K, K)
        inits["V"] = ints((1, C, K, K), 3, 1, 7, 3)
        nodes += [node("Mul", ["X", "V"], ["a"]), node("LeakyRelu", ["X"], ["b"], alpha=2.0),
                  node("MatMul", ["a", "b"] if bias == "ab" else ["b", "a"], ["Y"])]
    return finish(nodes, inits, shape, act, opt, dtype=dtype, tol=tol)


BIAS = (None, "N", "1N", "1", "11", "M1", "MN", "s")


def main():
    acx.import_target()
    c = acx.Check("C04", rule="one case = one generated program (layer kind x transposition flags x dimensions x alpha/beta x bias shape x activation), "
                  "run on every unit impulse and dense inputs; non-trivial when the reference outputs are not all equal")
    q = union(
        product(op=("Gemm",), M=(1, 2, 3), K=(1, 3), N=(1, 4), tA=(0, 1), tB=(0, 1), bias=BIAS),
        product(op=("Gemm",), M=(1, 2), tA=(0, 1), tB=(0, 1), alpha=(None, 2.0, 0.5, -1.0), beta=(None, 2.0, 0.5, 0.0), bias=("N", None, "M1")),
        product(op=("Gemm",), M=(1, 2), tA=(0, 1), tB=(0, 1), act=("Relu", "LeakyRelu", "Sigmoid", "Tanh"), opt=(False, True), alpha=(None, 2.0), pre=(False, True)),
        product(op=("Gemm",), tA=(0, 1), tB=(0, 1), alpha=(0.1, 1.2345678, 1.2345678e-7, -12345678.0, 1e20), bias=(None,), dtype=("float", "double")),
        product(op=("Gemm",), tA=(0, 1), tB=(0, 1), alpha=(1.2345678e-7, -2345.6789), beta=(1.2345678e-7, -2345.6789), bias=("N", "11"), dtype=("float", "double")),
        product(op=("MatMulAdd",), M=(1, 2), K=(1, 3), N=(1, 4), bias=("N", "rev"), act=(None, "Relu", "LeakyRelu"), opt=(False, True)),
        product(op=("MatMulR", "MatMulL"), M=(1, 2, 3), K=(1, 2, 3), N=(1, 2, 4), bias=("2d", "4d"), C=(1, 2, 3)),
        product(op=("MatMulR", "MatMulL"), M=(2,), act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True), bias=("4d",), C=(1, 2)),
        product(op=("MatMulV",), M=(1, 2), K=(1, 3)),
        product(op=("MatMulT",), K=(1, 2, 3), C=(1, 2), bias=("ab", "ba"), act=(None, "Relu"), opt=(False, True)),
        product(op=("Gemm", "MatMulR"), dtype=("double",), M=(1, 2), tA=(0, 1), tB=(0, 1), bias=("N", "2d"),
                keep=lambda op, bias, tA, tB, **k: (op == "Gemm") == (bias == "N") and (op == "Gemm" or not (tA or tB))),
    )
    if c.thorough:
        q = union(q,
                  product(op=("Gemm",), M=(1, 2, 4), K=(1, 2, 5), N=(1, 2, 5), tA=(0, 1), tB=(0, 1), alpha=(None, 2.0, -0.5), beta=(None, 2.0, 0.0), bias=BIAS),
                  product(op=("MatMulR", "MatMulL"), M=(1, 2, 4), K=(1, 2, 5), N=(1, 3, 5), bias=("2d", "4d"), C=(1, 2, 4), act=(None, "Relu", "LeakyRelu"), opt=(False, True)))
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for Gemm and MatMul"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
