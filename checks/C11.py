"""C11: generating with optimisations keeps the function of the network.

Part 1 explores every graph of up to n nodes over the node kinds the fusions look at (convolution, normalisation, matrix product, constant addition, sigmoid, product,
activations) with optimization=True, executing the rewritten schedule over its buffers; one program per distinct allocation is compiled. Part 2 crosses every producer of the
importer with every activation and every consumer pattern, and compares the compiled program, with and without the option, with onnxruntime."""
import itertools
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from C10 import graph_cases, model_case
from graphs import HELP, graphs, replay, txt
from models import infer, ints

ALGOS = ("6loops", "indirect_gemm_nn", "indirect_gemm_tn", "indirect_gemm_nt", "indirect_gemm_tt", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt")
C, H, Wd = 2, 3, 4


def producer(kind, I):
    """-> nodes computing 'y' from 'X', input shape."""
    s4 = (1, C, H, Wd)
    n = lambda op, *ins, **kw: [node(op, list(ins), ["y"], **kw)]
    if kind == "conv":
        I["w"], I["b"] = ints((3, C, 2, 2), 5, 1, 7, 3), ints((3,), 3, 2, 5, 2)
        return n("Conv", "X", "w", "b", kernel_shape=[2, 2], strides=[1, 1]), s4
    if kind == "convbn":
        I["w"], I["b"] = ints((3, C, 2, 2), 5, 1, 7, 3), ints((3,), 3, 2, 5, 2)
        I["s"], I["bb"], I["m"], I["v"] = (np.array(a, np.float32) for a in ([1, -2, .5], [0, 3, -1], [1, 0, -2], [1, 4, .25]))
        return [node("Conv", ["X", "w", "b"], ["u"], kernel_shape=[2, 2], strides=[1, 1]), node("BatchNormalization", ["u", "s", "bb", "m", "v"], ["y"], epsilon=1e-3)], s4
    if kind == "bn":
        I["s"], I["bb"], I["m"], I["v"] = (np.array(a, np.float32) for a in ([1, -2], [0, 3], [1, 0], [1, 4]))
        return n("BatchNormalization", "X", "s", "bb", "m", "v", epsilon=0.0), s4
    if kind in ("gemm", "gemmT", "gemmnb"):
        I["w"], I["b"] = ints((5, 3) if kind == "gemmT" else (3, 5), 5, 1, 7, 3), ints((5,), 3, 2, 5, 2)
        return n("Gemm", "X", "w", *(["b"] if kind != "gemmnb" else []), transB=int(kind == "gemmT"), alpha=1.0), (1, 3)
    if kind.startswith("mm"):      # MatMul, then an addition of constants of several shapes
        I["w"] = ints((3, 5), 5, 1, 7, 3)
        shp = {"mm0": None, "mm1": (5,), "mm2": (1, 5), "mm3": (), "mm4": (1,), "mm5": (1, 1)}[kind[:3]]
        if shp is None:
            return n("MatMul", "X", "w"), (1, 3)
        I["b"] = ints(shp or (1,), 3, 2, 5, 2).reshape(shp)
        return [node("MatMul", ["X", "w"], ["u"]), node("Add", ["b", "u"] if kind.endswith("r") else ["u", "b"], ["y"])], (1, 3)
    if kind in ("vm", "vmadd"):    # constant x vector
        I["w"] = ints((1, 1, 5, 3), 5, 1, 7, 3)
        if kind == "vm":
            return n("MatMul", "w", "X"), (1, 1, 3, 1)
        I["b"] = ints((1, 1, 5, 1), 3, 2, 5, 2)
        return [node("MatMul", ["w", "X"], ["u"]), node("Add", ["u", "b"], ["y"])], (1, 1, 3, 1)
    if kind == "mm4d":
        I["w"] = ints((1, 1, Wd, 5), 5, 1, 7, 3)
        I["b"] = ints((5,), 3, 2, 5, 2)
        return [node("MatMul", ["X", "w"], ["u"]), node("Add", ["u", "b"], ["y"])], (1, 1, 3, Wd)
    if kind == "maxpool":
        return n("MaxPool", "X", kernel_shape=[2, 2], strides=[1, 1]), s4
    if kind == "avgpool":
        return n("AveragePool", "X", kernel_shape=[2, 2], strides=[1, 1]), s4
    if kind == "gap":
        return n("GlobalAveragePool", "X"), (1, C, 3, 3)
    if kind in ("Add", "Mul", "Sub", "Div", "Max", "Min"):
        I["k"] = ints((1, C, 1, Wd), 3, 1, 5, 2) + np.float32(.5)
        return n(kind, "X", "k"), s4
    if kind in ("radd", "rsub", "rdiv"):
        I["k"] = ints((1, C, 1, Wd), 3, 1, 5, 2) + np.float32(.5)
        return n({"a": "Add", "s": "Sub", "d": "Div"}[kind[1]], "k", "X"), s4
    if kind == "xadd":
        return [node("Transpose", ["X"], ["t"], perm=[0, 1, 3, 2]), node("Add", ["X", "t"], ["y"])], (1, C, 3, 3)
    if kind == "xmax":
        return [node("Transpose", ["X"], ["t"], perm=[0, 1, 3, 2]), node("Max", ["X", "t"], ["y"])], (1, C, 3, 3)
    if kind == "xmean":
        return [node("Transpose", ["X"], ["t"], perm=[0, 1, 3, 2]), node("Mean", ["X", "t"], ["y"])], (1, C, 3, 3)
    if kind == "concat":
        return [node("Transpose", ["X"], ["t"], perm=[0, 1, 3, 2]), node("Concat", ["X", "t"], ["y"], axis=1)], (1, C, 3, 3)
    if kind == "gather":
        I["i"] = np.array([2, 0, 1, 2], np.int64)
        return n("Gather", "X", "i", axis=2), s4
    if kind == "gathere":
        I["i"] = (np.arange(C * 2 * Wd).reshape(1, C, 2, Wd) % 3).astype(np.int64)
        return n("GatherElements", "X", "i", axis=2), s4
    if kind.startswith("Reduce"):
        if kind == "ReduceSum":
            I["ax"] = np.array([2], np.int64)
            return n(kind, "X", "ax", keepdims=1), s4
        return n(kind, "X", axes=[2], keepdims=1), s4
    if kind == "pad":
        I["p"] = np.array([0, 0, 1, 0, 0, 0, 1, 2], np.int64)
        I["pv"] = np.array(-2.0, np.float32)
        return n("Pad", "X", "p", "pv", mode="constant"), s4
    if kind in ("padedge", "padreflect"):
        I["p"] = np.array([0, 0, 1, 0, 0, 0, 1, 2], np.int64)
        return n("Pad", "X", "p", mode=kind[3:]), s4
    if kind == "tile":
        I["r"] = np.array([1, 2, 1, 2], np.int64)
        return n("Tile", "X", "r"), s4
    if kind == "transpose":
        return n("Transpose", "X", perm=[0, 3, 1, 2]), s4
    if kind.startswith("resize"):
        I["roi"], I["sc"] = np.zeros(0, np.float32), np.array([1, 1, 2, 2], np.float32)
        return n("Resize", "X", "roi", "sc", mode=kind[6:], coordinate_transformation_mode="half_pixel"), s4
    if kind == "softmax":
        return n("Softmax", "X", axis=1), (1, 5)
    if kind == "flatten":
        return n("Flatten", "X"), s4
    if kind == "input":
        return n("Identity", "X"), s4
    if kind == "relu":
        return n("Relu", "X"), s4
    raise KeyError(kind)


PROD = ("conv", "convbn", "bn", "gemm", "gemmT", "gemmnb", "mm0", "mm1", "mm2", "mm3", "mm4", "mm5", "mm1r", "vm", "vmadd", "mm4d", "maxpool", "avgpool", "gap", "Add", "Mul", "Sub",
        "Div", "Max", "Min", "radd", "rsub", "rdiv", "xadd", "xmax", "xmean", "concat", "gather", "gathere", "ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd",
        "pad", "padedge", "padreflect", "tile", "transpose", "resizenearest", "resizelinear", "resizecubic", "softmax", "flatten", "relu")
ACTS = ("Relu", "LeakyRelu", "Sigmoid", "Tanh", "Exp", "Clip", "Silu", "None")
TAILS = ("end", "next", "both", "twice", "act2", "prodnext")


def act_node(act, a, b, I):
    if act == "Silu":
        return [node("Sigmoid", [a], [b + "s"]), node("Mul", [a, b + "s"], [b])]
    if act == "LeakyRelu":
        return [node(act, [a], [b], alpha=0.25)]
    if act == "Clip":
        I["lo"], I["hi"] = np.array(-1.5, np.float32), np.array(2.5, np.float32)
        return [node(act, [a, "lo", "hi"], [b])]
    return [node(act, [a], [b])]


def case(kind, **kw):
    if kind == "model":
        return model_case(**kw)
    if kind == "run":
        return replay(kw["g"], True)
    return layer_case(**kw)


def layer_case(opt=True, algo=None, **kw):
    m, X, shp = layer_model(**kw)
    return three_way(m, X, shp, rtol=2e-5, atol=2e-5, gen_kw={"optimization": True} if opt else None, versions={"Conv2D": algo} if algo else None)


def layer_model(prod, act, tail, dtype="float"):
    """The model, its inputs and the shape of one."""
    I = {}
    nodes, shp = producer(prod, I)
    out = "y"
    if act != "None":
        nodes += act_node(act, "y", "z", I)
        out = "z"
    if tail == "next":            # a consumer with another operand
        I["mu"] = np.array(-2.0, np.float32)
        nodes.append(node("Mul", [out, "mu"], ["o"]))
        out = "o"
    elif tail == "both":          # the result before the activation is needed as well
        nodes.append(node("Sub", [out, "y"], ["o"]))
        out = "o"
    elif tail == "twice":         # two consumers of the activation
        nodes += [node("Tanh", [out], ["o1"]), node("LeakyRelu", [out], ["o2"], alpha=2.0), node("Sub", ["o1", "o2"], ["o"])]
        out = "o"
    elif tail == "act2":          # two activations in a row
        I["l2"] = np.array(0.25, np.float32)
        nodes.append(node("Clip", [out, "l2"], ["o"]))
        out = "o"
    elif tail == "prodnext":      # activation of a later layer
        I["mu"] = np.array(-2.0, np.float32)
        nodes += [node("Mul", [out, "mu"], ["o1"]), *act_node("LeakyRelu", "o1", "o", I)]
        out = "o"
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    I = {k: v.astype(nt) if v.dtype == np.float32 and k not in ("sc", "roi") else v for k, v in I.items()}
    m = infer(onnx_model(nodes, [("X", shp, t)], [(out, (), t)], I, opset=13))
    k = int(np.prod(shp))
    X = np.stack([(np.arange(k) * a % 7 - b).astype(nt) / 2 for a, b in ((3, 3), (5, 2.5), (2, 4))]).reshape(3, *shp[1:])
    X[X == 0] = 0.25
    return m, X, shp


def main():
    acx.import_target()
    c = acx.Check("C11", level="model_checking", rule="a state is the history of buffer contents of one optimised program between two layers; every graph of the stated number of "
                  "nodes over the stated kinds is explored (" + HELP + "); a trace is one generated program compiled and run; non-trivial when the reference outputs differ")
    cases = []
    for a in ((2, "acbdegps", 0), (3, "acbdegp", 1), (3, "agps", 1), (4, "acbe", 2), (4, "gps", 2), (4, "dea", 2)):
        cases += graph_cases(*a, opts=(True,))
    cases += graph_cases(3, "acbdegp", 1, opts=(True,), conf=True)
    cases += graph_cases(4, "agp", 2, opts=(True,), conf=True)
    if c.thorough:
        for a in ((4, "acbdegp", 2), (5, "gps", 3), (5, "acb", 3), (5, "dea", 3)):
            cases += graph_cases(*a, opts=(True,))
        cases += graph_cases(4, "acbdegp", 2, opts=(True,), conf=True)
    seen = set()
    cases = [x for x in cases if not (x[0] in seen or seen.add(x[0]))]
    q = product(kind=("layer",), prod=PROD, act=ACTS, tail=TAILS if c.thorough else ("end", "next", "both", "twice"),
                keep=lambda act, tail, **_: not (act == "None" and tail in ("both", "twice")))
    q = union(q, product(kind=("layer",), prod=("conv", "convbn"), act=ACTS, tail=("end", "next", "act2"), algo=ALGOS),
              product(kind=("layer",), prod=("conv", "gemm", "mm1", "xadd", "bn", "maxpool"), act=ACTS, tail=("act2", "prodnext")))
    if c.thorough:
        q = union(q, product(kind=("layer",), prod=("conv", "convbn"), act=ACTS, tail=TAILS, algo=ALGOS))
    c.run(cases + q, case)
    c.assumptions = ["results with and without fusion may differ by rounding: compared to 2e-5 (1e-5 on graphs with sigmoid, product or normalisation, exactly otherwise)"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
