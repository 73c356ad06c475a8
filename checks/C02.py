"""C02: pooling layers."""
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import infer, ints


def case(op="MaxPool", C=2, HW=(5, 6), k=2, s=1, pads="none", act=None, pre="none", algo=None, opt=False):
    H, W = HW
    kws = {}
    if op != "GlobalAveragePool":
        kws = dict(kernel_shape=[k, k], strides=[s, s])
        if isinstance(pads, tuple):
            kws["pads"] = list(pads)
        elif pads != "none":
            kws["auto_pad"] = pads
    inits, nodes = {}, []
    src = "X"
    if pre == "conv":
        inits["V"] = ints((C, C, 1, 1), 3, 1, 7, 3)
        nodes.append(node("Conv", ["X", "V"], ["x"], kernel_shape=[1, 1], strides=[1, 1]))
        src = "x"
    nodes.append(node(op, [src], ["Y"], **kws))
    out = "Y"
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
        out = "Z"
    m = infer(onnx_model(nodes, [("X", (1, C, H, W))], [(out, ())], inits))
    n = C * H * W
    # every position in turn carries the largest, then the smallest, value; all-negative and all-positive
    # backgrounds expose padding that takes part; a permutation-like dense input
    X = np.full((2 * n + 4, 1, n), -48, np.float32)
    for i in range(n):
        X[i, 0, i] = -12
        X[n + i, 0] = 12
        X[n + i, 0, i] = 48
    X[2 * n] = -60
    X[2 * n + 1, 0] = (np.arange(n) * 7 % n) * 12
    X[2 * n + 2, 0] = -12 * (np.arange(n) * 11 % n) - 12
    X[2 * n + 3, 0] = 0
    if pre == "conv":
        X /= 12
    kw = {}
    vs = None
    if algo:
        kw["gen_data_format"] = "channels_last"
        vs = {"MaxPooling2D": algo, "AveragePooling2D": algo, "Conv2D": "direct_block"}
    if opt:
        kw["optimization"] = True
    exact = "Average" not in op and act != "Sigmoid"
    return three_way(m, X, (1, C, H, W), versions=vs, gen_kw=kw, rtol=0 if exact else 1e-6, atol=0 if exact else 1e-6)


PADS = ("none", (1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 0), (0, 1, 0, 1),
        (1, 1, 0, 0), (0, 0, 1, 1), "SAME_UPPER", "SAME_LOWER", "VALID")


def ok(op="MaxPool", k=2, s=1, pads="none", HW=(5, 6), **_):
    if str(pads).startswith("SAME") and k < s:      # onnxruntime and the specification disagree (negative padding)
        return False
    if op == "GlobalAveragePool":
        return HW[0] == HW[1] and pads == "none"
    if isinstance(pads, tuple) and max(pads) >= k:
        return False
    return k <= min(HW)


def main():
    acx.import_target()
    c = acx.Check("C02", rule="one case = one generated program (pooling kind x implementation x geometry x following activation), executed "
                  "with the extremum at every position in turn over positive and negative backgrounds; non-trivial when the reference "
                  "outputs are not all equal")
    ops = ("MaxPool", "AveragePool")
    impl = (None, "default", "channels_last")
    q = union(
        product(keep=ok, op=ops, algo=(None, "channels_last"), k=(1, 2, 3), s=(1, 2, 3), pads=PADS, HW=((5, 6), (4, 3))),
        product(keep=ok, op=ops, algo=(None, "channels_last"), k=(2, 3), act=("Relu", "LeakyRelu", "Sigmoid"), opt=(False, True), pads=("none", (1, 0, 0, 1), (1, 1, 1, 1))),
        product(keep=ok, op=ops, algo=(None, "channels_last"), k=(2,), pre=("conv",), C=(1, 3), act=(None, "Relu"), pads=("none", (1, 1, 1, 1))),
        product(keep=ok, op=("GlobalAveragePool",), HW=((3, 3), (1, 1), (4, 4)), C=(1, 2, 3), act=(None, "Relu"), opt=(False, True)),
    )
    if c.thorough:
        q = union(q, product(keep=ok, op=ops, algo=(None, "channels_last"), k=(1, 2, 3, 4), s=(1, 2, 3, 4), pads=PADS + ((2, 2, 2, 2), (2, 0, 1, 0), (0, 2, 0, 1), (0, 1, 2, 0)),
                             HW=((6, 7), (7, 5), (4, 4)), C=(1, 3)))
    c.run(q, case)
    c.assumptions = ["onnxruntime is the reference for ONNX pooling (padding excluded from maximum and average)"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
