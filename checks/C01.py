"""C01: a generated convolution computes the mathematical convolution, for every
implementation the library offers."""
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import basis, infer, ints

ALGOS = ("6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt",
         "indirect_gemm_nn", "indirect_gemm_nt", "indirect_gemm_tn", "indirect_gemm_tt", "direct_block")


def case(C=2, HW=(5, 6), F=3, k=(3, 3), s=1, pads="none", d=1, algo="6loops", act=None, bias=True, pre="none", dtype="float", opt=False):
    H, W = HW
    inits = {"W": ints((F, C, *k))}
    ins = ["x" if pre != "none" else "X", "W"]
    if bias:
        inits["B"] = ints((F,), 5, 2, 17, 8)
        ins.append("B")
    kws = dict(kernel_shape=list(k), strides=[s, s])
    if d != 1:
        kws["dilations"] = [d, d]
    if isinstance(pads, tuple):
        kws["pads"] = list(pads)
    elif pads != "none":
        kws["auto_pad"] = pads
    nodes = []
    if pre == "relu":
        nodes.append(node("Relu", ["X"], ["x"]))
    elif pre == "conv":          # a bigger intermediate tensor before this one
        inits["V"] = ints((C, C, 1, 1), 3, 1, 7, 3)
        nodes.append(node("Conv", ["X", "V"], ["x"], kernel_shape=[1, 1], strides=[1, 1]))
    elif pre == "fork":          # the same tensor also feeds another branch (kept aside in memory)
        nodes.append(node("Relu", ["X"], ["x"]))
    out = "Y" if act is None else "Z"
    nodes.append(node("Conv", ins, ["Y"], **kws))
    if act:
        nodes.append(node(act, ["Y"], ["Z"], **({"alpha": 0.25} if act == "LeakyRelu" else {})))
    if pre == "fork":
        inits["V"] = ints((F, C, *k), 3, 1, 7, 3)
        nodes.append(node("Conv", ["x", "V"], ["Y2"], **kws))
        nodes.append(node("Add", [out, "Y2"], ["S"]))
        out = "S"
    m = infer(onnx_model(nodes, [("X", (1, C, H, W))], [(out, ())], inits))
    X = basis(C * H * W)
    if pre in ("relu", "fork"):
        X = np.abs(X)
    fmt = {"gen_data_format": "channels_last"} if algo == "direct_block" else {}
    want = None
    if d > 1 and pads in ("SAME_UPPER", "SAME_LOWER"):   # not implemented by onnxruntime: explicit pads for the reference
        import copy
        r = copy.deepcopy(m)
        for n in r.graph.node:
            if n.op_type == "Conv" and any(a.name == "auto_pad" for a in n.attribute):
                ext = [(a - 1) * d + 1 for a in k]
                tot = [max((-(-x // s) - 1) * s + e - x, 0) for x, e in zip((H, W), ext)]
                lo = [t // 2 if pads == "SAME_UPPER" else t - t // 2 for t in tot]
                for a in [a for a in n.attribute if a.name == "auto_pad"]:
                    n.attribute.remove(a)
                from onnx import helper
                n.attribute.append(helper.make_attribute("pads", [lo[0], lo[1], tot[0] - lo[0], tot[1] - lo[1]]))
        want = acx.ort_run(r, X, (1, C, H, W))
    if dtype == "double":        # the same convolution times 1 + 2^-30: exact in binary64, lost in binary32
        from onnx import TensorProto as T
        scale = 1 + 2.0 ** -30
        want = (acx.ort_run(m, X, (1, C, H, W)) if want is None else want).astype(np.float64) * scale
        outer = ("W", "B") if pre != "fork" else ("W", "B", "V")
        inits = {n: v.astype(np.float64) * (scale if n in outer else 1) for n, v in inits.items()}
        m = infer(onnx_model(nodes, [("X", (1, C, H, W), T.DOUBLE)], [(nodes[-1].output[0], (), T.DOUBLE)], inits))
        X = X.astype(np.float64)
    if opt:                      # the activation is applied by the convolution itself
        fmt["optimization"] = True
    tol = {"rtol": 2e-5, "atol": 2e-5} if act in ("Sigmoid", "Tanh") else {}
    fails = three_way(m, X, (1, C, H, W), want=want, versions={"Conv2D": algo}, gen_kw=fmt, **tol)
    block = 512 if k[1] == 1 else 64
    if algo == "direct_block" and F > block and F % block and any(a in ("import", "generate") for a, _ in fails):
        acx.count("refused")       # blocks of filters that are not full are refused; if they were accepted, they are to be right
        return []
    return fails


KERNELS = ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3))
PADS = ("none", (1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 2, 0, 1),
        "SAME_UPPER", "SAME_LOWER", "VALID")


def fits(k=(3, 3), d=1, HW=(5, 6), algo="", pads="none", s=1, pre="none", **_):
    ext = [(a - 1) * d + 1 for a in k]
    if ext[0] > HW[0] or ext[1] > HW[1]:
        return False
    if algo == "direct_block":     # what that implementation accepts
        return d == 1 and (not isinstance(pads, tuple) or len(set(pads)) == 1) and (pads in ("none", "VALID") or isinstance(pads, tuple))
    return True


def main():
    acx.import_target()
    c = acx.Check("C01", rule="one case = one generated program (implementation x geometry x neighbourhood), executed on the zero "
                  "input, every unit impulse and two dense inputs; non-trivial when the reference outputs are not all equal")
    q = union(
        product(keep=fits, algo=ALGOS, k=KERNELS, s=(1, 2), d=(1, 2), pads=PADS),
        product(keep=fits, algo=ALGOS, k=((3, 3), (2, 2)), C=(1, 3), F=(1, 2, 4), HW=((4, 4), (5, 4), (4, 5), (5, 3)), s=(1, 2)),
        product(keep=fits, algo=ALGOS, act=("Relu", "LeakyRelu"), pre=("none", "relu", "conv", "fork"), bias=(True, False),
                HW=((4, 5), (4, 4)), pads=("none", (1, 1, 1, 1)), k=((1, 1), (3, 3), (2, 3))),
        product(keep=fits, algo=ALGOS, dtype=("double",), act=(None, "LeakyRelu"), pre=("none", "conv", "fork"), bias=(True, False),
                pads=("none", (1, 1, 1, 1), (1, 2, 0, 1)), k=((1, 1), (3, 2))),
        product(keep=fits, algo=ALGOS, opt=(True,), act=("LeakyRelu", "Sigmoid"), bias=(True, False), HW=((4, 4),), pads=("none", (1, 1, 1, 1)), k=((1, 1), (3, 3), (2, 3))),
        product(keep=fits, algo=ALGOS, opt=(True,), act=("Sigmoid",), pre=("fork",), HW=((4, 5),), k=((3, 3), (2, 2))),
        product(keep=fits, algo=ALGOS, s=(3,), k=((1, 1), (3, 2)), HW=((7, 8),), d=(1, 2)),
        product(keep=fits, algo=("direct_block", "6loops"), F=(64, 128), C=(1,), k=((3, 3), (2, 2)), HW=((4, 4), (5, 4)),
                ),
        product(keep=fits, algo=ALGOS, k=((5, 5), (7, 7), (11, 3)), s=(1, 2, 4), pads=((2, 2, 2, 2), (3, 3, 3, 3), "SAME_UPPER"), C=(2,), F=(11,), HW=((7, 10),)),
        # several blocks of filters (64, or 512 of a single point), filters that do not fill the last one
        product(keep=fits, algo=("direct_block", "indirect_gemm_nn", "6loops"), F=(63, 96, 192), C=(1, 2), k=((3, 3), (2, 2), (1, 2), (2, 1)), HW=((4, 4), (3, 4)), s=(1, 2)),
        product(keep=fits, algo=("direct_block", "std_gemm_nn"), F=(511, 513, 1024), C=(1, 2), k=((1, 1), (2, 1)), HW=((2, 1), (2, 3)), pads=("none", (1, 1, 1, 1))),
    )
    if c.thorough:
        q = union(q,
                  product(keep=fits, algo=ALGOS, k=KERNELS + ((2, 2), (4, 1), (1, 4), (4, 3)), s=(1, 2, 3), d=(1, 2, 3),
                          pads=PADS + ((2, 2, 2, 2), (0, 1, 2, 0), (2, 1, 0, 2)), HW=((7, 6), (6, 7)), C=(1, 2)))
    c.run(q, case)
    c.extra["implementations"] = list(ALGOS)
    c.assumptions = ["onnxruntime (optimisations off) is the reference for ONNX Conv",
                     "a convolution is an affine map, so the zero input and all unit impulses determine it (activations: on the sampled inputs)"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
