"""C21: the data format of the generated code changes nothing.

Every sequence of layers, with every choice of implementation, generated in channels_first and channels_last format: refused, or the result is that of onnxruntime; nothing of what the test suite uses
the channels_last format for may be refused."""
import itertools
import sys

import numpy as np

import acx
from acx import count, node, onnx_model, ort_run, product, three_way, union
from models import infer, ints
from nets import fcn

SHAPES = {"3x4x4": (1, 3, 4, 4), "2x5x4": (1, 2, 5, 4), "1x4x4": (1, 1, 4, 4), "6x1x1": (1, 6, 1, 1), "2x1x5": (1, 2, 1, 5)}
CONV = {"conv1": ((1, 1), {}, "same"), "conv3": ((3, 3), {"pads": [1, 1, 1, 1]}, "same"), "conv2": ((2, 2), {"strides": [2, 2]}, "more"), "conv32": ((3, 2), {}, "one"), "convs": ((2, 2), {"auto_pad": "SAME_UPPER"}, "same"), "convp": ((3, 3), {"strides": [2, 2], "pads": [1, 1, 1, 1]}, "same"), "convd": ((2, 2), {"dilations": [2, 2]}, "more")}
POOL = {"maxpool": ("MaxPool", {}), "avgpool": ("AveragePool", {}), "maxpool2": ("MaxPool", {"strides": [2, 2]}), "avgpoolp": ("AveragePool", {"pads": [1, 1, 1, 1]}), "maxpoolp": ("MaxPool", {"pads": [1, 1, 0, 0]})}
OTHER = ("relu", "leaky", "tanh", "self", "square", "addx", "bias", "scalar", "full", "bn", "concat1", "concat2", "concat3", "softmax", "reduce1", "reduce23", "gap", "pad", "transpose", "resize", "tile", "gather", "matmul", "gemm", "reshape", "flat", "max3", "clip", "constop")
ALPHABET = (*CONV, *POOL, *OTHER)
CVERS, PVERS = ("6loops", "direct_block"), ("default", "channels_last")
GEMMS = ("indirect_gemm_nn", "std_gemm_nn", "std_gemm_tt")


def build(ops, shape):
    """Nodes and constants of the sequence, or None where an operation does not apply. Keeps track of the shape."""
    ns, ini, kinds = [], [], []
    x, sh = "x", list(shape)
    for k, op in enumerate(ops):
        y = f"t{k}"
        W = lambda s, m=5, off=2: (ini.append((f"w{k}", ints(s, 3, k + 1, m, off))), f"w{k}")[1]
        four = len(sh) == 4
        if op in CONV or op in POOL or op in ("bn", "gap", "pad", "resize", "concat2", "concat3", "reduce23", "bias", "transpose", "flat", "gather", "tile"):
            if not four:
                return None
        if op in CONV:
            ks, at, n = CONV[op]
            c = {"same": sh[1], "more": sh[1] + 1, "one": 1}[n]
            ns.append(node("Conv", [x, W((c, sh[1], *ks), 3, 1)] + ([W2(ini, k, c)] if op != "conv2" else []), [y], kernel_shape=list(ks), **at))
            if "auto_pad" not in at:
                p, s, d = at.get("pads", [0] * 4), at.get("strides", [1, 1]), at.get("dilations", [1, 1])
                sh = [1, c, *[(sh[2 + i] + p[i] + p[i + 2] - d[i] * (ks[i] - 1) - 1) // s[i] + 1 for i in (0, 1)]]
            else:
                sh = [1, c, *sh[2:]]
            if min(sh) < 1:
                return None
            kinds.append("Conv")
        elif op in POOL:
            t, at = POOL[op]
            ns.append(node(t, [x], [y], kernel_shape=[2, 2], **at))
            p, s = at.get("pads", [0] * 4), at.get("strides", [1, 1])
            sh = [1, sh[1], *[(sh[2 + i] + p[i] + p[i + 2] - 2) // s[i] + 1 for i in (0, 1)]]
            if min(sh) < 1:
                return None
            kinds.append(t)
        else:
            kinds.append("")
            if op == "relu":
                ns.append(node("Relu", [x], [y]))
            elif op == "leaky":
                ns.append(node("LeakyRelu", [x], [y], alpha=0.5))
            elif op == "tanh":
                ns.append(node("Tanh", [x], [y]))
            elif op == "clip":
                ns.append(node("Clip", [x, "", W2(ini, k, None, np.float32(3))], [y]))
            elif op == "self":
                ns.append(node("Add", [x, x], [y]))
            elif op == "square":
                ns.append(node("Mul", [x, x], [y]))
            elif op == "addx":
                if sh != list(shape):
                    return None
                ns.append(node("Sub", [x, "x"], [y]))
            elif op == "max3":
                if sh != list(shape):
                    return None
                ns += [node("LeakyRelu", [x], [y + "a"], alpha=-1.0), node("Max", [x, "x", y + "a"], [y])]
            elif op == "bias":
                ns.append(node("Add", [x, W((sh[1], 1, 1))], [y]))
            elif op == "scalar":
                ns.append(node("Mul", [x, W2(ini, k, None, np.float32([2]))], [y]))
            elif op == "full":
                ns.append(node("Add", [x, W(tuple(sh))], [y]))
            elif op == "constop":
                ns.append(node("Sub", [W(tuple(sh)), x], [y]))
            elif op == "bn":
                ns.append(node("BatchNormalization", [x, W2(ini, k, sh[1]), W2(ini, k + 50, sh[1]), W2(ini, k + 60, sh[1]), W2(ini, k + 70, None, np.arange(1, sh[1] + 1, dtype=np.float32))], [y]))
            elif op.startswith("concat"):
                a = int(op[-1])
                ns += [node("Relu", [x], [y + "a"]), node("Concat", [x, y + "a"], [y], axis=a)]
                if a >= len(sh):
                    return None
                sh[a] *= 2
            elif op == "softmax":
                ns.append(node("Softmax", [x], [y], axis=1))
            elif op == "reduce1":
                ns.append(node("ReduceSum", [x, W2(ini, k, None, np.array([1], np.int64))], [y], keepdims=1))
                sh[1] = 1
            elif op == "reduce23":
                ns.append(node("ReduceMax", [x], [y], keepdims=1, axes=[2, 3]))
                sh[2:] = [1, 1]
            elif op == "gap":
                ns.append(node("GlobalAveragePool", [x], [y]))
                sh[2:] = [1, 1]
            elif op == "pad":
                ns.append(node("Pad", [x, W2(ini, k, None, np.array([0, 0, 1, 0, 0, 0, 0, 1], np.int64))], [y]))
                sh[2] += 1
                sh[3] += 1
            elif op == "transpose":
                ns.append(node("Transpose", [x], [y], perm=[0, 2, 3, 1]))
                sh = [1, sh[2], sh[3], sh[1]]
            elif op == "resize":
                ns.append(node("Resize", [x, "", W2(ini, k, None, np.array([1, 1, 2, 2], np.float32))], [y], mode="nearest", coordinate_transformation_mode="asymmetric", nearest_mode="floor"))
                sh[2] *= 2
                sh[3] *= 2
            elif op == "tile":
                ns.append(node("Tile", [x, W2(ini, k, None, np.array([1, 2, 1, 1], np.int64))], [y]))
                sh[1] *= 2
            elif op == "gather":
                ns.append(node("Gather", [x, W2(ini, k, None, np.array([0, 0], np.int64))], [y], axis=1))
                sh[1] = 2
            elif op == "matmul":
                ns.append(node("MatMul", [x, W((sh[-1], 3))], [y]))
                sh[-1] = 3
            elif op == "gemm":
                if len(sh) != 2:
                    return None
                ns.append(node("Gemm", [x, W((sh[1], 3))], [y]))
                sh = [1, 3]
            elif op in ("reshape", "flat"):
                n = int(np.prod(sh))
                to = [1, n] if op == "flat" else [1, 2, 2, n // 4] if n % 4 == 0 else None
                if to is None or to == sh:
                    return None
                ns.append(node("Reshape", [x, W2(ini, k, None, np.array(to, np.int64))], [y]))
                sh = to
        x = y
    return ns, ini, x, kinds


def W2(ini, k, n, v=None):
    ini.append((f"v{k}", ints((n,), 2, 1, 5, 1) if v is None else np.asarray(v)))
    return f"v{k}"


def supported(ops, vers, shape):
    """Networks the channels_last format is provided for: convolutions and pooling in their channels_last implementations, element-wise operations between."""
    return all(o in ("conv1", "conv3", "conv2", "conv32", "convp", "relu", "leaky", "maxpool", "avgpool", "maxpool2") for o in ops) and all(v in ("direct_block", "channels_last") for v in vers)


def case(ops, shape, fmt, versions="std"):
    ops = ops.split("+")
    sh = SHAPES[shape]
    b = build(ops, sh)
    if b is None:
        count("does not apply")
        return []
    ns, ini, out, kinds = b
    X = np.stack([ints((int(np.prod(sh)),), a, o, 9, 4, False) for a, o in ((5, 0), (4, 3), (7, 1))]).astype(np.float32)
    model = infer(onnx_model(ns, [("x", sh)], [(out, [])], ini))
    try:
        want = ort_run(model, X.reshape(len(X), 1, -1), sh)
    except Exception:
        count("does not apply")
        return []
    choices = []
    if versions == "gemm":
        choices = [(v,) * len(kinds) for v in GEMMS]
    else:
        choices = list(itertools.product(*[CVERS if k == "Conv" else PVERS if k else ("",) for k in kinds]))
    fails = []
    for ch in choices:
        vers = {}
        idx = layer_indices(model)
        if idx is None or sum(1 for k in kinds if k) != len(idx):
            count("import refused")
            return []
        it = iter(idx)
        for k, v in zip(kinds, ch):
            if k:
                i = next(it)
                if k == "Conv" or versions != "gemm":
                    vers[i] = v
        used = [v for k, v in zip(kinds, ch) if k]
        r = three_way(model, X.reshape(len(X), 1, -1), sh, want=want, versions=vers, rtol=1e-5, atol=1e-5, gen_kw={"gen_data_format": fmt})
        if r and r[0][0] in ("import", "codegen"):
            count("refused")
            if fmt == "channels_first" and not set(used) & {"direct_block", "channels_last"} or fmt == "channels_last" and supported(ops, used, sh):
                fails.append(("refused", f"{ops} {vers} {fmt}: {r[0][1]}"))
            continue
        count("compared")
        fails += [(a, f"{ops} {vers} {fmt}: {m}") for a, m in r]
    return fails


def deep(algo, pool, fmt, opt, seed):
    """The whole network in one format."""
    m, shape = fcn(seed)
    n = int(np.prod(shape))
    X = np.stack([np.sin(np.arange(n) * (.7 + .3 * k) + k) for k in range(3)]).astype(np.float32).reshape(3, 1, n)
    count("networks")
    vers = {"Conv2D": algo, "MaxPooling2D": pool, "AveragePooling2D": pool}
    r = three_way(m, X, shape, rtol=2e-5, atol=2e-5, versions=vers, gen_kw={"gen_data_format": fmt, "optimization": opt})
    if r and r[0][0] in ("import", "codegen") and (algo, pool, fmt) not in (("direct_block", "channels_last", "channels_last"), ("6loops", "default", "channels_first")):
        count("refused")
        return []
    return r


def layer_indices(model):
    from acetone_nnet.importers.parser import parser
    try:
        layers = parser(model)[0]
    except Exception:
        return None
    return [l.idx for l in layers if type(l).__name__ in ("Conv2D", "MaxPooling2D", "AveragePooling2D")]


def main():
    acx.import_target()
    c = acx.Check("C21", rule="one case per sequence of operations, input shape and data format; each runs every combination of implementations of its convolutions and pooling layers")
    F = ("channels_last", "channels_first")
    two = ["+".join(p) for n in (1, 2) for p in itertools.product(ALPHABET, repeat=n)]
    core = ("conv1", "conv3", "conv2", "maxpool", "avgpool", "relu", "addx", "flat", "reshape", "gap", "bias")
    three = ["+".join(p) for p in itertools.product(core, repeat=3) if any(o in CONV or o in POOL for o in p)]
    q = union(product("", ops=two, shape=("3x4x4",), fmt=("channels_last",)),
              product("", ops=[o for o in two if o.split("+")[0] in (*CONV, *POOL) or "+" not in o], shape=("3x4x4",), fmt=("channels_first",)),
              product("", ops=[o for o in two if "+" not in o or o.split("+")[0] in ("relu", "conv32", "maxpool2", "reshape")], shape=("1x4x4", "6x1x1", "2x1x5", "2x5x4"), fmt=("channels_last",)),
              product("", ops=tuple(CONV), shape=("3x4x4", "2x5x4"), fmt=F, versions=("gemm",)))
    if c.thorough:
        q = union(q, product("", ops=two, shape=tuple(SHAPES), fmt=F), product("", ops=three, shape=("3x4x4", "2x5x4"), fmt=F))
    q += product("deep ", algo=CVERS, pool=PVERS, fmt=F, opt=(False, True), seed=(10, 11))
    c.run(q, lambda **kw: deep(**kw) if "seed" in kw else case(**kw))
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
