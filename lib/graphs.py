"""Enumeration of small dataflow graphs and execution of one over the buffers the real scheduler and allocator assigned."""
import itertools

import numpy as np

from acx import Bad, count, make_generator, node, onnx_model, three_way

W = 4
ARITY = {"s": 2, "t": 2, "m": 3, "p": 2}
HELP = ("a LeakyRelu, g Sigmoid, c 1x1 convolution, b BatchNormalization, d MatMul with a constant, e Add of a constant vector, k constant minus, r reduction, "
        "s subtraction, p product, t concatenation, m three-operand maximum")


def widths(g):
    w = [W]
    for k, *ops in g:
        o = [w[i] for i in ops] + [W] * (k in "ke")
        if k == "t":
            w.append(sum(o))
        elif k == "r":
            w.append(1)
        elif k == "d":
            w.append(W)
        elif len(o) > 1 and not (len(set(o) - {1}) <= 1):
            return None
        else:
            w.append(max(o))
    return w


def graphs(n, kinds, prefix=(), distinct=False):
    """Every graph of n nodes: node i takes its operands among the input and the earlier nodes; every node but the last is used."""
    def rec(g, unused):
        i = len(g) + 1                       # values 0..i-1 exist
        left = n - len(g)
        if left == 0:
            if unused == {n} and widths(g):
                yield tuple(g)
            return
        if len(unused) > 1 + 2 * left:
            return
        for k in kinds:
            ar = ARITY.get(k, 1)
            for ops in itertools.product(range(i), repeat=ar):
                if distinct and len(set(ops)) < ar:
                    continue
                yield from rec(g + [(k, *ops)], (unused - set(ops)) | {i})
    p = list(prefix)
    un = {0}
    for j, (k, *ops) in enumerate(p):
        un = (un - set(ops)) | {j + 1}
    yield from rec(p, un)


def weights(j, w):
    return ((np.arange(w * W) * (j + 2)) % 5 - 2).astype(np.float32).reshape(w, W)


def onnx_graph(g):
    inits, nodes, w = {}, [], widths(g)
    nm = lambda i: "X" if i == 0 else f"v{i}"
    for j, (k, *ops) in enumerate(g, 1):
        ins, out = [nm(i) for i in ops], [nm(j)]
        if k == "a":
            nodes.append(node("LeakyRelu", ins, out, alpha=0.5))
        elif k == "c":
            inits[f"w{j}"] = np.full((1, 1, 1, 1), float(1 + j), np.float32)
            inits[f"b{j}"] = np.array([float(j - 2)], np.float32)
            nodes.append(node("Conv", [*ins, f"w{j}", f"b{j}"], out, kernel_shape=[1, 1], strides=[1, 1]))
        elif k == "k":
            inits[f"k{j}"] = (np.arange(W) * 3 - j).astype(np.float32).reshape(1, 1, 1, W)
            nodes.append(node("Sub", [f"k{j}", *ins], out))
        elif k == "r":
            nodes.append(node("ReduceMax", ins, out, axes=[3], keepdims=1))
        elif k == "s":
            nodes.append(node("Sub", ins, out))
        elif k == "g":
            nodes.append(node("Sigmoid", ins, out))
        elif k == "p":
            nodes.append(node("Mul", ins, out))
        elif k == "e":
            inits[f"k{j}"] = (np.arange(W) - j).astype(np.float32).reshape(1, 1, 1, W)
            nodes.append(node("Add", [*ins, f"k{j}"], out))
        elif k == "d":
            inits[f"w{j}"] = weights(j, w[ops[0]]).reshape(1, 1, w[ops[0]], W)
            nodes.append(node("MatMul", [*ins, f"w{j}"], out))
        elif k == "b":
            for a, v in (("s", 2 * j), ("b", 1), ("m", -j), ("v", 0.25)):
                inits[f"bn{a}{j}"] = np.array([v], np.float32)
            nodes.append(node("BatchNormalization", [*ins, f"bns{j}", f"bnb{j}", f"bnm{j}", f"bnv{j}"], out, epsilon=0.0))
        elif k == "m":
            nodes.append(node("Max", ins, out))
        elif k == "t":
            nodes.append(node("Concat", ins, out, axis=3))
    from onnx import TensorProto as T
    vi = [(nm(j), (1, 1, 1, w[j]), T.FLOAT) for j in range(1, len(g))]
    return onnx_model(nodes, [("X", (1, 1, 1, W), T.FLOAT)], [(nm(len(g)), (1, 1, 1, w[-1]), T.FLOAT)], inits, opset=13, value_info=vi)


X0 = np.array([3, -5, 7, -2], np.float32)


def reference(g, x=X0):
    v = [x.reshape(1, 1, W).astype(np.float64)]
    for j, (k, *ops) in enumerate(g, 1):
        o = [v[i] for i in ops]
        v.append({"a": lambda: np.where(o[0] > 0, o[0], 0.5 * o[0]), "c": lambda: o[0] * (1 + j) + (j - 2),
                  "k": lambda: (np.arange(W) * 3.0 - j).reshape(1, 1, W) - o[0], "r": lambda: o[0].max(axis=2, keepdims=True),
                  "s": lambda: o[0] - o[1], "g": lambda: 1 / (1 + np.exp(-o[0])), "p": lambda: o[0] * o[1], "e": lambda: o[0] + (np.arange(W) - j), "d": lambda: o[0] @ weights(j, o[0].shape[-1]),
                  "b": lambda: 2 * j * (o[0] + j) / 0.5 + 1,
                  "m": lambda: np.maximum(np.maximum(o[0], o[1]), o[2]), "t": lambda: np.concatenate(o, axis=2)}[k]())
    return v[-1]


def exact(g):
    return not any(k in "gpb" for k, *_ in g)


def explore(g, opt, seen):
    """Run the program of graph g over buffers, as scheduled and allocated by the real code. -> (failures, allocation signature)."""
    gen = make_generator(onnx_graph(g), X0.reshape(1, 1, W), optimization=opt)
    L, cst = gen.layers, gen.dict_cst
    buf, done, sig = {}, set(), []
    if L[0].name != "Input_layer":
        return [("order", f"first layer is {L[0].name}")], None
    if len({l.idx for l in L}) != len(L):
        return [("order", f"two layers share an index: {[l.idx for l in L]}")], None
    fails = []
    if opt and sum(type(l).__name__ not in ("InputLayer", "ConstantLayer") and l.name != "Input_layer" for l in L) < len(g):
        count("graphs_rewritten_by_a_fusion")
    for l in L:
        ins = []
        for p in l.previous_layer:
            if p.idx not in done:
                return [("order", f"{l.name}_{l.idx} runs before its operand {p.name}_{p.idx}")], None
            b = p.output_str
            if b not in buf:
                return [("buffer", f"{l.name}_{l.idx} reads {b}, which nothing wrote")], None
            who, val = buf[b]
            if who.idx != p.idx:
                fails.append(("buffer", f"{l.name}_{l.idx} reads {p.name}_{p.idx} in {b}, which holds {who.name}_{who.idx}"))
            ins.append(val)
        if l.name == "Input_layer":
            val = X0.reshape(1, 1, W)
        else:
            val = np.asarray(l.forward_path_layer(ins[0] if len(ins) == 1 else ins))
        out = f"output_{l.path}"
        if not 0 <= l.path < gen.maxpath:
            fails.append(("buffer", f"{l.name}_{l.idx} writes {out}, only {gen.maxpath} exist"))
        buf[out] = (l, val)
        if l.idx in cst:
            buf[f"cst_{cst[l.idx]}"] = (l, val)
        done.add(l.idx)
        count("transitions")
        sig.append((type(l).__name__, tuple(p.output_str for p in l.previous_layer), out, cst.get(l.idx)))
        st = hash((tuple(sig),))
        if st not in seen:
            seen.add(st)
            count("states")
    w, got = reference(g), np.asarray(buf[f"output_{L[-1].path}"][1], np.float64)
    if got.size != w.size or not (np.array_equal(got.ravel(), w.ravel()) if exact(g) else np.allclose(got.ravel(), w.ravel(), 1e-5, 1e-5)):
        fails.append(("value", f"the last buffer holds {got.ravel()[:4]}, expected {w.ravel()[:4]}"))
    return fails, tuple(sig)


def txt(g):
    return ";".join(k + "".join(str(i) for i in o) for k, *o in g)


def replay(g, opt):
    count("traces")
    m = onnx_graph(g)
    X = np.stack([X0, X0[::-1] * 2 - 1, np.array([-1, -2, 9, 4])]).astype(np.float32).reshape(3, 1, W)
    want = np.stack([reference(g, x).ravel() for x in X]) if any(k == "g" for k, *_ in g) else None      # onnxruntime approximates sigmoid
    return three_way(m, X, (1, 1, 1, W), want=want, rtol=0 if exact(g) else 1e-5, atol=0 if exact(g) else 1e-5, gen_kw={"optimization": True} if opt else None)
