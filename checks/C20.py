"""C20: a configuration is refused, or compiled right.

Every operator of the ONNX standard, in every arrangement of tensor and constant operands, with every attribute moved through a set of values (thorough: every pair of attributes), for several ranks, data types and
surroundings; graph shapes with unused results, several outputs and inputs. Whatever onnxruntime can run must be refused by the importer, or give onnxruntime's result in Python and in C."""
import io
import itertools
import os
import sys

import numpy as np

import acx
from acx import Bad, count, node, onnx_model, ort_run, product, scratch, three_way, union
from models import infer, ints
from nets import NETS

SHAPES = {"4d": (1, 2, 4, 4), "2d": (1, 6), "b2": (2, 2, 3, 3), "3d": (1, 3, 4), "1d": (5,), "5d": (1, 2, 3, 3, 2), "5x4": (1, 2, 5, 4)}
I64 = lambda *v: np.array(v, np.int64)
F = lambda *s: ints(s, m=7, off=3) if s else np.float32(2)
# operator -> (attributes, operands), operand: "X" the input, "Y" a second result, an array
BASE = {
    "Conv": ({"kernel_shape": [2, 2]}, ["X", F(2, 2, 2, 2), F(2)]), "ConvTranspose": ({"kernel_shape": [2, 2]}, ["X", F(2, 2, 2, 2), F(2)]),
    "MaxPool": ({"kernel_shape": [2, 2]}, ["X"]), "AveragePool": ({"kernel_shape": [2, 2]}, ["X"]), "LpPool": ({"kernel_shape": [2, 2]}, ["X"]),
    "BatchNormalization": ({}, ["X", F(2), F(2), F(2), np.array([3, 8], np.float32)]), "InstanceNormalization": ({}, ["X", F(2), F(2)]), "LayerNormalization": ({}, ["X", F(4)]), "GroupNormalization": ({"num_groups": 2}, ["X", F(2), F(2)]),
    "Gemm": ({}, ["X", F(6, 3), F(3)]), "MatMul": ({}, ["X", F(4, 3)]), "LRN": ({"size": 3}, ["X"]), "Concat": ({"axis": 1}, ["X", "Y"]), "Transpose": ({}, ["X"]), "Flatten": ({}, ["X"]), "Reshape": ({}, ["X", I64(1, -1)]),
    "Squeeze": ({}, ["X", I64(0)]), "Unsqueeze": ({}, ["X", I64(0)]), "Gather": ({}, ["X", I64(1, 0)]), "GatherElements": ({}, ["X", I64(0, 1, 1, 0).reshape(1, 1, 2, 2)]), "GatherND": ({}, ["X", I64(0, 1).reshape(1, 2)]),
    "ScatterND": ({}, ["X", I64(0, 1).reshape(1, 2), F(1, 4, 4)]), "Pad": ({}, ["X", I64(0, 0, 1, 1, 0, 0, 1, 1)]), "Tile": ({}, ["X", I64(1, 2, 1, 2)]), "Expand": ({}, ["X", I64(1, 2, 4, 4)]), "Slice": ({}, ["X", I64(0), I64(1), I64(1)]),
    "Clip": ({}, ["X", np.float32(-1), np.float32(2)]), "Resize": ({}, ["X", "", np.array([1, 1, 2, 2], np.float32)]), "Upsample": ({}, ["X", np.array([1, 1, 2, 2], np.float32)]), "Pow": ({}, ["X", np.float32(2)]), "PRelu": ({}, ["X", np.float32([0.5])]),
    "Where": ({}, [np.array([True, False, True, True]), "X", "Y"]), "TopK": ({}, ["X", I64(2)]), "OneHot": ({}, ["X", I64(3), F(2)]), "DepthToSpace": ({"blocksize": 1}, ["X"]), "SpaceToDepth": ({"blocksize": 2}, ["X"]), "Cast": ({"to": 1}, ["X"]),
    "Split": ({"num_outputs": 2}, ["X"]), "Einsum": ({"equation": "abcd->abdc"}, ["X"]), "CumSum": ({}, ["X", np.int64(1)]), "Trilu": ({}, ["X"]), "Mod": ({"fmod": 1}, ["X", np.float32(3)]), "Dropout": ({}, ["X"]),
    "ReduceSum": ({}, ["X", I64(1)]), "ReduceMean": ({}, ["X", I64(1)]), "ReduceMax": ({}, ["X", I64(1)]), "ReduceMin": ({}, ["X", I64(1)]), "ReduceProd": ({}, ["X", I64(1)]), "ReverseSequence": ({}, ["X", I64(4, 4)]), "MatMulInteger": ({}, ["X", "Y"]),
    "LSTM": ({"hidden_size": 2}, ["X", F(1, 8, 4), F(1, 8, 2)]), "GRU": ({"hidden_size": 2}, ["X", F(1, 6, 4), F(1, 6, 2)]), "RNN": ({"hidden_size": 2}, ["X", F(1, 2, 4), F(1, 2, 2)]), "Sum": ({}, ["X", "Y"]), "Mean": ({}, ["X", "Y"]),
    "GlobalLpPool": ({}, ["X"]), "Shape": ({}, ["X"]), "Size": ({}, ["X"]), "Hardmax": ({}, ["X"]), "EyeLike": ({}, ["X"]), "QuantizeLinear": ({}, ["X", np.float32(0.5), np.uint8(3)]),
}
VAL = {"ints": ([1, 1], [2, 2], [1, 2], [2, 1], [2, 3], [3, 2], [3, 3], [3, 1], [0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 1, 0], [1, 0, 0, 2], [0, 0, 1, 1], [0, 2, 3, 1], [3, 2, 1, 0], [0, 1, 3, 2], [1, 0], [0], [1], [2], [-1], [0, 1], [1, 3], [-1, -2], [1, 2, 3], [0, 1, 2, 3], [1] * 6),
       "int": (0, 1, -1, 2, -2, 3, -3), "float": (0.0, 0.5, 2.0, -1.0, 1.0),
       "ceil_mode": (0, 1), "count_include_pad": (0, 1), "storage_order": (0, 1), "auto_pad": ("SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"), "mode": ("constant", "edge", "reflect", "wrap", "nearest", "linear", "cubic", "bilinear", "DCR", "CRD"),
       "coordinate_transformation_mode": ("half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel", "half_pixel_symmetric", "tf_crop_and_resize", "tf_half_pixel_for_nn"),
       "nearest_mode": ("floor", "ceil", "round_prefer_floor", "round_prefer_ceil"), "keep_aspect_ratio_policy": ("stretch", "not_larger", "not_smaller"), "approximate": ("none", "tanh"), "direction": ("forward", "reverse", "bidirectional", "LEFT", "RIGHT"), "reduction": ("none", "add", "mul", "max")}
OPERANDS = {"Clip": [["X", np.float32(-1)], ["X", "", np.float32(2)], ["X", "Y", np.float32(2)], ["X"]], "Dropout": [["X", np.float32(0.5)], ["X", np.float32(0.5), np.array(False)], ["X", np.float32(0.5), np.array(True)]],
            "Reshape": [["X", I64(2, 16)], ["X", I64(0, -1)], ["X", I64(1, 4, 2, 4)], ["X", I64(3, 2)]], "Pad": [["X", I64(0, 1, 0, 0, 0, 0, 0, 0)], ["X", I64(1, 0, 0, 0, 0, 0, 0, 0)], ["X", I64(0, 0, -1, 0, 0, 0, 0, 0)], ["X", I64(0, 1, 0, 1)], ["X", I64(1, 1), np.float32(2), I64(3)],
                     ["X", I64(0, 0, 1, 1, 0, 0, 1, 1), np.float32(2)]],
            "Gather": [["X", np.int64(1)], ["X", I64(0, -1)], ["X", I64(1, 0, 0, 1).reshape(2, 2)], [F(3, 4), "X"]], "Conv": [["X", F(2, 2, 2, 2)], ["X", F(2, 1, 2, 2), F(2)], ["X", F(3, 2, 2, 2), F(3)], ["X", "Y"]], "ConvTranspose": [["X", F(2, 3, 2, 2)], ["X", F(2, 1, 2, 2)]],
            "Gemm": [["X", F(6, 3)], ["X", F(3, 6), F(1, 3)], ["X", F(6, 3), F(1)], ["X", F(6, 3), np.float32(2)], [F(3, 6), "X"], [F(6, 3), "X"], ["X", "Y"]], "MatMul": [[F(3, 4), "X"], ["X", "Y"], ["X", F(2, 4, 3)], ["X", F(4)], ["X", F(6, 3)], [F(6, 1), "X"], ["X", F(2, 1, 4, 3)]],
            "Slice": [["X", I64(1), I64(3), I64(2)], ["X", I64(0, 1), I64(2, 4), I64(2, 3), I64(2, 2)]], "Tile": [["X", I64(2, 1, 1, 1)], ["X", I64(1, 1, 3, 1)], ["X", I64(2, 3)]], "Expand": [["X", I64(2, 2, 4, 4)], ["X", I64(3, 6)]], "Split": [["X", I64(1, 3)]],
            "ReduceSum": [["X"], ["X", I64(2, 3)], ["X", I64(0)], ["X", I64()]], "ReduceMean": [["X"], ["X", I64(-1)]], "Resize": [["X", "", "", I64(1, 2, 8, 8)], ["X", "", "", I64(1, 2, 3, 5)], ["X", "", np.array([1, 2, 1, 1], np.float32)], ["X", "", np.array([1, 1, 0.5, 1.5], np.float32)]],
            "BatchNormalization": [["X", F(6), F(6), F(6), np.arange(1, 7, dtype=np.float32)], ["X", F(3), F(3), F(3), np.arange(1, 4, dtype=np.float32)]], "Squeeze": [["X"]], "Concat": [["X", F(1, 1, 4, 4)], ["X"], [F(1, 1, 4, 4), "X", "Y"]],
            "Where": [[np.array([[True], [False]]), "X", np.float32(0)]], "Transpose": [], "PRelu": [["X", F(2, 1, 1)], ["X", F(4)]], "Pow": [["X", np.float32(3)], [np.float32(2), "X"], ["X", "Y"]]}
BIN = ("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean", "Sum", "And", "Or", "Xor", "Equal", "Greater", "Less", "GreaterOrEqual", "LessOrEqual", "Pow", "Mod", "BitShift", "BitwiseAnd", "BitwiseOr", "BitwiseXor")
for b in BIN:
    BASE.setdefault(b, ({}, ["X", "Y"]))
    OPERANDS.setdefault(b, [["X", F()], [F(), "X"], ["X", F(4)], ["X", F(2, 1, 1)], ["X", F(3, 1, 1, 1)], ["X", "X"], ["X", F(4, 1)], ["X", F(1, 2, 1, 4)], ["X"], ["X", "Y", F()], ["X", F(6)], ["X", F(5, 6)]])
SKIP = {"If", "Loop", "Scan", "Constant", "ConstantOfShape", "RandomNormal", "RandomUniform", "RandomNormalLike", "RandomUniformLike", "Bernoulli", "Multinomial", "Optional", "SequenceEmpty", "StringNormalizer", "ImageDecoder", "TfIdfVectorizer"}


def operators():
    import onnx
    return sorted({s.name for s in onnx.defs.get_all_schemas() if s.domain == "" and s.name not in SKIP})


def attributes(op, opset):
    import onnx
    try:
        s = onnx.defs.get_schema(op, opset)
    except onnx.defs.SchemaError:
        return
    T = onnx.defs.OpSchema.AttrType
    for a in s.attributes.values():
        if a.name in VAL:
            vals = VAL[a.name]
        elif a.type == T.INT:
            vals = VAL["int"]
        elif a.type == T.INTS:
            vals = VAL["ints"]
        elif a.type == T.FLOAT:
            vals = VAL["float"]
        else:
            continue
        for v in vals:
            yield a.name, v


def inputs(shape, dtype):
    n = int(np.prod(shape))
    X = np.stack([ints((n,), a, b, 9, 4, False) for a, b in ((5, 0), (4, 3), (7, 1), (2, 2))])
    return X.astype(dtype)


def build(op, attrs, operands, shape, ctx, opset, dtype):
    ns, ini, ins = [], [], []
    x, c = "x", shape[1] if len(shape) > 1 else 1
    conv = len(shape) == 4 and dtype != np.int32
    if ctx in ("in", "both") and conv:
        ns.append(node("Conv", ["x", "cw"], ["x1"], kernel_shape=[1, 1]))
        ini.append(("cw", ints((c, c, 1, 1), m=5, off=2).astype(dtype)))
        x = "x1"
    for k, o in enumerate(operands):
        if isinstance(o, str) and o == "X":
            ins.append(x)
        elif isinstance(o, str) and o == "Y":
            ns.append(node("Neg" if opset < 0 else "Relu", [x], ["y2"]) if not conv else node("Conv", [x, "yw"], ["y2"], kernel_shape=[1, 1]))
            if conv:
                ini.append(("yw", ints((c, c, 1, 1), 3, 1, m=5, off=2).astype(dtype)))
            ins.append("y2")
        elif isinstance(o, str):
            ins.append("")
        else:
            o = np.asarray(o)
            ini.append((f"i{k}", o.astype(dtype) if o.dtype == np.float32 and op not in ("Resize", "Upsample") else o))
            ins.append(f"i{k}")
    ns.append(node(op, ins, ["z"], **attrs))
    out = "z"
    if ctx in ("out", "both"):
        ns.append(node("Relu", ["z"], ["r"]))
        out = "r"
    return ns, ini, out


def make(ns, ins, outs, ini, opset):
    """The model, with the types and shapes of its outputs inferred."""
    import onnx
    from onnx import helper as h, numpy_helper as nh
    T = {np.float32: 1, np.float64: 11, np.int32: 6}
    g = h.make_graph(ns, "g", [h.make_tensor_value_info(i[0], T[i[2] if len(i) > 2 else np.float32], list(i[1])) for i in ins], [h.make_tensor_value_info(o, 0, None) for o, _ in outs], [nh.from_array(np.asarray(a), n) for n, a in ini])
    m = h.make_model(g, opset_imports=[h.make_opsetid("", opset)])
    m.ir_version = 8
    m = onnx.shape_inference.infer_shapes(m, strict_mode=True)
    onnx.checker.check_model(m)
    return m


def apart(f):
    """The array f() computes in another process, or None: onnxruntime may stop the process (division of integers by zero)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            b = io.BytesIO()
            np.save(b, np.asarray(f(), np.float64))
            with os.fdopen(w, "wb") as o:
                o.write(b.getvalue())
        except Exception:
            pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    return np.load(io.BytesIO(data)) if data else None


def one(op, attrs, operands, shape, ctx="none", opset=13, dtype=np.float32):
    import onnx
    ns, ini, out = build(op, attrs, operands, shape, ctx, opset, dtype)
    X = inputs(shape, dtype)
    try:
        want = apart(lambda: ort_run(make(ns, [("x", shape, dtype)], [(out, None)], ini, opset), X, shape))
        model = make(ns, [("x", shape, dtype)], [(out, None)], ini, opset) if want is not None else None
    except Exception:
        want = None
    if want is None:
        count("not a valid network")
        return []
    count("networks")
    ctype = None
    if "out" in ctx or ctx == "both":
        if np.isnan(want).any():
            count("undefined result")
            return []
    r = three_way(model, X.reshape(len(X), 1, -1), shape, want=want, ctype=ctype, rtol=2e-5, atol=2e-5, gen_kw={})
    if r and r[0][0] in ("import", "codegen"):
        count("refused")
        return []
    return [(a, f"{op} {attrs} {m}") for a, m in r]


def case(kind, op=None, shape="4d", ctx="none", opset=13, dtype="float32", pairs=None, net=None):
    dt = np.dtype(dtype).type
    if kind == "graph":
        return graph(net, shape)
    attrs, operands = BASE.get(op, ({}, ["X"]))
    fails = []
    if kind == "operands":
        for o in [operands, *OPERANDS.get(op, [])]:
            fails += one(op, attrs, o, SHAPES[shape], ctx, opset, dt)
    else:
        A = list(attributes(op, opset))
        for n, v in A if pairs is None else ():
            fails += one(op, {**attrs, n: v}, operands, SHAPES[shape], ctx, opset, dt)
        if pairs is not None:
            for (n, v), (n2, v2) in itertools.combinations(A, 2):
                if n == pairs and n2 > n:
                    fails += one(op, {**attrs, n: v, n2: v2}, operands, SHAPES[shape], ctx, opset, dt)
    return [(a, m) for a, m in fails]


GRAPHS = ("two outputs", "dead node", "dead branch last", "dead branch conv", "dead constant", "input not read", "two inputs", "input is output", "initializer is input", "initializer is output", "output read again", "duplicate output", "mask output", "indices output", "split", "constant node",
          "constant node dead", "unsorted", "same name", "empty", "identity output", "dropout output", "two dead", "symbolic", "batch symbolic", "double dead", "output order", "first of three", "bn outputs", "constant float", "constant ints", "constant typed")


def graph(net, shape):
    import onnx
    sh = SHAPES[shape]
    W = lambda k: (f"w{k}", ints((sh[1], sh[1], 1, 1), 3, k, 5, 2))
    C = lambda i, o, k: node("Conv", [i, f"w{k}"], [o], kernel_shape=[1, 1])
    base, ini = [C("x", "a", 1), node("Relu", ["a"], ["b"]), C("b", "c", 2)], [W(1), W(2), W(3)]
    ins, outs, kw = [("x", sh)], [("c", None)], {}
    if net == "two outputs":
        outs = [("b", None), ("c", None)]
    elif net == "output order":
        outs = [("c", None), ("b", None)]
    elif net == "first of three":
        outs = [("c", None), ("a", None), ("b", None)]
    elif net == "dead node":
        base.append(node("Sigmoid", ["b"], ["d"]))
    elif net == "dead branch last":
        base += [C("b", "d", 3), node("Relu", ["d"], ["e"])]
    elif net == "dead branch conv":
        base.insert(2, C("b", "d", 3))
    elif net == "two dead":
        base = [C("x", "p", 3), node("MaxPool", ["p"], ["q"], kernel_shape=[2, 2]), *base, C("c", "r", 1), node("Flatten", ["r"], ["s"])]
    elif net == "dead constant":
        ini.append(("unused", ints((3,))))
    elif net == "input not read":
        ins.append(("u", (1, 3)))
    elif net == "two inputs":
        ins.append(("u", sh))
        base.append(node("Add", ["c", "u"], ["d"]))
        outs = [("d", None)]
    elif net == "input is output":
        outs = [("x", None)]
    elif net == "initializer is input":
        ins.append(("w1", (sh[1], sh[1], 1, 1)))
    elif net == "initializer is output":
        outs = [("w1", None)]
    elif net == "output read again":
        outs = [("b", None)]
    elif net == "duplicate output":
        outs = [("c", None), ("c", None)]
    elif net in ("mask output", "dropout output"):
        base.append(node("Dropout", ["c"], ["d", "m"]))
        outs = [("d" if net[0] == "d" else "m", None)]
    elif net == "indices output":
        base.append(node("MaxPool", ["c"], ["d", "m"], kernel_shape=[2, 2]))
        outs = [("m", None)]
    elif net == "bn outputs":
        base.append(node("BatchNormalization", ["c", "s", "s", "s", "s"], ["d"]))
        ini.append(("s", np.ones(sh[1], np.float32)))
        outs = [("d", None)]
    elif net == "split":
        base += [node("Split", ["c"], ["d", "e"], axis=2), node("Sub", ["e", "d"], ["f"])]
        outs = [("f", None)]
    elif net in ("constant node", "constant node dead"):
        t = onnx.numpy_helper.from_array(ints((sh[1], 1, 1)))
        base.insert(0, node("Constant", [], ["k"], value=t))
        if net == "constant node":
            base.append(node("Add", ["c", "k"], ["d"]))
            outs = [("d", None)]
    elif net in ("constant float", "constant ints", "constant typed"):
        v = {"value_float": 2.0} if net == "constant float" else {"value_floats": [float(k) for k in range(sh[-1])]} if net == "constant ints" else {"value": onnx.helper.make_tensor("t", 1, (sh[1], 1, 1), [float(k + 2) for k in range(sh[1])])}
        base = [node("Constant", [], ["k"], **v), *base, node("Mul", ["c", "k"], ["d"])]
        outs = [("d", None)]
    elif net == "unsorted":
        base = base[::-1]
    elif net == "same name":
        for n in base:
            n.name = "n"
    elif net == "empty":
        base, outs = [], [("x", None)]
    elif net == "identity output":
        base.append(node("Identity", ["c"], ["d"]))
        outs = [("d", None)]
    elif net in ("symbolic", "batch symbolic"):
        ins = [("x", ("N", *sh[1:]) if net[0] == "b" else ("N", sh[1], "H", "W"))]
    elif net == "double dead":
        base.append(node("Softmax", ["b"], ["d"], axis=1))
        base.append(node("Concat", ["d", "c"], ["e"], axis=1))
    X = inputs(sh, np.float32)
    try:
        model = make(base, ins, outs, ini, 13)
        feed = {"x": sh, "u": sh if net == "two inputs" else (1, 3)}
        import onnxruntime as ort
        s = ort.InferenceSession(model.SerializeToString(), providers=["CPUExecutionProvider"])
        names = [i.name for i in s.get_inputs()]
        want = [s.run(None, {n: (X[i].reshape(sh) if n == "x" else np.zeros(feed["u"], np.float32)) for n in names if n in feed}) for i in range(len(X))]
    except Exception as e:
        count("not a valid network")
        return []
    count("networks")
    if net in ("output order", "first of three"):       # the others are intermediate values of the first
        want = [w[:1] for w in want]
    want = np.stack([np.concatenate([np.asarray(o, np.float64).reshape(-1) for o in w]) for w in want])
    before = model.SerializeToString()
    r = three_way(model, X.reshape(len(X), 1, -1), sh, want=want, rtol=1e-6, atol=1e-6, gen_kw={})
    if model.SerializeToString() != before:
        return [("mutated", f"graph {net}: importing it changed the network of the caller")]
    if r and r[0][0] in ("import", "codegen"):
        count("refused")
        return []
    return [(a, f"graph {net}: {m}") for a, m in r]


def classical(net, algo=None, opt=False):
    """A network of the classical kinds, which is to be accepted."""
    m, shape = NETS[net]()
    n = int(np.prod(shape))
    X = np.stack([np.sin(np.arange(n) * (.7 + .3 * k) + k) for k in range(4)] + [np.full(n, -1.0)]).astype(np.float32).reshape(5, 1, n)
    count("networks")
    return three_way(m, X, shape, rtol=2e-5, atol=2e-5, versions={"Conv2D": algo} if algo else None, gen_kw={"optimization": opt})


LARGE = {"wide": (1, 1, 2, 33000), "tall": (1, 1, 33000, 2), "deep": (1, 33000, 1, 2), "wide2": (1, 2, 1, 66000), "image": (1, 2, 190, 180)}


def large_ops(shape):
    _, C, H, W = shape
    I = lambda *s, m=7: ints(s, 5, 1, m, m // 2)
    k = lambda h, w: [min(h, H), min(w, W)]
    big = int(np.argmax(shape))
    pads = lambda n: [0, 0, n * (H > 1), n * (W > 1)] * 2
    sub = lambda d: [slice(None) if a != d else slice(shape[d] - 3, None) for a in range(4)]
    f = lambda *s: np.array(s, np.float32)
    i = lambda *s: np.array(s, np.int64)
    out = {
        "conv": ([("Conv", ["X", "w", "b"], dict(kernel_shape=k(3, 2)))], {"w": I(2, C, *k(3, 2)), "b": I(2)}),
        "conv1x1": ([("Conv", ["X", "w"], dict(kernel_shape=[1, 1]))], {"w": I(3, C, 1, 1)}),
        "convpad": ([("Conv", ["X", "w"], dict(kernel_shape=[3, 3], pads=[1, 1, 1, 1], strides=[1, 1] if big == 1 else [2, 2]))], {"w": I(1, C, 3, 3)}),
        "maxpool": ([("MaxPool", ["X"], dict(kernel_shape=[min(H, W, 2)] * 2, strides=[1, 1]))], {}),
        "avgpool": ([("AveragePool", ["X"], dict(kernel_shape=[min(H, W, 2)] * 2, strides=[1, 1]))], {}),
        "add": ([("Add", ["X", "c"], {})], {"c": I(*(shape[a] if a == big else 1 for a in range(4)), m=1001)}),
        "mulx": ([("Relu", ["X"], {}), ("Mul", ["X", "t0"], {})], {}),
        "concat": ([("Relu", ["X"], {}), ("Concat", ["X", "t0", "X"], dict(axis=big))], {}),
        "gather": ([("Gather", ["X", "i"], dict(axis=big))], {"i": i(shape[big] - 1, 0, shape[big] - 2, shape[big] // 2, 1)}),
        "elements": ([("GatherElements", ["X", "i"], dict(axis=big))], {"i": (np.arange(np.prod(shape)).reshape(shape) * 7919 % shape[big]).astype(np.int64)}),
        "transpose": ([("Transpose", ["X"], dict(perm=[0, 3, 1, 2]))], {}),
        "transpose2": ([("Transpose", ["X"], dict(perm=[0, 2, 3, 1]))], {}),
        "tile": ([("Tile", ["X", "r"], {})], {"r": i(1, 2, 1, 3)}),
        "reduce": ([("ReduceMax", ["X"], dict(axes=[big]))], {}),
        "mean": ([("ReduceMean", ["X"], dict(axes=[big]))], {}),
        "sum": ([("ReduceSum", ["X", "a"], {})], {"a": i(1, 2, 3)}),
        "bn": ([("BatchNormalization", ["X", "s", "b", "m", "v"], {})], {"s": I(C), "b": I(C), "m": I(C), "v": np.abs(I(C)) + 1}),
        "softmax": ([("Softmax", ["X"], dict(axis=3))], {}),
        "act": ([("Sigmoid", ["X"], {}), ("LeakyRelu", ["t0"], dict(alpha=.5))], {}),
        "matmul": ([("MatMul", ["X", "w"], {})], {"w": I(1, C, W, 2, m=3)}) if W > 2 else ([("MatMul", ["w", "X"], {})], {"w": I(1, C, 1, H, m=3)}),
        "gemm": ([("Flatten", ["X"], {}), ("Gemm", ["t0", "w", "b"], {})], {"w": I(int(np.prod(shape)), 2, m=3), "b": I(2)}),
        "nearest": ([("Resize", ["X", "", "", "z"], dict(mode="nearest"))], {"z": i(1, C, 2 * H, W)}),
        "linear": ([("Resize", ["X", "", "", "z"], dict(mode="linear"))], {"z": i(1, C, H, max(W // 2, 1))}),
        "cubic": ([("Resize", ["X", "", "", "z"], dict(mode="cubic"))], {"z": i(1, C, max(H // 3, 1), W)}),
    }
    for mode in ("constant", "edge", "reflect", "wrap"):
        out["pad " + mode] = ([("Pad", ["X", "p"], dict(mode=mode))], {"p": i(*pads(1))})
    return out


def large(op, shape, algo=None, fmt=None):
    """Tensors of more than 2^16 values, or with more than 2^15 or 2^16 along an axis."""
    shape = LARGE[shape]
    nodes, inits = large_ops(shape)[op]
    N = [node(o, ins, [f"t{j}" if j < len(nodes) - 1 else "Y"], name=f"n{j}", **kw) for j, (o, ins, kw) in enumerate(nodes)]
    m = infer(onnx_model(N, [("X", shape)], [("Y", ())], inits, opset=19 if "wrap" in op else 13))
    n = int(np.prod(shape))
    k = np.arange(n)
    X = np.stack([(k * a + k // 977 + b) % 13 - 6 for a, b in ((5, 0), (3, 2))]).astype(np.float32).reshape(2, 1, n)
    kw = {"gen_data_format": fmt} if fmt else {}
    tol = 0 if op[:4] in ("conv", "maxp", "add", "mulx", "conc", "gath", "elem", "tran", "tile", "redu", "near", "pad ", "sum") else 1e-3 if op in ("mean", "softmax", "cubic", "linear") else 2e-5
    return three_way(m, X, shape, rtol=tol, atol=tol, versions={"Conv2D": algo} if algo else None, gen_kw=kw)


def main():
    acx.import_target()
    c = acx.Check("C20", rule="one case per operator x shape x surrounding x data type, each running every operand arrangement or attribute value; every network onnxruntime accepts is either refused or compared")
    ops = operators()
    PAIRS = lambda ops, shapes: [x for op in ops for x in product("pairs ", kind=("attr",), op=(op,), shape=shapes, pairs=tuple(sorted({a for a, _ in attributes(op, 13)})))]
    q = union(
        product("ops ", kind=("operands",), op=ops, shape=("4d", "2d", "b2", "3d", "1d", "5d"), ctx=("none",)),
        product("ops ", kind=("operands",), op=ops, shape=("4d",), ctx=("both",)),
        product("attr ", kind=("attr",), op=ops, shape=("4d", "2d", "b2") if not c.thorough else tuple(SHAPES), ctx=("none",)),
        product("attr ", kind=("attr",), op=ops, shape=("4d",), ctx=("both",)),
        product("ops ", kind=("operands",), op=ops, shape=("4d", "2d"), opset=(9, 18) if c.thorough else (18,)),
        product("ops ", kind=("operands",), op=ops, shape=("4d", "2d"), dtype=("int32", "float64")),
        PAIRS(("MaxPool", "AveragePool", "Conv"), ("5x4",)),
        product("graph ", kind=("graph",), net=GRAPHS, shape=("4d",)),
    )
    if c.thorough:
        q += PAIRS(ops, ("4d", "5x4"))
    seen = set()
    q = [x for x in q if not (x[0] in seen or seen.add(x[0]))]
    real = [("net " + n, a) for n, a in product("", net=tuple(NETS), algo=(None, *(f"{a}_gemm_{b}" for a in ("std", "indirect") for b in ("nn", "nt", "tn", "tt"))), opt=(False, True))]
    big = [(f"large {o} {s}" + (f" {a}" if a else ""), dict(op=o, shape=s, algo=a)) for s in LARGE for o in large_ops(LARGE[s])
           for a in ((None, "6loops", *(f"{a}_gemm_{b}" for a in ("std", "indirect") for b in ("nn", "nt", "tn", "tt"))) if o[:4] == "conv" else (None,))]
    real += big
    c.run([(n, dict(a, f="case")) for n, a in q] + [(n, dict(a, f="large" if "op" in a else "classical")) for n, a in real if a["algo"] is None or a.get("net") != "mlp"], lambda f, **a: globals()[f](**a))
    c.assumptions = ["a network that onnxruntime refuses is not a network"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
