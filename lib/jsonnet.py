"""JSON descriptions (the form acetone_nnet.json_from_keras_model writes) and an evaluation of them written from the definition of each Keras layer, on CHW tensors."""
import itertools
import json

import numpy as np

from acx import Bad, count, scratch, three_way

ACT = {"linear": lambda x: x, "relu": lambda x: np.maximum(x, 0), "tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "leaky_relu": lambda x: np.where(x < 0, 0.2 * x, x),
       "softmax": lambda x: np.exp(x - x.max()) / np.exp(x - x.max()).sum()}


def same(n, k, s, d=1):
    e = (k - 1) * d + 1
    o = -(-n // s)
    t = max((o - 1) * s + e - n, 0)
    return t // 2, t - t // 2


def windows(x, k, s, pad, d=1, fill=0.0):
    (pt, pb), (pl, pr) = pad
    x = np.pad(x, ((0, 0), (pt, pb), (pl, pr)), constant_values=fill)
    eh, ew = (k[0] - 1) * d + 1, (k[1] - 1) * d + 1
    for i in range((x.shape[1] - eh) // s + 1):
        for j in range((x.shape[2] - ew) // s + 1):
            yield i, j, x[:, i * s:i * s + eh:d, j * s:j * s + ew:d]


class Net:
    def __init__(self, shape, fmt="channels_last", dtype="float32"):
        self.fmt, self.dtype = fmt, dtype
        self.shape = [tuple(shape)]
        self.layers = [{"class_name": "InputLayer", "config": {"name": "in", "dtype": dtype, "size": int(np.prod(shape)), "input_shape": [None, *shape], "output_shape": [None, *shape], "idx": 0, "prev_layer_idx": []}}]
        self.fns = [None]
        self.k = 0

    def w(self, *s):
        self.k += 1
        n = np.arange(int(np.prod(s)))
        return (((n * 7 + 5 * self.k) % 5) - 2.0 + (n % 11 == 3)).reshape(s)

    def add(self, cls, prev=None, **cfg):
        i = len(self.layers)
        prev = [i - 1] if prev is None else prev
        ins = [self.shape[p] for p in prev]
        a = ins[0]
        L = {"class_name": cls, "config": {"name": f"{cls.lower()}_{i}", "dtype": self.dtype, "idx": i, "prev_layer_idx": prev, **cfg}}
        c = L["config"]
        act = None
        if cls == "Dense":
            W, b = self.w(a[-1], c["units"]), self.w(c["units"])
            L["weights"], L["biases"] = W.reshape(1, 1, *W.shape).tolist(), b.tolist()
            out, act = (c["units"],), ACT[c.setdefault("activation", "linear")]
            f = lambda x: x @ W + b
        elif cls == "Conv2D":
            k, s, d = c["kernel_size"], c.setdefault("strides", [1, 1]), c.setdefault("dilation_rate", [1, 1])
            W, b = self.w(*k, a[0], c["filters"]), self.w(c["filters"])
            L["weights"], L["biases"] = np.moveaxis(W, 2, 0).tolist(), b.tolist()
            act = ACT[c.setdefault("activation", "linear")]
            pad = ((0, 0), (0, 0)) if c.setdefault("padding", "valid") == "valid" else (same(a[1], k[0], s[0], d[0]), same(a[2], k[1], s[1], d[0]))
            out = (c["filters"], *[(a[1 + j] + sum(pad[j]) - (k[j] - 1) * d[0] - 1) // s[0] + 1 for j in (0, 1)])

            def f(x):
                y = np.zeros(out)
                for i_, j_, v in windows(x, k, s[0], pad, d[0]):
                    y[:, i_, j_] = np.einsum("chw,hwcf->f", v, W) + b
                return y
        elif cls in ("AveragePooling2D", "MaxPooling2D"):
            k, s = c["pool_size"], c.setdefault("strides", c["pool_size"])
            pad = ((0, 0), (0, 0)) if c.setdefault("padding", "valid") == "valid" else (same(a[1], k[0], s[0]), same(a[2], k[1], s[1]))
            out = (a[0], *[(a[1 + j] + sum(pad[j]) - k[j]) // s[0] + 1 for j in (0, 1)])
            op = np.nanmean if cls[0] == "A" else np.nanmax

            def f(x):
                y = np.zeros(out)
                for i_, j_, v in windows(x, k, s[0], pad, fill=np.nan):
                    y[:, i_, j_] = op(v, axis=(1, 2))
                return y
        elif cls == "Flatten":
            out = (int(np.prod(a)),)
            f = lambda x: (x.transpose(1, 2, 0) if self.fmt == "channels_last" and x.ndim == 3 else x).reshape(-1)
        elif cls in ("Add", "Multiply", "Subtract", "Maximum", "Minimum", "Average"):
            out = np.broadcast_shapes(*ins)
            op = {"Add": np.add, "Multiply": np.multiply, "Subtract": np.subtract, "Maximum": np.maximum, "Minimum": np.minimum, "Average": np.add}[cls]

            def f(*x):
                y = x[0]
                for v in x[1:]:
                    y = op(y, v)
                return y / len(x) if cls == "Average" else y
        elif cls == "Concatenate":
            ax = c["axis"]
            ax = (ax - 1 if ax > 0 else ax + 3)                       # without the batch
            if self.fmt == "channels_last":
                ax = (1, 2, 0)[ax]
            f = lambda *x: np.concatenate(x, ax)
            out = f(*[np.zeros(s) for s in ins]).shape
        elif cls == "ZeroPadding2D":
            p = c["padding"]
            p = [[p, p]] * 2 if isinstance(p, int) else [[v, v] if isinstance(v, int) else v for v in p]
            f = lambda x: np.pad(x, ((0, 0), *p))
            out = f(np.zeros(a)).shape
        elif cls == "BatchNormalization":
            ch = a[0]
            ga, be, mu = self.w(ch), self.w(ch), self.w(ch)
            va = np.array([3.5, 0.5, 15.5, 63.5])[np.arange(ch) % 4]
            c["epsilon"] = 0.5
            L["gamma"], L["beta"], L["moving_mean"], L["moving_var"] = ga.tolist(), be.tolist(), mu.tolist(), va.tolist()
            r = lambda v: v.reshape(-1, *[1] * (len(a) - 1))
            f = lambda x: (x - r(mu)) / np.sqrt(r(va) + 0.5) * r(ga) + r(be)
            out = a
        else:
            out, f = a, lambda x: x
        fmt4 = lambda s: [None, *s]
        c.update(size=int(np.prod(out)), input_shape=fmt4(ins[0]) if len(ins) == 1 else [fmt4(s) for s in ins], output_shape=fmt4(out))
        self.layers.append(L)
        self.shape.append(tuple(out))
        self.fns.append((prev, (lambda *x, f=f, act=act: act(f(*x))) if act else f))
        return i

    def dump(self, path):
        path.write_text(json.dumps({"class_name": "Functional", "config": {"data_format": self.fmt, "layers": self.layers}}))

    def eval(self, x):
        return self.values(x)[-1]

    def values(self, x):
        v = [x.astype(np.float64)]
        for prev, f in self.fns[1:]:
            v.append(f(*[v[p] for p in prev]))
        return v


def build(kind, fmt, dtype, op=None, post=None, shape=(3, 4, 4)):
    n = Net(shape if kind != "flat" else (6,), fmt, dtype)
    if kind != "deep":
        op, post = dict(OPS + WIDE).get(op), dict(OPS + WIDE).get(post)
    if kind in ("ops", "flat"):
        for o in (op, post):
            if o:
                n.add(o[0], **json.loads(json.dumps(o[1])))
    elif kind == "dense":
        n.add("Flatten")
        n.add("Dense", units=4, activation="relu")
        n.add("Dense", **op[1])
    elif kind == "merge":
        a = n.add("Conv2D", filters=3, kernel_size=[3, 3], padding="same")
        b = n.add("Conv2D", prev=[0], filters=3, kernel_size=[1, 1], activation="relu")
        n.add(op[0], prev=[b, a] if post is None else [a, b, 0], **op[1])
    elif kind == "skip":                       # layers that leave no trace, before the ones that refer to positions
        a = n.add("Dropout", rate=0.5)
        b = n.add("Conv2D", filters=3, kernel_size=[1, 1])
        c = n.add("Dropout", rate=0.5)
        d = n.add("Conv2D", prev=[a], filters=3, kernel_size=[1, 1], activation="relu")
        n.add("Subtract", prev=[c, d])
    elif kind == "deep":                       # more than ten layers, more than a hundred
        for j in range(post):
            if op == "dense":
                n.add("Dense", units=1 + j % 2, activation="relu" if j % 3 == 1 else "linear")
            elif op == "conv":
                n.add("Conv2D", filters=1 + j % 2, kernel_size=[1 + j % 2, 1], padding="same", activation=("relu", "linear", "leaky_relu")[j % 3])
                if j % 2:
                    n.add(("BatchNormalization", "Dropout")[j // 2 % 2], **({"rate": 0.5} if j // 2 % 2 else {}))
            else:                              # residual blocks, whose ends are named by their positions
                a = len(n.layers) - 1
                b = n.add("Conv2D", filters=n.shape[a][0], kernel_size=[1, 1], activation="relu")
                n.add("Dropout", rate=0.5)
                n.add("Add" if j % 2 else "Maximum", prev=[a, b + 1])
    elif kind == "soft":                       # a softmax in the middle
        n.add("Flatten")
        a = n.add("Dense", units=4)
        b = n.add("Dense", units=3, activation="softmax")
        c = n.add("Dropout", rate=0.5)
        n.add("Dense", units=3, activation="softmax")
        n.add("Dense", units=2)
    return n


OPS = (
    ("dense", ("Dense", {"units": 3})), ("dense relu", ("Dense", {"units": 3, "activation": "relu"})), ("dense tanh", ("Dense", {"units": 3, "activation": "tanh"})), ("dense sigmoid", ("Dense", {"units": 3, "activation": "sigmoid"})),
    ("dense leaky", ("Dense", {"units": 3, "activation": "leaky_relu"})), ("dense softmax", ("Dense", {"units": 3, "activation": "softmax"})),
    ("conv", ("Conv2D", {"filters": 2, "kernel_size": [3, 3]})), ("conv same", ("Conv2D", {"filters": 4, "kernel_size": [3, 2], "padding": "same", "activation": "relu"})), ("conv 23", ("Conv2D", {"filters": 2, "kernel_size": [2, 3]})),
    ("conv stride", ("Conv2D", {"filters": 2, "kernel_size": [2, 2], "strides": [2, 2]})), ("conv stride same", ("Conv2D", {"filters": 2, "kernel_size": [3, 3], "strides": [2, 2], "padding": "same"})),
    ("conv dil", ("Conv2D", {"filters": 2, "kernel_size": [2, 2], "dilation_rate": [2, 2]})), ("conv leaky", ("Conv2D", {"filters": 2, "kernel_size": [1, 1], "activation": "leaky_relu"})),
    ("max", ("MaxPooling2D", {"pool_size": [2, 2]})), ("max same", ("MaxPooling2D", {"pool_size": [3, 3], "strides": [2, 2], "padding": "same"})), ("avg", ("AveragePooling2D", {"pool_size": [2, 2], "strides": [1, 1]})),
    ("avg same", ("AveragePooling2D", {"pool_size": [2, 2], "strides": [2, 2], "padding": "same"})), ("flatten", ("Flatten", {})), ("bn", ("BatchNormalization", {})), ("drop", ("Dropout", {"rate": 0.5})), ("sdrop", ("SpatialDropout2D", {"rate": 0.5})),
    ("zp1", ("ZeroPadding2D", {"padding": 1})), ("zp2", ("ZeroPadding2D", {"padding": [1, 2]})), ("zp4", ("ZeroPadding2D", {"padding": [[1, 0], [2, 3]]})),
    ("Add", ("Add", {})), ("Multiply", ("Multiply", {})), ("Subtract", ("Subtract", {})), ("Maximum", ("Maximum", {})), ("Minimum", ("Minimum", {})), ("Average", ("Average", {})),
    ("cat1", ("Concatenate", {"axis": 1})), ("cat2", ("Concatenate", {"axis": 2})), ("cat3", ("Concatenate", {"axis": 3})), ("cat-1", ("Concatenate", {"axis": -1})), ("cat-2", ("Concatenate", {"axis": -2})), ("cat-3", ("Concatenate", {"axis": -3})),
)
# kernels smaller than the stride: nothing is padded, nor cropped
WIDE = tuple((f"{c[:4].lower()} {k}/{s}", (c, {("kernel_size" if c == "Conv2D" else "pool_size"): [k, k], "strides": [s, s], "padding": "same", **({"filters": 2} if c == "Conv2D" else {})}))
             for c in ("Conv2D", "MaxPooling2D", "AveragePooling2D") for k, s in ((1, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 4)))
# not described by one number per parameter, or not supported: refused, or right
ODD = (("LayerNormalization", {"axis": [3], "epsilon": 0.5}), ("UnitNormalization", {}), ("GroupNormalization", {}), ("ReLU", {}), ("Softmax", {"axis": -1}), ("UpSampling2D", {"scale": [2, 2]}), ("GlobalAveragePooling2D", {}), ("Conv2D", {"filters": 2, "kernel_size": [1, 1], "strides": [2, 3]}),
       ("MaxPooling2D", {"pool_size": [1, 2], "strides": [1, 1]}), ("AveragePooling2D", {"pool_size": [2, 2], "strides": [2, 3]}), ("Conv2D", {"filters": 2, "kernel_size": [2, 2], "strides": [2, 2], "dilation_rate": [1, 2]}))


def case(net, fmt, dtype="float32", op=None, post=None, shape=(3, 4, 4)):
    if net in ("type", "half"):  # a type of data that is not supported; a network of integers one parameter of which is not an integer
        n = build("ops", fmt, dtype, op)
        if net == "half":
            v = n.layers[1][post]
            while isinstance(v[-1], list):
                v = v[-1]
            v[-1] += 0.5
        with scratch() as d:
            n.dump(d / "net.json")
            r = three_way(str(d / "net.json"), np.zeros((1, 1, int(np.prod(n.shape[0]))), np.float32), (3, 4, 4), want=np.zeros((1, 1)), c=False, py=False)
        return [] if r and r[0][0] == "import" else [("accepted", f"{'type ' + dtype if net == 'type' else 'a network of integers with half a unit in ' + post} is not supported, and was accepted")]
    if net == "odd":
        n = Net(shape, fmt, dtype)
        n.add("Conv2D", filters=3, kernel_size=[1, 1])
        cls, cfg = ODD[op]
        try:
            n.add(cls, **json.loads(json.dumps(cfg)))
        except Exception:
            pass
        want = np.full((1, int(np.prod(n.shape[-1]))), np.nan)
        x = np.zeros((1, 1, int(np.prod(shape))), np.float32)
        with scratch() as d:
            n.dump(d / "net.json")
            r = three_way(str(d / "net.json"), x, shape, want=want, c=False)
        return [] if r and r[0][0] == "import" else [("accepted", f"{cls} {cfg} is not supported, and was accepted")]
    try:
        n = build(net, fmt, dtype, op, post, shape)
        k = np.arange(int(np.prod(n.shape[0])))
        X = np.stack([(k * a + b) % m - o for a, b, m, o in ((5, 0, 13, 6), (3, 1, 7, 3), (1, 0, 5, 4))]).astype(np.float32)
        want = [n.eval(x.reshape(n.shape[0])) for x in X]
        last = lambda v: v.transpose(1, 2, 0) if v.ndim == 3 and fmt == "channels_last" else v
        want = np.stack([last(v).reshape(-1) for v in want])
    except (ValueError, ZeroDivisionError, IndexError, np.exceptions.AxisError):
        count("not a valid network")
        return []
    if dtype == "int":
        X = X.astype(np.int64)
    rows = np.stack([last(x.reshape(n.shape[0])).reshape(1, -1) for x in X])
    exact = not any(a in str(v) for v in (op, post, net) for a in ("tanh", "sigmoid", "soft", "leaky", "Average", "aver"))
    fails = []
    whole = not any(a in str(v) for v in (op, post) for a in ("tanh", "sigmoid", "leaky", "avg", "Average", "bn", "soft"))
    with scratch() as d:
        n.dump(d / "net.json")
        for f in (str(d / "net.json"), d / "net.json")[: 1 if post else 2]:
            fails += three_way(f, rows, n.shape[0], want=want, ctype={"float64": "double", "int": "long int"}.get(dtype, "float"), rtol=0 if exact else 1e-5, atol=0 if exact else 1e-6)
    if dtype == "int" and not whole and fails and all(a == "import" for a, _ in fails):
        count("refused")         # integers cannot hold the results
        return []
    return fails


def cases(thorough):
    q = []
    J = lambda **kw: ("json " + ",".join(f"{k}={v}" for k, v in kw.items()), dict(kind="json", **kw))
    spatial = [n for n, o in OPS if n[:3] not in ("den", "Add", "Mul", "Sub", "Max", "Min", "Ave", "cat")]
    merge = [n for n, o in OPS if n[:3] in ("Add", "Mul", "Sub", "Max", "Min", "Ave", "cat")]
    for fmt in ("channels_last", "channels_first"):
        q += [J(net="ops", fmt=fmt, op=o, dtype=t, shape=s) for o in spatial for t in ("float32", "float64") for s in ((3, 4, 4), (2, 5, 3), (1, 4, 4))]
        q += [J(net="ops", fmt=fmt, op=a, post=b) for a in spatial for b in spatial if a != "flatten"]
        q += [J(net="dense", fmt=fmt, op=o, dtype=t) for o, _ in OPS[:6] for t in ("float32", "float64")]
        q += [J(net="merge", fmt=fmt, op=o, post=p) for o in merge for p in (None, "three") if not (o == "Subtract" and p)]
        q += [J(net=k, fmt=fmt) for k in ("skip", "soft")]
        q += [J(net="deep", fmt=fmt, op=o, post=k, dtype="float64", shape=(2, 4, 3) if o != "dense" else (4,)) for o, ks in (("dense", (13, 103)), ("conv", (12, 24)), ("res", (5, 12))) for k in ks]
        # integers: the layers whose results are integers
        whole = lambda o: not any(a in o for a in ("tanh", "sigmoid", "leaky", "avg", "Average", "bn", "soft"))
        q += [J(net="ops", fmt=fmt, op=o, dtype="int", shape=s) for o in spatial for s in ((3, 4, 4), (2, 5, 3)) if whole(o)]
        q += [J(net="ops", fmt=fmt, op=a, post=b, dtype="int") for a in spatial for b in ("conv", "max", "flatten") if b in spatial and whole(a) and a != "flatten"]
        q += [J(net="dense", fmt=fmt, op=o, dtype="int") for o, _ in OPS[:6] if whole(o)]
        q += [J(net="merge", fmt=fmt, op=o, post=p, dtype="int") for o in merge for p in (None, "three") if whole(o) and not (o == "Subtract" and p)]
        q += [J(net="skip", fmt=fmt, dtype="int")]
        # integers: the layers whose results are not
        real = lambda o: not whole(o)
        q += [J(net="ops", fmt=fmt, op=o, dtype="int", shape=s) for o in spatial for s in ((3, 4, 4), (2, 5, 3)) if real(o)]
        q += [J(net="ops", fmt=fmt, op=a, post=b, dtype="int") for a, b in [(a, "conv") for a in spatial if real(a)] + [("conv", b) for b in spatial if real(b)]]
        q += [J(net="dense", fmt=fmt, op=o, dtype="int") for o, _ in OPS[:6] if real(o)]
        q += [J(net="merge", fmt=fmt, op=o, post=p, dtype="int") for o in merge for p in (None, "three") if real(o)]
        q += [J(net="half", fmt=fmt, op=o, post=p, dtype="int") for o in ("conv", "conv same", "conv dil") for p in ("weights", "biases")]
        q += [J(net="type", fmt=fmt, op="conv", dtype=t) for t in ("float16", "int8", "int32", "int64", "bool", "string", "", "double", "uint8", "bfloat16", "mixed_float16")]
        q += [J(net="odd", fmt=fmt, op=i) for i in range(len(ODD))]
        q += [J(net="ops", fmt=fmt, op=o, shape=s) for o, _ in WIDE for s in ((2, 5, 7), (1, 6, 4), (2, 7, 3))]
    q += [J(net="flat", fmt="channels_last", op=a, post=b) for a, _ in OPS[:6] for b, _ in OPS[:6]]
    return q
