"""Networks of the size and shape that are used: the classical architectures, reduced."""
import numpy as np

from acx import node, onnx_model
from models import infer


class Net:
    def __init__(self, shape, seed=0):
        self.n, self.I, self.k = [], {}, 0
        self.rng, self.shape = np.random.default_rng(seed), shape
        self.ch = {"X": shape[1]}

    def name(self):
        self.k += 1
        return f"t{self.k}"

    def op(self, kind, *ins, ch=None, **at):
        out = self.name()
        names = []
        for i, v in enumerate(ins):
            if isinstance(v, str):
                names.append(v)
            else:
                names.append(f"{out}_{i}")
                self.I[names[-1]] = v
        self.n.append(node(kind, names, [out], **at))
        self.ch[out] = ch or self.ch.get(ins[0] if isinstance(ins[0], str) else ins[1])
        return out

    def conv(self, x, f, k=3, bias=True, **at):
        c = self.ch[x]
        k = (k, k) if isinstance(k, int) else k
        w = (self.rng.standard_normal((f, c, *k)) * (1.5 / (c * k[0] * k[1])) ** .5).astype(np.float32)
        return self.op("Conv", x, w, *([(self.rng.standard_normal(f) / 5).astype(np.float32)] if bias else []), ch=f, kernel_shape=list(k), **at)

    def bn(self, x):
        c, r = self.ch[x], self.rng
        return self.op("BatchNormalization", x, *((a + r.random(c) * b).astype(np.float32) for a, b in ((.5, 1), (-.5, 1), (-.25, .5), (.5, 1))))

    def gemm(self, x, i, o, trans=1):
        w = (self.rng.standard_normal((o, i) if trans else (i, o)) * (1.5 / i) ** .5).astype(np.float32)
        return self.op("Gemm", x, w, (self.rng.standard_normal(o) / 5).astype(np.float32), transB=trans)

    def relu(self, x):
        return self.op("Relu", x)

    def model(self, out):
        return infer(onnx_model(self.n, [("X", self.shape)], [(out, ())], self.I)), self.shape


def lenet():
    n = Net((1, 1, 14, 14), 1)
    x = n.op("AveragePool", n.op("Tanh", n.conv("X", 6, 5, pads=[2, 2, 2, 2])), kernel_shape=[2, 2], strides=[2, 2])
    x = n.op("AveragePool", n.op("Tanh", n.conv(x, 11, 4)), kernel_shape=[2, 2], strides=[2, 2])
    x = n.op("Tanh", n.gemm(n.op("Flatten", x), 44, 20))
    return n.model(n.op("Softmax", n.gemm(x, 20, 10, 0), axis=1))


def vgg():
    n, x = Net((1, 3, 12, 12), 2), "X"
    for f, m in ((4, 2), (8, 2), (16, 1)):
        for _ in range(m):
            x = n.relu(n.conv(x, f, 3, pads=[1, 1, 1, 1]))
        x = n.op("MaxPool", x, kernel_shape=[2, 2], strides=[2, 2])
    return n.model(n.gemm(n.relu(n.gemm(n.op("Flatten", x), 16, 12)), 12, 5))


def resnet():
    n = Net((1, 3, 10, 10), 3)
    x = n.relu(n.bn(n.conv("X", 4, 3, False, pads=[1, 1, 1, 1])))
    for f, s in ((4, 1), (6, 2), (6, 1), (10, 2)):
        y = n.bn(n.conv(n.relu(n.bn(n.conv(x, f, 3, False, strides=[s, s], pads=[1, 1, 1, 1]))), f, 3, False, pads=[1, 1, 1, 1]))
        if n.ch[x] != f or s > 1:
            x = n.bn(n.conv(x, f, 1, False, strides=[s, s]))
        x = n.relu(n.op("Add", y, x))
    return n.model(n.gemm(n.op("Flatten", n.op("GlobalAveragePool", x)), 10, 6))


def inception():
    n, x = Net((1, 2, 9, 9), 4), "X"
    for f in (2, 3):
        a = n.relu(n.conv(x, f, 1))
        b = n.relu(n.conv(n.relu(n.conv(x, f + 1, 1)), f + 2, 3, pads=[1, 1, 1, 1]))
        c = n.relu(n.conv(n.relu(n.conv(x, f, (1, 3), auto_pad="SAME_UPPER")), f + 1, (3, 1), auto_pad="SAME_UPPER"))
        d = n.conv(n.op("MaxPool", x, kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1]), f, 1)
        x = n.op("MaxPool", n.op("Concat", a, b, c, d, axis=1, ch=4 * f + 3), kernel_shape=[3, 3], strides=[2, 2])
    return n.model(n.op("Flatten", n.op("ReduceMean", x, axes=[2, 3], keepdims=1)))


def unet():
    n, x, skips = Net((1, 2, 8, 12), 5), "X", []
    for f in (3, 5):
        x = n.relu(n.conv(x, f, 3, auto_pad="SAME_UPPER"))
        skips.append(x)
        x = n.op("MaxPool", x, kernel_shape=[2, 2], strides=[2, 2])
    x = n.relu(n.conv(x, 7, 3, pads=[1, 1, 1, 1]))
    for s in reversed(skips):
        x = n.op("Resize", x, np.zeros(0, np.float32), np.array([1, 1, 2, 2], np.float32), mode="nearest", coordinate_transformation_mode="asymmetric", nearest_mode="floor")
        x = n.relu(n.conv(n.op("Concat", x, s, axis=1, ch=n.ch[x] + n.ch[s]), n.ch[s], 3, pads=[1, 1, 1, 1]))
    return n.model(n.op("Sigmoid", n.conv(x, 1, 1)))


def squeeze_excite():
    n, x = Net((1, 3, 6, 6), 6), "X"
    for f in (4, 6):
        x = n.bn(n.conv(x, f, 3, False, pads=[1, 1, 1, 1]))
        x = n.op("Mul", x, n.op("Sigmoid", x))
        s = n.op("Sigmoid", n.conv(n.relu(n.conv(n.op("GlobalAveragePool", x), 2, 1)), f, 1))
        x = n.op("Mul", x, s)
    return n.model(n.op("Clip", n.conv(x, 3, 1), np.float32(-.5), np.float32(1.5)))


def densenet():
    n, x = Net((1, 2, 6, 6), 7), "X"
    for b in range(2):
        for _ in range(3):
            y = n.conv(n.relu(n.bn(x)), 3, 3, pads=[1, 1, 1, 1])
            x = n.op("Concat", x, y, axis=1, ch=n.ch[x] + 3)
        if not b:
            x = n.op("AveragePool", n.conv(n.relu(n.bn(x)), 4, 1), kernel_shape=[2, 2], strides=[2, 2])
    return n.model(n.op("ReduceMax", x, axes=[2, 3], keepdims=1))


def mlp():
    n = Net((1, 12), 8)
    r = n.rng
    x = n.op("Div", n.op("Sub", "X", r.random((1, 12)).astype(np.float32)), (1 + r.random((1, 12))).astype(np.float32))
    i = 12
    for o in (30, 25, 20, 15, 10):
        x = n.op("LeakyRelu", n.gemm(x, i, o, o % 2), alpha=.1)
        i = o
    return n.model(n.op("Add", n.op("Mul", n.gemm(x, 10, 4), np.float32([[2, 3, 4, 5]])), np.float32([[1, 0, -1, 2]])))


def control():
    """A controller that looks its gains up."""
    n = Net((1, 2, 5, 4), 9)
    p = n.op("Pad", "X", np.array([0, 0, 1, 2, 0, 0, 1, 2], np.int64), mode="reflect")
    a = n.op("MaxPool", n.conv(p, 4, (3, 5)), kernel_shape=[2, 2], strides=[1, 1])
    t = n.op("Transpose", a, perm=[0, 1, 3, 2])
    g = n.op("Gather", t, np.array([3, 0, 1, 1], np.int64), axis=1)
    m = n.op("Max", g, t, n.op("Mul", t, np.float32(.5).reshape(1, 1, 1, 1)))
    s = n.op("ReduceSum", n.op("Exp", n.op("Tanh", m)), np.array([3], np.int64), keepdims=1)
    return n.model(n.op("Sub", n.op("Log", s), n.op("ReduceMin", t, axes=[3], keepdims=1)))


def fcn(seed=10):
    """Convolutions, pooling and element-wise additions only: the channels_last code is provided for it."""
    n, x = Net((1, 3, 12, 10), seed), "X"
    for f, k, p in ((8, 3, 1), (70 - 6, 1, 0), (6, 3, 1), (6, 5, 2)):
        x = n.op("LeakyRelu", n.conv(x, f, k, pads=[p] * 4), alpha=.2)
    for _ in range(2):
        y = n.conv(n.relu(n.conv(x, 9, 3, pads=[1] * 4)), n.ch[x], 1)
        x = n.relu(n.op("Add", y, x))
    x = n.op("MaxPool", x, kernel_shape=[2, 2], strides=[2, 2])
    a = n.conv(x, 5, 3, pads=[1] * 4, strides=[2, 2])
    b = n.conv(n.op("Sub", n.conv(x, 4, 1), n.op("AveragePool", n.conv(x, 4, 1), kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1])), 5, 3, pads=[1] * 4, strides=[2, 2])
    return n.model(n.op("AveragePool", n.op("Max", a, b), kernel_shape=[2, 2], strides=[1, 1]))


NETS = {f.__name__: f for f in (lenet, vgg, resnet, inception, unet, squeeze_excite, densenet, mlp, control, fcn)}
