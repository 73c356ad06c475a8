"""Model builders shared by the checks. All weights and inputs are small integers, so
that every sum the layers form is exact in binary32 and results compare for equality."""
import numpy as np

from acx import node, onnx_model


def ints(shape, a=7, b=3, m=31, off=15, nozero=True):
    """Deterministic, varied small integers: element k is (a*k+b) mod m - off."""
    n = int(np.prod(shape)) if len(shape) else 1
    w = ((np.arange(n) * a + b) % m - off).astype(np.float32)
    if nozero:
        w[w == 0] = m - off
    return w.reshape(shape)


def basis(n, dense=((5, 0, 23, 11), (3, 1, 19, 6))):
    """The zero input, every unit impulse, and two dense inputs: determines an affine map."""
    X = np.zeros((n + 1 + len(dense), 1, n), np.float32)
    for k in range(n):
        X[k + 1, 0, k] = 1
    for i, (a, b, m, off) in enumerate(dense):
        X[n + 1 + i, 0] = (np.arange(n) * a + b) % m - off
    return X


def infer(m):
    import onnx
    for o in m.graph.output:
        o.type.tensor_type.ClearField("shape")
    return onnx.shape_inference.infer_shapes(m)
