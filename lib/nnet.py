"""Writer of .nnet files and exact reference."""
import numpy as np

from models import ints


def weights(sizes, k=0):
    W = [ints((sizes[i + 1], sizes[i]), 5 + k, 1 + i, 7, 3) for i in range(len(sizes) - 1)]
    B = [ints((sizes[i + 1],), 3, 2 + i + k, 5, 2) for i in range(len(sizes) - 1)]
    return W, B


def write(path, sizes, W, B, mins, maxs, means, ranges, header=("// a header line\n", "// by nobody\n"), comma=",", eol="\n", fmt=repr):
    row = lambda v: ",".join(fmt(float(x)) if not isinstance(x, int) else str(x) for x in v) + comma + eol
    s = "".join(h.rstrip("\n") + eol for h in header)
    s += row([len(W), sizes[0], sizes[-1], max(sizes)]) + row(list(sizes)) + row([0]) + row(mins) + row(maxs) + row(means) + row(ranges)
    for w, b in zip(W, B):
        s += "".join(row(r) for r in w) + "".join(row([x]) for x in b)
    path.write_bytes(s.encode())


def reference(X, W, B, norm=None, dtype=np.float64):
    """norm: (mins, maxs, means, ranges), the last mean and range being those of the outputs."""
    x = np.asarray(X, dtype).reshape(len(X), -1)
    if norm:
        mi, ma, me, ra = (np.asarray(v, dtype) for v in norm)
        n = x.shape[1]
        x = (np.clip(x, mi, ma) - me[:n]) / ra[:n]
    for i, (w, b) in enumerate(zip(W, B)):
        x = x @ np.asarray(w, dtype).T + np.asarray(b, dtype)
        if i < len(W) - 1:
            x = np.maximum(x, 0)
    if norm:
        x = x * ra[-1] + me[-1]
    return x
