"""C17: a PyTorch program or a JSON description is imported as the network it describes, or refused.

Every sequence of up to 2 (thorough 3) operations of an alphabet, in both memory layouts, with every ending, plus every wiring of a residual block, and the parameters of each operation on its own;
against PyTorch's own evaluation. JSON descriptions: every operation, every chain of 2, wirings, against an evaluation of the description written from its definition."""
import itertools
import sys

import numpy as np

import acx
import jsonnet
from acx import Bad, count, product, scratch, three_way, union

SUP = ("conv3", "conv1", "convs2", "relu", "clamp", "bn", "pool", "poolp", "gap", "drop", "res", "cat")
ODD = ("group", "leaky", "relu6", "sigmoid", "avgpool", "convst", "convdil", "poolceil", "pooldil", "poolrect", "poolst", "addalpha", "addc", "mul", "sub", "catdim", "prelu", "softmax", "gn", "in", "gap2", "clampmin", "clampmax",
       "hardtanh", "inplace", "convsame", "convsame4", "convvalid", "view", "transpose", "relush", "addbias", "meanp", "convT", "bmm", "addmm", "gelu", "silu", "norelu", "twopool", "dil2", "k32", "k23", "catlast", "cat3", "pad",
       "upsample", "addself", "mulself", "bnna", "slice")
GROUPS = ("dw3", "dw1", "dw2s", "dwv", "dwm1", "dwm3", "g2x1", "g2x3", "g2x2", "conv3", "conv1", "convs2", "k23", "k32", "dil2", "convsame", "convvalid")
SHAPES = ((3, 4, 4), (1, 4, 4), (2, 1, 1), (2, 4, 6), (4, 6, 3))


def torch_net(seq, tail, shape, ctype):
    import torch
    import torch.nn as nn
    import torch.nn.functional as F
    count_w = [0]

    def w(*s):
        count_w[0] += 1
        k = np.arange(int(np.prod(s)))
        return torch.tensor((((k * 7 + 5 * count_w[0]) % 5) - 2 + (k % 11 == 3)).astype(np.float32).reshape(s))

    class Net(nn.Module):
        def __init__(self):
            super().__init__()
            self.ops = nn.ModuleList()
            x = torch.zeros((1, *shape))
            for op in seq:
                m = self.make(op, x)
                self.ops.append(m)
                with torch.no_grad():
                    x = m.eval()(x)
            self.fc = None
            if tail != "none":
                n = int(np.prod(x.shape[1:]))
                self.fc = lin(n, 5, tail != "linnb")

        def make(self, op, x):
            c = x.shape[1]

            def conv(co, k, bias=True, **kw):
                m = nn.Conv2d(c, co, k, bias=bias, **kw)
                with torch.no_grad():
                    m.weight.copy_(w(*m.weight.shape))
                    if bias:
                        m.bias.copy_(w(co))
                return m

            def bn(affine=True):
                m = nn.BatchNorm2d(c, eps=0.5, affine=affine)
                with torch.no_grad():
                    m.running_mean.copy_(w(c))
                    m.running_var.copy_(torch.tensor([3.5, 0.5, 15.5, -0.25])[torch.arange(c) % 4])
                    if affine:
                        m.weight.copy_(w(c) + 0.5)
                        m.bias.copy_(w(c))
                return m

            class Fn(nn.Module):
                def __init__(s, f, *mods):
                    super().__init__()
                    s.f, s.m = f, nn.ModuleList(mods)

                def forward(s, v):
                    return s.f(v, *s.m)
            B = nn.Parameter(w(1, c, 1, 1), requires_grad=False)

            class AddBias(nn.Module):
                def __init__(s):
                    super().__init__()
                    s.b = B

                def forward(s, v):
                    return s.b + v
            return {"conv3": lambda: conv(4, 3, padding=1), "conv1": lambda: conv(3, 1, bias=False), "convs2": lambda: conv(2, (3, 2), stride=2, padding=(1, 0)), "group": lambda: conv(c * 2, 3, padding=1, groups=c),
                    "relu": nn.ReLU, "clamp": lambda: Fn(lambda v: torch.clamp(v, -3.0, 5.0)), "bn": bn, "pool": lambda: nn.MaxPool2d(2), "poolp": lambda: nn.MaxPool2d(3, 1, 1),
                    "gap": lambda: nn.AdaptiveAvgPool2d(1), "drop": lambda: nn.Dropout(0.5), "res": lambda: Fn(lambda v, m: m(v) + v, conv(c, 3, padding=1)), "cat": lambda: Fn(lambda v, m: torch.cat([m(v), v], 1), conv(2, 1)),
                    "leaky": lambda: nn.LeakyReLU(0.5), "relu6": nn.ReLU6, "sigmoid": nn.Sigmoid, "avgpool": lambda: nn.AvgPool2d(2), "convst": lambda: conv(2, 2, stride=(2, 3)), "convdil": lambda: conv(2, 2, dilation=(1, 2), stride=2),
                    "poolceil": lambda: nn.MaxPool2d(3, 2, ceil_mode=True), "pooldil": lambda: nn.MaxPool2d(2, 1, dilation=2), "poolrect": lambda: nn.MaxPool2d((1, 2)), "poolst": lambda: nn.MaxPool2d(2, (2, 1)),
                    "addalpha": lambda: Fn(lambda v, m: torch.add(m(v), v, alpha=2), conv(c, 1)), "addc": lambda: Fn(lambda v: v + 2.0), "mul": lambda: Fn(lambda v, m: m(v) * v, conv(c, 1)), "sub": lambda: Fn(lambda v, m: m(v) - v, conv(c, 1)),
                    "catdim": lambda: Fn(lambda v, m: torch.cat([m(v), v], 2), conv(c, 1)), "prelu": nn.PReLU, "softmax": lambda: nn.Softmax(1), "gn": lambda: nn.GroupNorm(1, c, eps=0.5), "in": lambda: nn.InstanceNorm2d(c, eps=0.5),
                    "gap2": lambda: nn.AdaptiveAvgPool2d(2), "clampmin": lambda: Fn(lambda v: torch.clamp(v, min=-1.0)), "clampmax": lambda: Fn(lambda v: torch.clamp(v, max=2.0)), "hardtanh": lambda: nn.Hardtanh(-2.0, 3.0),
                    "inplace": lambda: nn.ReLU(inplace=True), "convsame": lambda: conv(2, 3, padding="same"), "convsame4": lambda: conv(2, (4, 2), padding="same"), "convvalid": lambda: conv(2, 2, padding="valid"),
                    "view": lambda: Fn(lambda v: v.reshape(v.shape)), "transpose": lambda: Fn(lambda v: v.transpose(2, 3)), "relush": lambda: Fn(lambda v, m: (lambda y: y + F.relu(y))(m(v)), conv(c, 1)), "addbias": AddBias,
                    "meanp": lambda: Fn(lambda v: v.mean((2, 3), keepdim=True)), "convT": lambda: nn.ConvTranspose2d(c, 2, 2), "bmm": lambda: Fn(lambda v: torch.matmul(v, v.transpose(2, 3))),
                    "addmm": lambda: Fn(lambda v: torch.baddbmm(v[0], v[0], v[0].transpose(1, 2) @ v[0]).unsqueeze(0)), "gelu": nn.GELU, "silu": nn.SiLU, "norelu": lambda: Fn(lambda v: -F.relu(v)),
                    "twopool": lambda: Fn(lambda v: F.max_pool2d(v, 2, 2) + F.avg_pool2d(v, 2, 2)), "dil2": lambda: conv(2, 2, dilation=2), "k32": lambda: conv(2, (3, 2), padding=(1, 0)), "k23": lambda: conv(2, (2, 3), padding=(0, 1)),
                    "catlast": lambda: Fn(lambda v, m: torch.cat([m(v), v], -1), conv(c, 1)), "cat3": lambda: Fn(lambda v: torch.cat([v, v, v], 1)), "pad": lambda: nn.ZeroPad2d((1, 0, 2, 1)), "upsample": lambda: nn.Upsample(scale_factor=2),
                    "addself": lambda: Fn(lambda v: v + v), "mulself": lambda: Fn(lambda v: v * v), "bnna": lambda: bn(False), "dw3": lambda: conv(c, 3, padding=1, groups=c), "dw1": lambda: conv(c, 1, groups=c), "dw2s": lambda: conv(c, 2, stride=2, groups=c, bias=False), "dwv": lambda: conv(c, 3, groups=c),
                    "dwm1": lambda: conv(2 * c, 1, groups=c), "dwm3": lambda: conv(2 * c, 3, padding=1, groups=c), "g2x1": lambda: conv(4, 1, groups=2), "g2x3": lambda: conv(4, 3, padding=1, groups=2), "g2x2": lambda: conv(4, 2, groups=2),
                    "slice": lambda: Fn(lambda v: v[:, :1])}[op]()

        def forward(self, x):
            for m in self.ops:
                x = m(x)
            if self.fc is not None:
                x = torch.flatten(x, 1)
                x = self.fc(x)
                if tail == "linrelu":
                    x = torch.relu(x)
                if tail == "linsig":
                    x = torch.sigmoid(x)
                if tail == "lin2":
                    return x, x + x
            return x

    def lin(n, m, bias):
        fc = nn.Linear(n, m, bias=bias)
        with torch.no_grad():
            fc.weight.copy_(w(m, n))
            if bias:
                fc.bias.copy_(w(m))
        return fc
    return Net().eval()


def torch_inputs(shape):
    n = int(np.prod(shape))
    k = np.arange(n)
    return np.stack([(k * a + b) % m - o for a, b, m, o in ((5, 0, 13, 6), (3, 1, 7, 3), (0, 0, 1, 0), (1, 0, 5, 4))]).astype(np.float32).reshape(4, *shape)


def torch_case(seq, tail="lin", shape=SHAPES[0], layout="cf", ctype="float", must=True, algo=None, fmt=None, opt=False):
    import torch
    torch.set_num_threads(1)
    try:
        net = torch_net(seq, tail, shape, ctype)
    except Exception:
        count("not a valid network")
        return []
    if ctype == "double":
        net = net.double()
    X = torch_inputs(shape)
    t = torch.tensor(X, dtype=torch.float64 if ctype == "double" else torch.float32)
    if layout == "cl":
        net, t = net.to(memory_format=torch.channels_last), t.contiguous(memory_format=torch.channels_last)
    prog = torch.export.export(net, (t[:1],))
    with torch.no_grad():
        want = [net.double()(v[None].double()) for v in t]
    if isinstance(want[0], tuple):
        want = [v[0] for v in want]
    four = want[0].dim() == 4
    last = layout == "cl" and not t[:1].is_contiguous()
    want = np.stack([(v.permute(0, 2, 3, 1) if four and last else v).numpy().reshape(-1) for v in want])
    if tail == "lin2":
        want[:] = np.nan
    rows = (X.transpose(0, 2, 3, 1) if last else X).reshape(len(X), 1, -1)
    exact = not {"softmax", "gn", "in", "gelu", "silu", "sigmoid"} & set(seq) and tail != "linsig"
    fails = three_way(prog, rows, shape, want=want, ctype=ctype, versions={"Conv2D": algo} if algo else None, gen_kw={"optimization": True} if opt else {"gen_data_format": "channels_last"} if fmt else None, rtol=0 if exact else 1e-5, atol=0 if exact else 1e-5)
    if fails and fails[0][0] in ("import", "codegen") and not must:
        count("refused")
        return []
    return fails


def case(kind, **kw):
    return torch_case(**kw) if kind == "torch" else jsonnet.case(**kw)


def main():
    acx.import_target()
    import torch
    c = acx.Check("C17", rule="one case per PyTorch program (sequence of operations, ending, layout, shape) and per JSON description; non-trivial: outputs not all equal")
    T = lambda seq, **kw: ("torch " + ">".join(seq) + "".join(f",{k}={v}" for k, v in kw.items()), dict(kind="torch", seq=seq, **kw))
    q = []
    depth = 3 if c.thorough else 2
    for n in range(1, depth + 1):
        for i, seq in enumerate(itertools.product(SUP, repeat=n)):
            q += [T(seq, tail=t, layout=l) for t in ("none", "lin") for l in ("cf", "cl") if n == 1 or (c.thorough and n == 2) or (t == "lin") == (l == "cf")]
    q += [T((op,), tail=t, shape=s, layout=l) for op in SUP for s in SHAPES[1:] for l in ("cf", "cl") for t in ("none", "lin")
          if not (op == "gap" and s[1] != s[2])]
    q += [T((*pre, op, *post), tail=t, must=False) for op in ODD for t in ("none", "lin") for pre in ((), ("conv3",)) for post in ((), ("relu",), ("conv1",))]
    q += [T(("conv3", "relu"), tail=t, must=t in ("linrelu", "linnb"), ctype=ct) for t in ("linrelu", "linnb", "linsig", "lin2") for ct in ("float", "double")]
    q += [T((op,), shape=s, layout=l, tail=t, algo="direct_block", fmt=1, must=False) for op in GROUPS for s in ((4, 4, 4), (2, 3, 5), (4, 5, 6), (3, 2, 2), (1, 4, 4)) for l in ("cf", "cl") for t in ("none",)]
    q += [T((a, r, b), shape=(4, 4, 4), layout=l, tail="none", algo="direct_block", fmt=1, must=False) for a in GROUPS for b in GROUPS for r in ("relu", "clamp") for l in ("cl",)]
    q += [T(seq, ctype="double") for n in (1, 2) for seq in itertools.product(SUP[:9:2], repeat=n)]
    q += [T(("res", *s, "res")) for n in (1, 2) for s in itertools.product(("relu", "bn", "cat", "pool", "drop"), repeat=n)] if c.thorough else []
    # networks of the size that is used: more than ten layers; the clamps keep the values exact
    deep = (("conv3", "clamp", "bn", "clamp", "res", "clamp", "conv1", "clamp", "cat", "clamp", "conv3", "clamp", "pool", "res", "clamp"), ("conv3", "bn", "clamp") * 5, ("conv1", "relu", "clamp", "drop") * 4, ("res", "clamp") * 7,
            ("cat", "conv1", "clamp") * 4, ("conv1", "clamp") * 52, ("clamp", "bn") * 6, ("conv3", "relu", "conv3", "bn", "clamp", "pool") + ("conv1", "relu", "clamp") * 4 + ("gap",))
    q += [(f"torch deep {i},{t},{l},opt={o}", dict(kind="torch", seq=s, tail=t, layout=l, shape=(2, 6, 6), must=True, opt=o)) for i, s in enumerate(deep) for t in ("none", "lin", "linrelu") for l in ("cf", "cl") for o in (False, True)]
    q += jsonnet.cases(c.thorough)
    c.run(q, case)
    c.assumptions = ["weights and inputs are small integers or dyadic: single precision loses nothing"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
