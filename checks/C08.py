"""C08: activation functions, over the whole range of the number format."""
import sys

import numpy as np

import acx
from acx import node, onnx_model, product, three_way, union
from models import infer

KW = {"LeakyRelu": "alpha"}


def act_nodes(act, arg, a, b, inits, opset, i=0):
    if act == "LeakyRelu":
        return [node("LeakyRelu", [a], [b], **({} if arg is None else {"alpha": arg}))]
    if act == "Clip":
        lo, hi, form = arg
        if opset < 11:
            return [node("Clip", [a], [b], **{k: v for k, v in (("min", lo), ("max", hi)) if v is not None})]
        ins = [a]
        for k, v in ((f"lo{i}", lo), (f"hi{i}", hi)):
            if v is None:
                ins.append("")
            else:
                inits[k] = np.array([v] if form == "1d" else v, inits["dt"])
                ins.append(k)
        while ins[-1] == "":
            ins.pop()
        return [node("Clip", ins, [b])]
    if act == "Silu":
        return [node("Sigmoid", [a], [b + "s"]), node("Mul", [a, b + "s"] if arg != "rev" else [b + "s", a], [b])]
    return [node(act, [a], [b])]


def grid(dtype, full):
    """Both signs x every (fourth) binary exponent x mantissas, zeros and, for 'full', infinities."""
    if dtype == "float":
        man = np.array([0, 1, 0x2AAAAA, 0x400000, 0x555555, 0x7FFFFF], np.uint32)
        e = np.arange(0, 255, dtype=np.uint32)
        b = ((e[:, None] << 23) | man[None, :]).reshape(-1)
        v = b.view(np.float32)
    else:
        man = np.array([0, 1, 0x5555555555555, 0xFFFFFFFFFFFFF], np.uint64)
        e = np.arange(0, 2047, 3, dtype=np.uint64)
        b = ((e[:, None] << np.uint64(52)) | man[None, :]).reshape(-1)
        v = b.view(np.float64)
    v = np.concatenate([v, np.arange(1, 200) * 0.5, np.arange(1, 64) / 64]).astype(v.dtype)
    v = np.concatenate([v, -v])
    if full:
        v = np.concatenate([v, np.array([np.inf, -np.inf], v.dtype)])
    return v


def case(act="Relu", arg=None, where="only", opt=False, dtype="float", act2=None, opset=13):
    from onnx import TensorProto as T
    t, nt = {"float": (T.FLOAT, np.float32), "double": (T.DOUBLE, np.float64)}[dtype]
    acts = [act] + ([act2] if act2 else [])
    vals = grid(dtype, full=where == "only" and act in ("Relu", "LeakyRelu", "Sigmoid", "Tanh", "Exp", "Clip"))
    if len(acts) > 1 or act in ("Silu", "Log") or where != "only":
        vals = vals[np.abs(vals) < 80]
    if "Log" in acts:
        vals = np.abs(vals)
        vals = vals[vals > 1e-30]
        if len(acts) > 1:
            vals = vals[(vals < 1e30)]
    n = vals.size
    inits = {"dt": nt}
    nodes, a = [], "X"
    if where in ("layer", "mid"):
        inits["two"] = np.array(-1.0, nt)
        nodes.append(node("Mul", ["X", "two"], ["x"]))
        a = "x"
        if "Log" in acts:
            inits["two"] = np.array(2.0, nt)
    for i, k in enumerate(acts):
        b = f"z{i}"
        nodes += act_nodes(k, arg, a, b, inits, opset, i)
        a = b
    if where == "mid":
        nodes.append(node("Add", [a, "X"], ["K"]))
        a = "K"
    inits.pop("dt")
    m = infer(onnx_model(nodes, [("X", (1, n), t)], [(a, (), t)], inits, opset=opset))
    X = np.stack([vals, vals[::-1]]).reshape(-1, 1, n)
    tr = any(k in ("Sigmoid", "Tanh", "Exp", "Log", "Silu") for k in acts)
    rtol = 1e-6 if where == "mid" or "LeakyRelu" in acts else 0
    want = acx.ort_run(m, X, (1, n)) if not (act == "LeakyRelu" and dtype == "double") else None
    if act == "Relu" and len(acts) == 1 and where == "only":
        want = np.maximum(X.reshape(2, -1), 0)
    if act == "Clip" and where == "only":
        want = np.clip(X.reshape(2, -1), *[None if b is None else nt(b) for b in arg[:2]]) if arg[:2] != (None, None) else X.reshape(2, -1)
    if act == "LeakyRelu" and len(acts) == 1 and where == "only":
        want = np.where(X.reshape(2, -1) < 0, X.reshape(2, -1) * nt(0.01 if arg is None else np.float32(arg)), X.reshape(2, -1))
    if tr and len(acts) == 1 and where == "only":          # onnxruntime's vector approximations are less accurate than the tolerance
        Z = X.reshape(2, -1).astype(np.longdouble)
        with np.errstate(all="ignore"):
            want = {"Sigmoid": lambda: 1 / (1 + np.exp(-Z)), "Tanh": lambda: np.tanh(Z), "Exp": lambda: np.exp(Z), "Log": lambda: np.log(Z),
                    "Silu": lambda: Z / (1 + np.exp(-Z))}[act]().astype(nt)
    return three_way(m, X, (1, n), want=want, rtol=3e-6 if tr else rtol, atol=3e-6 if tr else 1e-44 if dtype == "float" else 0, gen_kw={"optimization": True} if opt else None)


def main():
    acx.import_target()
    c = acx.Check("C08", rule="one case = one generated program (activation and its parameters x position in the network x optimisation x number type); the input holds "
                  "both signs of every binary32 exponent (every third binary64 exponent) with six (four) mantissas, halves up to 100 and infinities; "
                  "non-trivial when the reference outputs are not all equal")
    inf = float("inf")
    A = ("Relu", "Sigmoid", "Tanh", "Exp", "Log", "Silu")
    W = ("only", "layer", "mid")
    clips = [(lo, hi, f) for lo, hi in ((0.0, 6.0), (-1.0, 1.0), (0.1, 0.3), (None, 6.0), (-2.5, None), (None, None), (-inf, 3.0), (1e-5, 1e10), (2.0, 2.0), (0.12345678, 123456.78), (-1.2345678e-7, 1.2345678e-7)) for f in ("0d", "1d")]
    q = union(
        product(act=A, where=W, opt=(False, True), dtype=("float", "double")),
        product(act=("LeakyRelu",), arg=(None, 0.0, 0.25, 0.1, 1.0, 2.5, 1e-5, 1.2345678e-7, 0.12345678, 12345.678), where=W, opt=(False, True)),
        product(act=("LeakyRelu",), arg=(None, 0.25, 0.12345678, 1.2345678e-7), opt=(False, True), dtype=("double",)),
        product(act=("Clip",), arg=clips, where=W, opt=(False, True), dtype=("float", "double")),
        product(act=("Clip",), arg=[(0.0, 6.0, "attr"), (None, 1.0, "attr"), (-1.0, None, "attr")], opset=(10,), opt=(False, True)),
        product(act=("Relu", "Sigmoid", "Tanh", "Exp", "LeakyRelu"), act2=("Relu", "Sigmoid", "Tanh", "LeakyRelu", "Log"), where=("layer", "only"), opt=(False, True),
                keep=lambda act, act2, **k: not (act2 == "Log" and act != "Exp")),
        product(act=("Silu",), arg=("rev",), where=W, opt=(False, True)),
    )
    c.run(q, case)
    c.assumptions = ["mathematical definitions evaluated in extended precision (single activations) or onnxruntime (compositions) are the reference; "
                     "transcendental functions are compared to 3e-6, the others exactly",
                     "NaN inputs are outside the property"]
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
